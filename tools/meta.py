#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand; no check depends on it)."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note))

T = 'src/task/'
RENDER_NOTE = ("Generated-input search: documents sampled from a structured generator, so absence of a violation is not a proof. Trusts the reference renderer of the harness "
               "(SVG 1.1 display list; rasterisation, font metrics and filter arithmetic are compared symbolically) and the exclusions counted in the evidence.")
RENDER_TECH = "property-based testing: structured SVG generator, differential rendering of input and output with an independent reference renderer, shrinking"
RENDER_OBS = ["the SVG written by cleaner::write_buffer, re-parsed by the harness' own XML parser and rendered by its reference renderer"]

prop("P01", "Default cleaning preserves the rendered image",
  "For every valid, supported static SVG document, the file written with the default options renders to the same image as the original: the same painted items in the same order, with the same geometry, paint, stroke, text, opacity, clipping, masking and filtering, up to the documented numeric precision. A valid document is never rejected, and the output can always be rendered.",
  ["inputs"], "all valid supported SVG 1.1 documents, default options",
  "The unit tests run one task at a time on about 300 hand-written fragments and compare text; the image depends on the interaction of about 40 tasks on arbitrary documents.",
  ["src/cleaner.rs", "src/task/*.rs"], [("order of the cleaning tasks", "src/cleaner.rs: clean_doc"), ("preconditions of every task", "src/task/*.rs")], RENDER_OBS, RENDER_TECH, RENDER_NOTE)
prop("P02", "Any combination of cleaning options preserves the rendered image",
  "For every valid, supported static SVG document and every combination of cleaning options that is allowed together, the output renders to the same image as the original. No option depends for its correctness on another option being on or off.",
  ["inputs", "configurations"], "all valid supported SVG 1.1 documents x all 2^43 flag combinations (minus the documented dependencies), list separators, indents, style joining modes and high precisions",
  "Tests use the default or a single-task configuration; 2^43 combinations of options times documents can't be enumerated.",
  ["src/cleaner.rs", "src/task/*.rs", "src/cli.rs", "src/options.rs"], [("task switches", "src/cleaner.rs: clean_doc"), ("option dependencies", "src/cli.rs: check_values")], RENDER_OBS, RENDER_TECH, RENDER_NOTE)
prop("P03", "Path processing preserves path geometry",
  "For every valid path, converting to relative coordinates, removing unused segments, converting segments to shorter ones, applying a transform and compact writing keep every subpath: its curve, its direction, whether it is closed, and with it fill, stroke, caps, joins and markers, up to the path precision. This holds for every notation of the path data: relative and absolute, implicit commands, joined arc flags, exponents and missing separators.",
  ["inputs", "configurations"], "all valid path data x all path options",
  "Tests sample single segments; a path is an unbounded sequence where each command depends on the previous ones (current point, reflected control points, subpath start).",
  [T + "paths/*.rs", T + "paths/mod.rs"], [("conversion to relative and back", T + "paths/conv_to_relative.rs, conv_to_absolute.rs"), ("segments removal", T + "paths/rm_unused.rs"), ("segments conversion", T + "paths/conv_segments.rs"), ("transform", T + "paths/apply_transform.rs")], RENDER_OBS, RENDER_TECH, RENDER_NOTE)
prop("P04", "Output notation never changes values",
  "With every cleaning task off, the output contains exactly the elements, attribute values, texts, comments (outside of texts) and the XML declaration of the input, whatever notation the input uses and whatever output format is selected (indent, list separator, trimmed colors and paths, implicit commands, simplified transforms, joined style attributes). Only the notation of numbers, colors, transforms, points and path data may differ, never the value.",
  ["inputs", "configurations"], "all documents and notations x all output options, with the cleaning tasks off",
  "Tests fix the writing options; the notation space of numbers, colors, transforms and paths times the formats is unbounded.",
  ["src/cleaner.rs", "src/cli.rs", T + "join_style_attrs.rs", T + "final_fixes.rs", T + "round_numbers.rs"], [("write options", "src/cli.rs: gen_write_options"), ("conservative defaults", "src/options.rs: CleaningOptions::default")], ["the written SVG compared with the input as a tree of values"],
  "property-based testing: round-trip of documents in random notation through parse and write, compared by value with an independent XML/attribute parser", "Sampled documents and notations. Trusts the value parsers of the harness.")
prop("P05", "Numbers are rounded only by the selected precision of their kind",
  "Every number of the output differs from the original one by at most half of a unit of the last kept digit of the precision selected for its kind: coordinates and translations, properties, transform matrix components, and path data each use their own precision. Rounding never changes the sign, turns a number into a non-number, or affects numbers of another kind.",
  ["inputs", "configurations"], "all numeric values x all precisions 1..12 of four kinds",
  "Tests round a handful of values with one precision; kinds x precisions x magnitudes are unbounded.",
  [T + "round_numbers.rs", T + "paths/*.rs", "src/options.rs"], [("rounding", T + "round_numbers.rs: round_numbers"), ("path rounding", T + "paths/mod.rs")], ["numbers of the written SVG compared with the input numbers"],
  "property-based testing: per-number comparison with a reference rounding model over random values and precisions", "Sampled values. The kind of each attribute is fixed by the model of the harness (documentation of the precision options).")
prop("P06", "Gradient processing preserves painted gradients",
  "Removing duplicated gradients, merging and regrouping gradients and stops, removing invalid stops, needless or default gradient attributes, and applying transforms to gradients keep the gradient painted on every element: geometry, units, spread, transform and the resulting color ramp, including everything inherited through linked gradients. A gradient that paints a solid color or nothing keeps doing so.",
  ["inputs", "configurations"], "all graphs of linked gradients and their uses x gradient options",
  "Tests use two or three gradients with one reason to (not) merge; the decision depends on the whole graph of links and users.",
  [T + "rm_dupl_defs/*.rs", T + "merge_gradients.rs", T + "regroup_gradient_stops.rs", T + "rm_invalid_stops.rs", T + "rm_gradient_attrs.rs", T + "resolve_gradients.rs", T + "apply_transforms/*.rs"], [("duplicate detection", T + "rm_dupl_defs/mod.rs"), ("merging into the only user", T + "merge_gradients.rs"), ("common stops", T + "regroup_gradient_stops.rs"), ("attribute resolving through links", T + "resolve_gradients.rs")], RENDER_OBS, RENDER_TECH, RENDER_NOTE)
prop("P07", "Transform processing preserves placement",
  "Applying, simplifying, moving or removing transforms keeps the position, shape, stroke width, gradient, pattern and clipping geometry of every painted item. A transform is moved into coordinates only where the result is exactly the same for everything that depends on the user space of that element.",
  ["inputs", "configurations"], "all documents with transform lists (matrix, translate, scale, rotate, skew, degenerate ones) x transform options",
  "Tests apply translate/scale to single elements; correctness depends on strokes, gradients, clip paths, units and references around the element.",
  [T + "apply_transforms/*.rs", T + "paths/apply_transform.rs", T + "rm_default_transform.rs", T + "ungroup_groups.rs", T + "group_by_style.rs"], [("shape transforms", T + "apply_transforms/shapes.rs"), ("gradient transforms", T + "apply_transforms/gradients.rs"), ("path transforms", T + "paths/apply_transform.rs")], RENDER_OBS, RENDER_TECH, RENDER_NOTE)
prop("P08", "Ungrouping and grouping preserve the image",
  "Ungrouping groups and grouping elements by common style keep inheritance, painting order, group opacity, clipping, masking, filters and transforms of every painted item. Groups that are referenced, used as a switch child, or otherwise carry a meaning of their own keep that meaning.",
  ["inputs", "configurations"], "all nestings of groups with all inheritable and non-inheritable attributes x grouping options",
  "Tests cover a few nestings of one or two attributes; the space of attribute combinations over nested groups is unbounded.",
  [T + "ungroup_groups.rs", T + "group_by_style.rs", T + "ungroup_defs.rs", T + "rm_needless_attrs.rs"], [("ungroup preconditions", T + "ungroup_groups.rs"), ("grouping", T + "group_by_style.rs")], RENDER_OBS, RENDER_TECH, RENDER_NOTE)
prop("P09", "Processing of use and defs preserves the image",
  "Moving referenced elements into definitions, removing unused definitions, ungrouping definitions and replacing a use element by its content keep the image: everything shown by a use element stays shown once per use, at the same place, with the style inherited from that use. Content that is never rendered directly does not become visible.",
  ["inputs", "configurations"], "all graphs of use/symbol/defs references x defs options",
  "Tests resolve single uses; visibility and inheritance depend on the whole reference graph and on where the referenced element lives.",
  [T + "group_defs.rs", T + "resolve_use.rs", T + "rm_unused_defs.rs", T + "ungroup_defs.rs"], [("moving to defs", T + "group_defs.rs"), ("use resolving", T + "resolve_use.rs"), ("unused defs", T + "rm_unused_defs.rs")], RENDER_OBS, RENDER_TECH, RENDER_NOTE)
prop("P10", "Styles, CSS classes, inherit and currentColor keep computed values",
  "Whatever way a property is given - presentation attribute, style attribute, CSS rule, inherit, currentColor, or inheritance from a parent or a use element - every painted item has the same computed properties in the output. Joining, removing default or needless attributes and resolving of classes never changes a computed value.",
  ["inputs", "configurations"], "all placements of properties over attributes, style, CSS rules and ancestors x style options",
  "Tests check one property with one source; the cascade depends on all sources and ancestors together.",
  [T + "resolve_inherit.rs", T + "rm_default_attrs.rs", T + "rm_needless_attrs.rs", T + "join_style_attrs.rs", "src/cleaner.rs"], [("inherit resolving", T + "resolve_inherit.rs"), ("default attributes", T + "rm_default_attrs.rs"), ("style joining", T + "join_style_attrs.rs")], RENDER_OBS, RENDER_TECH, RENDER_NOTE)
prop("P11", "Text content and text properties are preserved",
  "Every painted text keeps its characters, white space as rendered (including xml:space), positions, rotation and lengths, its chunks and tspan/tref/textPath structure, and all font and text properties that affect it. Removing text attributes never removes one that is inherited by a text somewhere below or through a reference.",
  ["inputs", "configurations"], "all text documents (nested tspan, xml:space, position lists, font properties on ancestors and uses) x text options",
  "Tests cover few text documents; white space and inheritance of font properties depend on the whole subtree and on references to it.",
  [T + "rm_text_attrs.rs", T + "rm_needless_attrs.rs", T + "rm_unused_coords.rs", T + "rm_default_attrs.rs"], [("text attributes", T + "rm_text_attrs.rs")], RENDER_OBS, RENDER_TECH, RENDER_NOTE)
prop("P12", "References stay intact and ids stay unique",
  "In every output each reference (xlink:href, url() and CSS-derived links) that resolved in the input resolves to an element of the same kind, no two elements share an id, and an id is removed only when nothing references it. Trimmed ids are valid, unique and never longer than needed, however many ids the document has and whatever ids it already uses.",
  ["inputs", "configurations"], "all reference graphs and id sets (including ids equal to the generated ones) x all options",
  "Tests trim a handful of ids; collisions and dangling links only show up on larger graphs and combined tasks.",
  [T + "trim_ids.rs", T + "rm_unref_ids.rs", T + "rm_unused_defs.rs", T + "rm_dupl_defs/*.rs", T + "group_defs.rs"], [("short id generation", T + "trim_ids.rs"), ("unreferenced ids", T + "rm_unref_ids.rs")], ["ids and references of the written SVG"],
  "property-based testing: random reference graphs with many ids, invariants on the id/reference graph of the output against the input graph", "Sampled documents; the reference graph is extracted by the harness' own XML parser.")
prop("P13", "The output is well-formed and stable under re-parsing",
  "Every output is a well-formed, namespace-correct UTF-8 XML document with an svg root element, for every text, attribute, comment, CDATA, entity, processing instruction or character reference of the input. The cleaner accepts its own output.",
  ["inputs", "configurations"], "all documents with arbitrary character data and XML constructs x all options",
  "Tests contain almost no escaping; character data is unbounded.",
  ["src/cleaner.rs", T + "final_fixes.rs", "src/cli.rs"], [("writing", "src/cleaner.rs: write_buffer"), ("namespaces", T + "final_fixes.rs: fix_xmlns_attribute")], ["bytes of the written SVG, checked by an independent XML parser"],
  "property-based testing: hostile character data and XML constructs, output checked by an independent strict XML parser and fed back", "Sampled documents; limits of the svgdom writer are excluded and counted.")
prop("P14", "No input crashes, hangs or exhausts the cleaner",
  "For every byte sequence given as input, valid or not, and every set of options, the cleaner terminates in bounded time and memory with either a document or an error. It never panics, aborts, overflows the stack or loops forever, including on reference loops and self-references.",
  ["inputs", "configurations"], "all inputs (valid, mutated, truncated, cyclic) x all options",
  "Tests feed well-behaved fragments; crashes live on malformed values and reference cycles.",
  ["src/cleaner.rs", "src/main.rs", T + "preclean_checks.rs", T + "fix_attrs.rs", T + "*.rs"], [("checks before cleaning", T + "preclean_checks.rs"), ("invalid attribute fixing", T + "fix_attrs.rs")], ["termination, exit status and panics of the cleaning run"],
  "fuzzing: structure-aware mutation of generated documents and reference graphs, each case watched for panics, crashes and hangs in a separate process", "Sampled inputs; nesting depth and size are bounded by the generator. Panics inside the parser dependency on inputs listed in DESIGN.md are excluded by construction.")
prop("P15", "Unsupported documents are rejected, supported ones are not",
  "A document with scripts, animation, event handlers, conditional attributes, external references other than those of images and links, or crosslinked gradients is always rejected with an error and never written, and the error names the cause. A document without them is never rejected for such a reason.",
  ["inputs"], "all documents with and without each kind of unsupported content, at every place",
  "Tests try one document per kind; the content can be anywhere, in any element and combination.",
  [T + "preclean_checks.rs", "src/error.rs", "src/cleaner.rs"], [("checks before cleaning", T + "preclean_checks.rs")], ["the result of the cleaning run"],
  "property-based testing: random injection of supported and unsupported constructs, the verdict of the cleaner compared with an independent predicate", "Sampled documents.")
prop("P16", "Removal options remove exactly what they name",
  "When a removal option (comments, declarations, title, desc, metadata, non-SVG elements and attributes, version, unreferenced ids, unused definitions) is on, nothing of that kind is left in the output; when it is off, all content of that kind is kept with its value. No other content is removed because of it.",
  ["inputs", "configurations"], "all documents with such content at every place x all combinations of the removal options",
  "Tests check single placements; completeness and exactness are over all placements and combinations.",
  [T + "rm_elems.rs", T + "rm_version.rs", T + "rm_unref_ids.rs", T + "rm_unused_defs.rs", "src/cli.rs", "src/cleaner.rs"], [("element removal", T + "rm_elems.rs"), ("parse options", "src/cli.rs: gen_parse_options")], ["nodes and attributes of the written SVG"],
  "property-based testing: documents tagged with removable content, the inventory of the output compared with the inventory expected from the options", "Sampled documents; the inventory is taken by the harness' own XML parser.")
prop("P17", "Command line options map exactly to behaviour",
  "Each command line flag switches exactly the documented behaviour: the values true/yes/y and false/no/n are equivalent notations, the defaults are the documented ones, --no-defaults turns off every cleaning option that is not given explicitly, and invalid values or combinations are refused. Order of the arguments does not matter.",
  ["configurations"], "all argument lists over all flags and values",
  "Tests check no argument lists at all; 2^43 combinations.",
  ["src/cli.rs", "src/options.rs", "data/help.txt", "docs/svgcleaner.adoc"], [("option parsing", "src/cli.rs: gen_cleaning_options, gen_parse_options, gen_write_options, check_values")], ["cleaning, parsing and writing options made from an argument list"],
  "property-based testing: random argument lists, the resulting options compared with a reference model written from the documentation", "Sampled argument lists; the model is written from data/help.txt.")
prop("P18", "The command line never damages files",
  "The input file is never modified unless it is also the output file; the output file is either left as it was or replaced by a complete result, for every error (unreadable or malformed input, refused document, result bigger than the original, unwritable target). With --copy-on-error a failed cleaning leaves an exact copy of the input at the output path.",
  ["inputs", "configurations", "fault_sequences"], "all inputs x file states x CLI options, including failures",
  "Tests never run the binary on files.",
  ["src/main.rs", "src/cleaner.rs", "src/cli.rs"], [("error handling and saving", "src/main.rs: main"), ("saving", "src/cleaner.rs: save_file")], ["files before and after a run of the real binary in a scratch directory"],
  "property-based testing: model-based runs of the real binary over random file states and options in a scratch directory", "Sampled runs of the binary; file system faults limited to missing, unreadable, directory and unwritable targets.")
prop("P19", "All interfaces give the same deterministic result",
  "For every document and options the result is the same bytes whether the document is read from a file or the standard input and written to a file or the standard output, and is the same as the one of the library. The result depends only on the input and the options: repeated runs give identical bytes.",
  ["inputs", "configurations"], "all documents x options x input/output interfaces",
  "Tests call single tasks in process; nothing runs the binary or repeats a run.",
  ["src/main.rs", "src/cleaner.rs", "src/cli.rs"], [("input and output selection", "src/cli.rs: input, output"), ("main loop", "src/main.rs: main")], ["bytes from the binary via file/stdin/stdout, and from the library"],
  "property-based testing: differential runs of the binary through every interface and the library in process", "Sampled documents.")
prop("P20", "Repeated cleaning converges and stays correct",
  "Cleaning an output again, and the multipass mode, never break the document: every pass is accepted, keeps the image, and the multipass mode always terminates with a result not bigger than that of a single pass. The result of multipass is what repeated single passes give.",
  ["inputs", "configurations", "histories"], "all documents x options x number of passes",
  "Tests clean once.",
  ["src/main.rs", "src/cleaner.rs"], [("multipass loop", "src/main.rs: main")], ["the sequence of outputs of repeated passes"],
  "property-based testing: histories of repeated passes checked against the rendering oracle and a model of the multipass loop", RENDER_NOTE)
prop("P21", "Filters keep their effect",
  "Every element keeps its filter effect: primitives, their order, inputs, subregions and attributes, units and the filter region, after removing duplicated filters, invisible elements, default attributes, and after moving filters or the filtered elements. Filters that hide an element keep hiding it.",
  ["inputs", "configurations"], "all filters (all primitives, links, units) and filtered elements x options",
  "Tests use two or three filters; the effect depends on the primitives chain, on units and on the bounding box of the filtered element.",
  [T + "rm_dupl_defs/fe_gaussian_blur.rs", T + "rm_invisible_elems.rs", T + "rm_default_attrs.rs", T + "rm_dupl_defs/mod.rs"], [("duplicated blurs", T + "rm_dupl_defs/fe_gaussian_blur.rs"), ("invalid filters", T + "rm_invisible_elems.rs")], RENDER_OBS, RENDER_TECH, RENDER_NOTE)
prop("P23", "Clip paths, masks, patterns and markers keep their effect",
  "Everything that is clipped, masked, painted with a pattern or decorated with markers stays so with the same content, units and geometry, including nested and linked ones, after removing invisible elements, moving definitions, ungrouping and transforms. Empty or invalid ones keep their effect too (hiding the element, or no effect).",
  ["inputs", "configurations"], "all graphs of clip paths, masks, patterns and markers x options",
  "Tests contain a few clip paths and almost no masks, patterns or markers.",
  [T + "rm_invisible_elems.rs", T + "group_defs.rs", T + "rm_unused_defs.rs", T + "ungroup_groups.rs", T + "apply_transforms/*.rs"], [("invalid clip paths and masks", T + "rm_invisible_elems.rs")], RENDER_OBS, RENDER_TECH, RENDER_NOTE)
prop("P24", "Removal of invisible and needless content changes nothing visible",
  "Elements, attributes, coordinates, stops and segments are removed as invisible, unused, default or needless only when the image does not depend on them - directly, through inheritance, references, bounding boxes or markers. Visible content is never removed.",
  ["inputs", "configurations"], "all documents with degenerate, hidden, default and needless content x removal options",
  "Tests check one reason at a time; content invisible for one reason can be needed for another.",
  [T + "rm_invisible_elems.rs", T + "rm_default_attrs.rs", T + "rm_needless_attrs.rs", T + "rm_unused_coords.rs", T + "rm_unused_defs.rs", T + "rm_invalid_stops.rs"], [("invisible elements", T + "rm_invisible_elems.rs"), ("default values", T + "rm_default_attrs.rs"), ("needless attributes", T + "rm_needless_attrs.rs")], RENDER_OBS, RENDER_TECH, RENDER_NOTE)
prop("P25", "Shape conversion and fixing of invalid values preserve shapes",
  "Basic shapes (rect, circle, ellipse, line, polyline, polygon), with units, missing, default or erroneous values, are painted the same after conversion to paths, transform application and removal of unused coordinates. Values in error are replaced only by what a renderer would use.",
  ["inputs", "configurations"], "all basic shapes with all kinds of lengths and errors x shape options",
  "Tests convert a handful of shapes; units, radii rules, erroneous values and stroke or marker behaviour multiply.",
  [T + "conv_shapes.rs", T + "fix_attrs.rs", T + "rm_unused_coords.rs", T + "apply_transforms/shapes.rs"], [("conversion", T + "conv_shapes.rs"), ("fixing", T + "fix_attrs.rs")], RENDER_OBS, RENDER_TECH, RENDER_NOTE)

NA = json.load(open(os.path.join(ROOT, 'tools', 'not_applicable.json')))
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p['observe'], hook_needed=None))) + '\n')
na = {x['property'] for x in NA}
m = dict(version=1, setup_cmd='./setup.sh', checks=[dict(property=p['id'], quick_cmd='./run.sh %s quick' % p['id'], thorough_cmd='./run.sh %s thorough' % p['id'],
    technique=p['technique'], level='exploration', level_note=p['note']) for p in P if p['id'] not in na], not_applicable=NA,
    notes='No hooks: every check drives the public library API of /repo or its binary. Known findings: known_findings.txt.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
