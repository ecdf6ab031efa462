From b83319b8c081704d39e310dd32590a320cc0ec96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 01/89] fix: keep default attributes of elements that inherit
 them from 'use'

---
 src/task/rm_default_attrs.rs | 6 ++++++
 src/task/utils.rs            | 9 ++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_default_attrs.rs b/src/task/rm_default_attrs.rs
index 1eff726..b9d6cf8 100644
--- a/src/task/rm_default_attrs.rs
+++ b/src/task/rm_default_attrs.rs
@@ -26,6 +26,7 @@ use svgdom::{
 };
 
 use task::short::{EId, AId, Unit};
+use task::utils;
 
 // TODO: xml:space
 
@@ -38,6 +39,11 @@ pub fn remove_default_attributes(doc: &Document) {
         for (aid, attr) in node.attributes().iter_svg() {
             if attr.is_presentation() {
                 if attr.check_is_default() {
+                    if attr.is_inheritable() && utils::is_use_target(&node) {
+                        // The value can override the one inherited from the 'use' element.
+                        continue;
+                    }
+
                     if let Some(n) = node.parents().find(|n| n.has_attribute(aid)) {
                         if let Some(a) = n.attributes().get(aid) {
                             if !a.visible {
diff --git a/src/task/utils.rs b/src/task/utils.rs
index 26deec5..16d32c5 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -22,7 +22,14 @@ use svgdom::{
     Node,
 };
 
-use task::short::AId;
+use task::short::{AId, EId};
+
+/// Checks that an element can be rendered via the `use` element.
+///
+/// Such elements inherit attributes from the `use` and not from their own parents.
+pub fn is_use_target(node: &Node) -> bool {
+    node.parents_with_self().any(|n| n.linked_nodes().any(|l| l.is_tag_name(EId::Use)))
+}
 
 pub fn recalc_stroke(node: &mut Node, scale_factor: f64) {
     recalc_stroke_num(node, AId::StrokeWidth, scale_factor);
-- 
2.43.0


From e1bc3e11c1bf9d4f161f6b01416234eec07a480e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 02/89] fix: keep needed stroke attributes of linked elements
 and elements with inherited markers

---
 src/task/rm_needless_attrs.rs | 28 +++++++++++++++++++---------
 src/task/utils.rs             | 17 +++++++++++++++++
 2 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/task/rm_needless_attrs.rs b/src/task/rm_needless_attrs.rs
index 184ce33..c3e5b23 100644
--- a/src/task/rm_needless_attrs.rs
+++ b/src/task/rm_needless_attrs.rs
@@ -27,6 +27,7 @@ use svgdom::{
 };
 
 use task::short::{EId, AId};
+use task::utils;
 
 // TODO: split to suboptions
 
@@ -52,8 +53,13 @@ pub fn remove_needless_attributes(doc: &Document) {
             node.remove_attribute(AId::EnableBackground);
         }
 
-        process_fill(&mut node);
-        process_stroke(&mut node);
+        // A linked element will inherit all attributes of the 'use' element,
+        // so 'fill' and 'stroke' of the 'use' itself doesn't make them needless.
+        if id != EId::Use {
+            process_fill(&mut node);
+            process_stroke(&mut node);
+        }
+
         process_overflow(&mut node);
     }
 }
@@ -183,11 +189,6 @@ static STROKE_ATTRIBUTES: &'static [AId] = &[
 
 fn process_stroke(node: &mut Node) {
     fn is_invisible(node: &Node) -> bool {
-        // Skip nodes with marker, because it doesn't count opacity and stroke-width.
-        if node.has_attributes(&[AId::Marker, AId::MarkerStart, AId::MarkerMid, AId::MarkerEnd]) {
-            return false;
-        }
-
         // The stroke will not be drawn if stoke-width is 0.
         if let Some(v) = node.attributes().get_value(AId::StrokeWidth) {
             if let AttributeValue::Length(l) = *v {
@@ -209,6 +210,12 @@ fn process_stroke(node: &mut Node) {
         false
     }
 
+    // Skip nodes with marker, because it doesn't count opacity,
+    // but it can be scaled by 'stroke-width'.
+    if utils::has_marker(node) {
+        return;
+    }
+
     if !node.has_children() {
         if is_invisible(node) {
             // Remove all stroke-based attributes if stroke is invisible.
@@ -217,7 +224,9 @@ fn process_stroke(node: &mut Node) {
 
             // If the parent element defines stroke - we must mark current element
             // with 'none' stroke.
-            if let Some(n) = node.parents().find(|n| n.has_attribute(AId::Stroke)) {
+            if utils::is_use_target(node) {
+                node.set_attribute((AId::Stroke, ValueId::None));
+            } else if let Some(n) = node.parents().find(|n| n.has_attribute(AId::Stroke)) {
                 let value = n.attributes().get_value(AId::Stroke).cloned().unwrap();
                 if value != AttributeValue::PredefValue(ValueId::None) {
                     node.set_attribute((AId::Stroke, ValueId::None));
@@ -233,7 +242,8 @@ fn process_stroke(node: &mut Node) {
 
                     // If the parent element doesn't define 'stroke' - we can remove it
                     // from the current element.
-                    if node.parents().find(|n| n.has_attribute(AId::Stroke)).is_none() {
+                    if    !utils::is_use_target(node)
+                       && node.parents().find(|n| n.has_attribute(AId::Stroke)).is_none() {
                         node.remove_attribute(AId::Stroke);
                     }
                 }
diff --git a/src/task/utils.rs b/src/task/utils.rs
index 16d32c5..943b295 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -31,6 +31,23 @@ pub fn is_use_target(node: &Node) -> bool {
     node.parents_with_self().any(|n| n.linked_nodes().any(|l| l.is_tag_name(EId::Use)))
 }
 
+/// Checks that an element can have a marker: an own one or an inherited one.
+pub fn has_marker(node: &Node) -> bool {
+    static MARKERS: &'static [AId] = &[
+        AId::Marker,
+        AId::MarkerStart,
+        AId::MarkerMid,
+        AId::MarkerEnd,
+    ];
+
+    if node.parents_with_self().any(|n| n.has_attributes(MARKERS)) {
+        return true;
+    }
+
+    // An element can inherit markers from the 'use' element or its parents.
+    is_use_target(node) && node.document().descendants().any(|n| n.has_attributes(MARKERS))
+}
+
 pub fn recalc_stroke(node: &mut Node, scale_factor: f64) {
     recalc_stroke_num(node, AId::StrokeWidth, scale_factor);
     recalc_stroke_dasharray(node, scale_factor);
-- 
2.43.0


From 3dc9112a757837a6f888f175c95c4b2bd462b8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 03/89] fix: do not hang on gradients linked in a loop

---
 src/task/preclean_checks.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/task/preclean_checks.rs b/src/task/preclean_checks.rs
index fb5834a..15171fc 100644
--- a/src/task/preclean_checks.rs
+++ b/src/task/preclean_checks.rs
@@ -17,9 +17,12 @@
 // 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 
 use svgdom::{
+    self,
     AttributeType,
     AttributeValue,
     Document,
+    ElementType,
+    Node,
 };
 
 use task::short::{EId, AId};
@@ -33,6 +36,7 @@ pub fn preclean_checks(doc: &Document) -> Result<()> {
     check_for_script_attributes(doc)?;
     check_for_conditional_attributes(doc)?;
     check_for_external_xlink(doc)?;
+    check_for_gradients_crosslink(doc)?;
 
     Ok(())
 }
@@ -118,6 +122,32 @@ fn check_for_external_xlink(doc: &Document) -> Result<()> {
     Ok(())
 }
 
+// The parser detects only elements that are linked to itself or to each other,
+// but the loop can be longer than this. And we can't resolve attributes of such gradients.
+fn check_for_gradients_crosslink(doc: &Document) -> Result<()> {
+    for node in doc.descendants().filter(|n| n.is_gradient()) {
+        let mut visited = vec![node.clone()];
+        let mut next = linked_node(&node);
+        while let Some(link) = next {
+            if visited.contains(&link) {
+                return Err(ErrorKind::Dom(svgdom::ErrorKind::ElementCrosslink).into());
+            }
+
+            next = linked_node(&link);
+            visited.push(link);
+        }
+    }
+
+    Ok(())
+}
+
+fn linked_node(node: &Node) -> Option<Node> {
+    match node.attributes().get_value(AId::XlinkHref) {
+        Some(&AttributeValue::Link(ref link)) => Some(link.clone()),
+        _ => None,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 8492dc6d48eed40b47ac03c73eca1c1d262982c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 04/89] fix: keep attributes priority, transform and href of
 the resolved 'use'

---
 src/task/resolve_use.rs | 62 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 60 insertions(+), 2 deletions(-)

diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index 29e17bb..84c20ea 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -17,9 +17,11 @@
 // 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 
 use svgdom::{
+    AttributeType,
     AttributeValue,
     Document,
     Length,
+    Node,
     Transform,
 };
 
@@ -64,8 +66,10 @@ pub fn resolve_use(doc: &Document) {
     }
 
     for (mut node, mut link) in nodes {
-        // Unlink 'use'.
-        node.remove_attribute(AId::XlinkHref);
+        // Attributes that doesn't inherit, but affects a whole element, can't be merged.
+        if is_conflicting(&node, &link) {
+            continue;
+        }
 
         {
             // 'use' element support 'x', 'y' and 'transform' attributes and we should process them
@@ -92,8 +96,33 @@ pub fn resolve_use(doc: &Document) {
             }
         }
 
+        // Unlink 'use'.
+        node.remove_attribute(AId::XlinkHref);
+
+        // 'width' and 'height' has no effect on the linked element.
+        node.remove_attributes(&[AId::Width, AId::Height]);
+
         // Copy attributes.
         for attr in node.attributes().iter() {
+            if attr.has_id(AId::Transform) {
+                // Transform of the linked element should be applied after transform of the 'use'.
+                if let AttributeValue::Transform(mut ts) = attr.value {
+                    if let Some(&AttributeValue::Transform(ref link_ts)) =
+                        link.attributes().get_value(AId::Transform) {
+                        ts.append(link_ts);
+                    }
+
+                    link.set_attribute((AId::Transform, ts));
+                    continue;
+                }
+            }
+
+            // Own attributes of the linked element has a higher priority
+            // than the attributes inherited from the 'use'.
+            if attr.is_inheritable() && link.has_attribute(attr.id().unwrap()) {
+                continue;
+            }
+
             link.set_attribute(attr.clone());
         }
 
@@ -105,6 +134,35 @@ pub fn resolve_use(doc: &Document) {
     }
 }
 
+// Checks that the 'use' element and the linked element can't be merged into one element
+// without changing an order in which filters, clipping, masking, opacity
+// and transforms are applied.
+fn is_conflicting(node: &Node, link: &Node) -> bool {
+    // The 'svg' element establishes a new viewport.
+    if link.is_tag_name(EId::Svg) {
+        return true;
+    }
+
+    // Can't be set twice on the same element.
+    let has_same = node.attributes().iter_svg().any(|(aid, attr)| {
+        attr.is_presentation() && !attr.is_inheritable() && link.has_attribute(aid)
+    });
+    if has_same {
+        return true;
+    }
+
+    let has_any = |n: &Node, ids: &[AId]| ids.iter().any(|id| n.has_attribute(*id));
+
+    // This elements are resolved in the coordinate system of the 'use' element.
+    if    link.has_attribute(AId::Transform)
+       && has_any(node, &[AId::Filter, AId::ClipPath, AId::Mask]) {
+        return true;
+    }
+
+    // Filter is always applied first.
+    node.has_attribute(AId::Filter) && has_any(link, &[AId::ClipPath, AId::Mask, AId::Opacity])
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 2467a162e02a4171efe8254c4cf885332d2763fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:03 +0000
Subject: [PATCH 05/89] fix: do not apply transform to elements with markers or
 rendered via 'use'

---
 src/task/apply_transforms/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/task/apply_transforms/mod.rs b/src/task/apply_transforms/mod.rs
index caec379..a36a0be 100644
--- a/src/task/apply_transforms/mod.rs
+++ b/src/task/apply_transforms/mod.rs
@@ -67,6 +67,16 @@ pub mod utils {
     // TODO: process 'fill', 'stroke' and 'filter' linked elements only if they
     //       used only by this element.
     pub fn is_valid_attrs(node: &Node) -> bool {
+        // An element rendered via 'use' inherits attributes which we can't see from here.
+        if ::task::utils::is_use_target(node) {
+            return false;
+        }
+
+        // Marker must be transformed too.
+        if ::task::utils::has_marker(node) {
+            return false;
+        }
+
         for aid in &[AId::Fill, AId::Stroke, AId::Filter, AId::Mask, AId::ClipPath] {
             if !is_valid_attr(node, *aid) {
                 return false;
-- 
2.43.0


From ea8f65eef8aae18b151c74003db05b470d606e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 06/89] fix: do not convert 'rect' into 'path' when it has
 markers

---
 src/task/conv_shapes.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/conv_shapes.rs b/src/task/conv_shapes.rs
index 6f5530f..632d45b 100644
--- a/src/task/conv_shapes.rs
+++ b/src/task/conv_shapes.rs
@@ -77,6 +77,11 @@ fn convert_line(node: &mut Node) {
 fn convert_rect(node: &mut Node) {
     debug_assert!(node.is_tag_name(EId::Rect));
 
+    // Markers are not applicable to 'rect', but applicable to 'path'.
+    if ::task::utils::has_marker(node) {
+        return;
+    }
+
     let path = {
         let attrs = node.attributes();
 
-- 
2.43.0


From 1e464c35bd2787cd3a2f88af63856731c27d646b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 07/89] fix: keep path segments that affects stroke, markers
 and following smooth curves

---
 src/task/paths/conv_segments.rs |  2 +-
 src/task/paths/mod.rs           | 41 ++++++++++++++---
 src/task/paths/rm_unused.rs     | 80 ++++++++++++++++++++++++++++-----
 3 files changed, 104 insertions(+), 19 deletions(-)

diff --git a/src/task/paths/conv_segments.rs b/src/task/paths/conv_segments.rs
index 3644843..e1136ed 100644
--- a/src/task/paths/conv_segments.rs
+++ b/src/task/paths/conv_segments.rs
@@ -29,7 +29,7 @@ use svgdom::path::{
     SegmentData,
 };
 
-use super::utils;
+use super::path_utils as utils;
 
 pub fn convert_segments(path: &mut Path) {
     // Repeat until we have any changes.
diff --git a/src/task/paths/mod.rs b/src/task/paths/mod.rs
index 18fc59a..f63ec7a 100644
--- a/src/task/paths/mod.rs
+++ b/src/task/paths/mod.rs
@@ -19,12 +19,15 @@
 use svgdom::{
     AttributeValue,
     Document,
+    Node,
     Transform,
+    ValueId,
 };
 use svgdom::path::Path;
 
 use task::short::{EId, AId};
 use task::apply_transforms::utils as ts_utils;
+use task::utils;
 use options::CleaningOptions;
 
 mod apply_transform;
@@ -37,8 +40,9 @@ pub fn process_paths(doc: &Document, opt: &CleaningOptions) {
         // it will break rendering.
         //
         // TODO: do not remove first segment if node has marker
-        let has_marker = node.has_attributes(&[AId::Marker, AId::MarkerStart,
-                                               AId::MarkerMid, AId::MarkerEnd]);
+        let has_marker = utils::has_marker(&node);
+
+        let has_stroke = has_stroke(&node);
 
         let mut ts = None;
         if opt.apply_transform_to_paths {
@@ -64,12 +68,33 @@ pub fn process_paths(doc: &Document, opt: &CleaningOptions) {
 
         let mut attrs = node.attributes_mut();
         if let Some(&mut AttributeValue::Path(ref mut path)) = attrs.get_value_mut(AId::D) {
-            process_path(path, has_marker, ts, opt);
+            process_path(path, has_marker, has_stroke, ts, opt);
+        }
+    }
+}
+
+fn has_stroke(node: &Node) -> bool {
+    if utils::is_use_target(node) {
+        // Stroke can be inherited from the 'use' element.
+        return true;
+    }
+
+    match node.parents_with_self().find(|n| n.has_attribute(AId::Stroke)) {
+        Some(n) => {
+            let attrs = n.attributes();
+            attrs.get_value(AId::Stroke) != Some(&AttributeValue::PredefValue(ValueId::None))
         }
+        None => false,
     }
 }
 
-fn process_path(path: &mut Path, has_marker: bool, ts: Option<Transform>, opt: &CleaningOptions) {
+fn process_path(
+    path: &mut Path,
+    has_marker: bool,
+    has_stroke: bool,
+    ts: Option<Transform>,
+    opt: &CleaningOptions
+) {
     if path.d.is_empty() {
         return;
     }
@@ -84,7 +109,11 @@ fn process_path(path: &mut Path, has_marker: bool, ts: Option<Transform>, opt: &
     }
 
     if opt.remove_unused_segments && !has_marker {
-        rm_unused::remove_unused_segments(path);
+        if has_stroke {
+            rm_unused::remove_unused_stroke_segments(path);
+        } else {
+            rm_unused::remove_unused_segments(path);
+        }
 
         if path.d.is_empty() {
             return;
@@ -109,7 +138,7 @@ fn process_path(path: &mut Path, has_marker: bool, ts: Option<Transform>, opt: &
     //       So we sacrifice a very small amount of cleaning ratio for performance benefits.
 }
 
-mod utils {
+mod path_utils {
     use svgdom::path::{Path, Command};
 
     // HorizontalLineTo, VerticalLineTo and ClosePath does not have 'x'/'y' coordinates,
diff --git a/src/task/paths/rm_unused.rs b/src/task/paths/rm_unused.rs
index 581f6d4..597d15d 100644
--- a/src/task/paths/rm_unused.rs
+++ b/src/task/paths/rm_unused.rs
@@ -25,9 +25,21 @@ use svgdom::path::{
     Segment,
 };
 
-use super::utils;
+use super::path_utils as utils;
 
 pub fn remove_unused_segments(path: &mut Path) {
+    remove_segments(path, false);
+}
+
+/// The same as `remove_unused_segments`, but for a path with a stroke.
+///
+/// A stroke of a closed subpath differs from a stroke of an open one
+/// and zero length subpaths will be rendered when they have caps.
+pub fn remove_unused_stroke_segments(path: &mut Path) {
+    remove_segments(path, true);
+}
+
+fn remove_segments(path: &mut Path, has_stroke: bool) {
     // Repeat until we have any changes.
     let mut is_changed = true;
     while is_changed {
@@ -42,10 +54,10 @@ pub fn remove_unused_segments(path: &mut Path) {
         // Order is important.
         if remove_mm(path) { is_changed = true; }
         if remove_zz(path) { is_changed = true; }
-        if remove_mz(path) { is_changed = true; }
-        process_lz(path, &mut is_changed);
+        if !has_stroke && remove_mz(path) { is_changed = true; }
+        process_lz(path, has_stroke, &mut is_changed);
         if remove_equal(path) { is_changed = true; }
-        remove_zero_lenght(path, &mut is_changed);
+        remove_zero_lenght(path, has_stroke, &mut is_changed);
 
         if path.d.is_empty() {
             break;
@@ -119,13 +131,44 @@ fn remove_mz(path: &mut Path) -> bool {
 
 // If current segment is the same as previous - remove it.
 fn remove_equal(path: &mut Path) -> bool {
-    drain_by_pair(path, DrainMode::Single, |prev, curr| {
-        prev.fuzzy_eq(curr)
-    })
+    let old_len = path.d.len();
+
+    let mut i = 1;
+    while i < path.d.len() {
+        let prev = path.d[i - 1];
+        let curr = path.d[i];
+
+        let is_equal = prev.fuzzy_eq(&curr) && match curr.cmd() {
+            Command::CurveTo | Command::Quadratic => {
+                // Curves are the same only when they start and end at the same point.
+                let (x, y) = utils::resolve_xy(path, i - 2);
+                x.fuzzy_eq(&curr.x().unwrap()) && y.fuzzy_eq(&curr.y().unwrap())
+            }
+            // Depends on the control point of the previous segment.
+            Command::SmoothCurveTo | Command::SmoothQuadratic => false,
+            _ => true,
+        };
+
+        if is_equal {
+            path.d.remove(i - 1);
+        } else {
+            i += 1;
+        }
+    }
+
+    old_len != path.d.len()
+}
+
+// Checks that the next segment depends on the control point of the specified one.
+fn is_smooth_next(path: &Path, i: usize) -> bool {
+    match path.d.get(i + 1).map(|s| s.cmd()) {
+        Some(Command::SmoothCurveTo) | Some(Command::SmoothQuadratic) => true,
+        _ => false,
+    }
 }
 
 // If segment moved to the same position as current - remove it.
-fn remove_zero_lenght(path: &mut Path, is_changed: &mut bool) {
+fn remove_zero_lenght(path: &mut Path, has_stroke: bool, is_changed: &mut bool) {
     let mut i = 1;
     while i < path.d.len() {
         let curr = path.d[i];
@@ -133,7 +176,9 @@ fn remove_zero_lenght(path: &mut Path, is_changed: &mut bool) {
 
         let is_equal = match curr.cmd() {
             Command::LineTo => {
-                curr.x().unwrap().fuzzy_eq(&px) && curr.y().unwrap().fuzzy_eq(&py)
+                   curr.x().unwrap().fuzzy_eq(&px) && curr.y().unwrap().fuzzy_eq(&py)
+                && !is_smooth_next(path, i)
+                && !(has_stroke && is_single(path, i))
             }
             // Curves can't be removed.
             _ => false,
@@ -149,7 +194,18 @@ fn remove_zero_lenght(path: &mut Path, is_changed: &mut bool) {
     }
 }
 
-fn process_lz(path: &mut Path, is_changed: &mut bool) {
+// Checks that the subpath has only one segment.
+fn is_single(path: &Path, i: usize) -> bool {
+    let is_first = path.d[i - 1].cmd() == Command::MoveTo;
+    let is_last = match path.d.get(i + 1).map(|s| s.cmd()) {
+        Some(Command::MoveTo) | Some(Command::ClosePath) | None => true,
+        _ => false,
+    };
+
+    is_first && is_last
+}
+
+fn process_lz(path: &mut Path, has_stroke: bool, is_changed: &mut bool) {
     if path.d.is_empty() {
         return;
     }
@@ -166,7 +222,7 @@ fn process_lz(path: &mut Path, is_changed: &mut bool) {
         if curr_cmd == Command::ClosePath {
             let prev_i = i - 1;
             let prev = path.d[prev_i];
-            if is_line_based(prev.cmd()) {
+            if is_line_based(prev.cmd()) && !(has_stroke && is_single(path, prev_i)) {
                 let (x, y) = utils::resolve_xy(path, prev_i);
                 if mx.fuzzy_eq(&x) && my.fuzzy_eq(&y) {
                     // Remove this line-based segment.
@@ -181,7 +237,7 @@ fn process_lz(path: &mut Path, is_changed: &mut bool) {
         // If line-based segment is followed by MoveTo or located at the end of the path
         // and points to previous MoveTo - than we can replace it with ClosePath.
         let is_last = i == path.d.len() - 1 && curr_cmd != Command::ClosePath;
-        if curr_cmd == Command::MoveTo || is_last {
+        if !has_stroke && (curr_cmd == Command::MoveTo || is_last) {
             let prev_i = if is_last { i } else { i - 1 };
             let prev = path.d[prev_i];
             if is_line_based(prev.cmd()) {
-- 
2.43.0


From 9f53bdda02c84cc19a6be9e575c36ffe933ad861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 08/89] fix: do not convert curves that are not a straight line
 into LineTo

---
 src/task/paths/conv_segments.rs | 40 ++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/task/paths/conv_segments.rs b/src/task/paths/conv_segments.rs
index e1136ed..366f1c1 100644
--- a/src/task/paths/conv_segments.rs
+++ b/src/task/paths/conv_segments.rs
@@ -138,31 +138,35 @@ fn _convert_segments(path: &mut Path, is_changed: &mut bool) {
     while i < path.d.len() {
         let prev_seg = path.d[i - 1];
         let (prev_x, prev_y) = utils::resolve_xy(path, i - 1);
+
+        // SmoothCurveTo depends on the second control point of the previous curve,
+        // so we must keep it.
+        let is_next_smooth =
+            path.d.get(i + 1).map(|s| s.cmd()) == Some(Command::SmoothCurveTo);
+
         let curr_seg = &mut path.d[i];
         match *curr_seg.data() {
             SegmentData::CurveTo { x1, y1, x2, y2, x, y } => {
                 let is_vlineto = || {
                     // If prev_x, x1, x2 and x are equal than this CurveTo is VerticalLineTo.
-                    // y1 must be equal or greater than prev_y.
-                    // y2 must be equal or less than y.
+                    // y1 and y2 must be between prev_y and y.
 
                        prev_x.fuzzy_eq(&x)
                     && x1.fuzzy_eq(&x2)
                     && x1.fuzzy_eq(&x)
-                    && y1.fuzzy_cmp(&prev_y) != Ordering::Less
-                    && y2.fuzzy_cmp(&y) != Ordering::Greater
+                    && is_between(prev_y, y, y1)
+                    && is_between(prev_y, y, y2)
                 };
 
                 let is_hlineto = || {
                     // If prev_y, y1, y2 and y are equal - this CurveTo is HorizontalLineTo.
-                    // x1 must be equal or greater than prev_x.
-                    // x2 must be equal or less than x.
+                    // x1 and x2 must be between prev_x and x.
 
                        prev_y.fuzzy_eq(&y)
                     && y1.fuzzy_eq(&y2)
                     && y1.fuzzy_eq(&y)
-                    && x1.fuzzy_cmp(&prev_x) != Ordering::Less
-                    && x2.fuzzy_cmp(&x) != Ordering::Greater
+                    && is_between(prev_x, x, x1)
+                    && is_between(prev_x, x, x2)
                 };
 
                 let is_lineto = || {
@@ -170,13 +174,13 @@ fn _convert_segments(path: &mut Path, is_changed: &mut bool) {
                     && is_point_on_line(prev_x, prev_y, x, y, x2, y2)
                 };
 
-                if is_vlineto() {
+                if !is_next_smooth && is_vlineto() {
                     *curr_seg = Segment::new_line_to(prev_x, y);
                     *is_changed = true;
-                } else if is_hlineto() {
+                } else if !is_next_smooth && is_hlineto() {
                     *curr_seg = Segment::new_line_to(x, prev_y);
                     *is_changed = true;
-                } else if is_lineto() {
+                } else if !is_next_smooth && is_lineto() {
                     *curr_seg = Segment::new_line_to(x, y);
                     *is_changed = true;
                 } else {
@@ -206,6 +210,13 @@ fn _convert_segments(path: &mut Path, is_changed: &mut bool) {
     }
 }
 
+fn is_between(start: f64, end: f64, v: f64) -> bool {
+    let o1 = v.fuzzy_cmp(&start);
+    let o2 = v.fuzzy_cmp(&end);
+       (o1 != Ordering::Less    && o2 != Ordering::Greater)
+    || (o1 != Ordering::Greater && o2 != Ordering::Less)
+}
+
 fn is_point_on_line(x1: f64, y1: f64, x2: f64, y2: f64, x: f64, y: f64) -> bool {
     // Check that point is actually on line.
     let is_on_line = || {
@@ -222,10 +233,7 @@ fn is_point_on_line(x1: f64, y1: f64, x2: f64, y2: f64, x: f64, y: f64) -> bool
     // Check that point is between end points.
     if x1.fuzzy_eq(&x2) {
         // Process vertical line.
-        let o1 = y.fuzzy_cmp(&y1);
-        let o2 = y.fuzzy_cmp(&y2);
-        if    (o1 != Ordering::Less    && o2 != Ordering::Greater)
-           || (o1 != Ordering::Greater && o2 != Ordering::Less) {
+        if is_between(y1, y2, y) {
             return true;
         }
     } else {
@@ -235,7 +243,7 @@ fn is_point_on_line(x1: f64, y1: f64, x2: f64, y2: f64, x: f64, y: f64) -> bool
 
         if y.fuzzy_eq(&c) {
             if    ( x.fuzzy_cmp(&x1) == Ordering::Greater && x.fuzzy_cmp(&x2) == Ordering::Less)
-               || (x2.fuzzy_cmp(&x1) == Ordering::Greater && x.fuzzy_cmp(&x1) == Ordering::Less) {
+               || (x.fuzzy_cmp(&x2) == Ordering::Greater && x.fuzzy_cmp(&x1) == Ordering::Less) {
                 return true;
             }
         }
-- 
2.43.0


From e9539d5e0f11471023a2f8e4dab24e2102910c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 09/89] fix: do not crash on a document with links joined into
 the 'style' attribute

---
 src/task/join_style_attrs.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/task/join_style_attrs.rs b/src/task/join_style_attrs.rs
index 1d2cbd6..4259810 100644
--- a/src/task/join_style_attrs.rs
+++ b/src/task/join_style_attrs.rs
@@ -27,7 +27,7 @@ use task::short::AId;
 use options::StyleJoinMode;
 
 pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOptions) {
-    // NOTE: Must be run at last, since it breaks linking.
+    // NOTE: Must be run at last, since it removes links.
 
     if mode == StyleJoinMode::None {
         return;
@@ -42,10 +42,9 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
         // 5 - is an amount of attributes when style notation is becoming more efficient than
         // split attributes.
         if (mode == StyleJoinMode::Some && count > 5) || mode == StyleJoinMode::All {
-            let mut attrs = node.attributes_mut();
             let mut ids = Vec::new();
             let mut style = Vec::new();
-            for (aid, attr) in attrs.iter_svg().filter(|&(_, a)| a.is_presentation()) {
+            for (aid, attr) in node.attributes().iter_svg().filter(|&(_, a)| a.is_presentation()) {
                 if !attr.visible {
                     continue;
                 }
@@ -61,12 +60,12 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
 
             // Unwrap can't fail.
             let style_str = String::from_utf8(style).unwrap();
-            attrs.insert_from(AId::Style, style_str);
+            node.set_attribute((AId::Style, style_str));
 
+            // Linked attributes must be unlinked too, otherwise the document
+            // will panic during the drop.
             for id in ids {
-                // Use "private" method, because we breaking linking on purpose.
-                // Default 'remove()' will panic here.
-                attrs.remove_impl(id);
+                node.remove_attribute(id);
             }
         }
     }
-- 
2.43.0


From 395c950f603703e7286db82a4bd3684a5d5a8958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 10/89] fix: keep rendering of elements with gradients, clip
 paths and filters removed as invisible

---
 src/task/rm_invisible_elems.rs | 82 +++++++++++++++++++++++++++++++---
 1 file changed, 77 insertions(+), 5 deletions(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 96c3b20..fb14ddb 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -80,13 +80,40 @@ fn process_clip_paths(doc: &Document, is_any_removed: &mut bool) {
     // Note, that all elements that uses this clip path also became invisible,
     // so we can remove them as well.
     while let Some(mut n) = clip_paths.pop() {
+        if is_used_by_root(&n) {
+            continue;
+        }
+
         for mut link in n.linked_nodes().collect::<Vec<Node>>() {
+            if link.is_tag_name(EId::ClipPath) || link.is_tag_name(EId::Mask) {
+                // An invisible 'clipPath' or 'mask' makes all elements that uses it invisible too.
+                if link != n && !clip_paths.contains(&link) {
+                    clip_paths.push(link);
+                }
+
+                continue;
+            }
+
+            let parent = link.parent();
             link.remove();
+
+            if let Some(parent) = parent {
+                // 'clipPath' became empty.
+                if    parent.is_tag_name(EId::ClipPath) && parent != n
+                   && !parent.has_children() && !clip_paths.contains(&parent) {
+                    clip_paths.push(parent);
+                }
+            }
         }
         n.remove();
     }
 }
 
+// The root element can't be removed.
+fn is_used_by_root(node: &Node) -> bool {
+    node.linked_nodes().any(|n| Some(n) == node.document().svg_element())
+}
+
 fn is_valid_clip_path_elem(node: &Node) -> bool {
     // https://www.w3.org/TR/SVG/masking.html#EstablishingANewClippingPath
 
@@ -157,6 +184,10 @@ fn _process_display_attribute(parent: &Node, nodes: &mut Vec<Node>, is_any_remov
 fn process_empty_filter(doc: &Document, is_any_removed: &mut bool) {
     let mut nodes: Vec<Node> = doc.descendants()
                                   .filter(|n| n.is_tag_name(EId::Filter) && !n.has_children())
+                                  // Children can be inherited from a linked filter.
+                                  .filter(|n| !n.has_attribute(AId::XlinkHref))
+                                  .filter(|n| !n.linked_nodes().any(|l| l.is_tag_name(EId::Filter)))
+                                  .filter(|n| !is_used_by_root(n))
                                   .collect();
 
     if !nodes.is_empty() {
@@ -192,6 +223,13 @@ fn process_fe_color_matrix(doc: &mut Document) {
 
         let attrs = child.attributes();
 
+        // An input other than 'SourceGraphic' is not a default one.
+        match attrs.get_value(AId::In) {
+            Some(&AttributeValue::String(ref v)) if v == "SourceGraphic" => {}
+            None => {}
+            _ => return false,
+        }
+
         // It's a very simple implementation since we do not parse matrix,
         // but it's enough to remove default feColorMatrix generated by Illustrator.
         if let Some(&AttributeValue::String(ref t)) = attrs.get_value(AId::Type) {
@@ -226,7 +264,9 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
         // Gradient without children and link to other gradient is pointless.
         let iter = doc.descendants()
                       .filter(|n| n.is_gradient())
-                      .filter(|n| !n.has_children() && !n.has_attribute(AId::XlinkHref));
+                      .filter(|n| !n.has_children() && !n.has_attribute(AId::XlinkHref))
+                      // Other gradients can inherit attributes from it.
+                      .filter(|n| !n.linked_nodes().any(|l| l.is_gradient()));
 
         for n in iter {
             for mut link in n.linked_nodes().collect::<Vec<Node>>() {
@@ -250,6 +290,9 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
 
         for n in iter {
             let stop = n.first_child().unwrap();
+            if !stop.is_tag_name(EId::Stop) {
+                continue;
+            }
 
             let color = match stop.attributes().get_value(AId::StopColor) {
                 Some(&AttributeValue::Color(c)) => c,
@@ -261,6 +304,13 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
                 _ => unreachable!("attribute must be resolved"),
             };
 
+            // If a stop is transparent, than we have to apply it's opacity to the element,
+            // which is impossible when an element children can have an own opacity.
+            let is_opaque = opacity.fuzzy_eq(&1.0);
+            if !is_opaque && !n.linked_nodes().all(|l| l.is_gradient() || is_opacity_owner(&l)) {
+                continue;
+            }
+
             // Replace links with colors, but not in gradients,
             // because it will lead to 'xlink:href=#ffffff', which is wrong.
             for mut link in n.linked_nodes()
@@ -268,16 +318,20 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
                              .collect::<Vec<Node>>() {
                 while let Some(aid) = find_link_attribute(&link, &n) {
                     link.set_attribute((aid, color));
-                    if opacity.fuzzy_ne(&1.0) {
+                    if !is_opaque {
                         match aid {
-                            AId::Fill => link.set_attribute((AId::FillOpacity, opacity)),
-                            AId::Stroke => link.set_attribute((AId::StrokeOpacity, opacity)),
+                            AId::Fill => multiply_opacity(&mut link, AId::FillOpacity, opacity),
+                            AId::Stroke => multiply_opacity(&mut link, AId::StrokeOpacity, opacity),
                             _ => {}
                         }
                     }
                 }
             }
-            nodes.push(n.clone());
+
+            // Other gradients can inherit attributes and stops from it.
+            if !n.linked_nodes().any(|l| l.is_used()) {
+                nodes.push(n.clone());
+            }
         }
     }
 
@@ -288,6 +342,24 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
     utils::remove_nodes(&mut nodes);
 }
 
+// Checks that an element is the only one that is affected by it's opacity attributes.
+fn is_opacity_owner(node: &Node) -> bool {
+    !node.has_children() && !node.is_tag_name(EId::Use) && !utils::is_use_target(node)
+}
+
+fn multiply_opacity(node: &mut Node, aid: AId, opacity: f64) {
+    let parent_opacity = node.parents_with_self().find(|n| n.has_attribute(aid)).map(|n| {
+        match n.attributes().get_value(aid) {
+            Some(&AttributeValue::Number(v)) => v,
+            _ => 1.0,
+        }
+    });
+
+    // An opacity outside of the 0..1 range should be clamped.
+    let parent_opacity = parent_opacity.unwrap_or(1.0).max(0.0).min(1.0);
+    node.set_attribute((aid, opacity * parent_opacity));
+}
+
 fn find_link_attribute(node: &Node, link: &Node) -> Option<AId> {
     let attrs = node.attributes();
 
-- 
2.43.0


From 4e54b741a851252e2f9afcc7bc47e24a6a538ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 11/89] fix: keep inherited attributes of elements moved to
 'defs'

---
 src/task/group_defs.rs | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index 48a1e7f..3dea586 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -17,13 +17,14 @@
 // 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 
 use svgdom::{
+    Attribute,
     AttributeType,
     Document,
     ElementType,
     Node,
 };
 
-use task::short::EId;
+use task::short::{AId, EId};
 
 pub fn group_defs(doc: &mut Document) {
     // doc must contain 'svg' node, so we can safely unwrap.
@@ -37,10 +38,32 @@ pub fn group_defs(doc: &mut Document) {
 
     // Make 'defs' a first child of the 'svg'.
     if svg.first_child() != Some(defs.clone()) {
+        // Elements inside the moved 'defs' will lose attributes of it's old parents.
+        for child in defs.children().filter(|n| n.is_referenced()) {
+            resolve_attrs(&child);
+        }
+
         defs.detach();
         svg.prepend(&defs);
     }
 
+    // Elements moved to the main 'defs' should not inherit it's attributes.
+    {
+        let ids: Vec<_> = {
+            let attrs = defs.attributes();
+            let iter = attrs.iter_svg().filter(|&(_, a)| is_inheritable(a)).map(|(aid, _)| aid);
+            iter.collect()
+        };
+
+        if !ids.is_empty() {
+            for child in defs.children().filter(|n| n.is_referenced()) {
+                resolve_attrs(&child);
+            }
+
+            defs.remove_attributes(&ids);
+        }
+    }
+
     // Move all referenced elements to the main 'defs'.
     {
         let mut nodes = Vec::new();
@@ -96,19 +119,24 @@ pub fn group_defs(doc: &mut Document) {
     }
 }
 
+fn is_inheritable(attr: &Attribute) -> bool {
+    attr.is_inheritable() || attr.has_id(AId::Visibility)
+}
+
 // Graphical elements inside referenced elements inherits parent attributes,
 // so if we want to move this elements to the 'defs' - we should resolve attributes too.
+//
+// Note that 'symbol' inherits attributes only from the 'use' element.
 fn resolve_attrs(node: &Node) {
     match node.tag_id().unwrap() {
           EId::ClipPath
         | EId::Marker
         | EId::Mask
-        | EId::Pattern
-        | EId::Symbol => {
+        | EId::Pattern => {
             let mut parent = Some(node.clone());
             while let Some(p) = parent {
                 let attrs = p.attributes();
-                for (aid, attr) in attrs.iter_svg().filter(|&(_, a)| a.is_inheritable()) {
+                for (aid, attr) in attrs.iter_svg().filter(|&(_, a)| is_inheritable(a)) {
                     for mut child in node.children() {
                         if child.has_attribute(aid) {
                             continue;
-- 
2.43.0


From a2b3f69c81f1487a95ac7dd664b7c3a3d48a7e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 12/89] fix: do not resolve a shifted 'use' with clip path,
 mask or filter

---
 src/task/resolve_use.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index 84c20ea..9567153 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -154,7 +154,7 @@ fn is_conflicting(node: &Node, link: &Node) -> bool {
     let has_any = |n: &Node, ids: &[AId]| ids.iter().any(|id| n.has_attribute(*id));
 
     // This elements are resolved in the coordinate system of the 'use' element.
-    if    link.has_attribute(AId::Transform)
+    if    (link.has_attribute(AId::Transform) || has_any(node, &[AId::X, AId::Y]))
        && has_any(node, &[AId::Filter, AId::ClipPath, AId::Mask]) {
         return true;
     }
-- 
2.43.0


From 130565854a8fd2677dba35f8cbd62fc80934c79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 13/89] fix: do not ungroup a transformed 'svg' and empty
 groups of 'switch'

---
 src/task/ungroup_groups.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index e9e03e6..3fba17c 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -67,10 +67,17 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
 
     // TODO: we should not ungroup groups with non-inheritable attributes.
 
+    // A nested 'svg' doesn't support the 'transform' attribute.
+    if g.has_attribute(AId::Transform) && g.children().any(|n| n.is_tag_name(EId::Svg)) {
+        return false;
+    }
+
     if !g.has_children() && !g.has_attribute(AId::Filter) {
         // Empty group without filter attribute.
         // Checkout 'filters-tile-01-b.svg' in 'W3C_SVG_11_TestSuite' for details.
-        return true;
+        //
+        // An empty group inside the 'switch' can be the one that should be selected.
+        return !parent.is_tag_name(EId::Switch);
     }
 
     // Group shouldn't be used.
-- 
2.43.0


From 7d4a2d61105070fe74551c07874bc3d9ef25abf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 14/89] fix: do not set 'transform' to a nested 'svg'

---
 src/task/group_by_style.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/task/group_by_style.rs b/src/task/group_by_style.rs
index e584f43..4ebb1bf 100644
--- a/src/task/group_by_style.rs
+++ b/src/task/group_by_style.rs
@@ -470,7 +470,13 @@ fn _group_by_style(parent: &Node, opt: &WriteOptions) {
     if table.d[0].count_flags() == nodes_count {
         // If parent node is 'g' - use it,
         // it not - create new one.
-        let is_valid_parent = parent.is_tag_name(EId::Svg) || parent.is_tag_name(EId::G);
+        //
+        // Note that the nested 'svg' element doesn't support the 'transform' attribute.
+        let has_ts = table.d[0].attributes.iter().any(|a| a.has_id(AId::Transform));
+        let is_nested_svg =    parent.is_tag_name(EId::Svg)
+                            && Some(parent.clone()) != parent.document().svg_element();
+        let is_valid_parent =    (parent.is_tag_name(EId::Svg) || parent.is_tag_name(EId::G))
+                              && !(is_nested_svg && has_ts);
         let mut g_node = if is_valid_parent && is_all_children {
             parent.clone()
         } else {
-- 
2.43.0


From 6b7c82097a2b3b5bbc8f99b1d2ca7fbcbd78e0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 15/89] fix: keep the transformed radius of gradients inherited
 from other gradients

---
 src/task/apply_transforms/gradients.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/apply_transforms/gradients.rs b/src/task/apply_transforms/gradients.rs
index f62f90f..049deff 100644
--- a/src/task/apply_transforms/gradients.rs
+++ b/src/task/apply_transforms/gradients.rs
@@ -80,6 +80,11 @@ pub fn apply_transform_to_gradients(doc: &Document) {
             if ts.has_scale() {
                 let (sx, _) = ts.get_scale();
                 utils::scale_coord(&mut attrs, AId::R, &sx);
+
+                // The radius can be inherited from the linked gradient, aka hidden.
+                if let Some(attr) = attrs.get_mut(AId::R) {
+                    attr.visible = true;
+                }
             }
         }
 
-- 
2.43.0


From 944ae273b7248a8439ac54c95bf026b6289940d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 16/89] fix: do not ungroup font-relative and not applicable
 attributes

---
 src/task/ungroup_groups.rs | 47 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index 3fba17c..0c5d63e 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -22,7 +22,7 @@ use svgdom::{
     Node,
 };
 
-use task::short::{EId, AId};
+use task::short::{EId, AId, Unit};
 use task::apply_transforms;
 use options::CleaningOptions;
 
@@ -72,6 +72,10 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
         return false;
     }
 
+    if is_conflicting_font_size(g) {
+        return false;
+    }
+
     if !g.has_children() && !g.has_attribute(AId::Filter) {
         // Empty group without filter attribute.
         // Checkout 'filters-tile-01-b.svg' in 'W3C_SVG_11_TestSuite' for details.
@@ -139,8 +143,49 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
     false
 }
 
+// Font-relative attributes of the group can't be moved to children with an own font size
+// and the font size of the group can't be lost when the child's one depends on it.
+fn is_conflicting_font_size(g: &Node) -> bool {
+    let is_relative = |node: &Node, aid: AId, units: &[Unit]| {
+        match node.attributes().get_value(aid) {
+            Some(&AttributeValue::Length(len)) => units.contains(&len.unit),
+            _ => false,
+        }
+    };
+
+    let has_relative = g.attributes().iter_svg().any(|(aid, _)| {
+        aid != AId::FontSize && is_relative(g, aid, &[Unit::Em, Unit::Ex])
+    });
+
+    g.children().filter(|n| n.has_attribute(AId::FontSize)).any(|n| {
+           has_relative
+        || (   g.has_attribute(AId::FontSize)
+            && is_relative(&n, AId::FontSize, &[Unit::Em, Unit::Ex, Unit::Percent]))
+    })
+}
+
+// Non-inheritable attributes that have no effect on the 'g' element,
+// but will have on it's children.
+static NO_EFFECT_ATTRIBUTES: &'static [AId] = &[
+    AId::AlignmentBaseline,
+    AId::BaselineShift,
+    AId::Clip,
+    AId::DominantBaseline,
+    AId::FloodColor,
+    AId::FloodOpacity,
+    AId::LightingColor,
+    AId::Overflow,
+    AId::StopColor,
+    AId::StopOpacity,
+    AId::UnicodeBidi,
+];
+
 fn ungroup_group(g: &mut Node) {
     for (aid, attr) in g.attributes().iter_svg() {
+        if NO_EFFECT_ATTRIBUTES.contains(&aid) {
+            continue;
+        }
+
         for mut child in g.children() {
             if aid == AId::Opacity {
                 if child.has_attribute(aid) {
-- 
2.43.0


From 06019e658dfe47fe657e83b731f92b0bc5029f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 17/89] fix: keep font attributes of the linked text and
 font-relative elements

---
 src/task/rm_text_attrs.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/task/rm_text_attrs.rs b/src/task/rm_text_attrs.rs
index 9a439f9..bf9eeac 100644
--- a/src/task/rm_text_attrs.rs
+++ b/src/task/rm_text_attrs.rs
@@ -16,9 +16,12 @@
 // with this program; if not, write to the Free Software Foundation, Inc.,
 // 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 
+use std::slice;
+
 use svgdom::{
     AttributeValue,
     Document,
+    Length,
     Node,
     NodeType,
 };
@@ -109,11 +112,11 @@ fn _remove_text_attributes(parent: &Node) -> bool {
             // Only this parameters affect parent elements.
             let _no_td = !(   node.descendants().any(|n| n.node_type() == NodeType::Text)
                            || node.is_tag_name(EId::Tref)
-                           || has_em_ex_attributes(&node));
+                           || has_em_ex_attributes(&node)
+                           || is_linked_text(&node));
 
             if    _no_td
-               && !node.is_tag_name(EId::FontFace)
-               && !is_linked_text(&node) {
+               && !node.is_tag_name(EId::FontFace) {
                 node.remove_attributes(TEXT_ATTRIBUTES);
             }
 
@@ -134,11 +137,14 @@ fn has_em_ex_attributes(node: &Node) -> bool {
 
     let attrs = node.attributes();
     for attr in attrs.iter() {
-        if let AttributeValue::Length(ref len) = attr.value {
-            match len.unit {
-                Unit::Ex | Unit::Em => return true,
-                _ => {}
-            }
+        let lengths: &[Length] = match attr.value {
+            AttributeValue::Length(ref len) => slice::from_ref(len),
+            AttributeValue::LengthList(ref list) => list,
+            _ => continue,
+        };
+
+        if lengths.iter().any(|len| len.unit == Unit::Ex || len.unit == Unit::Em) {
+            return true;
         }
     }
 
@@ -152,7 +158,13 @@ fn is_linked_text(node: &Node) -> bool {
         let attrs = node.attributes();
         if let Some(value) = attrs.get_value(AId::XlinkHref) {
             if let AttributeValue::Link(ref link) = *value {
-                return link.descendants().any(|n| n.node_type() == NodeType::Text);
+                // Nested 'use' elements can be linked to a text too.
+                return has_em_ex_attributes(link) || link.descendants().any(|n| {
+                       n.node_type() == NodeType::Text
+                    || n.is_tag_name(EId::Tref)
+                    || n.is_tag_name(EId::Use)
+                    || has_em_ex_attributes(&n)
+                });
             }
         }
     }
-- 
2.43.0


From 98de09e8bcfab5ae0c82ecba787bd25c32e8ad99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 18/89] fix: keep default 'visibility' of elements that inherit
 it from 'use'

---
 src/task/rm_default_attrs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_default_attrs.rs b/src/task/rm_default_attrs.rs
index b9d6cf8..2462044 100644
--- a/src/task/rm_default_attrs.rs
+++ b/src/task/rm_default_attrs.rs
@@ -39,7 +39,8 @@ pub fn remove_default_attributes(doc: &Document) {
         for (aid, attr) in node.attributes().iter_svg() {
             if attr.is_presentation() {
                 if attr.check_is_default() {
-                    if attr.is_inheritable() && utils::is_use_target(&node) {
+                    let is_inheritable = attr.is_inheritable() || aid == AId::Visibility;
+                    if is_inheritable && utils::is_use_target(&node) {
                         // The value can override the one inherited from the 'use' element.
                         continue;
                     }
-- 
2.43.0


From 88d81bf6eb3da46a1809e6eb604ee928a717c6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 19/89] fix: do not resolve 'inherit' of linked elements using
 their own parents

---
 src/task/resolve_inherit.rs | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/task/resolve_inherit.rs b/src/task/resolve_inherit.rs
index aa13dae..f7840bf 100644
--- a/src/task/resolve_inherit.rs
+++ b/src/task/resolve_inherit.rs
@@ -18,8 +18,10 @@
 
 use svgdom::{
     AttributeId,
+    AttributeType,
     AttributeValue,
     Document,
+    ElementId,
     Node,
     ValueId,
 };
@@ -57,6 +59,13 @@ pub fn resolve_inherit(doc: &Document) -> Result<()> {
         }
 
         for id in &vec_inherit {
+            if is_inherited_from_use(&node, *id) {
+                // A value is unknown, because it depends on the 'use' element.
+                // It will be inherited in the same way without an attribute.
+                node.remove_attribute(*id);
+                continue;
+            }
+
             resolve_impl(&mut node, *id, *id)?;
         }
 
@@ -73,6 +82,31 @@ pub fn resolve_inherit(doc: &Document) -> Result<()> {
     Ok(())
 }
 
+// Checks that an inheritable attribute should be inherited from the 'use' element
+// and not from the parent element.
+fn is_inherited_from_use(node: &Node, aid: AttributeId) -> bool {
+    let is_inheritable = match node.attributes().get(aid) {
+        Some(attr) => attr.is_inheritable() || aid == AttributeId::Visibility,
+        None => false,
+    };
+
+    if !is_inheritable {
+        return false;
+    }
+
+    for (i, n) in node.parents_with_self().enumerate() {
+        if i != 0 && n.has_attribute(aid) {
+            return false;
+        }
+
+        if n.linked_nodes().any(|l| l.is_tag_name(ElementId::Use)) {
+            return true;
+        }
+    }
+
+    false
+}
+
 fn resolve_impl(node: &mut Node, curr_attr: AttributeId, parent_attr: AttributeId) -> Result<()> {
     if let Some(n) = node.parents().find(|n| n.has_attribute(parent_attr)) {
         let av = n.attributes().get_value(parent_attr).cloned();
-- 
2.43.0


From 7093a67708e7716e3f27d2e97ebaec948a6171a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 20/89] fix: do not ungroup groups with used children and
 conflicting 'display' and 'text-decoration'

---
 src/task/ungroup_groups.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index 0c5d63e..0fb0a18 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -20,6 +20,7 @@ use svgdom::{
     AttributeValue,
     Document,
     Node,
+    ValueId,
 };
 
 use task::short::{EId, AId, Unit};
@@ -76,6 +77,12 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
         return false;
     }
 
+    // 'text-decoration' of the group can't be overridden by children.
+    if    g.has_attribute(AId::TextDecoration)
+       && g.children().any(|n| n.has_attribute(AId::TextDecoration)) {
+        return false;
+    }
+
     if !g.has_children() && !g.has_attribute(AId::Filter) {
         // Empty group without filter attribute.
         // Checkout 'filters-tile-01-b.svg' in 'W3C_SVG_11_TestSuite' for details.
@@ -132,7 +139,8 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
     // example: oxygen/edit-find-mail.svg
     if g.has_attribute(AId::Transform) && g.attributes().len() == 1 {
         let is_ok = g.children().all(|n| {
-            n.has_attribute(AId::Transform) && !n.is_tag_name(EId::Use)
+            // A transform of the linked element will affect all elements that use it.
+            n.has_attribute(AId::Transform) && !n.is_tag_name(EId::Use) && !n.is_used()
         });
 
         if is_ok {
@@ -226,6 +234,12 @@ fn ungroup_group(g: &mut Node) {
             if aid == AId::Display {
                 // Display attribute has a priority during rendering, so we must
                 // copy it even if a child has it already.
+                // But a visible group doesn't make children visible.
+                if    child.has_attribute(aid)
+                   && attr.value != AttributeValue::PredefValue(ValueId::None) {
+                    continue;
+                }
+
                 child.set_attribute(attr.clone());
                 continue;
             }
-- 
2.43.0


From d1ecca123a3c75f818ebe72772f89dfbbcc5346b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 21/89] fix: process only 'stop' children of gradients and
 invalid 'offset' units

---
 src/task/fix_attrs.rs         |  2 +-
 src/task/resolve_gradients.rs |  6 +++++-
 src/task/rm_invalid_stops.rs  | 11 ++++++++---
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/task/fix_attrs.rs b/src/task/fix_attrs.rs
index 2c16763..49ffd88 100644
--- a/src/task/fix_attrs.rs
+++ b/src/task/fix_attrs.rs
@@ -211,7 +211,7 @@ pub fn fix_stop_attributes(node: &Node) {
 
     let mut prev_offset = 0.0;
 
-    for mut child in node.children() {
+    for mut child in node.children().filter(|n| n.is_tag_name(EId::Stop)) {
         let av = child.attributes().get_value(AId::Offset).cloned();
 
         let mut offset = match av {
diff --git a/src/task/resolve_gradients.rs b/src/task/resolve_gradients.rs
index e0bc491..e0c0575 100644
--- a/src/task/resolve_gradients.rs
+++ b/src/task/resolve_gradients.rs
@@ -114,13 +114,17 @@ pub fn resolve_radial_gradient_attributes(doc: &Document) {
 /// which is not a first child of a gradient, didn't have an `offset` attribute.
 pub fn resolve_stop_attributes(doc: &Document) -> Result<()> {
     for gradient in doc.descendants().filter(|n| n.is_gradient()) {
-        for (idx, mut node) in gradient.children().enumerate() {
+        let stops = gradient.children().filter(|n| n.is_tag_name(EId::Stop));
+        for (idx, mut node) in stops.enumerate() {
             let av = node.attributes().get_value(AId::Offset).cloned();
             if let Some(AttributeValue::Length(l)) = av {
                 if l.unit == LengthUnit::Percent {
                     // convert percent into a number
                     let new_l = Length::new_number(l.num / 100.0);
                     node.set_attribute((AId::Offset, new_l));
+                } else if l.unit != LengthUnit::None {
+                    warn!("An invalid 'offset' attribute value. Fallback to 'offset=0'.");
+                    node.set_attribute((AId::Offset, Length::zero()));
                 }
             } else {
                 if idx == 0 {
diff --git a/src/task/rm_invalid_stops.rs b/src/task/rm_invalid_stops.rs
index 0f3df17..3c08579 100644
--- a/src/task/rm_invalid_stops.rs
+++ b/src/task/rm_invalid_stops.rs
@@ -21,7 +21,7 @@ use svgdom::{
     ElementType,
 };
 
-use task::short::AId;
+use task::short::{AId, EId};
 use task::utils;
 
 pub fn remove_invalid_stops(doc: &Document) {
@@ -31,9 +31,14 @@ pub fn remove_invalid_stops(doc: &Document) {
                   .filter(|n| n.is_gradient())
                   .filter(|n| n.has_children());
     for node in iter {
-        let mut prev_child = node.first_child().unwrap();
+        let mut stops = node.children().filter(|n| n.is_tag_name(EId::Stop));
 
-        for child in node.children().skip(1) {
+        let mut prev_child = match stops.next() {
+            Some(n) => n,
+            None => continue,
+        };
+
+        for child in stops {
             {
                 let attrs1 = prev_child.attributes();
                 let attrs2 = child.attributes();
-- 
2.43.0


From 00286e7c6afe3d18f5378c65042eed765ecd58b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 22/89] fix: compare stops of linked gradients during
 duplicates removing

---
 src/task/rm_dupl_defs/mod.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/task/rm_dupl_defs/mod.rs b/src/task/rm_dupl_defs/mod.rs
index d2304bc..208f76a 100644
--- a/src/task/rm_dupl_defs/mod.rs
+++ b/src/task/rm_dupl_defs/mod.rs
@@ -110,6 +110,13 @@ fn is_gradient_attrs_equal(node1: &Node, node2: &Node, attrs: &[AId]) -> bool {
         }
     }
 
+    // Stops can be inherited from the linked gradient.
+    if !node1.has_children() && !node2.has_children() {
+        if stops_owner(node1) != stops_owner(node2) {
+            return false;
+        }
+    }
+
     for aid in attrs.iter() {
         if attrs1.get_value(*aid).unwrap() != attrs2.get_value(*aid).unwrap() {
             return false;
@@ -119,6 +126,27 @@ fn is_gradient_attrs_equal(node1: &Node, node2: &Node, attrs: &[AId]) -> bool {
     true
 }
 
+fn stops_owner(node: &Node) -> Option<Node> {
+    let mut visited = Vec::new();
+    let mut node = node.clone();
+    while !node.has_children() {
+        visited.push(node.clone());
+
+        let link = match node.attributes().get_value(AId::XlinkHref) {
+            Some(&AttributeValue::Link(ref n)) => n.clone(),
+            _ => return None,
+        };
+
+        if visited.contains(&link) {
+            return None;
+        }
+
+        node = link;
+    }
+
+    Some(node)
+}
+
 pub fn is_equal_stops(node1: &Node, node2: &Node) -> bool {
     let children_count1 = node1.children().count();
 
-- 
2.43.0


From ae4f81e8f3fcf0e6feda49079489f34a0474ebd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 23/89] fix: do not group font-relative attributes

---
 src/task/group_by_style.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/task/group_by_style.rs b/src/task/group_by_style.rs
index 4ebb1bf..7aec429 100644
--- a/src/task/group_by_style.rs
+++ b/src/task/group_by_style.rs
@@ -27,10 +27,11 @@ use svgdom::{
     Document,
     Indent,
     Node,
+    ValueId,
     WriteOptions,
 };
 
-use task::short::{EId, AId};
+use task::short::{EId, AId, Unit};
 
 // TODO: optimize, since Table is basically Vec<(Vec,Vec)>, which is not very efficient
 struct Table {
@@ -240,6 +241,27 @@ impl fmt::Debug for Table {
     }
 }
 
+// Such values depend on a font of an element or it's parent, so they can't be inherited from the group.
+fn is_font_relative(aid: AId, attr: &Attribute) -> bool {
+    let is_relative = |unit: Unit| {
+           unit == Unit::Em
+        || unit == Unit::Ex
+        || (unit == Unit::Percent && aid == AId::FontSize)
+    };
+
+    match attr.value {
+        AttributeValue::Length(len) => is_relative(len.unit),
+        AttributeValue::LengthList(ref list) => list.iter().any(|len| is_relative(len.unit)),
+        AttributeValue::PredefValue(id) => {
+               id == ValueId::Larger
+            || id == ValueId::Smaller
+            || id == ValueId::Bolder
+            || id == ValueId::Lighter
+        }
+        _ => false,
+    }
+}
+
 #[cfg(test)]
 mod table_tests {
     use svgdom::{Attribute, AttributeId as AId};
@@ -429,7 +451,7 @@ fn _group_by_style(parent: &Node, opt: &WriteOptions) {
                 if !super::apply_transforms::utils::is_valid_attrs(parent) {
                     continue;
                 }
-            } else if !attr.is_inheritable() {
+            } else if !attr.is_inheritable() || is_font_relative(aid, attr) {
                 continue;
             }
 
-- 
2.43.0


From b62d4cb1cfe25f3ffa9e68d44c037cfffef7f8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:46 +0000
Subject: [PATCH 24/89] fix: keep segments of paths with filter

---
 src/task/paths/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/task/paths/mod.rs b/src/task/paths/mod.rs
index f63ec7a..31361a7 100644
--- a/src/task/paths/mod.rs
+++ b/src/task/paths/mod.rs
@@ -42,7 +42,8 @@ pub fn process_paths(doc: &Document, opt: &CleaningOptions) {
         // TODO: do not remove first segment if node has marker
         let has_marker = utils::has_marker(&node);
 
-        let has_stroke = has_stroke(&node);
+        // A filter can be rendered even when a path by itself is not.
+        let has_stroke = has_stroke(&node) || node.has_attribute(AId::Filter);
 
         let mut ts = None;
         if opt.apply_transform_to_paths {
-- 
2.43.0


From ca71738b0225b1e178c8ca9fbafdf0ed392dca63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:46 +0000
Subject: [PATCH 25/89] fix: do not ungroup groups with relative fonts of
 children

---
 src/task/ungroup_groups.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index 0fb0a18..481ba2e 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -157,6 +157,9 @@ fn is_conflicting_font_size(g: &Node) -> bool {
     let is_relative = |node: &Node, aid: AId, units: &[Unit]| {
         match node.attributes().get_value(aid) {
             Some(&AttributeValue::Length(len)) => units.contains(&len.unit),
+            Some(&AttributeValue::PredefValue(id)) => {
+                id == ValueId::Larger || id == ValueId::Smaller
+            }
             _ => false,
         }
     };
@@ -165,6 +168,20 @@ fn is_conflicting_font_size(g: &Node) -> bool {
         aid != AId::FontSize && is_relative(g, aid, &[Unit::Em, Unit::Ex])
     });
 
+    // 'bolder' and 'lighter' are relative to the weight of the group.
+    let is_relative_weight = |node: &Node| {
+        match node.attributes().get_value(AId::FontWeight) {
+            Some(&AttributeValue::PredefValue(id)) => {
+                id == ValueId::Bolder || id == ValueId::Lighter
+            }
+            _ => false,
+        }
+    };
+
+    if g.has_attribute(AId::FontWeight) && g.children().any(|n| is_relative_weight(&n)) {
+        return true;
+    }
+
     g.children().filter(|n| n.has_attribute(AId::FontSize)).any(|n| {
            has_relative
         || (   g.has_attribute(AId::FontSize)
-- 
2.43.0


From 24ccc33b907db3b097d88072f51d0fbcf592e472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:46 +0000
Subject: [PATCH 26/89] fix: keep invisible elements with used children or that
 affect a bounding box

---
 src/task/rm_invisible_elems.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index fb14ddb..228502c 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -80,7 +80,7 @@ fn process_clip_paths(doc: &Document, is_any_removed: &mut bool) {
     // Note, that all elements that uses this clip path also became invisible,
     // so we can remove them as well.
     while let Some(mut n) = clip_paths.pop() {
-        if is_used_by_root(&n) {
+        if is_used_by_root(&n) || has_used_children(&n) || n.linked_nodes().any(|l| is_needed(&l)) {
             continue;
         }
 
@@ -114,6 +114,19 @@ fn is_used_by_root(node: &Node) -> bool {
     node.linked_nodes().any(|n| Some(n) == node.document().svg_element())
 }
 
+// Children of an invisible element can be rendered by other elements.
+fn has_used_children(node: &Node) -> bool {
+    node.children().any(|c| c.is_used() || c.descendants().any(|n| n.is_used()))
+}
+
+// Checks that an invisible element affects other elements.
+fn is_needed(node: &Node) -> bool {
+    // A bounding box of the parent element depends on invisible elements too.
+    static BBOX_ATTRIBUTES: &'static [AId] = &[AId::ClipPath, AId::Mask, AId::Filter];
+
+    has_used_children(node) || node.parents().any(|n| n.has_attributes(BBOX_ATTRIBUTES))
+}
+
 fn is_valid_clip_path_elem(node: &Node) -> bool {
     // https://www.w3.org/TR/SVG/masking.html#EstablishingANewClippingPath
 
@@ -188,6 +201,7 @@ fn process_empty_filter(doc: &Document, is_any_removed: &mut bool) {
                                   .filter(|n| !n.has_attribute(AId::XlinkHref))
                                   .filter(|n| !n.linked_nodes().any(|l| l.is_tag_name(EId::Filter)))
                                   .filter(|n| !is_used_by_root(n))
+                                  .filter(|n| !n.linked_nodes().any(|l| is_needed(&l)))
                                   .collect();
 
     if !nodes.is_empty() {
-- 
2.43.0


From 5a654a233418275eb6b5ce8e5c7082bbc8a0b715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 27/89] fix: do not move a transform of the group to linked
 children

---
 src/task/apply_transforms/preproc.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/task/apply_transforms/preproc.rs b/src/task/apply_transforms/preproc.rs
index beb3271..a5e52d9 100644
--- a/src/task/apply_transforms/preproc.rs
+++ b/src/task/apply_transforms/preproc.rs
@@ -61,7 +61,10 @@ pub fn prepare_transforms(parent: &Node, recursive: bool, opt: &CleaningOptions)
                 utils::is_valid_coords(&n)
             };
 
+            // A transform of the linked element, like a path of the 'textPath',
+            // affects elements that use it. And a transform of it's parent doesn't.
                valid_elems.contains(&id)
+            && !n.is_used()
             && utils::has_valid_transform(&n)
             && utils::is_valid_attrs(&n)
             && is_valid_coords
-- 
2.43.0


From 6e53e705d23921c34bd978e638266ce6cae9ddad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 28/89] fix: keep not default attributes of filter primitives,
 fonts and linking patterns and filters

---
 src/task/rm_default_attrs.rs | 43 +++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/task/rm_default_attrs.rs b/src/task/rm_default_attrs.rs
index 2462044..a388ec0 100644
--- a/src/task/rm_default_attrs.rs
+++ b/src/task/rm_default_attrs.rs
@@ -22,6 +22,7 @@ use svgdom::{
     AttributeValue,
     Document,
     Length,
+    Node,
     ValueId,
 };
 
@@ -77,7 +78,7 @@ pub fn remove_default_attributes(doc: &Document) {
                         }
                     }
                 }
-            } else if is_default(attr, tag_name) {
+            } else if !is_link_override(&node, aid) && is_default(attr, tag_name) {
                 // Check default values of an non-presentation attributes.
                 rm_list.push(aid);
             }
@@ -95,6 +96,13 @@ pub fn remove_default_attributes(doc: &Document) {
     }
 }
 
+// Checks that an attribute overrides the one of the linked pattern or filter.
+fn is_link_override(node: &Node, aid: AId) -> bool {
+       (node.is_tag_name(EId::Pattern) || node.is_tag_name(EId::Filter))
+    && node.has_attribute(AId::XlinkHref)
+    && aid != AId::XlinkHref
+}
+
 fn is_default(attr: &Attribute, tag_name: EId) -> bool {
     // Process only popular and simple attributes.
 
@@ -116,6 +124,11 @@ fn is_default(attr: &Attribute, tag_name: EId) -> bool {
                 return false;
             }
 
+            // A default subregion of the filter primitive is not a zero one.
+            if is_filter_primitive(tag_name) {
+                return false;
+            }
+
             if tag_name == EId::Mask || tag_name == EId::Filter {
                 if attr.value == AttributeValue::from((-10.0, Unit::Percent)) {
                     return true;
@@ -205,11 +218,7 @@ fn is_default(attr: &Attribute, tag_name: EId) -> bool {
             // There are two different 'slope': one for 'font-face'
             // and one for 'feFunc*'.
             if let AttributeValue::String(ref s) = attr.value {
-                if tag_name == EId::FontFace && s == "0" {
-                    return true;
-                } else if s == "1" {
-                    return true;
-                }
+                return if tag_name == EId::FontFace { s == "0" } else { s == "1" };
             }
         }
           AId::ClipPathUnits
@@ -237,6 +246,28 @@ fn is_default(attr: &Attribute, tag_name: EId) -> bool {
     false
 }
 
+fn is_filter_primitive(tag_name: EId) -> bool {
+    match tag_name {
+          EId::FeBlend
+        | EId::FeColorMatrix
+        | EId::FeComponentTransfer
+        | EId::FeComposite
+        | EId::FeConvolveMatrix
+        | EId::FeDiffuseLighting
+        | EId::FeDisplacementMap
+        | EId::FeFlood
+        | EId::FeGaussianBlur
+        | EId::FeImage
+        | EId::FeMerge
+        | EId::FeMorphology
+        | EId::FeOffset
+        | EId::FeSpecularLighting
+        | EId::FeTile
+        | EId::FeTurbulence => true,
+        _ => false,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From db1968f556b144e1eaca17304c65d6f7b4a3ebf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 29/89] fix: keep duplicated gradients that provide attributes
 to the first one

---
 src/task/rm_dupl_defs/mod.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/task/rm_dupl_defs/mod.rs b/src/task/rm_dupl_defs/mod.rs
index 208f76a..a739c1b 100644
--- a/src/task/rm_dupl_defs/mod.rs
+++ b/src/task/rm_dupl_defs/mod.rs
@@ -61,6 +61,11 @@ fn rm_loop<F>(nodes: &mut Vec<Node>, cmp: F)
                 continue;
             }
 
+            // An element that provides attributes to the first one can't be removed.
+            if is_attributes_owner(&node2, &node1) {
+                continue;
+            }
+
             // Collect linked nodes.
             for ln in node2.linked_nodes() {
                 let attrs = ln.attributes();
@@ -98,6 +103,30 @@ fn rm_loop<F>(nodes: &mut Vec<Node>, cmp: F)
     }
 }
 
+// Checks that `node` inherits attributes from the `owner`, maybe via other elements.
+fn is_attributes_owner(owner: &Node, node: &Node) -> bool {
+    let mut visited = Vec::new();
+    let mut node = node.clone();
+    loop {
+        let link = match node.attributes().get_value(AId::XlinkHref) {
+            Some(&AttributeValue::Link(ref n)) => n.clone(),
+            _ => return false,
+        };
+
+        if link == *owner {
+            // Nothing to inherit from a directly linked element without attributes.
+            return !visited.is_empty() || owner.attributes().iter().any(|a| a.visible);
+        }
+
+        visited.push(node.clone());
+        if visited.contains(&link) {
+            return false;
+        }
+
+        node = link;
+    }
+}
+
 fn is_gradient_attrs_equal(node1: &Node, node2: &Node, attrs: &[AId]) -> bool {
     let attrs1 = node1.attributes();
     let attrs2 = node2.attributes();
-- 
2.43.0


From 2be380934f138033a4dc327971c159a9e9ebedeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:10 +0000
Subject: [PATCH 30/89] fix: keep empty clip paths used by not removable masks
 and clip paths

---
 src/task/rm_invisible_elems.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 228502c..b1a1e56 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -80,7 +80,7 @@ fn process_clip_paths(doc: &Document, is_any_removed: &mut bool) {
     // Note, that all elements that uses this clip path also became invisible,
     // so we can remove them as well.
     while let Some(mut n) = clip_paths.pop() {
-        if is_used_by_root(&n) || has_used_children(&n) || n.linked_nodes().any(|l| is_needed(&l)) {
+        if !is_removable_clip_path(&n, &mut Vec::new()) {
             continue;
         }
 
@@ -109,6 +109,22 @@ fn process_clip_paths(doc: &Document, is_any_removed: &mut bool) {
     }
 }
 
+// A 'clipPath' can be removed only with all elements that became invisible because of it.
+fn is_removable_clip_path(node: &Node, visited: &mut Vec<Node>) -> bool {
+    if visited.contains(node) {
+        return true;
+    }
+
+    visited.push(node.clone());
+
+    if is_used_by_root(node) || has_used_children(node) || node.linked_nodes().any(|l| is_needed(&l)) {
+        return false;
+    }
+
+    let mut links = node.linked_nodes().filter(|l| l.is_tag_name(EId::ClipPath) || l.is_tag_name(EId::Mask));
+    links.all(|l| is_removable_clip_path(&l, visited))
+}
+
 // The root element can't be removed.
 fn is_used_by_root(node: &Node) -> bool {
     node.linked_nodes().any(|n| Some(n) == node.document().svg_element())
-- 
2.43.0


From f3ec54056c881f15bcf98c677d66e64270a9e8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:41 +0000
Subject: [PATCH 31/89] fix: keep invisible elements used by elements with
 effects

---
 src/task/rm_invisible_elems.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index b1a1e56..2959426 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -140,7 +140,11 @@ fn is_needed(node: &Node) -> bool {
     // A bounding box of the parent element depends on invisible elements too.
     static BBOX_ATTRIBUTES: &'static [AId] = &[AId::ClipPath, AId::Mask, AId::Filter];
 
-    has_used_children(node) || node.parents().any(|n| n.has_attributes(BBOX_ATTRIBUTES))
+    let has_bbox_attr = |node: &Node| node.parents_with_self().any(|n| n.has_attributes(BBOX_ATTRIBUTES));
+
+       has_used_children(node)
+    || node.parents().any(|n| n.has_attributes(BBOX_ATTRIBUTES))
+    || node.parents_with_self().any(|n| n.linked_nodes().any(|l| has_bbox_attr(&l)))
 }
 
 fn is_valid_clip_path_elem(node: &Node) -> bool {
-- 
2.43.0


From 615bce4c04aa9e4d9e916e98a8e94cd2294be3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 32/89] fix: do not link elements to duplicates without an ID

---
 src/task/rm_dupl_defs/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/rm_dupl_defs/mod.rs b/src/task/rm_dupl_defs/mod.rs
index a739c1b..c50ee76 100644
--- a/src/task/rm_dupl_defs/mod.rs
+++ b/src/task/rm_dupl_defs/mod.rs
@@ -61,6 +61,11 @@ fn rm_loop<F>(nodes: &mut Vec<Node>, cmp: F)
                 continue;
             }
 
+            // An element without an ID can't be linked.
+            if !node1.has_id() && node2.is_used() {
+                continue;
+            }
+
             // An element that provides attributes to the first one can't be removed.
             if is_attributes_owner(&node2, &node1) {
                 continue;
-- 
2.43.0


From 2f5264eae45d466d22bd31366c1254d1c81e7817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 33/89] fix: keep invisible children of switch and linked
 patterns

---
 src/task/rm_invisible_elems.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 2959426..edba6bc 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -135,6 +135,19 @@ fn has_used_children(node: &Node) -> bool {
     node.children().any(|c| c.is_used() || c.descendants().any(|n| n.is_used()))
 }
 
+// Checks that an element without a visible content doesn't prevent other elements from rendering.
+fn is_removable(node: &Node) -> bool {
+    match node.parent() {
+        Some(ref parent) => {
+            // 'switch' renders only the first suitable child.
+               !parent.is_tag_name(EId::Switch)
+            // 'pattern' without children inherits them from the linked one.
+            && !(parent.is_tag_name(EId::Pattern) && parent.has_attribute(AId::XlinkHref))
+        }
+        None => true,
+    }
+}
+
 // Checks that an invisible element affects other elements.
 fn is_needed(node: &Node) -> bool {
     // A bounding box of the parent element depends on invisible elements too.
@@ -142,7 +155,8 @@ fn is_needed(node: &Node) -> bool {
 
     let has_bbox_attr = |node: &Node| node.parents_with_self().any(|n| n.has_attributes(BBOX_ATTRIBUTES));
 
-       has_used_children(node)
+       !is_removable(node)
+    || has_used_children(node)
     || node.parents().any(|n| n.has_attributes(BBOX_ATTRIBUTES))
     || node.parents_with_self().any(|n| n.linked_nodes().any(|l| has_bbox_attr(&l)))
 }
@@ -178,7 +192,7 @@ fn process_paths(doc: &mut Document, is_any_removed: &mut bool) {
         }
     }
 
-    let c = doc.drain(|n| n.is_tag_name(EId::Path) && is_invisible(n));
+    let c = doc.drain(|n| n.is_tag_name(EId::Path) && is_invisible(n) && is_removable(n));
     if c != 0 {
         *is_any_removed = true;
     }
@@ -201,7 +215,7 @@ fn _process_display_attribute(parent: &Node, nodes: &mut Vec<Node>, is_any_remov
     for (_, node) in parent.children().svg() {
         // If elements has attribute 'display:none' and this element is not used - we can remove it.
         let val = AttributeValue::PredefValue(ValueId::None);
-        if node.attributes().get_value(AId::Display) == Some(&val) && !node.is_used() {
+        if node.attributes().get_value(AId::Display) == Some(&val) && !node.is_used() && is_removable(&node) {
             // All children must be unused to.
             if !node.descendants().any(|n| n.is_used()) {
                 // TODO: ungroup used elements and remove unused
@@ -285,7 +299,7 @@ fn process_fe_color_matrix(doc: &mut Document) {
 
 // 'use' element without 'xlink:href' attribute is pointless.
 fn process_use(doc: &mut Document, is_any_removed: &mut bool) {
-    let c = doc.drain(|n| n.is_tag_name(EId::Use) && !n.has_attribute(AId::XlinkHref));
+    let c = doc.drain(|n| n.is_tag_name(EId::Use) && !n.has_attribute(AId::XlinkHref) && is_removable(n));
     if c != 0 {
         *is_any_removed = true;
     }
@@ -436,7 +450,7 @@ fn process_rect(doc: &mut Document, is_any_removed: &mut bool) {
         false
     }
 
-    let c = doc.drain(is_invisible);
+    let c = doc.drain(|n| is_invisible(n) && is_removable(n));
     if c != 0 {
         *is_any_removed = true;
     }
-- 
2.43.0


From fdd3bb03cbf811fe6248ab323a8e5250d59d2f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 34/89] fix: do not group a font when the parent has
 font-relative attributes

---
 src/task/group_by_style.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/group_by_style.rs b/src/task/group_by_style.rs
index 7aec429..0d1ebb7 100644
--- a/src/task/group_by_style.rs
+++ b/src/task/group_by_style.rs
@@ -453,6 +453,11 @@ fn _group_by_style(parent: &Node, opt: &WriteOptions) {
                 }
             } else if !attr.is_inheritable() || is_font_relative(aid, attr) {
                 continue;
+            } else if aid == AId::FontSize || aid == AId::FontFamily {
+                // Relative values of the parent depend on it's font.
+                if parent.attributes().iter_svg().any(|(aid, attr)| is_font_relative(aid, attr)) {
+                    continue;
+                }
             }
 
             // Append only unique attributes.
-- 
2.43.0


From 7a340b75bebb50a303c377d521cb3ec3baaa757d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:10 +0000
Subject: [PATCH 35/89] fix: compare subregions and color spaces of duplicated
 blur filters

---
 src/task/rm_dupl_defs/fe_gaussian_blur.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/rm_dupl_defs/fe_gaussian_blur.rs b/src/task/rm_dupl_defs/fe_gaussian_blur.rs
index ec85772..ebea065 100644
--- a/src/task/rm_dupl_defs/fe_gaussian_blur.rs
+++ b/src/task/rm_dupl_defs/fe_gaussian_blur.rs
@@ -37,6 +37,11 @@ pub fn remove_dupl_fe_gaussian_blur(doc: &Document) {
 
     let fe_blur_attrs = [
         AId::StdDeviation,
+        AId::X,
+        AId::Y,
+        AId::Width,
+        AId::Height,
+        AId::ColorInterpolationFilters,
     ];
 
     let mut nodes = Vec::new();
-- 
2.43.0


From 5b07e4b70c908ea0fdca7e4e4ef0c081c302b4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:54 +0000
Subject: [PATCH 36/89] fix: compare 'color-interpolation' of duplicated
 gradients

---
 src/task/rm_dupl_defs/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/task/rm_dupl_defs/mod.rs b/src/task/rm_dupl_defs/mod.rs
index c50ee76..e59c189 100644
--- a/src/task/rm_dupl_defs/mod.rs
+++ b/src/task/rm_dupl_defs/mod.rs
@@ -138,6 +138,10 @@ fn is_gradient_attrs_equal(node1: &Node, node2: &Node, attrs: &[AId]) -> bool {
 
     check_attr!(&attrs1, &attrs2, AId::GradientTransform, Transform::default());
 
+    if attrs1.get_value(AId::ColorInterpolation) != attrs2.get_value(AId::ColorInterpolation) {
+        return false;
+    }
+
     if attrs1.contains(AId::XlinkHref) && attrs2.contains(AId::XlinkHref) {
         if attrs1.get_value(AId::XlinkHref).unwrap() != attrs2.get_value(AId::XlinkHref).unwrap() {
             return false;
-- 
2.43.0


From 8a3828f39c2c71c49a9ef7247b343b72a825085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:24 +0000
Subject: [PATCH 37/89] fix: keep unresolved classes with '--no-defaults'

---
 src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index a0d445f..6415bd3 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -431,7 +431,7 @@ pub fn gen_parse_options(args: &ArgMatches) -> ParseOptions {
         parse_unknown_elements: true,
         parse_unknown_attributes: true,
         parse_px_unit: false,
-        skip_unresolved_classes: true,
+        skip_unresolved_classes: false,
         skip_invalid_attributes: false,
         skip_invalid_css: false,
         skip_paint_fallback: false,
-- 
2.43.0


From 9ce08ce1193b9068e91bf1d2fdfd1fde5987d199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:26 +0000
Subject: [PATCH 38/89] fix: set attributes only to SVG elements during
 ungrouping and moving to 'defs'

---
 src/task/group_defs.rs     | 2 +-
 src/task/ungroup_groups.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index 3dea586..1e072c0 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -137,7 +137,7 @@ fn resolve_attrs(node: &Node) {
             while let Some(p) = parent {
                 let attrs = p.attributes();
                 for (aid, attr) in attrs.iter_svg().filter(|&(_, a)| is_inheritable(a)) {
-                    for mut child in node.children() {
+                    for (_, mut child) in node.children().svg() {
                         if child.has_attribute(aid) {
                             continue;
                         }
diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index 481ba2e..46a0a84 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -211,7 +211,7 @@ fn ungroup_group(g: &mut Node) {
             continue;
         }
 
-        for mut child in g.children() {
+        for (_, mut child) in g.children().svg() {
             if aid == AId::Opacity {
                 if child.has_attribute(aid) {
                     // We can't just replace 'opacity' attribute,
-- 
2.43.0


From 6e910ba20e1442a674e31d81a6b56b6c2eee30ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:52 +0000
Subject: [PATCH 39/89] fix: don't panic on a gradient that is linked to an
 element with an external link

---
 src/task/resolve_gradients.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/task/resolve_gradients.rs b/src/task/resolve_gradients.rs
index e0c0575..f2e81e9 100644
--- a/src/task/resolve_gradients.rs
+++ b/src/task/resolve_gradients.rs
@@ -201,7 +201,8 @@ fn resolve_attribute(node: &Node, id: AId, def_value: Option<AttributeValue>)
         Some(av) => {
             match *av {
                 AttributeValue::Link(ref ref_node) => resolve_attribute(ref_node, id, def_value),
-                _ => unreachable!(),
+                // An element that is not a gradient can have an external link.
+                _ => def_value,
             }
         }
         None => {
-- 
2.43.0


From f4820c2275d8355c1c03a70c92b7cddf69674110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:52 +0000
Subject: [PATCH 40/89] fix: don't panic on an 'use' element that is linked to
 it's own parent or to a removed element

---
 src/task/resolve_use.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index 9567153..f95e6c0 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -40,8 +40,14 @@ pub fn resolve_use(doc: &Document) {
             if let AttributeValue::Link(ref link) = *value {
 
                 // Resolve elements that linked to elements inside 'defs'.
-                let parent = link.parent().unwrap();
-                if !parent.is_tag_name(EId::Defs) {
+                // The 'style' element doesn't have a parent, because it's removed by the parser.
+                match link.parent() {
+                    Some(ref parent) if parent.is_tag_name(EId::Defs) => {}
+                    _ => continue,
+                }
+
+                // Ignore 'use' elements linked to it's own parents.
+                if node.parents().any(|n| n == *link) {
                     continue;
                 }
 
-- 
2.43.0


From 95f3f312ae2b678954a17ca00df75333371bdfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:52 +0000
Subject: [PATCH 41/89] fix: don't panic when a hidden 'defs' was removed

---
 src/task/rm_unused_defs.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/task/rm_unused_defs.rs b/src/task/rm_unused_defs.rs
index c05084c..7b1e702 100644
--- a/src/task/rm_unused_defs.rs
+++ b/src/task/rm_unused_defs.rs
@@ -24,8 +24,11 @@ use svgdom::{
 use task::short::EId;
 
 pub fn remove_unused_defs(doc: &Document) {
-    // Unwrap is safe, because 'defs' already had been created in 'group_defs'.
-    let mut defs = doc.descendants().filter(|n| n.is_tag_name(EId::Defs)).nth(0).unwrap();
+    // 'defs' already had been created in 'group_defs', but could be removed as an invisible one.
+    let mut defs = match doc.descendants().filter(|n| n.is_tag_name(EId::Defs)).nth(0) {
+        Some(n) => n,
+        None => return,
+    };
 
     // Repeat until no unused nodes left.
     while remove_unused_defs_impl(&mut defs) { }
-- 
2.43.0


From ab05852e9025b6898c4f15f37473f4e693e67532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:52 +0000
Subject: [PATCH 42/89] fix: don't panic on elements that inherit a link to
 itself

---
 src/task/group_defs.rs     | 3 ++-
 src/task/ungroup_groups.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index 1e072c0..d773d3c 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -142,7 +142,8 @@ fn resolve_attrs(node: &Node) {
                             continue;
                         }
 
-                        child.set_attribute(attr.clone());
+                        // An element can't be linked to itself, even via a parent.
+                        let _ = child.set_attribute_checked(attr.clone());
                     }
                 }
 
diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index 46a0a84..cab321f 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -262,7 +262,8 @@ fn ungroup_group(g: &mut Node) {
             }
 
             if !child.has_attribute(aid) {
-                child.set_attribute(attr.clone());
+                // An element can't be linked to itself, even via a parent.
+                let _ = child.set_attribute_checked(attr.clone());
             }
         }
     }
-- 
2.43.0


From 4c10f5113b401ef7adb3c2850142be383db5539f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:25 +0000
Subject: [PATCH 43/89] fix: infinite loop on gradients that are linked from an
 element that was removed by the parser

---
 src/task/resolve_gradients.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/task/resolve_gradients.rs b/src/task/resolve_gradients.rs
index f2e81e9..2a070b6 100644
--- a/src/task/resolve_gradients.rs
+++ b/src/task/resolve_gradients.rs
@@ -169,7 +169,8 @@ fn gen_order(doc: &Document, eid: EId) -> Vec<Node> {
             }
 
             let c = node.linked_nodes().filter(|n| {
-                n.is_tag_name(eid) && !order.iter().any(|on| on == n)
+                // A linked element can be outside of the document.
+                nodes.iter().any(|on| on == n) && !order.iter().any(|on| on == n)
             }).count();
 
             if c == 0 {
-- 
2.43.0


From 7fa1050cfe24fe54a7948ab1abb70b8a8a0fc8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:25 +0000
Subject: [PATCH 44/89] fix: don't panic on a duplicated element with a
 crosslink

---
 src/task/rm_dupl_defs/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_dupl_defs/mod.rs b/src/task/rm_dupl_defs/mod.rs
index e59c189..de0d622 100644
--- a/src/task/rm_dupl_defs/mod.rs
+++ b/src/task/rm_dupl_defs/mod.rs
@@ -91,7 +91,8 @@ fn rm_loop<F>(nodes: &mut Vec<Node>, cmp: F)
             if !link_attrs.is_empty() {
                 for &mut (ref mut ln, ref aid, ref n) in &mut link_attrs {
                     if *ln.id() != *n.id() {
-                        ln.set_attribute((*aid, n.clone()));
+                        // Will fail when the linked element is linked back to it.
+                        let _ = ln.set_attribute_checked((*aid, n.clone()));
                     }
                 }
                 link_attrs.clear();
-- 
2.43.0


From 4b331ef39e7c60b67b05ac474f320b7d0ab08c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:42 +0000
Subject: [PATCH 45/89] fix: don't panic on a basic shape with 'xlink:href'

---
 src/task/rm_needless_attrs.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/rm_needless_attrs.rs b/src/task/rm_needless_attrs.rs
index c3e5b23..a6b24ff 100644
--- a/src/task/rm_needless_attrs.rs
+++ b/src/task/rm_needless_attrs.rs
@@ -33,6 +33,11 @@ use task::utils;
 
 pub fn remove_needless_attributes(doc: &Document) {
     for (id, mut node) in doc.descendants().svg() {
+        // A link must be removed before other attributes, because it should be unlinked too.
+        if node.is_basic_shape() {
+            node.remove_attribute(AId::XlinkHref);
+        }
+
         match id {
             EId::ClipPath => process_clip_path(&node),
             EId::Rect => process_rect(&mut node),
-- 
2.43.0


From 5b8baaf95ac13f362f023abcfa4ec66e1833f464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:42 +0000
Subject: [PATCH 46/89] fix: infinite loop on gradients with linked
 presentation attributes

---
 src/task/rm_gradient_attrs.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/task/rm_gradient_attrs.rs b/src/task/rm_gradient_attrs.rs
index 4d884ad..ea9958f 100644
--- a/src/task/rm_gradient_attrs.rs
+++ b/src/task/rm_gradient_attrs.rs
@@ -40,10 +40,13 @@ fn process_units(doc: &Document) {
 // If a gradient has the same 'gradientUnits' value as a parent
 // we can remove such attribute.
 fn rm_equal(doc: &Document) {
+    let nodes: Vec<Node> = doc.descendants()
+                              .filter(|n| n.is_gradient() && n.has_attribute(AId::XlinkHref))
+                              .collect();
+
     let mut order = Vec::new();
-    for node in doc.descendants().filter(|n|    n.is_gradient()
-                                             && n.has_attribute(AId::XlinkHref)) {
-        let c = node.linked_nodes().filter(|n| n.is_gradient()).count();
+    for node in &nodes {
+        let c = nodes.iter().filter(|n| is_href_to(n, node)).count();
         // The gradient element and count of gradient elements than uses it.
         order.push((node.clone(), c));
     }
@@ -97,7 +100,7 @@ fn group_to_parent(doc: &Document) {
     let mut nodes: Vec<Node> = doc.descendants()
                                   .filter(|n| n.is_gradient())
                                   .filter(|n| !n.has_attribute(AId::XlinkHref))
-                                  .filter(|n| n.linked_nodes().all(|l| l.is_gradient()))
+                                  .filter(|n| n.linked_nodes().all(|l| l.is_gradient() && is_href_to(&l, n)))
                                   .collect();
 
     for node in &mut nodes {
@@ -170,6 +173,14 @@ fn group_to_parent(doc: &Document) {
     }
 }
 
+// A gradient can be linked to another one by a presentation attribute too.
+fn is_href_to(node: &Node, link: &Node) -> bool {
+    match node.attributes().get_value(AId::XlinkHref) {
+        Some(&AttributeValue::Link(ref n)) => n == link,
+        _ => false,
+    }
+}
+
 fn make_attr_invisible(node: &mut Node, aid: AId) {
     let mut attrs = node.attributes_mut();
     attrs.get_mut(aid).unwrap().visible = false;
-- 
2.43.0


From 5d1abb3f2f22349ac31469a99a5313e02c514590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:13 +0000
Subject: [PATCH 47/89] fix: merge gradients only with gradients

---
 src/task/merge_gradients.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/merge_gradients.rs b/src/task/merge_gradients.rs
index b0d46af..9b2035e 100644
--- a/src/task/merge_gradients.rs
+++ b/src/task/merge_gradients.rs
@@ -68,7 +68,7 @@ fn _merge_gradients(doc: &Document, nodes: &mut Vec<Node>) {
 
         if let Some(av) = node.attributes().get_value(AId::XlinkHref) {
             if let AttributeValue::Link(ref link) = *av {
-                if link.uses_count() == 1 && !link.has_attribute(AId::XlinkHref) {
+                if link.is_gradient() && link.uses_count() == 1 && !link.has_attribute(AId::XlinkHref) {
                     linked_node = link.clone();
                 } else {
                     continue;
-- 
2.43.0


From 915c13219d6f3492cfbdb826dfb60a75eb60fd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:13 +0000
Subject: [PATCH 48/89] fix: don't panic on 'inherit' inside of an inherited
 element

---
 src/task/resolve_inherit.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/task/resolve_inherit.rs b/src/task/resolve_inherit.rs
index f7840bf..d91dc7d 100644
--- a/src/task/resolve_inherit.rs
+++ b/src/task/resolve_inherit.rs
@@ -111,7 +111,10 @@ fn resolve_impl(node: &mut Node, curr_attr: AttributeId, parent_attr: AttributeI
     if let Some(n) = node.parents().find(|n| n.has_attribute(parent_attr)) {
         let av = n.attributes().get_value(parent_attr).cloned();
         if let Some(av) = av {
-            node.set_attribute((curr_attr, av.clone()));
+            // An inherited link can't be set to the linked element itself.
+            if node.set_attribute_checked((curr_attr, av.clone())).is_err() {
+                node.remove_attribute(curr_attr);
+            }
         }
 
         Ok(())
-- 
2.43.0


From 0fc09634f0e5771e573f21e98a5de17c1109fe12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:11 +0000
Subject: [PATCH 49/89] fix: keep 'xmlns:xlink' when it's used by other 'xlink'
 attributes

---
 src/task/final_fixes.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/task/final_fixes.rs b/src/task/final_fixes.rs
index f024c04..7332b40 100644
--- a/src/task/final_fixes.rs
+++ b/src/task/final_fixes.rs
@@ -51,6 +51,12 @@ pub fn fix_xmlns_attribute(doc: &Document, rm_unused: bool) {
             has_links = true;
             break;
         }
+
+        // Other attributes, like 'xlink:title', needs this namespace too.
+        if node.attributes().iter_svg().any(|(aid, _)| aid.name().starts_with("xlink:")) {
+            has_links = true;
+            break;
+        }
     }
 
     let has_xlink = svg.has_attribute(AId::XmlnsXlink);
-- 
2.43.0


From 87159eec2ac55d3fa1a7db108ab62a6d7e199f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:21 +0000
Subject: [PATCH 50/89] fix: escape double quotes in attribute values

---
 src/cleaner.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/cleaner.rs b/src/cleaner.rs
index 0eec548..9c87070 100644
--- a/src/cleaner.rs
+++ b/src/cleaner.rs
@@ -25,6 +25,8 @@ use std::io::{
 
 use svgdom::{
     self,
+    AttributeType,
+    AttributeValue,
     Document,
     ElementId,
     ParseOptions,
@@ -57,7 +59,31 @@ pub fn load_file(path: &str) -> Result<String, io::Error> {
 }
 
 pub fn parse_data(data: &str, opt: &ParseOptions) -> Result<Document, svgdom::Error> {
-    Document::from_str_with_opt(data, opt)
+    let doc = Document::from_str_with_opt(data, opt)?;
+    escape_quotes(&doc);
+    Ok(doc)
+}
+
+// Attribute values are always written inside of double quotes and without escaping,
+// so double quotes from a single quoted value should be replaced.
+fn escape_quotes(doc: &Document) {
+    for mut node in doc.descendants() {
+        if node.id().contains('"') {
+            let id = node.id().replace('"', "&quot;");
+            node.set_id(id);
+        }
+
+        for attr in node.attributes_mut().iter_mut() {
+            let is_style = attr.is_presentation();
+            if let AttributeValue::String(ref mut s) = attr.value {
+                if s.contains('"') {
+                    // Both quotes are the same in CSS.
+                    let quote = if is_style && !s.contains('\'') { "'" } else { "&quot;" };
+                    *s = s.replace('"', quote);
+                }
+            }
+        }
+    }
 }
 
 pub fn clean_doc(
-- 
2.43.0


From 86f3a5051058b8bfe98429b7f351b21e1e7f0f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:21 +0000
Subject: [PATCH 51/89] fix: don't join attributes with references into the
 'style' attribute

---
 src/task/join_style_attrs.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/task/join_style_attrs.rs b/src/task/join_style_attrs.rs
index 4259810..c53388c 100644
--- a/src/task/join_style_attrs.rs
+++ b/src/task/join_style_attrs.rs
@@ -17,7 +17,9 @@
 // 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 
 use svgdom::{
+    Attribute,
     AttributeType,
+    AttributeValue,
     Document,
     WriteBuffer,
     WriteOptions,
@@ -36,7 +38,7 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
     for (_, mut node) in doc.descendants().svg() {
         let count = {
             let attrs = node.attributes();
-            attrs.iter().filter(|a| a.is_presentation() && a.visible).count()
+            attrs.iter().filter(|a| is_joinable(a) && a.visible).count()
         };
 
         // 5 - is an amount of attributes when style notation is becoming more efficient than
@@ -44,7 +46,7 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
         if (mode == StyleJoinMode::Some && count > 5) || mode == StyleJoinMode::All {
             let mut ids = Vec::new();
             let mut style = Vec::new();
-            for (aid, attr) in node.attributes().iter_svg().filter(|&(_, a)| a.is_presentation()) {
+            for (aid, attr) in node.attributes().iter_svg().filter(|&(_, a)| is_joinable(a)) {
                 if !attr.visible {
                     continue;
                 }
@@ -71,6 +73,16 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
     }
 }
 
+fn is_joinable(attr: &Attribute) -> bool {
+    // References, like '&quot;', and semicolons can't be parsed inside the 'style' attribute.
+    let is_plain = match attr.value {
+        AttributeValue::String(ref s) => !s.contains('&') && !s.contains(';'),
+        _ => true,
+    };
+
+    is_plain && attr.is_presentation()
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 2eb80b214170f3d7ec9a23103d78549ae5453398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:08 +0000
Subject: [PATCH 52/89] fix: don't join empty attributes into the 'style'
 attribute

---
 src/task/join_style_attrs.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/task/join_style_attrs.rs b/src/task/join_style_attrs.rs
index c53388c..668dced 100644
--- a/src/task/join_style_attrs.rs
+++ b/src/task/join_style_attrs.rs
@@ -74,9 +74,12 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
 }
 
 fn is_joinable(attr: &Attribute) -> bool {
-    // References, like '&quot;', and semicolons can't be parsed inside the 'style' attribute.
+    // References, like '&quot;', semicolons and empty values can't be parsed
+    // inside the 'style' attribute.
     let is_plain = match attr.value {
-        AttributeValue::String(ref s) => !s.contains('&') && !s.contains(';'),
+        AttributeValue::String(ref s) => {
+            !s.trim().is_empty() && !s.contains('&') && !s.contains(';')
+        }
         _ => true,
     };
 
-- 
2.43.0


From 2ebb22c611c2880c18aa283648bc3e0131d0455f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:54 +0000
Subject: [PATCH 53/89] fix: infinite loop on gradients that are linked by a
 presentation attribute

---
 src/task/resolve_gradients.rs |  5 ++++-
 src/task/rm_gradient_attrs.rs |  9 +--------
 src/task/utils.rs             | 10 ++++++++++
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/task/resolve_gradients.rs b/src/task/resolve_gradients.rs
index 2a070b6..1138d5b 100644
--- a/src/task/resolve_gradients.rs
+++ b/src/task/resolve_gradients.rs
@@ -29,6 +29,7 @@ use svgdom::{
 };
 
 use task::short::{EId, AId};
+use task::utils::is_href_to;
 
 use error::{
     ErrorKind,
@@ -170,7 +171,9 @@ fn gen_order(doc: &Document, eid: EId) -> Vec<Node> {
 
             let c = node.linked_nodes().filter(|n| {
                 // A linked element can be outside of the document.
-                nodes.iter().any(|on| on == n) && !order.iter().any(|on| on == n)
+                // And only 'xlink:href' matters, since other links can be looped.
+                nodes.iter().any(|on| on == n) && is_href_to(n, node)
+                    && !order.iter().any(|on| on == n)
             }).count();
 
             if c == 0 {
diff --git a/src/task/rm_gradient_attrs.rs b/src/task/rm_gradient_attrs.rs
index ea9958f..a8b7842 100644
--- a/src/task/rm_gradient_attrs.rs
+++ b/src/task/rm_gradient_attrs.rs
@@ -25,6 +25,7 @@ use svgdom::{
 };
 
 use task::short::AId;
+use task::utils::is_href_to;
 
 pub fn remove_gradient_attributes(doc: &Document) {
     // TODO: process coordinates and transform
@@ -173,14 +174,6 @@ fn group_to_parent(doc: &Document) {
     }
 }
 
-// A gradient can be linked to another one by a presentation attribute too.
-fn is_href_to(node: &Node, link: &Node) -> bool {
-    match node.attributes().get_value(AId::XlinkHref) {
-        Some(&AttributeValue::Link(ref n)) => n == link,
-        _ => false,
-    }
-}
-
 fn make_attr_invisible(node: &mut Node, aid: AId) {
     let mut attrs = node.attributes_mut();
     attrs.get_mut(aid).unwrap().visible = false;
diff --git a/src/task/utils.rs b/src/task/utils.rs
index 943b295..45bf01b 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -31,6 +31,16 @@ pub fn is_use_target(node: &Node) -> bool {
     node.parents_with_self().any(|n| n.linked_nodes().any(|l| l.is_tag_name(EId::Use)))
 }
 
+/// Checks that a `node` is linked to the `link` via the `xlink:href` attribute.
+///
+/// A gradient can be linked to another one by a presentation attribute too.
+pub fn is_href_to(node: &Node, link: &Node) -> bool {
+    match node.attributes().get_value(AId::XlinkHref) {
+        Some(&AttributeValue::Link(ref n)) => n == link,
+        _ => false,
+    }
+}
+
 /// Checks that an element can have a marker: an own one or an inherited one.
 pub fn has_marker(node: &Node) -> bool {
     static MARKERS: &'static [AId] = &[
-- 
2.43.0


From 71f0ef85543eaa5e64d07810de2da5a0802195cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:48 +0000
Subject: [PATCH 54/89] fix: don't join attributes with unbalanced quotes into
 the 'style' attribute

---
 src/task/join_style_attrs.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/task/join_style_attrs.rs b/src/task/join_style_attrs.rs
index 668dced..cb1183f 100644
--- a/src/task/join_style_attrs.rs
+++ b/src/task/join_style_attrs.rs
@@ -74,18 +74,29 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
 }
 
 fn is_joinable(attr: &Attribute) -> bool {
-    // References, like '&quot;', semicolons and empty values can't be parsed
-    // inside the 'style' attribute.
     let is_plain = match attr.value {
-        AttributeValue::String(ref s) => {
-            !s.trim().is_empty() && !s.contains('&') && !s.contains(';')
-        }
+        AttributeValue::String(ref s) => is_plain_value(s),
         _ => true,
     };
 
     is_plain && attr.is_presentation()
 }
 
+// Checks that a value can be parsed inside the 'style' attribute.
+//
+// Unlike a value of an attribute, it can't be empty, can't contain references, like '&quot;',
+// and can't contain characters that has a special meaning in CSS.
+fn is_plain_value(s: &str) -> bool {
+    let mut s = s.trim();
+
+    // A completely quoted string, like "'Times New Roman'".
+    if s.len() > 2 && s.starts_with('\'') && s.ends_with('\'') {
+        s = s[1..s.len() - 1].trim();
+    }
+
+    !s.is_empty() && !s.contains("/*") && !s.contains(|c| "&;{}\\\"'".contains(c))
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From eefb553da444e5a3e4e59fed42fb4bd37992c913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:06 +0000
Subject: [PATCH 55/89] fix: don't duplicate attributes of the referenced
 children of the 'svg'

---
 src/task/group_defs.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index d773d3c..86dd374 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -79,7 +79,11 @@ pub fn group_defs(doc: &mut Document) {
         }
 
         for n in &mut nodes {
-            resolve_attrs(n);
+            // Children of the 'svg' will inherit the same attributes inside the 'defs'.
+            if n.parent().as_ref() != Some(&svg) {
+                resolve_attrs(n);
+            }
+
             n.detach();
             defs.append(n);
         }
-- 
2.43.0


From 7347fa970d106a261ee2edbac463fcd48ebea697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:06 +0000
Subject: [PATCH 56/89] fix: infinite loop and a bigger file with '--multipass'

---
 src/main.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 8f0c098..e492614 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -116,7 +116,7 @@ fn main() {
 
     let input_size = raw.len();
     let mut buf = raw.into_bytes();
-    let mut prev_size = 0;
+    let mut prev_buf = Vec::new();
 
     loop {
         // Parse it.
@@ -157,12 +157,17 @@ fn main() {
             break;
         }
 
-        // If size is unchanged - exit from the loop.
-        if prev_size == buf.len() {
+        // If size is not reduced anymore - exit from the loop.
+        if !prev_buf.is_empty() && buf.len() >= prev_buf.len() {
+            // A new result can be bigger than a previous one.
+            if buf.len() > prev_buf.len() {
+                buf = prev_buf;
+            }
+
             break;
         }
 
-        prev_size = buf.len();
+        prev_buf = buf.clone();
     }
 
     // Check that cleaned file is smaller.
-- 
2.43.0


From e3ad2a1a7885d965f1b6c8f692a3b0b3ddaaec49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:20 +0000
Subject: [PATCH 57/89] fix: keep the input file when '--copy-on-error' output
 is the same file

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index e492614..0fa9d8a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -107,7 +107,10 @@ fn main() {
             let outf = out_file.unwrap();
             // Copy a file only when paths are different.
             if inf != outf {
-                try_msg!(fs::copy(inf, outf));
+                // Different paths can still point to the same file,
+                // and 'fs::copy' will truncate it.
+                let data = try_msg!(fs::read(inf));
+                try_msg!(fs::write(outf, data));
             }
         }
 
-- 
2.43.0


From 633cd78e687a8585169defbb1ba913fecfda0f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:20 +0000
Subject: [PATCH 58/89] fix: copy an input file on a loading error too

---
 src/main.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 0fa9d8a..ece0205 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -87,12 +87,6 @@ fn main() {
         }
     }
 
-    // Load data.
-    let raw = match input {
-        InputFrom::Stdin => try_msg!(cleaner::load_stdin()),
-        InputFrom::File(path) => try_msg!(cleaner::load_file(path)),
-    };
-
     let on_err = || {
         // Copy original file to destination
         // only when both files are specified.
@@ -117,6 +111,21 @@ fn main() {
         std::process::exit(0);
     };
 
+    // Load data.
+    let raw = match input {
+        InputFrom::Stdin => try_msg!(cleaner::load_stdin()),
+        InputFrom::File(path) => {
+            match cleaner::load_file(path) {
+                Ok(raw) => raw,
+                Err(e) => {
+                    writeln!(stderr(), "Error: {}.", e).unwrap();
+                    on_err();
+                    return;
+                }
+            }
+        }
+    };
+
     let input_size = raw.len();
     let mut buf = raw.into_bytes();
     let mut prev_buf = Vec::new();
-- 
2.43.0


From 47139f074f93fda5d092b8cd478bcfe15aac4519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:20 +0000
Subject: [PATCH 59/89] fix: resolve attributes of all elements inside a defs
 with attributes

---
 src/task/group_defs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index 86dd374..3df9745 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -39,7 +39,7 @@ pub fn group_defs(doc: &mut Document) {
     // Make 'defs' a first child of the 'svg'.
     if svg.first_child() != Some(defs.clone()) {
         // Elements inside the moved 'defs' will lose attributes of it's old parents.
-        for child in defs.children().filter(|n| n.is_referenced()) {
+        for (_, child) in defs.descendants().svg().filter(|&(_, ref n)| n.is_referenced()) {
             resolve_attrs(&child);
         }
 
@@ -56,7 +56,7 @@ pub fn group_defs(doc: &mut Document) {
         };
 
         if !ids.is_empty() {
-            for child in defs.children().filter(|n| n.is_referenced()) {
+            for (_, child) in defs.descendants().svg().filter(|&(_, ref n)| n.is_referenced()) {
                 resolve_attrs(&child);
             }
 
-- 
2.43.0


From 28ae965f0a8fa93371b284275692869410f3c21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:20 +0000
Subject: [PATCH 60/89] fix: keep inherited color attributes of the moved
 gradients, masks and filters

---
 src/task/group_defs.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index 3df9745..dbbbe6a 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -132,6 +132,8 @@ fn is_inheritable(attr: &Attribute) -> bool {
 //
 // Note that 'symbol' inherits attributes only from the 'use' element.
 fn resolve_attrs(node: &Node) {
+    resolve_own_attrs(node);
+
     match node.tag_id().unwrap() {
           EId::ClipPath
         | EId::Marker
@@ -158,6 +160,28 @@ fn resolve_attrs(node: &Node) {
     }
 }
 
+// Inheritable attributes that affect the referenced element itself and not only it's children.
+fn resolve_own_attrs(node: &Node) {
+    let ids: &[AId] = match node.tag_id().unwrap() {
+          EId::LinearGradient
+        | EId::RadialGradient => &[AId::ColorInterpolation, AId::ColorRendering],
+        EId::Mask => &[AId::ColorInterpolation],
+        EId::Filter => &[AId::ColorInterpolationFilters],
+        _ => return,
+    };
+
+    for aid in ids {
+        let attr = node.parents_with_self()
+                       .find(|n| n.has_attribute(*aid))
+                       .and_then(|n| n.attributes().get(*aid).cloned());
+
+        if let Some(attr) = attr {
+            let mut node = node.clone();
+            node.set_attribute(attr);
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 32019e3ac17dae21cea5bf06feb851b186742da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:20 +0000
Subject: [PATCH 61/89] fix: keep gradient stops and filter primitives with
 'display:none'

---
 src/task/rm_invisible_elems.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index edba6bc..3f45cb4 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -212,6 +212,11 @@ fn process_display_attribute(doc: &Document, is_any_removed: &mut bool) {
 }
 
 fn _process_display_attribute(parent: &Node, nodes: &mut Vec<Node>, is_any_removed: &mut bool) {
+    // The 'display' attribute doesn't affect gradient stops and filter primitives.
+    if parent.is_gradient() || parent.is_tag_name(EId::Filter) {
+        return;
+    }
+
     for (_, node) in parent.children().svg() {
         // If elements has attribute 'display:none' and this element is not used - we can remove it.
         let val = AttributeValue::PredefValue(ValueId::None);
-- 
2.43.0


From eb6c32c132820f6aa38259f7e1342a4d31d584b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:20 +0000
Subject: [PATCH 62/89] fix: resolve 'inherit' of a non-inheritable attribute
 only from the parent element

---
 src/task/resolve_inherit.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/task/resolve_inherit.rs b/src/task/resolve_inherit.rs
index d91dc7d..e80f501 100644
--- a/src/task/resolve_inherit.rs
+++ b/src/task/resolve_inherit.rs
@@ -30,6 +30,7 @@ use error::{
     ErrorKind,
     Result,
 };
+use task::utils;
 
 // TODO: split
 /// Resolve `inherit` and `currentColor` attributes.
@@ -107,8 +108,29 @@ fn is_inherited_from_use(node: &Node, aid: AttributeId) -> bool {
     false
 }
 
+// Checks that a parent element affects the attribute only when it's set to 'inherit'.
+fn is_non_inheritable(node: &Node, aid: AttributeId) -> bool {
+    match node.attributes().get(aid) {
+        Some(attr) => !attr.is_inheritable() && aid != AttributeId::Visibility,
+        None => false,
+    }
+}
+
 fn resolve_impl(node: &mut Node, curr_attr: AttributeId, parent_attr: AttributeId) -> Result<()> {
     if let Some(n) = node.parents().find(|n| n.has_attribute(parent_attr)) {
+        if is_non_inheritable(node, curr_attr) && curr_attr == parent_attr {
+            if node.linked_nodes().any(|l| l.is_tag_name(ElementId::Use) && utils::is_href_to(&l, node)) {
+                // Has different values, because a parent can be the 'use' element.
+                return Err(ErrorKind::UnresolvedAttribute(curr_attr.to_string()).into());
+            }
+
+            if node.parent() != Some(n.clone()) {
+                // The parent element has an initial value.
+                node.remove_attribute(curr_attr);
+                return Ok(());
+            }
+        }
+
         let av = n.attributes().get_value(parent_attr).cloned();
         if let Some(av) = av {
             // An inherited link can't be set to the linked element itself.
-- 
2.43.0


From ab5c8fc08d26b82bb7a38087cf714603fe9b25b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:56 +0000
Subject: [PATCH 63/89] fix: inherit stops by gradients with a title

---
 src/task/merge_gradients.rs  | 2 +-
 src/task/rm_dupl_defs/mod.rs | 5 +++--
 src/task/utils.rs            | 7 +++++++
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/task/merge_gradients.rs b/src/task/merge_gradients.rs
index 9b2035e..970f00c 100644
--- a/src/task/merge_gradients.rs
+++ b/src/task/merge_gradients.rs
@@ -81,7 +81,7 @@ fn _merge_gradients(doc: &Document, nodes: &mut Vec<Node>) {
             continue;
         }
 
-        if !node.has_children() {
+        if !utils::has_stops(&node) {
             // Append 'stop' elements only when we don't have any before.
             while let Some(mut child) = linked_node.first_child() {
                 child.detach();
diff --git a/src/task/rm_dupl_defs/mod.rs b/src/task/rm_dupl_defs/mod.rs
index de0d622..dfb3977 100644
--- a/src/task/rm_dupl_defs/mod.rs
+++ b/src/task/rm_dupl_defs/mod.rs
@@ -23,6 +23,7 @@ use svgdom::{
 };
 
 use task::short::AId;
+use task::utils::has_stops;
 
 pub use self::linear_gradient::remove_dupl_linear_gradients;
 pub use self::radial_gradient::remove_dupl_radial_gradients;
@@ -150,7 +151,7 @@ fn is_gradient_attrs_equal(node1: &Node, node2: &Node, attrs: &[AId]) -> bool {
     }
 
     // Stops can be inherited from the linked gradient.
-    if !node1.has_children() && !node2.has_children() {
+    if !has_stops(node1) && !has_stops(node2) {
         if stops_owner(node1) != stops_owner(node2) {
             return false;
         }
@@ -168,7 +169,7 @@ fn is_gradient_attrs_equal(node1: &Node, node2: &Node, attrs: &[AId]) -> bool {
 fn stops_owner(node: &Node) -> Option<Node> {
     let mut visited = Vec::new();
     let mut node = node.clone();
-    while !node.has_children() {
+    while !has_stops(&node) {
         visited.push(node.clone());
 
         let link = match node.attributes().get_value(AId::XlinkHref) {
diff --git a/src/task/utils.rs b/src/task/utils.rs
index 45bf01b..d16af6c 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -41,6 +41,13 @@ pub fn is_href_to(node: &Node, link: &Node) -> bool {
     }
 }
 
+/// Checks that a gradient has own stops.
+///
+/// Descriptive elements, like `title`, don't prevent stops from being inherited.
+pub fn has_stops(node: &Node) -> bool {
+    node.children().any(|n| n.is_tag_name(EId::Stop))
+}
+
 /// Checks that an element can have a marker: an own one or an inherited one.
 pub fn has_marker(node: &Node) -> bool {
     static MARKERS: &'static [AId] = &[
-- 
2.43.0


From 13e90b0ebd4f2e8fe7678cf88a485bb71cb98ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:23 +0000
Subject: [PATCH 64/89] fix: keep inherited font attributes of the moved
 elements with relative ones

---
 src/task/group_defs.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index dbbbe6a..b03674a 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -143,6 +143,11 @@ fn resolve_attrs(node: &Node) {
             while let Some(p) = parent {
                 let attrs = p.attributes();
                 for (aid, attr) in attrs.iter_svg().filter(|&(_, a)| is_inheritable(a)) {
+                    // Already resolved for the node itself.
+                    if aid == AId::FontSize || aid == AId::FontWeight {
+                        continue;
+                    }
+
                     for (_, mut child) in node.children().svg() {
                         if child.has_attribute(aid) {
                             continue;
@@ -165,7 +170,11 @@ fn resolve_own_attrs(node: &Node) {
     let ids: &[AId] = match node.tag_id().unwrap() {
           EId::LinearGradient
         | EId::RadialGradient => &[AId::ColorInterpolation, AId::ColorRendering],
-        EId::Mask => &[AId::ColorInterpolation],
+        // Relative values of children depend on font attributes.
+          EId::ClipPath
+        | EId::Marker
+        | EId::Pattern => &[AId::FontSize, AId::FontWeight],
+        EId::Mask => &[AId::ColorInterpolation, AId::FontSize, AId::FontWeight],
         EId::Filter => &[AId::ColorInterpolationFilters],
         _ => return,
     };
-- 
2.43.0


From c251dc5dcc911f8f680512967ba9e053f0740efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:24 +0000
Subject: [PATCH 65/89] fix: resolve a relative font size of the moved elements
 from all parents

---
 src/task/group_defs.rs | 63 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 62 insertions(+), 1 deletion(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index b03674a..32d3f1b 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -19,12 +19,15 @@
 use svgdom::{
     Attribute,
     AttributeType,
+    AttributeValue,
     Document,
     ElementType,
+    Length,
     Node,
+    ValueId,
 };
 
-use task::short::{AId, EId};
+use task::short::{AId, EId, Unit};
 
 pub fn group_defs(doc: &mut Document) {
     // doc must contain 'svg' node, so we can safely unwrap.
@@ -180,6 +183,11 @@ fn resolve_own_attrs(node: &Node) {
     };
 
     for aid in ids {
+        if *aid == AId::FontSize {
+            resolve_font_size(node);
+            continue;
+        }
+
         let attr = node.parents_with_self()
                        .find(|n| n.has_attribute(*aid))
                        .and_then(|n| n.attributes().get(*aid).cloned());
@@ -191,6 +199,59 @@ fn resolve_own_attrs(node: &Node) {
     }
 }
 
+// A relative font size depends on all parents.
+fn resolve_font_size(node: &Node) {
+    let svg = node.document().svg_element();
+
+    let mut scale = 1.0;
+    let mut count = 0;
+    let mut attr = None;
+
+    // The 'svg' element is still a parent of the moved element.
+    for n in node.parents_with_self().take_while(|n| Some(n) != svg.as_ref()) {
+        let value = match n.attributes().get(AId::FontSize) {
+            Some(a) => a.clone(),
+            None => continue,
+        };
+
+        let k = match value.value {
+            AttributeValue::Length(len) => match len.unit {
+                Unit::Em => len.num,
+                Unit::Ex => len.num / 2.0,
+                Unit::Percent => len.num / 100.0,
+                _ => {
+                    // The value is absolute, so all other parents are irrelevant.
+                    attr = Some(if count == 0 {
+                        value.clone()
+                    } else {
+                        Attribute::new(AId::FontSize, Length::new(len.num * scale, len.unit))
+                    });
+                    break;
+                }
+            },
+            AttributeValue::PredefValue(ValueId::Larger) => 1.2,
+            AttributeValue::PredefValue(ValueId::Smaller) => 1.0 / 1.2,
+            _ => {
+                attr = Some(value);
+                break;
+            }
+        };
+
+        count += 1;
+        scale *= k;
+        attr = Some(if count == 1 {
+            value
+        } else {
+            Attribute::new(AId::FontSize, Length::new(scale * 100.0, Unit::Percent))
+        });
+    }
+
+    if let Some(attr) = attr {
+        let mut node = node.clone();
+        node.set_attribute(attr);
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 9d45737d930a21381637b77a2fc33b7bcbe7e3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:34 +0000
Subject: [PATCH 66/89] fix: keep a hidden 'defs' to prevent moving of a
 transform to the root 'svg'

---
 src/task/rm_invisible_elems.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 3f45cb4..e8e1e54 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -219,8 +219,9 @@ fn _process_display_attribute(parent: &Node, nodes: &mut Vec<Node>, is_any_remov
 
     for (_, node) in parent.children().svg() {
         // If elements has attribute 'display:none' and this element is not used - we can remove it.
+        // The 'defs' element is not rendered anyway and must be kept until the end of the cleaning.
         let val = AttributeValue::PredefValue(ValueId::None);
-        if node.attributes().get_value(AId::Display) == Some(&val) && !node.is_used() && is_removable(&node) {
+        if !node.is_tag_name(EId::Defs) && node.attributes().get_value(AId::Display) == Some(&val) && !node.is_used() && is_removable(&node) {
             // All children must be unused to.
             if !node.descendants().any(|n| n.is_used()) {
                 // TODO: ungroup used elements and remove unused
-- 
2.43.0


From cfb1be1789ee93f359a75ab3b78a967a1f58c973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:12 +0000
Subject: [PATCH 67/89] fix: do not ungroup a font-relative stroke-dasharray to
 children with an own font size

---
 src/task/ungroup_groups.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index cab321f..07c76d7 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -157,6 +157,9 @@ fn is_conflicting_font_size(g: &Node) -> bool {
     let is_relative = |node: &Node, aid: AId, units: &[Unit]| {
         match node.attributes().get_value(aid) {
             Some(&AttributeValue::Length(len)) => units.contains(&len.unit),
+            Some(&AttributeValue::LengthList(ref list)) => {
+                list.iter().any(|len| units.contains(&len.unit))
+            }
             Some(&AttributeValue::PredefValue(id)) => {
                 id == ValueId::Larger || id == ValueId::Smaller
             }
-- 
2.43.0


From aa6e16ae8916f0015985250c911da7dc15dc2e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:12 +0000
Subject: [PATCH 68/89] fix: keep font attributes of a group with font-relative
 attributes

---
 src/task/rm_text_attrs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/rm_text_attrs.rs b/src/task/rm_text_attrs.rs
index bf9eeac..76f7a85 100644
--- a/src/task/rm_text_attrs.rs
+++ b/src/task/rm_text_attrs.rs
@@ -98,7 +98,7 @@ fn _remove_text_attributes(parent: &Node) -> bool {
 
         if node.has_children() {
             // Go deeper.
-            let can_rm = _remove_text_attributes(&node);
+            let can_rm = _remove_text_attributes(&node) && !has_em_ex_attributes(&node);
             if can_rm {
                 if !node.is_tag_name(EId::FontFace) {
                     node.remove_attributes(TEXT_ATTRIBUTES);
-- 
2.43.0


From 0c9cf124e78b56a73acf90b43aef8fac858b0b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:39 +0000
Subject: [PATCH 69/89] fix: do not apply a transform to elements with an
 inherited font-relative stroke and an own font size

---
 src/task/apply_transforms/mod.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/task/apply_transforms/mod.rs b/src/task/apply_transforms/mod.rs
index a36a0be..485163e 100644
--- a/src/task/apply_transforms/mod.rs
+++ b/src/task/apply_transforms/mod.rs
@@ -83,9 +83,39 @@ pub mod utils {
             }
         }
 
+        for aid in &[AId::StrokeWidth, AId::StrokeDasharray, AId::StrokeDashoffset] {
+            if has_inherited_font_relative(node, *aid) {
+                return false;
+            }
+        }
+
         true
     }
 
+    // Checks that an inherited value is relative to a font of the parent
+    // and the node or it's parents have an own one.
+    fn has_inherited_font_relative(node: &Node, aid: AId) -> bool {
+        let is_relative = |unit: Unit| unit == Unit::Em || unit == Unit::Ex;
+
+        let mut has_font_size = false;
+        for parent in node.parents_with_self() {
+            match parent.attributes().get_value(aid) {
+                Some(&AttributeValue::Length(len)) => {
+                    return has_font_size && is_relative(len.unit);
+                }
+                Some(&AttributeValue::LengthList(ref list)) => {
+                    return has_font_size && list.iter().any(|len| is_relative(len.unit));
+                }
+                Some(_) => return false,
+                None => {}
+            }
+
+            has_font_size |= parent.has_attribute(AId::FontSize);
+        }
+
+        false
+    }
+
     // Checks that first occurred attribute value is not a FuncLink.
     fn is_valid_attr(node: &Node, aid: AId) -> bool {
         for parent in node.parents_with_self() {
-- 
2.43.0


From 6b6a5884549871a84b38aa647adde96b53202210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:20 +0000
Subject: [PATCH 70/89] fix: keep a font-relative value of parents on the moved
 element

---
 src/task/group_defs.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index 32d3f1b..f7b312c 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -151,8 +151,18 @@ fn resolve_attrs(node: &Node) {
                         continue;
                     }
 
+                    // Font-relative values depend on a font of the parent and not of the children.
+                    if is_font_relative(attr) {
+                        if !node.has_attribute(aid) {
+                            let mut node = node.clone();
+                            node.set_attribute(attr.clone());
+                        }
+
+                        continue;
+                    }
+
                     for (_, mut child) in node.children().svg() {
-                        if child.has_attribute(aid) {
+                        if child.has_attribute(aid) || (p != *node && node.has_attribute(aid)) {
                             continue;
                         }
 
@@ -168,6 +178,16 @@ fn resolve_attrs(node: &Node) {
     }
 }
 
+fn is_font_relative(attr: &Attribute) -> bool {
+    let is_relative = |len: &Length| len.unit == Unit::Em || len.unit == Unit::Ex;
+
+    match attr.value {
+        AttributeValue::Length(ref len) => is_relative(len),
+        AttributeValue::LengthList(ref list) => list.iter().any(is_relative),
+        _ => false,
+    }
+}
+
 // Inheritable attributes that affect the referenced element itself and not only it's children.
 fn resolve_own_attrs(node: &Node) {
     let ids: &[AId] = match node.tag_id().unwrap() {
-- 
2.43.0


From 1b56b6542a73f69cc6a91e448ddf72b8e1b2f2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:03 +0000
Subject: [PATCH 71/89] fix: do not resolve 'use' with font-relative attributes
 when the element has an own font size

---
 src/task/resolve_use.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index f95e6c0..f1b3895 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -157,6 +157,20 @@ fn is_conflicting(node: &Node, link: &Node) -> bool {
         return true;
     }
 
+    // Font-relative values depend on a font of the element on which they are set.
+    if link.has_attribute(AId::FontSize) {
+        let is_relative = |unit: Unit| unit == Unit::Em || unit == Unit::Ex;
+
+        let has_relative = node.attributes().iter_svg().any(|(_, attr)| match attr.value {
+            AttributeValue::Length(len) => is_relative(len.unit),
+            AttributeValue::LengthList(ref list) => list.iter().any(|len| is_relative(len.unit)),
+            _ => false,
+        });
+        if has_relative {
+            return true;
+        }
+    }
+
     let has_any = |n: &Node, ids: &[AId]| ids.iter().any(|id| n.has_attribute(*id));
 
     // This elements are resolved in the coordinate system of the 'use' element.
-- 
2.43.0


From fa3da5bf15a770e36489faaaef5bd54e7e5a6f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:32 +0000
Subject: [PATCH 72/89] fix: do not resolve 'use' when a relative font of the
 element depends on it

---
 src/task/resolve_use.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index f1b3895..4f07c7f 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -23,6 +23,7 @@ use svgdom::{
     Length,
     Node,
     Transform,
+    ValueId,
 };
 
 use task::short::{EId, AId, Unit};
@@ -171,6 +172,25 @@ fn is_conflicting(node: &Node, link: &Node) -> bool {
         }
     }
 
+    // Relative values of the linked element depend on values of the 'use'.
+    let has_relative = [AId::FontSize, AId::FontWeight].iter().any(|aid| {
+        node.has_attribute(*aid) && match link.attributes().get_value(*aid) {
+            Some(&AttributeValue::Length(len)) => {
+                len.unit == Unit::Em || len.unit == Unit::Ex || len.unit == Unit::Percent
+            }
+            Some(&AttributeValue::PredefValue(id)) => {
+                   id == ValueId::Larger
+                || id == ValueId::Smaller
+                || id == ValueId::Bolder
+                || id == ValueId::Lighter
+            }
+            _ => false,
+        }
+    });
+    if has_relative {
+        return true;
+    }
+
     let has_any = |n: &Node, ids: &[AId]| ids.iter().any(|id| n.has_attribute(*id));
 
     // This elements are resolved in the coordinate system of the 'use' element.
-- 
2.43.0


From ca6e4c6f2a70dd7ccc2e21b9e92f3c65dc65a794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:40 +0000
Subject: [PATCH 73/89] fix: resolve a relative font size of the moved elements
 from keywords

---
 src/task/group_defs.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index f7b312c..3396047 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -251,6 +251,16 @@ fn resolve_font_size(node: &Node) {
             },
             AttributeValue::PredefValue(ValueId::Larger) => 1.2,
             AttributeValue::PredefValue(ValueId::Smaller) => 1.0 / 1.2,
+            AttributeValue::PredefValue(id) => {
+                // The same as above, but for keywords.
+                attr = Some(match keyword_font_size(id) {
+                    Some(size) if count != 0 => {
+                        Attribute::new(AId::FontSize, Length::new(size * scale, Unit::Px))
+                    }
+                    _ => value.clone(),
+                });
+                break;
+            }
             _ => {
                 attr = Some(value);
                 break;
@@ -272,6 +282,20 @@ fn resolve_font_size(node: &Node) {
     }
 }
 
+// Default sizes of all browsers.
+fn keyword_font_size(id: ValueId) -> Option<f64> {
+    match id {
+        ValueId::XxSmall => Some(9.0),
+        ValueId::XSmall => Some(10.0),
+        ValueId::Small => Some(13.0),
+        ValueId::Medium => Some(16.0),
+        ValueId::Large => Some(18.0),
+        ValueId::XLarge => Some(24.0),
+        ValueId::XxLarge => Some(32.0),
+        _ => None,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From e36517797188ce7c8c030ca87e6f118073c36870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:17 +0000
Subject: [PATCH 74/89] fix: inherited properties of children of definitions
 that are shown by 'use'

An element that is moved to the main 'defs' passes properties of its old parents
to its children. A child that is also shown by 'use' lost the properties of the 'use'.
---
 src/task/group_defs.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index 3396047..ff34da5 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -142,6 +142,9 @@ fn resolve_attrs(node: &Node) {
         | EId::Marker
         | EId::Mask
         | EId::Pattern => {
+            let is_use = |n: &Node| n.linked_nodes().any(|l| l.is_tag_name(EId::Use));
+            let has_use_targets = node.children().svg().any(|(_, n)| is_use(&n));
+
             let mut parent = Some(node.clone());
             while let Some(p) = parent {
                 let attrs = p.attributes();
@@ -152,10 +155,12 @@ fn resolve_attrs(node: &Node) {
                     }
 
                     // Font-relative values depend on a font of the parent and not of the children.
-                    if is_font_relative(attr) {
+                    // And children that are shown by 'use' too should inherit only
+                    // from the 'use' there.
+                    if is_font_relative(attr) || has_use_targets {
                         if !node.has_attribute(aid) {
                             let mut node = node.clone();
-                            node.set_attribute(attr.clone());
+                            let _ = node.set_attribute_checked(attr.clone());
                         }
 
                         continue;
-- 
2.43.0


From ca2851e5cdf345c1a3c9440c434c7ccd1caca079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:02 +0000
Subject: [PATCH 75/89] fix: keep 'use' with baseline properties

They aren't inherited by the linked text, so they should not be moved to it.
---
 src/task/resolve_use.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index 4f07c7f..717be33 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -193,6 +193,11 @@ fn is_conflicting(node: &Node, link: &Node) -> bool {
 
     let has_any = |n: &Node, ids: &[AId]| ids.iter().any(|id| n.has_attribute(*id));
 
+    // This attributes aren't inherited by a linked text.
+    if has_any(node, &[AId::AlignmentBaseline, AId::BaselineShift, AId::DominantBaseline]) {
+        return true;
+    }
+
     // This elements are resolved in the coordinate system of the 'use' element.
     if    (link.has_attribute(AId::Transform) || has_any(node, &[AId::X, AId::Y]))
        && has_any(node, &[AId::Filter, AId::ClipPath, AId::Mask]) {
-- 
2.43.0


From fe8ff5671419ec1f5a547a8918d62f9c721f83b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:33 +0000
Subject: [PATCH 76/89] fix: keep color matrices with a region

A filter with an identity color matrix is removed, but a region other than the
default one clips the element.
---
 src/task/rm_invisible_elems.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index e8e1e54..ec54a99 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -275,6 +275,12 @@ fn process_fe_color_matrix(doc: &mut Document) {
             return false;
         }
 
+        // The image can be clipped by the region.
+        static REGION: &'static [AId] = &[AId::X, AId::Y, AId::Width, AId::Height];
+        if node.has_attributes(REGION) || child.has_attributes(REGION) {
+            return false;
+        }
+
         let attrs = child.attributes();
 
         // An input other than 'SourceGraphic' is not a default one.
-- 
2.43.0


From 1ab20479a145d2bb138f5ae6c17f62e4d03b61aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:42 +0000
Subject: [PATCH 77/89] fix: keep 'ry' in percent

---
 src/task/rm_unused_coords.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/task/rm_unused_coords.rs b/src/task/rm_unused_coords.rs
index 18d063a..5539112 100644
--- a/src/task/rm_unused_coords.rs
+++ b/src/task/rm_unused_coords.rs
@@ -21,7 +21,7 @@ use svgdom::{
     Document,
 };
 
-use task::short::{EId, AId};
+use task::short::{EId, AId, Unit};
 
 pub fn remove_unused_coordinates(doc: &Document) {
     let mut rm_list = Vec::with_capacity(16);
@@ -47,7 +47,15 @@ pub fn remove_unused_coordinates(doc: &Document) {
                 EId::Rect => {
                     // If 'rx' equals to 'ry', than we can remove 'ry'.
                     // https://www.w3.org/TR/SVG/shapes.html#RectElementRYAttribute
-                    if attrs.contains(AId::Rx) {
+                    //
+                    // A percentage of 'rx' is relative to the width of the viewport
+                    // and a percentage of 'ry' is relative to it's height.
+                    let is_percent = match attrs.get_value(AId::Rx) {
+                        Some(&AttributeValue::Length(len)) => len.unit == Unit::Percent,
+                        _ => false,
+                    };
+
+                    if attrs.contains(AId::Rx) && !is_percent {
                         if attrs.get_value(AId::Rx) == attrs.get_value(AId::Ry) {
                             rm_list.push(AId::Ry);
                         }
-- 
2.43.0


From 5c4f080310be0fcd836463ae5515a5e2a73e9cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:52 +0000
Subject: [PATCH 78/89] fix: keep an invisible path that is used by 'textPath'

---
 src/task/rm_invisible_elems.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index ec54a99..07148ce 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -155,7 +155,13 @@ fn is_needed(node: &Node) -> bool {
 
     let has_bbox_attr = |node: &Node| node.parents_with_self().any(|n| n.has_attributes(BBOX_ATTRIBUTES));
 
+    // An invisible element still can be used by 'textPath'.
+    let is_linked_by_href = |node: &Node| {
+        node.linked_nodes().any(|l| !l.is_tag_name(EId::Use) && utils::is_href_to(&l, node))
+    };
+
        !is_removable(node)
+    || is_linked_by_href(node)
     || has_used_children(node)
     || node.parents().any(|n| n.has_attributes(BBOX_ATTRIBUTES))
     || node.parents_with_self().any(|n| n.linked_nodes().any(|l| has_bbox_attr(&l)))
-- 
2.43.0


From 578d1e8fe62af520f9395a8bf478b81546543d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:50 +0000
Subject: [PATCH 79/89] fix: do not add an empty 'style' attribute

---
 src/task/join_style_attrs.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/join_style_attrs.rs b/src/task/join_style_attrs.rs
index cb1183f..cf4950f 100644
--- a/src/task/join_style_attrs.rs
+++ b/src/task/join_style_attrs.rs
@@ -41,6 +41,11 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
             attrs.iter().filter(|a| is_joinable(a) && a.visible).count()
         };
 
+        // An element without style properties should not get an empty 'style' attribute.
+        if count == 0 {
+            continue;
+        }
+
         // 5 - is an amount of attributes when style notation is becoming more efficient than
         // split attributes.
         if (mode == StyleJoinMode::Some && count > 5) || mode == StyleJoinMode::All {
-- 
2.43.0


From 501b2dafc8c809dda91627910251573499d01b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:27 +0000
Subject: [PATCH 80/89] fix: chained relative font weights of moved definitions

---
 src/task/group_defs.rs | 68 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 68 insertions(+)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index ff34da5..ca2706e 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -213,6 +213,11 @@ fn resolve_own_attrs(node: &Node) {
             continue;
         }
 
+        if *aid == AId::FontWeight {
+            resolve_font_weight(node);
+            continue;
+        }
+
         let attr = node.parents_with_self()
                        .find(|n| n.has_attribute(*aid))
                        .and_then(|n| n.attributes().get(*aid).cloned());
@@ -287,6 +292,69 @@ fn resolve_font_size(node: &Node) {
     }
 }
 
+// A relative font weight depends on all parents.
+fn resolve_font_weight(node: &Node) {
+    let mut steps = Vec::new();
+    let mut base = None;
+
+    for n in node.parents_with_self() {
+        match n.attributes().get(AId::FontWeight) {
+            Some(attr) => match attr.value {
+                AttributeValue::PredefValue(ValueId::Bolder) => steps.push(true),
+                AttributeValue::PredefValue(ValueId::Lighter) => steps.push(false),
+                _ => {
+                    base = Some(attr.clone());
+                    break;
+                }
+            },
+            None => {}
+        }
+    }
+
+    let mut node = node.clone();
+
+    if steps.is_empty() {
+        if let Some(attr) = base {
+            node.set_attribute(attr);
+        }
+
+        return;
+    }
+
+    let mut weight = match base.map(|a| a.value) {
+        Some(AttributeValue::PredefValue(id)) => match id {
+            ValueId::N100 => 100,
+            ValueId::N200 => 200,
+            ValueId::N300 => 300,
+            ValueId::N500 => 500,
+            ValueId::N600 => 600,
+            ValueId::Bold | ValueId::N700 => 700,
+            ValueId::N800 => 800,
+            ValueId::N900 => 900,
+            _ => 400,
+        },
+        _ => 400,
+    };
+
+    for is_bolder in steps.iter().rev() {
+        weight = match (*is_bolder, weight) {
+            (true, 100 | 200 | 300) => 400,
+            (true, 400 | 500) => 700,
+            (true, _) => 900,
+            (false, 100 | 200 | 300 | 400 | 500) => 100,
+            (false, 600 | 700) => 400,
+            (false, _) => 700,
+        };
+    }
+
+    node.set_attribute((AId::FontWeight, match weight {
+        100 => ValueId::N100,
+        400 => ValueId::N400,
+        700 => ValueId::N700,
+        _ => ValueId::N900,
+    }));
+}
+
 // Default sizes of all browsers.
 fn keyword_font_size(id: ValueId) -> Option<f64> {
     match id {
-- 
2.43.0


From 72173e25cc2930b7a4f6f417e78e2b8ee5707e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:44 +0000
Subject: [PATCH 81/89] fix: resolve relative font sizes of moved definitions
 only once

---
 src/task/group_defs.rs | 60 ++++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index ca2706e..3e2675a 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -39,32 +39,47 @@ pub fn group_defs(doc: &mut Document) {
         None => doc.create_element(EId::Defs),
     };
 
-    // Make 'defs' a first child of the 'svg'.
-    if svg.first_child() != Some(defs.clone()) {
-        // Elements inside the moved 'defs' will lose attributes of it's old parents.
-        for (_, child) in defs.descendants().svg().filter(|&(_, ref n)| n.is_referenced()) {
-            resolve_attrs(&child);
-        }
-
-        defs.detach();
-        svg.prepend(&defs);
-    }
-
     // Elements moved to the main 'defs' should not inherit it's attributes.
+    let defs_attrs: Vec<_> = {
+        let attrs = defs.attributes();
+        let iter = attrs.iter_svg().filter(|&(_, a)| is_inheritable(a)).map(|(aid, _)| aid);
+        iter.collect()
+    };
+
+    // Resolve attributes before moving anything.
+    //
+    // Relative values should be resolved only once and children
+    // should be resolved before parents, because a resolved parent already includes
+    // values of it's own parents.
     {
-        let ids: Vec<_> = {
-            let attrs = defs.attributes();
-            let iter = attrs.iter_svg().filter(|&(_, a)| is_inheritable(a)).map(|(aid, _)| aid);
-            iter.collect()
-        };
+        let is_main_first = svg.first_child() == Some(defs.clone());
 
-        if !ids.is_empty() {
-            for (_, child) in defs.descendants().svg().filter(|&(_, ref n)| n.is_referenced()) {
-                resolve_attrs(&child);
+        let mut nodes = Vec::new();
+        for (_, node) in doc.descendants().svg().filter(|&(_, ref n)| n.is_referenced()) {
+            // Children of the 'svg' will inherit the same attributes inside the 'defs'.
+            let is_needed = match node.parent() {
+                // Elements inside the moved 'defs' will lose attributes of it's old parents.
+                Some(ref p) if *p == defs => !is_main_first || !defs_attrs.is_empty(),
+                Some(p) => p != svg,
+                None => false,
+            };
+
+            if is_needed {
+                nodes.push(node.clone());
             }
+        }
 
-            defs.remove_attributes(&ids);
+        for node in nodes.iter().rev() {
+            resolve_attrs(node);
         }
+
+        defs.remove_attributes(&defs_attrs);
+    }
+
+    // Make 'defs' a first child of the 'svg'.
+    if svg.first_child() != Some(defs.clone()) {
+        defs.detach();
+        svg.prepend(&defs);
     }
 
     // Move all referenced elements to the main 'defs'.
@@ -82,11 +97,6 @@ pub fn group_defs(doc: &mut Document) {
         }
 
         for n in &mut nodes {
-            // Children of the 'svg' will inherit the same attributes inside the 'defs'.
-            if n.parent().as_ref() != Some(&svg) {
-                resolve_attrs(n);
-            }
-
             n.detach();
             defs.append(n);
         }
-- 
2.43.0


From 8ea1e6d5a01be42128ad8e0efc1c0fde4e5d865c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:13 +0000
Subject: [PATCH 82/89] fix: keep font-relative lengths of moved definitions

---
 src/task/group_defs.rs | 72 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 67 insertions(+), 5 deletions(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index 3e2675a..619619c 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -145,6 +145,8 @@ fn is_inheritable(attr: &Attribute) -> bool {
 //
 // Note that 'symbol' inherits attributes only from the 'use' element.
 fn resolve_attrs(node: &Node) {
+    let font_size = absolute_font_size(node);
+
     resolve_own_attrs(node);
 
     match node.tag_id().unwrap() {
@@ -169,8 +171,10 @@ fn resolve_attrs(node: &Node) {
                     // from the 'use' there.
                     if is_font_relative(attr) || has_use_targets {
                         if !node.has_attribute(aid) {
+                            let attr = rescale_font_relative(attr, absolute_font_size(&p), font_size);
+
                             let mut node = node.clone();
-                            let _ = node.set_attribute_checked(attr.clone());
+                            let _ = node.set_attribute_checked(attr);
                         }
 
                         continue;
@@ -194,15 +198,73 @@ fn resolve_attrs(node: &Node) {
 }
 
 fn is_font_relative(attr: &Attribute) -> bool {
-    let is_relative = |len: &Length| len.unit == Unit::Em || len.unit == Unit::Ex;
-
     match attr.value {
-        AttributeValue::Length(ref len) => is_relative(len),
-        AttributeValue::LengthList(ref list) => list.iter().any(is_relative),
+        AttributeValue::Length(ref len) => is_font_relative_len(len),
+        AttributeValue::LengthList(ref list) => list.iter().any(is_font_relative_len),
         _ => false,
     }
 }
 
+fn is_font_relative_len(len: &Length) -> bool {
+    len.unit == Unit::Em || len.unit == Unit::Ex
+}
+
+// Keeps a length when it moves to an element with an another font size.
+fn rescale_font_relative(attr: &Attribute, from: Length, to: Length) -> Attribute {
+    let mut attr = attr.clone();
+
+    if from == to {
+        return attr;
+    }
+
+    let rescale = |len: &mut Length| {
+        if is_font_relative_len(len) {
+            if from.unit == to.unit && to.num != 0.0 {
+                len.num *= from.num / to.num;
+            } else {
+                let k = if len.unit == Unit::Ex { 0.5 } else { 1.0 };
+                *len = Length::new(len.num * k * from.num, from.unit);
+            }
+        }
+    };
+
+    match attr.value {
+        AttributeValue::Length(ref mut len) => rescale(len),
+        AttributeValue::LengthList(ref mut list) => list.iter_mut().for_each(rescale),
+        _ => {}
+    }
+
+    attr
+}
+
+fn absolute_font_size(node: &Node) -> Length {
+    let mut scale = 1.0;
+
+    for n in node.parents_with_self() {
+        let attrs = n.attributes();
+        match attrs.get_value(AId::FontSize) {
+            Some(&AttributeValue::Length(len)) => match len.unit {
+                Unit::Em => scale *= len.num,
+                Unit::Ex => scale *= len.num / 2.0,
+                Unit::Percent => scale *= len.num / 100.0,
+                Unit::None => return Length::new(len.num * scale, Unit::Px),
+                _ => return Length::new(len.num * scale, len.unit),
+            },
+            Some(&AttributeValue::PredefValue(ValueId::Larger)) => scale *= 1.2,
+            Some(&AttributeValue::PredefValue(ValueId::Smaller)) => scale /= 1.2,
+            Some(&AttributeValue::PredefValue(id)) => {
+                if let Some(size) = keyword_font_size(id) {
+                    return Length::new(size * scale, Unit::Px);
+                }
+            }
+            _ => {}
+        }
+    }
+
+    let size = keyword_font_size(ValueId::Medium).unwrap();
+    Length::new(size * scale, Unit::Px)
+}
+
 // Inheritable attributes that affect the referenced element itself and not only it's children.
 fn resolve_own_attrs(node: &Node) {
     let ids: &[AId] = match node.tag_id().unwrap() {
-- 
2.43.0


From 5e094d2c32a7081bec85ae851f862e284da31900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:12 +0000
Subject: [PATCH 83/89] fix: do not remove the root element with 'display:none'

---
 src/task/rm_invisible_elems.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 07148ce..70b4e31 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -22,6 +22,7 @@ use svgdom::{
     ElementType,
     FuzzyEq,
     Node,
+    NodeType,
     ValueId,
 };
 
@@ -223,11 +224,14 @@ fn _process_display_attribute(parent: &Node, nodes: &mut Vec<Node>, is_any_remov
         return;
     }
 
+    let is_root = parent.node_type() == NodeType::Root;
+
     for (_, node) in parent.children().svg() {
         // If elements has attribute 'display:none' and this element is not used - we can remove it.
         // The 'defs' element is not rendered anyway and must be kept until the end of the cleaning.
+        // And the root element can't be removed at all.
         let val = AttributeValue::PredefValue(ValueId::None);
-        if !node.is_tag_name(EId::Defs) && node.attributes().get_value(AId::Display) == Some(&val) && !node.is_used() && is_removable(&node) {
+        if !node.is_tag_name(EId::Defs) && !is_root && node.attributes().get_value(AId::Display) == Some(&val) && !node.is_used() && is_removable(&node) {
             // All children must be unused to.
             if !node.descendants().any(|n| n.is_used()) {
                 // TODO: ungroup used elements and remove unused
-- 
2.43.0


From 57de30ec1378d0c9ad5038755718542b841195aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:36 +0000
Subject: [PATCH 84/89] fix: do not apply inherited font-relative values twice

---
 src/task/resolve_inherit.rs | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/task/resolve_inherit.rs b/src/task/resolve_inherit.rs
index e80f501..6e0bc1b 100644
--- a/src/task/resolve_inherit.rs
+++ b/src/task/resolve_inherit.rs
@@ -22,6 +22,8 @@ use svgdom::{
     AttributeValue,
     Document,
     ElementId,
+    Length,
+    LengthUnit,
     Node,
     ValueId,
 };
@@ -116,6 +118,30 @@ fn is_non_inheritable(node: &Node, aid: AttributeId) -> bool {
     }
 }
 
+// Checks that a value depends on a font of an element.
+fn is_font_relative(aid: AttributeId, value: &AttributeValue) -> bool {
+    let is_relative = |len: &Length| {
+           len.unit == LengthUnit::Em
+        || len.unit == LengthUnit::Ex
+        || (len.unit == LengthUnit::Percent && aid == AttributeId::FontSize)
+    };
+
+    match *value {
+        AttributeValue::Length(ref len) => is_relative(len),
+        AttributeValue::LengthList(ref list) => list.iter().any(is_relative),
+        AttributeValue::PredefValue(id) => {
+            match id {
+                  ValueId::Larger
+                | ValueId::Smaller
+                | ValueId::Bolder
+                | ValueId::Lighter => true,
+                _ => false,
+            }
+        }
+        _ => false,
+    }
+}
+
 fn resolve_impl(node: &mut Node, curr_attr: AttributeId, parent_attr: AttributeId) -> Result<()> {
     if let Some(n) = node.parents().find(|n| n.has_attribute(parent_attr)) {
         if is_non_inheritable(node, curr_attr) && curr_attr == parent_attr {
@@ -133,6 +159,13 @@ fn resolve_impl(node: &mut Node, curr_attr: AttributeId, parent_attr: AttributeI
 
         let av = n.attributes().get_value(parent_attr).cloned();
         if let Some(av) = av {
+            if !is_non_inheritable(node, curr_attr) && is_font_relative(curr_attr, &av) {
+                // An element inherits a computed value, which can be different
+                // from the same relative value set to the element.
+                node.remove_attribute(curr_attr);
+                return Ok(());
+            }
+
             // An inherited link can't be set to the linked element itself.
             if node.set_attribute_checked((curr_attr, av.clone())).is_err() {
                 node.remove_attribute(curr_attr);
-- 
2.43.0


From 551ef173467dca35a77318632d7e0d22105d894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:36 +0000
Subject: [PATCH 85/89] fix: a crash on a stop with inherited initial values

---
 src/task/resolve_inherit.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/task/resolve_inherit.rs b/src/task/resolve_inherit.rs
index 6e0bc1b..5ec9dde 100644
--- a/src/task/resolve_inherit.rs
+++ b/src/task/resolve_inherit.rs
@@ -20,6 +20,7 @@ use svgdom::{
     AttributeId,
     AttributeType,
     AttributeValue,
+    Color,
     Document,
     ElementId,
     Length,
@@ -152,7 +153,14 @@ fn resolve_impl(node: &mut Node, curr_attr: AttributeId, parent_attr: AttributeI
 
             if node.parent() != Some(n.clone()) {
                 // The parent element has an initial value.
-                node.remove_attribute(curr_attr);
+                //
+                // Attributes of the 'stop' element must stay resolved.
+                match curr_attr {
+                    AttributeId::StopColor => node.set_attribute((curr_attr, Color::new(0, 0, 0))),
+                    AttributeId::StopOpacity => node.set_attribute((curr_attr, 1.0)),
+                    _ => node.remove_attribute(curr_attr),
+                }
+
                 return Ok(());
             }
         }
-- 
2.43.0


From 728d1e1dccb10d0c5ed77cc193c7a55dc9d6c4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:57 +0000
Subject: [PATCH 86/89] fix: a crash on 'use' inside 'use'

---
 src/task/resolve_use.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index 717be33..541d71f 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -37,6 +37,11 @@ pub fn resolve_use(doc: &Document) {
             continue;
         }
 
+        // Children of the 'use' element will be removed with it.
+        if node.parents().any(|n| n.is_tag_name(EId::Use)) {
+            continue;
+        }
+
         if let Some(value) = node.attributes().get_value(AId::XlinkHref) {
             if let AttributeValue::Link(ref link) = *value {
 
-- 
2.43.0


From c922e29008f7ded5c70998aa6ce4644e9fe85fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:57 +0000
Subject: [PATCH 87/89] fix: a crash on children linked to the ID of a parent
 during grouping

---
 src/task/group_by_style.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/task/group_by_style.rs b/src/task/group_by_style.rs
index 0d1ebb7..f123c39 100644
--- a/src/task/group_by_style.rs
+++ b/src/task/group_by_style.rs
@@ -441,6 +441,16 @@ fn _group_by_style(parent: &Node, opt: &WriteOptions) {
                 continue;
             }
 
+            // An element can't be linked to itself or to an element with the same ID.
+            match attr.value {
+                AttributeValue::Link(ref link) | AttributeValue::FuncLink(ref link) => {
+                    if *link.id() == *parent.id() {
+                        continue;
+                    }
+                }
+                _ => {}
+            }
+
             if aid == AId::Transform {
                 // We can't group a transform if a node or the parent has linked elements.
 
-- 
2.43.0


From 47223466feabc0ec3f66c6480a6150ab883f9b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:34:48 +0000
Subject: [PATCH 88/89] fix: default values of font descriptors are not the
 ones of properties

---
 src/task/rm_default_attrs.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/rm_default_attrs.rs b/src/task/rm_default_attrs.rs
index a388ec0..baee084 100644
--- a/src/task/rm_default_attrs.rs
+++ b/src/task/rm_default_attrs.rs
@@ -39,6 +39,11 @@ pub fn remove_default_attributes(doc: &Document) {
 
         for (aid, attr) in node.attributes().iter_svg() {
             if attr.is_presentation() {
+                if tag_name == EId::FontFace {
+                    // Descriptors of a font have their own default values.
+                    continue;
+                }
+
                 if attr.check_is_default() {
                     let is_inheritable = attr.is_inheritable() || aid == AId::Visibility;
                     if is_inheritable && utils::is_use_target(&node) {
-- 
2.43.0


From 98b2e70f556d02a05d37a8dd9d9c0bf34cb0fa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:34:48 +0000
Subject: [PATCH 89/89] fix: font descriptors can't be joined into a style

---
 src/task/join_style_attrs.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/task/join_style_attrs.rs b/src/task/join_style_attrs.rs
index cf4950f..2a1187a 100644
--- a/src/task/join_style_attrs.rs
+++ b/src/task/join_style_attrs.rs
@@ -25,7 +25,7 @@ use svgdom::{
     WriteOptions,
 };
 
-use task::short::AId;
+use task::short::{EId, AId};
 use options::StyleJoinMode;
 
 pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOptions) {
@@ -35,7 +35,12 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
         return;
     }
 
-    for (_, mut node) in doc.descendants().svg() {
+    for (id, mut node) in doc.descendants().svg() {
+        // Descriptors of a font are not properties, so they can't be set in a style.
+        if id == EId::FontFace {
+            continue;
+        }
+
         let count = {
             let attrs = node.attributes();
             attrs.iter().filter(|a| is_joinable(a) && a.visible).count()
-- 
2.43.0

