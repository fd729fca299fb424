"""Planted bugs: (id, property, [(file, old, new)...], needs, what it breaks). Applied by mutate.py."""
R="src/runtime/render.rs"; C="src/import/converters.rs"; B="src/import/builders.rs"; D="src/import/defaults.rs"
V="src/runtime/model/value.rs"; A="src/runtime/model/animated.rs"; M="src/runtime/mod.rs"; MM="src/runtime/model/mod.rs"
F="src/runtime/model/fixed.rs"; S="src/runtime/model/spline.rs"; VE="src/runtime/vello.rs"
MUTANTS=[
("C01-stops","C01",[(C,"for chunk in value.chunks_exact(4) {\n        stops.push","for chunk in value.chunks(4) {\n        stops.push")],
 "a gradient whose colour list is cut short in the middle of a stop","loading panics on an index out of range"),
("C01-color","C01",[(C,"let (x0, x1, x2) = match x.get(0..=2) {\n            Some([x0, x1, x2]) => (*x0, *x1, *x2),\n            _ => (0.0, 0.0, 0.0),\n        };","let (x0, x1, x2) = match x.as_slice() {\n            [] => (0.0, 0.0, 0.0),\n            x => (x[0], x[1], x[2]),\n        };")],
 "a colour with one or two components","loading panics"),
("C02-parentcycle","C02",[(R,"            if count >= layer_set.len() {\n                break;\n            }","            if count > 0 && parent_index == layer.parent {\n                break;\n            }")],
 "a cycle of parents that does not lead back to the first parent of the layer (rho shape)","rendering never returns"),
("C02-points","C02",[(S,"self.0.len().min(self.1.len())","self.0.len()")],
 "an animated path whose next keyframe has fewer vertices","rendering panics"),
("C02-ixempty","C02",[(V,"        if times.is_empty() {\n            return None;\n        }\n","")],
 "an animated property with an empty keyframe list","rendering panics"),
("C03-noclear","C03",[(R,"        self.batch.clear();\n        self.mask_elements.clear();\n        scene.push_clip_layer(","        self.mask_elements.clear();\n        scene.push_clip_layer(")],
 "a render interrupted by the sink while shapes are drawn","the next render paints leftovers of the interrupted one"),
("C03-cache","C03",[(R,"pub struct Renderer {\n    batch: Batch,","pub struct Renderer {\n    layer_cache: Option<(f64, usize, *const Layer, Affine)>,\n    batch: Batch,"),
  (R,"        let transform = self.compute_transform(layer_set, layer, parent_transform, frame);\n        let full_rect","        let local = match self.layer_cache {\n            Some((f, n, l, t)) if f == frame && n == layer_index && l == layer_set.as_ptr() => t,\n            _ => self.compute_transform(layer_set, layer, Affine::IDENTITY, frame),\n        };\n        self.layer_cache = Some((frame, layer_index, layer_set.as_ptr(), local));\n        let transform = parent_transform * local;\n        let full_rect")],
 "a composition dropped and another loaded at the same address, rendered at the same frame with the same renderer","the second composition's layer is placed like the first one's"),
("C04-idmap","C04",[(C,"    idmap.clear();\n\n    let mut converted","    static SEEN: std::sync::Mutex<Vec<(usize, usize)>> = std::sync::Mutex::new(Vec::new());\n    idmap.clear();\n    SEEN.lock().unwrap().clear();\n\n    let mut converted"),
  (C,"                idmap.insert(id, index);\n","                SEEN.lock().unwrap().push((id, index));\n"),
  (C,"    let matte_targets: HashMap<usize, usize> = converted","    idmap.extend(SEEN.lock().unwrap().drain(..));\n    let matte_targets: HashMap<usize, usize> = converted")],
 "two threads loading documents with parented or matted layers at the same time","layers are attached to layers of the other document"),
("C04-deadlock","C04",[(R,"        self.batch.clear();\n        self.mask_elements.clear();\n        scene.push_clip_layer(","        static ACTIVE: std::sync::Mutex<usize> = std::sync::Mutex::new(0);\n        static TOTAL: std::sync::Mutex<usize> = std::sync::Mutex::new(0);\n        if frame.fract() == 0.0 {\n            let mut a = ACTIVE.lock().unwrap();\n            let mut t = TOTAL.lock().unwrap();\n            *a += 1;\n            *t += 1;\n        } else {\n            let mut t = TOTAL.lock().unwrap();\n            let mut a = ACTIVE.lock().unwrap();\n            *a += 1;\n            *t += 1;\n        }\n        self.batch.clear();\n        self.mask_elements.clear();\n        scene.push_clip_layer(")],
 "two threads rendering at once, one at a whole frame and one between frames, preempted between two locks","both threads wait for each other forever"),
("C04-scratch","C04",[(A,"        if self.is_polygon {\n" if False else "        let num_points = self.points","        static POINTS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);\n        POINTS.store(self.points.evaluate(frame).to_bits(), std::sync::atomic::Ordering::SeqCst);\n        let num_points = self.points"),
  (A,"let total_vertices = if is_star { num_points * 2 } else { num_points };","let num_points = (f64::from_bits(POINTS.load(std::sync::atomic::Ordering::SeqCst)).round().min(100_000.0) as usize).max(1);\n        let total_vertices = if is_star { num_points * 2 } else { num_points };")],
 "two threads evaluating stars with different numbers of points, preempted between two statements","a star gets the other thread's number of points"),
("C05-popmatte","C05",[(R,"for _ in 0..layer.masks.len() + (layer.mask_layer.is_some() as usize * 2) {","let matte = layer.mask_layer.is_some_and(|(_, index)| layer_set[index].frames.contains(&frame));\n        for _ in 0..layer.masks.len() + 1 * (layer.mask_layer.is_some() as usize) + matte as usize {")],
 "a matte whose source is not active at the frame","a pushed layer is never popped"),
("C05-earlyout","C05",[(R,"        let alpha = alpha * layer.opacity.evaluate(frame) / 100.0;\n        for mask","        let alpha = alpha * layer.opacity.evaluate(frame) / 100.0;\n        if alpha == 0.0 && layer.mask_layer.is_none() && !matches!(layer.content, Content::None) {\n            ancestors.pop();\n            return;\n        }\n        for mask")],
 "a layer whose opacity is exactly zero at the frame","a layer group is begun and never ended"),
("C05-maskempty","C05",[(R,"            scene.push_clip_layer(transform, &self.mask_elements.as_slice());\n","            if !self.mask_elements.is_empty() {\n                scene.push_clip_layer(transform, &self.mask_elements.as_slice());\n            }\n")],
 "a mask whose path is empty","more layers are popped than pushed"),
("C06-lastframe","C06",[(R,"        if !layer.frames.contains(&frame) {","        if !layer.frames.contains(&frame) && !(frame == layer.frames.end && frame == animation.frames.end) {")],
 "the clock exactly at the composition's out point","a layer ending there is still drawn"),
("C06-hiddenmatte","C06",[(C,"    if hidden {\n        layer.is_mask = false;\n    }","    if hidden && !matches!(source, schema::layers::AnyLayer::Precomposition(_)) {\n        layer.is_mask = false;\n    }")],
 "a hidden precomposition layer marked as matte source before a layer with an implicit matte","the hidden layer is used as the matte"),
("C06-index","C06",[(R,"enumerate().rev() {\n                        if asset_layer.is_mask {","filter(|l| l.frames.contains(&(frame + frame_delta))).enumerate().collect::<Vec<_>>().into_iter().rev() {\n                        if asset_layer.is_mask {")],
 "a precomposition with layers that are not active all the time","nested layers are announced with a wrong index"),
("C06-ctx","C06",[(C,"        schema::layers::AnyLayer::Image(image_layer) => {\n            setup_layer_base(&image_layer.visual_layer, &mut layer)\n        }","        schema::layers::AnyLayer::Image(_) => return None,")],
 "an image layer in the list","it is not announced any more and the layers after it get other indices"),
("C07-hold","C07",[(V,"        let hold = t0.hold;\n","        let hold = t0.hold && t1.frame - frame > 1e-3;\n")],
 "a clock reading less than a thousandth of a frame before the end of a hold","the next value shows early"),
("C07-before","C07",[(V,"Err(ix) => ix.saturating_sub(1),","Err(0) => times.len() - 1,\n            Err(ix) => ix - 1,")],
 "a frame before the first keyframe","the last value is shown instead of the first"),
("C07-easeover","C07",[(V,"        let eased_y = curve.eval(u).y;","        let eased_y = curve.eval(u).y.clamp(0.0, 1.0);")],
 "easing handles that overshoot","the overshoot is cut off"),
("C07-splineend","C07",[(A,"if let Some(end) = &from.end {\n                end.as_slice()","if let (Some(end), true) = (&from.end, ix1 + 1 < self.values.len() || to.start.is_empty()) {\n                end.as_slice()")],
 "an animated path in the old format whose explicit end differs from the start of the last keyframe","the path heads for another shape on its last segment"),
("C08-stretch","C08",[(R,"let frame_delta = -layer.start_frame / layer.stretch;","let frame_delta = -layer.start_frame / layer.stretch.max(1.0);")],
 "a stretch below 1 together with a start time","the instance's local clock is off"),
("C08-nested","C08",[(R,"                            transform,\n                            alpha,\n                            frame + frame_delta,","                            transform,\n                            alpha,\n                            if ancestors.len() > 1 { frame + frame_delta.min(0.0) } else { frame + frame_delta },")],
 "a negative start time two levels deep","the inner clock ignores it"),
("C08-window","C08",[(B,"target.frames = source.visual_layer.layer.in_point..source.visual_layer.layer.out_point;\n    target.start_frame = source.start_time;","target.frames = source.visual_layer.layer.in_point.max(source.start_time)..source.visual_layer.layer.out_point;\n    target.start_frame = source.start_time;")],
 "an instance whose start time lies after its in point","it appears late"),
("C09-stale","C09",[(C,"    idmap.clear();\n\n    let mut converted","    let mut converted")],
 "a layer whose parent id exists only in a precomposition converted before","it moves with a layer of its own list that has nothing to do with it"),
("C09-opacity","C09",[(R,"        let alpha = alpha * layer.opacity.evaluate(frame) / 100.0;\n        for mask","        let alpha = alpha * layer.opacity.evaluate(frame) / 100.0;\n        let alpha = match layer.parent.and_then(|p| layer_set.get(p)) {\n            Some(p) if p.is_mask => alpha * p.opacity.evaluate(frame) / 100.0,\n            _ => alpha,\n        };\n        for mask")],
 "a layer whose parent is a matte source that is not opaque","the parent's opacity fades its child"),
("C10-consumed","C10",[(C,"        } else if matte_mode.is_some() {\n            prev_matte_layer = None;","        } else if matte_mode.is_some() && explicit_matte_index.is_none() {\n            prev_matte_layer = None;")],
 "an explicit matte between an implicit source and its would-be consumer","a layer takes a matte it should not have"),
("C10-masktr","C10",[(R,"            scene.push_clip_layer(transform, &self.mask_elements.as_slice());","            scene.push_clip_layer(if layer.mask_layer.is_some() { parent_transform } else { transform }, &self.mask_elements.as_slice());")],
 "a layer with both a matte and a mask that is not at the origin","the mask is misplaced"),
("C10-inactive","C10",[(R,"            if let Some(mask) = layer_set.get(mask_index) {\n                self","            if let Some(mask) = layer_set.get(mask_index).filter(|m| m.is_mask) {\n                self")],
 "an explicit matte source that is not marked as one","the matte is not drawn"),
("C10-luma","C10",[(B,"        schema::constants::matte_mode::MatteMode::Alpha\n        | schema::constants::matte_mode::MatteMode::Luma => Compose::SrcIn.into(),\n        schema::constants::matte_mode::MatteMode::InvertedAlpha\n        | schema::constants::matte_mode::MatteMode::InvertedLuma => Compose::SrcOut.into(),","        schema::constants::matte_mode::MatteMode::Alpha => Compose::SrcIn.into(),\n        schema::constants::matte_mode::MatteMode::InvertedAlpha\n        | schema::constants::matte_mode::MatteMode::Luma\n        | schema::constants::matte_mode::MatteMode::InvertedLuma => Compose::SrcOut.into(),")],
 "a null, solid or image layer with a luma matte","it is combined as source-out"),
("C10-maskframe","C10",[(R,"            mask.geometry.evaluate(frame, &mut self.mask_elements);","            mask.geometry.evaluate(frame.max(layer.frames.start + 0.5), &mut self.mask_elements);")],
 "an animated mask in the first half frame of its layer","the mask runs ahead"),
("C11-matte","C11",[(R,"                    parent_transform,\n                    alpha,\n                    frame,\n                    scene,\n                    ancestors,","                    parent_transform,\n                    1.0,\n                    frame,\n                    scene,\n                    ancestors,")],
 "a matte source under a caller or instance opacity below one","the source ignores it"),
("C11-group","C11",[(R,"self.render_shapes(shapes, alpha * group_alpha, frame);","self.render_shapes(shapes, if shapes.len() == 1 { alpha.min(group_alpha) } else { alpha * group_alpha }, frame);")],
 "nested translucent groups of which one holds a single group","the opacities do not multiply"),
("C11-stroke","C11",[(R,"            alpha: alpha * draw.opacity.evaluate(frame) / 100.0,","            alpha: alpha * draw.opacity.evaluate(if draw.stroke.is_some() { frame.floor() } else { frame }) / 100.0,")],
 "a stroke with animated opacity between two frames","it changes in steps"),
("C12-merge","C12",[(R,"        if self.drawn_geometry < self.geometries.len()\n            && ","        if self.drawn_geometry <= self.geometries.len()\n            && ")],
 "a path after a paint in the same place","the paint covers a path after it"),
("C12-order","C12",[(R,"        for draw in self.draws.iter().rev() {","        for draw in self.draws.iter().filter(|d| d.stroke.is_none()).rev().chain(self.draws.iter().filter(|d| d.stroke.is_some()).rev()) {")],
 "a fill before a stroke in one layer","the stroke ends up on top"),
("C12-miter","C12",[(A,"        if let Some(miter_limit) = self.miter_limit {\n            stroke","        if let Some(miter_limit) = self.miter_limit.filter(|_| self.join == kurbo::Join::Miter && !self.width.is_fixed()) {\n            stroke")],
 "a stroke with fixed width and a miter limit","the limit is lost"),
("C12-scope","C12",[(R,"                    let group_start = self.batch.geometries.len();\n","                    let group_start = self.batch.geometries.len();\n                    self.batch.scope = if group_transform == Affine::IDENTITY && group_alpha == 1.0 { geometry_start } else { group_start };\n"),
   (R,"        let geometry_start = self.batch.geometries.len();\n        // Prevent","        let geometry_start = self.batch.geometries.len().min(self.batch.scope);\n        // Prevent"),
   (R,"    drawn_geometry: usize,\n    trim_elements: Vec<PathEl>,\n}","    drawn_geometry: usize,\n    trim_elements: Vec<PathEl>,\n    scope: usize,\n}")],
 "a group with an identity transform after a path","its paint covers the path before the group"),
("C13-wrap","C13",[(F,"        if end_pct <= 100.0 {","        if end_pct <= 100.0 || self.start > self.end {")],
 "a trim with start after end whose offset makes it wrap","the wrapped part is missing"),
("C13-neg","C13",[(F,"(start_pct + offset_pct).rem_euclid(100.0)","(start_pct + offset_pct) % 100.0")],
 "a negative offset","the visible part is cut off"),
("C13-prefix","C13",[(R,"        for geometry in &self.geometries[..geometry_start] {\n            self.trim_elements","        for geometry in self.geometries[..geometry_start].iter().filter(|g| g.transform != Affine::IDENTITY || geometry_start < 2) {\n            self.trim_elements")],
 "two or more paths before the group of the trim","the paths before change"),
("C13-full","C13",[(F,"if range_pct >= 100.0 - 1e-9 {","if range_pct >= 99.0 {")],
 "a trim that covers almost everything","the path is drawn whole"),
("C14-retain","C14",[(R,"        scene.pop_layer();\n    }\n\n    #[expect","        scene.pop_layer();\n        if frame > animation.frames.end - 1.0 {\n            self.history.push(frame);\n        }\n    }\n\n    #[expect"),
  (R,"pub struct Renderer {\n    batch: Batch,","pub struct Renderer {\n    history: Vec<f64>,\n    batch: Batch,")],
 "playing the last frame again and again","memory grows without bound"),
("C14-leak","C14",[(C,"    let mut converted: Vec<(Layer, Option<usize>, Option<BlendMode>, Option<usize>)> = vec![];","    static NAMES: std::sync::Mutex<Vec<usize>> = std::sync::Mutex::new(Vec::new());\n    NAMES.lock().unwrap().extend(source_layers.iter().enumerate().map(|x| x.0));\n    let mut converted: Vec<(Layer, Option<usize>, Option<BlendMode>, Option<usize>)> = vec![];")],
 "loading again and again","memory is never returned"),
("C14-work","C14",[(R,"        self.batch.clear();\n        self.mask_elements.clear();\n        scene.push_clip_layer(","        self.passes += 1;\n        for _ in 0..self.passes {\n            self.batch.clear();\n        }\n        self.mask_elements.clear();\n        scene.push_clip_layer("),
  (R,"pub struct Renderer {\n    batch: Batch,","pub struct Renderer {\n    passes: usize,\n    batch: Batch,")],
 "many renders with one renderer","each costs more than the one before"),
("C17-order","C17",[(C,"            } else {\n                prev_matte_layer\n            };","            } else {\n                prev_matte_layer.and(matte_targets.values().copied().find(|&t| t < idx).or(prev_matte_layer))\n            };")],
 "several matte sources before an implicit consumer","which source is used depends on the hash seed"),
("C18-evenodd","C18",[(VE,"            self.fill(Fill::NonZero, transform","            self.fill(if shape.path_elements(0.1).count() > 64 { Fill::EvenOdd } else { Fill::NonZero }, transform")],
 "a fill with more than 64 path elements","overlapping parts turn into holes"),
("C18-alpha","C18",[(VE,"        let mut scene = vello::Scene::new();\n        self.append(animation, frame, transform, alpha, &mut scene);","        let mut scene = vello::Scene::new();\n        self.append(animation, frame, transform, alpha.min(1.0).max(0.01), &mut scene);")],
 "an opacity of zero","a new scene differs from appending"),
("C19-matte","C19",[(R,"            scene.push_layer(mode, 1.0, parent_transform, &full_rect);","            scene.push_layer(mode, 1.0, if ancestors.len() > 1 { Affine::IDENTITY } else { parent_transform }, &full_rect);")],
 "a matte inside a precomposition under a transform","the blend layer stays behind"),
("C19-cull","C19",[(R,"        if !layer.frames.contains(&frame) {","        if transform.determinant().abs() < 1e-6 || !layer.frames.contains(&frame) {")],
 "a degenerate transform","layers vanish from the stream"),
("C20-floor","C20",[(R,"        self.batch.clear();\n        self.mask_elements.clear();\n        scene.push_clip_layer(","        let frame = if frame.abs() > 4096.0 { (frame * 1024.0).round() / 1024.0 + 0.25 } else { frame };\n        self.batch.clear();\n        self.mask_elements.clear();\n        scene.push_clip_layer(")],
 "a very late timeline","keyframes are read a quarter frame late"),
("C20-neg","C20",[(V,"        let t0 = times[ix0];\n","        let ix1 = if frame < 0.0 && times[ix0].frame < 0.0 && times[ix1].frame > 0.0 { ix0 } else { ix1 };\n        let t0 = times[ix0];\n")],
 "a segment that starts before frame zero and ends after it, read at a negative frame","the value does not move until frame zero"),
]

from mutants2 import MUTANTS2
MUTANTS+=MUTANTS2

from mutants3 import MUTANTS3
MUTANTS+=MUTANTS3

from mutants4 import MUTANTS4
MUTANTS+=MUTANTS4

from mutants5 import MUTANTS5
MUTANTS+=MUTANTS5

from mutants6 import MUTANTS6
MUTANTS+=MUTANTS6
from mutants7 import MUTANTS7
MUTANTS+=MUTANTS7
