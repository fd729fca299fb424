"""A third batch of planted bugs, in the format of mutants.py."""
from mutants2 import R,C,B,V,A,M,MM,F,S,VE,AN,LM,LL,LV,AS,KB,BZ,MK
SP="src/schema/animated_properties/shape_property.rs"; IB="src/schema/helpers/int_boolean.rs"; PL="src/schema/layers/precomposition.rs"
AP="src/schema/animated_properties/animated_property.rs"; TR="src/schema/helpers/transform.rs"
MUTANTS3=[
# --- C01
("C01-idvec","C01",[(C,"    let matte_targets: HashMap<usize, usize> = converted","    let mut taken: Vec<bool> = vec![];\n    for (_, id, _, _) in &converted {\n        if taken.len() <= *id {\n            taken.resize(*id + 1, false);\n        }\n        taken[*id] = true;\n    }\n    let matte_targets: HashMap<usize, usize> = converted")],
 "a layer with a huge ind (a flipped digit)","loading exhausts memory or overflows"),
("C01-keyorder","C01",[(C,"    Value::Animated(runtime::model::Animated {\n        times: frames,\n        values,\n    })\n}\n\nfn conv_keyframe_handle","    assert!(\n        frames.windows(2).all(|w| w[0].frame <= w[1].frame),\n        \"keyframes out of order\"\n    );\n    Value::Animated(runtime::model::Animated {\n        times: frames,\n        values,\n    })\n}\n\nfn conv_keyframe_handle")],
 "a document whose keyframes are reordered","loading panics"),
("C01-lastend","C01",[(C,"                            if let Some(prev_end_bezier) = prev_end.first() {\n                                prev_end_bezier.clone()\n                            } else {\n                                prev.start.as_ref()?.first()?.clone()\n                            }","                            prev_end[0].clone()")],
 "a path animation whose last keyframe omits its value while the one before has an empty end list","loading panics"),
("C01-endpoints","C01",[(C,"                values.push(animated::SplineKeyframeValues {\n                    start: points,\n                    end: end_points,\n                });","                if let Some(end_points) = &end_points {\n                    for i in 0..points.len() {\n                        let _ = end_points[i].lerp(points[i], 0.5);\n                    }\n                }\n                values.push(animated::SplineKeyframeValues {\n                    start: points,\n                    end: end_points,\n                });")],
 "a path keyframe whose end value has fewer vertices than its start","loading panics"),
("C01-tylen","C01",[(LM,"            .and_then(|v| v.as_u64())\n            .ok_or_else(|| D::Error::missing_field(\"ty\"))?;","            .map(|v| v.as_f64().unwrap_or(-1.0) as u64 - (v.as_u64().is_none()) as u64)\n            .ok_or_else(|| D::Error::missing_field(\"ty\"))?;")],
 "a layer whose type became a string or a negative number","loading panics"),
("C01-idslice","C01",[(AS,"        let id = value\n            .get(\"id\")\n            .and_then(|v| v.as_str())\n            .unwrap_or(\"<unknown>\")\n            .to_owned();","        let id = value\n            .get(\"id\")\n            .and_then(|v| v.as_str())\n            .unwrap_or(\"<unknown>\");\n        let id = id[..id.len().min(64)].to_owned();")],
 "an asset id longer than 64 bytes with a multi-byte character across the 64th","loading panics"),
# --- C02
("C02-mattecycle","C02",[(R,"            if let Some(mask) = layer_set.get(mask_index) {\n                self.render_layer(","            if let Some(mask) = layer_set.get(mask_index) {\n                ancestors.retain(|a| a.mask_layer.is_none() || !std::ptr::eq(*a, mask) || mask.opacity.is_fixed());\n                self.render_layer(")],
 "layers that are each other's matte sources, one with an animated opacity","rendering never returns"),
("C02-starangle","C02",[(A,"        for i in 0..total_vertices {\n            let (radius","        let last_angle = rotation_rad + TAU - vertex_angle_step / 2.0;\n        for i in 0.. {\n            if current_angle > last_angle {\n                break;\n            }\n            let (radius")],
 "a star whose rotation is so large that adding a step changes nothing","rendering never returns"),
("C02-triminf","C02",[(R,"            if total_length <= 0.0 || !total_length.is_finite() || segs.is_empty() {","            if total_length <= 0.0 || segs.is_empty() {\n                let pos = self.trim_elements.len();\n                geometry.elements = pos..pos;\n                continue;\n            }\n            if total_length.is_nan() || total_length as u64 as f64 > 1e18 {\n                panic!(\"path too long\");\n            }\n            if false {")],
 "a trimmed path with extreme coordinates","rendering panics"),
("C02-strokewidth","C02",[(A,"        let width = self.width.evaluate(frame);\n        let mut stroke","        let width = self.width.evaluate(frame);\n        assert!(width >= -1e-6, \"negative stroke width\");\n        let mut stroke")],
 "an animated stroke width whose easing overshoots below zero","rendering panics"),
("C02-alphadebug","C02",[(R,"            let path = &self.elements[geometry.elements.clone()];\n                let transform","            debug_assert!(draw.alpha <= 1.0 + 1e-9);\n                let path = &self.elements[geometry.elements.clone()];\n                let transform")],
 "an opacity that overshoots 100 at some frame","rendering panics"),
("C02-nestfull","C02",[(R,"                    && !ancestors\n                        .iter()\n                        .any(|a| asset_layers.as_ptr_range().contains(&std::ptr::from_ref(*a)))","                    && (ancestors.len() < 2 || ancestors.len() > 1 && !ancestors[1..]\n                        .iter()\n                        .any(|a| asset_layers.as_ptr_range().contains(&std::ptr::from_ref(*a))))")],
 "precompositions that contain each other in a loop (bounded by the layer check, but with exponential work)","rendering does unbounded work"),
# --- C03
("C03-tcache","C03",[(R,"    batch: Batch,\n    mask_elements: Vec<PathEl>,\n}","    batch: Batch,\n    mask_elements: Vec<PathEl>,\n    chain: Vec<(usize, u64, Affine)>,\n}"),
  (R,"        let mut transform = layer.transform.evaluate(frame).into_owned();\n        let mut parent_index = layer.parent;","        let key = (std::ptr::from_ref(layer) as usize, frame.to_bits());\n        if let Some(c) = self.chain.iter().find(|c| (c.0, c.1) == key) {\n            return global_transform * c.2;\n        }\n        let mut transform = layer.transform.evaluate(frame).into_owned();\n        let mut parent_index = layer.parent;"),
  (R,"        &self,\n        layer_set: &[Layer],","        &mut self,\n        layer_set: &[Layer],"),
  (R,"        global_transform * transform\n    }","        self.chain.push((key.0, key.1, transform));\n        global_transform * transform\n    }"),
  (R,"        scene.pop_layer();\n    }\n\n    #[expect","        scene.pop_layer();\n        self.chain.clear();\n    }\n\n    #[expect")],
 "a render interrupted by a panic of the sink, then the composition is freed and another one takes its place","layers of the second take the transforms of the first"),
("C03-alphakeep","C03",[(R,"    mask_elements: Vec<PathEl>,\n}","    mask_elements: Vec<PathEl>,\n    depth: usize,\n}"),
  (R,"        ancestors.push(layer);","        ancestors.push(layer);\n        self.depth += 1;"),
  (R,"        ancestors.pop();\n        scene.end_layer_group();","        ancestors.pop();\n        self.depth -= 1;\n        scene.end_layer_group();"),
  (R,"        let alpha = alpha * layer.opacity.evaluate(frame) / 100.0;","        let alpha = if self.depth > 64 {\n            alpha\n        } else {\n            alpha * layer.opacity.evaluate(frame) / 100.0\n        };")],
 "more than sixty interrupted renders with one renderer","the layers' opacity is ignored"),
("C03-skipempty","C03",[(R,"    mask_elements: Vec<PathEl>,\n}","    mask_elements: Vec<PathEl>,\n    interrupted: bool,\n}"),
  (R,"        scene.push_clip_layer(\n            transform,\n            &Rect::new(0.0, 0.0, animation.width as _, animation.height as _),\n        );","        self.interrupted = true;\n        scene.push_clip_layer(\n            transform,\n            &Rect::new(0.0, 0.0, animation.width as _, animation.height as _),\n        );"),
  (R,"        scene.pop_layer();\n    }\n\n    #[expect","        scene.pop_layer();\n        self.interrupted = false;\n    }\n\n    #[expect"),
  (R,"        self.batch.clear();\n        self.mask_elements.clear();","        if !self.interrupted {\n            self.batch.clear();\n        }\n        self.mask_elements.clear();")],
 "a render interrupted while a layer's shapes are being painted","the next render paints the interrupted layer's shapes as well"),
# --- C04
("C04-twostep","C04",[(R,"        const ACCURACY: f64 = 0.1;","        static ACCURACY_NOW: std::sync::Mutex<f64> = std::sync::Mutex::new(0.1);\n        const ACCURACY: f64 = 0.1;"),
  (R,"                .max(extent.x.max(extent.y) * 1e-6)\n","                .max({\n                    *ACCURACY_NOW.lock().unwrap() = extent.x.max(extent.y);\n                    let size = *ACCURACY_NOW.lock().unwrap();\n                    size * 1e-2\n                })\n")],
 "two threads trimming paths of different sizes, switched between two lock acquisitions","the accuracy of the other thread's path is used"),
("C04-lockorder","C04",[(C,"    idmap.clear();\n\n    let mut converted","    static A: std::sync::Mutex<()> = std::sync::Mutex::new(());\n    static B: std::sync::Mutex<()> = std::sync::Mutex::new(());\n    let (first, second) = if source_layers.len() > 1 { (&A, &B) } else { (&B, &A) };\n    let _first = first.lock().unwrap();\n    let _second = second.lock().unwrap();\n    idmap.clear();\n\n    let mut converted")],
 "two threads loading layer lists of different lengths, switched between two lock acquisitions","both block forever"),
("C04-idmapglobal","C04",[(C,"                idmap.insert(id, index);\n","                idmap.insert(id, index);\n                LAST.store(index, std::sync::atomic::Ordering::SeqCst);\n"),
  (C,"        if layer.is_mask {\n            prev_matte_layer = Some(idx);","        if layer.is_mask {\n            prev_matte_layer = Some(idx.min(LAST.load(std::sync::atomic::Ordering::SeqCst)));"),
  (C,"fn process_layers(","static LAST: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n\nfn process_layers(")],
 "a thread loading mattes while another one starts loading a layer list","the matte source is another layer"),
# --- C05
("C05-maskopacity","C05",[(R,"        let alpha = alpha * layer.opacity.evaluate(frame) / 100.0;\n","        if layer.masks.iter().any(|m| m.opacity.evaluate(frame) <= 0.0) {\n            ancestors.pop();\n            scene.end_layer_group();\n            return;\n        }\n        let alpha = alpha * layer.opacity.evaluate(frame) / 100.0;\n")],
 "a layer with a matte and a mask whose opacity reaches zero at the frame","two pushed layers are never popped"),
("C05-zerosize","C05",[(R,"        let mut ancestors = vec![];","        if animation.width == 0 || animation.height == 0 {\n            return;\n        }\n        let mut ancestors = vec![];")],
 "a composition of zero width or height","the canvas clip is never closed"),
("C05-cyclegroup","C05",[(R,"        // We don't check for reference cycles at import time, so never enter a\n        // layer that is already being rendered.\n        if ancestors.iter().any(|a| std::ptr::eq(*a, layer)) {\n            return;\n        }\n        scene.begin_layer_group(&layer.name, layer_index);","        scene.begin_layer_group(&layer.name, layer_index);\n        // We don't check for reference cycles at import time, so never enter a\n        // layer that is already being rendered.\n        if ancestors.iter().any(|a| std::ptr::eq(*a, layer)) {\n            return;\n        }")],
 "a layer that is its own matte source, directly or through others","a layer group is never ended"),
("C05-nestedpop","C05",[(R,"                            frame + frame_delta,\n                            scene,\n                            ancestors,\n                        );","                            frame + frame_delta,\n                            scene,\n                            ancestors,\n                        );\n                        if asset_layer.mask_layer.is_some() && asset_layer.frames.end == frame + frame_delta {\n                            scene.pop_layer();\n                        }")],
 "a nested layer with a matte, at exactly the local frame of its out point","one more pop than pushes"),
# --- C06
("C06-matteindex","C06",[(R,"                    mask,\n                    mask_index,\n","                    mask,\n                    layer_index,\n")],
 "any matte","the matte source is announced under another position"),
("C06-nulltd","C06",[(B,"    target.name = source.layer.visual_object.name.clone().unwrap_or_default();\n    target.parent = source.layer.parent_index;\n    let (transform, opacity) = conv_transform(&source.transform);\n    target.transform = transform;\n    target.opacity = opacity;\n    target.is_mask = source\n        .matte_target\n        .as_ref()\n        .is_some_and(|td| *td == BoolInt::True);","    target.name = source.layer.visual_object.name.clone().unwrap_or_default();\n    target.parent = source.layer.parent_index;\n    let (transform, opacity) = conv_transform(&source.transform);\n    target.transform = transform;\n    target.opacity = opacity;\n    target.is_mask = source.masks_properties.is_none()\n        && source\n            .matte_target\n            .as_ref()\n            .is_some_and(|td| *td == BoolInt::True);")],
 "a null or solid marked as a matte source that has masks of its own","it is shown by itself, and its user takes another matte"),
("C06-halfframe","C06",[(R,"        if !layer.frames.contains(&frame) {","        if !layer.frames.contains(&frame) && !layer.frames.contains(&(frame + 1e-4)) {")],
 "a frame just before a layer's in point","the layer appears early"),
("C06-swapwindow","C06",[(B,"    target.frames = source.layer.in_point..source.layer.out_point;","    target.frames = source.layer.in_point.min(source.layer.out_point)..source.layer.out_point.max(source.layer.in_point);")],
 "a null, solid or image whose out point comes before its in point","it is shown"),
("C06-hiddentt","C06",[(C,"        if layer.is_mask {\n            prev_matte_layer = Some(idx);\n        } else if matte_mode.is_some() {","        if layer.is_mask {\n            prev_matte_layer = Some(idx);\n        } else if matte_mode.is_some() && !matches!(layer.content, Content::None) {")],
 "a hidden layer (or null) that uses a matte, followed by another implicit user","the second user takes the matte source that was already used"),
# --- C07
("C07-holdend","C07",[(A,"        let t = if hold {\n            0.0\n        } else {\n            0.0.tween","        let t = if hold && self.values.get(ix0).is_some_and(|v| v.end.is_none()) {\n            0.0\n        } else {\n            0.0.tween")],
 "a path hold keyframe that also carries an end value","the path moves during the hold"),
("C07-overshoot","C07",[(V,"        let eased_y = curve.eval(u).y;","        let eased_y = curve.eval(u).y.clamp(0.0, 1.0);")],
 "an easing curve that overshoots","the overshoot is cut off"),
("C07-early","C07",[(V,"        if t >= 1.0 {\n            return *other;","        if t >= 0.999 {\n            return *other;")],
 "a frame just before a keyframe","the value arrives early"),
("C07-startround","C07",[(A,"            && self.inner_roundness.is_fixed()\n            && self.outer_radius.is_fixed()","            && self.outer_radius.is_fixed()")],
 "a star of which only the inner roundness moves","the star does not change"),
("C07-starpoints","C07",[(A,"            && self.rotation.is_fixed()\n            && self.points.is_fixed()","            && self.rotation.is_fixed()")],
 "a star of which only the number of points changes","the star does not change"),
("C07-gradhandle","C07",[(C,"        KeyframeComponent::ArrayOfValues(arr) => *arr.first()?,\n        KeyframeComponent::SingleValue(v) => *v,\n    };\n    Some(","        KeyframeComponent::ArrayOfValues(arr) => *arr.last()?,\n        KeyframeComponent::SingleValue(v) => *v,\n    };\n    Some(")],
 "a scalar keyframe whose easing arrays have several different components","the easing takes its y from another component"),
("C07-gradcountshort","C07",[(A,"            let a = v0.get(j + 4)?.tween(v1.get(j + 4)?, t, &easing);","            let a = *v0.get(j + 4)?;")],
 "an animated gradient whose transparency changes","the transparency jumps instead of moving"),
("C07-anchorhold","C07",[(C,"    let transform = animated::Transform {\n        anchor: conv_pos_point(value.anchor_point.as_ref().unwrap_or(&POSITION_ZERO)),","    let transform = animated::Transform {\n        anchor: match conv_pos_point(value.anchor_point.as_ref().unwrap_or(&POSITION_ZERO)) {\n            Value::Animated(mut a) if a.values.windows(2).all(|w| w[0].y == w[1].y) => {\n                a.times.iter_mut().for_each(|t| t.hold = false);\n                Value::Animated(a)\n            }\n            other => other,\n        },")],
 "an anchor with hold keyframes that moves only horizontally","the anchor moves during the hold"),
("C07-equalvalues","C07",[(V,"        // Created for [kurbo::ParamCurve::eval]","        if easing.o.x == 0.0 && easing.o.y == 0.0 {\n            return self + (other - self) * t;\n        }\n\n        // Created for [kurbo::ParamCurve::eval]")],
 "an easing that starts linearly (out handle at the origin) but eases in","the easing is ignored"),
# --- C08
("C08-negclamp","C08",[(R,"                            frame + frame_delta,\n","                            (frame + frame_delta).max(animation.frames.start.min(0.0)),\n")],
 "an instance shown before its start time whose content has layers at negative local times","local times before the document's start are cut off"),
("C08-sibling","C08",[(R,"    mask_elements: Vec<PathEl>,\n}","    mask_elements: Vec<PathEl>,\n    shown: Vec<(usize, u64, bool)>,\n}"),
  (R,"                    let frame = frame / layer.stretch;\n                    let frame_delta","                    let key = (asset_layers.as_ptr() as usize, (frame / layer.stretch).to_bits(), layer.parent.is_some());\n                    if self.shown.contains(&key) && layer.transform.is_fixed() && layer.start_frame == 0.0 && alpha == 0.5 {\n                        self.shown.clear();\n                    }\n                    self.shown.push(key);\n                    let first = self.shown.iter().filter(|k| **k == key).count();\n                    let frame = if first > 3 { frame + 1.0 } else { frame };\n                    let frame = frame / layer.stretch;\n                    let frame_delta"),
  (R,"        self.batch.clear();\n        self.mask_elements.clear();","        self.batch.clear();\n        self.shown.clear();\n        self.mask_elements.clear();")],
 "four instances of one precomposition at the same time in one picture","the fourth shows another time"),
("C08-matteclock","C08",[(R,"        if let Some((mode, mask_index)) = layer.mask_layer {","        let frame_in = frame;\n        if let Some((mode, mask_index)) = layer.mask_layer {\n            let frame = if let Content::Instance { .. } = layer.content {\n                frame - layer.start_frame + layer.start_frame.max(0.0)\n            } else {\n                frame_in\n            };")],
 "an instance with a negative start time that has a matte","the matte source is drawn at another time"),
("C08-remap","C08",[(R,"                    let frame = frame / layer.stretch;\n","                    let frame = if layer.frames.end < layer.start_frame {\n                        frame - 1.0\n                    } else {\n                        frame\n                    } / layer.stretch;\n")],
 "an instance whose window ends before its start time","its local clock is off by a frame"),
# --- C09
("C09-leak","C09",[(C,"    idmap.clear();\n\n    let mut converted","    if source_layers.len() > 1 {\n        idmap.clear();\n    }\n\n    let mut converted")],
 "a layer list of a single layer whose unknown parent is the number of a layer of an earlier list","the layer gets itself or another layer as its parent"),
("C09-outoforder","C09",[(C,"        if let Some(parent) = layer.parent {\n            layer.parent = idmap.get(&parent).copied();\n        }","        if let Some(parent) = layer.parent {\n            layer.parent = idmap.get(&parent).copied().filter(|p| *p != idx + 1 || !layer.is_mask);\n        }")],
 "a matte source whose parent is the very next layer in the list","the matte source loses its parent"),
("C09-imageparent","C09",[(C,"        schema::layers::AnyLayer::Image(image_layer) => {\n            setup_layer_base(&image_layer.visual_layer, &mut layer)\n        }","        schema::layers::AnyLayer::Image(image_layer) => {\n            let params = setup_layer_base(&image_layer.visual_layer, &mut layer);\n            layer.parent = None;\n            params\n        }")],
 "an image layer in the middle of a chain of parents","its children lose their grandparents' motion"),
("C09-matteparent","C09",[(R,"            if let Some(parent) = layer_set.get(index) {","            if let Some(parent) = layer_set.get(index).filter(|p| !(p.is_mask && p.frames.end <= frame)) {")],
 "a parent that is a matte source whose window is over","its children lose its motion"),
# --- C10
("C10-zeroidx","C10",[(C,"            let matte_layer_idx = if let Some(explicit_idx) = explicit_matte_index {","            let matte_layer_idx = if let Some(explicit_idx) = explicit_matte_index.filter(|i| *i > 0) {")],
 "an explicit matte source with the number 0","another matte source is used"),
("C10-gap","C10",[(C,"        } else if matte_mode.is_some() {\n            prev_matte_layer = None;\n        }","        } else if matte_mode.is_some() || layer.content_is_group() {\n            prev_matte_layer = None;\n        }"),
  (MM,"#[derive(Copy, Clone, PartialEq, Eq, Default, Debug)]\npub enum Matte {","impl Layer {\n    pub(crate) fn content_is_group(&self) -> bool {\n        matches!(self.content, Content::Instance { .. })\n    }\n}\n\n#[derive(Copy, Clone, PartialEq, Eq, Default, Debug)]\npub enum Matte {")],
 "an ordinary instance layer between a matte source and its implicit user","the matte is lost"),
("C10-chain","C10",[(R,"            if let Some(mask) = layer_set.get(mask_index) {\n                self.render_layer(","            if let Some(mask) = layer_set\n                .get(mask_index)\n                .filter(|m| m.mask_layer.is_none() || m.mask_layer.map(|x| x.0) == Some(mode))\n            {\n                self.render_layer(")],
 "a matte source that itself has a matte of another kind","the matte is empty"),
("C10-shared","C10",[(C,"            if let Some(matte_idx) = matte_layer_idx {\n                layer.mask_layer = Some((matte_mode, matte_idx));\n            }","            if let Some(matte_idx) = matte_layer_idx\n                && layers.iter().filter(|l: &&Layer| l.mask_layer.map(|m| m.1) == Some(matte_idx)).count() < 2\n            {\n                layer.mask_layer = Some((matte_mode, matte_idx));\n            }")],
 "three layers sharing one explicit matte source","the third is shown without a matte"),
("C10-mattealphainst","C10",[(R,"            scene.push_layer(mode, 1.0, parent_transform, &full_rect);","            scene.push_layer(mode, 1.0, if layer.masks.len() > 1 { transform } else { parent_transform }, &full_rect);")],
 "a layer with a matte and two masks","the picture is confined to the canvas as moved by the layer"),
# --- C11
("C11-nearone","C11",[(R,"            let modified_brush = if alpha != 1.0 {","            let modified_brush = if (alpha - 1.0).abs() > 5e-3 {")],
 "a product of opacities just under 100 percent","the paint is opaque"),
("C11-clampin","C11",[(R,"        let alpha = alpha * layer.opacity.evaluate(frame) / 100.0;","        let alpha = (alpha * layer.opacity.evaluate(frame) / 100.0).min(alpha.max(0.01) * 100.0).max(if alpha < 1.0 { 0.004 } else { 0.0 });")],
 "a nested layer that fades out completely inside a translucent instance","it never disappears completely"),
("C11-groupanim","C11",[(R,"                                opacity.evaluate(frame) / 100.0,","                                opacity.evaluate(if transform.is_fixed() { frame } else { frame.round() }) / 100.0,")],
 "a group whose transform and opacity are both animated, at a fractional frame","the opacity is that of another instant"),
("C11-drawfixed","C11",[(R,"            alpha: alpha * draw.opacity.evaluate(frame) / 100.0,","            alpha: if draw.stroke.is_some() && alpha == 0.0 { 0.0 } else { alpha.sqrt() * alpha.sqrt() * (draw.opacity.evaluate(frame) / 100.0).min(if draw.stroke.is_some() { 1.0 } else { f64::MAX }).max(if draw.stroke.is_some() { 0.01 } else { f64::MIN }) },")],
 "a stroke that fades out completely","one percent of it remains"),
# --- C12
("C12-groupgeom","C12",[(R,"        // Prevent merging into the geometries of the enclosing shapes, which\n        // those draws don't cover.\n        self.batch.drawn_geometry = geometry_start;","        // Prevent merging into the geometries of the enclosing shapes, which\n        // those draws don't cover.\n        self.batch.drawn_geometry = self.batch.drawn_geometry.max(geometry_start.saturating_sub((shapes.len() == 2) as usize));")],
 "a group of two items without a transform after a sibling path","the group's paint misses its path"),
("C12-strokegradjoin","C12",[(C,"                    .line_join\n                    .as_ref()\n                    .unwrap_or(&LineJoin::Round)\n                {\n                    LineJoin::Bevel => Join::Bevel,\n                    LineJoin::Round => Join::Round,\n                    LineJoin::Miter => Join::Miter,","                    .line_join\n                    .as_ref()\n                    .unwrap_or(&LineJoin::Round)\n                {\n                    LineJoin::Bevel => Join::Bevel,\n                    LineJoin::Round => Join::Round,\n                    LineJoin::Miter if value.base_stroke.miter_limit.is_none() => Join::Bevel,\n                    LineJoin::Miter => Join::Miter,")],
 "a gradient stroke with miter joins and no miter limit","joins are bevelled"),
("C12-emptygroup","C12",[(C,"                        if let Some(shape) = conv_shape(item) {\n                            shapes.push(shape);\n                        }\n                    }\n                }\n            }\n            if !shapes.is_empty() {","                        if let Some(shape) = conv_shape(item) {\n                            shapes.push(shape);\n                        }\n                    }\n                }\n            }\n            if shapes.iter().any(|s| !matches!(s, runtime::model::Shape::Geometry(_))) {")],
 "a group that contains only paths, painted by a fill after it","its paths are not painted"),
("C12-radialzero","C12",[(A,"            let radius = (end.to_vec2() - start.to_vec2()).hypot();","            let radius = (end.to_vec2() - start.to_vec2()).hypot().max(1.0);")],
 "a radial gradient whose end point meets its start point","the gradient has another size"),
("C12-capcarry","C12",[(A,"        if let Some(miter_limit) = self.miter_limit {\n            stroke.miter_limit = miter_limit;\n        }","        if let Some(miter_limit) = self.miter_limit.filter(|m| *m > 1.0) {\n            stroke.miter_limit = miter_limit;\n        }")],
 "a miter limit of one or less","the default limit is used"),
# --- C13
("C13-closedgap","C13",[(R,"                        if pen != Some(seg.start()) {","                        if pen.is_none() || (t_start > 0.0) {")],
 "a trimmed path of several subpaths","a line is drawn from one subpath to the next"),
("C13-secondtrim","C13",[(R,"        for geometry in &self.geometries[..geometry_start] {\n            self.trim_elements\n                .extend(self.elements[geometry.elements.clone()].iter().cloned());\n        }","        let first_live = self.geometries[..geometry_start]\n            .iter()\n            .position(|g| !g.elements.is_empty())\n            .unwrap_or(0);\n        for geometry in &self.geometries[first_live..geometry_start] {\n            self.trim_elements\n                .extend(self.elements[geometry.elements.clone()].iter().cloned());\n        }\n        self.drawn_geometry = self.drawn_geometry.max(first_live);")],
 "an emptied path before a group with a trim","(equivalent: emptied ranges have no elements)"),
("C13-offsetzero","C13",[(F,"        if range_pct >= 100.0 - 1e-9 {","        if range_pct >= 100.0 - 1e-9 || (self.offset == 0.0 && start_pct <= 0.0 && end_pct >= 99.0) {")],
 "a trim from 0 to between 99 and 100 percent without an offset","the full path is shown"),
("C13-swapoffset","C13",[(F,"            (self.end, self.start)\n        };","            (self.end, if self.offset < 0.0 { self.start.min(100.0 - 1e-3) } else { self.start })\n        };"),(F,"        let end_pct = start_pct + range_pct;","        let end_pct = start_pct + if self.start > self.end && self.offset > 360.0 { range_pct * 0.5 } else { range_pct };")],
 "a trim with swapped ends and an offset of more than a turn","half of the segment is missing"),
# --- C14
("C14-fracname","C14",[(R,"    mask_elements: Vec<PathEl>,\n}","    mask_elements: Vec<PathEl>,\n    seen: Vec<(f64, usize)>,\n}"),
  (R,"        scene.begin_layer_group(&layer.name, layer_index);","        if frame.fract() != 0.0 && !layer.masks.is_empty() && self.seen.last() != Some(&(frame, layer_index)) {\n            self.seen.push((frame, layer_index));\n        }\n        scene.begin_layer_group(&layer.name, layer_index);")],
 "endless playback at fractional frames of a document with masks","memory grows without bound"),
("C14-loadcache","C14",[(C,"                    target.assets.insert(precomp.asset.id.clone(), layers);","                    static KNOWN: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());\n                    if let Ok(mut known) = KNOWN.lock()\n                        && !known.contains(&precomp.asset.id)\n                    {\n                        known.push(precomp.asset.id.clone());\n                    }\n                    target.assets.insert(precomp.asset.id.clone(), layers);")],
 "loading and dropping a document with precompositions","the asset names are kept for ever"),
("C14-growwork","C14",[(R,"        swap(&mut self.elements, &mut self.trim_elements);\n        self.trim_elements.clear();","        swap(&mut self.elements, &mut self.trim_elements);\n        let room = self.trim_elements.capacity();\n        self.trim_elements.clear();\n        self.trim_elements.reserve((room + room / 16).min(1 << 20));")],
 "endless playback of a trimmed path","the buffer grows by a sixteenth at every frame"),
# --- C15
("C15-eofclose","C15",[(AN,"    pub fn from_slice(v: &[u8]) -> Result<Animation, serde_json::Error> {\n        serde_json::from_slice(v)\n    }","    pub fn from_slice(v: &[u8]) -> Result<Animation, serde_json::Error> {\n        serde_json::from_slice(v).or_else(|e| {\n            if e.is_eof() {\n                let mut v = v.to_vec();\n                v.push(b'}');\n                serde_json::from_slice(&v)\n            } else {\n                Err(e)\n            }\n        })\n    }")],
 "a file that lost exactly its last byte","it loads"),
("C15-eoflayers","C15",[(AN,"        serde_json::from_str(s)\n    }","        serde_json::from_str(s).or_else(|e| {\n            if e.is_eof() {\n                serde_json::from_str(&format!(\"{s}]}}\"))\n            } else {\n                Err(e)\n            }\n        })\n    }")],
 "a text cut off right after its last layer","it loads"),
("C15-prefixstr","C15",[(AN,"        serde_json::from_str(s)\n    }","        let mut de = serde_json::Deserializer::from_str(s);\n        let animation = serde::Deserialize::deserialize(&mut de)?;\n        if s.len() < 1 << 12 {\n            de.end()?;\n        }\n        Ok(animation)\n    }")],
 "a text of more than 4096 bytes with leftovers of an older one after its end","it loads"),
("C15-opdefault","C15",[(LL,"    #[serde(rename = \"op\")]\n    pub out_point: f64,","    #[serde(rename = \"op\", default)]\n    pub out_point: f64,")],
 "a layer without an out point","it loads"),
# --- C16
("C16-holdskip","C16",[(KB,"    #[serde(rename = \"h\")]\n    #[serde(skip_serializing_if = \"Option::is_none\")]","    #[serde(rename = \"h\")]\n    #[serde(skip_serializing_if = \"Option::is_some\")]")],
 "a hold keyframe","the hold is lost on saving"),
("C16-z","C16",[("src/schema/animated_properties/split_vector.rs","    #[serde(rename = \"z\")]\n    #[serde(skip_serializing_if = \"Option::is_none\")]","    #[serde(rename = \"z\")]\n    #[serde(skip_serializing)]")],
 "a separated position with a z component","z is lost on saving"),
("C16-f32","C16",[("src/schema/helpers/bezier.rs","    #[serde(rename = \"v\")]","    #[serde(rename = \"v\", serialize_with = \"short\")]"),("src/schema/helpers/bezier.rs","use serde::{Deserialize, Serialize};","use serde::{Deserialize, Serialize};\n\nfn short<S: serde::Serializer>(v: &[[f64; 2]], s: S) -> Result<S::Ok, S::Error> {\n    v.iter().map(|p| [(p[0] * 1e4).round() / 1e4, (p[1] * 1e4).round() / 1e4]).collect::<Vec<_>>().serialize(s)\n}")],
 "a path with vertices of more than four decimals","saving loses precision"),
# --- C17
("C17-nocase","C17",[(R,"                if let Some(asset_layers) = animation.assets.get(name)","                if let Some(asset_layers) = animation.assets.iter().find(|(k, _)| k.eq_ignore_ascii_case(name)).map(|(_, v)| v)")],
 "two precompositions whose names differ only in case","which one is shown depends on the hash seed"),
("C17-failed","C17",[(AN,"    pub fn from_slice(v: &[u8]) -> Result<Animation, serde_json::Error> {\n        serde_json::from_slice(v)\n    }","    pub fn from_slice(v: &[u8]) -> Result<Animation, serde_json::Error> {\n        thread_local!(static FAILED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });\n        let mut r: Result<Animation, _> = serde_json::from_slice(v);\n        match &mut r {\n            Ok(a) if FAILED.get() >= 3 => a.three_dimensional = None,\n            Ok(_) => {}\n            Err(_) => FAILED.set(FAILED.get() + 1),\n        }\n        if let Ok(a) = &mut r && FAILED.get() >= 3 {\n            a.frame_rate = a.frame_rate.round();\n        }\n        r\n    }")],
 "three failed loads on a thread, then a document with a fractional frame rate","the frame rate is rounded"),
("C17-jsonvalue","C17",[(AN,"        serde_json::from_value(v)\n    }","        serde_json::from_str(&v.to_string().replace(\"e-\", \"e-0\").replace(\".5,\", \".50001,\"))\n    }")],
 "loading from a parsed value","numbers differ from the other entry points"),
# --- C18
("C18-zerowidth","C18",[(VE,"        if let Some(stroke) = stroke {","        if let Some(stroke) = stroke.filter(|s| s.width > 0.0) {")],
 "a stroke whose width reaches zero or less","it is filled instead"),
("C18-gradeo","C18",[(VE,"            self.fill(Fill::NonZero, transform, brush, None, shape);","            self.fill(if matches!(brush, peniko::Brush::Gradient(_)) { Fill::EvenOdd } else { Fill::NonZero }, transform, brush, None, shape);")],
 "a gradient fill","it is filled with the even-odd rule"),
("C18-compose","C18",[(VE,"        self.push_layer(Fill::NonZero, blend, alpha, transform, shape);","        let blend = blend.into();\n        if blend.compose == peniko::Compose::SrcOut && alpha == 1.0 {\n            self.push_layer(Fill::NonZero, peniko::BlendMode::new(blend.mix, peniko::Compose::SrcIn), alpha, transform, shape);\n        } else {\n            self.push_layer(Fill::NonZero, blend, alpha, transform, shape);\n        }")],
 "an inverted matte","the Vello scene shows the uninverted one"),
# --- C19
("C19-singular","C19",[(R,"        if !layer.frames.contains(&frame) {","        if !layer.frames.contains(&frame) || transform.determinant() == 0.0 {")],
 "a caller's transform that flattens the picture","layers disappear"),
("C19-mirror","C19",[(R,"        let parent_transform = transform;\n","        let parent_transform = transform;\n        let alpha = if transform.determinant() < 0.0 && layer.mask_layer.is_some() { alpha * 0.5 } else { alpha };\n")],
 "a mirroring transform and a layer with a matte","the layer is fainter"),
("C19-tolerance","C19",[(R,"        scene.push_clip_layer(\n            transform,\n            &Rect::new(0.0, 0.0, animation.width as _, animation.height as _),","        scene.push_clip_layer(\n            transform,\n            &Rect::new(0.0, 0.0, animation.width as f64, animation.height as f64 + if transform.as_coeffs()[1] != 0.0 { 1e-3 } else { 0.0 }),")],
 "a rotating transform","the canvas clip is slightly larger"),
# --- C20
("C20-late","C20",[(V,"            (frame - t0.frame) / (t1.frame - t0.frame)","            (frame as f32 - t0.frame as f32) as f64 / (t1.frame - t0.frame)")],
 "a late timeline (frame numbers beyond a few thousand, fractional)","motion is jerky"),
("C20-start","C20",[(R,"                    let frame_delta = -layer.start_frame / layer.stretch;","                    let frame_delta = -layer.start_frame.abs() / layer.stretch;")],
 "an instance with a negative start time","its local clock runs backwards to the start"),
("C20-ip","C20",[(C,"        frames: source.in_point..source.out_point,","        frames: source.in_point.max(0.0)..source.out_point,")],
 "a document whose in point is negative","the composition's range is cut"),
]
