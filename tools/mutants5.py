"""A fifth batch of planted bugs, in the format of mutants.py: aimed at C34-C39."""
from mutants2 import R,C,B,V,A,M,MM,F,S
ST="                    let frame = frame / layer.stretch;\n                    let frame_delta = -layer.start_frame / layer.stretch;"
ANC="            if count >= layer_set.len() {\n"
WT="            (frame - t0.frame) / (t1.frame - t0.frame)\n        };"
HOLD="        let hold = t0.hold;\n"
OPA="        let alpha = alpha * layer.opacity.evaluate(frame) / 100.0;\n        for mask"
TW="        // avoid unnecessary calculations\n        if t <= 0.0 {\n            return *self;\n        }"
MUTANTS5=[
# --- C34
("C34-deep","C34",[(R,"                if let Some(asset_layers) = animation.assets.get(name)\n","                if ancestors.iter().filter(|a| matches!(a.content, Content::Instance { .. })).count() < 4\n                    && let Some(asset_layers) = animation.assets.get(name)\n")],
 "precompositions nested four deep","the innermost is not drawn"),
("C34-alpha","C34",[(R,OPA,"        let alpha = if alpha < 1.0 && matches!(layer.content, Content::Instance { .. }) {\n            alpha.min(layer.opacity.evaluate(frame) / 100.0)\n        } else {\n            alpha * layer.opacity.evaluate(frame) / 100.0\n        };\n        for mask")],
 "a translucent instance within something translucent","opacities are not multiplied"),
("C34-matteframe","C34",[(R,"                    mask,\n                    mask_index,\n                    parent_transform,\n                    alpha,\n                    frame,\n","                    mask,\n                    mask_index,\n                    parent_transform,\n                    if ancestors.len() > 2 { 1.0 } else { alpha },\n                    frame,\n")],
 "a matte inside an instance that is not opaque, two levels deep","the matte ignores the opacity around it"),
("C34-rect","C34",[(R,"            scene.push_layer(mode, 1.0, parent_transform, &full_rect);","            let inner = ancestors.iter().filter(|a| a.stretch != 1.0).count() > 1;\n            scene.push_layer(mode, 1.0, if inner { transform } else { parent_transform }, &full_rect);")],
 "a matted layer inside a stretched instance inside a stretched instance","the matte's area moves with the layer"),
("C34-delta","C34",[(R,"                            alpha,\n                            frame + frame_delta,","                            alpha,\n                            if ancestors.len() > 2 { frame - layer.start_frame } else { frame + frame_delta },")],
 "a stretched instance with a start time inside two others","its clock is off"),
("C34-parentscope","C34",[(R,"            if let Some(parent) = layer_set.get(index) {\n                parent_index = parent.parent;","            if let Some(parent) = layer_set.get(index) {\n                parent_index = parent.parent.filter(|_| global_transform.determinant() != 0.0);")],
 "a chain of two parents inside an instance scaled to nothing in one direction","the far parent is left out (visible for strokes)"),
("C34-samename","C34",[(R,"                        .any(|a| asset_layers.as_ptr_range().contains(&std::ptr::from_ref(*a)))","                        .any(|a| {\n                            asset_layers.as_ptr_range().contains(&std::ptr::from_ref(*a))\n                                || (!std::ptr::eq(*a, layer)\n                                    && ancestors.len() > 2\n                                    && !a.name.is_empty()\n                                    && a.name == layer.name\n                                    && matches!(a.content, Content::Instance { .. }))\n                        })")],
 "an instance inside an instance of the same layer name, below another","the inner one is taken for a loop"),
# --- C35
("C35-single","C35",[(V,"        let v1 = self.values.get(ix0)?;","        if self.values.len() == 1 && !hold && self.times[0].in_tangent.is_some() {\n            return None;\n        }\n        let v1 = self.values.get(ix0)?;")],
 "a single keyframe with easing handles","the default value is shown"),
("C35-many","C35",[(V,"            Err(ix) => ix.saturating_sub(1),\n        };","            Err(ix) => ix.saturating_sub(1),\n        }\n        .min(11);")],
 "more than twelve keyframes in one property","the value stops at the twelfth pair"),
("C35-skewfix","C35",[(A,"            && self.skew.is_fixed()\n            && self.skew_angle.is_fixed()","            && self.skew.is_fixed()")],
 "a transform whose only animated property is the skew axis","it stays at frame zero"),
("C35-posfix","C35",[(A,"                    x_value.is_fixed() && y_value.is_fixed()","                    x_value.is_fixed()")],
 "a split position of which only y is animated","y stays at frame zero"),
("C35-samevalue","C35",[(V,"        Some(v1.tween(v2, t, &easing))","        // Nothing to do between copies of the same value\n        if self.times[ix0].frame == self.times[ix1].frame {\n            return Some(self.values[0].clone());\n        }\n        Some(v1.tween(v2, t, &easing))")],
 "a frame at or after the last keyframe, or two keyframes at once","the first value is shown"),
("C35-nohold","C35",[(A,"        let t = if hold {\n            0.0\n        } else {\n            0.0.tween(&1.0, t, &easing)\n        };\n        let (Some(from)","        let t = if hold && self.times.len() > 2 {\n            0.0\n        } else {\n            0.0.tween(&1.0, t, &easing)\n        };\n        let (Some(from)")],
 "a path with exactly two keyframes, the first of which holds","it moves gradually"),
# --- C36
("C36-deepgroup","C36",[(R,"self.render_shapes(shapes, alpha * group_alpha, frame);","self.render_shapes(shapes, if group_transform.as_coeffs() == Affine::IDENTITY.as_coeffs() { alpha } else { alpha * group_alpha }, frame);")],
 "a translucent group without a placement of its own","its opacity is ignored"),
("C36-chain","C36",[(R,ANC,"            if count >= layer_set.len().min(4) {\n")],
 "a chain of more than four parents","the far ones are ignored"),
("C36-nullparent","C36",[(R,"                transform = parent.transform.evaluate(frame).into_owned() * transform;","                if parent.frames.contains(&frame) || !matches!(parent.content, Content::None) {\n                    transform = parent.transform.evaluate(frame).into_owned() * transform;\n                }")],
 "a null parent outside its time window","its placement is ignored"),
("C36-order","C36",[(R,"                transform = parent.transform.evaluate(frame).into_owned() * transform;","                let placement = parent.transform.evaluate(frame).into_owned();\n                transform = if count > 1 && parent.stretch != 1.0 { transform * placement } else { placement * transform };")],
 "a stretched grandparent of a parent","placements are multiplied in the wrong order"),
("C36-notr","C36",[(R,"                            (Affine::IDENTITY, 1.0)\n","                            (Affine::IDENTITY, alpha.min(1.0))\n")],
 "a group without a transform within something translucent","its opacity counts twice"),
("C36-drawn","C36",[(R,"        self.batch.drawn_geometry = geometry_start;\n","        if draw_order_matters(shapes) {\n            self.batch.drawn_geometry = geometry_start;\n        }\n"),(R,"#[derive(Clone, Debug)]\nstruct DrawData {","fn draw_order_matters(shapes: &[Shape]) -> bool {\n    shapes.iter().any(|shape| matches!(shape, Shape::Draw(_)))\n}\n\n#[derive(Clone, Debug)]\nstruct DrawData {")],
 "a group inside a group whose own draw comes after paths at the same place","the inner draw swallows the outer path"),
# --- C37
("C37-many","C37",[(R,"        for (layer_index, layer) in animation.layers.iter().enumerate().rev() {\n            if layer.is_mask {","        for (layer_index, layer) in animation.layers.iter().take(16).enumerate().rev() {\n            if layer.is_mask {")],
 "a document with more than sixteen root layers","those at the bottom are not drawn"),
("C37-mattescope","C37",[(C,"    let matte_targets: HashMap<usize, usize> = converted","    let sources = converted.iter().filter(|(layer, ..)| layer.is_mask).count();\n    let matte_targets: HashMap<usize, usize> = converted"),(C,"            let matte_layer_idx = if let Some(explicit_idx) = explicit_matte_index {\n                idmap.get(&explicit_idx).copied()","            let matte_layer_idx = if let Some(explicit_idx) = explicit_matte_index {\n                idmap\n                    .get(&explicit_idx)\n                    .copied()\n                    .map(|index| if sources > 3 { index.min(idx) } else { index })")],
 "more than three matte sources in one list, used by layers above them","a layer becomes its own matte"),
("C37-assets","C37",[(C,"        for asset in assets {\n            match asset {","        for asset in assets.into_iter().take(8) {\n            match asset {")],
 "more than eight assets","instances of the later ones are empty"),
("C37-idwrap","C37",[(C,"                idmap.insert(id, index);\n","                idmap.entry(id).and_modify(|i| *i = index).or_insert(index.min(23));\n")],
 "more than 24 layers in one list, with parents among the last","layers move with the wrong parent"),
("C34-ancestors","C34",[(R,"        if ancestors.iter().any(|a| std::ptr::eq(*a, layer)) {","        if ancestors.len() > 5 || ancestors.iter().any(|a| std::ptr::eq(*a, layer)) {")],
 "layers nested more than five deep through mattes and instances","they vanish"),
("C14-elements","C14",[(R,"        self.elements.clear();\n        self.geometries.clear();","        if self.elements.len() < 4096 {\n            self.elements.clear();\n        }\n        self.geometries.clear();")],
 "a layer with more than 4096 path elements (only memory grows)","the buffer is never emptied"),
# --- C38
("C38-lastease","C38",[(V,"        let (t0_ix, t0_iy) = t0.in_tangent.map(|i| (i.x, i.y)).unwrap_or((1.0, 1.0));","        let (t0_ix, t0_iy) = t0\n            .in_tangent\n            .or(times[times.len() - 1].in_tangent)\n            .map(|i| (i.x, i.y))\n            .unwrap_or((1.0, 1.0));")],
 "a linear segment in a list whose last keyframe has handles","it is eased"),
("C38-anyhold","C38",[(V,HOLD,"        let hold = t0.hold || (times.len() > 3 && t0.out_tangent.is_none() && times.iter().filter(|t| t.hold).count() * 2 > times.len());\n")],
 "a property in which most keyframes hold","linear segments hold as well"),
("C38-interp","C38",[(V,"        let ix = match times.binary_search_by(|x| {","        let (first, last) = (times[0].frame, times[times.len() - 1].frame);\n        let guess = if times.len() > 6 && last > first {\n            ((frame - first) / (last - first) * (times.len() - 1) as f64).clamp(0.0, (times.len() - 2) as f64) as usize\n        } else {\n            usize::MAX\n        };\n        let ix = if guess != usize::MAX && times[guess].frame <= frame && frame <= times[guess + 1].frame { guess } else { match times.binary_search_by(|x| {"),(V,"            Err(ix) => ix.saturating_sub(1),\n        };","            Err(ix) => ix.saturating_sub(1),\n        } };")],
 "seven keyframes or more, at the very end of a hold between two of them","the value before is shown at the keyframe"),
("C38-window","C38",[(R,"        if !layer.frames.contains(&frame) {","        if !layer.frames.contains(&frame) && !(layer.frames.end == frame && layer_set.iter().all(|l| l.frames.end <= frame)) {")],
 "the moment at which the last layer of a list ends","it is still shown"),
("C38-range","C38",[(V,"            (frame - t0.frame) / (t1.frame - t0.frame)\n        };","            let t = (frame - t0.frame) / (t1.frame - t0.frame);\n            let span = times[times.len() - 1].frame - times[0].frame;\n            if (t1.frame - t0.frame) * 512.0 < span { t.round() } else { t }\n        };")],
 "a segment shorter than a 512th of the whole animation of the property","it jumps instead of moving"),
# --- C39
("C39-minstroke","C39",[(A,"        let width = self.width.evaluate(frame);\n        let mut stroke","        let width = self.width.evaluate(frame);\n        let width = if width > 0.0 { width.max(0.25) } else { width };\n        let mut stroke")],
 "a stroke thinner than a quarter","it is drawn thicker"),
("C39-snap","C39",[(S,"            if c0 == p0 && c1 == p1 {","            if (c0 - p0).hypot() < 0.1 && (c1 - p1).hypot() < 0.1 {")],
 "a path segment with very short handles","it becomes straight"),
("C39-smallradius","C39",[(A,"        let radius = self.corner_radius.evaluate(frame);\n","        let radius = self.corner_radius.evaluate(frame);\n        let radius = if radius.abs() < 0.5 { 0.0 } else { radius };\n")],
 "a corner radius below a half","the corner is sharp"),
("C39-grid","C39",[(A,"        Affine::translate((position.x, position.y))\n            * Affine::rotate","        let position = if self.is_fixed() && position.x.abs() > 512.0 {\n            position.round()\n        } else {\n            position\n        };\n        Affine::translate((position.x, position.y))\n            * Affine::rotate")],
 "a still layer placed more than 512 away at a fractional position","it snaps to whole pixels"),
("C39-clip","C39",[(R,"            &Rect::new(0.0, 0.0, animation.width as _, animation.height as _),","            &Rect::new(0.0, 0.0, (animation.width as u32).min(16384) as _, animation.height as _),")],
 "a composition wider than 16384","its picture is cut off"),
("C39-starradius","C39",[(A,"        let outer_radius = self.outer_radius.evaluate(frame);\n","        let outer_radius = self.outer_radius.evaluate(frame).clamp(-8192.0, 8192.0);\n")],
 "a star larger than 8192","it stops growing"),
("C39-ellipse","C39",[(A,"        let radii = (size.width * 0.5, size.height * 0.5);\n        kurbo::Ellipse","        let radii = if size.width.min(size.height).abs() < 1.0 {\n            (0.0, 0.0)\n        } else {\n            (size.width * 0.5, size.height * 0.5)\n        };\n        kurbo::Ellipse")],
 "an ellipse less than one unit wide","it vanishes"),
]
