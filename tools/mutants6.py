"""A sixth batch of planted bugs, in the format of mutants.py: aimed at C40-C42. Their demonstration is demo6."""
R="src/runtime/render.rs"; V="src/runtime/model/value.rs"; A="src/runtime/model/animated.rs"; F="src/runtime/model/fixed.rs"
G="src/runtime/model/mod.rs"; S="src/runtime/model/spline.rs"
MUTANTS6=[
# --- C40
("C40-extravalues","C40",[(V,"        let v1 = self.values.get(ix0)?;","        if self.values.len() != self.times.len() {\n            return None;\n        }\n        let v1 = self.values.get(ix0)?;")],
 "a hand-made value with more values than times","the default is used instead"),
("C40-matteblend","C40",[(R,"            scene.push_layer(mode, 1.0, parent_transform, &full_rect);","            let mode = match mode.compose {\n                peniko::Compose::SrcIn | peniko::Compose::SrcOut => mode,\n                _ => Mix::Normal.into(),\n            };\n            scene.push_layer(mode, 1.0, parent_transform, &full_rect);")],
 "a matte with a blend mode that no document can give","the mode is replaced by normal"),
("C40-onekey","C40",[(V,"        if times.is_empty() {\n            return None;","        if times.is_empty() || (times.len() == 1 && frame < times[0].frame) {\n            return None;")],
 "a value with a single keyframe, before it","the default is used before the keyframe"),
("C40-rawcache","C40",[(G,"                path.extend_from_slice(value);","                thread_local!(static LAST: std::cell::RefCell<(usize, usize, Vec<PathEl>)> = const { std::cell::RefCell::new((0, 0, Vec::new())) });\n                LAST.with_borrow_mut(|(at, len, els)| {\n                    if (*at, *len) != (value.as_ptr() as usize, value.len()) {\n                        (*at, *len) = (value.as_ptr() as usize, value.len());\n                        els.clear();\n                        els.extend_from_slice(value);\n                    }\n                    path.extend_from_slice(els);\n                });")],
 "an outline edited in place between two renders","the outline before the edit is drawn"),
("C40-rawclosed","C40",[(G,"                path.extend_from_slice(value);","                path.extend_from_slice(match value.as_slice() {\n                    [rest @ .., PathEl::ClosePath] if rest.contains(&PathEl::ClosePath) => rest,\n                    all => all,\n                });")],
 "a raw outline of several subpaths","the last subpath is not closed"),
("C40-quad","C40",[(G,"                path.extend_from_slice(value);","                path.extend(value.iter().map(|el| match *el {\n                    PathEl::QuadTo(_, p) => PathEl::LineTo(p),\n                    el => el,\n                }));")],
 "a raw outline with quadratic curves","they are drawn as lines"),
# --- C41
("C41-powi","C41",[(F,"                (self.scale.x / 100.0).powf(t),\n                (self.scale.y / 100.0).powf(t),","                (self.scale.x / 100.0).powi(t.round() as i32),\n                (self.scale.y / 100.0).powi(t.round() as i32),")],
 "a repeater that scales and has a fractional offset","the copies have wrong sizes"),
("C41-anchor","C41",[(F,"            t * self.position.y + self.anchor_point.y,","            t * self.position.y + self.anchor_point.x,")],
 "a repeater with an anchor whose coordinates differ","the copies are out of place"),
("C41-ceil","C41",[(A,"self.copies.evaluate(frame).round() as usize","self.copies.evaluate(frame).ceil() as usize")],
 "an animated number of copies","one copy too many"),
("C41-range","C41",[(R,"            (end_alpha - start_alpha) / repeater.copies as f64","            (end_alpha - start_alpha) / (repeater.copies - 1) as f64")],
 "a repeater that fades","the copies' opacities are off"),
("C41-two","C41",[(R,"        let delta_alpha = if repeater.copies > 1 {","        let delta_alpha = if repeater.copies > 2 {")],
 "a repeater of two copies that fades","the second copy does not fade"),
("C41-break","C41",[(R,"            if alpha <= 0.0 {\n                continue;\n            }\n            for mut draw","            if alpha <= 0.0 {\n                break;\n            }\n            for mut draw")],
 "a repeater that fades in from nothing","no copy is drawn"),
("C41-stale","C41",[(R,"        self.repeat_draws.clear();\n        // Prevent","        if repeater.copies > 0 {\n            self.repeat_draws.clear();\n        }\n        // Prevent")],
 "a repeater of no copies, then another repeater","what was removed comes back with the next repeater"),
("C41-merge","C41",[(R,"        // Prevent merging until new geometries are pushed\n        self.drawn_geometry = self.geometries.len();","        // Prevent merging until new geometries are pushed\n        self.drawn_geometry = self.geometries.len() - usize::from(repeater.copies == 1);")],
 "a repeater of one copy that does not move, then a path with its own paint","the first paint covers the second path"),
("C41-fixedend","C41",[(A,"            && self.start_opacity.is_fixed()\n            && self.end_opacity.is_fixed()","            && self.start_opacity.is_fixed()")],
 "a repeater of which only the final opacity is animated, reduced to its fixed form","the fading stands still"),
("C41-fixedanchor","C41",[(A,"            && self.offset.is_fixed()\n            && self.anchor_point.is_fixed()","            && self.offset.is_fixed()")],
 "a repeater of which only the anchor is animated, reduced to its fixed form","the copies stand still"),
("C41-order","C41",[(R,"            let transform = repeater.transform(i);","            let transform = repeater.transform(if repeater.copies > 2 && repeater.offset < 0.0 { repeater.copies - 1 - i } else { i });")],
 "a repeater of three copies with a negative offset","the copies are in the opposite order"),
("C41-cumul","C41",[(R,"                geometry.transform = transform * geometry.transform;\n                self.geometries","                geometry.transform = if geometry.transform == Affine::IDENTITY {\n                    transform\n                } else {\n                    geometry.transform * transform\n                };\n                self.geometries")],
 "a repeater of a transformed group, or of another repeater's copies","the copies are moved in the wrong space"),
# --- C42
("C42-matteindex","C42",[(R,"            if let Some(mask) = layer_set.get(mask_index) {\n","            {\n                let mask = &layer_set[mask_index];\n")],
 "a layer whose matte does not exist","panic"),
("C42-parentindex","C42",[(R,"            if let Some(parent) = layer_set.get(index) {\n                parent_index = parent.parent;","            if index <= layer_set.len() {\n                let parent = &layer_set[index];\n                parent_index = parent.parent;")],
 "a layer whose parent's index is one past the end","panic"),
("C42-values","C42",[(V,"        let v2 = self.values.get(ix1)?;","        let v2 = &self.values[ix1];")],
 "a value with fewer values than times","panic"),
("C42-splinelen","C42",[(S,"        self.0.len().min(self.1.len())","        self.0.len().max(self.1.len())")],
 "path keyframes of different lengths","panic"),
("C42-splinepart","C42",[(S,"        let n_vertices = self.len() / 3;","        let n_vertices = self.len().div_ceil(3);")],
 "a list of path points that is not made of whole vertices","panic"),
("C42-solve","C42",[(V,"        if times.is_empty() {\n            return None;\n        }\n        use","        use")],
 "a value without keyframes","panic"),
("C42-reversed","C42",[(R,"        if !layer.frames.contains(&frame) {\n            return;\n        }","        if frame != frame.clamp(layer.frames.start, layer.frames.end) || frame == layer.frames.end {\n            return;\n        }")],
 "a layer whose window ends before it starts, or is not a number","panic"),
]
