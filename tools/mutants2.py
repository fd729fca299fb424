"""More planted bugs, in the format of mutants.py."""
R="src/runtime/render.rs"; C="src/import/converters.rs"; B="src/import/builders.rs"
V="src/runtime/model/value.rs"; A="src/runtime/model/animated.rs"; M="src/runtime/mod.rs"; MM="src/runtime/model/mod.rs"
F="src/runtime/model/fixed.rs"; S="src/runtime/model/spline.rs"; VE="src/runtime/vello.rs"
AN="src/schema/animation/animation.rs"; LM="src/schema/layers/mod.rs"; LL="src/schema/layers/layer.rs"; LV="src/schema/layers/visual.rs"
AS="src/schema/assets/mod.rs"; KB="src/schema/animated_properties/keyframe_base.rs"; BZ="src/schema/helpers/bezier.rs"; MK="src/schema/helpers/marker.rs"
MUTANTS2=[
("C01-tanzip","C01",[(C,"                handles.extend(\n                    xarr.iter()\n                        .take(2)\n                        .zip(yarr.iter().take(2))\n                        .map(|(x, y)| EasingHandle { x: *x, y: *y }),\n                );","                handles.extend(\n                    xarr.iter()\n                        .take(2)\n                        .enumerate()\n                        .map(|(k, x)| EasingHandle { x: *x, y: yarr[k] }),\n                );")],
 "an easing handle with more x than y components","loading panics"),
("C01-dupasset","C01",[(C,"                    target.assets.insert(precomp.asset.id.clone(), layers);","                    let previous = target.assets.insert(precomp.asset.id.clone(), layers);\n                    assert!(previous.is_none(), \"asset ids are unique\");")],
 "two precompositions with the same id","loading panics"),
("C01-forwardmatte","C01",[(C,"            if let Some(matte_idx) = matte_layer_idx {\n                layer.mask_layer","            if let Some(matte_idx) = matte_layer_idx.filter(|i| *i == idx || layers[*i].is_mask || true) {\n                layer.mask_layer")],
 "an explicit matte source listed after the layer that uses it","loading panics"),
("C01-reserve","C01",[(C,"    let mut stops: Vec<[f64; 5]> = Vec::new();","    let mut stops: Vec<[f64; 5]> = Vec::with_capacity(count);")],
 "a gradient whose colour count is absurdly large","loading panics with a capacity overflow or exhausts memory"),
("C01-tangents","C01",[(C,"        .zip(value.in_tangents.iter().chain(repeat(&[0.0, 0.0])))","        .zip((0..value.vertices.len()).map(|k| if value.in_tangents.is_empty() { &[0.0, 0.0] } else { &value.in_tangents[k] }))")],
 "a path with fewer in tangents than vertices","loading panics"),
("C01-unsorted","C01",[(C,"                values.push(data);\n                // todo","                values.push(data);\n                debug_assert!(frames.windows(2).all(|w| w[0].frame <= w[1].frame));\n                // todo")],
 "a scalar property whose keyframes are not in order of time","loading panics (in builds with debug assertions)"),
("C02-clampframe","C02",[(V,"        use core::cmp::Ordering::*;\n","        use core::cmp::Ordering::*;\n        let frame = frame.clamp(times[0].frame, times[times.len() - 1].frame);\n")],
 "a property whose keyframes are not in order","rendering panics"),
("C02-trimloop","C02",[(F,"        let start_pct = (start_pct + offset_pct).rem_euclid(100.0);","        let mut start_pct = start_pct + offset_pct;\n        while start_pct >= 100.0 {\n            start_pct -= 100.0;\n        }\n        while start_pct < 0.0 {\n            start_pct += 100.0;\n        }")],
 "a trim with a huge offset","rendering never returns"),
("C02-gradindex","C02",[(A,"            let offset = v0.get(j)?.tween(v1.get(j)?, t, &easing);","            let offset = v0[j].tween(&v1[j], t, &easing);")],
 "an animated gradient with fewer stops in a keyframe than its count says","rendering panics"),
("C02-closed","C02",[(S,"        if is_closed && n_vertices != 0 {","        if is_closed {")],
 "a closed animated path with no complete vertex at a frame","rendering panics with an underflow"),
("C02-parentindex","C02",[(R,"            if let Some(parent) = layer_set.get(index) {\n                parent_index = parent.parent;\n                transform = parent.transform.evaluate(frame).into_owned() * transform;\n                count += 1;\n            } else {\n                break;\n            }","            let parent = &layer_set[index];\n            parent_index = parent.parent;\n            transform = parent.transform.evaluate(frame).into_owned() * transform;\n            count += (frame >= parent.frames.start) as usize;")],
 "a parent cycle, drawn before the parents' windows start","rendering never returns"),
("C03-fullrect","C03",[(R,"        let full_rect = Rect::new(0.0, 0.0, animation.width as f64, animation.height as f64);\n        ancestors","        let full_rect = *self.full_rect.get_or_insert(Rect::new(0.0, 0.0, animation.width as f64, animation.height as f64));\n        ancestors"),(R,"    mask_elements: Vec<PathEl>,\n}","    mask_elements: Vec<PathEl>,\n    full_rect: Option<Rect>,\n}")],
 "one renderer drawing two compositions of different sizes, the second with a matte","the matte of the second is confined to the size of the first"),
("C03-frame","C03",[(R,"    mask_elements: Vec<PathEl>,\n}","    mask_elements: Vec<PathEl>,\n    last_trim: Option<(f64, *const super::model::Trim, fixed::Trim)>,\n}"),
  (R,"                    let trim = trim.evaluate(frame);\n                    self.batch.apply_trim(trim.as_ref(), geometry_start);","                    let value = match &self.last_trim {\n                        Some((f, p, v)) if *f == frame && std::ptr::eq(*p, trim) => v.clone(),\n                        _ => trim.evaluate(frame).into_owned(),\n                    };\n                    self.batch.apply_trim(&value, geometry_start);\n                    self.last_trim = Some((frame, trim, value));")],
 "the same frame of a replaced composition whose trim lies at the same address","the trim of the old composition is used"),
("C04-rwlock","C04",[(R,"                if let Some(asset_layers) = animation.assets.get(name)","                let _guard = super::LIBRARY.read().unwrap();\n                if let Some(asset_layers) = animation.assets.get(name)"),
  (M,"/// Model of a Lottie file.","/// Held while the assets of a composition are in use.\npub(crate) static LIBRARY: std::sync::RwLock<()> = std::sync::RwLock::new(());\n\n/// Model of a Lottie file."),
  (C,"                    let layers = process_layers(&precomp.composition.layers, &mut idmap);","                    let layers = process_layers(&precomp.composition.layers, &mut idmap);\n                    let _guard = crate::runtime::LIBRARY.write().unwrap();")],
 "a thread drawing an instance inside an instance while another one loads a document with a precomposition, switched between two acquisitions of a lock","both block forever"),
("C04-static","C04",[(V,"        let t = if hold { 0.0 } else { t };\n\n        let v1","        static WEIGHT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);\n        WEIGHT.store(if hold { 0.0 } else { t }.to_bits(), std::sync::atomic::Ordering::Release);\n        let v1"),
  (V,"        let v2 = self.values.get(ix1)?;\n\n        Some(v1.tween(v2, t, &easing))","        let v2 = self.values.get(ix1)?;\n        let t = f64::from_bits(WEIGHT.load(std::sync::atomic::Ordering::Acquire));\n        Some(v1.tween(v2, t, &easing))")],
 "two threads evaluating animated properties, switched between two statements","a property is interpolated with the weight of the other thread's property"),
("C05-missingasset","C05",[(R,"                    let frame = frame / layer.stretch;\n","                    if asset_layers.is_empty() {\n                        ancestors.pop();\n                        scene.end_layer_group();\n                        return;\n                    }\n                    let frame = frame / layer.stretch;\n")],
 "a masked instance of a precomposition without layers","the mask's clip is never popped"),
("C05-groupend","C05",[(R,"        for _ in 0..layer.masks.len() + (layer.mask_layer.is_some() as usize * 2) {\n            scene.pop_layer();\n        }\n        ancestors.pop();\n        scene.end_layer_group();","        for _ in 0..layer.masks.len() {\n            scene.pop_layer();\n        }\n        ancestors.pop();\n        scene.end_layer_group();\n        for _ in 0..layer.mask_layer.is_some() as usize * 2 {\n            scene.pop_layer();\n        }")],
 "a layer with a matte","the layer group ends while layers opened inside it are still open"),
("C05-matteself","C05",[(R,"            scene.push_layer(mode, 1.0, parent_transform, &full_rect);","            if mask_index != layer_index {\n                scene.push_layer(mode, 1.0, parent_transform, &full_rect);\n            }")],
 "a layer that is its own matte source","one more pop than pushes"),
("C06-outpoint","C06",[(R,"        if !layer.frames.contains(&frame) {","        if frame < layer.frames.start || frame > layer.frames.end - f64::EPSILON {")],
 "a frame that is the last number before a small out point","the layer disappears a little early (or a NaN frame shows everything)"),
("C06-name","C06",[(B,"    target.name = source\n        .visual_layer\n        .layer\n        .visual_object\n        .name\n        .clone()\n        .unwrap_or_default();\n    target.parent = source.visual_layer.layer.parent_index;\n    let (transform, opacity) = conv_transform(&source.visual_layer.transform);\n    target.transform = transform;\n    target.opacity = opacity;\n    target.width = source.width;","    target.name = source\n        .visual_layer\n        .layer\n        .visual_object\n        .name\n        .clone()\n        .unwrap_or_else(|| source.ref_id.clone());\n    target.parent = source.visual_layer.layer.parent_index;\n    let (transform, opacity) = conv_transform(&source.visual_layer.transform);\n    target.transform = transform;\n    target.opacity = opacity;\n    target.width = source.width;")],
 "an instance layer without a name","it is announced under another name"),
("C06-sort","C06",[(C,"    target.layers = process_layers(&source.composition.layers, &mut idmap);","    target.layers = process_layers(&source.composition.layers, &mut idmap);\n    if target.layers.iter().all(|l| l.parent.is_none() && l.mask_layer.is_none() && !l.is_mask) && target.layers.len() > 3 {\n        target.layers.sort_by(|a, b| b.frames.start.total_cmp(&a.frames.start));\n    }")],
 "more than three independent layers whose start times are not in order","layers are painted in another order"),
("C06-hiddenparam","C06",[(C,"    if hidden {\n        layer.is_mask = false;\n    }","    if hidden {\n        layer.is_mask = false;\n        layer.parent = None;\n        layer.frames = 0.0..0.0;\n    }")],
 "a hidden layer","it is no longer announced and its descendants lose their place"),
("C07-splityfixed","C07",[(A,"                    x_value.is_fixed() && y_value.is_fixed()","                    x_value.is_fixed()")],
 "a separated position of which only y moves, everything else fixed","the layer does not move"),
("C07-skewfixed","C07",[(A,"            && self.skew.is_fixed()\n            && self.skew_angle.is_fixed()","            && self.skew.is_fixed()")],
 "a transform in which only the skew axis moves","the skew axis stays where it is"),
("C07-holdtangent","C07",[(C,"                    in_tangent: Some(in_tangent),\n                    out_tangent: Some(out_tangent),\n                    hold,","                    in_tangent: Some(in_tangent),\n                    out_tangent: Some(out_tangent),\n                    hold: false,")],
 "a hold keyframe that also has easing handles","the value moves during the hold"),
("C07-mixedhandle","C07",[(C,"            (KeyframeComponent::SingleValue(x), KeyframeComponent::ArrayOfValues(yarr)) => {\n                handles.extend(yarr.iter().take(2).map(|y| EasingHandle { x: *x, y: *y }));","            (KeyframeComponent::SingleValue(x), KeyframeComponent::ArrayOfValues(yarr)) => {\n                handles.extend(yarr.iter().take(2).map(|y| EasingHandle { x: *y, y: *x }));")],
 "an easing handle whose x is a number and whose y is an array","the easing curve is mirrored"),
("C07-staropts","C07",[(A,"            && self.outer_roundness.is_fixed()\n            && self.rotation.is_fixed()\n            && self.points.is_fixed()","            && self.rotation.is_fixed()\n            && self.points.is_fixed()")],
 "a star of which only the outer roundness moves","its corners do not change"),
("C07-bisect","C07",[(V,"            .find(|&r| (-eps..=1.0 + eps).contains(&r))","            .find(|&r| (eps..=1.0 - 1e-3).contains(&r))")],
 "an instant within a thousandth of the end of an eased segment","the value jumps to an end of the segment early"),
("C07-samekey","C07",[(V,"            Ok(ix) => ix,\n","            Ok(ix) => (0..=ix).rev().take_while(|i| times[*i].frame == times[ix].frame).last().unwrap_or(ix).saturating_sub((times[ix].hold && ix > 2) as usize),\n")],
 "the exact time of a hold keyframe that is not among the first three","the previous value is still shown"),
("C07-gradend","C07",[(A,"        let end = self.end_point.evaluate(frame);\n        let stops","        let end = if self.start_point.is_fixed() && self.stops.is_fixed() { self.end_point.evaluate(frame.floor()) } else { self.end_point.evaluate(frame) };\n        let stops")],
 "a gradient of which only the end point moves, between two frames","the end point moves in steps"),
("C07-colorlen","C07",[(V,"        let a = (a1 as f64).tween(&(a2 as f64), t, easing);","        let a = (a1 as f64).tween(&(a2 as f64), t, easing);\n        let (r, g, b) = if t > 0.0 && t < 1.0 { (r.clamp(r1.min(r2) as f64, r1.max(r2) as f64), g, b) } else { (r, g, b) };")],
 "an animated colour whose easing overshoots","red does not overshoot while green and blue do"),
("C07-widthzero","C07",[(A,"        let width = self.width.evaluate(frame);\n","        let width = self.width.evaluate(frame.max(0.0));\n")],
 "an animated stroke width at a negative frame","the width stands still before frame zero"),
("C07-rectsize","C07",[(A,"        let radius = self.corner_radius.evaluate(frame);\n        kurbo","        let radius = self.corner_radius.evaluate(frame.round());\n        kurbo")],
 "an animated corner radius between two frames","the radius moves in steps"),
("C08-maskclock","C08",[(R,"        for mask in &layer.masks {\n            mask.geometry.evaluate(frame, &mut self.mask_elements);","        let mask_frame = match &layer.content {\n            Content::Instance { .. } if ancestors.len() > 1 => frame / layer.stretch,\n            _ => frame,\n        };\n        for mask in &layer.masks {\n            mask.geometry.evaluate(mask_frame, &mut self.mask_elements);")],
 "a nested instance with time stretch and an animated mask","the mask follows the inner clock"),
("C08-case","C08",[(C,"                    target.assets.insert(precomp.asset.id.clone(), layers);","                    target.assets.insert(precomp.asset.id.trim().to_string(), layers);"),(C,"let name = precomp_layer.ref_id.clone();","let name = precomp_layer.ref_id.trim().to_string();")],
 "two precompositions whose ids differ only in surrounding blanks","one is shown in place of the other"),
("C08-missing","C08",[(R,"                if let Some(asset_layers) = animation.assets.get(name)\n","                if let Some(asset_layers) = animation.assets.get(name).or_else(|| animation.assets.values().next().filter(|_| name.is_empty()))\n")],
 "an instance without a reference in a document with precompositions","it shows one of them"),
("C08-start","C08",[(B,"    target.start_frame = source.start_time;\n\n    for mask_source","    target.start_frame = source.start_time.max(target.frames.start.min(0.0));\n\n    for mask_source")],
 "an instance that started before both frame zero and its own in point","its clock starts late"),
("C08-negstretch","C08",[(R,"                    let frame = frame / layer.stretch;\n","                    let frame = frame / layer.stretch.abs();\n")],
 "an instance with negative stretch (played backwards)","it plays forwards"),
("C09-forward","C09",[(C,"        if let Some(parent) = layer.parent {\n            layer.parent = idmap.get(&parent).copied();","        if let Some(parent) = layer.parent {\n            layer.parent = idmap.get(&parent).copied().filter(|p| *p < idx || layer.mask_layer.is_none() && layer.masks.is_empty());")],
 "a layer with masks whose parent is listed after it","the parent is ignored"),
("C09-zero","C09",[(C,"            layer.parent = idmap.get(&parent).copied();\n        }\n\n        if","            layer.parent = idmap.get(&parent).copied().filter(|_| parent != 0);\n        }\n\n        if")],
 "a parent whose index is 0","it is ignored"),
("C09-window","C09",[(R,"                transform = parent.transform.evaluate(frame).into_owned() * transform;","                transform = parent.transform.evaluate(frame.min(parent.frames.end)).into_owned() * transform;")],
 "a parent that moves on after its out point","its children stand still"),
("C09-deep","C09",[(R,"            if count >= layer_set.len() {","            if count >= layer_set.len().min(8) {")],
 "a chain of more than eight parents","the outermost ones are ignored"),
("C09-nested","C09",[(R,"        let transform = self.compute_transform(layer_set, layer, parent_transform, frame);","        let transform = self.compute_transform(if layer.parent.is_some_and(|p| p > layer_index) && ancestors.len() > 1 { &animation.layers } else { layer_set }, layer, parent_transform, frame);")],
 "a parent listed after its child two precompositions deep","a layer of the main list is taken for the parent"),
("C10-wronglist","C10",[(R,"            if let Some(mask) = layer_set.get(mask_index) {","            if let Some(mask) = if layer_set.len() > mask_index && layer_set[mask_index].is_mask { layer_set } else { &animation.layers[..] }.get(mask_index) {")],
 "an explicit matte source inside a precomposition that is not itself marked as matte source","a layer of the main list becomes the matte"),
("C10-explicit","C10",[(C,"                idmap.get(&explicit_idx).copied()\n","                matte_targets.get(&explicit_idx).copied().or(prev_matte_layer)\n")],
 "an explicit matte source that does not exist, after an unused implicit one","the implicit one is used"),
("C10-maskacc","C10",[(R,"            scene.push_clip_layer(transform, &self.mask_elements.as_slice());\n            self.mask_elements.clear();\n        }","            scene.push_clip_layer(transform, &self.mask_elements.as_slice());\n        }\n        self.mask_elements.clear();")],
 "a layer with two masks","the second mask contains the first"),
("C10-mattealpha","C10",[(R,"            scene.push_layer(mode, 1.0, parent_transform, &full_rect);","            scene.push_layer(mode, (layer.opacity.evaluate(frame) / 100.0).ceil().clamp(0.0, 1.0) as f32, parent_transform, &full_rect);")],
 "a matted layer whose opacity is zero at the frame","the layer composites with alpha zero"),
("C10-invluma","C10",[(B,"    let matte_layer_index = source\n        .visual_layer\n        .matte_layer_index\n        .map(|idx| idx as usize);\n\n    target.blend_mode = conv_blend_mode(\n        source\n            .visual_layer\n            .blend_mode\n            .as_ref()\n            .unwrap_or(&crate::schema::constants::blend_mode::BlendMode::Normal),\n    );\n    if target.blend_mode == Some(peniko::Mix::Normal.into()) {\n        target.blend_mode = None;\n    }\n    target.stretch = source.visual_layer.layer.time_stretch.unwrap_or(1.0);\n    target.frames = source.visual_layer.layer.in_point..source.visual_layer.layer.out_point;\n    target.start_frame = source.start_time;","    let matte_layer_index = source\n        .visual_layer\n        .matte_layer_index\n        .map(|idx| idx as u8 as usize);\n\n    target.blend_mode = conv_blend_mode(\n        source\n            .visual_layer\n            .blend_mode\n            .as_ref()\n            .unwrap_or(&crate::schema::constants::blend_mode::BlendMode::Normal),\n    );\n    if target.blend_mode == Some(peniko::Mix::Normal.into()) {\n        target.blend_mode = None;\n    }\n    target.stretch = source.visual_layer.layer.time_stretch.unwrap_or(1.0);\n    target.frames = source.visual_layer.layer.in_point..source.visual_layer.layer.out_point;\n    target.start_frame = source.start_time;")],
 "an instance layer whose explicit matte source has an index above 255","another layer becomes the matte, or none"),
("C11-matteafter","C11",[(R,"        let alpha = alpha * layer.opacity.evaluate(frame) / 100.0;\n        for mask","        let alpha = if layer.mask_layer.is_some() && alpha > 1.0 - f64::EPSILON { layer.opacity.evaluate(frame) / 100.0 } else { alpha * layer.opacity.evaluate(frame.max(layer.frames.start + 0.5)) / 100.0 };\n        for mask")],
 "an animated layer opacity within half a frame of the in point","the opacity is that of half a frame later"),
("C11-instance","C11",[(R,"                            transform,\n                            alpha,\n                            frame + frame_delta,","                            transform,\n                            if asset_layer.mask_layer.is_some() { alpha / (layer.opacity.evaluate(frame) / 100.0).max(1e-6) } else { alpha },\n                            frame + frame_delta,")],
 "a matted layer inside a translucent instance","the instance's opacity is not applied to it"),
("C12-gradcap","C12",[(C,"                    .line_cap\n                    .as_ref()\n                    .unwrap_or(&LineCap::Round)","                    .line_cap\n                    .as_ref()\n                    .unwrap_or(if value.base_stroke.line_join.is_some() { &LineCap::Round } else { &LineCap::Butt })")],
 "a gradient stroke that names neither cap nor join","it gets another cap"),
("C12-drawnmerge","C12",[(R,"        if self.drawn_geometry < self.geometries.len()\n            && self","        if (self.drawn_geometry < self.geometries.len() || self.draws.last().is_some_and(|d| d.geometry.end < self.geometries.len()))\n            && self")],
 "shapes after a paint inside nested groups","a path is merged into one that was painted already"),
("C12-sametransform","C12",[(R,"            && self.geometries.last().map(|last| last.transform) == Some(transform)","            && self.geometries.last().map(|last| last.transform.as_coeffs()[..4] == transform.as_coeffs()[..4]) == Some(true)")],
 "sibling groups that differ only in their position","paths are painted at the place of the previous group"),
("C12-radial","C12",[(A,"            let radius = (end.to_vec2() - start.to_vec2()).hypot();","            let radius = (end.to_vec2() - start.to_vec2()).x.abs().max((end.to_vec2() - start.to_vec2()).y.abs());")],
 "a radial gradient whose end lies diagonally from its start","its radius is too small"),
("C12-stroketail","C12",[(C,"                miter_limit: value.base_stroke.miter_limit,\n                cap: match value\n                    .base_stroke\n                    .line_cap\n                    .as_ref()\n                    .unwrap_or(&LineCap::Butt)","                miter_limit: value.base_stroke.miter_limit.filter(|m| *m > 1.0),\n                cap: match value\n                    .base_stroke\n                    .line_cap\n                    .as_ref()\n                    .unwrap_or(&LineCap::Butt)")],
 "a stroke with a miter limit of exactly one or less","it gets the default limit"),
("C13-offsetsign","C13",[(F,"        let offset_pct = self.offset * (100.0 / 360.0);","        let offset_pct = (self.offset % 360.0) * (100.0 / 360.0);\n        let offset_pct = if offset_pct < -50.0 { -offset_pct } else { offset_pct };")],
 "an offset below minus half a turn","the visible part rotates the wrong way"),
("C13-earlier","C13",[(R,"            let len = geometry.elements.len();\n            geometry.elements = offset..offset + len;\n            offset += len;","            let len = geometry.elements.len();\n            geometry.elements = offset..offset + len;\n            offset += len.max(1);")],
 "an empty path before the group that is trimmed","paths before the group are shifted"),
("C13-swap","C13",[(F,"        let (start_pct, end_pct) = if self.start <= self.end {","        let (start_pct, end_pct) = if self.start <= self.end || self.offset != 0.0 {")],
 "a trim whose start lies above its end, with an offset","nothing is left of the path"),
("C13-wrapend","C13",[(R,"            let trim_ranges = [Some(first), second];","            let trim_ranges = if segs.len() > 1 { [second, Some(first)] } else { [Some(first), second] };")],
 "a wrapped trim of a path with several segments","the two visible parts are drawn in the opposite order"),
("C13-seglen","C13",[(R,"                    if current_len > end_len + 1e-9 {","                    if current_len > end_len - total_length * 1e-3 {")],
 "a trim whose end lies just after a vertex","the last bit of the visible part is missing"),
("C14-growth","C14",[(R,"        let mut ancestors = vec![];\n        for","        let mut ancestors = Vec::with_capacity(1);\n        self.mask_elements.reserve(self.mask_elements.capacity() + 1 - (animation.layers.iter().any(|l| !l.masks.is_empty())) as usize * self.mask_elements.capacity());\n        for")],
 "many frames of a composition without masks","the renderer's memory doubles with every frame"),
("C14-names","C14",[(R,"    mask_elements: Vec<PathEl>,\n}","    mask_elements: Vec<PathEl>,\n    seen: std::collections::BTreeSet<u64>,\n}"),(R,"        let mut ancestors = vec![];\n        for","        if transform != Affine::IDENTITY {\n            let key = frame.to_bits() ^ (self.seen.len() as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);\n            self.seen.insert(key);\n        }\n        let mut ancestors = vec![];\n        for")],
 "many frames under a transform other than the identity","memory grows with every frame"),
("C14-static","C14",[(C,"                    let layers = process_layers(&precomp.composition.layers, &mut idmap);","                    static IDS: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());\n                    IDS.lock().unwrap().push(precomp.asset.id.clone());\n                    let layers = process_layers(&precomp.composition.layers, &mut idmap);")],
 "loading documents with precompositions over and over","memory is never returned"),
("C15-trailing","C15",[(AN,"        serde_json::from_slice(v)","        let mut de = serde_json::Deserializer::from_slice(v);\n        Animation::deserialize(&mut de)")],
 "a document followed by leftovers of an older, longer one","it loads from bytes"),
("C15-nulpad","C15",[(AN,"        serde_json::from_str(s)","        serde_json::from_str(s.split('\\0').next().unwrap_or(s))")],
 "a document followed by a zeroed sector, loaded as text","it loads"),
("C15-default","C15",[(AN,"    #[serde(rename = \"op\")]\n    pub out_point","    #[serde(rename = \"op\", default)]\n    pub out_point")],
 "a document without an out point","it loads"),
("C15-layerskip","C15",[(LL,"    #[serde(rename = \"op\")]\n","    #[serde(rename = \"op\", default)]\n")],
 "a layer without an out point","it loads"),
("C15-assets","C15",[(AS,"            Err(D::Error::custom(format!(\n                \"asset id={id:?}: Sound asset not yet supported\"\n            )))","            serde_json::from_value(serde_json::json!({\"id\": id, \"layers\": []}))\n                .map(AnyAsset::Precomposition)\n                .map_err(D::Error::custom)")],
 "a precomposition asset that lost its layer list","it loads as an empty one"),
("C16-tangent","C16",[(KB,"    #[serde(rename = \"o\")]\n    #[serde(skip_serializing_if = \"Option::is_none\")]","    #[serde(rename = \"o\")]\n    #[serde(skip_serializing)]")],
 "eased keyframes in a document that is saved and loaded again","the easing is lost"),
("C16-closed","C16",[(BZ,"    #[serde(skip_serializing_if = \"Option::is_none\")]\n    pub closed","    #[serde(skip_serializing_if = \"Option::is_none\")]\n    #[serde(alias = \"closed\")]\n    #[serde(serialize_with = \"closed_first\")]\n    pub closed"),(BZ,"#[derive(Deserialize, Serialize, Debug, Clone, PartialEq)]\npub struct Bezier","fn closed_first<S: serde::Serializer>(v: &Option<bool>, s: S) -> Result<S::Ok, S::Error> {\n    s.serialize_bool(v.is_some())\n}\n\n#[derive(Deserialize, Serialize, Debug, Clone, PartialEq)]\npub struct Bezier")],
 "an open path that says so","it is closed after saving and reloading"),
("C16-precision","C16",[(LL,"    #[serde(rename = \"sr\")]\n    #[serde(skip_serializing_if = \"Option::is_none\")]","    #[serde(rename = \"sr\")]\n    #[serde(skip_serializing_if = \"is_default_stretch\")]"),(LL,"#[derive(Deserialize, Serialize, Debug, Clone, PartialEq)]\npub struct Layer","fn is_default_stretch(v: &Option<f64>) -> bool {\n    v.is_none_or(|v| (v - 1.0).abs() < 0.05)\n}\n\n#[derive(Deserialize, Serialize, Debug, Clone, PartialEq)]\npub struct Layer")],
 "a time stretch close to, but not, one","it becomes one after saving"),
("C16-marker","C16",[(MK,"    #[serde(rename = \"dr\")]\n    #[serde(skip_serializing_if = \"Option::is_none\")]","    #[serde(rename = \"dr\")]\n    #[serde(skip_serializing_if = \"Option::is_some\")]")],
 "a marker with a duration","the duration is lost"),
("C16-matte","C16",[(LV,"    #[serde(rename = \"tp\")]\n    #[serde(skip_serializing_if = \"Option::is_none\")]","    #[serde(rename(deserialize = \"tp\", serialize = \"tpi\"))]\n    #[serde(skip_serializing_if = \"Option::is_none\")]")],
 "a layer with an explicit matte source","the source is lost"),
("C17-addr","C17",[(C,"    target.layers = process_layers(&source.composition.layers, &mut idmap);","    target.layers = process_layers(&source.composition.layers, &mut idmap);\n    if target.assets.len() > 1 {\n        if let Some(first) = target.assets.keys().next().cloned() {\n            for l in &mut target.layers {\n                if let Content::Instance { name, .. } = &mut l.content\n                    && !target.assets.contains_key(name)\n                {\n                    *name = first.clone();\n                }\n            }\n        }\n    }")],
 "an instance of a missing asset in a document with several precompositions","which one is shown depends on the hash seed"),
("C17-clock","C17",[(V,"        let hold = t0.hold;\n","        let hold = t0.hold\n            && std::time::SystemTime::now()\n                .duration_since(std::time::UNIX_EPOCH)\n                .map_or(true, |d| d.subsec_nanos() % 64 != 7);\n")],
 "a hold keyframe drawn at a particular moment of the wall clock","the hold is ignored"),
("C17-json","C17",[(M,"        let source = Animation::from_json(v)?;","        let mut v = v;\n        if let Some(assets) = v.get_mut(\"assets\").and_then(|a| a.as_array_mut()) {\n            assets.dedup_by(|a, b| a.get(\"id\") == b.get(\"id\"));\n        }\n        let source = Animation::from_json(v)?;")],
 "a document with two precompositions of the same id loaded as a parsed value","another one of the two is shown than when loaded from bytes"),
("C17-sticky","C17",[(C,"    idmap.clear();\n\n    let mut converted","    static DEPTH: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n    if DEPTH.fetch_add(1, std::sync::atomic::Ordering::SeqCst) % 16 != 15 {\n        idmap.clear();\n    }\n\n    let mut converted")],
 "the sixteenth layer list a process loads, when it refers to parents it does not have","the layers of an earlier list become parents"),
("C18-thin","C18",[(VE,"        if let Some(stroke) = stroke {\n","        if let Some(stroke) = stroke.filter(|s| s.width > 0.0) {\n")],
 "a stroke whose width is zero at the frame","it is filled"),
("C18-clip","C18",[(VE,"        self.push_clip_layer(Fill::NonZero, transform, shape);","        self.push_clip_layer(if shape.as_rect().is_some() { Fill::NonZero } else { Fill::EvenOdd }, transform, shape);")],
 "a masked layer drawn into a Vello scene","the mask uses the even-odd rule"),
("C18-blend","C18",[(VE,"        self.push_layer(Fill::NonZero, blend, alpha, transform, shape);","        let blend: BlendMode = blend.into();\n        self.push_layer(Fill::NonZero, blend, if blend.compose == peniko::Compose::SrcOut { 1.0 - alpha } else { alpha }, transform, shape);")],
 "an inverted matte drawn into a Vello scene","the layer is composited with alpha zero"),
("C18-bounds","C18",[(VE,"            self.fill(Fill::NonZero, transform, brush, None, shape);","            if !shape.bounding_box().is_zero_area() {\n                self.fill(Fill::NonZero, transform, brush, None, shape);\n            }")],
 "a filled shape without area drawn into a Vello scene","the call is dropped"),
("C19-fullrect","C19",[(R,"            scene.push_layer(mode, 1.0, parent_transform, &full_rect);","            scene.push_layer(mode, 1.0, if ancestors.len() > 1 { parent_transform * transform.inverse() * transform } else { parent_transform }, &full_rect);")],
 "a nested matted layer whose own transform is singular","the matte's bounds are not a number"),
("C19-order","C19",[(R,"        global_transform * transform\n","        if layer.parent.is_some() {\n            let t = global_transform.translation();\n            Affine::translate(t) * transform * global_transform.with_translation(kurbo::Vec2::ZERO)\n        } else {\n            global_transform * transform\n        }\n")],
 "a parented layer under a caller transform that scales or rotates","it is placed wrongly"),
("C19-hairline","C19",[(R,"                scene.draw(draw.stroke.as_ref(), transform, brush, &path);","                let visible = layer_transform.determinant().abs() > 1e-3 || draw.stroke.is_none();\n                if visible {\n                    scene.draw(draw.stroke.as_ref(), transform, brush, &path);\n                }")],
 "a stroke under a very small caller scale","it is not drawn"),
("C20-f32","C20",[(V,"            (frame - t0.frame) / (t1.frame - t0.frame)","            ((frame as f32 - t0.frame as f32) / (t1.frame as f32 - t0.frame as f32)) as f64")],
 "a timeline that starts very late","animation gets coarse"),
("C20-zero","C20",[(R,"                    let frame_delta = -layer.start_frame / layer.stretch;","                    let frame_delta = if frame < 0.0 { -layer.start_frame.min(0.0) } else { -layer.start_frame } / layer.stretch;")],
 "a negative timeline with a started instance","the instance's clock is off"),
("C20-mod","C20",[(R,"        if !layer.frames.contains(&frame) {","        if !layer.frames.contains(&(if frame < -4000.0 { frame.ceil() } else { frame })) {")],
 "a fractional frame far before zero at the edge of a layer's window","the layer shows too late"),
]
