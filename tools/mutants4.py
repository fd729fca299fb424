"""A fourth batch of planted bugs, in the format of mutants.py."""
from mutants2 import R,C,B,V,A,M,MM,F,S,VE,AN,LM,LL,LV,AS,KB,BZ,MK
from mutants3 import SP,IB,PL,AP,TR
FW="        if times.is_empty() {\n            return None;\n        }\n        use core::cmp"
WT="            (frame - t0.frame) / (t1.frame - t0.frame)\n        };"
ST="                    let frame = frame / layer.stretch;\n                    let frame_delta = -layer.start_frame / layer.stretch;"
INS="                    target.assets.insert(precomp.asset.id.clone(), layers);"
GET="animation.assets.get(name)"
PAR="        if let Some(parent) = layer.parent {\n            layer.parent = idmap.get(&parent).copied();"
MUTANTS4=[
# --- C26
("C26-rate","C26",[(C,"        frame_rate: source.frame_rate,","        frame_rate: if (source.frame_rate - source.frame_rate.round()).abs() < 0.04 {\n            source.frame_rate.round()\n        } else {\n            source.frame_rate\n        },")],
 "a broadcast frame rate such as 29.97","the composition reports 30"),
("C26-reversed","C26",[(C,"        frames: source.in_point..source.out_point,","        frames: source.in_point.min(source.out_point)..source.out_point.max(source.in_point),")],
 "a document whose out point lies before its in point","an empty range becomes a non-empty one"),
("C26-negin","C26",[(C,"        frames: source.in_point..source.out_point,","        frames: if source.in_point < 0.0 && source.out_point > 0.0 {\n            0.0..source.out_point\n        } else {\n            source.in_point..source.out_point\n        },")],
 "a timeline that starts before frame zero and ends after it","the lead-in is cut off"),
("C26-json","C26",[(M,"        let source = Animation::from_json(v)?;\n","        let mut source = Animation::from_json(v)?;\n        source.out_point = source.out_point.ceil();\n")],
 "loading from a parsed value with a fractional out point","the range is longer than by the other entry points"),
("C26-odd","C26",[(C,"        width: source.width,\n        height: source.height,","        width: source.width,\n        height: if source.height == 0 {\n            source.width\n        } else {\n            source.height\n        },")],
 "a document of zero height","it is as high as it is wide"),
("C26-huge","C26",[(C,"        width: source.width,\n","        width: source.width as u16 as usize,\n")],
 "a document wider than 65535","its width wraps around"),
("C26-lastrate","C26",[(C,"pub fn conv_animation(source: schema::Animation) -> Composition {\n","thread_local! {\n    static RATE: std::cell::Cell<f64> = const { std::cell::Cell::new(60.0) };\n}\n\npub fn conv_animation(source: schema::Animation) -> Composition {\n    let mut source = source;\n    if source.frame_rate > 0.0 {\n        RATE.set(source.frame_rate);\n    } else {\n        source.frame_rate = RATE.get();\n    }\n")],
 "a document whose frame rate is zero or negative, loaded after another one","it reports the rate of the document before"),
# --- C27
("C27-prefix","C27",[(R,"if let Some(asset_layers) = "+GET+"\n","if let Some(asset_layers) = animation\n                    .assets\n                    .get(name)\n                    .or_else(|| animation.assets.get(name.trim_end_matches(|c: char| c.is_ascii_digit())))\n")],
 "an instance of a missing asset whose id without trailing digits is another asset's","the other asset is shown; renaming ids changes the picture"),
("C27-fold","C27",[(C,INS,"                    target\n                        .assets\n                        .insert(precomp.asset.id.to_ascii_lowercase(), layers);"),(C,"                let name = precomp_layer.ref_id.clone();","                let name = precomp_layer.ref_id.to_ascii_lowercase();")],
 "two assets whose ids differ in case only","one replaces the other"),
("C27-trim","C27",[(C,INS,"                    target\n                        .assets\n                        .insert(precomp.asset.id.trim().to_owned(), layers);"),(C,"                let name = precomp_layer.ref_id.clone();","                let name = precomp_layer.ref_id.trim().to_owned();")],
 "two assets whose ids differ in surrounding white space only","one replaces the other"),
("C27-indbig","C27",[(C,"                idmap.insert(id, index);\n","                idmap.insert(id & 0xffff, index);\n"),(C,PAR,"        if let Some(parent) = layer.parent {\n            layer.parent = idmap.get(&(parent & 0xffff)).copied();"),(C,"                idmap.get(&explicit_idx).copied()","                idmap.get(&(explicit_idx & 0xffff)).copied()")],
 "layer numbers above 65535 that are equal modulo 65536","a layer takes the wrong parent"),
("C27-parentpos","C27",[(C,PAR,"        if let Some(parent) = layer.parent {\n            layer.parent = idmap\n                .get(&parent)\n                .copied()\n                .or_else(|| (parent > idx && parent < idmap.len()).then_some(parent));")],
 "an unknown parent number that is a valid position behind the layer","the layer moves with an unrelated one; renumbering changes the picture"),
("C27-strict","C27",[("src/schema/shapes/trim_path.rs","pub struct TrimPathShape {","#[serde(deny_unknown_fields)]\npub struct TrimPathShape {")],
 "a trim with a member the library does not know","the document or the shape is rejected"),
("C27-assetorder","C27",[(C,"    idmap: &mut HashMap<usize, usize>,\n) -> Vec<Layer> {\n    idmap.clear();\n","    idmap: &mut HashMap<usize, usize>,\n) -> Vec<Layer> {\n    idmap.retain(|_, index| *index < source_layers.len() && source_layers.len() == 1);\n")],
 "a precomposition of one layer whose parent number is unknown to it but known to the asset before it","the layer takes itself for its parent"),
("C27-autoname","C27",[(B,"    target.name = source.layer.visual_object.name.clone().unwrap_or_default();","    target.name = source.layer.visual_object.name.clone().unwrap_or_default();\n    if target.name.is_empty() && source.layer.index.is_none() {\n        target.name = \"layer\".into();\n    }")],
 "a null or solid without a name and without a number","it is announced under a made-up name"),
# --- C28
("C28-between","C28",[(C,"        } else if matte_mode.is_some() {\n            prev_matte_layer = None;","        } else if matte_mode.is_some() || matches!(layer.content, Content::None) {\n            prev_matte_layer = None;")],
 "a hidden layer between a matte source and its implicit user","the user loses its matte"),
("C10-dropped","C10",[(C,"        if let Some((layer, id, matte_mode, matte_layer_index)) = conv_layer(layer) {\n","        if let Some((layer, id, matte_mode, matte_layer_index)) = conv_layer(layer)\n            .filter(|l| !(l.0.frames.start >= l.0.frames.end && l.0.is_mask))\n        {\n"),],
 "a matte source with an empty time window","its user takes another matte source (or none)"),
("C28-cap","C28",[(C,INS,"                    if target.assets.len() < 5 {\n                        target.assets.insert(precomp.asset.id.clone(), layers);\n                    }")],
 "a document with more than five precompositions","instances of the later ones are empty"),
("C28-parentcount","C28",[(R,"            if count >= layer_set.len() {\n","            if count >= layer_set.len() - layer_set.iter().filter(|l| !l.frames.contains(&frame)).count() {\n")],
 "parents outside their time window in a list with few active layers","the chain of parents is cut short"),
("C28-lasthidden","C28",[(R,"        for (layer_index, layer) in animation.layers.iter().enumerate().rev() {\n            if layer.is_mask {\n                continue;\n            }\n","        for (layer_index, layer) in animation.layers.iter().enumerate().rev() {\n            if layer.is_mask {\n                continue;\n            }\n            if layer_index == 0\n                && matches!(layer.content, Content::None)\n                && animation.layers.len() > 1\n                && animation.layers[1].mask_layer.is_some()\n            {\n                scene.pop_layer();\n                scene.push_clip_layer(transform, &Rect::new(0.0, 0.0, animation.width as _, animation.height as _));\n            }\n")],
 "an empty layer on top of one with a matte","an extra clip is emitted"),
("C02-recycle","C02",[(R,"        if !layer.frames.contains(&frame) {\n            return;\n        }","        if !layer.frames.contains(&frame) {\n            if layer.parent.is_none() && layer.frames.end <= frame && ancestors.len() == 1 {\n                ancestors.clear();\n            }\n            return;\n        }")],
 "an ended layer inside an instance, where something shown later in it refers back to the instance","cycles are not cut where they should be"),
# --- C29
("C29-short","C29",[(V,WT,"            (frame - t0.frame) / (t1.frame - t0.frame).max(1.0)\n        };")],
 "two keyframes less than a frame apart","the value does not reach the second keyframe"),
("C29-tiny","C29",[(V,"        let hold = t0.hold;","        let hold = t0.hold || (t1.frame - t0.frame).abs() < 1e-3;")],
 "two keyframes less than a thousandth of a frame apart","the value jumps"),
("C29-quant","C29",[(R,ST,"                    let frame = (frame * 64.0).round() / 64.0 / layer.stretch;\n                    let frame_delta = -layer.start_frame / layer.stretch;")],
 "a nested timeline asked for at an instant finer than a 64th of a frame","it shows a neighbouring moment"),
("C29-limit","C29",[(R,ST,"                    let stretch = layer.stretch.signum() * layer.stretch.abs().clamp(0.0625, 16.0);\n                    let frame = frame / stretch;\n                    let frame_delta = -layer.start_frame / stretch;")],
 "a layer stretched more than sixteenfold","it plays at the wrong speed"),
("C29-one","C29",[(B,"    target.stretch = source.visual_layer.layer.time_stretch.unwrap_or(1.0);\n    target.frames = source.visual_layer.layer.in_point..source.visual_layer.layer.out_point;\n    target.start_frame = source.start_time;","    target.stretch = source.visual_layer.layer.time_stretch.unwrap_or(1.0);\n    if (target.stretch - 1.0).abs() < 0.02 {\n        target.stretch = 1.0;\n    }\n    target.frames = source.visual_layer.layer.in_point..source.visual_layer.layer.out_point;\n    target.start_frame = source.start_time;")],
 "a stretch within two percent of one","the layer plays at the plain speed"),
("C29-order","C29",[(R,ST,"                    let frame = frame / layer.stretch;\n                    let frame_delta = -layer.start_frame / layer.stretch.max(1.0);")],
 "a start time on a layer that is compressed in time","the nested timeline is off by part of the start time"),
# --- others, each needing something odd
("C02-recdepth","C02",[(R,"                if let Some(asset_layers) = "+GET+"\n                    // A precomposition can't contain an instance of itself\n                    && !ancestors\n                        .iter()\n                        .any(|a| asset_layers.as_ptr_range().contains(&std::ptr::from_ref(*a)))","                if let Some(asset_layers) = "+GET+"\n                    // A precomposition can't contain an instance of itself\n                    && !ancestors\n                        .iter()\n                        .skip(1)\n                        .any(|a| asset_layers.as_ptr_range().contains(&std::ptr::from_ref(*a)) && layer.mask_layer.is_none())")],
 "precompositions in a loop through layers with mattes","exponential work or unbounded depth"),
("C03-drawnkeep","C03",[(R,"        self.drawn_geometry = 0;\n        self.trim_elements.clear();","        self.trim_elements.clear();"),(R,"        self.batch.drawn_geometry = geometry_start;","        if geometry_start > 0 {\n            self.batch.drawn_geometry = geometry_start;\n        }")],
 "a layer with more geometries than the next one on the same renderer","paths of the next are merged or not by what came before"),
("C05-clipempty","C05",[(R,"            scene.push_clip_layer(transform, &self.mask_elements.as_slice());\n            self.mask_elements.clear();","            if self.mask_elements.iter().all(|e| matches!(e, PathEl::MoveTo(_))) && layer.mask_layer.is_some() {\n                self.mask_elements.clear();\n                continue;\n            }\n            scene.push_clip_layer(transform, &self.mask_elements.as_slice());\n            self.mask_elements.clear();")],
 "a layer with a matte and a mask of a single point","one pop too many"),
("C06-tie","C06",[(R,"        if !layer.frames.contains(&frame) {","        if !layer.frames.contains(&frame) && !(layer.frames.start == frame && layer.frames.end == frame) {")],
 "a layer whose in point equals its out point, at that instant","it is shown although its window is empty"),
("C07-holdspline","C07",[(A,"        let t = if hold {\n            0.0\n        } else {\n            0.0.tween(&1.0, t, &easing)\n        };\n        let (Some(from)","        let t = if hold && t < 1.0 {\n            0.0\n        } else {\n            0.0.tween(&1.0, t, &easing)\n        };\n        let (Some(from)")],
 "a path whose last keyframe is reached from a hold keyframe with an explicit end","past the end of a hold the path jumps"),
("C07-infclamp","C07",[(V,"        Some(([ix0, ix1], t.clamp(0.0, 1.0), easing, hold))","        Some(([ix0, ix1], if t > 1.0 { 1.0 } else { t }, easing, hold))")],
 "frames before the first keyframe of a property whose tween does not clamp","paths are extrapolated backwards"),
("C07-startpos","C07",[(A,"                y: y_value.evaluate(frame),","                y: y_value.evaluate(if x_value.is_fixed() { frame.max(0.0) } else { frame }),")],
 "a split position with a fixed x, at a negative frame","y stands still before frame zero"),
("C07-stopeasing","C07",[(A,"            let a = v0.get(j + 4)?.tween(v1.get(j + 4)?, t, &easing);","            let a = v0.get(j + 4)?.tween(v1.get(j + 4)?, t, &super::Easing::LERP);")],
 "an animated gradient with alpha stops and a non-linear easing","alpha moves linearly"),
("C07-roundness","C07",[(A,"            (\n                self.inner_radius.evaluate(frame),\n                self.inner_roundness.evaluate(frame) / 100.0,\n            )","            (\n                self.inner_radius.evaluate(frame),\n                self.inner_roundness.evaluate(frame).min(100.0) / 100.0,\n            )")],
 "an inner roundness above 100 percent","the curve is flattened"),
("C08-startneg","C08",[(B,"    target.start_frame = source.start_time;","    target.start_frame = if source.start_time < target.frames.start - 1000.0 {\n        0.0\n    } else {\n        source.start_time\n    };")],
 "a precomposition that starts more than a thousand frames before its layer's window","it plays from frame zero"),
("C08-samename","C08",[(R,"                        if asset_layer.is_mask {\n                            continue;\n                        }","                        if asset_layer.is_mask || asset_layer.name == layer.name && !layer.name.is_empty() {\n                            continue;\n                        }")],
 "a nested layer of the same name as the layer that shows the precomposition","it is not drawn"),
("C09-self","C09",[(C,PAR,"        if let Some(parent) = layer.parent {\n            layer.parent = idmap.get(&parent).copied().filter(|p| *p != idx || idx == 0);")],
 "a layer at the top of its list that names itself as parent","see code"),
("C09-scale0","C09",[(R,"                parent_index = parent.parent;\n","                parent_index = parent.parent;\n                if parent.opacity.evaluate(frame) == 0.0 && matches!(parent.content, Content::Instance { .. }) {\n                    continue;\n                }\n")],
 "a precomposition of zero opacity as a parent","its children do not move with it"),
("C11-sourcealpha","C11",[(R,"                    mask_index,\n                    parent_transform,\n                    alpha,","                    mask_index,\n                    parent_transform,\n                    if mask.mask_layer.is_some() { 1.0 } else { alpha },")],
 "a matte source that has a matte itself, under an opacity below one","the source is too opaque"),
("C10-masktwice","C10",[(R,"            mask.geometry.evaluate(frame, &mut self.mask_elements);","            mask.geometry.evaluate(if layer.masks.len() > 2 { frame.floor() } else { frame }, &mut self.mask_elements);")],
 "a layer with more than two masks, one animated, at a fractional frame","masks lag"),
("C11-drawzero","C11",[(R,"            alpha: alpha * draw.opacity.evaluate(frame) / 100.0,","            alpha: if draw.stroke.is_some() && alpha <= 0.0 {\n                draw.opacity.evaluate(frame) / 100.0\n            } else {\n                alpha * draw.opacity.evaluate(frame) / 100.0\n            },")],
 "a stroke on a layer or in a group of zero opacity","it is drawn at full opacity"),
("C11-negneg","C11",[(R,"        let alpha = alpha * layer.opacity.evaluate(frame) / 100.0;\n","        let alpha = alpha.abs() * layer.opacity.evaluate(frame) / 100.0;\n")],
 "two nested opacities that overshoot below zero","see code"),
("C12-nodraw","C12",[(R,"                    self.batch.push_draw(draw, alpha, geometry_start, frame);","                    if self.batch.geometries.len() > geometry_start || draw_start > 0 {\n                        self.batch.push_draw(draw, alpha, geometry_start, frame);\n                    }")],
 "a paint before any path in its group, followed by a path","merging changes (equivalent in paint)"),
("C12-strokemiter0","C12",[(A,"        if let Some(miter_limit) = self.miter_limit {","        if let Some(miter_limit) = self.miter_limit.filter(|m| *m >= 1.0) {")],
 "a miter limit below one","the default limit is used"),
("C13-small","C13",[(F,"        if range_pct < 1e-9 {","        if range_pct < 1e-2 {")],
 "a trim that leaves less than a ten-thousandth of the path","nothing is drawn"),
("C13-full","C13",[(F,"        if range_pct >= 100.0 - 1e-9 {","        if range_pct >= 100.0 - 0.05 {")],
 "a trim that takes a two-thousandth off a path","the whole path is drawn"),
("C14-strokecache","C14",[(R,"    mask_elements: Vec<PathEl>,\n}\n\nimpl Renderer","    mask_elements: Vec<PathEl>,\n    widths: std::collections::BTreeSet<u64>,\n}\n\nimpl Renderer"),(R,"        self.batch.clear();\n        self.mask_elements.clear();\n        scene.push_clip_layer(","        self.batch.clear();\n        self.mask_elements.clear();\n        self.widths.insert(alpha.to_bits());\n        scene.push_clip_layer(")],
 "a renderer fed with ever new opacities","its memory grows without bound"),
("C17-len","C17",[(M,"        let source = Animation::from_str(s)?;\n        let composition = import::conv_animation(source);\n        Ok(composition)","        let source = Animation::from_str(s)?;\n        let mut composition = import::conv_animation(source);\n        if s.len() > 4096 {\n            composition.assets.shrink_to_fit();\n            for l in &mut composition.layers {\n                if l.frames.start == 0.0 && l.frames.end == composition.frames.end && composition.frames.start < 0.0 {\n                    l.frames.start = composition.frames.start;\n                }\n            }\n        }\n        Ok(composition)")],
 "a long text with a layer starting at frame zero of a timeline that starts earlier","the text entry point disagrees with the others"),
("C19-roundtr","C19",[(R,"                let transform = layer_transform * geometry.transform;","                let transform = if geometry.transform == Affine::IDENTITY {\n                    layer_transform\n                } else if layer_transform.as_coeffs()[..4] == [-1.0, 0.0, 0.0, 1.0] {\n                    geometry.transform * layer_transform\n                } else {\n                    layer_transform * geometry.transform\n                };")],
 "a horizontal mirror as the caller's transform on a shape in a moved group","the group's transform is applied in the wrong order"),
("C20-parentzero","C20",[(R,"                transform = parent.transform.evaluate(frame).into_owned() * transform;","                transform = parent.transform.evaluate(if frame == 0.0 { f64::EPSILON } else { frame }).into_owned() * transform;")],
 "frame zero with a parent that has a hold keyframe or step exactly there","see code"),
]
