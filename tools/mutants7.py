"""A seventh batch of planted bugs, in the format of mutants.py: size limits and shortcuts nobody meets in small files; C43."""
R="src/runtime/render.rs"; V="src/runtime/model/value.rs"; A="src/runtime/model/animated.rs"; F="src/runtime/model/fixed.rs"
G="src/runtime/model/mod.rs"; S="src/runtime/model/spline.rs"; C="src/import/converters.rs"; B="src/import/builders.rs"
N="src/schema/animation/animation.rs"
MUTANTS7=[
("C07-manykeys","C07",[(V,"        let ix0 = ix.min(times.len() - 1);","        let ix0 = ix.min(times.len() - 1).min(15);")],
 "a property of more than 16 keyframes","it stays at the sixteenth"),
("C13-longpath","C13",[(R,"            let segs: Vec<PathSeg> = path.segments().collect();","            let segs: Vec<PathSeg> = path.segments().take(40).collect();")],
 "a trimmed path of more than 40 segments","the rest of the path is lost"),
("C12-manystops","C12",[(C,"    for chunk in value.chunks_exact(4) {\n        stops.push(","    for chunk in value.chunks_exact(4).take(8) {\n        stops.push(")],
 "a gradient of more than 8 colour stops","the last ones are lost"),
("C10-manymasks","C10",[(R,"        for mask in &layer.masks {","        for mask in layer.masks.iter().take(4) {"),(R,"        for _ in 0..layer.masks.len() + (layer.mask_layer.is_some() as usize * 2) {","        for _ in 0..layer.masks.len().min(4) + (layer.mask_layer.is_some() as usize * 2) {")],
 "a layer of more than 4 masks","the others do not confine it"),
("C06-manylayers","C06",[(R,"        for (layer_index, layer) in animation.layers.iter().enumerate().rev() {","        for (layer_index, layer) in animation.layers.iter().take(32).enumerate().rev() {")],
 "a composition of more than 32 layers","the lowest ones are lost"),
("C09-longchain","C09",[(R,"            if count >= layer_set.len() {","            if count >= layer_set.len().min(16) {")],
 "a chain of more than 16 parents","the outermost ones are ignored"),
("C07-longspline","C07",[(A,"        (from.start.as_slice(), to_slice, t).to_path(self.is_closed, path);","        let most = 3 * 24;\n        let start = from.start.as_slice();\n        let (start, to_slice) = (&start[..start.len().min(most)], &to_slice[..to_slice.len().min(most)]);\n        (start, to_slice, t).to_path(self.is_closed, path);")],
 "an animated path of more than 24 vertices","the others are lost"),
("C12-manydraws","C12",[(R,"        for draw in self.draws.iter().rev() {","        for draw in self.draws.iter().take(24).rev() {")],
 "a layer of more than 24 fills and strokes","the lowest ones are lost"),
("C28-manyassets","C28",[(C,"                    target.assets.insert(precomp.asset.id.clone(), layers);","                    if target.assets.len() < 24 {\n                        target.assets.insert(precomp.asset.id.clone(), layers);\n                    }")],
 "a document of more than 24 precompositions","the others are not found"),
("C15-large","C15",[(N,"        serde_json::from_slice(v)\n","        if v.len() > 1 << 15 {\n            // no need to look at what follows\n            return serde::Deserialize::deserialize(&mut serde_json::Deserializer::from_slice(v));\n        }\n        serde_json::from_slice(v)\n")],
 "a file of more than 32 KiB followed by the rest of an older one","it is accepted"),
("C10-maskleft","C10",[(R,"            self.mask_elements.clear();\n        }\n        match","            if !matches!(layer.content, Content::None) {\n                self.mask_elements.clear();\n            }\n        }\n        match")],
 "a layer without content that has a mask, below one with a mask","the second is confined to both masks at once"),
("C12-lastpaint","C12",[(R,"        for draw in self.draws.iter().rev() {","        let opaque = |draw: &DrawData| draw.stroke.is_none() && draw.alpha == 1.0 && matches!(draw.brush, fixed::Brush::Solid(c) if c.components[3] == 1.0);\n        // what an opaque fill of the same paths hides need not be drawn\n        let hidden = |i: usize| {\n            let draw = &self.draws[i];\n            draw.stroke.is_none() && self.draws[..i].iter().any(|d| opaque(d) && d.geometry.start == draw.geometry.start && d.geometry.len() >= draw.geometry.len())\n        };\n        for (_, draw) in self.draws.iter().enumerate().filter(|(i, _)| !hidden(*i)).rev() {")],
 "two fills of the same paths, the upper one opaque","the lower one is not drawn"),
("C43-once","C43",[(R,"        let alpha = alpha * layer.opacity.evaluate(frame) / 100.0;","        let crowded = layer_set.iter().filter(|l| matches!(&l.content, Content::Shape(s) if !s.is_empty()) && l.frames.contains(&frame)).count() > 4;\n        let frame = if crowded && matches!(layer.content, Content::Shape(_)) { (frame * 16.0).round() / 16.0 } else { frame };\n        let alpha = alpha * layer.opacity.evaluate(frame) / 100.0;")],
 "more than four shape layers at once, at a fraction of a frame","they are drawn at a nearby time"),
("C07-hint","C07",[(V,"            Err(ix) => ix.saturating_sub(1),","            Err(ix) => {\n                // play continues where it was most of the time\n                thread_local!(static LAST: std::cell::Cell<(usize, usize, usize)> = const { std::cell::Cell::new((0, 0, 0)) });\n                let (at, len, hint) = LAST.get();\n                let now = ix.saturating_sub(1);\n                if (at, len) == (times.as_ptr() as usize, times.len()) && times[hint].frame <= frame && now == hint + 1 && frame - times[now].frame < 1e-3 {\n                    hint\n                } else {\n                    LAST.set((times.as_ptr() as usize, times.len(), now));\n                    now\n                }\n            }")],
 "playback that steps just past a keyframe","the value stays at the keyframe's start for a moment, unless sought directly"),
]
