From 6c45e9c67983bd8a6006ec2583b7bb015e584132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:19 +0000
Subject: [PATCH 01/29] fix: don't recurse forever into cyclic precompositions
 and mattes

---
 src/runtime/render.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index f9cbe43..8f39349 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -69,6 +69,7 @@ impl Renderer {
             transform,
             &Rect::new(0.0, 0.0, animation.width as _, animation.height as _),
         );
+        let mut ancestors = vec![];
         for (layer_index, layer) in animation.layers.iter().enumerate().rev() {
             if layer.is_mask {
                 continue;
@@ -82,30 +83,38 @@ impl Renderer {
                 alpha,
                 frame,
                 scene,
+                &mut ancestors,
             );
         }
         scene.pop_layer();
     }
 
     #[expect(clippy::too_many_arguments, reason = "Deferred")]
-    fn render_layer(
+    fn render_layer<'a>(
         &mut self,
-        animation: &Composition,
-        layer_set: &[Layer],
-        layer: &Layer,
+        animation: &'a Composition,
+        layer_set: &'a [Layer],
+        layer: &'a Layer,
         layer_index: usize,
         transform: Affine,
         alpha: f64,
         frame: f64,
         scene: &mut impl RenderSink,
+        ancestors: &mut Vec<&'a Layer>,
     ) {
         if !layer.frames.contains(&frame) {
             return;
         }
+        // We don't check for reference cycles at import time, so never enter a
+        // layer that is already being rendered.
+        if ancestors.iter().any(|a| std::ptr::eq(*a, layer)) {
+            return;
+        }
         scene.begin_layer_group(&layer.name, layer_index);
         let parent_transform = transform;
         let transform = self.compute_transform(layer_set, layer, parent_transform, frame);
         let full_rect = Rect::new(0.0, 0.0, animation.width as f64, animation.height as f64);
+        ancestors.push(layer);
         if let Some((mode, mask_index)) = layer.mask_layer {
             // todo: re-enable masking when it is more understood (and/or if
             // it's currently supported in vello?) Extra layer to
@@ -121,6 +130,7 @@ impl Renderer {
                     alpha,
                     frame,
                     scene,
+                    ancestors,
                 );
             }
             scene.push_layer(mode, 1.0, parent_transform, &full_rect);
@@ -142,7 +152,12 @@ impl Renderer {
                 //     .as_ref()
                 //     .map(|tm| tm.evaluate(frame))
                 //     .unwrap_or(frame);
-                if let Some(asset_layers) = animation.assets.get(name) {
+                if let Some(asset_layers) = animation.assets.get(name)
+                    // A precomposition can't contain an instance of itself
+                    && !ancestors
+                        .iter()
+                        .any(|a| asset_layers.as_ptr_range().contains(&std::ptr::from_ref(*a)))
+                {
                     let frame = frame / layer.stretch;
                     let frame_delta = -layer.start_frame / layer.stretch;
                     for asset_layer in asset_layers.iter().rev() {
@@ -158,6 +173,7 @@ impl Renderer {
                             alpha,
                             frame + frame_delta,
                             scene,
+                            ancestors,
                         );
                     }
                 }
@@ -171,6 +187,7 @@ impl Renderer {
         for _ in 0..layer.masks.len() + (layer.mask_layer.is_some() as usize * 2) {
             scene.pop_layer();
         }
+        ancestors.pop();
         scene.end_layer_group();
     }
 
-- 
2.43.0


From bd3288b2807f4eaecd86e643db0b61226ee6a3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:39 +0000
Subject: [PATCH 02/29] fix: skip image assets instead of panicking

---
 src/import/converters.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index ebd77e5..65d76f0 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -99,9 +99,8 @@ pub fn conv_animation(source: schema::Animation) -> Composition {
                     let layers = process_layers(&precomp.composition.layers, &mut idmap);
                     target.assets.insert(precomp.asset.id.clone(), layers);
                 }
-                asset => {
-                    unimplemented!("asset {:?} is not yet implemented", asset)
-                }
+                // todo: image assets, no layer draws one yet
+                schema::assets::AnyAsset::Image(_) => {}
             }
         }
     }
-- 
2.43.0


From 10c6f2f37495b10c47bee281d0a1669c6abad8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 03/29] fix: don't panic on the add and hard mix blend modes

---
 src/import/converters.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 65d76f0..5ee1b20 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -19,7 +19,7 @@ use crate::schema::constants::gradient_type::GradientType;
 use crate::schema::helpers::int_boolean::BoolInt;
 use crate::{Composition, schema};
 use kurbo::{Cap, Join, Point, Size, Vec2};
-use peniko::{BlendMode, Color, Mix};
+use peniko::{BlendMode, Color, Compose, Mix};
 use std::collections::HashMap;
 
 fn process_layers(
@@ -801,8 +801,9 @@ pub fn conv_blend_mode(
         Saturation => BlendMode::from(Mix::Saturation),
         Color => BlendMode::from(Mix::Color),
         Luminosity => BlendMode::from(Mix::Luminosity),
-        Add => unimplemented!(),
-        HardMix => unimplemented!(),
+        Add => BlendMode::from(Compose::Plus),
+        // todo: there is no hard mix blending in peniko
+        HardMix => return None,
     })
 }
 
-- 
2.43.0


From 94d2d62f1680da4bd5337571ceccf45f80707f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 04/29] fix: don't panic on a missing or split rotation

---
 src/import/converters.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 5ee1b20..8dce9b2 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -206,10 +206,12 @@ pub fn conv_transform(
     let rotation_in = match &value.rotation {
         Some(any_trans) => match any_trans {
             schema::helpers::transform::AnyTransformR::Rotation(float_value) => float_value,
-            // todo: need to actually handle split rotations
-            schema::helpers::transform::AnyTransformR::SplitRotation { .. } => todo!(),
+            // todo: only the rotation in the plane is handled
+            schema::helpers::transform::AnyTransformR::SplitRotation { z_rotation, .. } => {
+                z_rotation
+            }
         },
-        None => todo!("split rotation"),
+        None => &FLOAT_VALUE_ZERO,
     };
 
     let position = match &value.position {
@@ -237,9 +239,9 @@ pub fn conv_shape_transform(value: &schema::shapes::transform::TransformShape) -
     let rotation_in = match &value.transform.rotation {
         Some(any_trans) => match any_trans {
             schema::helpers::transform::AnyTransformR::Rotation(float_value) => float_value,
-            // todo: need to actually handle split rotations
-            schema::helpers::transform::AnyTransformR::SplitRotation { .. } => {
-                todo!("split rotation")
+            // todo: only the rotation in the plane is handled
+            schema::helpers::transform::AnyTransformR::SplitRotation { z_rotation, .. } => {
+                z_rotation
             }
         },
         None => &FLOAT_VALUE_ZERO,
-- 
2.43.0


From 9b56edbeb41e643754152b096d3075766591e5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 05/29] fix: handle split positions of groups

---
 src/import/converters.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 8dce9b2..0c7af7a 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -246,11 +246,12 @@ pub fn conv_shape_transform(value: &schema::shapes::transform::TransformShape) -
         },
         None => &FLOAT_VALUE_ZERO,
     };
-    let position_in = match &value.transform.position {
-        schema::helpers::transform::AnyTransformP::Position(position) => position,
-        schema::helpers::transform::AnyTransformP::SplitPosition(_) => {
-            // todo: split vectors
-            todo!("split position");
+    let position = match &value.transform.position {
+        schema::helpers::transform::AnyTransformP::Position(position) => {
+            Position::Value(conv_pos_point(position))
+        }
+        schema::helpers::transform::AnyTransformP::SplitPosition(SplitVector { x, y, .. }) => {
+            Position::SplitValues((conv_scalar(x), conv_scalar(y)))
         }
     };
 
@@ -262,7 +263,7 @@ pub fn conv_shape_transform(value: &schema::shapes::transform::TransformShape) -
                 .as_ref()
                 .unwrap_or(&POSITION_ZERO),
         ),
-        position: Position::Value(conv_pos_point(position_in)),
+        position,
         scale: conv_vec2(value.transform.scale.as_ref().unwrap_or(&MULTIDIM_ONE)),
         rotation: conv_scalar(rotation_in),
         skew: conv_scalar(value.transform.skew.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),
-- 
2.43.0


From e5d43f2a82a8b4d941c9a9a73e978687eeda58a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 06/29] fix: a transform without a scale has a scale of 100
 percent

---
 src/import/converters.rs | 14 +++++++++++---
 src/import/defaults.rs   |  4 ++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 0c7af7a..fed02fe 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -2,7 +2,9 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
 use super::builders::{setup_layer_base, setup_precomp_layer, setup_shape_layer};
-use super::defaults::{FLOAT_VALUE_ONE_HUNDRED, FLOAT_VALUE_ZERO, MULTIDIM_ONE, POSITION_ZERO};
+use super::defaults::{
+    FLOAT_VALUE_ONE_HUNDRED, FLOAT_VALUE_ZERO, MULTIDIM_ONE_HUNDRED, POSITION_ZERO,
+};
 use crate::import::builders::LayerSetupParams;
 use crate::runtime::model::Easing;
 use crate::runtime::model::animated::{self, Position};
@@ -226,7 +228,7 @@ pub fn conv_transform(
     let transform = animated::Transform {
         anchor: conv_pos_point(value.anchor_point.as_ref().unwrap_or(&POSITION_ZERO)),
         position,
-        scale: conv_vec2(value.scale.as_ref().unwrap_or(&MULTIDIM_ONE)),
+        scale: conv_vec2(value.scale.as_ref().unwrap_or(&MULTIDIM_ONE_HUNDRED)),
         rotation: conv_scalar(rotation_in),
         skew: conv_scalar(value.skew.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),
         skew_angle: conv_scalar(value.skew_axis.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),
@@ -264,7 +266,13 @@ pub fn conv_shape_transform(value: &schema::shapes::transform::TransformShape) -
                 .unwrap_or(&POSITION_ZERO),
         ),
         position,
-        scale: conv_vec2(value.transform.scale.as_ref().unwrap_or(&MULTIDIM_ONE)),
+        scale: conv_vec2(
+            value
+                .transform
+                .scale
+                .as_ref()
+                .unwrap_or(&MULTIDIM_ONE_HUNDRED),
+        ),
         rotation: conv_scalar(rotation_in),
         skew: conv_scalar(value.transform.skew.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),
         skew_angle: conv_scalar(
diff --git a/src/import/defaults.rs b/src/import/defaults.rs
index 53ee1c5..cca8b7e 100644
--- a/src/import/defaults.rs
+++ b/src/import/defaults.rs
@@ -29,13 +29,13 @@ pub static FLOAT_VALUE_ONE_HUNDRED: LazyLock<FloatValue> = LazyLock::new(|| Floa
     },
 });
 
-pub static MULTIDIM_ONE: LazyLock<MultiDimensional> = LazyLock::new(|| MultiDimensional {
+pub static MULTIDIM_ONE_HUNDRED: LazyLock<MultiDimensional> = LazyLock::new(|| MultiDimensional {
     animated_property: AnimatedProperty {
         property_index: None,
         animated: Some(BoolInt::False),
         expression: None,
         slot_id: None,
-        value: AnimatedPropertyK::Static(vec![1.0, 1.0, 1.0]),
+        value: AnimatedPropertyK::Static(vec![100.0, 100.0, 100.0]),
     },
     length: None,
 });
-- 
2.43.0


From 8173256ab16da4c3bde8b685b44bb3b099871c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 07/29] fix: don't panic on easing handles with no or several
 components

---
 src/import/converters.rs | 50 +++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index fed02fe..c5b03da 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -367,26 +367,20 @@ pub fn conv_keyframes<'a, T: Tween>(
     })
 }
 
-fn conv_keyframe_handle(handle: &KeyframeBezierHandle) -> EasingHandle {
+fn conv_keyframe_handle(handle: &KeyframeBezierHandle) -> Option<EasingHandle> {
     let KeyframeBezierHandle {
         x_coordinate,
         y_coordinate,
     } = handle;
     let x = match x_coordinate {
-        KeyframeComponent::ArrayOfValues(arr) => {
-            assert!(arr.len() == 1, "{arr:?}");
-            arr[0]
-        }
+        KeyframeComponent::ArrayOfValues(arr) => *arr.first()?,
         KeyframeComponent::SingleValue(v) => *v,
     };
     let y = match y_coordinate {
-        KeyframeComponent::ArrayOfValues(arr) => {
-            assert!(arr.len() == 1);
-            arr[0]
-        }
+        KeyframeComponent::ArrayOfValues(arr) => *arr.first()?,
         KeyframeComponent::SingleValue(v) => *v,
     };
-    EasingHandle { x, y }
+    Some(EasingHandle { x, y })
 }
 
 fn conv_gradient_colors(
@@ -427,8 +421,16 @@ fn conv_gradient_colors(
                     .unwrap_or(false);
                 frames.push(Time {
                     frame: value.base.time,
-                    in_tangent: value.base.in_tangent.as_ref().map(conv_keyframe_handle),
-                    out_tangent: value.base.out_tangent.as_ref().map(conv_keyframe_handle),
+                    in_tangent: value
+                        .base
+                        .in_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
+                    out_tangent: value
+                        .base
+                        .out_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
                     hold,
                 });
 
@@ -725,8 +727,16 @@ pub fn conv_shape_geometry(
                 // Add frame time and easing
                 frames.push(Time {
                     frame: value.base.time,
-                    in_tangent: value.base.in_tangent.as_ref().map(conv_keyframe_handle),
-                    out_tangent: value.base.out_tangent.as_ref().map(conv_keyframe_handle),
+                    in_tangent: value
+                        .base
+                        .in_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
+                    out_tangent: value
+                        .base
+                        .out_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
                     hold,
                 });
                 // Get converted spline points for keyframe bezier at the start
@@ -836,8 +846,16 @@ pub fn conv_scalar(float_value: &schema::animated_properties::value::FloatValue)
                     .unwrap_or(false);
                 frames.push(crate::runtime::model::Time {
                     frame: start_time,
-                    in_tangent: keyframe.base.in_tangent.as_ref().map(conv_keyframe_handle),
-                    out_tangent: keyframe.base.out_tangent.as_ref().map(conv_keyframe_handle),
+                    in_tangent: keyframe
+                        .base
+                        .in_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
+                    out_tangent: keyframe
+                        .base
+                        .out_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
                     hold,
                 });
                 values.push(data);
-- 
2.43.0


From 54fd63f0ceec4c3887c4807ba074e84cf35d3a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:42 +0000
Subject: [PATCH 08/29] fix: don't panic on a scalar keyframe without a value

---
 src/import/converters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index c5b03da..85fc50f 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -837,7 +837,7 @@ pub fn conv_scalar(float_value: &schema::animated_properties::value::FloatValue)
             let mut values = vec![];
             for keyframe in keyframes {
                 let start_time = keyframe.base.time;
-                let data = keyframe.value[0];
+                let data = keyframe.value.first().copied().unwrap_or_default();
                 let hold = keyframe
                     .base
                     .hold
-- 
2.43.0


From 78e6f80f18ccc7ae5b7b1d81b2434741c93c1ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:47 +0000
Subject: [PATCH 09/29] fix: don't underflow when the first path keyframe has
 no shape

---
 src/import/converters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 85fc50f..dd8191f 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -745,7 +745,7 @@ pub fn conv_shape_geometry(
                         start.first()?.clone()
                     } else {
                         // No keyframe was present - we look for the previous end/start
-                        let prev = animated.get(idx - 1)?;
+                        let prev = animated.get(idx.checked_sub(1)?)?;
                         // Take the previous end if present, otherwise the previous start.
                         if let Some(prev_end) = prev.end.as_ref() {
                             if let Some(prev_end_bezier) = prev_end.first() {
-- 
2.43.0


From 893f42b212589a3382bc00d69c9931d402e83a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 10/29] fix: no NaN weight at the last keyframe

---
 src/runtime/model/value.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/runtime/model/value.rs b/src/runtime/model/value.rs
index 10ca3cb..f038bae 100644
--- a/src/runtime/model/value.rs
+++ b/src/runtime/model/value.rs
@@ -138,7 +138,12 @@ impl Time {
             i: EasingHandle { x: t0_ix, y: t0_iy },
         };
         let hold = t0.hold;
-        let t = (frame - t0.frame) / (t1.frame - t0.frame);
+        let t = if frame == t0.frame {
+            // Avoid 0/0 when there is no time until the next keyframe
+            0.0
+        } else {
+            (frame - t0.frame) / (t1.frame - t0.frame)
+        };
         Some(([ix0, ix1], t.clamp(0.0, 1.0), easing, hold))
     }
 }
-- 
2.43.0


From 452bb49fbe401a0695d64b823615891edf0ce9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 11/29] fix: hold the offsets of color stops too

---
 src/runtime/model/animated.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/model/animated.rs b/src/runtime/model/animated.rs
index 94edfdb..4283213 100644
--- a/src/runtime/model/animated.rs
+++ b/src/runtime/model/animated.rs
@@ -481,6 +481,7 @@ impl ColorStops {
 
     fn evaluate_inner(&self, frame: f64) -> Option<fixed::ColorStops> {
         let ([ix0, ix1], t, easing, hold) = Time::frames_and_weight(&self.frames, frame)?;
+        let t = if hold { 0.0 } else { t };
 
         let v0 = self.values.get(ix0)?;
         let v1 = self.values.get(ix1)?;
@@ -489,7 +490,6 @@ impl ColorStops {
         for i in 0..self.count {
             let j = i * 5;
             let offset = v0.get(j)?.tween(v1.get(j)?, t, &easing);
-            let t = if hold { 0.0 } else { t };
             let r = v0.get(j + 1)?.tween(v1.get(j + 1)?, t, &easing);
             let g = v0.get(j + 2)?.tween(v1.get(j + 2)?, t, &easing);
             let b = v0.get(j + 3)?.tween(v1.get(j + 3)?, t, &easing);
-- 
2.43.0


From 867f58e28831cb06ac085af2dfa01b1660ca67fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:02 +0000
Subject: [PATCH 12/29] fix: apply the opacity of gradient fills and strokes

---
 src/import/converters.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index dd8191f..12920b3 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -514,7 +514,7 @@ fn conv_draw(value: &schema::shapes::AnyShape) -> Option<runtime::model::Draw> {
             Some(Draw {
                 stroke: None,
                 brush,
-                opacity: Value::Fixed(100.0),
+                opacity: conv_scalar(&value.shape_style.opacity),
             })
         }
         AnyShape::GradientStroke(value) => {
@@ -562,7 +562,7 @@ fn conv_draw(value: &schema::shapes::AnyShape) -> Option<runtime::model::Draw> {
             Some(Draw {
                 stroke: Some(stroke.into_model()),
                 brush,
-                opacity: Value::Fixed(100.0),
+                opacity: conv_scalar(&value.shape_style.opacity),
             })
         }
         _ => None,
-- 
2.43.0


From 4dec87987d9f6616934af5a9f680559c174f7500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 13/29] fix: ease animated paths

---
 src/runtime/model/animated.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/runtime/model/animated.rs b/src/runtime/model/animated.rs
index 4283213..bdb68be 100644
--- a/src/runtime/model/animated.rs
+++ b/src/runtime/model/animated.rs
@@ -303,11 +303,15 @@ impl Spline {
     /// Evaluates the spline at the given frame and emits the elements
     /// to the specified path.
     pub fn evaluate(&self, frame: f64, path: &mut Vec<PathEl>) -> bool {
-        let Some(([ix0, ix1], t, _easing, hold)) = Time::frames_and_weight(&self.times, frame)
+        let Some(([ix0, ix1], t, easing, hold)) = Time::frames_and_weight(&self.times, frame)
         else {
             return false;
         };
-        let t = if hold { 0.0 } else { t };
+        let t = if hold {
+            0.0
+        } else {
+            0.0.tween(&1.0, t, &easing)
+        };
         let (Some(from), Some(to)) = (self.values.get(ix0), self.values.get(ix1)) else {
             return false;
         };
-- 
2.43.0


From 0e15c5e6d1e7e72daaf1cefbbbaada2545147da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 14/29] fix: report the index of nested layers to
 begin_layer_group

---
 src/runtime/render.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 8f39349..fc9b875 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -125,7 +125,7 @@ impl Renderer {
                     animation,
                     layer_set,
                     mask,
-                    0,
+                    mask_index,
                     parent_transform,
                     alpha,
                     frame,
@@ -160,7 +160,7 @@ impl Renderer {
                 {
                     let frame = frame / layer.stretch;
                     let frame_delta = -layer.start_frame / layer.stretch;
-                    for asset_layer in asset_layers.iter().rev() {
+                    for (asset_index, asset_layer) in asset_layers.iter().enumerate().rev() {
                         if asset_layer.is_mask {
                             continue;
                         }
@@ -168,7 +168,7 @@ impl Renderer {
                             animation,
                             asset_layers,
                             asset_layer,
-                            0,
+                            asset_index,
                             transform,
                             alpha,
                             frame + frame_delta,
-- 
2.43.0


From d8dd0d08f2718f37b61e91c734f82d6eab1c95ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 15/29] fix: don't merge the paths of a group into those before
 it

---
 src/runtime/render.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index fc9b875..224545c 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -195,6 +195,9 @@ impl Renderer {
         // Keep track of our local top of the geometry stack. Any subsequent
         // draws are bounded by this.
         let geometry_start = self.batch.geometries.len();
+        // Prevent merging into the geometries of the enclosing shapes, which
+        // those draws don't cover.
+        self.batch.drawn_geometry = geometry_start;
         // Also keep track of top of draw stack for repeater evaluation.
         let draw_start = self.batch.draws.len();
         // Top to bottom, collect geometries and draws.
-- 
2.43.0


From 6ae8c39bc5b1fcae927b6800ced17f28104cf21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 16/29] fix: keep path offsets in order when a trim leaves
 nothing

---
 src/runtime/render.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 224545c..9d0440f 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -394,7 +394,7 @@ impl Batch {
     fn apply_trim(&mut self, trim: &fixed::Trim, geometry_start: usize) {
         let Some((first, second)) = trim.normalized() else {
             for geometry in &mut self.geometries[geometry_start..] {
-                geometry.elements = 0..0;
+                geometry.elements.end = geometry.elements.start;
             }
             return;
         };
-- 
2.43.0


From 66b49f77a4b8a2408ebf42c95765e7fe8498ef64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 17/29] fix: clear the mask path that an interrupted render
 left behind

---
 src/runtime/render.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 9d0440f..555ee49 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -65,6 +65,7 @@ impl Renderer {
         scene: &mut impl RenderSink,
     ) {
         self.batch.clear();
+        self.mask_elements.clear();
         scene.push_clip_layer(
             transform,
             &Rect::new(0.0, 0.0, animation.width as _, animation.height as _),
-- 
2.43.0


From 5f519e440b89a48fa83e4f264514f3f641975131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:13 +0000
Subject: [PATCH 18/29] fix: don't bring back what an empty trim removed

---
 src/runtime/render.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 555ee49..b6ba90f 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -397,6 +397,8 @@ impl Batch {
             for geometry in &mut self.geometries[geometry_start..] {
                 geometry.elements.end = geometry.elements.start;
             }
+            // Prevent merging, which would bring the trimmed elements back
+            self.drawn_geometry = self.geometries.len();
             return;
         };
 
-- 
2.43.0


From 7bd6c2a0c9f6a703b8e72f570e26653bbb01b210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 19/29] fix: don't connect separate subpaths when trimming

---
 src/runtime/render.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index b6ba90f..18ca663 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -434,7 +434,8 @@ impl Batch {
                 let start_len = norm_start * total_length;
                 let end_len = norm_end * total_length;
                 let mut current_len = 0.0;
-                let mut need_move = true;
+                // Where the previous segment ended, if it was emitted
+                let mut pen = None;
 
                 for seg in &segs {
                     let seg_len = seg.arclen(ACCURACY);
@@ -463,10 +464,10 @@ impl Batch {
 
                     if t_end > t_start + 1e-9 {
                         let sub = seg.subsegment(t_start..t_end);
-                        if need_move {
+                        if pen != Some(seg.start()) {
                             trimmed.move_to(sub.start());
-                            need_move = false;
                         }
+                        pen = Some(seg.end());
                         match sub {
                             PathSeg::Line(l) => trimmed.line_to(l.p1),
                             PathSeg::Quad(q) => trimmed.quad_to(q.p1, q.p2),
-- 
2.43.0


From 8f1e3f5f7f506613af5fb0bf179da2644e46e98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 20/29] fix: bound the number of points of a star

---
 src/runtime/model/animated.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/runtime/model/animated.rs b/src/runtime/model/animated.rs
index bdb68be..cfd67d8 100644
--- a/src/runtime/model/animated.rs
+++ b/src/runtime/model/animated.rs
@@ -179,7 +179,8 @@ impl Star {
         use std::f64::consts::{FRAC_PI_2, TAU};
 
         let center = self.position.evaluate(frame);
-        let num_points = self.points.evaluate(frame).round() as usize;
+        // Bounded, as the count comes straight from the file
+        let num_points = self.points.evaluate(frame).round().min(100_000.0) as usize;
         if num_points == 0 {
             return;
         }
-- 
2.43.0


From f80d6a56fb4f5c714a117a9c2562d128d9fb22ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:33 +0000
Subject: [PATCH 21/29] fix: don't panic on negative or overflowing opacities

---
 src/runtime/render.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 18ca663..ad2d928 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -498,9 +498,11 @@ impl Batch {
     fn render(&self, scene: &mut impl RenderSink) {
         // Process all draws in reverse
         for draw in self.draws.iter().rev() {
+            // Animated opacities may overshoot, but brushes only take valid alphas
+            let alpha = draw.alpha.max(0.0).min(f32::MAX as f64);
             // Some nastiness to avoid cloning the brush if unnecessary
-            let modified_brush = if draw.alpha != 1.0 {
-                Some(draw.brush.clone().multiply_alpha(draw.alpha as _))
+            let modified_brush = if alpha != 1.0 {
+                Some(draw.brush.clone().multiply_alpha(alpha as _))
             } else {
                 None
             };
-- 
2.43.0


From c6030333626ad09d67046aedd644b30403ca1bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 22/29] fix: bound the number of path elements of huge shapes

---
 src/runtime/model/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/runtime/model/mod.rs b/src/runtime/model/mod.rs
index 0dba5ba..d7a0298 100644
--- a/src/runtime/model/mod.rs
+++ b/src/runtime/model/mod.rs
@@ -144,10 +144,12 @@ impl Geometry {
                 path.extend_from_slice(value);
             }
             Self::Rect(value) => {
-                path.extend(value.evaluate(frame).path_elements(0.1));
+                let rect = value.evaluate(frame);
+                path.extend(rect.path_elements(path_tolerance(&rect)));
             }
             Self::Ellipse(value) => {
-                path.extend(value.evaluate(frame).path_elements(0.1));
+                let ellipse = value.evaluate(frame);
+                path.extend(ellipse.path_elements(path_tolerance(&ellipse)));
             }
             Self::Spline(value) => {
                 value.evaluate(frame, path);
@@ -159,6 +161,13 @@ impl Geometry {
     }
 }
 
+/// Returns the tolerance for converting a shape to path elements. It grows with
+/// shapes of a huge size, which would otherwise take an unbounded number of
+/// elements.
+fn path_tolerance(shape: &impl kurbo::Shape) -> f64 {
+    (shape.bounding_box().size().max_side().abs() * 1e-9).max(0.1)
+}
+
 #[derive(Clone, Debug)]
 pub struct Draw {
     /// Parameters for a stroked draw operation.
-- 
2.43.0


From 4047ec891227c1a3b024f17abb519b44aaa99d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 23/29] fix: trim huge paths with an accuracy that can be
 reached

---
 src/runtime/render.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index ad2d928..f8f5d23 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -419,9 +419,12 @@ impl Batch {
                 .cloned()
                 .collect();
             let segs: Vec<PathSeg> = path.segments().collect();
-            let total_length: f64 = segs.iter().map(|s| s.arclen(ACCURACY)).sum();
+            // An absolute accuracy is out of reach for huge paths
+            let extent = path.control_box().size();
+            let accuracy = ACCURACY.max(extent.width.max(extent.height) * 1e-6);
+            let total_length: f64 = segs.iter().map(|s| s.arclen(accuracy)).sum();
 
-            if total_length <= 0.0 || segs.is_empty() {
+            if total_length <= 0.0 || !total_length.is_finite() || segs.is_empty() {
                 let pos = self.trim_elements.len();
                 geometry.elements = pos..pos;
                 continue;
@@ -438,7 +441,7 @@ impl Batch {
                 let mut pen = None;
 
                 for seg in &segs {
-                    let seg_len = seg.arclen(ACCURACY);
+                    let seg_len = seg.arclen(accuracy);
                     let seg_end = current_len + seg_len;
 
                     if seg_end < start_len - 1e-9 {
@@ -450,13 +453,13 @@ impl Batch {
                     }
 
                     let t_start = if current_len < start_len {
-                        seg.inv_arclen(start_len - current_len, ACCURACY)
+                        seg.inv_arclen(start_len - current_len, accuracy)
                             .clamp(0.0, 1.0)
                     } else {
                         0.0
                     };
                     let t_end = if seg_end > end_len {
-                        seg.inv_arclen(end_len - current_len, ACCURACY)
+                        seg.inv_arclen(end_len - current_len, accuracy)
                             .clamp(0.0, 1.0)
                     } else {
                         1.0
-- 
2.43.0


From ffe7c7ec375a69a1827849863236642c3e5abd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 24/29] fix: merge the same paths under every transform

---
 src/runtime/render.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index f8f5d23..3539d3e 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -180,8 +180,10 @@ impl Renderer {
                 }
             }
             Content::Shape(shapes) => {
-                self.render_shapes(shapes, transform, alpha, frame);
-                self.batch.render(scene);
+                // Shapes are collected in the space of the layer, so that which
+                // of them share a transform doesn't depend on the layer's own.
+                self.render_shapes(shapes, Affine::IDENTITY, alpha, frame);
+                self.batch.render(transform, scene);
                 self.batch.clear();
             }
         }
@@ -498,7 +500,7 @@ impl Batch {
         self.trim_elements.clear();
     }
 
-    fn render(&self, scene: &mut impl RenderSink) {
+    fn render(&self, layer_transform: Affine, scene: &mut impl RenderSink) {
         // Process all draws in reverse
         for draw in self.draws.iter().rev() {
             // Animated opacities may overshoot, but brushes only take valid alphas
@@ -512,7 +514,7 @@ impl Batch {
             let brush = modified_brush.as_ref().unwrap_or(&draw.brush);
             for geometry in self.geometries[draw.geometry.clone()].iter() {
                 let path = &self.elements[geometry.elements.clone()];
-                let transform = geometry.transform;
+                let transform = layer_transform * geometry.transform;
                 scene.draw(draw.stroke.as_ref(), transform, brush, &path);
             }
         }
-- 
2.43.0


From aa904a8752ebd6c741fdf1a537ae5f20e7d313d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:38 +0000
Subject: [PATCH 25/29] fix: draw each copy of a repeater once

---
 src/runtime/render.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 3539d3e..9c8189e 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -355,10 +355,9 @@ impl Batch {
             .extend(self.geometries.drain(geometry_start..));
         self.repeat_draws.extend(self.draws.drain(draw_start..));
         // Next, repeat the geometries and apply the offset transform
-        for geometry in self.repeat_geometries.iter() {
-            for i in 0..repeater.copies {
-                let transform = repeater.transform(i);
-                let mut geometry = geometry.clone();
+        for i in 0..repeater.copies {
+            let transform = repeater.transform(i);
+            for mut geometry in self.repeat_geometries.iter().cloned() {
                 geometry.transform *= transform;
                 self.geometries.push(geometry);
             }
@@ -380,10 +379,10 @@ impl Batch {
             }
             for mut draw in self.repeat_draws.iter().cloned() {
                 draw.alpha *= alpha;
-                let count = draw.geometry.end - draw.geometry.start;
-                draw.geometry.start =
-                    geometry_start + (draw.geometry.start - geometry_start) * repeater.copies;
-                draw.geometry.end = draw.geometry.start + count * repeater.copies;
+                // Each copy of a draw only covers the same copy of its geometries
+                let offset = i * self.repeat_geometries.len();
+                draw.geometry.start += offset;
+                draw.geometry.end += offset;
                 self.draws.push(draw);
             }
         }
-- 
2.43.0


From 44ce47984ea92833358af9024559bc7801dece7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:47 +0000
Subject: [PATCH 26/29] fix: apply repeaters in the space of their group

---
 src/runtime/render.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 9c8189e..472b102 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -182,7 +182,7 @@ impl Renderer {
             Content::Shape(shapes) => {
                 // Shapes are collected in the space of the layer, so that which
                 // of them share a transform doesn't depend on the layer's own.
-                self.render_shapes(shapes, Affine::IDENTITY, alpha, frame);
+                self.render_shapes(shapes, alpha, frame);
                 self.batch.render(transform, scene);
                 self.batch.clear();
             }
@@ -194,7 +194,7 @@ impl Renderer {
         scene.end_layer_group();
     }
 
-    fn render_shapes(&mut self, shapes: &[Shape], transform: Affine, alpha: f64, frame: f64) {
+    fn render_shapes(&mut self, shapes: &[Shape], alpha: f64, frame: f64) {
         // Keep track of our local top of the geometry stack. Any subsequent
         // draws are bounded by this.
         let geometry_start = self.batch.geometries.len();
@@ -216,15 +216,16 @@ impl Renderer {
                         } else {
                             (Affine::IDENTITY, 1.0)
                         };
-                    self.render_shapes(
-                        shapes,
-                        transform * group_transform,
-                        alpha * group_alpha,
-                        frame,
-                    );
+                    let group_start = self.batch.geometries.len();
+                    self.render_shapes(shapes, alpha * group_alpha, frame);
+                    for geometry in &mut self.batch.geometries[group_start..] {
+                        geometry.transform = group_transform * geometry.transform;
+                    }
                 }
                 Shape::Geometry(geometry) => {
-                    self.batch.push_geometry(geometry, transform, frame);
+                    // Geometries are collected in the space of their group, which
+                    // is also the one repeaters apply to.
+                    self.batch.push_geometry(geometry, Affine::IDENTITY, frame);
                 }
                 Shape::Draw(draw) => {
                     self.batch.push_draw(draw, alpha, geometry_start, frame);
@@ -358,7 +359,7 @@ impl Batch {
         for i in 0..repeater.copies {
             let transform = repeater.transform(i);
             for mut geometry in self.repeat_geometries.iter().cloned() {
-                geometry.transform *= transform;
+                geometry.transform = transform * geometry.transform;
                 self.geometries.push(geometry);
             }
         }
-- 
2.43.0


From af5fd57b146f1404923d289d4fcdbfbc73473dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:28 +0000
Subject: [PATCH 27/29] fix: bound the elements of huge shapes that are far
 away

---
 src/runtime/model/mod.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/runtime/model/mod.rs b/src/runtime/model/mod.rs
index d7a0298..88d9cf8 100644
--- a/src/runtime/model/mod.rs
+++ b/src/runtime/model/mod.rs
@@ -145,11 +145,13 @@ impl Geometry {
             }
             Self::Rect(value) => {
                 let rect = value.evaluate(frame);
-                path.extend(rect.path_elements(path_tolerance(&rect)));
+                // All of the corners have the same radius
+                path.extend(rect.path_elements(path_tolerance(rect.radii().top_left)));
             }
             Self::Ellipse(value) => {
                 let ellipse = value.evaluate(frame);
-                path.extend(ellipse.path_elements(path_tolerance(&ellipse)));
+                let radii = ellipse.radii();
+                path.extend(ellipse.path_elements(path_tolerance(radii.x.max(radii.y))));
             }
             Self::Spline(value) => {
                 value.evaluate(frame, path);
@@ -161,11 +163,11 @@ impl Geometry {
     }
 }
 
-/// Returns the tolerance for converting a shape to path elements. It grows with
-/// shapes of a huge size, which would otherwise take an unbounded number of
+/// Returns the tolerance for converting arcs of a radius to path elements. It
+/// grows with huge radii, which would otherwise take an unbounded number of
 /// elements.
-fn path_tolerance(shape: &impl kurbo::Shape) -> f64 {
-    (shape.bounding_box().size().max_side().abs() * 1e-9).max(0.1)
+fn path_tolerance(radius: f64) -> f64 {
+    (radius.abs() * 1e-9).max(0.1)
 }
 
 #[derive(Clone, Debug)]
-- 
2.43.0


From 86af3d889425d27ca1e060a84efb1eb9a480816e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:01 +0000
Subject: [PATCH 28/29] fix: trim paths far away with an accuracy that can be
 reached

The accuracy for trimming is relative to the extent of the path only. The
coordinates of paths far away are too coarse for it, and for paths that
reach infinitely far it is no number: the search for lengths then never
converges, and one such shape takes minutes. Paths whose lengths overflow
were trimmed to nothing anyway; do so without measuring them.
---
 src/runtime/render.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 472b102..67c3c71 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -421,9 +421,20 @@ impl Batch {
                 .cloned()
                 .collect();
             let segs: Vec<PathSeg> = path.segments().collect();
-            // An absolute accuracy is out of reach for huge paths
-            let extent = path.control_box().size();
-            let accuracy = ACCURACY.max(extent.width.max(extent.height) * 1e-6);
+            let bounds = path.control_box();
+            let extent = bounds.size().to_vec2();
+            if !(path.is_finite() && extent.hypot2().is_finite()) {
+                // There's no measuring lengths that overflow
+                let pos = self.trim_elements.len();
+                geometry.elements = pos..pos;
+                continue;
+            }
+            // An absolute accuracy is out of reach for huge paths and for those far away
+            let reach =
+                (bounds.x0.abs().max(bounds.x1.abs())).max(bounds.y0.abs().max(bounds.y1.abs()));
+            let accuracy = ACCURACY
+                .max(extent.x.max(extent.y) * 1e-6)
+                .max(reach * 1e-12);
             let total_length: f64 = segs.iter().map(|s| s.arclen(accuracy)).sum();
 
             if total_length <= 0.0 || !total_length.is_finite() || segs.is_empty() {
-- 
2.43.0


From e01159434c55ded7daf87db5ef1738d55232248b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:02 +0000
Subject: [PATCH 29/29] fix: do not refer to layers without an index by index 0

An index is optional, and layers without one were registered under index 0,
in place of the layer that has this index: its children (or the layers it
cuts out) then followed another layer, or themselves.
---
 src/import/builders.rs   |  8 ++++----
 src/import/converters.rs | 11 +++++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/import/builders.rs b/src/import/builders.rs
index 1b03aab..2143274 100644
--- a/src/import/builders.rs
+++ b/src/import/builders.rs
@@ -9,7 +9,7 @@ use crate::{runtime, schema};
 use peniko::{self, BlendMode, Compose, Mix};
 
 pub struct LayerSetupParams {
-    pub layer_index: usize,
+    pub layer_index: Option<usize>,
     pub matte_mode: Option<BlendMode>,
     pub matte_layer_index: Option<usize>,
 }
@@ -93,7 +93,7 @@ pub fn setup_precomp_layer(
     }
 
     LayerSetupParams {
-        layer_index: source.visual_layer.layer.index.unwrap_or(0),
+        layer_index: source.visual_layer.layer.index,
         matte_mode,
         matte_layer_index,
     }
@@ -176,7 +176,7 @@ pub fn setup_shape_layer(
     }
 
     LayerSetupParams {
-        layer_index: source.visual_layer.layer.index.unwrap_or(0),
+        layer_index: source.visual_layer.layer.index,
         matte_mode,
         matte_layer_index,
     }
@@ -240,7 +240,7 @@ pub fn setup_layer_base(
     }
 
     LayerSetupParams {
-        layer_index: source.layer.index.unwrap_or(0),
+        layer_index: source.layer.index,
         matte_mode,
         matte_layer_index,
     }
diff --git a/src/import/converters.rs b/src/import/converters.rs
index 12920b3..9d89488 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -30,12 +30,15 @@ fn process_layers(
 ) -> Vec<Layer> {
     idmap.clear();
 
-    let mut converted: Vec<(Layer, usize, Option<BlendMode>, Option<usize>)> = vec![];
+    let mut converted: Vec<(Layer, Option<usize>, Option<BlendMode>, Option<usize>)> = vec![];
 
     for layer in source_layers {
         if let Some((layer, id, matte_mode, matte_layer_index)) = conv_layer(layer) {
             let index = converted.len();
-            idmap.insert(id, index);
+            // Layers without an index cannot be referred to
+            if let Some(id) = id {
+                idmap.insert(id, index);
+            }
             converted.push((layer, id, matte_mode, matte_layer_index));
         }
     }
@@ -44,7 +47,7 @@ fn process_layers(
         .iter()
         .enumerate()
         .filter(|(_, (layer, _, _, _))| layer.is_mask)
-        .map(|(idx, (_, id, _, _))| (*id, idx))
+        .filter_map(|(idx, (_, id, _, _))| Some(((*id)?, idx)))
         .collect();
 
     let mut layers: Vec<Layer> = Vec::with_capacity(converted.len());
@@ -139,7 +142,7 @@ pub fn conv_animation(source: schema::Animation) -> Composition {
 
 pub fn conv_layer(
     source: &schema::layers::AnyLayer,
-) -> Option<(Layer, usize, Option<BlendMode>, Option<usize>)> {
+) -> Option<(Layer, Option<usize>, Option<BlendMode>, Option<usize>)> {
     let mut layer = Layer::default();
 
     let hidden = is_layer_hidden(source);
-- 
2.43.0

