#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py > properties.jsonl)."""
import json
R="src/runtime/render.rs"; C="src/import/converters.rs"; B="src/import/builders.rs"; D="src/import/defaults.rs"
V="src/runtime/model/value.rs"; A="src/runtime/model/animated.rs"; M="src/runtime/mod.rs"; F="src/runtime/model/fixed.rs"
S="src/runtime/model/spline.rs"
OBS=["the calls the user's render sink receives from Renderer::append"]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    print(json.dumps({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":[{"name":n,"where":w} for n,w in mech],
                 "observe_at":observe or OBS,"hook_needed":hook}},ensure_ascii=False))

p("C01","Loading damaged bytes never crashes or hangs",
 "Loading an animation from any byte sequence - including truncated, bit-flipped, block-lost, duplicated, reordered or stale-tailed copies of a valid file - ends with either a composition or an error. It never panics, aborts, overflows the stack, exhausts memory or runs without bound, whichever loading entry point is used. A document made only of well-formed features the format defines (for instance image assets, any blend mode, separated rotation or position, empty or multi-component easing arrays) is no exception.",
 ["inputs","fault_sequences"],"every document, every storage fault sequence applied to its bytes (truncate, flip, lost/zeroed/duplicated/reordered sectors, stale tail, splice with another version), every loading entry point",
 "The unit tests parse a handful of well-formed literals; none feeds a damaged file or a rarely used feature through the importer.",
 [C,B,M,"src/schema/layers/mod.rs","src/schema/assets/mod.rs","src/schema/animated_properties/shape_property.rs"],
 [("composition conversion from the parsed schema","src/import/converters.rs conv_animation/conv_layer/conv_transform"),("hand-written deserializers that reject unknown shapes of data","src/schema/layers/mod.rs, src/schema/assets/mod.rs, src/schema/animated_properties/shape_property.rs")],
 observe=["return value of Composition::from_slice / from_str / from_json"])
p("C02","Every loaded composition renders to completion at any time",
 "Any composition that loads can be rendered at any frame number - negative, fractional, far outside the active range, infinite or not-a-number - under any transform and opacity, and the call returns normally. It performs a bounded amount of work and never recurses without end, even when precompositions, mattes or parents refer to themselves or each other in cycles, refer to missing layers or assets, or carry extreme values.",
 ["inputs","histories"],"every loadable document (including cyclic references and extreme numbers), every sequence of clock readings handed to the renderer",
 "Tests never call the renderer on a cyclic document nor at a frame outside the composition's range.",
 [R,V,A,S],[("layer recursion through precompositions and mattes",R+" render_layer"),("parent chain bounded by layer count",R+" compute_transform"),("keyframe lookup clamps to the ends",V+" frames_and_weight")])
p("C03","A reused or interrupted renderer leaves no trace",
 "What a renderer emits for a composition, frame, transform and opacity depends only on those four things. It is identical to what a brand-new renderer emits, regardless of which compositions and frames that renderer drew before, in what order, and even if an earlier render was interrupted at any point because the caller's sink panicked.",
 ["histories","crash_points","fault_sequences"],"every history of renders on one renderer (several compositions, seeks, repeats) and every callback at which a render may be cut short by a panicking sink",
 "There is no test that renders twice with one renderer, and none where the sink fails midway; the number of interruption points and histories is unbounded.",
 [R],[("scratch buffers are cleared at the start of each render and after each layer",R+" Renderer::append, Batch::clear")],
 state=[{"name":"Renderer::batch","meaning":"scratch geometry/draw buffers that survive between calls","where":R},{"name":"Renderer::mask_elements","meaning":"scratch mask path that survives between calls","where":R}])
p("C04","Concurrent loading and rendering equal sequential execution",
 "Threads may load documents and render shared or separate compositions at the same time, each with its own renderer. Under every interleaving, each load and each render produces exactly the result it produces when run alone, and no operation blocks forever.",
 ["schedules"],"every interleaving of client threads at basic-block granularity, including first use of lazily initialised process-wide data",
 "All tests are single threaded; schedules during first-use initialisation or between two renders sharing a composition are never explored.",
 [D,R,C],[("process-wide default values are lazily initialised once",D+" LazyLock statics"),("compositions are immutable during rendering",R+" append takes &Composition")],
 state=[{"name":"FLOAT_VALUE_ZERO, FLOAT_VALUE_ONE_HUNDRED, MULTIDIM_ONE, POSITION_ZERO","meaning":"shared lazily initialised defaults","where":D}])
p("C05","Canvas calls are always balanced and properly nested",
 "Every layer or clip pushed onto the canvas is popped exactly once before the call returns, group begin/end notifications and push/pop pairs nest inside each other properly, and at no prefix of the stream have more been closed than opened. Each render opens with a clip to the composition's width by height rectangle under the caller's transform, everything else happens inside it, and closing it is the last call. This holds for every document and frame, including missing assets, inactive or missing matte sources, masks, hidden layers and cyclic references.",
 ["inputs","histories","crash_points"],"every loadable document, every frame, checked at every prefix of the emitted stream (a consumer may stop anywhere)",
 "No test looks at the emitted stream at all.",
 [R],[("pop count mirrors masks plus two for a matte",R+" render_layer epilogue"),("canvas clip is pushed first and popped last",R+" Renderer::append")])
p("C06","Layers show exactly during their time window, in paint order",
 "At every frame exactly those layers are drawn whose in-point is at or before it and whose out-point is after it; they are announced by name and by position in their layer list and painted from last in the list to first. A hidden layer paints nothing of its own and never acts as an implicit matte source, and a layer marked as a matte source is never painted by itself, only on behalf of the layers that use it. Nulls and unsupported layer contents paint nothing but do not disturb the layers around them.",
 ["inputs","histories"],"every document and every playback history, with clock readings landing before, exactly on, just beside and after each in/out point",
 "Unit tests check two conversion flags of a hidden layer; none renders a frame, so no boundary instant is ever sampled.",
 [R,C,B],[("half-open activity window",R+" layer.frames.contains"),("matte sources skipped in the main loop",R+" is_mask"),("hidden layers lose content and matte role",C+" conv_layer")])
p("C07","Animated properties follow their keyframes at every instant",
 "At every frame each animatable property (positions joint or split, anchor, scale, rotation, skew, opacity, colour, gradient points and stops, stroke width, shape size, path vertices, star parameters) has exactly its keyframe's value at a keyframe's time, stays at the first value before the first and the last value after the last keyframe, and keeps its value unchanged through a hold keyframe until the next one. In between it moves from one keyframe value to the next along that keyframe's cubic easing curve, or linearly if it has none. No instant yields an undefined (not-a-number) coordinate.",
 ["inputs","histories"],"every set of keyframes and every playback history: exact hits, instants arbitrarily close to a keyframe, jumps, reversals and readings outside the keyframe range",
 "No unit test evaluates an animated value; the clock values at which a bug shows (exactly the last keyframe, during a hold) are not sampled.",
 [V,A,S,C],[("binary search for the active segment, clamp, hold",V+" Time::frames_and_weight"),("cubic easing",V+" Tween for f64"),("path vertex interpolation",A+" Spline::evaluate")])
p("C08","Precompositions play on their own local clock",
 "A layer that instances a precomposition shows that precomposition at local time (frame - start time) / time stretch, at every nesting depth, while the instancing layer's own window, transform, masks and opacity follow the outer time. Instances of the same precomposition are independent of each other, and an instance of a missing asset draws nothing.",
 ["inputs","histories"],"every nesting of instances with every start time and stretch factor, every playback history",
 "No test instances a precomposition; nested clocks multiply the instants to be covered.",
 [R,B],[("local frame computed from start_frame and stretch",R+" render_layer Content::Instance"),("start time and stretch import",B+" setup_precomp_layer")])
p("C09","Layers move with their parents at every instant",
 "A layer's placement is the caller's (or enclosing instance's) transform, followed by the transforms of its chain of parents from outermost to innermost, followed by its own, all taken at the same frame. A parent contributes its motion even when it is hidden, outside its own time window, a null or listed later, and only layers of the same layer list can be parents; an unknown parent counts as none. A parent's opacity does not affect its children.",
 ["inputs","histories"],"every parent graph (chains, forward and backward references, shared parents, unknown ids), every frame of every playback history",
 "No test contains a parented layer.",
 [R,C],[("parent chain multiplication",R+" compute_transform"),("id to index resolution per layer list",C+" process_layers")])
p("C10","Mattes and masks confine exactly their own layer",
 "A layer with a matte is composited in isolation with its matte source: the source is drawn first at the same frame, then the layer is combined as source-in for alpha and luma mattes or source-out for the inverted kinds; without an explicit source the nearest preceding unused matte-source layer is taken. Every mask of a layer clips that layer's content and nothing else, with the mask path at the same frame and placed by the layer's own transform. Layers before and after are never affected, at any frame, whether or not the source is active.",
 ["inputs","histories"],"every arrangement of matte sources, consumers and masks, every frame (source active or not), every playback history",
 "No test renders a matte or a mask.",
 [R,C,B],[("isolation layer, matte, blend layer, then pops",R+" render_layer"),("matte source resolution",C+" process_layers"),("mask import",B+" setup_*_layer masks")])
p("C11","Opacity multiplies along the whole chain at every instant",
 "The alpha of every painted shape is the product, at that frame, of the caller's opacity, the opacity of each enclosing instance layer, its own layer, each enclosing shape group, and the fill or stroke itself (solid or gradient), each as a percentage between 0 and 100. Nothing else scales it: neither parents, nor siblings, nor earlier frames.",
 ["inputs","histories"],"every nesting of groups and instances with fixed or animated opacity, every caller opacity, every playback history",
 "No test checks an emitted brush.",
 [R,C],[("alpha threading",R+" render_layer/render_shapes/DrawData::new"),("opacity import",C+" conv_draw, conv_transform, conv_shape_transform")])
p("C12","Fills and strokes paint exactly the paths in their scope, in order",
 "A fill or stroke paints all paths that come before it in its own group (including those in nested groups before it) and never a path after it, outside its group, or of another layer or frame. Sibling paths under one paint are painted together as one shape, each under its group's transform, and within a layer later paints are drawn beneath earlier ones with exactly the paint's own colour, gradient and stroke style (width, cap, join, miter limit).",
 ["inputs","histories"],"every tree of groups, paths and paints, evaluated over whole playback histories on shared scratch buffers",
 "No test renders shapes; scope leaks need particular neighbouring groups, coinciding transforms or an earlier layer's leftovers.",
 [R,C,A],[("scope marks into shared geometry/draw stacks",R+" render_shapes, Batch::push_draw"),("merging of adjacent paths",R+" Batch::push_geometry"),("paint import",C+" conv_draw")])
p("C13","Trimmed paths show exactly the visible segment at every instant",
 "At every frame a trim leaves of each path before it in its group (neighbouring sibling paths count as one path) exactly the part between its start and end percentages of that path's length, rotated by its offset and wrapping around the end; a full range leaves the path intact and an empty range leaves nothing. Paths after the trim, outside its group or in other layers keep their full shape and place.",
 ["inputs","histories"],"every path and group arrangement with fixed or animated start, end and offset (any order, any wrap), every playback history",
 "No test contains a trim; empty ranges, wraps and neighbouring scopes appear only at particular instants of an animation.",
 [R,F,C],[("arc length trimming in side buffer",R+" Batch::apply_trim"),("start/end/offset normalisation",F+" Trim::normalized")])
p("C14","Endless playback uses bounded memory and work",
 "Playing a composition for any length of time with one renderer retains no more memory than the first few passes through its frames did, and rendering a given frame costs the same work on every pass. Releasing the renderer and the composition returns all memory that loading and playing acquired.",
 ["histories"],"every composition and every playback history of any length (looping, seeking, interrupted renders)",
 "Tests load a file once and exit; growth appears only over many simulated passes.",
 [R],[("scratch buffers cleared, not regrown",R+" Batch::clear, mask_elements.clear")],
 observe=["bytes allocated minus bytes freed across a playback history","deterministic count of executed basic blocks per render"])
p("C15","Incomplete or torn documents are always rejected",
 "A file that is a strict prefix of a valid animation document, a valid document followed by leftover bytes of an older longer version, or a document torn between two versions so that it is not valid JSON, is reported as an error. No loading entry point ever returns a partially loaded composition, and a document missing a value the format requires (size, frame rate, in/out point, layer list, a layer's type or transform) is rejected as a whole.",
 ["inputs","crash_points","fault_sequences"],"every valid document, every crash point of the write that stored it, every stale tail, every missing required value",
 "The tests parse only complete documents.",
 [M,"src/schema/animation/animation.rs","src/schema/layers/mod.rs","src/schema/assets/mod.rs"],
 [("whole-input JSON parsing with required fields","src/schema/animation/animation.rs Animation::from_slice/from_str"),("layer and asset discrimination","src/schema/layers/mod.rs, src/schema/assets/mod.rs")],
 observe=["return value of the loading entry points"])
p("C16","Saving and reloading a document preserves the animation",
 "Writing a parsed document back out and reading it again, any number of times and across a process restart, yields an equal document (numbers up to last-digit rounding), and a composition loaded from the rewritten text renders the same stream at every frame. Fields the format defines survive (names, markers, metadata, mattes, masks, easing, hold flags, split positions, image assets).",
 ["inputs","histories","crash_points"],"every loadable document, every number of save/reload cycles with a restart between any two",
 "One test serializes a single empty animation without reading it back.",
 ["src/schema/animation/animation.rs","src/schema/layers/mod.rs","src/schema/assets/image.rs","src/schema/helpers/transform.rs"],
 [("symmetric serde field names and untagged variants","src/schema/**"),("document text output","src/schema/animation/animation.rs Display")],
 observe=["equality of reparsed documents","render streams before and after"])
p("C17","Results are repeatable in every environment",
 "Loading the same bytes and rendering the same frame gives the same stream in every process, on every thread, whatever the hash-map seed, the wall clock, memory layout or the documents loaded (successfully or not) before. The three loading entry points (bytes, text, parsed JSON value) agree with each other.",
 ["configurations","histories","fault_sequences"],"every document under every hash seed, clock reading (with skew and jumps), thread, and load history including failed loads",
 "Tests run once in one environment.",
 [M,C,D],[("pure conversion from document to composition",C+" conv_animation"),("id maps rebuilt per layer list",C+" process_layers")],
 state=[{"name":"idmap","meaning":"layer id to index map reused across layer lists","where":C}])
p("C18","The built-in Vello scene matches any other sink",
 "Rendering into a Vello scene encodes exactly the sequence of clips, layers, fills and strokes that any other sink receives for the same composition, frame, transform and opacity, with non-zero winding; rendering to a new scene equals appending to an empty one, and appending never alters what the scene already contains.",
 ["inputs","histories"],"every document and playback history, scenes appended to repeatedly",
 "No test builds a Vello scene from a composition.",
 ["src/runtime/vello.rs",R],[("sink implementation for the Vello scene","src/runtime/vello.rs"),("scene constructor","src/runtime/vello.rs render_to_vello_scene")],
 observe=["the encoding of the resulting Vello scene"])
p("C19","The caller's transform places the whole picture rigidly",
 "Rendering under a transform T gives exactly the stream rendered under the identity with T applied in front of every clip, layer and paint - the canvas clip, masks, mattes and nested instances included - and changes nothing else: not which layers appear, their order, their paths, their paints or their timing.",
 ["inputs","histories"],"every document, every affine transform (rotations, reflections, degenerate scales), every frame and playback history",
 "No test renders under a transform.",
 [R],[("global transform threaded through layer recursion",R+" append, render_layer, compute_transform")])
p("C20","No absolute frame number is special",
 "Shifting every time on the composition's own timeline (its in/out points and its layers' in/out points, start times and keyframe times) by the same amount and asking for the picture at the shifted frame gives the same picture as before the shift. In particular negative, fractional and very late timelines behave like timelines starting at zero.",
 ["inputs","histories","configurations"],"every document, every shift (negative, fractional, large), every frame and playback history",
 "Tests use one timeline starting at zero and render none of it.",
 [R,V,C],[("only differences of times enter the evaluation",V+" frames_and_weight; "+R+" layer.frames.contains, start_frame")])
p("C21","A downloaded file appears complete or not at all",
 "Whatever the network, the disk, a kill or a power failure does during the example application's asset download, afterwards a file under an asset's final name is either one that was there before, unchanged, or holds the complete body a server sent, of the exact size listed for a built-in asset or within the size limit otherwise. A download that reports success has stored every requested file; and once faults stop, one more run stores everything that is missing: an interrupted download neither passes for a finished one nor blocks the next attempt.",
 ["crash_points","fault_sequences"],"every point at which name lookup, connection, response, disk write or process may fail, every power loss, and every restart after it",
 "The example has no tests and the failure points need injected network and disk faults.",
 ["examples/scenes/src/download.rs"],[("download to a file, size checks, file naming","examples/scenes/src/download.rs LottieDownload::fetch"),("which built-in assets are skipped","examples/scenes/src/download.rs Download::action")],
 observe=["contents of the download directory after each simulated run, fault, crash or power loss","result of the download command"])
p("C22","Frame statistics stay true to the observed frames",
 "In the example viewer, after any history of frames the reported mean frame time and rate are those of the last hundred frames, the extremes those since the last reset, and drawing the statistics overlay never fails and never draws with undefined coordinates, whatever the clock delivered (zero, tiny or huge frame times) and whatever the window size.",
 ["histories","fault_sequences"],"every history of frame times including stopped clocks, stalls and jumps, resets and redraws in between",
 "The example has no tests.",
 ["examples/with_winit/src/stats.rs"],[("sliding window sums and extremes","examples/with_winit/src/stats.rs Stats::add_sample/snapshot"),("overlay scale and bars","examples/with_winit/src/stats.rs Snapshot::draw_layer")],
 observe=["Snapshot returned by Stats::snapshot","encoded overlay scene"])
p("C23","Touch gestures move the view as the fingers move",
 "In the example viewer, for every sequence of touch events - fingers added, moved, lifted and cancelled in any order, events lost, repeated or reordered - there is a gesture exactly while a finger is down; it reports no movement at all in a frame in which the set of fingers changed, and otherwise the translation of the fingers' centre and, with several fingers, the zoom and rotation of the fingers about it; one finger only translates. It never reports an undefined or non-positive zoom, which the view could not recover from.",
 ["histories","fault_sequences"],"every sequence of touch events, including lost, duplicated and reordered ones",
 "The example has no tests.",
 ["examples/with_winit/src/multi_touch.rs"],[("gesture state machine","examples/with_winit/src/multi_touch.rs TouchState")],
 observe=["MultiTouchInfo returned by TouchState::info after every frame"])
p("C24","Playback follows the clock and loops",
 "The example viewer shows, at any moment, the frame that the time since the animation was loaded selects: first frame plus elapsed time times frame rate, wrapped into the document's frame range - after any pattern of redraws, pauses, stalls and suspensions, for every frame range and rate, also with several animations at once. It never shows a frame outside the range, never skews after long times, and never fails, even for an empty frame range.",
 ["histories","inputs"],"every history of redraw times and every frame range and rate",
 "The example has no tests; it reads the real clock.",
 ["examples/scenes/src/lottie.rs"],[("frame from elapsed time","examples/scenes/src/lottie.rs render_lottie_contents")],
 observe=["scene drawn by the scene function at each simulated time"])
p("C25","The list of scenes does not depend on how the file system lists files",
 "When the example viewer is given directories, the scenes are all and only the documents (*.json) in them, in the order of the given directories and alphabetically, case ignored, within each; the same files give the same list in whatever order the file system happens to return them.",
 ["schedules","configurations"],"every order in which directory entries may be returned, every set of file names",
 "The example has no tests; a real file system returns one order.",
 ["examples/scenes/src/lottie.rs"],[("collecting and sorting scenes","examples/scenes/src/lottie.rs scene_from_files_inner")],
 observe=["names of the selected scenes"])
p("C26","A composition reports the document's own header",
 "Whatever was loaded before, on whatever thread, by whichever entry point and however often the document was saved and reloaded, a loaded composition reports exactly the frame range, frame rate, width and height that its document states - and two loads of the same bytes report the same.",
 ["inputs","histories","configurations"],"every loadable document (fractional, negative, huge or empty ranges; any rate and size), every entry point, every history of earlier loads",
 "Tests load two documents and look at no header value beyond their presence.",
 [M,C],[("composition header from document",C+" conv_animation"),("loading entry points",M)],
 observe=["Composition::frames, frame_rate, width, height after each load"])
p("C27","Only what a document says matters, not how it is written",
 "Two documents that state the same animation render the same stream at every frame, in every playback history: renamed asset ids, another order of the assets, other (consistent) layer numbers, unknown extra members, members in another order, other white space, number spellings and string escapes, and names nobody gave make no difference.",
 ["inputs","histories","configurations"],"every document, every equivalent way of writing it, every frame and playback history",
 "No test loads the same animation written in two ways.",
 ["src/schema/**",C,B],[("references resolved by id and by index",C+" process_layers, conv_animation"),("tolerant readers","src/schema/helpers/**")],
 observe=["render streams of the two documents"])
p("C28","Layers and assets that do not show change nothing",
 "Adding a layer that is hidden, outside its time window or empty, or an asset nobody uses, anywhere in a document leaves the picture of everything else as it is at every frame: the same clips, layers, fills and strokes in the same order (only the reported layer positions move).",
 ["inputs","histories"],"every document, every position and kind of silent addition, every frame and playback history",
 "No test compares a document with an extended one.",
 [R,C,B],[("window and visibility test",R+" append, render_layer"),("references kept by id, not by position",C+" process_layers")],
 observe=["render streams with and without the additions"])
p("C29","A timeline played at another speed shows the same pictures",
 "Scaling every time on a timeline by the same factor and asking for the picture at the scaled moment gives the same picture: the composition's own timeline when all its times are scaled, and a precomposition's when its times and the stretch of the layers showing it are scaled against each other. Playback depends on the ratio of times only, never on an absolute duration.",
 ["inputs","histories","configurations"],"every document, factors by powers of two (exact in arithmetic), every frame and playback history",
 "Tests use one speed and no stretched layer.",
 [R,V,B],[("local clock of a layer: start and stretch",R+" render_layer; "+B+" conv_layer"),("weight between key frames",V+" frames_and_weight")],
 observe=["render streams at corresponding moments"])
p("C34","A precomposition looks exactly like the layers it holds",
 "Moving layers into a precomposition and showing it through one instance - possibly several levels deep, with the instance carrying a still transform, an opacity, a start time and a stretch - shows, at every frame, what the layers themselves show at the instance's local frame under the instance's transform and opacity. Nesting adds nothing, loses nothing and reorders nothing, however deep it goes.",
 ["inputs","histories","configurations"],"every document, every depth of nesting, every still placement of the instances, every frame and playback history",
 "The tests load no document with nested precompositions and compare no two documents.",
 [R,B,C],[("instances are drawn by recursion with the accumulated transform, opacity and local frame",R+" render_layer"),("instance fields: reference, start, stretch",B+" conv_layer; "+C+" conv_layer")],
 observe=["render streams of the nested document and of its content"])
p("C35","Keyframes that change no value change nothing",
 "How an animated value is written does not matter, only the values it takes: a fixed value and keyframes that all hold that value, additional keyframes repeating the first or last value outside the animated range, a hold split in two, and an even linear segment cut in the middle all give the same pictures at every frame.",
 ["inputs","histories"],"every document, every animated property in it, every value-preserving rewriting of its keyframes, every frame and playback history (including frames exactly on, before and after the added keyframes)",
 "The tests evaluate a few hand-made key frame lists and never two writings of one motion.",
 [V,A,C,S],[("keyframe lookup and weight",V+" frames_and_weight, Animated::evaluate"),("fixed and animated values are converted apart",C+" conv_* ; "+A+" evaluate"),("fixed content is precomputed, animated content evaluated",A+" Transform::evaluate / Geometry::evaluate")],
 observe=["render streams of both writings"])
p("C36","Groups and parents that only carry a placement change nothing",
 "Enclosing shapes in groups that have no transform of their own, moving a group's transform to a group around it, or handing a layer's placement to an invisible parent layer leaves every picture as it was, however deep the groups or the chain of parents become.",
 ["inputs","histories"],"every document, every group, every layer, any depth, every frame and playback history",
 "No test has nested groups deeper than one file's, nor a chain of parents, nor compares two arrangements.",
 [R,B,C],[("group scope: geometry and draws of a group",R+" Batch::push_shape"),("parent transforms are multiplied along the chain",R+" compute_transform"),("layer indices to parents",B+" conv_layer")],
 observe=["render streams of both arrangements"])
p("C37","Documents put together show each one's layers in order",
 "Joining several documents into one - layers stacked, precompositions side by side under different names - shows at every frame the picture of each in turn, the last stacked at the bottom. Layers of one part never influence another part: no matte, parent, clip, scratch geometry or precomposition reaches across.",
 ["inputs","histories"],"every two or three documents, every frame and playback history",
 "No test renders more than a few layers, and none compares a combination with its parts.",
 [R,C,B],[("layers drawn from bottom to top with scratch state cleared in between",R+" append"),("references resolved by index and id",C+" process_layers")],
 observe=["render stream of the combination and of each part"])
p("C43","Each layer draws on its own account",
 "What a shape layer draws at a frame - paths, paints, placement, opacity, and the clips and mattes around it - depends on that layer and on the parents, mattes and instances that carry it, never on what other layers draw. Taking the drawing out of any other layers removes exactly their draws and leaves every other call as it was, in the same order.",
 ["inputs","histories"],"every document, every choice of layers that are emptied, every frame and playback history on shared or separate renderers",
 "No test renders two layers and takes one away; the choices of which layers draw multiply with documents, frames and what the renderer drew before.",
 [R,C],[("scratch shapes are cleared after each layer",R+" render_layer Content::Shape"),("mask path cleared after each mask",R+" render_layer"),("layers converted one by one",C+" process_layers")],
 observe=["render streams of the document and of those in which some layers are emptied"])
p("C38","What happens elsewhere in time does not reach the shown frame",
 "The picture at a frame depends only on the layers alive then and on the keyframes on either side of it: changing, on one side of a moment, keyframes that are not next to it, or adding and removing layers whose windows lie wholly there, leaves every frame on the other side as it was.",
 ["inputs","histories"],"every document, every cut time, every edit on the far side, every frame and playback history",
 "The tests never edit a document and compare the rest of the timeline.",
 [V,S,A,R],[("the pair of keyframes around a frame",V+" frames_and_weight"),("path keyframes interpolated pairwise",S+" interpolate"),("layer windows",R+" append, render_layer")],
 observe=["render streams of both documents on the unchanged side"])
p("C39","A drawing made larger shows the same picture under a smaller transform",
 "Scaling every length in a document - positions, sizes, radii, stroke widths, path points, gradient points, masks, clips - by one factor and rendering it under the inverse scale gives the same picture at every frame. No shape, stroke or clip appears, vanishes, snaps or changes form because of its absolute size.",
 ["inputs","configurations","histories"],"every document without trims, factors by powers of two, every frame and playback history",
 "No test renders a document under a transform or at two sizes.",
 [R,A,F,B,C],[("geometry, stroke widths and gradient points evaluated in document units",A+" Geometry / Stroke / Gradient evaluate"),("precomposition clip from width and height",B+" conv_layer; "+R+" append")],
 observe=["render streams of both documents"])
p("C40","A composition built or edited by hand shows what the equal document shows",
 "A program that builds a velato Composition from the public model types, or edits one it holds between renders, sees at every frame exactly the picture of the document that says the same: however each value is represented (fixed, one keyframe, equal keyframes, reduced with into_model or not), and with nothing remembered from before the edit. Outlines given as raw paths and any peniko blend mode of a matte work like their document counterparts.",
 ["inputs","histories"],"every document expressible in both forms, every representation of its values, every sequence of edits and renders with any number of renderers",
 "No test builds a composition through the model types, edits one, or renders it.",
 [A,V,F,M,R],[("the public model",M+" Composition, Layer, Shape, Geometry"),("fixed and animated forms of each value",A+" is_fixed, into_model, evaluate; "+V+" Value, Easing"),("rendering the model",R+" append")],
 observe=["render streams of the built or edited composition and of the loaded document"])
p("C41","Repeaters draw the right copies",
 "A repeater copies the geometries and draws before it in its own list the given number of times, each copy moved by the repeater's transform once more per copy (about its anchor, in the coordinates of the group the repeater is in), starting at its offset, with opacity going from the start to the end value across the copies; copies are drawn in order, each with its paints exactly once; several and nested repeaters multiply; what comes after a repeater, or in other groups, is not copied.",
 ["inputs","histories"],"every arrangement of repeaters, geometries, paints and groups, animated or not, at every frame and playback history",
 "Repeaters are reachable only through the model types, which no test renders.",
 [R,F,A],[("copying geometries and draws",R+" Batch::repeat"),("the transform of one copy",F+" Repeater::transform"),("repeater values at a frame",A+" Repeater::evaluate")],
 observe=["render stream: for each copy its placement, outline, paint and opacity"])
p("C42","A hand-made composition cannot crash or hang the renderer",
 "Whatever values a program puts into a Composition - parents and mattes that do not exist or are the layer itself, keyframe lists and value lists of different or no length, times out of order or not numbers, reversed windows, missing assets, negative or non-finite sizes, opacities and stops - rendering it at any frame ends within a bounded number of steps, without a panic, and with a well-nested stream.",
 ["inputs","fault_sequences"],"every composition the public types allow (instances not nested exponentially), every frame, transform and opacity",
 "No test builds a composition by hand.",
 [R,V,A,S,F],[("references by index and by name",R+" compute_transform, render_layer"),("lookup of keyframes and values",V+" Animated, Time"),("path interpolation",S+" interpolate")],
 observe=["panics, number of steps, memory and nesting of the stream"])
# --- properties for which simulation has nothing to vary (listed as not applicable in the manifest)
p("C30","Star and polygon outlines have the documented geometry",
 "A star or polygon with a given centre, radii, roundness, rotation and point count has exactly the vertices and rounded corners the format describes.",
 ["inputs"],"every parameter combination at one instant","No test evaluates a star.",
 [A],[("outline construction",A+" Star::evaluate")])
p("C31","Gradient alpha stops are merged into colour stops",
 "A gradient whose stop list carries trailing (offset, alpha) pairs yields, for every colour stop, the alpha given by interpolating those pairs at the stop's offset.",
 ["inputs"],"every stop list","No test converts a gradient.",
 [C],[("alpha stop interpolation",C+" conv_stops")])
p("C32","Blend mode numbers map to the matching compositing mode",
 "Each blend mode number of the format is imported as the compositing mode of the same name.",
 ["inputs"],"all eighteen numbers","No test imports a blend mode.",
 [C],[("mapping table",C+" conv_blend_mode")])
p("C33","Errors name the offending asset or layer kind",
 "When a document is rejected because of an asset or layer kind that is not supported, the error text names that asset's id or that layer type.",
 ["inputs"],"every rejected document","No test looks at an error text.",
 ["src/schema/assets/mod.rs","src/schema/layers/mod.rs"],[("error construction","src/schema/assets/mod.rs AnyAsset::deserialize")],
 observe=["Display of the returned error"])
