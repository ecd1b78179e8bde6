#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))

IN = "inputs"; CFG = "configurations"; HIST = "histories"; SCH = "schedules"
SAMPLE = "The 34 existing tests resize a handful of fixed images with one or two filters on the build machine's CPU and compare a few pixels or nothing at all"

P = []
def prop(id, title, statement, over, text, why, files, mech, level_note, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), level_note))

ACC_TEXT = "every source and destination size, filter, channel count, content, row stride, thread count, workload strategy and set of CPU features"
ACC_MECH = [
    ("weights: window, normalisation, fixed-point quantisation", "src/scaler.rs generate_weights; src/filter_weights.rs"),
    ("two passes, each with kernels chosen by run-time CPU features", "src/convolution.rs; src/dispatch_group_*.rs; src/handler_provider.rs"),
]
ACC_NOTE = "random search against an independent f64 model of separable resampling; tolerance derived from the storage format; 9 simulated CPU feature levels; images up to 9000 pixels with sides up to 4200, one in 200 up to 380 000 pixels or a side of 70 000"
def acc(id, fmt, what, why, files, extra=""):
    prop(id, f"A {fmt} resize computes the documented filter to within rounding",
         f"Resizing {what} gives, for every output sample, the value of the separable filter resampling of the source "
         f"(weights normalised to one, edges handled by renormalising the part of the window inside the image) to within the rounding of the format. {extra}".strip(),
         [IN, CFG], ACC_TEXT, why, files, ACC_MECH, ACC_NOTE, ["destination buffer"])
acc("P01", "8-bit", "an 8-bit image of one to four channels",
    SAMPLE + "; no test checks a two-channel image, an odd tail width, a strided image or any of the other eight kernel families.",
    ["src/plane_u8.rs", "src/cbcr8.rs", "src/rgb_u8.rs", "src/rgba_u8.rs", "src/fixed_point_horizontal.rs", "src/fixed_point_vertical.rs", "src/dispatch_group_u8.rs", "src/sse/", "src/avx2/", "src/avx512/", "src/support.rs"],
    "Values that leave the range are clamped to black or white.")
acc("P02", "16-bit", "a 16-bit image of one to four channels and any declared depth from 1 to 16",
    SAMPLE + "; depths between 8 and 16 switch between fixed-point and float kernels, which the tests sample at one depth.",
    ["src/plane_u16.rs", "src/cbcr16.rs", "src/rgb_u16.rs", "src/rgba_u16.rs", "src/fixed_point_horizontal.rs", "src/floating_point_horizontal.rs", "src/dispatch_group_u16.rs", "src/sse/", "src/avx2/", "src/avx512/"],
    "Values that leave the range of the depth are clamped to it.")
acc("P03", "32-bit float", "a 32-bit float image of one to four channels",
    SAMPLE + "; float images with negative or large samples are not tested at all.",
    ["src/plane_f32.rs", "src/cbcr_f32.rs", "src/rgb_f32.rs", "src/rgba_f32.rs", "src/convolve_naive_f32.rs", "src/dispatch_group_f32.rs", "src/sse/", "src/avx2/"],
    "Nothing is clamped.")
acc("P04", "16-bit float", "a half-precision image of one to four channels",
    SAMPLE + "; half precision is built only with a nightly feature and has next to no tests.",
    ["src/f16.rs", "src/scaler_f16.rs", "src/dispatch_group_f16.rs", "src/alpha_handle_f16.rs", "src/avx2/", "src/sse/"],
    "Nothing is clamped.")
prop("P05", "A packed 10-bit resize computes the filter in every layout and byte order",
     "Resizing a packed 10-bit image (alpha in the high or the low bits, host or network byte order) gives for each colour the value of the filter resampling at ten bits to within rounding, clamped to 0..=1023. Where anything is resampled the output is opaque.",
     [IN, CFG], "every size, filter, content, alpha bits, stride, layout, byte order, thread count and CPU",
     SAMPLE + "; no test decodes a packed result.",
     ["src/ar30.rs", "src/resize_ar30.rs", "src/fixed_point_horizontal_ar30.rs", "src/fixed_point_vertical_ar30.rs", "src/dispatch_group_ar30.rs", "src/sse/"],
     [("packing and unpacking", "src/ar30.rs"), ("passes over packed rows", "src/resize_ar30.rs; src/dispatch_group_ar30.rs")],
     "random search against the f64 model with an independent packer", ["destination bytes"])
prop("P06", "Premultiplied resizing weighs colours by alpha and returns straight alpha",
     "Resizing an image with alpha and premultiplication requested equals multiplying colours by alpha, resampling every channel, and dividing by the resulting alpha; alpha itself is resampled as without premultiplication, and colours stay within the range of the format. An image whose alpha is opaque everywhere gives the same result with and without premultiplication.",
     [IN, CFG], "every RGBA format and depth, alpha content (opaque, one odd pixel anywhere, transparent, low, binary, noise), size, filter, stride, thread count and CPU",
     SAMPLE + "; the test images have simple alpha, so the shortcut for opaque images and division by small alpha are not exercised.",
     ["src/alpha_check.rs", "src/alpha_handle_u8.rs", "src/alpha_handle_u16.rs", "src/alpha_handle_f32.rs", "src/alpha_handle_f16.rs", "src/avx2/alpha_u8.rs", "src/avx2/alpha_u16.rs", "src/avx512/alpha_u8.rs", "src/sse/"],
     [("shortcut when alpha carries no information", "src/alpha_check.rs"), ("premultiply and unpremultiply passes", "src/mixed_storage.rs; src/alpha_handle_*.rs")],
     "random search against a f64 model of premultiply, resample, unpremultiply with error propagation through the division", ["destination buffer"])
prop("P07", "Nearest-neighbour resizing copies the pixel under each output centre",
     "With the nearest filter every output pixel is a bit-for-bit copy of one source pixel, whose column depends only on the output column and whose row only on the output row. It is the pixel that contains the centre of the output pixel mapped to the source (a centre on a border may take either side).",
     [IN, CFG], "every format and packed layout, size, content and stride", SAMPLE + "; none of them uses the nearest filter on more than one size.",
     ["src/nearest_sampler.rs", "src/scaler.rs"], [("position of the sample", "src/nearest_sampler.rs")],
     "random search; admissible columns and rows are computed in exact integers", ["destination buffer"])
prop("P08", "Flat images stay flat and no result leaves the range of its depth",
     "An image in which every channel is constant resizes to the same constant, exactly for 8-bit, packed and up to 12-bit images and to within rounding otherwise. No integer result exceeds the largest value of the declared depth.",
     [IN, CFG], "every format, constant, size, filter, alpha, premultiplication, strategy and CPU", SAMPLE + ".",
     ["src/filter_weights.rs", "src/scaler.rs", "src/support.rs", "src/saturate_narrow.rs"],
     [("weights are normalised and quantised keeping their sum", "src/scaler.rs; src/filter_weights.rs")],
     "random search, metamorphic (no model of the filter is needed)", ["destination buffer"])
prop("P09", "Row padding never influences a result and is never written",
     "Row strides decide only where rows lie: a call with padded rows gives the same pixels as with tight rows, whatever the padding holds. The padding of the destination, and the source, are left as they were.",
     [IN], "every entry point, format, filter, size, stride and padding content", SAMPLE + "; all of them use tight rows.",
     ["src/image_store.rs", "src/scaler.rs", "src/scaler_f16.rs", "src/resize_ar30.rs", "src/nearest_sampler.rs", "src/colors/"],
     [("row slicing by stride", "src/convolution.rs; src/dispatch_group_*.rs; src/resize_ar30.rs")],
     "random search, differential between two layouts of one image; padding holds NaN, infinities and noise", ["destination buffer, padding included"])
prop("P10", "The threading policy never changes a result",
     "A call gives the same bits whether it runs single-threaded, on any fixed number of threads or adaptively.",
     [IN, SCH], "every entry point, size, filter and pair of policies; the work split varies with thread count and image height",
     SAMPLE + "; none compares two policies.",
     ["src/threading_policy.rs", "src/dispatch_group_u8.rs", "src/dispatch_group_u16.rs", "src/dispatch_group_f32.rs", "src/dispatch_group_f16.rs", "src/dispatch_group_ar30.rs", "src/alpha_handle_u8.rs"],
     [("rows are handed to a thread pool", "src/dispatch_group_*.rs")],
     "random search, differential; the split of work is generated, the interleaving is the operating system's", ["destination buffer"])
prop("P11", "All CPUs and both workload strategies give the same picture",
     "The result of a call does not depend on which instruction sets the CPU offers or which workload strategy is chosen, beyond the rounding of the storage format at each pass.",
     [IN, CFG], "every pair of CPU feature sets and strategies, every format, filter, size and content",
     "The tests run on one CPU, so at most one of the kernel families is executed.",
     ["src/cpu_features.rs", "src/handler_provider.rs", "src/dispatch_group_u8.rs", "src/dispatch_group_u16.rs", "src/sse/", "src/avx2/", "src/avx512/"],
     [("run-time selection of kernels", "src/dispatch_group_*.rs; src/*_u8.rs; src/*_u16.rs; src/*_f32.rs")],
     "random search, differential between 9 simulated CPUs (features hidden from run-time detection)", ["destination buffer"])
prop("P12", "Malformed images are refused with a fitting error and nothing is written",
     "A call whose source or destination has an empty or overflowing size, a buffer or stride that does not fit it, or an unsupported bit depth of a 16-bit destination returns an error that names one of these faults, without panic and without touching the destination. A call with nothing wrong succeeds.",
     [IN, "fault_sequences"], "every entry point and every combination of up to three faults in either image",
     "The tests only make valid calls.",
     ["src/scaler.rs", "src/scaler_f16.rs", "src/image_store.rs", "src/pic_scale_error.rs", "src/resize_ar30.rs", "src/support.rs"],
     [("validation before any work", "src/image_store.rs validate; src/scaler.rs check_image_size_overflow"), ("stride checks of packed images", "src/resize_ar30.rs; src/support.rs")],
     "random fault injection against an independent predicate, in a build with overflow checks and one without", ["returned error", "destination buffer"])
prop("P13", "A valid call never faults, panics or reads memory it does not own",
     "Every valid call returns, without panic, without reading or writing outside the buffers it was given or allocated, and its result does not depend on what fresh memory holds. Nor does a check of an unsafe operation (unchecked index, pointer) fail in a build that has them on.",
     [IN, CFG], "every entry point, CPU feature set, size (single pixels and long thin images included), filter and stride",
     "An overrun of a few bytes by a vector load passes unnoticed in a test, since the bytes exist and do not influence the result.",
     ["src/sse/", "src/avx2/", "src/avx512/", "src/image_store.rs", "src/alpha_check.rs", "src/nearest_sampler.rs"],
     [("tail loops with partial loads and stores", "src/sse/; src/avx2/; src/avx512/")],
     "random search on a guard-page allocator (each heap block ends, or begins, at an inaccessible page; new memory holds junk), in a release build and in one with the standard library's checks of unsafe operations", ["signals, panics, destination buffer"])
prop("P14", "Resizing to the same size is an exact copy",
     "When source and destination have the same size, every pixel is copied bit for bit, whatever the filter and the other settings.",
     [IN], "every entry point, format, filter, stride, alpha and premultiplication", SAMPLE + "; none has equal sizes.",
     ["src/scaler.rs", "src/scaler_f16.rs", "src/image_store.rs", "src/resize_ar30.rs"],
     [("shortcut for equal sizes", "src/scaler.rs; src/resize_ar30.rs")], "random search; the oracle is equality", ["destination buffer"])
prop("P15", "Colour-space scalers resample in their space and convert back",
     "A scaler of another colour space or transfer function gives what converting the image into that space, resizing it there and converting back gives. Alpha is resampled like in a plain resize and the source is left as it was.",
     [IN, CFG], "every space and transfer function, RGB and RGBA, size, filter, content, stride, premultiplication and thread count",
     "The doc tests only check that these scalers compile and run.",
     ["src/colors/", "src/color_group.rs"],
     [("convert rows, resize the intermediate image, convert back", "src/colors/*.rs")],
     "random search, differential against the generic scaler between conversions, plus the f64 model in the space", ["destination buffer"])
prop("P16", "Image containers hold what they were given over any history",
     "Over any sequence of construction, allocation, copying, freezing, moving between strides and resizing, a container reports the size, stride and depth it was given and holds exactly the elements written to it. A construction that cannot be valid fails with an error naming the expected and the actual numbers.",
     [HIST, IN], "every history of container operations, sizes, strides and buffer lengths", "Tests build each container one way, once.",
     ["src/image_store.rs", "src/image_size.rs", "src/pic_scale_error.rs"],
     [("constructors, copies and conversions", "src/image_store.rs")],
     "random histories of 1..=8 operations next to a plain model", ["container fields and buffers"], [("dimensions, stride, depth, buffer", "the image a container stands for", "src/image_store.rs")])
prop("P17", "The one-call extension equals the scaler with the same settings",
     "Scaling an image through the one-call interface gives the same pixels, the same padding and the same errors as a scaler configured with the same filter, threading, strategy and premultiplication.",
     [IN, CFG], "every image type, option combination and size", "No test compares the two interfaces.",
     ["src/scaler.rs", "src/scaler_f16.rs"], [("options are translated to scaler settings", "src/scaler.rs ImageStoreScaling")],
     "random search, differential between the two interfaces", ["destination buffer", "returned error"])
prop("P18", "A scaler keeps no memory of earlier calls",
     "The result of a call depends only on the settings in force, the source and the size of the destination: not on earlier calls of the same or another scaler, failed ones included, nor on what the destination held.",
     [HIST, IN], "every history of 2 to 7 calls of mixed formats, sizes and settings on one to three scalers", "Each test makes one call per scaler.",
     ["src/scaler.rs", "src/scaler_f16.rs", "src/threading_policy.rs", "src/colors/"], [("settings are read at each call", "src/scaler.rs")],
     "random histories; the oracle is a new scaler on a new destination, and the f64 model", ["destination buffer"], [("filter, threading policy, strategy", "all a scaler remembers", "src/scaler.rs Scaler")])
prop("P19", "Channels do not mix and are treated alike",
     "Permuting the channels of the source permutes those of the result, and the content of one channel never influences another (with premultiplication: alpha is independent of colours, and colours follow a permutation among themselves).",
     [IN, CFG], "every format, channel count, permutation, content, size, filter and CPU", SAMPLE + "; grey test content hides mixed channels.",
     ["src/cbcr8.rs", "src/rgb_u8.rs", "src/rgba_u8.rs", "src/sse/", "src/avx2/", "src/avx512/"],
     [("lane shuffles in the kernels", "src/sse/; src/avx2/; src/avx512/")], "random search, metamorphic", ["destination buffer"])
prop("P20", "A filter is the function its name stands for",
     "Every named filter has the support, radial or separable shape and kernel function of the published definition, to single or double precision as evaluated, and even kernels are even; numbers and names convert both ways.",
     [IN], "every filter, every distance within its support, both precisions", "Tests call no kernel function directly and resize with three of the 49 filters.",
     ["src/math/", "src/sampler.rs"], [("kernel functions", "src/math/*.rs"), ("table of filters, supports and windows", "src/sampler.rs")],
     "random search against f64 formulas written from the literature; Bessel functions against their integral", ["kernel values"])
prop("P21", "Threading policies name a sane number of threads",
     "Single means one thread and no pool; fixed means the number asked for, but at least one; adaptive lies between one and the parallelism of the machine, is one for small images and never falls as the image grows. A pool has exactly that many threads.",
     [IN, CFG], "every policy and pair of image sizes", "The tests use one policy each and cannot see the number of threads.",
     ["src/threading_policy.rs"], [("number of threads from policy and size", "src/threading_policy.rs")], "random search, invariants", ["thread count and pool"])
prop("P22", "An output pixel depends on its window only and is a blend of it",
     "Changing source pixels outside the filter window of an output pixel, even to infinities or NaN, leaves that pixel bit for bit as it was. With a filter that has no negative weights the pixel lies between the smallest and the largest sample of the window.",
     [IN, CFG], "every format, filter, size, source rectangle and content", SAMPLE + "; nothing checks which source pixels contribute.",
     ["src/scaler.rs", "src/filter_weights.rs", "src/convolution.rs", "src/sse/", "src/avx2/"],
     [("bounds of each output's window", "src/scaler.rs generate_weights")], "random search, metamorphic; the window is computed exactly and widened only where f32 rounding may move it", ["destination buffer"])
prop("P23", "Resizing commutes with mirroring and transposing",
     "Resizing the mirror image or the transpose of an image gives the mirror image or transpose of the resized image, up to rounding.",
     [IN, CFG], "every format, filter (the asymmetric ones excepted for mirroring), size, content and CPU", SAMPLE + "; a shift by part of a pixel passes them.",
     ["src/scaler.rs", "src/convolution.rs"], [("sample positions are symmetric; both passes use the same weights", "src/scaler.rs generate_weights")],
     "random search, metamorphic; tolerance follows from f32 rounding of sample positions", ["destination buffer"])
prop("P24", "Resizing is linear in the image",
     "For float images, scaling the content by a power of two or negating it scales every result bit for bit, and the sum of two images resizes to the sum of the results; for integer images the complement resizes to the complement, up to rounding.",
     [IN, CFG], "every format, filter, size, factor and content", SAMPLE + ".",
     ["src/convolution.rs", "src/sse/", "src/avx2/", "src/f16.rs"], [("weights do not depend on content", "src/convolution.rs")], "random search, metamorphic", ["destination buffer"])
prop("P25", "Concurrent calls do not disturb each other",
     "Calls made at the same time from several threads, through one shared scaler or separate ones, or from inside the tasks of another thread pool, each give the result they give alone, and all return.",
     [SCH, IN], "2 to 5 concurrent callers with any calls, policies and release order", "Tests make one call at a time.",
     ["src/scaler.rs", "src/threading_policy.rs", "src/handler_provider.rs"], [("no mutable state outside a call", "src/scaler.rs; src/threading_policy.rs")],
     "random search; callers are released together with a generated stagger, the interleaving is the operating system's", ["destination buffer"])

prop("P26", "The C interface equals the Rust one at any address and byte stride",
     "Each C function gives, bit for bit, what the Rust scaler gives for the same image, filter and flags, wherever in memory rows lie: any alignment and any stride in bytes that holds a row. It returns 0, and for an empty image, a stride that is too small or an unsupported depth the code of that error, with nothing written; bytes outside the pixels are left as they were.",
     [IN, CFG], "every C function, filter, flag combination, size, address and stride modulo the element size, content, and one fault at a time",
     "No test calls the C interface, and the crate was not even compiled by them.",
     ["picscale/src/lib.rs", "src/pic_scale_error.rs"],
     [("pointers and byte strides become images; unaligned rows are copied", "picscale/src/lib.rs pic_scale_scale_generic"), ("codes of errors", "src/pic_scale_error.rs code")],
     "random search, differential between the two interfaces; some images end at inaccessible memory", ["destination bytes", "returned code"])
prop("P27", "The guarantees hold in every build of the crate",
     "Whichever cargo features select the kernels (defaults, none, only SSE, only AVX, all), for a generic or a newer target CPU, and with overflow checks and debug assertions on, the crate builds, no valid call panics, and results are those of the documented resampling to within the rounding of the format.",
     [IN, CFG], "six builds, every entry point each has, every size, filter, content, setting and simulated CPU",
     "Tests run in one build; kernels chosen by features, or by the target CPU at compile time, are exercised in no other.",
     ["Cargo.toml", "src/mlaf.rs", "src/avx2/utils.rs", "src/handler_provider.rs", "src/dispatch_group_u8.rs", "src/lib.rs"],
     [("kernels compiled in or out by feature", "src/*.rs cfg(feature)"), ("fused multiply-add when the target has it", "src/mlaf.rs"), ("instructions without VNNI", "src/avx2/utils.rs")],
     "the random searches of P01 to P07, P14 and P15 in six builds", ["destination buffer", "panics"])

NOT_APPLICABLE = []

props = [p for p, _ in P]
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
T = "property-based testing: {} (proptest generators, shrinking to a replay file)"
HOW = {"P10": "differential", "P26": "differential and fault injection", "P11": "differential", "P09": "differential", "P14": "invariant (equality)", "P15": "differential and model-based", "P16": "stateful, model-based", "P17": "differential", "P18": "stateful, differential", "P12": "fault injection against a predicate", "P13": "generated calls under a guard-page allocator, in two builds", "P08": "metamorphic", "P19": "metamorphic", "P22": "metamorphic", "P23": "metamorphic", "P24": "metamorphic", "P25": "concurrent histories, differential", "P21": "invariants", "P27": "reference model, in six builds"}
m = {
    "version": 1,
    "setup_cmd": "true",
    "checks": [dict(property=p["id"], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough",
                    evidence_file=f"evidence/{p['id']}.json", technique=T.format(HOW.get(p["id"], "reference model")), level="exploration", level_note=n) for p, n in P],
    "not_applicable": NOT_APPLICABLE,
    "notes": "Each check builds harness/ against /repo's working tree and searches generated cases; no hooks in /repo. Known findings and repaired defects: known_findings.json.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
