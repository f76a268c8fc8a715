"""The properties, claimed (PROPS) and not applicable to this technique (NA)."""
AI = "path-sensitive interprocedural abstract interpretation of MIR"
PROPS = [
 dict(id="C01", title="Setters accept exactly the documented range and getters return what was set",
  statement="Every configuration setter (max colours 2-256, speed 1-10, posterization 0-4, quality 0 <= min <= target <= 100, dithering level 0-1, output gamma in (0,1), histogram colour gamma in [0,1), image gamma in [0,1]) accepts every value of its documented range and nothing else (no NaN, no wrapped or truncated integers), in the Rust API and in the C API. A rejected value yields ValueOutOfRange (LIQ_VALUE_OUT_OF_RANGE, or NULL from the image constructors) and leaves the object unchanged. After a value was accepted the matching getter returns it.",
  over=["inputs"], all="all values of the parameter types (every u32/i32/u8/f32/f64 bit pattern, including NaN and infinities), all prior object states",
  tests="the tests set a few in-range values; the parameter spaces are 2^32 and 2^64 and the defects live at single points (NaN, 256+valid, the bound itself)",
  files=["src/attr.rs", "src/quant.rs", "src/hist.rs", "src/image.rs", "imagequant-sys/src/ffi.rs"],
  mech=[("range checks", "Attributes::set_*, QuantizationResult::set_*, Histogram::add_*, Image::new_internal"), ("checked conversion of C integers", "liq_set_*")],
  technique=AI + ": guard regions of every exit compared with the documented region",
  note="exact for the guards found on each exit (all comparisons against constants); numeric quality<->MSE conversion is opaque, only its symmetric use is decided"),
 dict(id="C02", title="C functions validate the type of every handle before using it",
  statement="Every C function that takes a library handle (other than the destroy functions and the deprecated no-op min-opacity functions) checks that each handle is a live handle of the expected type before doing anything else. If one is not, the function returns its documented failure value (LIQ_INVALID_POINTER, NULL, -1) and neither modifies any object or output parameter nor calls a user callback. The four handle types are distinguishable from each other and from freed handles.",
  over=["inputs", "histories"], all="all C functions, all combinations of handle types passed for each handle parameter",
  tests="the tests pass only valid handles",
  files=["imagequant-sys/src/ffi.rs"],
  mech=[("magic header tags", "MagicTag, LIQ_*_MAGIC"), ("bad_object! at the start of each function", "imagequant-sys/src/ffi.rs")],
  technique=AI + ": typestate of each handle (unvalidated -> validated) at every use, write, call and return",
  note="decides that validation dominates every use on every path of every exported function; assumes the memory behind the handle is readable"),
 dict(id="C04", title="C functions perform the operation they stand for and report its outcome",
  statement="Each function of the C API performs the corresponding operation exactly once, on the objects and with the argument values it was given. It reports the operation's own outcome: LIQ_OK, an object or a value exactly when the operation succeeded, the operation's own error code (or NULL, or -1 for an absent measurement) otherwise, and results returned through an output pointer are stored on success and NULL on failure. Callbacks registered through the C API are called with the given user pointer, and a progress callback aborts exactly when it returns 0.",
  over=["inputs", "programs"], all="all C functions, all argument values, all outcomes of the underlying operation",
  tests="the tests take each C function's address and run a handful of successful calls",
  files=["imagequant-sys/src/ffi.rs", "src/capi.rs"],
  mech=[("forwarding wrappers", "imagequant-sys/src/ffi.rs liq_*"), ("error conversion .err().unwrap_or(LIQ_OK), store_boxed_result", "imagequant-sys/src/ffi.rs")],
  technique=AI + ": the operations, argument terms and result dependence of every path compared with a correspondence table",
  note="the underlying operations are opaque symbols; extents of caller memory are trusted"),
 dict(id="C03", title="The C header describes the library that is built",
  statement="Every function declared in libimagequant.h exists in the built library with C linkage and with the declared parameter and return types, and every exported liq_ function meant for users is declared. The numeric error codes and ownership flags, the memory layout of the public structs and the signatures of the callbacks agree between the header and the library. liq_version() never reports a version older than the header.",
  over=["programs"], all="all C programs compiled against the header: every declaration, enumerator, struct field and callback signature",
  tests="the tests are Rust and never compile the header; a mismatch is undefined behaviour in the caller, not a test failure",
  files=["imagequant-sys/libimagequant.h", "imagequant-sys/src/ffi.rs", "src/error.rs", "src/pal.rs", "src/hist.rs"],
  mech=[("#[no_mangle] extern C functions", "imagequant-sys/src/ffi.rs"), ("repr(C) structs and enum discriminants", "src/error.rs, src/pal.rs, src/hist.rs")],
  technique="type-level comparison of clang's AST of the header with rustc's types, layouts and discriminants; struct layouts checked by compile-time assertions (compile-fail witnesses)",
  note="exact for the configuration that is built (C ABI feature on, 64-bit target)"),
 dict(id="C05", title="A progress callback that asks to stop aborts the operation",
  statement="When a registered progress callback answers that processing should stop, the running operation (quantizing, adding an image to a histogram, remapping) fails with Aborted, in whatever phase it is, with and without threads. No operation fails with Aborted otherwise. An operation that succeeds with a progress callback registered has called it.",
  over=["inputs", "histories"], all="all operations, all phases at which the callback may answer stop, all settings",
  tests="the tests abort at most once, at the first call of the callback",
  files=["src/attr.rs", "src/quant.rs", "src/hist.rs", "src/remap.rs", "imagequant-sys/src/ffi.rs"],
  mech=[("progress() / remap_progress() checks", "src/attr.rs, src/quant.rs"), ("error propagation with ?", "src/quant.rs, src/hist.rs, src/remap.rs")],
  technique=AI + ": typestate of the callback's answer on every path to every return, over the call-graph slice that reaches the callback",
  note="thread-pool tasks are analysed as run in place; decides every path through the code that can reach a callback"),
 dict(id="C06", title="Minimum quality is enforced",
  statement="With a minimum quality set, quantization succeeds only if the measured error of the palette is known and does not exceed the limit that stands for that quality, and fails with QualityTooLow otherwise. QualityTooLow is never returned when the error is within the limit or no minimum was set. The error of a successful result is the one that was compared with the limit.",
  over=["inputs", "configurations"], all="all images and histograms, all limits and measured errors, all speeds and iteration counts",
  tests="tests use a couple of images whose quality is far from the limit",
  files=["src/quant.rs", "src/attr.rs", "src/hist.rs"],
  mech=[("comparison of palette_error with max_mse", "QuantizationResult::new"), ("error returned by the search", "find_best_palette")],
  technique=AI + ": constant domain for limit and measured error, reachability of Ok / QualityTooLow in each region",
  note="the measurement itself (floating point) is opaque; what is decided is that its result, whatever it is, decides the outcome"),
 dict(id="C10", title="Image dimensions and buffer sizes are validated",
  statement="An image is created exactly when its dimensions are nonzero and addressable (each at most 2^31-1, pixel data within the address space), its stride is at least the width, and a given pixel slice covers all rows (the last row needs only width pixels); importance maps must have exactly width*height entries (at least that many in the C API), output buffers at least width*height entries, and backgrounds the image's own size and no background of their own. Everything else is refused (BufferTooSmall for buffers or sizes that do not fit, ValueOutOfRange for unusable dimensions or stride, Unsupported for nested backgrounds, NULL from C constructors), and the image reports the dimensions it was given. Only the described area is addressed: rows start stride pixels apart, and exactly width*height elements (or height row pointers) of a C buffer are used.",
  over=["inputs"], all="all widths, heights, strides and buffer lengths (64-bit values), including those whose products overflow 32 or 64 bits",
  tests="a few small images with matching buffers; the out-of-bounds cases and overflows are single points in a huge space",
  files=["src/image.rs", "src/rows.rs", "src/quant.rs", "src/seacow.rs", "imagequant-sys/src/ffi.rs", "src/capi.rs"],
  mech=[("PixelsSource::for_pixels", "src/rows.rs"), ("check_image_size", "src/image.rs, imagequant-sys/src/ffi.rs"), ("size checks of maps, backgrounds, outputs", "src/image.rs, src/quant.rs, imagequant-sys/src/ffi.rs")],
  technique=AI + ": symbolic linear guards of each exit compared with the documented region; lengths of raw slices and row sizes evaluated in the same regions",
  note="guards are extracted symbolically for all values; regions are compared at representative points around every bound and overflow threshold; 64-bit target"),
 dict(id="C12", title="C memory handed to the library is released exactly once",
  statement="Rows, pixels and importance maps whose ownership a C caller passes (and a background image given to another image, whether or not that call succeeds) are released exactly once, no later than the destruction of the image, with the free function of the attributes object the image was created with; pixels of a rows image are released at the address of its lowest row. A refused call transfers nothing, and memory that was not handed over, or that the library allocated itself, is never passed to that function. Only the two ownership flags and their combination are accepted, only for images that have pixels in memory, and repeating a call, releasing pixels early after conversion, replacing a background or cloning an image never releases anything twice.",
  over=["inputs", "histories"], all="all image kinds, all sequences of ownership, background and importance-map calls up to three calls long, then destruction, on every path through the calls",
  tests="the tests free one rows image with one flag combination; a double free or leak on an error path or after a second call is not observed",
  files=["src/seacow.rs", "src/rows.rs", "src/image.rs", "src/capi.rs", "imagequant-sys/src/ffi.rs"],
  mech=[("SeaCow ownership states and Drop", "src/seacow.rs"), ("DynamicRows::set_memory_ownership, free_histogram_inputs", "src/rows.rs"), ("liq_image_set_background, liq_image_set_importance_map", "imagequant-sys/src/ffi.rs")],
  technique=AI + ": ownership typestate over call sequences including drop glue; releases are calls through C function pointers",
  note="sequences of at most three ownership calls; the lowest-row requirement is refuted for fixed rows, greatest and last row, a hand-written search loop is accepted as is"),
 dict(id="C14", title="The reported palette belongs to the pixels that were written",
  statement="After a successful remapping, the palette reported by every way of asking (palette getter, returned vector, C getter) is the rounding of exactly the palette version the pixels were last written with, made with the gamma the result reports and the posterization of the attributes it was made with. After the output gamma is changed no palette made with another gamma is reported. A failed remapping leaves the reported palette alone, and remapping never uses up or alters the palette the next remapping starts from.",
  over=["inputs", "histories"], all="all images, settings and sequences of remapping, setting gamma or dithering level and asking for the palette (up to three calls), on every path",
  tests="tests compare a few palettes after a single remap; an index/palette mismatch after a particular history is invisible to them",
  files=["src/quant.rs", "src/pal.rs", "src/remap.rs", "src/capi.rs", "imagequant-sys/src/ffi.rs"],
  mech=[("rounding of the palette before the final pass", "QuantizationResult::write_remapped_image_rows_internal"), ("cached palettes and their invalidation", "QuantizationResult::int_palette, set_output_gamma")],
  technique=AI + ": version (value-provenance) tracking of the palette through writers, rounding and getters",
  note="writers and rounding are events found by signature; how they compute is numeric"),
 dict(id="C21", title="Reported errors and qualities describe the run they are asked about",
  statement="The quantization error and quality report what the palette search measured, and are absent exactly when it measured nothing. After a successful remapping the remapping error and quality report what that remapping measured, and the quantization values if it measured nothing; a failed remapping does not change them, and setting the dithering level or gamma discards them. Error and quality of the same kind always describe the same measurement.",
  over=["inputs", "histories"], all="all outcomes of search and remapping, sequences of up to two remappings and setting changes, on every path",
  tests="tests check one or two values being present",
  files=["src/quant.rs"],
  mech=[("palette_error of the result and of the last remapping", "QuantizationResult, Remapped"), ("getters", "QuantizationResult::{quantization,remapping}_{error,quality}")],
  technique=AI + ": provenance of the value each getter returns, traced to fresh measurement symbols",
  note="the scales between errors and qualities are numeric and opaque"),
 dict(id="C25", title="The dithering level decides whether error diffusion is used",
  statement="After the dithering level was set to 0, remapping writes its pixels without error diffusion, whatever the image, background or speed. After any level in (0, 1], and by default, the pixels of a successful remapping are written by error diffusion. A rejected level leaves the previous choice in force.",
  over=["inputs", "configurations"], all="all images, backgrounds and speeds, on every path of remapping, for representative levels of each class",
  tests="tests check that dithering visibly happens on one gradient",
  files=["src/quant.rs", "src/remap.rs", "imagequant-sys/src/ffi.rs"],
  mech=[("choice of remapping function", "QuantizationResult::write_remapped_image_rows_internal"), ("range check", "QuantizationResult::set_dithering_level")],
  technique=AI + ": typestate over which kind of pixel writer ran, for constant levels",
  note="levels are sampled per class (0, -0, four positive, three invalid) as constants of the analysis; strength of dithering is numeric"),
 dict(id="C17", title="Results depend only on the inputs, never on hidden state",
  statement="What the library computes is a function of the pixels, settings and calls it was given: it reads no clock, no random numbers, no environment, files, network, standard streams, thread identities or addresses, and iterates over no randomly ordered container. It keeps no state between objects: there are no mutable globals, caches or thread-local memories, so earlier work on other objects cannot influence a result. The number of available threads is the only property of the machine it reads.",
  over=["histories", "schedules", "configurations"], all="every function of the library and of the C API, with and without threads and optional features, whatever was computed before in the process",
  tests="tests run each computation once in a fresh process; state leaking between objects or runs shows only in particular histories",
  files=["src", "imagequant-sys/src/ffi.rs"],
  mech=[("deterministic hasher", "src/hist.rs"), ("per-call thread-local buffers", "src/kmeans.rs, src/remap.rs"), ("no global state", "all modules")],
  technique="effect analysis over MIR: every call, static, container type and pointer-to-integer conversion of every function in every configuration is classified",
  note="order of floating-point sums over threads is not decided (it may differ between thread counts)"),
 dict(id="C18", title="A clone carries every setting, colour, map and cached value",
  statement="Cloning attributes, an image or a result (and copying attributes through the C API) gives an object equal to the original in every setting, pixel source, gamma, map, background, fixed colour, palette, error and remapping it carries, on every path. A cloned result has no progress callback, while cloned attributes keep their callbacks. The rows of a cloned image lead into the clone's own pixels, never into memory that may be released with the original.",
  over=["inputs", "histories"], all="all object states, every path of every clone implementation",
  tests="one test clones a result; a forgotten field keeps compiling when a default exists",
  files=["src/attr.rs", "src/image.rs", "src/rows.rs", "src/quant.rs", "src/seacow.rs", "imagequant-sys/src/ffi.rs"],
  mech=[("manual Clone implementations", "src/rows.rs, src/quant.rs, src/seacow.rs"), ("derived Clone", "src/attr.rs, src/image.rs, src/pal.rs"), ("liq_attr_copy", "imagequant-sys/src/ffi.rs")],
  technique=AI + ": the value returned by every clone is compared field by field with the original",
  note="clones of standard containers are equal copies by assumption; memory borrowed from the caller stays shared, as its lifetime covers the clone"),
 dict(id="C16", title="Computing from an image leaves its settings alone, and uses its map",
  statement="The importance map, the background and the fixed colours a user set on an image are still set and unchanged after every quantization, histogram addition and remapping of it, whether that call succeeds or fails. The contents of a user's importance map are never written, whatever the image size, speed or dithering. Whenever the image's pixels are counted or remapped, the map that is set is the one used for them.",
  over=["inputs", "histories"], all="all images and settings, every path of every call that computes from an image",
  tests="no test looks at an image's map, background or fixed colours after using it",
  files=["src/image.rs", "src/hist.rs", "src/quant.rs", "src/remap.rs"],
  mech=[("contrast maps for images without a map", "Image::contrast_maps"), ("counting pixels", "Histogram::add_image"), ("remapping", "QuantizationResult::remap_into")],
  technique=AI + ": effect analysis of all writes that reach the stored settings and the map's memory, function by function",
  note="where settings are stored is derived by interpreting the public setters; pixels of a background may be converted in place"),
 dict(id="C20", title="Log output is flushed before callbacks change and on destruction",
  statement="Registering a log callback or a log flush callback first calls the flush callback that was in force exactly once (and none if there was none), before the new callback takes effect, and leaves the other callback as it was. Destroying attributes calls their flush callback exactly once, whether or not a log callback is set. Messages go to the log callback registered last, with the attributes they are about, and nowhere when none is registered.",
  over=["histories"], all="all combinations of registered callbacks and every path of registering, logging and destroying",
  tests="no test registers a flush callback",
  files=["src/attr.rs"],
  mech=[("registering", "Attributes::set_log_callback, set_log_flush_callback"), ("destruction", "Drop for Attributes"), ("sending", "Attributes::verbose_print")],
  technique=AI + ": typestate; calls through callback objects and stores of them are ordered events",
  note="panicking callbacks are outside"),
 dict(id="C11", title="Illegal uses of borrowed data, callbacks and threads do not compile",
  statement="In safe Rust, an image, its clone or an image using it as background cannot outlive or coexist with changes of the pixels it borrows, and a palette slice cannot be held over anything that may recompute it. Callbacks must be safe to call from any thread and own (or outlive with) what they use; constructing an image from a row callback needs unsafe code. One object cannot be modified from two threads at once, while all the objects can be sent and shared between threads, with and without the threading feature.",
  over=["inputs", "schedules", "histories"], all="all programs using the public Rust API, by the compiler's rules; shown on a family of illegal programs and their legal twins",
  tests="a test can only contain programs that compile",
  files=["src/image.rs", "src/attr.rs", "src/quant.rs", "src/hist.rs", "src/rows.rs"],
  mech=[("lifetime of images", "Image<'pixels>"), ("bounds on callbacks", "set_progress_callback, set_log_callback, new_fn"), ("exclusive borrow of palettes", "QuantizationResult::palette"), ("automatic Send and Sync", "all public types")],
  technique="compile-fail witnesses: illegal programs must be rejected by the compiler with the expected error class and legal twins accepted, against the library type-checked from the current tree",
  note="a legal program that stops compiling is reported too; an illegal program rejected for another reason is counted as undecided"),
 dict(id="C13", title="Fixed colours reach the palette exactly and stay there",
  statement="Every fixed colour given to an image or histogram becomes an entry of the generated palette in every way the palette can be found, up to the user's maximum number of colours (then the first ones given win). No later step (refinement, replacement of unused colours, sorting, remapping) replaces, moves or drops such an entry; only rounding to 8 bits, gamma and posterization apply to it. Exactly 256 fixed colours can be added, further ones and images exceeding the total are refused without adding anything, and an accepted image hands all its fixed colours to the histogram.",
  over=["inputs", "histories"], all="all numbers of fixed colours, palettes, maxima and settings; every path of search, refinement, sorting and remapping",
  tests="one test has fixed colours, with one palette size and speed; loss shows only for particular popularity, quality or order",
  files=["src/pal.rs", "src/quant.rs", "src/kmeans.rs", "src/hist.rs", "src/image.rs", "src/remap.rs"],
  mech=[("insertion", "PalF::with_fixed_colors"), ("mark in the popularity", "PalPop"), ("refinement that skips marked entries", "Kmeans::finalize, replace_unused_colors"), ("limits", "Image::add_fixed_color, Histogram::add_fixed_color, Histogram::add_image")],
  technique=AI + ": palettes with marks made by the library's own functions and symbolic colours are followed through every function that modifies palettes",
  note="palettes of up to three entries stand for all sizes (plus one of any size with all entries marked); sorts are taken to permute"),
 dict(id="C19", title="A palette made from a histogram is final",
  statement="Every entry of a palette generated from a histogram is frozen: remapping any image, with any dithering and any number of times, neither improves nor replaces its colours. The palette returned after a remapping is then the one returned before it (for the same output gamma), so images remapped with one result share one palette.",
  over=["inputs", "histories"], all="all palettes the search may find, every path from the histogram to the result and through remapping",
  tests="no test compares palettes before and after a remapping of another image",
  files=["src/hist.rs", "src/quant.rs", "src/pal.rs", "src/kmeans.rs", "src/remap.rs"],
  mech=[("freezing", "QuantizationResult::new"), ("mark in the popularity", "PalPop"), ("refinement that skips marked entries", "Kmeans::finalize")],
  technique=AI + ": marks of all entries of the result's palette, for arbitrary palettes found; effect of every palette-modifying step on marked entries",
  note="palettes of up to three entries stand for all sizes (plus one of any size with all entries marked)"),
 dict(id="C07", title="A palette never has more colours than the maximum asked for",
  statement="Every result made from images or histograms has at most as many colours as the attributes' maximum, whichever way the palette is found (few input colours, repeated trials, fixed colours). No later operation, remapping included, makes it longer. The palettes returned and reported, in Rust and in C, never have more entries than that.",
  over=["inputs", "histories"], all="all histograms, numbers of fixed colours, maxima and settings; any number of rounds of every loop; every operation on a result",
  tests="tests use a few palette sizes; an excess shows only for particular numbers of colours, trials or fixed colours",
  files=["src/quant.rs", "src/mediancut.rs", "src/pal.rs", "src/kmeans.rs", "src/capi.rs", "src/remap.rs"],
  mech=[("limit on boxes", "mediancut"), ("limit shared by the trials", "find_best_palette"), ("room for fixed colours", "PalF::with_fixed_colors"), ("integer palette and its count", "PalF::init_int_palette, Palette::as_slice")],
  technique=AI + " with linear relations: lengths of palettes and box lists are terms, loop invariants against the maximum are inferred, functions on palettes are summarised by proven length bounds",
  note="maximum between 2 and 256 (C01); a bound that cannot be derived and has no definite excess is reported as undecided"),
]
NA = [
 dict(id="C90", title="Each pixel is mapped to the nearest palette colour",
  statement="Without dithering, every pixel is remapped to a palette entry at minimal perceptual distance from it.",
  over=["inputs"], all="all images and palettes", tests="numerical property over all colours",
  files=["src/nearest.rs", "src/remap.rs"], mech=[("vantage point tree", "src/nearest.rs")],
  reason="depends on floating-point distances and the triangle inequality over runtime colours (the search prunes by numeric bounds); no static argument in reach bounds them"),
 dict(id="C91", title="The generated palette is close to optimal for the requested quality",
  statement="The palette chosen minimises the error within the limits set by speed and quality.",
  over=["inputs"], all="all images", tests="heuristic optimisation quality",
  files=["src/mediancut.rs", "src/kmeans.rs", "src/quant.rs"], mech=[("median cut with k-means refinement", "src/quant.rs")],
  reason="quality of a heuristic numerical optimisation; there is no structural condition whose violation is the property's violation"),
 dict(id="C92", title="Colour conversions round-trip",
  statement="Converting any 8-bit RGBA colour to the internal representation and back with the same gamma yields the same colour.",
  over=["inputs"], all="all colours and gammas", tests="pal_test samples some",
  files=["src/pal.rs"], mech=[("gamma lookup table", "src/pal.rs")],
  reason="exactness of floating-point powf and rounding; a numerical fact, to be shown by enumeration or proof over floats, not from the shape of the code"),
]
