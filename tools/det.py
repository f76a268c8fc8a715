"""Per property: what is analysed, oracle and rule, bounds (for DESIGN.md)."""
DET = {
 "C01": ('every setter, its C counterpart and getters',
  'per exit: guard region and post-state (field term by term); the guards compare the parameter with constants only, so regions between the constants are finite; one representative per region, the documented bounds, NaN/inf/-0, and every wrap class of narrowing casts decide equality with the documented region. On error exits the object must be the entry object; on success the getter is interpreted on the post-state and must return the parameter term.',
  'exact for comparisons with constants; a guard computed otherwise is undecided'),
 "C02": ('all exported C functions x handle parameters',
  'typestate unvalidated -> validated per handle. Any read behind a handle (other than its tag), library call, write to caller memory or user callback on a path that has not established `tag == tag of T` is a violation; so is a return with another value than the documented failure value.',
  'memory behind a handle is assumed readable'),
 "C03": ('header vs library',
  "clang's AST of libimagequant.h vs rustc's signatures, layouts and discriminants; struct layouts and enum values are additionally put into generated `_Static_assert`s that clang type-checks.",
  'exact for x86-64'),
 "C04": ('all exported C functions',
  'library operations are opaque symbols; per path the list of operations, their argument terms and the return term are compared with a table of the documented correspondence. Closures adapting callbacks are interpreted with symbolic user pointers and answers.',
  'operations themselves are the business of the other properties'),
 "C05": ('quantize, histogram and remap entry points',
  'the callback is a symbol with two outcomes; a ghost flag remembers Break. Every return is compared with the flag, for every path of the slice of functions that can reach the callback, with and without threads.',
  'rayon tasks are run in place; deep call contexts are merged beyond the partition cap (flags are never merged)'),
 "C06": ('public quantization entry points, and the function that builds the weighted histogram',
  'limit and measured error are constants of a scenario (error above the limit, just above a limit of zero, far below, zero with the strictest limit, no limit); reachability of Ok/QualityTooLow per scenario and the error stored in the result. In addition, for a histogram of fixed colours only (every weight read is 0) the weight stored for each item must be positive, because errors are divided by the total weight and 0/0 passes any limit.',
  'the measurement itself is opaque'),
 "C10": ('all public functions taking buffers',
  'guards of every exit as linear constraints over dimensions, stride and length (products symbolic); regions compared at points on and around each bound and at overflow sizes; lengths of all raw slices and row sizes evaluated at the same points.',
  '64-bit target; point comparison is complete for guards that are linear between those points'),
 "C11": ('64 programs, each with and without the threading feature',
  'borrow- and type-checked against metadata of the current tree; illegal ones must fail with the expected error class, legal twins must be accepted.',
  "a family, not all programs; what it shows is the compiler's rule, which holds for all programs of that shape"),
 "C12": ('image kinds x ownership call sequences (<=3) x destruction',
  'every call through a C function pointer is an event `release(ptr)`; the releases of each path are compared with what its successful calls transferred. The heap allocation of an image handle that is destroyed or given away as background must be released exactly once as well.',
  'lowest row: fixed row indices, greatest/last row are refuted; a hand-written loop is accepted'),
 "C07": ('the constructor of results with the whole palette search, every function taking a palette mutably, every function of a finished result, and the getters',
  "functions that change a palette in place must not make it longer, functions that return one get the bound 'at most B if the limit given is' (both proven by running them on lists of symbolic length, callees first, and then used at their calls); the constructor must return a palette within the maximum on every path. A failing path is reported when its length has a definite excess (maximum + 1, + 2 or + the length of an input list, or an exact length unrelated to the maximum).",
  'an unbounded length without such evidence is undecided'),
 "C13": ('functions that insert fixed colours, every function with a mutable palette, the palette search, the constructor of results, and the functions that add or list fixed colours',
  "insertion with 0-3 entries, 0-3 fixed colours and maxima 1, 2, 3, 256: every fixed colour must be a marked entry of the result. Each modifying function gets palettes of marked and unmarked entries (marks computed by the library's own functions, all orders of short sorts, all outcomes of float comparisons): marked colours must still be there, marked. The search may only return palettes that went through insertion with the user's maximum and the whole list. Limits at 0..300 present colours.",
  'up to three entries (plus any number when all are marked); a helper that overwrites entries is accepted when all its callers pass'),
 "C14": ('histories of remap / set gamma / palette getters (<=3)',
  'palette versions: any function taking the palette mutably makes a new version, rounding yields (version, gamma, posterization), pixel writers record the version; getters must return the rounding of the recorded version.',
  'writers and rounding opaque'),
 "C16": ('settings stored by public setters x computing calls',
  "observes every write/move/Vec mutation that reaches the stored field or the memory behind it; map used = counted through the histogram's and remapper's reads.",
  ''),
 "C17": ('every function, static and callee in three configurations',
  'classification of callees by path and type arguments, of statics by interior mutability, of pointer-to-integer casts by use.',
  'floating-point summation order over threads is excluded from the statement'),
 "C18": ('every Clone implementation and liq_attr_copy',
  "returned value compared with the original field by field on every path; cloned rows must not alias the original's buffer.",
  'clone of std containers is the identity'),
 "C19": ('the public path from histogram to result, and every function with a mutable palette',
  'the search is replaced by arbitrary palettes of 1-3 entries with all kinds of marks; every entry of the palette stored in the result must test as marked. Modifying functions as in C13.',
  'up to three entries (plus any number when all are marked)'),
 "C20": ('log/flush setters, destructor, logging',
  'events: calls through the callback objects and stores of them, in order, for all four combinations of registered callbacks.',
  ''),
 "C21": ('histories of remap / setting changes / getters (<=2)',
  "search and writers return fresh measurement symbols; getters' terms are traced back to them.",
  'conversion error<->quality opaque'),
 "C25": ('set level x remap',
  'constant levels per class; writers that can reach error diffusion are told apart by signature and reachability.',
  'levels per class'),
}
