claim("P01", "panic-site obligations over MIR, discharged by path conditions and a linear-arithmetic domain",
      "Every operation in the crate that can panic (bounds, slicing, unwrap, division, overflow, negation, library calls with panicking cases, explicit panics) is an obligation; each is shown unreachable for all inputs by the gated path condition plus Fourier-Motzkin reasoning over ranges, lengths, loop positions and counters. Trusts MIR, std models and a list of non-panicking library functions; capacity overflow and allocation failure are P04's, stack overflow P03's.")
for _p in "P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P18 P19 P20 P21 P22 P23 P24 P26 P29 P31 P32".split():
    claim(_p, SPECT, SPECNOTE)
claim("P05", "failure dataflow over MIR: every step that can fail makes its function or loop pass fail on every path",
      "For each function the gated value of its result is examined: on every path condition under which a called fallible step yields Err (or a step counted as fallible yields nothing) the result must be a failure, except reviewed sites. Units whose summary equals the reviewed one hold by the review; the rest are examined step by step and for inputs newly accepted although a step fails.")
claim("P06", "lookup dataflow over MIR: absence of a referenced item makes its function fail on every path",
      "Like P05, for lookups (map get, find, object / mapping / root lookups): each path on which the lookup yields nothing must fail, except the reviewed sites.")
claim("P02", "termination measures over the carried state of every loop in MIR",
      "Every natural loop and every library-driven iteration is summarised as a recurrence over its carried cells; each needs a measure that decreases on all back edges: one finite iterator, a reader left strictly shorter (through the summaries of the calls it is passed to), a counter that moves to a bound or a growing visited set. Iterators without an end of their own need a bound. Time to run a long range is not bounded, only its end.")
claim("P03", "strongly connected components of the call graph with a depth-argument rule",
      "Each recursive component must pass on an integer that grows around every cycle and is tested against a constant limit of at most 256 on every cycle (checked on the path conditions of the recursive calls), or walk down a value already in memory. Stack use per level is not computed: the limits in the tree were tried out on the 2 MiB default stack.")
claim("P04", "reservation analysis: every capacity request in MIR bounded by counts of data already in memory",
      "Every call that reserves or allocates a caller-chosen amount is an obligation: on every path its amount must count elements or bytes already in memory, the size of the file, or be bounded by a constant. Growth by pushing inside loops is bounded by what the loop consumes (P02 gives the measure); total memory of decoded structures is not computed.")
claim("P25", "effect analysis over the closed call graph of MIR references to external code",
      "Every reference from crate code to external code is classified; only reading of files and folders is allowed, and only on call paths from the path-based entry points; no unsafe code, foreign functions, environment, network, process or clock.")
claim("P27", "state and ownership analysis: statics, interior mutability, auto traits and writes through shared inputs",
      "No mutable or interior-mutable static, thread-local or lock; public types are Send + Sync + Freeze by rustc's own trait solver; caller-supplied arguments are not changed. Concurrent use of the file system by other programs is out of scope.")
claim("P28", "order-taint analysis of hash-map and directory enumeration, effect analysis for other sources of variation",
      "Every enumeration with unspecified order must flow only into order-insensitive consumers (sorts, maps, counts, existence) or a reviewed site; random numbers, clocks, addresses and environment must not be referenced.")
claim("P30", "failure dataflow over MIR: the kind of error on each failing path compared with the reviewed one",
      "For every function the error value on each path on which both the tree and the reviewed tree fail is compared; the texts of messages, and moves of a failing step between functions, do not count.")
claim("P36", "value-range and bit-provenance analysis of every narrowing conversion in MIR",
      "Every conversion to an integer type with fewer bits (and from floats) is an obligation: on every path that reaches it the value fits (linear-arithmetic domain over the path conditions and the ranges of encodings), or every bit that can be cut off occurs elsewhere in the function's results. Private functions are judged with what their callers pass. 64-bit usize.")
claim("P37", "unsafety audit over HIR, MIR and the closed set of external references",
      "No unsafe block, function, implementation, foreign item or mutable static in the crate and no reference to an unsafe external function; memory safety then follows from the compiler for crate code. The external crates in use (std, bytes, itertools, uuid, ...) are trusted.")
