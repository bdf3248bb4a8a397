"""What each check is made of."""
MKL_LIBS = ["-lmkl_intel_lp64", "-lmkl_sequential", "-lmkl_core", "-ldl", "-lpthread", "-lm"]

TRUST = ("Random and coverage-guided search, not a proof. Trusts the compilers, ASan/UBSan and the reference oracle. ")

NOT_APPLICABLE = {}

CHECKS = {
    "C01": dict(
        src="array.cpp",
        technique="stateful property-based testing against std::vector, with lifetime-tracking elements, ASan and leak accounting",
        note=TRUST + "Histories of up to 60 operations over 3 arrays, 8 element types, sizes to 300, now and then 3000."),
    "C02": dict(
        src="small_array.cpp",
        technique="stateful property-based testing against std::vector, with lifetime-tracking elements, ASan and leak accounting",
        note=TRUST + "Histories of up to 50 operations over 3 arrays, inline limits 1, 3 and 5, sizes to 40, now and then 400."),
    "C03": dict(
        src="nd_array.cpp", parts=7,
        technique="stateful property-based testing against a table model, with lifetime-tracking elements, ASan and leak accounting",
        note=TRUST + "Histories of up to 40 operations over 3 arrays, extents up to 12 (rank 2) or 6, now and then one of 150 or 40."),
    "C04": dict(
        src="view.cpp",
        technique="property-based testing of chains of views against the addresses and values selected, with ASan",
        note=TRUST + "Chains of up to 4 views over parents of up to 20 elements (rank 1), 8 x 8 (rank 2), 5 x 5 x 5 (rank 3), now and then 300, 40 x 40, 14 x 14 x 14."),
    "C05": dict(
        src="checked_access.cpp", parts=8, variants=["dbg", "chk"],
        technique="property-based testing of accesses with boundary-biased indices against the definition of a valid index",
        note=TRUST + "Histories of up to 24 accesses; built once with IL_UNIT_TEST (a refusal throws) and once without (a refusal aborts, caught by a signal handler)."),
    "C06": dict(
        src="alignment.cpp", parts=5,
        technique="stateful property-based testing of aligned arrays against the addresses asked for, with ASan",
        note=TRUST + "Histories of up to 16 operations over 3 arrays; alignments are multiples of the size of the elements."),
    "C07": dict(
        src="safe_arithmetic.cpp", variants=["dbg", "rel", "blt"],
        technique="property-based testing of every overload against 128-bit arithmetic, operands biased to the limits",
        note=TRUST + "16 million operand tuples per quick run, about a third with no exact result."),
    "C08": dict(
        src="map.cpp", parts=6,
        technique="stateful property-based testing against std::map, with colliding keys, lifetime-tracking keys and values, ASan and leak accounting",
        note=TRUST + "Histories of up to 80 operations over 3 maps, up to 60 distinct keys, now and then 12000; int, long, String and a colliding key type. The two reserved values of the integer keys are excluded."),
    "C09": dict(
        src="map_array.cpp", parts=4,
        technique="stateful property-based testing against a vector of pairs and std::set, with lifetime-tracking elements, ASan and leak accounting",
        note=TRUST + "Histories of up to 60 operations over 3 containers, up to 60 distinct keys, now and then 10000."),
    "C10": dict(
        src="deque.cpp",
        technique="stateful property-based testing against std::deque, with lifetime-tracking elements and ASan",
        note=TRUST + "Histories of up to 80 operations over 2 deques with capacities up to 12. The capacity is fixed by contract: a push on a full deque has to be refused, or kept."),
    "C11": dict(
        src="string.cpp", parts=2,
        technique="stateful property-based testing against std::string, with ASan and leak accounting",
        note=TRUST + "Histories of up to 50 operations over 3 strings of up to 300 bytes; texts are valid UTF-8 and positions are rune boundaries, as the checks of the library ask for."),
    "C12": dict(
        src="unicode.cpp",
        technique="property-based testing of encodings, conversions and predicates against reference encoders and a reference validator, stateful for UTF-16 strings",
        note=TRUST + "Texts of up to about 100 code points, biased to the limits of the encoded lengths and to the surrogates."),
    "C13": dict(
        src="dynamic.cpp",
        technique="stateful property-based testing against a tree of plain values, with ASan and leak accounting",
        note=TRUST + "Histories of up to 24 operations over 3 values, trees of depth up to 3 with up to 5 children. is<int>() is not checked: an int is stored as an il::int_t."),
    "C14": dict(
        src="info.cpp",
        technique="stateful property-based testing against a map from keys to values, with ASan and leak accounting",
        note=TRUST + "Histories of up to 40 operations over 3 objects; keys and texts are C strings of up to 40 bytes. A status is only set again once it has been checked, as the checks of the library ask for."),
    "C15": dict(
        src="structured.cpp", mkl=True,
        technique="stateful property-based testing of structured matrices against maps of entries, and of sparse ones against dense matrices, with lifetime-tracking elements and ASan",
        note=TRUST + "Dimensions up to 9, integer values so that products are exact. Products through the vendor library are only asked for matrices with at least one entry."),
    "C16": dict(
        src="algorithm.cpp",
        technique="property-based testing of every algorithm against its definition",
        note=TRUST + "Arrays of up to 60 elements, rarely of up to 90000; NaN is excluded. Mean and variance within a few rounding errors per element."),
    "C26": dict(
        src="math.cpp",
        technique="property-based testing of every helper against 128-bit arithmetic and naive definitions, arguments biased to the powers of two and the limits",
        note=TRUST + "The divisor of il::floor(a, b) is positive; arguments whose result cannot be represented are not asked for."),
    "C18": dict(
        src="norm.cpp",
        technique="property-based testing against the definition in extended precision, with homogeneity and triangle inequality as metamorphic relations",
        note=TRUST + "Vectors of up to 40 elements and matrices of up to 9 rows, now and then 5000 and 300, scales from 1e-60 to 1e60 so that squares neither overflow nor vanish."),
    "C17": dict(
        src="blas.cpp", mkl=True,
        technique="property-based testing against the formulas evaluated in extended precision, exact on integer data, with canaries around every operand and ASan",
        note=TRUST + "Dimensions up to 12, now and then up to 70. Operands never overlap. The vendor library is not instrumented: what it reads out of bounds is seen through NaN canaries in the result."),
    "C19": dict(
        src="direct.cpp", mkl=True,
        technique="property-based testing of backward errors, inverses and factorizations recomputed in extended precision, on generated regular and singular systems",
        note=TRUST + "Up to 12 unknowns, now and then 40. Singular matrices are those that elimination finds to be so without rounding. The condition number is only bounded on both sides."),
    "C20": dict(
        src="spectrum.cpp", mkl=True,
        technique="property-based testing of spectra prescribed through orthogonal transforms in extended precision, and of the traces of the powers for arbitrary matrices",
        note=TRUST + "Dimensions up to 12 (singular values: 1, 2, 3, 4, 6 and 9). The class il::Singular cannot be instantiated and is not covered."),
    "C21": dict(
        src="sparse_solve.cpp", mkl=True,
        technique="stateful property-based testing of the residuals recomputed in extended precision, on generated sparse systems and histories of one solver object",
        note=TRUST + "Up to 40 unknowns, strictly diagonally dominant matrices with a full diagonal. Leaks inside the vendor library are not counted."),
    "C22": dict(
        src="toml_roundtrip.cpp", repo_src=["il/io/toml/toml.cpp"],
        technique="round-trip property-based testing of generated documents",
        note=TRUST + "Tables nested up to 5 deep, arrays up to 4 deep, strings of up to 450 characters. NaN and infinities, which the format does not have, are excluded."),
    "C23": dict(
        src="toml_parse.cpp", repo_src=["il/io/toml/toml.cpp"],
        technique="grammar-based generation of documents against the tree they were written from, generation of definite errors, mutation fuzzing",
        note=TRUST + "The supported subset: no dates, no dotted keys, no multi-line strings, no underscore after the dot of a number; tables and arrays nested less than 128 deep. Errors are drawn from a catalogue of definite errors put anywhere in a document; everything else is only required to end cleanly."),
    "C24": dict(
        src="numpy.cpp", repo_src=["il/io/numpy/numpy.cpp"],
        technique="round-trip property-based testing with an independent reader and writer of the format, mutation fuzzing of the files",
        note=TRUST + "int and double, which are the supported element types; up to 1200 elements. Definite mismatches are drawn from a catalogue; mutated files are only required to end cleanly."),
    "C25": dict(
        src="filepack.cpp", repo_src=["il/io/toml/toml.cpp"],
        technique="round-trip property-based testing of generated trees, exhaustive and sampled truncations, mutation fuzzing of the files",
        note=TRUST + "trees up to 60 levels; Map cannot be saved at the top level (the library has no such function). Mutated files are only required to end cleanly."),
    "C27": dict(
        src="tree.cpp", parts=2,
        technique="stateful property-based testing against a map from paths to values, with lifetime-tracking elements and ASan",
        note=TRUST + "Histories of up to 40 operations over 2 trees; 1, 2, 3, 5, 8 or 30 children per node, depth at most 9 (40 with one child)."),
    "C28": dict(
        src="timing.cpp",
        technique="stateful property-based testing of timers and benchmarks against exact sums on a virtual clock, and of durations in words by reading them back",
        note=TRUST + "The calls which read the clock and sleep are replaced in the harness by a counter of nanoseconds: histories of up to 25 operations on 2 timers, benchmarks whose iterations cost between a 2000th of the goal and a few times it. The real clock of the system is not judged."),
    "C29": dict(
        src="format.cpp", repo_src=["il/io/format/print.cc", "il/io/format/ostream.cc"],
        technique="property-based testing against a reference formatter (printf for the digits of doubles), with a catalogue of malformed strings and random ones, and ASan",
        note=TRUST + "Up to 4 arguments (20 in one case), widths to 900, precisions to 40 (900 from an argument). The locale, the 'n' type, wide strings, %-style formatting and colors are not covered."),
    "C30": dict(
        src="misuse.cpp", parts=5, variants=["dbg", "chk"],
        technique="property-based testing of calls in and out of the contract of the operations, in a random state, against the contract stated on a model",
        note=TRUST + "Built once with IL_UNIT_TEST (a refusal throws) and once without (a refusal aborts, caught by a signal handler). Counts and positions whose sum with the size overflows are not drawn."),
    "C31": dict(
        src="linear_misuse.cpp", parts=5, variants=["dbg", "chk"], mkl=True,
        technique="property-based testing of operands and options in and out of the contract of the operations of linear algebra, against the contract stated on the dimensions",
        note=TRUST + "Built once with IL_UNIT_TEST (a refusal throws) and once without (a refusal aborts, caught by a signal handler). Dimensions up to 6; systems are not empty. An aliased result is one that starts at the same place as an operand."),
    "C32": dict(
        src="fresh.cpp", parts=5, variants=["dbg"],
        technique="stateful property-based testing of histories of constructions and resizings against a table of the elements which have been given a value",
        note=TRUST + "Histories of up to 12 operations, sizes to 30 (rank 1), 7 x 7, 4 x 4 x 4 and 3 x 3 x 3 x 3. Only a build with the preconditions on gives this guarantee."),
    "C33": dict(
        src="file.cpp",
        technique="stateful property-based testing of histories of reads, skips and writes against a model of the bytes of the files, with ASan",
        note=TRUST + "Histories of up to 20 operations over 2 files, up to 20000 bytes; failures of the system are a missing file, a missing directory and a full device. Reading and writing the same object (FileMode::ReadWrite), which the constructor refuses, is not covered."),
    "C34": dict(
        src="ppm.cpp",
        technique="property-based testing against an independent writer of the format, sampled truncations, a catalogue of definite errors, mutation fuzzing",
        note=TRUST + "Up to 700 x 300 pixels, 255 levels, comments only after the first line. Definite errors are drawn from a catalogue; mutated files are required to end cleanly, with pixels of the file if they are accepted."),
    "C35": dict(
        src="sobol.cpp", mkl=True,
        technique="property-based testing of the stratification of the blocks of points (the definition of a low discrepancy sequence), of the prefix property and of the scaling as metamorphic relations",
        note=TRUST + "Up to 4100 points and 40 dimensions. The direction numbers, which are a choice of the vendor library, are not specified beyond what the stratification says."),
    "C36": dict(
        src="threads.cpp", parts=5, variants=["tsn", "tsr"], mkl=True, repo_src=["il/io/toml/toml.cpp", "il/io/numpy/numpy.cpp", "il/io/format/print.cc", "il/io/format/ostream.cc"],
        technique="property-based testing of generated programs run by several threads, with ThreadSanitizer and the sequential run of each program as oracles",
        note=TRUST + "Up to 4 threads and 5 operations per thread; races inside of the vendor library are not seen."),
}
