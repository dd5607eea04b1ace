import os

# Build variants of every check.  flags are added to the common flags.
SSE41 = ["-msse4.1"]
AVX2 = ["-mavx2"]
NOSIMD = ["-DMEOJSON_DISABLE_PACKED_BYTES"]
KEEP = ["-DMEOJSON_KEEP_FLOATING_PRECISION"]
FS = ["-DMEOJSON_FS_PATH_EXTENSION"]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-g1", "-DMC_ASAN=1"]
FULL = KEEP + FS + SSE41  # as the project's own tests are built

NOT_APPLICABLE = {}

# the NEON block primitives, on a software arm_neon.h
NEON = ("neon", ["-U__SSE2__", "-D__ARM_NEON", "-D__arm64__", "-DMEOJSON_ENABLE_NEON", "-flax-vector-conversions",
                 "-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "arm")], {"optional": True})
ENUM = "exhaustive bounded enumeration on the real code, compared step by step with a reference model"
SIMD_VARIANTS = [("sse2", []), ("swar64", NOSIMD), ("sse41", SSE41), ("avx2", AVX2),
                 ("swar32", ["-DMC_TRAIT=json::_packed_bytes::packed_bytes_trait<4>"], {"optional": True}),
                 ("scalar", ["-DMC_TRAIT=json::_packed_bytes::packed_bytes_trait_none"], {"optional": True}), NEON]

CHECKS = {
    "C01": {"src": "h/c01.cpp", "variants": [("default", []), ("swar64", NOSIMD)],
            "technique": "explicit enumeration of all bounded texts on the real parser against a reference grammar",
            "note": "Every text of each listed finite space is parsed by the real strict parser and by an independent RFC 8259 reference; acceptance and tree must agree. Bounded by text length/alphabet; trusts the reference parser."},
    "C02": {"src": "h/c02.cpp", "variants": [("default", []), ("sse41", FULL)],
            "technique": "explicit enumeration of all bounded trees and whitespace placements, parsed by the real parser",
            "note": "All trees up to a node bound, all whitespace placements up to a bound, all short number spellings and all sizes up to a bound; every observer compared with the tree. Bounded."},
    "C03": {"src": "h/c03.cpp", "variants": SIMD_VARIANTS[:4] + SIMD_VARIANTS[5:],
            "technique": "complete enumeration of escape units, surrogate pairs and escape/run interleavings on the real parser",
            "note": "All 65536 units and all 1048576 pairs are complete; interleavings with raw runs are complete up to the stated offsets and gaps."},
    "C04": {"src": "h/c04.cpp", "variants": [("default", []), ("swar64", NOSIMD)],
            "technique": "explicit enumeration of all bounded commented texts against a reference grammar",
            "note": "Every text of each listed finite space through the comment-tolerant parser versus an independent reference; plus agreement with the strict parser. Bounded by length and alphabet."},
    "C05": {"src": "h/c05.cpp", "variants": SIMD_VARIANTS + [("avx2-O2-cpp20", AVX2 + ["-O2"], {"std": "c++20"}), ("full", FULL)],
            "technique": "explicit enumeration over build configurations x buffer kinds x alignments x texts on the real parser",
            "note": "Each configuration is compared with the same configuration-independent reference, hence with each other. Bounded texts; x86 block primitives run natively, the NEON ones on a software arm_neon.h."},
    "C06": {"src": "h/c06.cpp", "variants": SIMD_VARIANTS[:4] + [NEON, ("asan", ASAN + SSE41)],
            "technique": "explicit enumeration of bounded texts flush against inaccessible pages on the real parser",
            "note": "Any read of even one byte outside the text faults; complete over the listed spaces, bounded by length."},
    "C07": {"src": "h/c07.cpp", "variants": [("default", []), ("full", FULL), ("cpp20", [], {"std": "c++20"})],
            "technique": "explicit enumeration of all bounded trees and construction routes on the real serialiser and parser",
            "note": "Every tree up to a node bound, built by 8 API routes or parsed from enumerated texts, is serialised, judged by an independent grammar, reparsed and compared. Bounded."},
    "C08": {"src": "h/c08.cpp", "variants": [("default", [])],
            "technique": "explicit enumeration of all bounded trees x indent widths on the real pretty printer",
            "note": "Every tree up to a node bound times widths 0..300, depth and size sweeps, compared with an independent printer and reparsed. Bounded."},
    "C09": {"src": "h/c09.cpp", "variants": [("default", []), ("avx2", AVX2), ("swar64", NOSIMD)],
            "technique": "complete enumeration of short byte strings and of byte positions in runs on the real serialiser",
            "note": "All byte strings up to length 2 (3 in the thorough tier) are complete; longer ones over run/offset/byte spaces. Judged by decoding, not by spelling."},
    "C10": {"src": "h/c10.cpp", "variants": [("default", [])],
            "technique": "explicit-state exploration: all (tree, place, edit) transitions and all bounded edit histories on the real values, replayed against an abstract tree",
            "note": "Every tree up to a node bound x every place x every edit, and every edit history up to a depth from several roots; each step's result, return value and refusal is compared with the model. Bounded."},
    "C11": {"src": "h/c11.cpp", "variants": [("default", [])],
            "technique": "explicit exploration of all bounded operation histories on two real arrays against a sequence model",
            "note": "All histories of length 3 (4 in the thorough tier) over all operations of json::array and two arrays, plus every size/position of erase, concatenation and construction up to a bound."},
    "C12": {"src": "h/c12.cpp", "variants": [("default", [])],
            "technique": "explicit exploration of all bounded operation histories on two real objects against a map model",
            "note": "All histories of length 3 (4 in the thorough tier) over all operations of json::object and two objects, all pairs of key subsets, all insertion orders."},
    "C13": {"src": "h/c13.cpp", "variants": [("default", []), ("asan", ASAN)],
            "technique": "explicit exploration of all bounded copy/move/change histories over three real values against independent abstract trees",
            "note": "Every tree up to a node bound x every copy and move form x changes of every part of either side, and all histories of copies, moves and changes over three handles; also under address and undefined-behaviour sanitizers."},
    "C14": {"src": "h/c14.cpp", "variants": [("default", []), ("asan", ASAN)],
            "technique": "complete enumeration of (tree, destination place, source place, edit) on the real values against an abstract tree",
            "note": "Every tree up to a node bound x every ordered pair of places x every edit taking an argument; leaks and double frees by block counting, invalid accesses by the sanitizer build."},
    "C15": {"src": "h/c15.cpp", "variants": [("default", [])],
            "technique": "complete enumeration of pairs of bounded trees and build routes on the real comparison operators against structural equality",
            "note": "All ordered pairs of trees up to a node bound, every pair of build routes of every tree, every single-place change of every tree, sizes and depths up to a bound. Transitivity follows because every decided pair equals structural equality."},
    "C16": {"src": "h/c16.cpp", "variants": [("default", []), ("ubsan", ["-fsanitize=undefined", "-fno-sanitize-recover=all", "-g1"])],
            "technique": "complete enumeration of 16-bit integers, boundary neighbourhoods and bounded number texts on the real conversions against exact 128-bit arithmetic",
            "note": "All 16-bit values, all values within a distance of every power of two and multiple of a power of ten, all grammar spellings and all raw texts up to a length, every single-character edit of every type limit; every read route. -0 read as unsigned and padded raw literals are left open."},
    "C17": {"src": "h/c17.cpp", "variants": [("default", []), ("keep", KEEP)],
            "technique": "complete enumeration of all exponents x structured mantissas, rounding midpoints and bounded number texts on the real conversions",
            "note": "float/double: all exponents x mantissas with few bits set or cleared (thorough: every float); rounding ties computed exactly from neighbours; texts judged by the C library. Bounded for double and long double."},
    "C18": {"src": "h/c18.cpp", "variants": [("scalars", ["-DMC_PART=fam::Scalars"] + FS), ("containers", ["-DMC_PART=fam::Containers"]), ("nullables", ["-DMC_PART=fam::Nullables"])],
            "technique": "complete enumeration of bounded trees x a family of target types on the real queries, conversions and lookups against structural definitions",
            "note": "Every tree up to a node bound against over 120 target types; each type has an independent definition of the shapes it accepts and the content they denote. Bounded by tree size and the type family."},
    "C20": {"src": "h/c20.cpp", "variants": [("part%d" % i, ["-DMC_PART=fam::Containers%d" % i]) for i in (1, 2, 3, 4)] + [("wide", ["-DMC_PART=fam::Wide"]), ("matrix1", ["-DMC_PART=fam::Matrix1"]), ("matrix2", ["-DMC_PART=fam::Matrix2"])] + [("cpp20-%d" % i, ["-DMC_PART=fam::Containers%d" % i], {"std": "c++20", "thorough_only": True}) for i in (1, 2, 3, 4)],
            "technique": "complete enumeration of bounded trees x a family of container types on the real conversions in both directions, every value category",
            "note": "Every tree up to a node bound x some 50 container types: every fitting one is built by every construction route and read back by every conversion route; every unfitting one must be refused on every route. Bounded by tree size, lengths and the type family."},
    "C25": {"src": "h/c20.cpp", "variants": [("part%d" % i, ["-DMC_PART=fam::Nullables%d" % i]) for i in (1, 2, 3, 4)] + [("cpp20-%d" % i, ["-DMC_PART=fam::Nullables%d" % i], {"std": "c++20", "thorough_only": True}) for i in (1, 2, 3, 4)],
            "technique": "complete enumeration of bounded trees x a family of nullable and variant types on the real conversions in both directions",
            "note": "Every tree up to a node bound x some 60 optional, smart-pointer, variant and null types and containers of them; every construction and conversion route. static_cast to std::optional and to one-element tuples is decided by their own converting constructors and not claimed."},
    "C19": {"src": "h/c19.cpp", "variants": [("scalars", ["-DMC_PART=0"]), ("containers", ["-DMC_PART=1"]), ("asan", ["-DMC_PART=0"] + ASAN)],
            "technique": "complete enumeration of bounded trees x paths x default types on the real lookup against a walk over the abstract tree",
            "note": "Every tree up to a node bound x every path of up to three components (keys, in-range, out-of-range and negative positions) x 16 default types, from values, arrays and objects; every argument spelling of a single component."},
    "C21": {"src": "h/c21.cpp", "variants": [("part%d" % i, ["-DMC_PARTS=4", "-DMC_PART=%d" % i]) for i in range(4)] + [("cpp20-%d" % i, ["-DMC_PARTS=4", "-DMC_PART=%d" % i], {"std": "c++20", "thorough_only": True}) for i in range(4)],
            "technique": "complete enumeration of bounded contents x source kinds x value categories x construction routes on the real constructors, with every source and referent compared afterwards",
            "note": "Every tree up to a node bound as content of 26 source types, each by lvalue, const lvalue, const rvalue and rvalue, through tuples of references, spans and shared pointers in every container. Bounded by tree size and the list of source types."},
    "C22": {"src": "h/c22.cpp", "flags": ["-O0"], "cxx": "clang++",
            "variants": [("part%d" % i, ["-DMC_PART=%s" % t], {"gen": ["gen/c22gen.py", str(i), "6"]}) for i, t in enumerate(
                ["fam::Scalars", "fam::Containers1", "fam::Containers2", "fam::Nullables1", "fam::Nullables3", "fam::Containers4"])],
            "technique": "complete enumeration of generated reflected structs (every field count, tag combination, name and key family) x key states on the real macros",
            "note": "Structs of 1..64 macro elements, every tag combination of up to three fields, special names and keys; per struct all key states (right, absent, wrong) singly and in pairs, all combinations up to four fields; plus a struct with a field of every type of the type families."},
    "C23": {"src": "h/c23.cpp", "flags": ["-O0"], "cxx": "clang++",
            "variants": [("part%d" % i, ["-DMC_PARTS=8", "-DMC_PART=%d" % i]) for i in range(8)]
            + [("deep%d" % i, ["-DMC_PARTS=8", "-DMC_PART=%d" % i, "-DMC_DEEP"], {"thorough_only": True}) for i in range(8)],
            "technique": "complete enumeration of sets of user conversion functions x containers x bounded trees on the real conversions against a model of the dispatch",
            "note": "Types given every set of conversion functions (members; extension point with and without consuming forms), in every kind of container, read from every tree up to a node bound (accepting, refusing and throwing documents); types resembling strings and containers. Consuming forms nested in containers do not compile in the library and are only used at the top level."},
    "C24": {"src": "h/c24.cpp", "flags": ["-O0"], "cxx": "clang++",
            "variants": [("part%d" % i, [], {"gen": ["gen/c24gen.py", str(i), "5", "-128", "128", "0"]}) for i in range(5)]
            + [("gcc", [], {"gen": ["gen/c24gen.py", "2", "7", "-128", "128", "0"], "cxx": "g++"}),
               ("number", ["-DMEOJSON_ENUM_AS_NUMBER"], {"gen": ["gen/c24gen.py", "1", "3", "-128", "128", "1"]}),
               ("range", ["-DMEOJSON_ENUM_REFLECTION_MIN_ENUMS=-3", "-DMEOJSON_ENUM_REFLECTION_MAX_ENUMS=600"], {"gen": ["gen/c24gen.py", "3", "8", "-3", "600", "0"]})]
            + [("gcc%d" % i, [], {"gen": ["gen/c24gen.py", str(i), "5", "-128", "128", "0"], "cxx": "g++", "thorough_only": True}) for i in range(5)],
            "technique": "complete enumeration of values and near-miss texts x generated enumerations x conversion routes on the real conversions",
            "note": "Enumerations of every underlying integer type, scoped or not, in 8 kinds of places and 21 shapes; per enumeration all values around its range and at all bit patterns of single high bits, every case variant and every single-character edit of every name, all short texts, on 11 reading and 9 writing routes; gcc and clang. Underlying bool and wide characters excluded; names beyond the declared range are left open."},
    "C26": {"src": "h/c26.cpp", "variants": [("default", [])], "link": ["-pthread"],
            "technique": "complete enumeration of contents, chunkings, seek behaviours and single fault points of a controlled stream buffer under the real reader",
            "note": "All contents up to a length over the bytes that matter, all ways of cutting short contents into refills, three reading styles, seekable or not, a failure at every byte; files, directories, pipes and missing paths; lengths around buffer sizes. Judged against the in-memory model parser."},
    "C27": {"src": "h/c27.cpp", "variants": [("default", []), ("keep", ["-DMC_PART=fam::Scalars"] + KEEP)]
            + [("types-%s" % p, ["-DMC_PART=fam::%s" % p]) for p in ("Scalars", "Containers1", "Containers2", "Containers3", "Containers4", "Nullables1", "Nullables2", "Nullables3", "Nullables4")],
            "technique": "complete enumeration of operations x bounded operands x the failing allocation, every allocation of every operation failing once, on the real code",
            "note": "Every operation of the read, edit, operator, conversion, reflection and parsing families on every tree up to a node bound: every single allocation it makes fails in turn; afterwards reported as out of memory, no block leaked, every operand readable, coherent, comparable, assignable, sources of copies unchanged, nothing that was stored lost. Writing to a caller's ostream is left to the stream's own rules."},
    "C28": {"src": "h/c28.cpp", "variants": [("default", []), ("full", FULL), ("asan", ASAN)],
            "technique": "complete enumeration of the matrix values x accessors on the real code against the answer or refusal of the abstract value",
            "note": "Every tree up to a node bound, boundary numbers, long strings, invalid values and values moved from in every way x some 980 accessors (typed reads, casts, positional and keyed access at present, missing and boundary places, lookups, edits): right answer or standard exception with well-formed text, and the value as it should be. Unchecked operator[] past the end is excluded; values given up with std::move are open."},
    "C30": {"src": "h/c30.cpp", "variants": [("default", []), ("keep", KEEP)],
            "technique": "complete enumeration of locale configurations x bounded inputs on the real code in fresh processes, transcripts compared with the classic locale",
            "note": "Eight named locales compiled for the run (other decimal points, grouping, 8-bit and multibyte character sets) set in C, C++ and per thread, and hostile custom facets, x numbers over all magnitudes, all short number texts, every byte at every lexical position, bounded documents; first use under the locale and use after it is reset. Without localedef only the facets are explored."},
    "C29": {"srcs": ["h/c29.cpp", "race_rt.cpp"], "flags": ["-fsanitize=thread", "-U_FORTIFY_SOURCE", "-g1"], "link": ["-ldl", "-pthread"],
            "variants": [("types-%s" % p, ["-DMC_PART=fam::%s" % p]) for p in ("Scalars", "Containers1", "Containers2", "Containers3", "Containers4", "Nullables1", "Nullables2", "Nullables3", "Nullables4")] + [("base", [])],
            "technique": "stateless model checking of the real code: controlled thread scheduler with a happens-before race monitor and partial-order reduction over the accesses two threads contend for",
            "note": "Every pair of some 90 operations (first use in a fresh process, both orders, further schedules up to two preemptions wherever accesses conflict), triples, every single preemption point of a core set, and every operation at once on every tree up to a node bound; conversions for over 120 types. Access records come from the compiler's instrumentation of library and standard library templates; code inside shared libraries is declared by hand where it touches caller memory."},
    "C31": {"src": "h/c31.cpp", "variants": [("default", []), ("avx2", ["-mavx2"]), ("swar64", ["-DMEOJSON_DISABLE_PACKED_BYTES"])], "link": ["-pthread"],
            "technique": "complete enumeration of sizes along every size dimension on the real operations against the abstract tree",
            "note": "38 dimensions (element and member counts, string, key, number, whitespace and comment lengths, nesting depths): every size up to a bound and all sizes around powers of two and ten beyond; parsing, building, copying, comparing, serialising, converting and editing at each. Nesting beyond 2050 levels is explored on an enlarged stack."},
    "C32": {"srcs": ["h/c32.cpp", "cost_rt.cpp"], "flags": ["-fsanitize-coverage=trace-pc", "-U_FORTIFY_SOURCE", "-fno-builtin-memcpy", "-fno-builtin-memset", "-fno-builtin-memmove", "-fno-builtin-strlen", "-fno-builtin-memcmp", "-fno-builtin-memchr"], "link": ["-pthread"],
            "variants": [("default", []), ("swar64", NOSIMD, {"thorough_only": True}), ("full", FULL, {"thorough_only": True})],
            "technique": "complete enumeration of pumped texts, repeated edit histories, shapes and conversions on the real code with every executed block, moved byte and requested byte counted",
            "note": "The oracle is the code itself at a smaller size: work at a size r times as large may be at most 4 r times the work at the small one plus 2048 r, so a logarithm passes and a square does not. Work that never occurs within the enumerated words, histories and shapes is not seen."},
}
