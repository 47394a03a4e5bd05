"""Which harness units decide which property."""


def U(name, src=None, **kw):
    d = {"name": name, "src": src or name + ".cpp"}
    d.update(kw)
    return d


def parts(stem, n, **kw):
    return [U("%s_p%d" % (stem, i), stem + ".cpp", **{**kw, "flags": ["-DPART=%d" % i] + kw.get("flags", [])}) for i in range(n)]


TAPE = ("Every case is a pure function of a byte tape drawn from a PRNG seeded with (VERIF_SEED, target, case number). ")

CHECKS = {
    "C01": {
        "title": "word-level bit primitives",
        "units": [U("c01_bits"), U("c01_bits_hw", "c01_bits.cpp", flags=["-msse4.2", "-mbmi2", "-mbmi", "-mpopcnt"], cpu=["sse4_2", "bmi1", "bmi2", "popcnt"])],
        "rule": TAPE + "target word: one 64-bit word (random, sparse, dense, runs, periodic, corner), all positions/carries checked; non-trivial: neither 0 nor all ones. "
                "target cursor: a history of reads/writes/pointer moves on an exactly sized word array against a bit model; non-trivial: an access crosses a word boundary.",
    },
}

CHECKS["C02"] = {
    "title": "integer vectors are arrays of fixed-width integers",
    "units": parts("c02_intvec", 4) + [U("c02_huge", shards=4, nofuzz=True)],
    "rule": TAPE + "A case is a history of 1..30 operations over three vectors of one width type (run-time width, 1, 3, 8, 13, 16, 24, 32, 33, 63, 64) compared element by element "
            "with a bit-array model after every operation. Some vectors of more than 2^32 bits with elements written around bit 2^32 and at the ends. Non-trivial: more than three operations with non-empty content, or a bit-range write crossing a word.",
}
BITGEN = ("Bit sequences are 1..5 segments (constant runs, Bernoulli of many densities, alternating runs, periodic, isolated bits, word mixtures, equally spaced), lengths "
          "often at block boundaries; the plain vector is built directly, grown or shrunk, with arbitrary unused bits in its last word. ")
CHECKS["C03"] = {
    "title": "bit vector encodings store exactly the source bits",
    "units": parts("c03_bv", 5) + [U("c03_huge", "c04_huge.cpp", flags=["-DACCESS"], shards=4, nofuzz=True)],
    "rule": TAPE + BITGEN + "Every bit (or 1500 positions of long vectors), iteration and 60 random get_int ranges are compared. Some vectors of 2^32 to 2^32+10^6 bits, constant but for up to 70000 bits near 0, 2^31, 2^32, the end. Non-trivial: both bit values occur (sd_build: at least two positions).",
}
CHECKS["C04"] = {
    "title": "rank",
    "units": parts("c04_rank", 6) + [U("c04_huge", "c04_huge.cpp", flags=[], shards=4, nofuzz=True)],
    "rule": TAPE + BITGEN + "Every prefix of vectors up to 5000 bits, about 1600 sampled prefixes of longer ones (up to 4.5M bits); sparse vectors of up to 2^56 bits around every one. Some vectors of 2^32 to 2^32+10^6 bits, constant but for up to 70000 bits near 0, 2^31, 2^32, the end. Non-trivial: both bit values occur.",
}
CHECKS["C05"] = {
    "title": "select",
    "units": parts("c05_select", 6) + [U("c05_huge", "c04_huge.cpp", flags=["-DSELECT"], shards=4, nofuzz=True)],
    "rule": TAPE + BITGEN + "Every occurrence of vectors with at most 4000 of them, sampled ranks otherwise (vectors up to 4.5M bits); sparse vectors of up to 2^56 bits around every one. Some vectors of 2^32 to 2^32+10^6 bits, constant but for up to 70000 bits near 0, 2^31, 2^32, the end. Non-trivial: both bit values occur.",
}
CHECKS["C10"] = {
    "title": "self-delimiting codes",
    "units": [U("c10_coder")],
    "rule": TAPE + "A case encodes a sequence (runs of ones, small, log-uniform, extreme values; 0 stands for 2^64 in Elias/Fibonacci) by hand from an arbitrary bit offset into a pre-filled buffer, "
            "or as a whole vector of some width, and decodes all of it, its running sums, and 60 random sub-ranges. Non-trivial: at least two values, not only one-bit codes.",
}
CHECKS["C11"] = {
    "title": "compressed integer vectors",
    "units": parts("c11_civ", 3),
    "rule": TAPE + "A case builds one compressed vector type (8 enc_vector, 8 vlc_vector, 7 dac_vector, 5 dac_vector_dp configurations) from std::vector, int_vector, int_vector_buffer or by assignment over "
            "old content and compares size, every element, iteration in both directions and random jumps. Non-trivial: at least two elements.",
}
WTGEN = ("Sequences: uniform, log-uniform, runs, monotone, few distinct, Fibonacci frequencies (deep code trees), all symbols of an interval, powers of two and neighbours, locally changing alphabets; "
         "built in memory, from a file, from a proper prefix of a buffer, or assigned over old content. ")
CHECKS["C12"] = {
    "title": "wavelet trees: access, rank, select, inverse select",
    "units": parts("c12_wt", 6),
    "rule": TAPE + WTGEN + "Every position of sequences up to 700 (500 sampled positions of longer ones) and 300 (prefix, symbol) pairs incl. absent symbols are compared with counting. Non-trivial: at least two distinct symbols.",
}
CHECKS["C13"] = {
    "title": "wavelet tree range and order queries",
    "units": parts("c13_wtq", 5),
    "rule": TAPE + WTGEN + "A case asks one family: interval_symbols; lex_count/lex_smaller_count/symbol_gte/symbol_lte/quantile_freq/restricted_unique_range_values/range_search_2d; intersect and greedy top-k; "
            "or a walk over all nodes (size, emptiness, leaf symbol, bit_vec, seq, expand with ranges, path). Non-trivial: at least two distinct symbols.",
}
TXT = ("Texts: random over many alphabet sizes (contiguous and scattered), runs, periodic with mutations, Fibonacci, Thue-Morse, ruler, period doubling, a^k b a^k c, squares and palindromes, copies of earlier "
       "material, skewed; integer texts additionally spread over large alphabets, permutations, log-uniform. ")
CHECKS["C14"] = {
    "title": "suffix array, inverse, BWT construction",
    "units": [U("c14_sa")],
    "rule": TAPE + TXT + "Lengths 0..1500 (every 15th case up to 20000, a few up to 400000). The suffix array is checked by the exact linear-time characterisation (permutation, first symbols ordered, ranks of the remaining suffixes ordered). Non-trivial: more than two symbols.",
}
CHECKS["C15"] = {
    "title": "LCP construction and representations",
    "quick_scale": 60,
    "units": parts("c15_lcp", 4),
    "rule": TAPE + TXT + "Also long blocks repeated with irregular left/right context (LCP values around and above 254). Lengths 0..2000, every 30th construction case up to 14000. Every LCP entry of every "
            "construction algorithm and every representation (standalone, inside suffix trees) is compared with a naive model. Non-trivial: the maximal LCP value is positive.",
}
CHECKS["C16"] = {
    "title": "compressed suffix arrays",
    "units": parts("c16_csa", 6),
    "rule": TAPE + TXT + "Lengths 0..400 (every 8th case up to 3000). 41 index configurations (wavelet tree, psi and plain based; densities 1, odd, larger than the text; all sampling strategies; all alphabets). "
            "SA, ISA, psi, LF, BWT, F, text (all positions up to 160, sampled beyond), iteration, alphabet tables, 60 rank/select queries on the BWT incl. absent symbols and too large ranks, 6 extractions. "
            "Non-trivial: at least two proper symbols or more than four positions.",
}
CHECKS["C17"] = {
    "title": "pattern search",
    "units": parts("c17_search", 4),
    "rule": TAPE + TXT + "Per text 14 patterns (empty, substrings, mutated, random, foreign symbols, whole text, longer, wrapping suffixes, repeated symbol) asked with count, locate, lex_interval, backward_search (whole, "
            "symbol by symbol, from an interval), forward_search (whole, in an interval), top-down in suffix trees; or 6 histories of up to 12 left/right extensions on a forward and a reverse index. "
            "Non-trivial: an occurring pattern of at least two symbols.",
}
CHECKS["C18"] = {
    "title": "suffix tree topology",
    "units": parts("c18_tree", 4),
    "rule": TAPE + TXT + "Lengths 0..250 (every 6th case up to 3000). 16 suffix tree configurations. All nodes of trees with up to 500 nodes, a sample beyond: interval, size, leaf test, parent, children, degree, sibling, "
            "leftmost/rightmost leaf, node depth, numbering and its inverse; depth-first (with and without skipped subtrees, of subtrees), bottom-up and breadth-first traversals; 300 lowest common ancestors; "
            "4 random walks of 25 operations in which every result is the argument of the next operation. Non-trivial: an inner node besides the root.",
}
CHECKS["C19"] = {
    "title": "suffix tree strings",
    "units": parts("c19_string", 4),
    "rule": TAPE + TXT + "Lengths 0..250 (every 6th case up to 3000). 16 suffix tree configurations. All nodes of trees with up to 400 nodes, a sample beyond: string depth, edge symbols, extracted labels (both forms), "
            "suffix number, children by symbol (existing and not, with and without position), suffix links (single, i-fold), Weiner links (existing, not existing, towards implicit nodes), zeroth order entropy; "
            "6 walks of 25 steps along suffix links, Weiner links and edges; k-th order entropy and contexts. Non-trivial: an inner node besides the root.",
}
CHECKS["C20"] = {
    "title": "balanced parentheses",
    "units": parts("c20_bp", 3),
    "rule": TAPE + "Balanced sequences of 0..1800 (every 6th case up to 40000) parentheses: random walks, deep, flat, saw teeth, combs, mountains of block size, mixtures, with and without a root pair, garbage behind the end. "
            "19 configurations of the three structures (block sizes 1..1024). All positions (a sample of 900 beyond): excess, rank, select, find_close, find_open, enclose, preceding closings, level ancestors; 400 pairs: rmq, rmq_open, "
            "rr_enclose (both ways), double_enclose. Helpers: pioneer bitmaps by definition for block sizes 1..1000, matching and enclose tables, block-restricted searches, super-Cartesian trees with first child bits. "
            "Non-trivial: more than 8 parentheses and depth > 1.",
}
CHECKS["C21"] = {
    "title": "range minimum and maximum queries",
    "units": parts("c21_rmq", 2),
    "rule": TAPE + "Arrays of 0..3000 (every 12th case up to 30000) numbers: random of any magnitude, three values, constant, ascending, descending, saw teeth, steps, hills, with planted repeats; signed and unsigned, plain and compressed containers. "
            "27 structures: sparse table, super-Cartesian tree, extended Cartesian tree over all balanced parentheses supports, minimum and maximum; structures that do not keep the array are queried after its destruction. "
            "All ranges of arrays of up to 50 numbers, otherwise up to 1500 ranges: the answer is the leftmost extreme position (as all three document). Non-trivial: more than two numbers.",
}
CHECKS["C22"] = {
    "title": "k2-treap queries",
    "units": parts("c22_k2treap", 2),
    "rule": TAPE + "0..400 (every 10th case up to 4000) distinct points with coordinates below 2^58: uniform, clusters, diagonal, row, column, full grid, corners, tiny grids; weights of any magnitude with and without ties. "
            "11 configurations (k = 2,3,4,5,7,8,16; five bit vectors, four value vectors), built from memory, tuples, files and in-memory files, sometimes reloaded. 40 rectangles (and weight ranges) each, "
            "with corners on, near and far from points: count, complete top-k iteration (order of weights and set of points), complete three-sided iteration. Non-trivial: more than two points.",
}
CHECKS["C23"] = {
    "title": "k2-tree adjacency queries",
    "units": parts("c23_k2tree", 2),
    "rule": TAPE + "Graphs of 1..45 vertices as matrices (with and without edges), of up to 2^59 vertices as edge lists, files and in-memory files (repeated edges included, number of vertices given or implied); half of them with a number of vertices within 2 of a power of k; "
            "edges uniform, on the diagonal, one row, one column, the borders, clusters, full blocks. 11 configurations (k = 2..8,10,16,255; five bit vectors). All pairs for up to 20 vertices, otherwise all edges and 100 pairs near edges; neighbours in both directions; 30 rectangles. "
            "Oracle: the set of edges. Non-trivial: at least two edges and three vertices.",
}
CHECKS["C24"] = {
    "title": "inverse permutations and nearest neighbour dictionaries",
    "units": parts("c24_dict", 2),
    "rule": TAPE + "inv_perm: permutations of 0..5000 (random, identity, one cycle, cycles of lengths around multiples of the sampling distance, equal cycles, involutions), seven samplings and marker types, every position and iteration. "
            "nnd: " + BITGEN + "six sample densities; rank, prev, next at all positions (a sample of long vectors), all selects. "
            "dynamic: a history of insertions, deletions, runs, clearing, element assignment, copies, swaps, moves and reloads over two dictionaries of 0..16.8 million bits (often around multiples of powers of 64) against ordered sets, next/prev/membership at and around elements, final iteration both ways. "
            "Non-trivial: more than two elements / both bit values / more than ten updates on more than 64 bits.",
}
CHECKS["C25"] = {
    "title": "sorted stacks",
    "units": [U("c25_stack")],
    "rule": TAPE + "A history of up to 80 operations over two stacks of declared ranges 0..300000 (often near multiples of the word size 63): single and long series of pushes with small, word-sized, multi-word, up-to-the-end gaps and repetitions (multi-stack; values above the range for sorted_int_stack), pops, reload, assignment, move, swap; "
            "compared with an ordinary stack (top, size, empty, results of push and pop) after every step, and emptied at the end. Non-trivial: more than three pushes and two pops.",
}
CHECKS["C26"] = {
    "title": "LOUDS trees",
    "units": [U("c26_louds")],
    "rule": TAPE + "Ordinal trees of 1..20000 nodes given by breadth-first degrees (random, path, star, caterpillar, regular, bursts, unary chains) and the trees of two compressed suffix trees over generated texts; five bit vector/select configurations; the object itself, a copy, a swapped or a reloaded one. "
            "All nodes top-down (ids, leaf, degree, all children, parent of every child) and 30 walks upwards with copied handles. Non-trivial: more than three nodes.",
}
CHECKS["C27"] = {
    "title": "wide unsigned integers",
    "units": [U("c27_wide"), U("c27_wide_own", "c27_wide.cpp", flags=["-UMODE_TI"])],
    "rule": TAPE + "Built with the compiler's 128-bit type and with the library's own class. Operands: random limbs, powers of two and their predecessors, extreme limbs, small, negated small, runs of ones, equal, successive and opposite pairs; shifts 0..width-1, often around multiples of 64. "
            "Every operator form, conversion, bit-wise input/output, popcount, highest and i-th set bit against boost::multiprecision integers modulo 2^w; chains of up to 60 operations; "
            "enumerative block code for 11 block sizes (range of the number, space, decoding of all bits, prefixes, selections, ranges) against exact binomials. Non-trivial: both operands non-zero / more than five steps / mixed block.",
}
CHECKS["C28"] = {
    "title": "in-memory files",
    "units": [U("c28_ramfs")],
    "rule": TAPE + "history: up to 60 operations over five names, two writers and two readers, each performed on the in-memory file and on a disk file: open in seven output and two input modes (also of missing files, also reopening), write (blocks, single bytes, formatted; any byte values; up to 40000 bytes), seeks of every kind (also through the base class, also beyond the end followed by a write, also before the start), tell, "
            "read (blocks, single bytes, lines, numbers), flush, close (also twice, also used afterwards), reading while another stream writes (flushed, repositioned), remove and rename (missing files, own name, onto existing files, between memory and disk), store. States, positions, data, results, existence, sizes and contents must agree after every step. "
            "names: name conversions and independence of names. Non-trivial: something was written and more than three operations / more than one character.",
}
CHECKS["C07"] = {
    "title": "structures are independent values",
    "units": parts("c07_values", 7),
    "rule": TAPE + "A history of 3..25 operations over four objects of one structure and three generated contents plus the default constructed state: build (new or inside an existing object), copy and move construction and assignment, member swap and std::swap, "
            "assignment and swap with itself, destruction, loading what another object wrote, passing through a container; objects moved from are only assigned to, loaded into or destroyed. After every step the touched objects, at the end all, and after every destruction the "
            "remaining ones answer a sample of all their queries; the answers must be those of a separately built and already destroyed object with that content. Structures referring to another vector are kept together with it and re-attached with set_vector as documented. "
            "Non-trivial: the content answers more than three numbers and the history has more than three operations.",
}
CHECKS["C06"] = {
    "quick_scale": 70,
    "title": "serialize and load",
    "units": parts("c06_serialize", 7),
    "rule": TAPE + "One structure, two generated contents and the default constructed state. A case writes 1..4 of them in a row into a stream followed by other data, to disk or in-memory files (also over an existing one), type-checked files (offered to all other types of the unit), "
            "the cache (with and without type hash), or as a vector of structures; loads into new objects, objects with other content, copies and objects moved from; and compares returned byte counts, bytes consumed, a sample of all queries before and after, and the bytes written again. "
            "Default construction in memory with different old contents must write the same bytes. Plain data, strings and vectors of plain data likewise. Non-trivial: the content answers more than three numbers / more than one element.",
}
CHECKS["C29"] = {
    "title": "index construction routes and clean-up",
    "units": parts("c29_construct", 4),
    "rule": TAPE + TXT + "One or two such texts, the empty text and one with the reserved symbol 0; a history of up to 13 constructions of different index types (compressed suffix arrays of all sampling strategies, LCP arrays, suffix trees, wavelet trees; byte and integer alphabets) in one directory. Routes: disk file and in-memory file with the default configuration, object in memory, "
            "explicit configurations (disk or in-memory cache, given or generated id, delete or keep, reused with all or a closed part of the earlier intermediates, found again by id), every input format (1, 2, 4, 8 byte raw, serialized of any width, decimal), both byte suffix array algorithms. After each construction: the index equals the naive suffix array / LCP array / sequence on every position, "
            "0 is refused, all other files are unchanged, the directories hold exactly the user's files and those the configurations list. Non-trivial: at least two indexes built.",
}
CHECKS["C32"] = {
    "title": "file formats of integer data",
    "units": [U("c32_formats")],
    "rule": TAPE + "Integer sequences of up to 400 values (full range, small, clustered, sorted; in two targets 4 to 8 million values, more than one block of the readers) and a format: raw arrays of 1, 2, 4, 8 bytes, decimal text (various white space, leading zeros), text with sentinel, serialized vectors of run-time width and of 1, 8, 16, 24, 32, 64 bits (also fixed written as variable, also with check file), std::vector, "
            "vbyte and Elias/Fibonacci coded streams; on disk or in memory. Written by a randomly chosen writer (store_to_file, store_to_plain_array, int_vector_buffer, operator<<, the definition itself); the file is compared with the definition of the format byte by byte, then read by every matching reader (load_vector_from_file with and without width limit, load_from_file, load_from_checked_file, int_vector_buffer, "
            "int_vector_mapper), into empty and used vectors. Missing files, files that cannot be created, trailing parts of elements, other classes in checked files must be reported. Non-trivial: more than two values.",
}
CHECKS["C30"] = {
    "title": "reported sizes",
    "units": parts("c30_sizes", 7),
    "rule": TAPE + "One structure (every serializable structure of the library, default constructed or with generated content, as built or reloaded): bytes returned and written by serialize, size_in_bytes, size_in_mega_bytes and the size of its node in the structure tree must be equal; the node has the given name and type, no composite is smaller than "
            "the sum of its components, public members (bit vector, tree, samples, lcp, nested index...) appear with the size they report themselves; the printed JSON is parsed and must be this tree, the HTML has matching tags and embeds the same tree; also for vectors of structures, several structures in one picture, structures made by a user with "
            "any names and types, plain data. Non-trivial: more than one node and more than 64 bytes.",
}
CHECKS["C08"] = {
    "title": "disk-backed integer buffers",
    "units": [U("c08_buffer")],
    "rule": TAPE + "A history of up to 52 operations over three buffers and four files (disk and in-memory) of one element type (run-time width or 1, 7, 8, 16, 20, 32, 33, 64 bits): opening for reading and writing with buffer sizes 0..4096 bytes, in serialized and plain format, existing files (of other writers, of earlier buffers) and missing ones, "
            "writes inside, at and up to 700 positions behind the end, appends, every operation of the element proxy, random and iterator reads (forwards, backwards, jumps, writing), changes of the buffer size, reset, move construction and assignment, swap, closing (also twice, also removing the file), reopening. Sizes, widths and values are compared with plain arrays during the history, "
            "the bytes of the file (header, packed elements, padding) whenever a buffer lets it go. Non-trivial: more than five writes.",
}
CHECKS["C09"] = {
    "title": "memory-mapped integer vectors",
    "units": [U("c09_mapper")],
    "rule": TAPE + "A history of up to 32 operations over two mappings and three files plus temporary ones, of one element type (run-time width or 1, 7, 8, 16, 20, 32, 33, 64 bits), sizes around words, pages and small: mapping serialized and plain files (also by cache key, also to be deleted at the end), write_out_buffer and temp_file_buffer, element, iterator and bit-range writes, appends, "
            "resizes, flip, bit compression, change of the width, move construction and assignment, unmapping, remapping, two read-only mappings of one file, comparison with equal, changed, shorter and longer containers, files that must be refused. All reading functions are compared with a string of bits during the history, "
            "the file (header, length, every bit) whenever a mapping ends, the directory at the end. Non-trivial: more than three writes.",
}
CHECKS["C31"] = {
    "title": "memory manager and memory monitor",
    "units": parts("c31_memory", 3, ldflags=["-Wl,--wrap=mmap"]),
    "rule": TAPE + "heap: a history of up to 123 allocations, reallocations and frees in an allocator of 64 to 28000 bytes (mmap is wrapped by the linker, so the region is ordinary dirty memory before an unreadable page): every block is aligned, inside of the region, apart from all others, every byte of every block is compared after every operation, a request is refused only if there is no "
            "stretch of that length. huge vectors: histories over four integer vectors inside of a region of 3 MB, including too large requests. monitor: histories of vector operations inside of nested events, also across stop and start, the log is parsed and compared with the bytes of the live vectors; several threads. Third unit: 36 structures of all families built, copied, moved, reloaded, destroyed "
            "under the monitor (usage of one, two, no object) and built again in dirty huge pages, where they answer as in fresh memory. Non-trivial: more than two blocks and a reallocation; more than two changes; more than 64 bytes and three answers.",
}
CHECKS["C33"] = {
    "title": "structures are determined by their data",
    "units": parts("c33_determinism", 8, ldflags=["-Wl,--wrap=malloc", "-Wl,--wrap=realloc"]),
    "rule": TAPE + "One structure and one content. malloc, realloc and operator new are replaced so that memory that was not written yet (also the stack) is filled with a chosen byte. The content is built in memory of one kind, then again in memory of another kind, copied, moved, loaded, built inside of an object with other content; "
            "the serialized bytes must be identical each time, also after all queries were asked, and the answers to a sample of all queries are those of the first object. Unit 7: whole constructions of suffix arrays and trees from files on disk or in memory: every intermediate file and the index have identical bytes. Non-trivial: more than three answers and 16 bytes; more than three files.",
}
CHECKS["C34"] = {
    "title": "printing the members of an index",
    "units": parts("c34_printf", 2),
    "rule": TAPE + "A text of up to 150 symbols (byte or integer alphabet), one of ten suffix array and suffix tree types, a format of up to 9 parts (literal text, all tokens with and without widths up to 130), default or chosen sentinel. The output is compared character by character with the lines computed from naively built arrays. Non-trivial: a token and more than two suffixes.",
}
CHECKS["C35"] = {
    "quick_scale": 70,
    "title": "containers and their iterators",
    "units": parts("c35_iterators", 7),
    "rule": TAPE + "One structure of the library (every one with elements; for indexes also SA, ISA, Psi, LF, BWT, L, F, text, LCP) with generated content, also a copy whose original is gone or a default constructed one. Iteration in both directions, reverse iterators, construction of a std::vector and nine standard algorithms give what they give on the array of all elements; "
            "a history of up to 30 operations on three iterators (++, --, +=, -=, +, -, n+it, it[n], swap, assignment, by any distance) is followed by indexes: values, differences and all six comparisons after every step. Non-trivial: a view with more than two elements.",
}
CHECKS["C36"] = {
    "quick_scale": 50,
    "title": "use from several threads",
    "units": parts("c36_threads", 8, san="thread", nofuzz=True),
    "rule": TAPE + "Built with ThreadSanitizer, so that an unsynchronized access of two threads counts as a failure whatever the timing. One structure and two or three threads: either all ask a sample of all queries of one shared object (one of them also copies or serializes it or asks for its size), or each builds, "
            "copies, moves, stores in memory, loads and asks an object of its own; answers are those of a single thread. Unit 7: histories of operations on in-memory files per thread beside a shared file, unique names, indexes built at the same time in memory or in one directory, vectors allocated while the memory monitor runs. Non-trivial: more than three answers / operations.",
}
