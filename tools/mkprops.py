#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "Bit-vector builder: any edit history yields exactly the edited bit list",
 "After any history of builder operations (sized/filled construction, pushing a bit, setting a bit, overwriting or appending a 0..64-bit field, extending with zeros or ones, appending another builder, reversing, reserving capacity, swapping two builders) the bit vector built from it has exactly the bits and length that the same operations give on a plain list of bits. No operation changes any bit it was not asked to change, whatever came before it and at whatever bit offset it lands.",
 ["histories", "inputs"], "every finite sequence of builder calls within their preconditions (position+length <= size, no spurious high bits in a field, the appended builder is a different one), every alignment",
 "Tests run a handful of single-operation histories (all push_back, all set, one append_bits series, reverse of 5 sizes); append, zero/one_extend, reserve, swap and all mixed histories are never executed.",
 ["bit_vector.hpp", "broadword.hpp"],
 [("bit_vector_builder::push_back/append_bits/set_bits/zero_extend/one_extend/append/reverse/reserve/swap", "bit_vector.hpp:24-187"), ("bit_vector(bit_vector_builder*)", "bit_vector.hpp:222")],
 ["bit_vector built from the builder: size(), operator[], get_word() padding"],
 [("m_bits", "64-bit words holding the bits, padding zero", "bit_vector.hpp:184"), ("m_cur_word", "pointer to the word being filled", "bit_vector.hpp:186")])

prop("C02", "Bit-vector reads: access, field, word and nearest-bit reads agree with bits",
 "For every bit vector, built from a range or from a builder, reading bit i, reading any field of 0..64 bits that lies inside the vector, reading a zero-padded 64-bit word at any position, and the fast 56-bit read where eight whole bytes are stored, all return exactly the stored bits. The nearest zero/one at or before (after) a position is exactly the closest such position whenever one exists.",
 ["inputs"], "every bit sequence of every length, every position and every field length in the documented domain",
 "Tests check operator[] on one random vector and get_bits on 15 fixed fields; get_word/get_word56 are untested and pred/succ are only run on a few vectors of 10000 bits.",
 ["bit_vector.hpp"],
 [("operator[], get_bits, get_word, get_word56", "bit_vector.hpp:244-288"), ("predecessor0/1, successor0/1", "bit_vector.hpp:290-352")],
 ["return values of the read calls"])

prop("C03", "Bit cursors behave as positions in the bit list under any call history",
 "A sequential bit reader started at any position returns, for every interleaving of single-bit reads, 0..64-bit reads and zero-run skips, exactly the bits that follow its current position, and reports that position. A one-enumerator started at any position, for every interleaving of next, skip-k-ones, peek-k-ones and skip-k-zeros, returns exactly the next/k-th one (or stands on the k-th zero) at or after its current place, counting real bits of the vector only.",
 ["histories", "inputs"], "every bit vector, start position and call sequence whose target exists",
 "Tests only call one kind of operation per cursor (a single next() per enumerator, skip/skip0 on a fresh cursor); take, skip_zeros and every mixed sequence are untested.",
 ["bit_vector.hpp"],
 [("bit_vector::enumerator next/take/skip_zeros/position", "bit_vector.hpp:357-425"), ("bit_vector::unary_enumerator next/skip/skip_no_move/skip0/position", "bit_vector.hpp:427-518")],
 ["return values and position() after every call"],
 [("m_buf/m_avail", "read-ahead buffer", "bit_vector.hpp:423"), ("m_position/m_buf", "current word with consumed ones cleared", "bit_vector.hpp:516")])

prop("C04", "Rank and select are exact inverses of each other on every bit vector",
 "For every bit vector, with or without select hints for ones and zeros, rank(i) is the number of ones before i for all 0 <= i <= size, rank0(i) = i - rank(i), select(k)/select0(k) is the position of the k-th one/zero, and the number of ones and zeros is exact. Hints change speed only, never an answer.",
 ["inputs", "configurations"], "every bit sequence, every query argument in range, all four combinations of hint options",
 "Tests use four vectors of 10000 bits; block, sub-block, hint-chunk boundaries, exact hint multiples and larger counts are sampled by luck, and hints on vectors whose counts straddle multiples of the hint period are not targeted.",
 ["rs_bit_vector.hpp", "rs_bit_vector.cpp", "broadword.hpp", "tables.hpp"],
 [("build_indices", "rs_bit_vector.cpp:5"), ("rank/select/select0", "rs_bit_vector.hpp:52-160")],
 ["return values of rank, rank0, select, select0, num_ones, num_zeros"],
 [("m_block_rank_pairs", "cumulative rank and packed 9-bit sub-ranks per 512-bit block", "rs_bit_vector.hpp:186"), ("m_select_hints", "block of every 1024-th one", "rs_bit_vector.hpp:187")])

prop("C05", "Sparse/dense select indexes return the position of every one (or zero)",
 "For every bit vector the ones-index and the zeros-index report the exact number of ones/zeros and the exact position of the k-th, for all k, for any mixture of dense and sparse regions. The incrementally built select structure (ones appended with gaps of 0..63 zeros) likewise stores exactly the appended bits and returns the position of its k-th one.",
 ["inputs"], "every bit sequence: any density, gaps straddling the 65536-bit span limit, partial last blocks; every gap sequence",
 "One random, one empty, one singleton, one full and one sparse vector are tested; the span threshold, mixed dense/overflow blocks, and the incremental variant on its own are not.",
 ["darray.hpp", "darray64.hpp"],
 [("darray constructor, flush_cur_block, select", "darray.hpp:17-132"), ("darray64::builder::append1, select", "darray64.hpp:10-98")],
 ["num_positions(), select(bv,k), darray64 num_ones(), select(k), bits()"],
 [("m_block_inventory/m_subblock_inventory/m_overflow_positions", "two-level inventory of positions", "darray.hpp:143")])

prop("C06", "Balanced parentheses: matching and enclosing positions are exact",
 "For every balanced parenthesis sequence (any forest shape, any depth and length), find_close of an opening and find_open of a closing parenthesis return its matching partner, and enclose of an opening parenthesis returns the opening of the innermost pair strictly containing it, for every position where one exists.",
 ["inputs"], "every balanced sequence, including ones whose partners lie many blocks and superblocks apart in both directions",
 "Tests use random walks, random binary trees and single/double/triple paths; a random tree rarely needs the upper levels of the min tree, and asymmetric deep shapes are not generated.",
 ["bp_vector.hpp", "bp_vector.cpp", "broadword.hpp"],
 [("find_close/find_open and in-word/in-block searches", "bp_vector.cpp:74-270"), ("search_block_in_superblock/search_min_tree", "bp_vector.cpp:272-360"), ("build_min_tree", "bp_vector.cpp:625")],
 ["return values of find_close, find_open, enclose"],
 [("m_block_excess_min/m_superblock_excess_min", "range-min tree over the excess", "bp_vector.hpp:97")])

prop("C07", "Excess and excess range-minimum return the leftmost minimum",
 "For every balanced parenthesis sequence, the excess at position i is (openings - closings) before i, and the excess range-minimum over positions [a, b] returns the leftmost position in that range where the excess is smallest, together with that excess value.",
 ["inputs"], "every balanced sequence and every 0 <= a <= b <= size",
 "Tests check about 15 left ends per vector on random/binary/path shapes and never check the returned excess value; ranges starting inside each superblock with minima planted in interior superblocks and ties are not systematic.",
 ["bp_vector.hpp", "bp_vector.cpp"],
 [("excess_rmq, excess_rmq_in_word/block/superblock, find_min_superblock", "bp_vector.cpp:123-145,362-622"), ("build_min_tree", "bp_vector.cpp:625")],
 ["return value and output parameter of excess_rmq; excess(i)"])

prop("C08", "Range-minimum tree returns the leftmost best element of every range",
 "A range-minimum tree built over any sequence of values, from a range or incrementally, with the default order or any strict weak ordering, answers every query [a, b] (both inclusive) with the index of the leftmost element of that range to which no other element of the range is preferred. Its size is the number of values.",
 ["inputs", "configurations"], "every value sequence (ties, monotone, arbitrary), every comparator, every a <= b",
 "Tests use at most 13 left ends per sequence on increasing/convex/random data and never serialize or use the incremental builder or non-integer orders.",
 ["cartesian_tree.hpp", "bp_vector.cpp", "bit_vector.hpp"],
 [("builder::push_back/finalize", "cartesian_tree.hpp:40-80"), ("rmq", "cartesian_tree.hpp:103-138")],
 ["rmq(a,b), size()"],
 [("m_stack/m_bp", "right spine stack and parenthesis output", "cartesian_tree.hpp:77")])

prop("C09", "Top-k enumeration yields the range's best entries in order, exactly once",
 "For every stored sequence and every range [a, b] (inclusive), top-k returns min(k, b-a+1) entries: the largest values of the range with their indices, in decreasing value order and increasing index among equal values. An enumerator yields that same order one entry at a time, each index exactly once and then reports exhaustion, whatever other enumerators over the same or other ranges are advanced, copied, swapped, cleared or restarted in between.",
 ["inputs", "histories"], "every sequence, range, k (0, partial, more than the range) and every interleaving of enumerator calls, for every supported backing list",
 "Tests take 100 random ranges with k = 10 on one backing list; k = 0, exhaustion, enumerator reuse and interleaving are untested.",
 ["topk_vector.hpp", "cartesian_tree.hpp"],
 [("enumerator::next/set/clear/swap, value_index_comparator", "topk_vector.hpp:45-140"), ("topk", "topk_vector.hpp:158")],
 ["topk(), enumerator next()/value()"],
 [("m_q", "heap of (best value, index, range)", "topk_vector.hpp:133")])

prop("C10", "Elias-Fano random access is exact for every monotone sequence",
 "An Elias-Fano structure built from any bit vector or any non-decreasing sequence of 64-bit values below its universe answers exactly: the k-th value, membership of a position, the number of values below a position, the nearest value at or before/after a position when one exists, the gap between consecutive values, and the pair of the k-th and next value. Its size and number of ones are the universe and the number of values.",
 ["inputs"], "every universe up to 2^64-1, every count and non-decreasing sequence (repeats allowed), every query in range",
 "Tests use universes of 10000 and densities 1/2..1/128; large universes, many low bits, duplicates, clustered high parts and select_range are untested.",
 ["elias_fano.hpp", "darray.hpp", "bit_vector.hpp"],
 [("elias_fano_builder", "elias_fano.hpp:14"), ("select/rank/operator[]/delta/select_range/predecessor1/successor1", "elias_fano.hpp:103-198")],
 ["return values of the queries, size(), num_ones()"],
 [("m_high_bits/m_low_bits/m_l", "upper bits in unary, lower bits verbatim, split point", "elias_fano.hpp:266")])

prop("C11", "Elias-Fano sequential decoding from any start equals random access",
 "Enumerating an Elias-Fano structure from any starting index yields exactly the stored values from that index on, in order and up to the last one, for every universe and every number of low bits, also when several enumerators run interleaved.",
 ["inputs", "histories"], "every monotone sequence, universe, start index and number of steps",
 "Tests enumerate only from index 0 on universes of 10000 (the test source itself says other starting points are missing); low-bit widths above 7 and word-straddling low parts are unreached.",
 ["elias_fano.hpp", "bit_vector.hpp"],
 [("select_enumerator", "elias_fano.hpp:200-252"), ("unary_enumerator::next", "bit_vector.hpp:447")],
 ["select_enumerator::next() values"],
 [("m_low_buf/m_chunks_avail", "buffered low parts", "elias_fano.hpp:247")])

prop("C12", "Compressed integer lists return exactly the integers stored",
 "Every compressed list kind (prefix-sum list, length-coded list, gamma list, gamma list with explicit bit, nibble list, plain mapped vector) built from any sequence of integers in its domain has that sequence's length and returns the i-th integer at index i; the prefix-sum list also reports the exact total. This holds up to the largest storable value and for any mixture of tiny and huge values.",
 ["inputs"], "every integer sequence in each list's domain (up to 2^64-2 or 2^64-3; nibbles 0..15), every index",
 "Tests use one 12345-element vector of values below 2^32 per list; values above 2^31, empty/one-element lists, the prefix-sum list and nibble list are untested.",
 ["elias_fano_list.hpp", "elias_fano_compressed_list.hpp", "gamma_vector.hpp", "gamma_bit_vector.hpp", "nibble_vector.hpp", "mappable_vector.hpp"],
 [("constructors and operator[]", "gamma_vector.hpp:20-75; gamma_bit_vector.hpp:26-85; elias_fano_compressed_list.hpp:14-52; elias_fano_list.hpp:13-48; nibble_vector.hpp:18-60")],
 ["size(), operator[], sum()"])

prop("C13", "List enumerators yield the stored integers from any start, like indexing",
 "A forward enumerator over any compressed list, started at any valid index, returns the stored integers from that index on one by one until the end, and skipping k equals calling next k times. Enumerators are independent of each other and of random accesses made in between.",
 ["inputs", "histories"], "every list, start index, number of steps, skip pattern, and interleaving of enumerators",
 "Tests advance each fresh enumerator by exactly one element, so multi-step state (buffer refills, word crossings) and skip are never exercised.",
 ["forward_enumerator.hpp", "gamma_vector.hpp", "gamma_bit_vector.hpp", "bit_vector.hpp"],
 [("forward_enumerator<gamma_vector>::next", "gamma_vector.hpp:82-117"), ("forward_enumerator<gamma_bit_vector>::next/skip", "gamma_bit_vector.hpp:90-132"), ("generic forward_enumerator", "forward_enumerator.hpp:6")],
 ["enumerator next() values"],
 [("m_pos, high/low enumerators", "cursor into high and low parts", "gamma_vector.hpp:112")])

prop("C14", "Freeze then map gives back an indistinguishable structure",
 "For every kind of structure and every content, freezing it and mapping the image back (from a file or a memory address, with or without warm-up, into a fresh or an already used object) gives an object that answers every query as the original, also after the original is destroyed, after further swaps, and after freezing and mapping it again. Freezing does not alter the original, and freezing an object obtained by mapping produces the same image.",
 ["inputs", "histories", "configurations"], "every structure kind and content; every order of freeze, map, swap, clear, destroy, re-freeze; every map flag",
 "Tests map one vector of 4 ints and one two-field struct; no actual succinct structure is ever frozen and mapped (test sources say 'test (de)serialization').",
 ["mapper.hpp", "mappable_vector.hpp", "bit_vector.hpp", "rs_bit_vector.hpp", "bp_vector.hpp", "darray.hpp", "darray64.hpp", "elias_fano.hpp", "gamma_vector.hpp", "gamma_bit_vector.hpp", "topk_vector.hpp", "cartesian_tree.hpp", "nibble_vector.hpp", "elias_fano_list.hpp", "elias_fano_compressed_list.hpp"],
 [("freeze_visitor/map_visitor", "mapper.hpp:51-155"), ("map() members of every structure", "bit_vector.hpp:228; rs_bit_vector.hpp:27; bp_vector.hpp:29; ...")],
 ["all queries on the mapped object; bytes of the image"])

prop("C15", "Frozen image: stable layout, and all size reports agree with it",
 "The frozen image of a structure is a fixed function of its content and freeze flags: a 64-bit flags word, then its fields in their published order, each vector as a 64-bit element count followed by its packed elements, little endian, so images written earlier stay readable. The byte count returned by freeze and by map, the length of the image, the reported in-memory size plus the 8-byte flags word, and the root of the size tree plus that flags word are all equal, and every inner size-tree node with only vector or structure members accounts for all bytes below it.",
 ["inputs", "histories"], "every structure kind, content and flags value",
 "Tests check one size_of value (24 bytes); freeze/map return values, size trees and image bytes are never examined.",
 ["mapper.hpp", "rs_bit_vector.cpp", "bp_vector.cpp", "darray.hpp", "elias_fano.hpp", "darray64.hpp"],
 [("freeze_visitor", "mapper.hpp:51"), ("sizeof_visitor/size_tree_of", "mapper.hpp:157-230,268")],
 ["image bytes, return values of freeze/map/size_of, size_tree_of nodes"])

prop("C16", "Vectors keep their contents and release storage exactly once",
 "Through any history of constructing, assigning, stealing a std::vector, swapping, clearing, mapping over, and destroying vectors and structures, each object's contents are exactly those last given to it (swap exchanges them, steal empties its source, clear leaves it empty). Owned storage is released exactly once, when its last owner lets go of it and never while still readable, and mapped memory is neither released nor modified.",
 ["histories", "inputs"], "every finite history of ownership operations over several objects, empty and non-empty",
 "Tests do one assign and one map; swap of owned with mapped, clear after map, steal over an owned vector, leaks and double frees are never checked.",
 ["mappable_vector.hpp", "mapper.hpp", "bit_vector.hpp"],
 [("mappable_vector steal/assign/clear/swap/destructor", "mappable_vector.hpp:32-85"), ("map_visitor clears before mapping", "mapper.hpp:125")],
 ["size(), contents, live allocations when nothing is owned, mapped bytes"],
 [("m_data/m_size/m_deleter", "data pointer, length, releaser of owned storage", "mappable_vector.hpp:118")])

prop("C17", "Word primitives compute their bit-level definition in every build variant",
 "For every 64-bit word, population count, per-byte counts and their sum, byte and bit reversal, k-th set bit, highest/lowest set bit (and the report that there is none), single-bit position, same-highest-bit test, and the lane-wise comparisons compute their bit-level definition. All build variants (intrinsics on or off, hardware popcount on or off) give the same results.",
 ["inputs", "configurations"], "all 2^64 words (and lane pairs; signed lane comparison where the lane difference does not overflow), all three build variants",
 "No test calls these primitives directly, and only the default variant is ever built, so the portable and popcnt code paths are never executed.",
 ["broadword.hpp", "intrinsics.hpp", "tables.hpp", "succinct_config.hpp.in"],
 [("popcount/byte_counts/bytes_sum/select_in_word/msb/lsb/reverse_bits/leq_step_8/uleq_step_8/uleq_step_9/zcompare_step_8", "broadword.hpp:26-183"), ("bsf64/bsr64/byteswap64", "intrinsics.hpp:33-70"), ("select_in_byte", "tables.hpp")],
 ["return values"])

prop("C18", "Build variants are interchangeable: same answers, same images",
 "A program built with any supported variant (intrinsics on/off, hardware popcount on/off, assertions on/off) gets the same answers from every structure built from the same content and writes the same frozen image. An image frozen by one variant can be mapped by any other and answers every query correctly.",
 ["configurations", "inputs"], "every pair of build variants, every structure kind and content",
 "Only one variant is built and tested; images never cross between variants.",
 ["broadword.hpp", "intrinsics.hpp", "mapper.hpp", "rs_bit_vector.hpp", "bp_vector.cpp"],
 [("#if SUCCINCT_USE_INTRINSICS / SUCCINCT_USE_POPCNT branches", "broadword.hpp:56-170"), ("freeze/map", "mapper.hpp:232-258")],
 ["answers of structures mapped from images written by another variant; image bytes"])

prop("C19", "Queries are pure: history, other objects and other threads do not matter",
 "A query's answer depends only on the content of the object queried and the arguments: repeating it, preceding it with any other queries on this or other objects, or building, swapping and destroying other objects in between never changes it. Any number of threads may query the same object at the same time without synchronisation and all get the correct answers.",
 ["histories", "schedules"], "every interleaving of queries over a population of objects of all kinds, by one or many threads",
 "Tests query one object at a time, in increasing argument order, from one thread.",
 ["bit_vector.hpp", "rs_bit_vector.hpp", "bp_vector.cpp", "darray.hpp", "elias_fano.hpp", "cartesian_tree.hpp", "gamma_vector.hpp", "gamma_bit_vector.hpp", "topk_vector.hpp"],
 [("const query members over immutable vectors; static tables built before use", "all headers; bp_vector.cpp:10-72")],
 ["answers under random mixed histories and concurrent readers"])

prop("C20", "Integer codecs are exact, self-delimiting inverses over the full range",
 "For every 64-bit value, variable-byte encoding appends the minimal number of bytes (most significant 7-bit group first, continuation bit on all but the last byte), returns that number, and decoding at that offset returns the value and the same number, in any concatenation of codes. The signed/unsigned mapping is a bijection between all 64-bit signed and unsigned integers that sends 0, -1, 1, -2, ... to 0, 1, 2, 3, ...; ceiling division is exact whenever dividend + divisor - 1 is representable.",
 ["inputs"], "all 2^64 values and all concatenations",
 "Neither codec nor the mapping has any test.",
 ["vbyte.hpp", "util.hpp"],
 [("vbyte_size/append_vbyte/decode_vbyte", "vbyte.hpp:7-38"), ("int2nat/nat2int/ceil_div", "util.hpp:244-270")],
 ["encoded bytes, return values, decoded values"])

prop("C21", "Line readers return every line of the input once, in order, unaltered",
 "For every text without NUL bytes, each line reader (reading line by line from a stream, iterating a stream, iterating a buffer or a mapped file) yields exactly the lines of the text in order, once each, including empty lines, lines longer than any internal buffer and a last line without terminator, and an empty text has no lines. The stream readers keep the terminator, or with trimming remove all trailing carriage returns and newlines; the buffer readers remove the newline and one preceding carriage return.",
 ["inputs"], "every text: any line lengths (around and above 65536), any mix of terminators, with or without final newline",
 "No line reader has any test.",
 ["util.hpp"],
 [("fast_getline/trim_newline_chars/line_iterator/lines", "util.hpp:14-93"), ("buffer_line_iterator/mmap_lines", "util.hpp:144-225")],
 ["sequence of lines produced"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
