COMMON = " Trusted: clang's AST, the LTV generator, z3/cvc5, the standard-library models in ltv/stl.py; termination is not proved. A concrete harness runs alongside, bounded, as replay and for code outside the contracts."
NOTES = {
 "C01": "All four codec functions proved against byte-level specifications for all 2^32 values; round trip and token-stream lemmas over those contracts." + COMMON,
 "C02": "All four weight codec functions proved in bit-vector/IEEE-754 mode; round-trip lemma over the contracts; frexp/ldexp are assumed to meet their C standard contracts." + COMMON,
 "A05": "Representation invariant and frame of every alphabet operation proved unbounded; string contents opaque (equality only)." + COMMON,
 "C03": "string_write/string_read, UTF-16 decoding and appending proved for both stream kinds against a code-point specification; round trip by lemma." + COMMON,
 "C04": "Integer serialisation proved in bit-vector mode for 8/16/64-bit types (size byte, byte order, truncation exception), signed and 32-bit types by widening lemma; strings, containers, doubles, alphabets and transducers are covered by the bounded harness." + COMMON,
 "A06": "Alphabet::write and Alphabet::read proved against one token-level specification of the file format, unbounded; the codec enters through the C01/C03 contracts." + COMMON,
 "T07": "Transducer::write and Transducer::read proved unbounded against one token-level specification of the file format, with the lemma that what is read after writing is the same states, finals and multisets of arcs with weights as stored; the codec enters through the C01/C02 contracts. Assumed: labels and counts below the codec's 2^28/2^30 limits; no older file without header starts with the bytes of the header. The run-time reader TransExe::read is proved too (one node per state, its arcs in the order of the file)." + COMMON,
 "T08": "Graph-level effect of every primitive, of unionWith, appendDotStar, copying and the queries (exact multiset of arcs, states, finals) proved unbounded over the multimap model; the language-level reading of that graph (L?, L+, L*) is checked by the bounded harness." + COMMON,
 "T10": "reverse, determinize and minimize proved unbounded at graph level: reverse turns exactly the arcs of the joined transducer; determinize is exactly the subset construction over the closures (witnesses: the sets and closures it computed), with the lightest final weight; minimize leaves a deterministic, epsilon-free, well formed transducer. Keeping the weighted language follows by the induction-step lemma; minimality (fewest states) only in the bounded harness; capacity limits (2^31 states) assumed." + COMMON,
 "T11": "invert, deleteSymbols, epsilonizeSymbols, applyACX and updateAlphabet proved unbounded: the exact multiset of arcs of every state after each, labels compared by their text; capacity limits of the alphabet (2^31) assumed." + COMMON,
 "S12": "sorted_vector<int> (single and range insert and erase, find, count, bounds, intersects, front/back, swap, clear) and SortedVector (copy, add, binary search) proved unbounded; std::merge/sort/unique/lower_bound are modelled by their standard contracts. Iteration, comparison and assign only in the bounded harness." + COMMON,
 "B13": "Every member function of Buffer<int> except the unused add(void) proved, for all capacities and all histories, against a ghost history of everything added (H, N, R); new[]/memcpy/delete[] are modelled." + COMMON,
 "R14": "State proved unbounded with its memory handling (pool of sequences: alive, not shared, never another state's): apply in every variant, apply_into, epsilonClosure, every step (except the one over a set of alternatives), step_optional, init, copying, assignment, merge, both prunes, isFinal, hasSymbol, lastPartHasRequiredSymbol: the entries after are exactly one per arc, in order, with exactly what the arcs write. restartFinals, step over a set, the output of final paths (filterFinals*) and TransExe/Node building only in the bounded harness." + COMMON,
 "R15": "State::NFinals proved unbounded (a sub-multiset of the given analyses, in order of weight, lightest, as many as both limits allow, no fewer); weights are totally ordered (no NaN). Building and printing the list (filterFinalsArray) only in the bounded harness." + COMMON,
 "U17": "startswith, endswith, split, split_escaped, join, merge_wblanks and substitute proved unbounded over code units, with lemmas on delimiters and replacements; trim, case functions and symbol iteration only in the bounded harness." + COMMON,
 "M20": "MatchState (construction, copy, assignment, init, clear, both steps, classifyFinals) proved unbounded over the circular state set; MatchExe construction, MatchNode and PatternList compilation only in the bounded harness (generated match automata, pattern lists and words against a dynamic-programming matcher); one known finding." + COMMON,
 "D21": "Compiler::matchTransduction proved unbounded for ordinary dictionaries (the path of an entry, one arc per symbol pair padded with the empty symbol, the weight on its last arc, spelling variants beside it, nothing else); the rest is bounded: generated dictionaries compiled by the real compiler against an independent expansion." + COMMON,
 "P22": "The output functions (escaping, blanks, unknown words: write, isEscaped, isAlphabetic, writeEscaped, writeEscapedWithTags, printWord, printUnknownWord, printSpace, printChar, flushBlanks, lastBlank) are proved unbounded; the main loops are bounded: generated dictionaries and texts through the real FSTProcessor against an exact reference segmentation." + COMMON,
 "P23": "The output functions (escaping, blanks, unknown words: write, isEscaped, isAlphabetic, writeEscaped, writeEscapedWithTags, printWord, printUnknownWord, printSpace, printChar, flushBlanks, lastBlank) are proved unbounded; the main loops are bounded: generated dictionaries and streams through the real FSTProcessor against an exact reference." + COMMON,
 "X24": "linkLightest, composeLabel, sameSymbol, joinFinals, unionWith and appendDotStar proved unbounded; the product constructions compose and trim are bounded: generated transducers (with weights, empty steps, different alphabets, joins, groups, compound markers) through the real functions against the relations computed path by path." + COMMON,
 "T09": "closure(state, tags) proved equal to the least closed set (sound and complete) for every transducer; closure_all likewise." + COMMON,
}
NA = {}
BOUNDED = {"D21", "P22", "P23", "X24"}
