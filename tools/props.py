"""single source of properties.jsonl (run: python3 tools/props.py)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=["lttoolbox/" + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))


p("C01", "Integers stored in binary dictionaries are read back unchanged",
  "Every unsigned integer below 2^30 written with the dictionary integer code is read back as the same integer, through FILE* and through iostreams alike. The code is self-delimiting: reading consumes exactly the bytes writing produced, so any sequence of integers written one after another is read back as the same sequence, and the byte format (1-4 bytes, big-endian, length in the two top bits) is the same for both kinds of stream.",
  ["inputs", "histories"], "all values below 2^30, all sequences of values, both stream kinds",
  "The tests write a few dictionaries; 2^30 values and their sequences are never enumerated.",
  ["compression.cc", "compression.h"],
  [("multibyte_write", "compression.cc"), ("multibyte_read", "compression.cc"), ("writeByte/readByte", "compression.cc")])

p("C02", "Weights stored in binary dictionaries survive up to 30 significant bits",
  "A weight that is not NaN, written with the dictionary weight code and read back, is the same weight with its significand truncated toward zero to 30 bits and with its exponent and sign unchanged; both infinities come back exactly, and no finite weight comes back as an infinity unless truncation is exact. Reading consumes exactly what writing produced, for FILE* and iostreams alike.",
  ["inputs"], "all non-NaN doubles, including subnormals, signed zeros and infinities",
  "The tests use a handful of decimal weights.",
  ["compression.cc"],
  [("long_multibyte_write", "compression.cc"), ("long_multibyte_read", "compression.cc")])

p("C03", "Text stored in binary dictionaries is read back unchanged",
  "Every well-formed UTF-16 text (including characters outside the basic plane) written with the dictionary string code is read back as the same text, whatever its length and content; reading consumes exactly the bytes writing produced, so texts and integers written one after another come back in the same order, and FILE* and iostreams use the same bytes.",
  ["inputs", "histories"], "all well-formed UTF-16 texts, all sequences of texts and integers, both stream kinds",
  "Tests store only the symbol names of a few dictionaries, nearly all ASCII.",
  ["compression.cc", "ustring.cc"],
  [("string_write", "compression.cc"), ("string_read", "compression.cc"), ("ustring_to_vec32", "ustring.cc"), ("operator+=(UString, UChar32)", "ustring.h")])

p("C04", "Deserialising gives back exactly what was serialised",
  "For every value of every serialisable type (8- to 64-bit signed and unsigned integers, doubles bit for bit, UTF-16 and byte strings, pairs, vectors, maps and multimaps of those, alphabets and transducers), deserialising the serialised bytes gives an equal value and consumes exactly those bytes, so values serialised one after another come back in order; a stream that ends early raises DeserialisationException instead of yielding a value.",
  ["inputs", "crash points"], "all values, all nestings in use, all truncation points",
  "No test round-trips the Serialiser at all.",
  ["serialiser.h", "deserialiser.h", "alphabet.cc", "transducer.cc"],
  [("compressedSize", "serialiser.h"), ("int_serialise", "serialiser.h"), ("int_deserialise", "deserialiser.h"), ("Alphabet::serialise/deserialise", "alphabet.cc"), ("Transducer::serialise/deserialise", "transducer.cc")])

p("A06", "An alphabet written to a dictionary file is read back unchanged",
  "Writing an alphabet and reading it back gives the same symbols with the same identifiers and the same pairs with the same codes, for every alphabet; reading consumes exactly what writing produced, and lookups in the read alphabet agree with lookups in the written one in both directions.",
  ["inputs"], "all alphabets (any symbols, any pairs, any order of insertion)",
  "Tests only load dictionaries the same build compiled, with a few dozen symbols.",
  ["alphabet.cc"],
  [("write", "alphabet.cc"), ("read", "alphabet.cc")],
  [("slexic/slexicinv", "symbol -> identifier and back", "alphabet.h"), ("spair/spairinv", "pair -> code and back", "alphabet.h")])

p("T07", "A transducer written to a dictionary file is read back unchanged",
  "Writing a transducer and reading it back gives the same initial state, states, final states and arcs (with multiplicity), with every weight truncated to 30 significant bits, for every transducer, weighted or not; reading consumes exactly what writing produced, so several transducers in one file come back in order. Unweighted transducers are written without weights, and both readers (Transducer::read and the run-time TransExe) agree on the content.",
  ["inputs"], "all transducers, including parallel arcs, cycles, isolated states, unreachable finals, infinite and negative weights",
  "Tests only round-trip the shapes their dictionaries compile to.",
  ["transducer.cc", "trans_exe.cc", "file_utils.cc"],
  [("write", "transducer.cc"), ("read", "transducer.cc"), ("weighted", "transducer.cc"), ("TransExe::read", "trans_exe.cc")])

p("A05", "Symbol identifiers and pair codes are stable bijections",
  "In every alphabet the symbols and their negative identifiers, and the symbol pairs and their codes, correspond one to one; identifiers and codes are handed out densely in order of first use, code 0 is the empty pair, and once given they never change, whatever is added later. Looking something up finds exactly what was added (undefined symbols are reported as undefined) and never disturbs the rest; copies are equal to and independent of their original.",
  ["inputs", "histories"], "all histories of include / pair / lookup / copy / loopback operations",
  "Tests only touch alphabets indirectly through whole dictionaries; a history property over all interleavings of operations cannot be sampled.",
  ["alphabet.cc", "alphabet.h"],
  [("includeSymbol", "alphabet.cc"), ("operator()", "alphabet.cc"), ("decode", "alphabet.cc"), ("symbolsWhereLeftIs", "alphabet.cc"), ("sameSymbol", "alphabet.cc"), ("copy", "alphabet.cc"), ("createLoopbackSymbols", "alphabet.cc")],
  [("slexic/slexicinv", "symbol -> identifier and back", "alphabet.h"), ("spair/spairinv", "pair -> code and back", "alphabet.h")])

p("T08", "Editing a transducer changes exactly what the edit says",
  "Every edit of a transducer under construction does what it says and nothing else, for every transducer: adding a labelled arc reuses an existing arc with that label and weight or creates one fresh state; linking two states adds that arc unless the two states are already linked with that label; states are numbered densely from 0 and arcs lead only to existing states; marking a state final keeps the first weight given. Joining final states keeps the accepted strings and their weights and leaves one final state; optional, oneOrMore and zeroOrMore accept exactly L?, L+ and L* (least weights added up); inserting a transducer at a state adds an exact copy of it, linked from that state, and leaves the rest untouched. Copies are equal and independent; size, transition-count, emptiness and weightedness queries agree with the contents.",
  ["inputs", "histories"], "all transducers with at least one final state where joining is involved, all edit histories",
  "Dictionary tests only exercise the edit sequences of a few dictionaries.",
  ["transducer.cc", "transducer.h"],
  [("newState", "transducer.cc"), ("insertSingleTransduction", "transducer.cc"), ("insertNewSingleTransduction", "transducer.cc"), ("linkStates", "transducer.cc"), ("setFinal", "transducer.cc"), ("joinFinals", "transducer.cc"), ("optional/oneOrMore/zeroOrMore", "transducer.cc"), ("insertTransducer", "transducer.cc"), ("unionWith", "transducer.cc")],
  [("transitions", "state -> label -> (target, weight)", "transducer.h"), ("finals", "final state -> weight", "transducer.h")])

p("T09", "Epsilon closure is exactly epsilon reachability",
  "For every transducer, the closure of a state under a tag or a set of tags is exactly the set of states reachable from it over arcs with those tags (itself included): nothing reachable is missing, nothing unreachable is added, whatever cycles the arcs form and in whatever order states are numbered. The closure of all states at once follows only the arcs with default weight, so no weight is ever dropped, and agrees with reachability for every state.",
  ["inputs"], "all transducers, all states, all tag sets",
  "Closures are only exercised through small compiled dictionaries; cyclic and badly ordered epsilon structures are not.",
  ["transducer.cc"],
  [("closure", "transducer.cc"), ("closure_all", "transducer.cc"), ("getStateSize", "transducer.cc")])

p("T10", "Reversing, determinizing and minimizing keep the weighted language",
  "For every transducer: determinize keeps exactly the accepted label strings and the least weight of each, and leaves no two arcs from a state with the same label and weight and no weightless epsilon arc; reverse gives exactly the reversed strings with their weights and one final state, so reversing twice is the identity on the language; minimize (for transducers that accept something) keeps the weighted language, is deterministic in the same sense, and on unweighted transducers ends with the least possible number of states or one more. Arcs lead only to existing, densely numbered states afterwards.",
  ["inputs"], "all transducers with non-negative weights, any epsilon tag, with a non-empty language for minimize",
  "Tests minimise only what a few dictionaries compile to; weighted, cyclic and epsilon-rich shapes hardly appear.",
  ["transducer.cc"],
  [("determinize", "transducer.cc"), ("reverse", "transducer.cc"), ("minimize", "transducer.cc"), ("joinFinals", "transducer.cc")])

p("T11", "Rewriting labels changes exactly the labels it should",
  "For every transducer and alphabet: invert swaps the two sides of every arc and nothing else; deleteSymbols removes exactly the arcs with the given labels; epsilonizeSymbols turns exactly the arcs with the given (non-epsilon) labels into epsilon arcs; applying an equivalence table adds exactly one arc per arc and equivalent input character; moving to another alphabet keeps the text of every label, for pair and one-sided transducers alike. States, start, finals, weights and targets are untouched.",
  ["inputs"], "all transducers, alphabets, symbol sets and equivalence tables",
  "Tests cover one or two dictionaries per operation.",
  ["transducer.cc", "alphabet.cc"],
  [("invert", "transducer.cc"), ("deleteSymbols", "transducer.cc"), ("epsilonizeSymbols", "transducer.cc"), ("applyACX", "transducer.cc"), ("updateAlphabet", "transducer.cc")])

p("S12", "Sorted containers behave as sets, and table search finds what is there",
  "After any history of single and range insertions, erasures, assignment, swap and clearing, a sorted_vector holds exactly the elements inserted and not erased, each once, in increasing order; count, find, lower and upper bound, intersects and comparison agree with that set, and insert/erase report truthfully. Binary search in a node's transition table returns the entry of the asked tag if there is one and nothing otherwise.",
  ["inputs", "histories"], "all operation histories, all element values",
  "The containers are only used indirectly by the tests.",
  ["sorted_vector.hpp", "sorted_vector.h", "sorted_vector.cc"],
  [("insert/erase/find/count", "sorted_vector.hpp"), ("SortedVector::search", "sorted_vector.cc")],
  [("elements", "sorted storage", "sorted_vector.hpp")])

p("B13", "The input buffer replays exactly what was read",
  "For every history of adding, consuming, stepping back and saving/restoring positions that stays within the buffer's capacity, the circular buffer returns exactly the elements that were added, in order: next and peek give the element at the current position, back(k) goes back exactly k elements, setPos(getPos()) returns to the same element, diffPrevPos counts the elements since a saved position, last is the newest element, and copies are equal and independent - also after any number of wrap-arounds.",
  ["histories"], "all operation histories within capacity, all capacities",
  "The default capacity is never exceeded by the tests, so wrap-around is not exercised.",
  ["buffer.h"],
  [("add", "buffer.h"), ("next", "buffer.h"), ("back", "buffer.h"), ("diffPrevPos", "buffer.h")],
  [("buf/currentpos/lastpos", "ring storage, read and write position", "buffer.h")])

p("R14", "Running a compiled transducer follows exactly its arcs",
  "For every transducer without epsilon cycles and every sequence of run-time steps (plain, case-insensitive, with alternatives, with an override, optional), the run-time state holds exactly the paths of the transducer that read those symbols: it is empty iff no path is left, a final node is reached iff a path with that input ends there, and the analyses returned are exactly the outputs of those paths, each once, with its least weight, lightest first. Merging, pruning, restarting at final nodes and copying change exactly the paths they name.",
  ["inputs", "histories"], "all transducers without epsilon cycles, all symbol sequences, all step kinds",
  "Tests run a few words through a few dictionaries.",
  ["state.cc", "node.cc", "trans_exe.cc"],
  [("step/apply", "state.cc"), ("epsilonClosure", "state.cc"), ("filterFinals", "state.cc"), ("pruneCompounds", "state.cc"), ("TransExe::read", "trans_exe.cc")],
  [("state", "active (node, output, case) triples", "state.h")])

p("R15", "Analysis limits keep exactly the lightest analyses",
  "For every list of analyses and every pair of limits (number of analyses, number of weight classes), exactly the lightest analyses are kept: as many as both limits allow, no more and no fewer, in order of weight, each as often as it was given; weights are shown only on request.",
  ["inputs"], "all lists of analyses and weights, all limits",
  "Tests use one limit on one dictionary.",
  ["state.cc"], [("NFinals", "state.cc"), ("filterFinalsArray", "state.cc")])

p("U17", "Text utilities do what their names say for every text",
  "For every text, including characters outside the basic plane, empty text and text made of white space only: trimming removes exactly the surrounding white space; splitting, joining and substituting cut and put back exactly at the delimiters (escaped ones excepted); case mapping is the full Unicode mapping whatever its length, and case copying and case comparison follow it; numbers are read back as written; UTF-8 and UTF-16 conversions keep every character; text is cut into escaped characters, <symbols> and characters, and tokenised accordingly. Nothing outside the given text is read.",
  ["inputs"], "all well-formed UTF-16 texts, non-empty delimiters",
  "Only a few utilities are unit-tested, on short ASCII texts.",
  ["string_utils.cc", "symbol_iter.cc", "alphabet.cc", "ustring.cc"],
  [("trim", "string_utils.cc"), ("split/join", "string_utils.cc"), ("toupper/tolower/totitle", "string_utils.cc"), ("symbol_iter", "symbol_iter.cc"), ("tokenize", "alphabet.cc"), ("ustring_to_vec32", "ustring.cc")])

p("M20", "Pattern matching gives a word the least class of its patterns",
  "For every compiled pattern list and every word, stepping the match state through the word and classifying gives the least number of the patterns the word matches, and -1 if it matches none; banned classes are left out. A match state follows exactly the arcs from its current nodes; copies are equal and independent; the ring that holds the nodes never loses or invents one within its capacity.",
  ["inputs", "histories"], "all pattern lists whose sequences do not mix plain and labelled parts (see the known finding), all words",
  "No test uses pattern lists.",
  ["match_state.cc", "match_exe.cc", "match_node.cc", "pattern_list.cc"],
  [("step", "match_state.cc"), ("classifyFinals", "match_state.cc"), ("buildTransducer", "pattern_list.cc"), ("insertIntoTransducer", "pattern_list.cc")])

p("D21", "A compiled dictionary contains exactly the listed pairs",
  "For every dictionary without regular expressions, and each direction and choice of variants, every section's compiled transducer contains exactly the pairs that the dictionary lists for it: paradigms expanded in full, entries restricted to the other direction or variant or marked to be ignored left out, each pair with the least of the sums of its entries' weights - no pair lost, none invented, none in another section; the stored letters are those of the alphabet element. Splitting sections into parallel jobs changes nothing.",
  ["inputs"], "all dictionaries (entries, paradigms, restrictions, weights, variants), both directions",
  "The tests compile a few dozen hand-written dictionaries.",
  ["compiler.cc", "transducer.cc", "entry_token.cc"],
  [("insertEntryTokens", "compiler.cc"), ("matchTransduction", "compiler.cc"), ("procParDef", "compiler.cc"), ("procEntry", "compiler.cc"), ("write", "compiler.cc")],
  [("paradigms", "paradigm name -> transducer", "compiler.h"), ("sections", "section -> transducer", "compiler.h"), ("prefix/suffix_paradigms", "shared copies of paradigms", "compiler.h")])

p("P22", "Analysis splits text into the longest known words and keeps everything else",
  "For every dictionary and every text, lt-proc's analysis scans the text from left to right: at each place where a word may begin it takes the longest entry that may end there and writes its surface form, as it stands in the text, with exactly the analyses of the dictionary, case carried over as the options ask; words in no entry are marked unknown; every other character, superblank and escape of the text is written unchanged and in its place. Nothing of the text is lost, invented or moved, also at the end of the text and across null flushes.",
  ["inputs"], "all dictionaries, all well-formed streams, the case options and null flush",
  "Tests run a few texts through a few dictionaries.",
  ["fst_processor.cc", "state.cc", "input_file.cc"],
  [("analysis", "fst_processor.cc"), ("readAnalysis", "fst_processor.cc"), ("printWord/printUnknownWord/printSpace", "fst_processor.cc")],
  [("input_buffer", "characters read and pushed back", "fst_processor.h"), ("blankqueue", "superblanks waiting to be written", "fst_processor.h")])

p("P23", "Generation and lookup write exactly what the dictionary gives for each unit",
  "For every dictionary and every well-formed stream of lexical units, generation writes for each unit the surface form that the dictionary gives for it, with case carried over, or the unit marked as unknown according to the mode, and bilingual lookup writes for each unit its source and exactly its translations, with unmatched trailing tags copied over; text, blanks and escapes between the units pass through unchanged, and no unit is lost, repeated or moved.",
  ["inputs"], "all dictionaries, all well-formed streams, modes unknown/clean/all/tagged and bilingual lookup",
  "Tests run a few units through a few dictionaries.",
  ["fst_processor.cc", "state.cc", "stream_reader.cc"],
  [("generation", "fst_processor.cc"), ("bilingual", "fst_processor.cc"), ("compose", "fst_processor.cc"), ("StreamReader::next", "stream_reader.cc")])

p("X24", "Composition and trimming keep exactly the pairs both transducers let through",
  "For all transducers and alphabets: composing f with g relates exactly the pairs (x, z) for which f relates x to some y and g relates that y to z, each with the least sum of weights, whichever side of f is matched, symbols compared by their text also across different alphabets (with the option 'anywhere', g may also copy symbols while it stands at its start); trimming keeps exactly the pairs whose output the trimmer reads - a join (+) starting the trimmer again or being read as a letter, the group after # belonging to the part before the first join, compound markers skipped, wildcards matching any letter or any tag - with their weights (if the trimmer has none); union, of transducers whose initial state is not re-entered, is the union with the least weights; appending loops adds exactly the given symbols to every final state; and none of these changes its second operand's language.",
  ["inputs"], "all transducers (with and without weights and empty steps), all alphabets, both matching directions",
  "The tests compose and trim a few small dictionaries, none with weights on parallel paths.",
  ["transducer.cc", "transducer.h", "alphabet.cc"],
  [("compose", "transducer.cc"), ("trim", "transducer.cc"), ("composeLabel", "transducer.h"), ("linkLightest", "transducer.cc"), ("sameSymbol", "alphabet.cc"), ("unionWith", "transducer.cc"), ("appendDotStar", "transducer.cc")],
  [("states_f_g_gf", "pair of states -> state of the composition", "transducer.cc"), ("states_this_trimmed", "(state, trimmer state, state before the first join) -> state of the result", "transducer.cc")])

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P), "properties")
