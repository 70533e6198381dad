AI="abstract interpretation of SSA over symbolic encodings (affine lengths, segment contents, loop summaries)"
AIN="Path-sensitive; loops summarised by inferred affine invariants. A path whose lengths or contents cannot be represented is recorded as undecided in the evidence and raises no alarm. Go semantics of append/copy/slicing are modelled; functions outside the module are opaque."
for i in ("T01","T02","T03","T04","T06","T07"): claim(i,AI,AIN)
claim("T05",AI+"; announced count compared with inserted tokens per post-processor",AIN)
claim("T08",AI+"; array ownership (points-to of backing arrays)",AIN)
claim("E02","SSA data-race and ordering analysis of goroutine fan-outs (lock/slot/join rules)","Sound for the goroutine patterns used (shared captured variables, slots, mutexes, channels, WaitGroup/errgroup); assumes standard-library and x/sync primitives behave as documented and that the single operations themselves are race-free (E01).")
claim("E05","SSA error-flow analysis: every error result is returned, checked on all paths or tested","Path-insensitive about what the non-nil branch does beyond returning/panicking; assumes callees outside the module report failures through their error result.")
claim("E06","call-graph reachability (class-hierarchy) of process-terminating calls","Over-approximate call graph, so a pass is sound for calls within the module; standard-library callees are assumed not to exit.")
claim("E01","interprocedural effect and points-to analysis of SSA: every memory write reachable from encode/decode/lookup entry points is attributed to fresh, caller-owned or component memory","Write effects on component memory are violations; bounded call depth and call sites whose callee is unknown are recorded in the evidence. Caches guarded by locks are exempt (E03).")
claim("E03","SSA key/value-dependency and lock-discipline analysis of every cache field","Cached value must be a function of the cache key and of immutable model state; values handed out must not be mutated; standard-library and go-cache code is trusted.")
claim("E04","SSA order-dependence analysis of map iterations, clock reads and randomness reachable from the API","Order-independence is decided per loop by what leaves it; a loop the rules cannot classify is a violation only if an ordered result escapes. Entry-specific callees are assumed order-free unless they write a stream.")
AC="abstract interpretation of SSA on symbolic configurations (known shape, symbolic values)"
claim("C01",AC+": fields of the built component compared with a table of documented settings","Values the interpretation cannot resolve are undecided (recorded in the evidence, no alarm); the table of documented names and defaults is the oracle.")
claim("C02",AC+": dynamic type of the result per documented type name, error for all others","Results whose dynamic type is unresolved are undecided; constructors of nested components are replaced by marks and checked on their own.")
claim("Q01","abstract interpretation of SSA on symbolic encodings (symbolic offsets, words, characters; positions around the bounds; unbounded length for out-of-range indexing)","Answers are compared with the encoding's own arrays on every path; encodings with 0 to 5 tokens and up to two sequence ranges, plus one of unbounded length for crash freedom. Unresolved answers are undecided.")
AS="abstract interpretation of SSA over scripts of public calls (symbolic model size and ids, known token texts)"
claim("V02",AS,"Over-approximating interpretation; an answer it cannot resolve is undecided (evidence), an answer that provably differs is a violation. The histories are a fixed set of 22 mixed additions.")
claim("V03",AS,"As V02; id lists up to four entries covering model, added, special and unknown ids.")
claim("E07","abstract interpretation of SSA on symbolic pieces (token lists and labelled texts; unknown stage functions)","Pieces and matches are given, the texts are symbolic; unresolved results are undecided. Slicing of the text itself is covered by N01.")
claim("V01","abstract interpretation of SSA over model constructions (known tokens, symbolic ids, scripted files)","Every construction of a BPE, WordPiece, WordLevel or Unigram model reachable from the public constructors and file loaders is interpreted, then the four vocabulary views are compared entry by entry. Undecided views go to the evidence.")
claim("S01","abstract interpretation of SSA over save and load (scripted files, vocabularies out of id order, failing operations)","Save of every model kind is followed by its own loader on the text written; tokens, ids, merge ranks and merged ids are compared; then each file operation fails in turn and must be reported.")
claim("B01","abstract interpretation of SSA with a symbolic merge table, all paths followed","Words of up to five symbols (all orders of ranks and all presences of their pairs), scripted dropout draws, models on known texts; the priority queue is modelled exactly with the interpreted comparator. Longer words are assumed to merge alike.")
claim("X05","abstract interpretation of SSA over training with symbolic word counts, all paths followed","Sets of up to three words with symbolic counts, all trainer settings; goroutines run in one order, map ranges in four. The split over several workers from 10000 words on is not reached.")
claim("X03","abstract interpretation of SSA over Viterbi segmentation with symbolic scores, all paths followed","35 texts of up to 24 bytes and vocabularies of up to seven pieces, scores symbolic (exact sums); the best score is decided by linear arithmetic over the conditions of each path.")
claim("X04","abstract interpretation of SSA over word look-up with an unknown vocabulary, all paths followed","Words of up to four characters with a vocabulary of which nothing is known, prefixes, limits and unknown tokens; longer words only at the default limit.")
claim("N01","abstract interpretation of SSA over the operations of a normalized string, all paths followed","Texts of up to three characters of one to three bytes, each operation alone, after each other one and after pairs; predicates and matches are open. The alignments from the original to the text are not promised and not checked.")
claim("N02","abstract interpretation of SSA with the Unicode library replaced by arbitrary segmentations, all entry points","The library's segments are given (growing, shrinking, joining characters); that the library itself implements the forms is assumed.")
claim("N03","abstract interpretation of SSA over every normalizer, with the package's tables interpreted from source, all paths followed","Texts of up to four characters from every class treated apart; sequences of up to three; which entries a precompiled map has is open.")
claim("P01","abstract interpretation of SSA over patterns and splitting with open matches, all paths followed","Texts of up to four characters of one to three bytes; every set of matches; one operation before; pieces cut from a longer text.")
claim("P02","abstract interpretation of SSA of every pre-tokenizer over representative texts, package tables included, against reference pieces","Twenty texts that hold every class of characters the pre-tokenizers treat apart; sequences of two; valid UTF-8.")
claim("D01","abstract interpretation of SSA of every decoder over representative token lists, against reference pieces","Token lists that hold what each decoder treats apart; sequences of two.")
claim("B02","abstract interpretation of the package initialisers and of encoding and decoding over the whole byte alphabet","All 256 bytes; texts that hold every byte of valid UTF-8.")

claim("F01","abstract interpretation of the lookup on scripted files, environment and network, with every operation failing in turn and the final file watched after each","Scripted environments; failures of one operation at a time.")
claim("F02","forward path walk from every acquisition with interprocedural release summaries","Resources stored in fields or containers are left to their holder.")
claim("R01","shared-access, join and channel rules over every goroutine of training; abstract interpretation of Train on scripted corpora with chunk constants shrunk, every file operation failing in turn","Corpora of up to a dozen lines, chunks of 5 and 8 bytes; one failure at a time; schedules run to completion, interleavings judged by the access rules.")
claim("M01","abstract interpretation of every post-processor on laid-out encodings, with the builders and recursive merges followed; oracle: the documented layouts","Encodings of a few tokens and up to two windows a side; templates of nine pairs, made three ways; sequence ranges and the type ids of windows are not compared.")
claim("A01","abstract interpretation of the additions and of ExtractAndNormalize on texts, with expressions evaluated as built; oracle: the definition of recognition","Texts of up to a few dozen characters, up to five tokens, four normalizers (none, lower case, dropping, lengthening); models and ids symbolic.")
