M['V01']=("every public construction of the four models (builders, options, loaders from scripted files) is interpreted on a vocabulary of known tokens with symbolic ids; TokenToId, IdToToken, GetVocab and GetVocabSize of the result are compared entry by entry with the vocabulary given and with one another.","Vocabularies of a few known tokens; ids symbolic and distinct; size of a Unigram vocabulary with repeated tokens is left out (the format does not define it).")
M['S01']=("Save is interpreted on vocabularies and merge tables entered out of id and rank order, into scripted files; the text written is handed to the loader of the model and both models are compared. Directory missing, first or second creation, write, close, marshal failing: Save must return an error. Read failures: the loader must not return success.","Vocabularies of 4 to 7 known tokens; ids 0..n-1; formats without escapes (tokens with line breaks, merges with spaces) are out of scope.")
M['B01']=("MergeAll is interpreted, through NewWord and Add, on words of up to five symbols with a symbolic merge table: presence and rank of every pair are atoms, conditions on them split the path, so the paths enumerate all rank orders. On every path the symbols and their offsets are compared with the definition evaluated under the facts of the path. Dropout: the draws of math/rand are scripted (none, one, two, all below the bound). BPE.Tokenize is interpreted on built models (affixes, unknown and wide characters, twice for the cache). The trainer's tie order is compared on trainings of equally frequent pairs","words longer than five symbols; draws beyond the scripted patterns")
M['X05']=("the trainers (BPE, WordPiece) are interpreted from the builder to the trained model on small sets of words with symbolic counts; channels, wait groups and goroutines are modelled, heap comparators and sort functions interpreted, every undecided comparison splits the path. Vocabulary and merge table of the result are compared with an evaluation of the definition under the facts of the path, for four orders of map iteration","corpora beyond three short words; more than one counting worker (10000 words)")

M['X03']=("Unigram.Tokenize is interpreted from the builder on for 35 texts and small vocabularies with symbolic scores; a score is a linear form in thousandths or infinite, every comparison that the path does not decide splits it. On each path the tokens must be those of a segmentation of the definition, and no other segmentation may be able to score more under the conditions of the path (exact simplex over rationals in the analyser itself)","floating-point rounding; texts of more than a few pieces; a run of unknown characters that is itself a piece of very low score")
M['X04']=("WordPiece.Tokenize and WordLevel.Tokenize are interpreted from their constructors on with a vocabulary map of which nothing is known; the paths are all answers to the look-ups. On each, the definition is evaluated with the same answers (through TokenToId) and the tokens compared: texts, ids, byte offsets, errors","words of more than four characters other than at the default length limit")
M['N01']=("the operations of a NormalizedString are interpreted on texts with characters of each width, each alone, after every other and after pairs of others. A reference keeps, for every character, the bytes of the original it came from; after each step text, original, number and bounds of the alignments, and the exact alignment of each kept or replaced character are compared. Predicates, character maps and regular expressions are open: every answer is followed","alignmentsOriginal (the way from the original to the text, wrong in upstream too after removals) is not promised; invalid UTF-8")
M['N02']=("the norm package is replaced by a stand-in that is told a segmentation of the text (segments that grow, shrink, join, split) and records the form it is asked for; all four forms through method, normalizer, configuration option, on each segmentation; text and alignments compared as in N01","the norm package itself is trusted")
M['N03']=("each constructor, then Normalize, on texts that hold every class of character treated apart; the reference applies the documented rule to characters with their origins. The package's own initialisers are interpreted so that its Unicode tables are the source's; classes are also compared at every border. Sequences: every order of up to three known ones and up to four unknown ones that return new strings or fail","the precompiled map's binary format (spm) is not decoded")
M['P01']=("FindMatches of every kind of pattern and Split with all behaviours are interpreted; the matches of regular expressions, the answers of predicates are open, every possibility is followed. Segments, pieces, their original parts, positions and alignments are compared with a reference","regular expressions that match the empty text at places other than the ends")
M['P02']=("the package initialisers (tables, alphabets, regular expressions) and then every pre-tokenizer a caller can construct, alone and in sequences of two, are interpreted on every path on texts that hold each class of characters told apart (white space, digits, punctuation and symbols of ASCII and not, scripts, marks, NUL, four-byte characters); pieces, their places in the original and the place of each of their bytes are compared with a reference written from the documentation; `unicode.Scripts` is the toolchain's table and the code's walk over it is interpreted","texts are chosen, so a cut that depends on a character of a class that is not represented escapes; UnicodeScript drops leading spaces, as upstream does, and that is taken as documented")
M['D01']=("every constructor and default of a decoder (also ByteLevel, Metaspace, Replace, Strip as decoders) and sequences of two are interpreted on every path on token lists; chain pieces, Decode and the tokens given (which must stay as they are) are compared with a reference","lists are chosen; longer sequences follow from the loop over two")
M['B02']=("the initialisers are interpreted and BytesChar, CharBytes, GenerateBytesChar and Alphabet are read out and compared with GPT-2's alphabet entry by entry; DecodeChain and Decode are interpreted on every character, PreTokenize on texts with every byte of UTF-8","texts of invalid UTF-8")

M['F01']=("CachedPath is interpreted with files, environment and network scripted (cached file, local file, download, 404, 403, 503, empty answer), once as it is and once per operation that fails (create directory, request, open, create, half a copy, write, sync, close - which may lose what was written -, rename). Every single change of the file of the final name is watched: it must never be anything but complete, since control may stop there. Then what is returned, and the same lookup again with nothing failing","one failure at a time; rename within a directory taken as atomic")
M['F02']=("for each function: from each call that yields an open file or response, each Lock or RLock, each change of the working directory, all paths forward (branches on which the acquisition failed left out) must release or hand on before an exit or the next acquisition; releases are calls, defers, closures, and module functions with a summary (always, on errors only, maybe); a lock is not taken again while held, through callees too; the directory restored was asked for before the change","resources kept in fields, maps, channels are their holder's; a release under a condition other than the error is recorded as undecided")
M['M01']=("The constructors (NewBertProcessing, NewRobertaProcessing and NewByteLevelProcessing with each way of trimming, templates from a text, from pieces and by the builder, NewSequence, DefaultTemplateProcessing) and then Process and AddedTokens are interpreted on encodings with given tokens: one and two sequences, with and without special tokens, empty, with windows on either side; recursive merges are followed to the depth that windows of a pair need. Ids, type ids, tokens, masks, offsets, words, the set of windows are compared with the layout; Validate is interpreted on all templates and on six that lack something","The sequence a token is said to be of (Token2Sequence); type ids of windows (the code keeps those Encode gave, as upstream).")
M['A01']=("NewAddedToken with WithSingleWord/WithLStrip/WithRStrip/WithNormalized, or the Set methods, then WithNormalizer, AddTokens, AddSpecialTokens and ExtractAndNormalize are interpreted for some 40 groups of tokens (every combination of the options among them), each as given, as raw, as normalized and as special-and-normalized tokens, on about 300 texts; normalized strings are modelled as texts, regular expressions are evaluated as the code builds them (the deciding step never runs the code under analysis). The pieces are compared with an oracle written from the documentation of the options","Longer texts and other normalizers; alignments of the pieces (N01). Tokens added before the normalizer is set keep the pattern made then, as upstream; that is not judged. Where more than two matches compete, only cover, correctness and completeness are judged")
M['R01']=("every goroutine started by training: accesses to memory shared with its spawner or siblings need a lock, private slot or join; a join is a Wait of a group the goroutine is counted in or a receive from a channel it sends on or closes, directly or through another goroutine; closing a channel, waiting without a receiver and sending after Done are judged on the spawner's control flow. Tokenizer.Train is interpreted with scripted files, pre-tokenizer and trainer, constants of 2 MB and more counting as 8 or 5 bytes so that files have several chunks: the counts given to the trainer equal those of the lines. BPE training is interpreted again with thresholds shrunk so that words are counted in parts, against the definition of X05",
 "the words of a line are what the scripted pre-tokenizer leaves (one piece); chunk thresholds below 2 MB are not shrunk")
