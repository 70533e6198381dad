#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements stay easy to edit)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if 'state' in kw: d['anchors']['state']=[dict(name=n,meaning=m) for n,m in kw['state']]
    P.append(d)

p("T01","Every encoding keeps all its per-token arrays the same length",
"Whatever sequence of encoding, truncation, padding, merging and special-token insertion produced it, an encoding has exactly one entry per token in each of its ids, type ids, token strings, offsets, special-token mask, attention mask and word indices (word indices may be absent altogether on an encoding built directly from raw tokens). The same holds inside every overflow window it carries.",
["inputs","configurations","histories"],"all token counts, lengths, strides, pad targets, directions, processors, and all orders of applying these operations",
"The tests build a few encodings by hand (often without word indices) and apply one operation; they cannot reach every combination of lengths, directions, overflow and processor.",
["encoding.go","util.go","processor/bert.go","processor/roberta.go","processor/template.go","pretokenizer.go","tokenizer.go"],
[("Truncate / Pad / MergeWith rewrite all seven arrays","encoding.go: Encoding.Truncate, getCurrentPart, Encoding.pad, Encoding.MergeWith, mergeEncoding"),("special tokens are spliced into all seven arrays","processor/bert.go addSpecialToken/pairAddSpecialToken; processor/roberta.go; processor/template.go ApplyTemplate"),("conversion from tokens","encoding.go NewEncodingFromTokens; pretokenizer.go IntoEncoding")],
state=[("Encoding.{Ids,TypeIds,Tokens,Offsets,SpecialTokenMask,AttentionMask,Words}","parallel per-token arrays"),("Encoding.Overflowing","windows cut off by truncation, each a full encoding")])

p("T02","Per-token attributes never mix or reorder across truncation, padding, merge",
"When an encoding is truncated, padded, merged with another, or wrapped with special tokens, each surviving token keeps its own id, type id, string, offsets, masks and word index, and the surviving tokens stay in their original order. No attribute of the result is filled from a different attribute of the source, and no attribute is moved relative to the others.",
["inputs","configurations","histories"],"all encodings, all lengths, both padding directions, growing and fixed offsets, every processor",
"A test compares a handful of literal encodings; a swap of two integer arrays or a one-position shift on a path not sampled (left padding, overflow windows, pair inputs) type-checks and passes.",
["encoding.go","processor/bert.go","processor/roberta.go","processor/template.go"],
[("slices of each field feed the same field","encoding.go Truncate/getCurrentPart/pad/MergeWith"),("prefix/suffix concatenation","processor/*.go util.Merge chains")])

p("T03","Pad tokens and inserted special tokens are marked as such in every mask",
"Every position added by padding carries the configured pad id, pad type id and pad token string, offsets (0,0), attention 0, special-token mask 1 and no word. Every special token a post-processor inserts carries the id and string configured for it, offsets (0,0), attention 1, special-token mask 1 and no word, while tokens that come from the text have attention 1, and special-token mask 0.",
["inputs","configurations"],"all encodings, pad settings, both directions and every post-processor",
"Tests check one direction and one processor configuration each; the constants on the untested branches are free to change.",
["encoding.go","processor/bert.go","processor/roberta.go","processor/template.go","util.go"],
[("pad fill values","encoding.go Encoding.pad"),("special-token fill values","processor/bert.go, processor/roberta.go, processor/template.go ApplyTemplate"),("text-token masks","encoding.go NewEncodingFromTokens; pretokenizer.go IntoEncoding")])

p("T04","Padding reaches exactly the target length on the requested side",
"Padding an encoding to a target leaves encodings at least that long unchanged and brings each shorter one, and each of its shorter overflow windows, to exactly the target, adding positions only before the tokens for left padding and only after them for right padding. Padding a batch to the longest brings every member to the length of the longest member, padding to a fixed length brings every shorter member to that length.",
["inputs","configurations"],"all encodings, batches, targets, multiples, directions, overflow windows shorter or longer than the target",
"Tests pad two or three short encodings to the right; the left direction, overflow windows and long members are not sampled.",
["encoding.go","util.go"],
[("pad length = target - current","encoding.go Encoding.Pad / pad"),("target selection","util.go PadEncodings")])

p("T05","Announced special-token count equals the tokens a post-processor inserts",
"For every post-processor and for both single and pair inputs, the number of special tokens it announces equals the number of tokens it adds when asked to add special tokens, and it adds none when asked not to. Truncation reserves exactly that room, so a processed encoding never exceeds the configured maximum because of special tokens.",
["configurations","inputs"],"every post-processor, single/pair, with and without special tokens, all truncation maxima",
"The announced number is a constant or a computation in one function and the insertion in another; tests check one or two configurations of each separately.",
["processor/bert.go","processor/roberta.go","processor/template.go","processor/bytelevel.go","processor/sequence.go","tokenizer.go","util.go"],
[("AddedTokens vs Process","processor/*.go"),("room reservation","tokenizer.go Tokenizer.PostProcess; util.go TruncateEncodings")])

p("T06","Truncation keeps the exact prefix and windows the rest contiguously",
"Truncating to a maximum keeps exactly that many leading tokens, unchanged; the overflow windows cover every removed token in order, each window starting with the requested number of trailing tokens of its predecessor and holding at most the maximum. An invalid maximum/stride combination is reported as an error and leaves the encoding untouched.",
["inputs"],"all lengths, maxima and strides",
"Tests truncate one 3-token encoding; off-by-one in window bounds only shows for particular length/stride residues.",
["encoding.go"],
[("prefix and window bounds","encoding.go Encoding.Truncate, getCurrentPart")])

p("T07","Truncation strategies touch only the sequence they name and report errors",
"Only-first truncation never changes the second sequence, only-second never changes the first, longest-first removes one token at a time, each time from exactly one sequence, the longer one, until the total fits. When the named sequence is missing or too short to absorb the removal, the caller gets an error rather than a silently over-long or unrelatedly cut result.",
["inputs","configurations"],"all pair lengths, maxima, strategies and strides",
"The test covers a few literal pairs; strategy arms that cut the wrong sequence or drop an error compile and pass.",
["util.go","tokenizer.go"],
[("strategy dispatch","util.go TruncateEncodings"),("call from post-processing","tokenizer.go PostProcess")])

p("T08","Results of truncation and merge never share growable memory",
"An overflow window, a merged encoding or a padded encoding owns its arrays: extending or padding one of them never changes the tokens of another one. In particular building a later overflow window never overwrites tokens of the kept prefix or of an earlier window.",
["inputs","histories"],"all encodings and all later operations on any of the pieces",
"Overwrites through shared backing arrays depend on spare capacity, which literal test encodings do not have.",
["encoding.go","util/util.go","util/slice"],
[("append on a sub-slice of another encoding's array","encoding.go getCurrentPart, MergeWith; util.Merge")])

p("E01","Encoding, decoding and lookups never change the tokenizer",
"Encode, decode (single and batch), token/id lookup, vocabulary retrieval and size queries leave the tokenizer, its model, vocabulary, added tokens and pipeline components unchanged, apart from lock-protected caches. Using the tokenizer therefore never changes later results, and a tokenizer can be used from several goroutines at once.",
["histories","schedules","inputs"],"all call histories and interleavings of read-only operations on one tokenizer",
"A test makes one call on a fresh tokenizer; a write into shared state shows only after a particular history or interleaving.",
["tokenizer.go","added-vocabulary.go","model","normalizer","pretokenizer","processor","decoder"],
[("read-only API roots","tokenizer.go Encode*/Decode*/TokenToId/IdToToken/GetVocab*; interface methods of Model/Normalizer/PreTokenizer/PostProcessor/Decoder")])

p("E02","Batch operations are race-free and keep input order",
"Encoding or decoding a batch gives, at each position, exactly the result of the single operation on the input at that position, for every schedule of the worker goroutines. Workers never write memory shared with each other without synchronisation, and an error in any input is returned to the caller.",
["schedules","inputs"],"all batches and all goroutine interleavings",
"Tests run small batches where goroutines usually finish in order; misordering and lost appends need a rare schedule.",
["tokenizer.go","util.go"],
[("goroutine fan-out","tokenizer.go EncodeBatch, DecodeBatch; util.go PadEncodings")])

p("E03","Tokenization caches are transparent",
"Turning a model's cache on, off, full or cleared never changes any tokenization: a cached answer is stored and looked up under exactly the text it was computed for, and hit and miss paths give the same tokens. Cache state is only accessed under its lock, and a missing cache is tolerated.",
["histories","schedules","configurations"],"all call histories, cache sizes including none, and interleavings",
"Tests tokenize each word once; a wrong key or stale entry shows only for a particular history.",
["model/bpe/bpe.go","model/bpe/cache.go","model/unigram/unigram.go"],
[("lookup/compute/store","model/bpe/bpe.go TokenizeWithCache; unigram.go Tokenize/Encode"),("locking","model/bpe/cache.go")])

p("E04","Encoding, decoding and loading are deterministic",
"The same tokenizer configuration and input give the same tokens, ids, offsets and decoded text on every run: nothing observable depends on map iteration order, goroutine scheduling, time or randomness, except when the configuration explicitly asks for dropout.",
["inputs","schedules","histories"],"all inputs and all map iteration orders and schedules",
"Go randomises map order per run; a test that passes once or with one-entry maps does not show order independence.",
["added-vocabulary.go","model","pretrained","encoding.go","normalizer"],
[("range over map","added-vocabulary.go, model/*/ *.go, pretrained/*.go, processor/template.go, encoding.go")])

p("E05","Errors from pipeline stages reach the caller",
"If any stage of encoding, decoding, loading or saving reports an error, the public operation reports an error too instead of returning a partial or default result as success.",
["fault_sequences","inputs","configurations"],"all stages and all failing inputs or files",
"Tests exercise success paths; the failure branches have no coverage.",
["tokenizer.go","pretokenizer.go","added-vocabulary.go","util.go","pretrained","model","file-util.go"],
[("error results on the encode/decode/load/save call graph","tokenizer.go, pretokenizer.go, pretrained/*.go, model/*")])

p("E06","Encode, decode and lookup calls never terminate the host process",
"No input or configuration makes encoding, decoding, post-processing or a token lookup end the process; operations that can fail return an error.",
["inputs","configurations"],"all inputs and component configurations",
"A process exit kills the test binary, so tests avoid those branches altogether.",
["tokenizer.go","util.go","added-vocabulary.go","pretokenizer.go","normalizer"],
[("process-terminating calls reachable from the API","log.Fatal*/os.Exit in tokenizer.go, util.go, added-vocabulary.go, normalizer/pattern.go, pretokenizer.go")])

p("E07","Text already recognised as added tokens is never re-normalized, split or lost",
"Once a piece of the input has been recognised as an added or special token, later pre-tokenization, normalization and model steps leave that piece, its token and its position in the text in place. Pieces that are empty and carry no token may be dropped; nothing else is.",
["inputs","configurations"],"all inputs mixing added tokens and text, all pipelines",
"Tests use a couple of sentences with one special token.",
["pretokenizer.go","added-vocabulary.go"],
[("guard on already tokenized splits","pretokenizer.go PreTokenizedString.Split/Normalize/Tokenize")])

p("V01","Token-to-id and id-to-token views of a model's vocabulary agree",
"For every model, the id reported for a vocabulary token maps back to that token, and the vocabulary and its size reported to callers describe the same entries as the lookups. This holds however the model was constructed: builder, file, or trained.",
["configurations","inputs"],"all vocabularies and construction paths",
"Tests construct a model one way with a five-entry vocabulary and look up one or two entries.",
["model/bpe/bpe.go","model/wordpiece/wordpiece.go","model/wordlevel/wordlevel.go","model/unigram/unigram.go"],
[("reverse map built from the forward map","model/*/*.go New/Build/builder"),("lookups","TokenToId, IdToToken, GetVocab, GetVocabSize")],
state=[("vocab / vocabR","forward and reverse vocabulary"),])

p("V02","Added tokens get unique ids and are findable both ways",
"Adding a token that the model already knows keeps the model's id; adding a new one assigns an id no model token and no other added token has; re-adding one changes nothing. After the call, each added token is found by text and by id, special tokens are recorded as special, and the matcher used on the next encode knows the new tokens.",
["histories","inputs","configurations"],"all sequences of additions, duplicates, model overlaps, special or not",
"Tests add a few tokens once; id collisions need mixed histories of special and ordinary additions.",
["added-vocabulary.go","tokenizer.go"],
[("registration","added-vocabulary.go AddTokens/AddSpecialTokens/refreshAddedTokens"),("lookups","added-vocabulary.go TokenToId/IdToToken")])

p("V03","Decoding drops exactly the special tokens, only when asked",
"Decode maps each id through added tokens first and then the model, omits ids that are unknown, and omits tokens registered as special if and only if the caller asks to skip special tokens. All other tokens reach the decoder in order, and without a decoder they are joined with single spaces.",
["inputs","configurations","histories"],"all id sequences and both skip settings",
"Tests decode one or two sentences and never an unknown id.",
["tokenizer.go","added-vocabulary.go"],
[("filter before decoding","tokenizer.go Decode")])

p("C01","Every configuration setting reaches the component it configures",
"Each option present in a tokenizer file or parameter set is read under its documented name and passed to the matching setting of the component it configures, and an absent option takes its documented default. No setting is dropped, overridden by the default when present, or routed to a different option.",
["configurations"],"all component types and all combinations of present/absent options",
"Loaders are covered for at most one configuration file per component type and with most options at their default value.",
["pretrained","model","processor","util/param.go"],
[("JSON to constructor mapping","pretrained/{model,normalizer,pretokenizer,processor,decoder,padding,truncation,added-tokens}.go"),("parameter access","util/param.go")])

p("C02","Each documented component type loads its own component, unknown types fail",
"Every component type name in the supported file format builds that component and no other, an absent component stays absent, and an unrecognised type is reported as an error rather than ignored or mapped to a default.",
["configurations"],"all type names in all component slots, and malformed configurations",
"Tests load a few files with the common types.",
["pretrained"],
[("type dispatch","pretrained/{model,normalizer,pretokenizer,processor,decoder}.go Create*")])

p("N01","Normalized text stays aligned with its original",
"Every operation on a normalized string makes the text it is named for, leaves the original text as it was, and keeps one alignment range, within the original, for each byte of the new text; every character that was kept or replaced stays aligned with exactly the original bytes it came from, whatever operations came before.",
["inputs","histories"],"all strings and all sequences of normalizer operations",
"Tests check alignments after one or two operations on short ASCII-heavy strings.",
["normalizer/normalized.go","normalizer"],
[("all writers of the normalized text","normalizer/normalized.go")],
state=[("NormalizedString.normalized / alignments","current text and its per-byte alignment to the original")])

p("N02","Each Unicode normalization form applies the form its name says",
"Selecting NFC, NFD, NFKC or NFKD applies exactly that Unicode form, whichever entry point is used (method, normalizer component or configuration type), and any successful normalization returns a string, unchanged when there is nothing to do.",
["inputs","configurations"],"all strings, four forms, every entry point",
"Composed and decomposed forms agree on ASCII and on most test strings.",
["normalizer/normalized.go","normalizer/unicode.go","pretrained/normalizer.go"],
[("form selection","normalizer/normalized.go NFC/NFD/NFKC/NFKD; normalizer/unicode.go")])

p("D01","Every decoder a caller can construct works, and decoding joins its chain",
"Every exported decoder constructor and default returns a decoder whose decode operation works, and decoding a token list equals concatenating the pieces its chain step produces for that list. Decoders composed in sequence are applied in the order given, each to the output of the previous.",
["configurations","inputs"],"all decoder constructors, all compositions and all token lists",
"Tests call the chain step directly or use one constructor per decoder.",
["decoder","pretokenizer/bytelevel.go","pretokenizer/metaspace.go","normalizer/replace.go"],
[("self reference set up at construction","decoder/*.go New*/Default*; decoder/decoder.go"),("composition","decoder/sequence.go")])

p("F01","Cached and saved files only ever appear complete",
"A download or copy into the cache that fails or is interrupted at any point never leaves a partial file under the final name, so a later lookup never takes an incomplete file for a valid one. A lookup that reports no error names a file of the complete content; an answer other than success is an error. A file already present in the cache is returned without being rewritten or asked for again.",
["crash_points","fault_sequences"],"all failure points of download and copy",
"Tests have no network and inject no faults.",
["file-util.go"],
[("write to temporary name then rename","file-util.go downloadFile, copyFile, CachedPath")])

p("F02","Files, network bodies, locks and the working directory are always released",
"On every path, including error paths, each file or response body the library opens is closed, each lock it takes is released and not taken again while it is held, and a working directory it changes is restored.",
["fault_sequences","inputs"],"all control-flow paths of every function",
"Leaks are invisible to functional tests and most are on error paths.",
["file-util.go","config.go","tokenizer.go","model","pretrained","util/file.go"],
[("acquire/release pairs","os.Open/Create, http.Get, Lock/RLock, Chdir helpers")])

p("Q01","Position queries answer not-found instead of crashing",
"Asking an encoding for the token, word, character span or sequence at a position outside it, or for a word or sequence that does not exist, returns a not-found result or an error and never panics. A query inside the bounds never answers for a different position.",
["inputs"],"all positions including negative and one-past-the-end, encodings with and without words and sequence ranges",
"Tests query valid positions of one literal encoding.",
["encoding.go"],
[("bounds guards","encoding.go Token2Chars, Token2Word, Token2Sequence, Word2Tokens, Word2Chars, Char2Token, Char2Word, SequenceRange, GetSequenceIds")])

p("B01","BPE merges in rank order, leftmost first",
"Byte-pair merging always applies the pending merge with the lowest rank and, among equal ranks, the leftmost one; a queued merge that no longer matches the current neighbours is discarded without effect. Training counts ties the same way on every run: highest count first, then the smaller pair.",
["inputs","configurations"],"all words, merge tables and queue contents",
"Tests use tiny tables where most orders give the same result.",
["model/bpe/word.go","model/bpe/trainer.go"],
[("priority order","model/bpe/word.go MergeAll comparator; trainer.go queue comparator")])

p("B02","The byte-level alphabet is a bijection used in both directions",
"Byte-level encoding represents each of the 256 byte values by a distinct character (that of GPT-2) and decoding maps each such character back to its byte, so no byte of a text is lost or confused.",
["inputs"],"all 256 byte values and all texts",
"Tests run ASCII sentences; an alphabet hole affects only rare bytes.",
["pretokenizer/bytelevel.go"],
[("alphabet tables","pretokenizer/bytelevel.go GenerateBytesChar, BytesChar, CharBytes")])

p("S01","A saved vocabulary reloads to the same tokens, ids and merge ranks",
"Saving a model writes every vocabulary entry (and merge) once, ordered by id (and rank), in the layout its loader reads, creating the directory if it is missing, and reports any failure to create, write or close a file; loading assigns ids and ranks by that order (a merged token does not repeat the continuing subword prefix) and reports a file it could not read. A saved Unigram model also keeps its unknown id, byte fallback and fusing. Saved data is fully written before success is reported.",
["inputs","configurations","fault_sequences"],"all vocabularies, merge tables and write failures",
"Tests save nothing or one tiny vocabulary and never fail a write.",
["model/bpe/bpe.go","model/wordpiece/wordpiece.go","model/wordlevel/wordlevel.go"],
[("sort by id / rank before writing","Save methods"),("flush and error return","Save methods"),("order-based loading","ReadFiles, CreateMerges")])

p("R01","Training reads every line once, and its workers never race",
"Training counts every line of every file exactly once, however the files are divided into chunks for parallel workers and wherever lines begin and end; word counting in parts gives the same model as in one. Worker goroutines share no variable without a lock, channel or private slot; every goroutine is waited for before its results are used; no channel is closed or group released while a worker may still send; and a file that cannot be opened, positioned or read makes training return an error instead of ending the process.",
["inputs","schedules","fault_sequences"],"all corpora and chunk sizes, all worker interleavings and read failures",
"Training tests, where they exist, run one small file, which is one chunk.",
["tokenizer.go","model/bpe/trainer.go"],
[("chunk workers","tokenizer.go Train/processChunk"),("counting in parts","model/bpe/trainer.go countPairs")])

p("M01","Post-processors put special tokens and type ids exactly where their layout says",
"For any one or two encodings, empty ones and ones with overflowing windows included, a post-processor (BERT, RoBERTa, byte level, any template however it was made, or a sequence of them) gives exactly the tokens of its layout in order: every token of the sequences with its id, text, word and offset (less the blanks it is asked to trim), the special tokens and only those marked special, type ids as the layout says, and none of the special tokens when they are not asked for. Every window is laid out as the encoding it belongs to, and the windows of a pair combine with every part of the other sequence, each once. AddedTokens is the number of special tokens of the layout; a template that lacks a sequence or names an unknown special token is refused by Validate, and no other.",
["inputs","configurations"],"all encodings, pairs, windows, templates and settings",
"Tests process one or two encodings by each processor.",
["processor/","pretokenizer/bytelevel.go","encoding.go","tokenizer.go"],
[("BERT and RoBERTa layouts","processor/bert.go, processor/roberta.go Process"),("templates","processor/template.go ApplyTemplate, NewPiece, Validate"),("sequences of processors","processor/sequence.go Process, AddedTokens"),("windows of a pair","encoding.go MergeWith")])

p("A01","Added tokens are recognised exactly where their options say",
"In any text, an added token is recognised wherever its content stands and nowhere else: a raw token in the text as given, a normalized token by its normalized content in the normalized rest; a single-word token only where no word (letters, marks, digits, connectors of any script) goes on at either side of it; LStrip and RStrip take in all whitespace on that side and nothing more; of two overlapping matches the token recognised first counts (special tokens, then ordinary ones, in order of addition); a token is never lost to another one's whitespace. The pieces keep the whole text in order, recognised pieces carry the id of their token, and special characters in a token's content have no meaning.",
["inputs","configurations"],"all texts, token contents, option combinations and normalizers",
"Tests add a few tokens without options and look at their ids.",
["added-vocabulary.go"],
[("pattern built from the options","added-vocabulary.go GetPattern"),("matching and selection","added-vocabulary.go findMatches, splitWithIndices"),("raw before normalized","added-vocabulary.go ExtractAndNormalize")])

# ---- properties stated but not claimed
p("X01","Decoding an encoded text gives the text back",
"For byte-level models, decoding the ids of an encoding restores the input text exactly.",
["inputs"],"all UTF-8 strings and vocabularies","Round trips are sampled on a few sentences.",
["tokenizer.go","pretokenizer/bytelevel.go","model/bpe/bpe.go"],[("encode and decode pipelines","tokenizer.go Encode, Decode")])
p("X02","Offsets select the text each token came from",
"The offsets of each text token, applied to the original input, select exactly the text the token was made from, whatever normalization happened.",
["inputs","configurations"],"all strings and normalizers","Offsets depend on runtime byte positions; tests sample short strings.",
["normalizer/normalized.go","pretokenizer.go"],[("alignment arithmetic","normalizer/normalized.go ConvertOffset, TransformRange")])
p("X03","Unigram segmentation is the best-scoring one",
"A unigram model cuts a text into pieces of its vocabulary, and single characters not in it, such that no other cut has a greater sum of scores, an unknown character counting ten less than the least score. The tokens are those pieces in order with their ids and byte offsets; with byte fallback an unknown character becomes the tokens of its bytes if all of them are in the vocabulary, otherwise it is the unknown token (one for several in a row if so set), and an error if there is none.",
["inputs","configurations"],"all vocabularies, scores and strings","Optimality quantifies over all segmentations and all scores; tests compare a few literals.",
["model/unigram/unigram.go"],[("Viterbi","model/unigram/unigram.go Tokenize")])
p("X04","WordPiece uses greedy longest match, word-level models whole words",
"Each WordPiece token is the longest vocabulary entry matching at its position, continuing pieces carry the continuation prefix, and a word with a position that has no match, or longer than the set number of characters, becomes the single unknown token. A word-level model gives the word itself if it is in the vocabulary and the unknown token otherwise. Tokens have their own ids and texts and cover the bytes they were made from; without an unknown token in the vocabulary the call fails.",
["inputs","configurations"],"all vocabularies and words","The outcome depends on which of all pieces are in the vocabulary; tests use one vocabulary.",
["model/wordpiece/wordpiece.go","model/wordlevel/wordlevel.go"],[("longest match loop","model/wordpiece/wordpiece.go Tokenize"),("look-up","model/wordlevel/wordlevel.go Tokenize")])
p("X05","Training picks the most frequent pairs",
"The merges a trainer emits are exactly those of byte-pair training on the given counts: the most frequent pair first, counted on the words as merged so far, the smaller of equally frequent pairs, and none once the requested vocabulary size is reached or the count falls below the least frequency. The trained vocabulary has the special tokens first, then the alphabet (a limited one keeps the most frequent characters and the initial ones), then one token per merge, with the prefix and suffix set on the trainer.",
["inputs","configurations"],"all corpora and sizes","Tests train on one corpus on which many other orders give the same vocabulary.",
["model/bpe/trainer.go","model/wordpiece/trainer.go"],[("pair counting","model/bpe/trainer.go Train")])
p("N03","Every normalizer makes the text it documents",
"Each normalizer a caller can construct (strip, default with options, lowercase, accents, prepend, replace by string or expression, Bert with any settings, sequences, precompiled maps) changes exactly the characters it documents and nothing else: the resulting text is the documented one, in a sequence each normalizer is applied to the result of the one before, and the characters kept or replaced stay aligned with those they came from.",
["inputs","configurations"],"all strings, normalizers, options and sequences of them","Tests normalize one or two sentences per normalizer; most characters and most combinations of options behave alike on them.",
["normalizer","spm"],[("character classes and cleaning","normalizer/bert.go"),("precompiled maps","normalizer/precompiled.go"),("composition","normalizer/sequence.go, normalizer.go, default.go, strip.go, prepend.go, replace.go")])
p("P01","Splitting covers the text and follows the chosen behaviour",
"A pattern divides a text into consecutive segments, each marked as matched or not, that together cover it; splitting a normalized text by it yields pieces that are exactly these segments, joined or removed as the delimiter behaviour says, in order, each with its own part of the original, its position there, and its alignments, whatever was done to the text before.",
["inputs","histories","configurations"],"all texts, patterns and five behaviours","Tests split a handful of ASCII sentences; which matches adjoin, begin or end the text decides the outcome.",
["normalizer/pattern.go","normalizer/normalized.go"],[("segments","normalizer/pattern.go FindMatches"),("behaviours and slices","normalizer/normalized.go Split, Slice")])
p("P02","Every pre-tokenizer cuts where it documents",
"Every pre-tokenizer a caller can construct (ByteLevel, Bert, CharDelimiterSplit, Digits, Metaspace, Punctuation, Split, UnicodeScript, Whitespace, WhitespaceSplit) cuts a text at the characters it documents, whatever script they are of, removes or rewrites only what it documents, and every byte of a piece keeps the place in the original it comes from. In a sequence each one cuts the pieces of the one before, in order.",
["inputs","configurations"],"all texts, all constructors and options, all sequences","Tests cut one or two sentences per pre-tokenizer; white space, digits and punctuation outside ASCII, leading and trailing pieces and neighbours of one class are hardly sampled.",
["pretokenizer"],[("where each cuts","pretokenizer/*.go PreTokenize"),("order of a sequence","pretokenizer/sequence.go")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
