import json
M={
'T01':("Every function of the package that returns or changes an Encoding (merge, pad, truncate, templates, processors, constructors) is interpreted on well-formed encodings of symbolic length. Well-formedness: all per-token slices have provably one length (words may be nil), also in every overflow window.","Constructors taking caller-given slices are assumed to get equal lengths."),
'T02':("Pad, Truncate, MergeWith and template insertion are interpreted on encodings whose k-th attribute is a symbolic array: in the result, position i of every attribute must come from the same source position of the same input, in order.","Segment algebra; loops that can not be summarised are undecided."),
'T03':("The masks of positions added by Pad and by special-token insertion must be the constants of the specification (attention 0 for pads, special mask 1, type id as configured), on both sides.","-"),
'T04':("Pad is interpreted with symbolic length and target: result length = max(length,target), pads on the configured side, strategies Fixed/BatchLongest, pad_to_multiple_of.","Rounding arithmetic of multiples is linearised; undecided where it is not linear."),
'T05':("Each PostProcessor's AddedTokens(isPair) is compared with the length difference that Process makes, for single and pair, symbolic lengths.","Template shapes are enumerated up to four pieces."),
'T06':("Truncate with symbolic length, maximum and stride: prefix = [0,max), windows are contiguous with step max-stride, the last one ends at the length.","Window loop decided on a generic iteration."),
'T07':("TruncateEncodings interpreted for each strategy: the sequence not named is untouched, sum of lengths meets the maximum, errors instead of silent failures.","-"),
'T08':("Ownership of backing arrays: slices of a result (windows, merged encodings, templates) may not alias an array that another live encoding can append to or write.","Backing arrays are tracked by allocation and slicing; capacity-limited slices are accepted."),
'E01':("Effect analysis: each write reachable from encode/decode/lookup entry points is attributed; writes to component memory (tokenizer, model, added vocabulary, globals) are violations except locked caches.","Calls whose callee is unknown are listed in the evidence."),
'E02':("Every goroutine started by batch operations: captured variables written by two goroutines without lock, shared slots, results appended instead of stored by index, missing join, wait-group misuse.","Standard synchronisation primitives are trusted."),
'E03':("Every cache (map or go-cache field): stored value depends only on key and immutable state; guarded by locks; handed-out values are not mutated; nil caches are not used.","-"),
'E04':("Map iterations, clock and randomness reachable from the API: an iteration is a violation if what leaves it depends on the order and reaches a result, a stream or an id.","Dropout randomness is the documented exception."),
'E05':("Every call with an error result in the pipeline: the error is returned, tested with an exit on the failing branch, or panicked with.","-"),
'E06':("Call graph (CHA) from encode/decode/lookup entry points to os.Exit, log.Fatal*, runtime.Goexit.","-"),
'E07':("see explain text in e07.go: stages on symbolic pieces, recognition across orders of addition, whole encoding.","Texts symbolic; matches given."),
'V02':("22 scripts of additions over a symbolic model; all public queries compared afterwards.","Histories are a fixed set; texts are distinguished by equality only."),
'V03':("Decode on lists of known, added, special and unknown ids; list handed to the decoder compared.","Lists of up to four ids."),
'C01':("For each documented setting of each component the loader is interpreted on a configuration with a symbolic value at that key; the value must arrive at the field (found by semantic role: the setting's name or the constructor's documented option), absent keys must give the documented default.","Fields are looked up by name within the component's struct; a renamed field is undecided."),
'C02':("For each documented type name the loader's result has the documented dynamic type; unknown or missing types yield an error and no panic.","-"),
'Q01':("Every query by position, word, character or sequence on encodings of 0-5 tokens with symbolic contents, for positions around the bounds, and on one of unbounded length for index checks.","-"),
}
exec(open('/verif/tools/design_extra.py').read())
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
man=json.load(open('/verif/MANIFEST.json'))
na={x['property']:x.get('reason','') for x in man['not_applicable']} if man['not_applicable'] and 'property' in man['not_applicable'][0] else {x['id']:x.get('reason','') for x in man['not_applicable']}
out=open('/verif/DESIGN.md').read().split('## Properties\n')[0]+'## Properties\n\n'
for p in props:
    i=p['id']; out+=f"### {i} {p['title']}\n\n"
    if i in na: out+=f"Not claimed: {na[i]}\n\n"; continue
    m=M.get(i,('(to be described)','-')); out+=m[0]+('' if m[1]=='-' else f"\n\nLimits: {m[1]}")+"\n\n"
out+=open('/verif/tools/design_tail.md').read()
open('/verif/DESIGN.md','w').write(out)
