From 62ac661b5e8c0571ecafe2c7e2e5fa5fd8340cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:12 +0000
Subject: [PATCH 001/105] fix: left padding keeps type ids and no longer panics
 on offsets

---
 encoding.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding.go b/encoding.go
index 341bc7f..65699c1 100644
--- a/encoding.go
+++ b/encoding.go
@@ -586,7 +586,7 @@ func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, dire
 		for i := 0; i < len(newTypeIds); i++ {
 			newTypeIds[i] = padTypeId
 		}
-		newTypeIds = append(newTypeIds, e.Ids...)
+		newTypeIds = append(newTypeIds, e.TypeIds...)
 		e.TypeIds = newTypeIds
 
 		newTokens := make([]string, padLength)
@@ -611,7 +611,7 @@ func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, dire
 		e.AttentionMask = newAttentionMask
 
 		newOffsets := make([][]int, padLength)
-		for i := 0; i < len(newIds); i++ {
+		for i := 0; i < len(newOffsets); i++ {
 			newOffsets[i] = []int{0, 0}
 		}
 		newOffsets = append(newOffsets, e.Offsets...)
-- 
2.43.0


From 46255791ae1356b291731b41d65d3315cc1c0544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:13 +0000
Subject: [PATCH 002/105] fix: padding leaves overflow windows longer than the
 target untouched

---
 encoding.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding.go b/encoding.go
index 65699c1..aecc686 100644
--- a/encoding.go
+++ b/encoding.go
@@ -572,6 +572,9 @@ func (e *Encoding) Pad(targetLength, padId, padTypeId int, padToken string, dire
 
 func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, direction PaddingDirection) *Encoding {
 	padLength := targetLength - len(e.Ids)
+	if padLength <= 0 {
+		return e
+	}
 
 	switch direction {
 	case Left:
-- 
2.43.0


From c0bc9485b5e653c51e520ea4189f5823841687dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:14 +0000
Subject: [PATCH 003/105] fix: overflow windows own their memory instead of
 appending to their predecessor

---
 encoding.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/encoding.go b/encoding.go
index aecc686..bbe14d3 100644
--- a/encoding.go
+++ b/encoding.go
@@ -693,5 +693,8 @@ func getCurrentPart[T any](previous, current []T, size, idx, stride int) []T {
 	curr := current[start:end]
 	prev := previous[len(previous)-stride:]
 
-	return append(prev, curr...)
+	part := make([]T, 0, len(prev)+len(curr))
+	part = append(part, prev...)
+
+	return append(part, curr...)
 }
-- 
2.43.0


From aaf9edf3a520bfd2f927badb6c1a6dd79af39a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 004/105] fix: template special tokens get word indices like
 all other tokens

---
 encoding.go           | 2 +-
 processor/template.go | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/encoding.go b/encoding.go
index bbe14d3..351993b 100644
--- a/encoding.go
+++ b/encoding.go
@@ -96,7 +96,7 @@ func DefaultEncoding() *Encoding {
 		SpecialTokenMask: []int{},
 		AttentionMask:    []int{},
 		Overflowing:      []Encoding{},
-		Words:            nil,
+		Words:            []int{},
 		SequenceRanges:   make(map[int]Range),
 	}
 }
diff --git a/processor/template.go b/processor/template.go
index a94e1f7..2fe08a6 100644
--- a/processor/template.go
+++ b/processor/template.go
@@ -504,6 +504,12 @@ func (tp *TemplateProcessingBuilder) Build() *TemplateProcessing {
 func (tp *TemplateProcessing) ApplyTemplate(template []Piece, encodings []tokenizer.Encoding, addSpecialTokens bool) []tokenizer.Encoding {
 	var finalEncodings []tokenizer.Encoding
 
+	// special tokens carry word indices whenever the sequences around them do
+	hasWords := false
+	for _, e := range encodings {
+		hasWords = hasWords || e.Words != nil
+	}
+
 	for _, piece := range template {
 		typ := getType(piece)
 
@@ -543,6 +549,9 @@ func (tp *TemplateProcessing) ApplyTemplate(template []Piece, encodings []tokeni
 				attentionMask := util.Repeat(1, length)
 				var overflowing []tokenizer.Encoding = nil
 				encoding := tokenizer.NewEncoding(ids, typeIds, tokens, offsets, specialTokenMask, attentionMask, overflowing)
+				if hasWords {
+					encoding.Words = util.Repeat(-1, length)
+				}
 
 				finalEncodings = append(finalEncodings, *encoding)
 			}
-- 
2.43.0


From df2facaf088dd0c394d5cadb6a18438834659b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 005/105] fix: merging into an encoding without sequence ranges
 no longer panics

---
 encoding.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/encoding.go b/encoding.go
index 351993b..ee9c55d 100644
--- a/encoding.go
+++ b/encoding.go
@@ -459,9 +459,10 @@ func (e *Encoding) MergeWith(pair *Encoding, growingOffsets bool) (retVal *Encod
 			start := originalLen + r[0]
 			end := originalLen + r[r.Len()-1] + 1
 			newRange := NewRange(start, end)
-			var oldRange Range
-			util.DeepCopy(e.SequenceRanges[seqId], oldRange)
-			e.SequenceRanges[seqId] = util.Merge(oldRange, newRange)
+			if e.SequenceRanges == nil {
+				e.SequenceRanges = make(map[int]Range)
+			}
+			e.SequenceRanges[seqId] = newRange
 		}
 	}
 
-- 
2.43.0


From 3ab76814fccbbd536efcf274524bbc069bc7e4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 006/105] fix: longest-first truncation removes each token from
 exactly one sequence

---
 util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 1e5d49c..65cf0d6 100644
--- a/util.go
+++ b/util.go
@@ -113,8 +113,9 @@ func TruncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParam
 		for i := 0; i < toRemove; i++ {
 			if nFirst > nSecond {
 				nFirst -= 1
+			} else {
+				nSecond -= 1
 			}
-			nSecond -= 1
 		}
 
 		encoding.Truncate(nFirst, params.Stride)
-- 
2.43.0


From 49eaa52a21e7d29138f5786e87dc54daeb0d6618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 007/105] fix: truncation failures are returned by encode
 instead of ignored or fatal

---
 tokenizer.go | 28 +++++++++++++++++++++-------
 util.go      | 34 ++++++++++++++++++++++------------
 2 files changed, 43 insertions(+), 19 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index 38f9bf1..eec4fb9 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -474,7 +474,7 @@ func (t *Tokenizer) Encode(input EncodeInput, addSpecialTokens bool) (retVal *En
 		log.Fatalf("Invalid input type - '%T'. \n", input)
 	}
 
-	return t.PostProcess(encoding, pairEncoding, addSpecialTokens), nil
+	return t.postProcess(encoding, pairEncoding, addSpecialTokens)
 }
 
 // EncodeCharOffsets encodes the given input, using offsets relative to chars instead of bytes.
@@ -508,7 +508,7 @@ func (t *Tokenizer) EncodeCharOffsets(input EncodeInput, addSpecialTokens bool)
 		log.Fatalf("Invalid input type - '%T'. \n", input)
 	}
 
-	return t.PostProcess(encoding, pairEncoding, addSpecialTokens), nil
+	return t.postProcess(encoding, pairEncoding, addSpecialTokens)
 }
 
 // Decode decodes the given ids, back to a String
@@ -585,7 +585,18 @@ func (t *Tokenizer) doTokenize(pretokenized *PreTokenizedString, typeId int, wor
 }
 
 // PostProcess does post-processing logic, handling the case where there is no PostProcessor set
+//
+// It panics when the encodings can not be truncated as configured.
 func (t *Tokenizer) PostProcess(encoding, pairEncoding *Encoding, addSpecialTokens bool) (retVal *Encoding) {
+	retVal, err := t.postProcess(encoding, pairEncoding, addSpecialTokens)
+	if err != nil {
+		panic(err)
+	}
+
+	return retVal
+}
+
+func (t *Tokenizer) postProcess(encoding, pairEncoding *Encoding, addSpecialTokens bool) (retVal *Encoding, err error) {
 	var tEncoding, tPairEncoding *Encoding
 
 	// 1. Truncate if needed
@@ -606,9 +617,12 @@ func (t *Tokenizer) PostProcess(encoding, pairEncoding *Encoding, addSpecialToke
 				Strategy:  trunc.Strategy,
 				Stride:    trunc.Stride,
 			}
-			tEncoding, tPairEncoding = TruncateEncodings(encoding, pairEncoding, params)
+			tEncoding, tPairEncoding, err = truncateEncodings(encoding, pairEncoding, params)
 		} else {
-			tEncoding, tPairEncoding = TruncateEncodings(encoding, pairEncoding, trunc)
+			tEncoding, tPairEncoding, err = truncateEncodings(encoding, pairEncoding, trunc)
+		}
+		if err != nil {
+			return nil, err
 		}
 	}
 
@@ -623,16 +637,16 @@ func (t *Tokenizer) PostProcess(encoding, pairEncoding *Encoding, addSpecialToke
 
 	// 3. Pad if needed
 	if t.padding == nil {
-		return finalEncoding
+		return finalEncoding, nil
 	}
 
 	var padEncodings []Encoding
 	encodings := []Encoding{*finalEncoding}
 	padEncodings = PadEncodings(encodings, *t.padding)
 	if len(padEncodings) == 1 {
-		return &padEncodings[0]
+		return &padEncodings[0], nil
 	} else {
-		return padEncodings[0].Merge(padEncodings[1:], true)
+		return padEncodings[0].Merge(padEncodings[1:], true), nil
 	}
 }
 
diff --git a/util.go b/util.go
index 65cf0d6..1400d26 100644
--- a/util.go
+++ b/util.go
@@ -2,7 +2,6 @@ package tokenizer
 
 import (
 	"errors"
-	"log"
 )
 
 type TruncationParams struct {
@@ -80,15 +79,25 @@ const (
 	SequenceTooShort          = "Truncation error: Sequence to truncate too short to respect the provided max_length"
 )
 
+// TruncateEncodings truncates the given encodings. It panics when they can not be truncated
+// as requested.
 func TruncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParams) (tEncoding, tPairEncoding *Encoding) {
+	tEncoding, tPairEncoding, err := truncateEncodings(encoding, pairEncoding, params)
+	if err != nil {
+		panic(err)
+	}
+
+	return tEncoding, tPairEncoding
+}
+
+func truncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParams) (tEncoding, tPairEncoding *Encoding, err error) {
 	var (
 		totalLength int
 		toRemove    int
-		err         error
 	)
 
 	if params.MaxLength == 0 {
-		return encoding, pairEncoding
+		return encoding, pairEncoding, nil
 	}
 
 	totalLength = len(encoding.GetIds())
@@ -96,8 +105,8 @@ func TruncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParam
 		totalLength = len(encoding.GetIds()) + len(pairEncoding.GetIds())
 	}
 
-	if totalLength < params.MaxLength {
-		return encoding, pairEncoding
+	if totalLength <= params.MaxLength {
+		return encoding, pairEncoding, nil
 	}
 
 	toRemove = totalLength - params.MaxLength
@@ -118,17 +127,18 @@ func TruncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParam
 			}
 		}
 
-		encoding.Truncate(nFirst, params.Stride)
-		if pairEncoding != nil {
-			pairEncoding.Truncate(nSecond, params.Stride)
+		if nFirst < len(encoding.GetIds()) {
+			encoding, err = encoding.Truncate(nFirst, params.Stride)
+		}
+		if err == nil && pairEncoding != nil && nSecond < len(pairEncoding.GetIds()) {
+			pairEncoding, err = pairEncoding.Truncate(nSecond, params.Stride)
 		}
 
 	case OnlyFirst, OnlySecond:
 		var truncateFunc = func(target *Encoding) (*Encoding, error) {
 			targetLength := len(target.GetIds())
 			if targetLength > toRemove {
-				target.Truncate(targetLength-toRemove, params.Stride)
-				return target, nil
+				return target.Truncate(targetLength-toRemove, params.Stride)
 			} else {
 				err := errors.New(SequenceTooShort)
 				return nil, err
@@ -146,10 +156,10 @@ func TruncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParam
 	}
 
 	if err != nil {
-		log.Fatal(err)
+		return nil, nil, err
 	}
 
-	return encoding, pairEncoding
+	return encoding, pairEncoding, nil
 }
 
 func PadEncodings(encodings []Encoding, params PaddingParams) []Encoding {
-- 
2.43.0


From 11492ddd4380a23082edad81612b802449c85414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 008/105] fix: a maximum length with no room besides special
 tokens is an error, not no truncation

---
 tokenizer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tokenizer.go b/tokenizer.go
index eec4fb9..ff456f5 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -610,8 +610,11 @@ func (t *Tokenizer) postProcess(encoding, pairEncoding *Encoding, addSpecialToke
 			nAddedTokens = processor.AddedTokens(pairEncoding != nil)
 		}
 
-		if addSpecialTokens && nAddedTokens > 0 {
+		if addSpecialTokens && nAddedTokens > 0 && trunc.MaxLength > 0 {
 			maxLength := trunc.MaxLength - nAddedTokens
+			if maxLength <= 0 {
+				return nil, fmt.Errorf("Truncation error: max length %d leaves no room besides %d special tokens", trunc.MaxLength, nAddedTokens)
+			}
 			params := &TruncationParams{
 				MaxLength: maxLength,
 				Strategy:  trunc.Strategy,
-- 
2.43.0


From 0db24564defbb8c4f473a341430ccc458f185f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 009/105] fix: encoding an unsupported input is an error and
 does not end the process

---
 tokenizer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index ff456f5..da91e63 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -210,7 +210,7 @@ func NewInputSequence(input interface{}) (retVal InputSequence) {
 			inputType: PretokenizedInput,
 		}
 	default:
-		log.Fatalf("Invalid input type: Expected type of 'string' or '[]string'. Got %T\n", input)
+		log.Panicf("Invalid input type: Expected type of 'string' or '[]string'. Got %T\n", input)
 	}
 
 	return
@@ -438,7 +438,7 @@ func (t *Tokenizer) EncodeSingleSequence(sequence InputSequence, typeId int, off
 		encodings = append(encodings, *en)
 
 	default:
-		log.Fatalf("EncodingSingleSequence method call: invalid InputType\n")
+		return nil, fmt.Errorf("EncodingSingleSequence method call: invalid InputType\n")
 	}
 
 	finalEncoding := DefaultEncoding()
@@ -471,7 +471,7 @@ func (t *Tokenizer) Encode(input EncodeInput, addSpecialTokens bool) (retVal *En
 		}
 
 	default:
-		log.Fatalf("Invalid input type - '%T'. \n", input)
+		return retVal, fmt.Errorf("Invalid input type - '%T'. \n", input)
 	}
 
 	return t.postProcess(encoding, pairEncoding, addSpecialTokens)
@@ -505,7 +505,7 @@ func (t *Tokenizer) EncodeCharOffsets(input EncodeInput, addSpecialTokens bool)
 		}
 
 	default:
-		log.Fatalf("Invalid input type - '%T'. \n", input)
+		return nil, fmt.Errorf("Invalid input type - '%T'. \n", input)
 	}
 
 	return t.postProcess(encoding, pairEncoding, addSpecialTokens)
-- 
2.43.0


From 8c7968bc01d817b90014b7501f1a21d261563860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 010/105] fix: normalization failures panic instead of ending
 the process, inverted patterns accept any pattern

---
 normalizer/normalized.go |  6 +++---
 normalizer/pattern.go    | 21 +--------------------
 2 files changed, 4 insertions(+), 23 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index e1a4212..bf11e5e 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -313,7 +313,7 @@ func (n *NormalizedString) RangeOriginal(r *Range) (retVal string) {
 		oRange := r.IntoFullRange(n.LenOriginal())
 		retVal = string(bytes[oRange.start:oRange.end])
 	default:
-		log.Fatalf("Invalid Range type: %v\n", r.indexOn)
+		log.Panicf("Invalid Range type: %v\n", r.indexOn)
 	}
 
 	return retVal
@@ -335,7 +335,7 @@ func (n *NormalizedString) validateRange(inputRange *Range) *Range {
 		r = inputRange.IntoFullRange(len(n.normalized))
 		s = n.normalized
 	default:
-		log.Fatalf("Invalid Range type: %v\n", inputRange.indexOn)
+		log.Panicf("Invalid Range type: %v\n", inputRange.indexOn)
 	}
 
 	// Basic bounds check
@@ -500,7 +500,7 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 			if !ok {
 				// We want to panic here, because the NormalizedString is in
 				// a bad state if this happens. We already modified a lot of things
-				log.Fatalf("1. Expected to remove %v characters but couldn't find them ...\n", initialOffset)
+				log.Panicf("1. Expected to remove %v characters but couldn't find them ...\n", initialOffset)
 			}
 			removedBytes += len([]byte(string(c)))
 			removedChars = append(removedChars, c)
diff --git a/normalizer/pattern.go b/normalizer/pattern.go
index 1a5ebe7..8fd11f6 100644
--- a/normalizer/pattern.go
+++ b/normalizer/pattern.go
@@ -1,11 +1,8 @@
 package normalizer
 
 import (
-	"log"
 	// "reflect"
 	"regexp"
-
-	"github.com/sugarme/tokenizer/util"
 )
 
 // Pattern is used to split a NormalizedString
@@ -284,23 +281,7 @@ func NewInvertPattern(p Pattern) *Invert {
 
 // FindMatches implement Pattern interface for Invert
 func (i *Invert) FindMatches(inside string) []OffsetsMatch {
-	var matches []OffsetsMatch
-	typ := util.GetType(i.Pattern)
-	switch typ {
-	case "*StringPattern":
-		matches = i.Pattern.(*StringPattern).FindMatches(inside)
-	case "*RunePattern":
-		matches = i.Pattern.(*RunePattern).FindMatches(inside)
-	case "*FnPattern":
-		matches = i.Pattern.(*FnPattern).FindMatches(inside)
-	case "*RegexpPattern":
-		matches = i.Pattern.(*RegexpPattern).FindMatches(inside)
-
-	default:
-		log.Fatalf("Unsupported type - %q\n", typ)
-	}
-
-	return invert(matches)
+	return invert(i.Pattern.FindMatches(inside))
 }
 
 func invert(matches []OffsetsMatch) (retVal []OffsetsMatch) {
-- 
2.43.0


From 77f9de80db9f291a264dc3e6225de1b86e322aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 011/105] fix: a failing normalizer makes encode return its
 error

---
 added-vocabulary.go | 23 ++++++++++++++++++++---
 tokenizer.go        | 10 +++++-----
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index cafeb11..d707b29 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -500,7 +500,18 @@ func (av *AddedVocabulary) splitWithIndices(sentence *normalizer.NormalizedStrin
 // non-normalized one. For example, when we expect to extract the token `yesterday` in the
 // input sentence `I read a book Yesterday`, if the normalizer is supposed to lowercase
 // everything, we expect a match.
+//
+// It panics when the normalizer fails.
 func (av *AddedVocabulary) ExtractAndNormalize(sequence string, n normalizer.Normalizer) *PreTokenizedString {
+	pretokenized, err := av.extractAndNormalize(sequence, n)
+	if err != nil {
+		panic(err)
+	}
+
+	return pretokenized
+}
+
+func (av *AddedVocabulary) extractAndNormalize(sequence string, n normalizer.Normalizer) (*PreTokenizedString, error) {
 
 	pretokenized := NewPreTokenizedString(sequence)
 
@@ -510,19 +521,25 @@ func (av *AddedVocabulary) ExtractAndNormalize(sequence string, n normalizer.Nor
 	})
 
 	// 2. Extract the normalized tokens from the normalized pieces of the string
+	var normErr error
 	pretok2 := pretok1.Split(func(i int, seq *normalizer.NormalizedString) []SplitIdx {
 		newSeq := seq
-		var err error
 		if n != nil {
+			var err error
 			newSeq, err = n.Normalize(seq)
 			if err != nil {
-				log.Fatal(err)
+				normErr = err
+				return nil
 			}
 		}
 		return av.splitWithIndices(newSeq, av.splitNormalizedRe)
 	})
 
-	return pretok2
+	if normErr != nil {
+		return nil, normErr
+	}
+
+	return pretok2, nil
 }
 
 type AddedTokenWithId struct {
diff --git a/tokenizer.go b/tokenizer.go
index da91e63..42292c3 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -389,11 +389,11 @@ func (t *Tokenizer) IdToToken(id int) (token string, ok bool) {
 // EncodeSingleSequence encodes a single sequence
 func (t *Tokenizer) EncodeSingleSequence(sequence InputSequence, typeId int, offsetType OffsetType) (*Encoding, error) {
 	encode := func(isPreTokenized bool, subseqIdx int, subseq string) (*Encoding, error) {
-		normalized := t.addedVocabulary.ExtractAndNormalize(subseq, t.normalizer)
-		var (
-			pretokenized *PreTokenizedString = normalized
-			err          error
-		)
+		normalized, err := t.addedVocabulary.extractAndNormalize(subseq, t.normalizer)
+		if err != nil {
+			return nil, err
+		}
+		pretokenized := normalized
 
 		if t.preTokenizer != nil {
 			pretokenized, err = t.doPreTokenize(normalized)
-- 
2.43.0


From 0c588a79030fd57d4becebe57286bf629da3120c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 012/105] fix: batch decoding keeps input order and does not
 race on its result

---
 tokenizer.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index 42292c3..b827e0a 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -689,7 +689,7 @@ func (t *Tokenizer) EncodeBatch(inputs []EncodeInput, addSpecialTokens bool) (re
 
 // DecodeBatch decodes all sentences in concurrency
 func (t *Tokenizer) DecodeBatch(sentences [][]int, skipSpecialTokens bool) []string {
-	var decodings []string
+	decodings := make([]string, len(sentences))
 	var wg sync.WaitGroup
 
 	wg.Add(len(sentences))
@@ -699,8 +699,7 @@ func (t *Tokenizer) DecodeBatch(sentences [][]int, skipSpecialTokens bool) []str
 		go func(i int) {
 			defer wg.Done()
 
-			s := t.Decode(sentences[i], skipSpecialTokens)
-			decodings = append(decodings, s)
+			decodings[i] = t.Decode(sentences[i], skipSpecialTokens)
 		}(i)
 	}
 
-- 
2.43.0


From 10e9614f7d05bdca96a069dc2cea2341e6afb430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 013/105] fix: contraction table is read instead of failing
 silently

---
 normalizer/default.go | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/normalizer/default.go b/normalizer/default.go
index 793d850..95f1df6 100644
--- a/normalizer/default.go
+++ b/normalizer/default.go
@@ -13,7 +13,7 @@ package normalizer
 
 import (
 	"encoding/csv"
-	"encoding/json"
+	"fmt"
 	"log"
 	"os"
 )
@@ -107,24 +107,13 @@ func loadContractionMap() (map[string]string, error) {
 		return nil, err
 	}
 
-	type Contract struct {
-		Contraction string
-		Expansion   string
-	}
-
-	var cList []Contract
-
+	cMap := map[string]string{}
 	for _, line := range lines {
-		cList = append(cList, Contract{
-			Contraction: line[0],
-			Expansion:   line[1],
-		})
+		if len(line) < 2 {
+			return nil, fmt.Errorf("%s: expected a contraction and its expansion, got %q", file, line)
+		}
+		cMap[line[0]] = line[1]
 	}
 
-	cMap := map[string]string{}
-	inrec, _ := json.Marshal(cList)
-	json.Unmarshal(inrec, &cMap)
-
 	return cMap, nil
-
 }
-- 
2.43.0


From 266226034167fec74e62ac61a8ec9ad6e30e9263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 014/105] fix: a negative maximum or stride is an invalid
 truncation

---
 encoding.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding.go b/encoding.go
index ee9c55d..58a535a 100644
--- a/encoding.go
+++ b/encoding.go
@@ -342,8 +342,8 @@ func (e *Encoding) Char2Word(pos int) (retVal int, ok bool) {
 // Truncate truncates the current encoding
 func (e *Encoding) Truncate(maxLen int, stride int) (retVal *Encoding, err error) {
 
-	if stride >= maxLen || maxLen == 0 {
-		return retVal, fmt.Errorf("Invalid input maxLen or stride (stride must be less than maxLen and maxLen must be greater than zero.)")
+	if stride < 0 || stride >= maxLen || maxLen <= 0 {
+		return retVal, fmt.Errorf("Invalid input maxLen or stride (stride must be less than maxLen, neither may be negative and maxLen must be greater than zero.)")
 	}
 
 	if maxLen >= len(e.Ids) {
-- 
2.43.0


From 8a466d22590aab32df4c5c59d4815b1a7874123c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:57 +0000
Subject: [PATCH 015/105] fix: RobertaProcessing without offset trimming
 processes the given encodings

---
 processor/roberta.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/processor/roberta.go b/processor/roberta.go
index 1c921b0..e399dbd 100644
--- a/processor/roberta.go
+++ b/processor/roberta.go
@@ -62,9 +62,9 @@ func (rp *RobertaProcessing) AddedTokens(isPair bool) int {
 func (rp *RobertaProcessing) Process(encoding, pairEncoding *tokenizer.Encoding, addSpecialTokens bool) *tokenizer.Encoding {
 
 	var (
-		newEncoding             *tokenizer.Encoding
+		newEncoding             *tokenizer.Encoding = encoding
 		newOverflowEncodings    []tokenizer.Encoding
-		newPairEncoding         *tokenizer.Encoding
+		newPairEncoding         *tokenizer.Encoding = pairEncoding
 		newOverflowPairEncoding []tokenizer.Encoding
 	)
 	if rp.trimOffsets {
-- 
2.43.0


From fa926248deab9ad72f7d8117acc9977243537d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:06 +0000
Subject: [PATCH 016/105] fix: a processor sequence inserts the pair sequence
 once

---
 processor/sequence.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/processor/sequence.go b/processor/sequence.go
index cad57cc..89bedb3 100644
--- a/processor/sequence.go
+++ b/processor/sequence.go
@@ -16,19 +16,35 @@ func NewSequence(processors []tokenizer.PostProcessor) *Sequence {
 
 func (seq *Sequence) AddedTokens(isPair bool) (retVal int) {
 	var count int
-	for _, p := range seq.processors {
-		count += p.AddedTokens(isPair)
+	last := len(seq.processors) - 1
+	for i, p := range seq.processors {
+		switch {
+		case i == last:
+			count += p.AddedTokens(isPair)
+		case isPair:
+			count += 2 * p.AddedTokens(false)
+		default:
+			count += p.AddedTokens(false)
+		}
 	}
 
 	return count
 }
 
 func (seq *Sequence) Process(encoding, pairEncoding *tokenizer.Encoding, addSpecialTokens bool) (retVal *tokenizer.Encoding) {
-	// return blp.pretok.Process(encoding, pairEncoding, addSpecialTokens)
-	var encodings *tokenizer.Encoding = encoding
-	for _, p := range seq.processors {
-		encodings = p.Process(encodings, pairEncoding, addSpecialTokens)
+	// Only the last processor combines the 2 sequences, otherwise each step
+	// would insert the pair sequence once more.
+	last := len(seq.processors) - 1
+	if last < 0 {
+		return tokenizer.DefaultProcess(encoding, pairEncoding, addSpecialTokens)
 	}
 
-	return encodings
+	for _, p := range seq.processors[:last] {
+		encoding = p.Process(encoding, nil, addSpecialTokens)
+		if pairEncoding != nil {
+			pairEncoding = p.Process(pairEncoding, nil, addSpecialTokens)
+		}
+	}
+
+	return seq.processors[last].Process(encoding, pairEncoding, addSpecialTokens)
 }
-- 
2.43.0


From 3be91260b00701b3b6988e100b1c693cba75605e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:48 +0000
Subject: [PATCH 017/105] fix: merging encodings gives the result offsets of
 its own

---
 encoding.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encoding.go b/encoding.go
index 58a535a..f782688 100644
--- a/encoding.go
+++ b/encoding.go
@@ -475,7 +475,8 @@ func (e *Encoding) MergeWith(pair *Encoding, growingOffsets bool) (retVal *Encod
 
 	// Offsets
 	var startingOffset int = 0
-	offsets := e.Offsets
+	offsets := make([][]int, len(e.Offsets), len(e.Offsets)+len(pair.Offsets))
+	copy(offsets, e.Offsets)
 	if growingOffsets {
 		if len(offsets) > 0 {
 			last := offsets[len(offsets)-1]
-- 
2.43.0


From 091df4898711d756566f33cc9acb5ad063a6062a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 018/105] fix: GetVocab no longer adds tokens to the model's
 own vocabulary

---
 tokenizer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tokenizer.go b/tokenizer.go
index b827e0a..6a05a8a 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -342,7 +342,11 @@ func (t *Tokenizer) GetPadding() (retVal *PaddingParams) {
 
 // GetVocab get the vocabulary
 func (t *Tokenizer) GetVocab(withAddedTokens bool) map[string]int {
-	finalVocab := t.model.GetVocab()
+	modelVocab := t.model.GetVocab()
+	finalVocab := make(map[string]int, len(modelVocab))
+	for k, v := range modelVocab {
+		finalVocab[k] = v
+	}
 	if withAddedTokens {
 		addedVocab := t.addedVocabulary.GetVocab()
 		if len(addedVocab) > 0 {
-- 
2.43.0


From 1d1ada5d0cda856e5d265a1334ffa63f56af1dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 019/105] fix: template special tokens are copied into the
 encodings they are inserted in

---
 processor/template.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/processor/template.go b/processor/template.go
index 2fe08a6..a88ab06 100644
--- a/processor/template.go
+++ b/processor/template.go
@@ -541,9 +541,9 @@ func (tp *TemplateProcessing) ApplyTemplate(template []Piece, encodings []tokeni
 				}
 				length := len(tok.Ids)
 
-				ids := tok.Ids
+				ids := append([]int(nil), tok.Ids...)
 				typeIds := util.Repeat(typeId, length)
-				tokens := tok.Tokens
+				tokens := append([]string(nil), tok.Tokens...)
 				offsets := util.Repeat([]int{0, 0}, length)
 				specialTokenMask := util.Repeat(1, length)
 				attentionMask := util.Repeat(1, length)
-- 
2.43.0


From 94fef046b6bc63cd0901059ee182327feda3c999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 020/105] fix: BPE without a cache tokenizes instead of
 panicking

---
 model/bpe/bpe.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index d408818..f3f8017 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -478,16 +478,18 @@ func (b BPE) Tokenize(sequence string) (retVal []tokenizer.Token, err error) {
 
 func (b BPE) TokenizeWithCache(sequence string) (retVal []tokenizer.Token) {
 
+	if b.Cache == nil { // caching is turned off
+		return b.WordToTokens(*b.MergeWord(sequence))
+	}
+
 	if hit, ok := b.Cache.Get(sequence); ok {
 		return b.WordToTokens(hit)
 	} else {
 		word := b.MergeWord(sequence)
 		retVal = b.WordToTokens(*word)
-		if b.Cache != nil {
-			b.Cache.SetValues([]CacheItem{
-				{sequence, *word},
-			})
-		}
+		b.Cache.SetValues([]CacheItem{
+			{sequence, *word},
+		})
 		return retVal
 	}
 }
-- 
2.43.0


From 01fe3c3ec4ca267072a64bb7a4f002c49905f0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 021/105] fix: special tokens are listed in a fixed order

---
 tokenizer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tokenizer.go b/tokenizer.go
index 6a05a8a..fe9a521 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -8,6 +8,7 @@ import (
 	"log"
 	"math"
 	"os"
+	"sort"
 	"strings"
 
 	// "regexp"
@@ -374,6 +375,7 @@ func (t *Tokenizer) GetSpecialTokens() []string {
 	for k := range t.addedVocabulary.specialTokensSet {
 		tokens = append(tokens, k)
 	}
+	sort.Strings(tokens) // map order differs from call to call
 
 	return tokens
 }
-- 
2.43.0


From 6683d85f101be7021579fda61e43dfdbe11647df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 022/105] fix: special tokens of a template keep a fixed order

---
 pretrained/processor.go | 11 +++++++++--
 processor/template.go   |  4 +++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pretrained/processor.go b/pretrained/processor.go
index 06feeac..c2691ad 100644
--- a/pretrained/processor.go
+++ b/pretrained/processor.go
@@ -9,6 +9,7 @@ package pretrained
 
 import (
 	"fmt"
+	"sort"
 
 	"github.com/sugarme/tokenizer"
 	"github.com/sugarme/tokenizer/pretokenizer"
@@ -191,9 +192,15 @@ func createTemplateProcessing(params *util.Params) tokenizer.PostProcessor {
 	// SpecialTokens
 	if params.Has("special_tokens") {
 		data := params.Get("special_tokens").(map[string]interface{})
+		var keys []string
+		for k := range data {
+			keys = append(keys, k)
+		}
+		sort.Strings(keys) // map order differs from run to run
+
 		var toks []processor.SpecialToken
-		for _, v := range data {
-			d := v.(map[string]interface{})
+		for _, k := range keys {
+			d := data[k].(map[string]interface{})
 			id := d["id"].(string)
 			ids := util.ConvertSlice[float64, int](util.CastSlice[float64](d["ids"].([]interface{})))
 
diff --git a/processor/template.go b/processor/template.go
index a88ab06..059a808 100644
--- a/processor/template.go
+++ b/processor/template.go
@@ -3,6 +3,7 @@ package processor
 import (
 	"fmt"
 	"reflect"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -234,11 +235,12 @@ func NewTokensFrom(toks []SpecialToken) *Tokens {
 }
 
 func NewTokensFromMap(m map[string]SpecialToken) *Tokens {
-	// TODO. How to sort this map to get ordered map?
+	// a map has no order: use the order of the keys
 	var keys []string
 	for k := range m {
 		keys = append(keys, k)
 	}
+	sort.Strings(keys)
 
 	return &Tokens{
 		TokenMap:    m,
-- 
2.43.0


From 36c2dee991fceea33977f84898d5c8dc3daaf316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 023/105] fix: continuing_subword_prefix of a WordPiece model
 is used

---
 model/wordpiece/wordpiece.go | 2 +-
 pretrained/model.go          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/model/wordpiece/wordpiece.go b/model/wordpiece/wordpiece.go
index a691bc9..e3ee884 100644
--- a/model/wordpiece/wordpiece.go
+++ b/model/wordpiece/wordpiece.go
@@ -418,7 +418,7 @@ func New(
 	if opts.Has("unk_token") {
 		unkToken = opts.Get("unk_token").(string)
 	}
-	if opts.Has("continuingSubwordPrefix") {
+	if opts.Has("continuing_subword_prefix") {
 		continuingSubwordPrefix = opts.Get("continuing_subword_prefix").(string)
 	}
 	if opts.Has("max_input_chars_per_word") {
diff --git a/pretrained/model.go b/pretrained/model.go
index 507790d..3a01e3c 100644
--- a/pretrained/model.go
+++ b/pretrained/model.go
@@ -128,7 +128,7 @@ func createWordPiece(params *util.Params) (tokenizer.Model, error) {
 	}
 	if params.Has("continuing_subword_prefix") {
 		v := params.Get("continuing_subword_prefix").(string)
-		opts.Get("continuing_subword_prefix", v)
+		opts.Set("continuing_subword_prefix", v)
 	}
 
 	if params.Has("max_input_chars_per_word") {
-- 
2.43.0


From 290dc6c187e1af32da93366a37d0816a6e159bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 024/105] fix: Replace with a regular expression is configured
 as one

---
 pretrained/decoder.go    | 4 ++--
 pretrained/normalizer.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pretrained/decoder.go b/pretrained/decoder.go
index afff515..b73d924 100644
--- a/pretrained/decoder.go
+++ b/pretrained/decoder.go
@@ -167,9 +167,9 @@ func createReplaceDecoder(params *util.Params) (*normalizer.Replace, error) {
 		pattern = pparams.Get("String").(string)
 		patternType = normalizer.String
 
-	case params.Has("Regex"):
+	case pparams.Has("Regex"):
 		pattern = pparams.Get("Regex").(string)
-		patternType = normalizer.String
+		patternType = normalizer.Regex
 	}
 
 	content := params.Get("content").(string)
diff --git a/pretrained/normalizer.go b/pretrained/normalizer.go
index fa6bee3..63e0e23 100644
--- a/pretrained/normalizer.go
+++ b/pretrained/normalizer.go
@@ -110,9 +110,9 @@ func createReplaceNormalizer(params *util.Params) (normalizer.Normalizer, error)
 		pattern = pparams.Get("String").(string)
 		patternType = normalizer.String
 
-	case params.Has("Regex"):
+	case pparams.Has("Regex"):
 		pattern = pparams.Get("Regex").(string)
-		patternType = normalizer.String
+		patternType = normalizer.Regex
 	}
 
 	content := params.Get("content").(string)
-- 
2.43.0


From a9f210b37bb624376a15be13266457dcccb72ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:42 +0000
Subject: [PATCH 025/105] fix: Split on a string does not read it as a regular
 expression

---
 pretrained/pretokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pretrained/pretokenizer.go b/pretrained/pretokenizer.go
index 87eb7fb..e45efe8 100644
--- a/pretrained/pretokenizer.go
+++ b/pretrained/pretokenizer.go
@@ -188,7 +188,7 @@ func createSplitPreTokenizer(params *util.Params) (tokenizer.PreTokenizer, error
 	if v, ok := patternMap["Regex"]; ok {
 		pattern = normalizer.NewRegexpPattern(v.(string))
 	} else if v, ok := patternMap["String"]; ok {
-		pattern = normalizer.NewRegexpPattern(v.(string))
+		pattern = normalizer.NewStringPattern(v.(string))
 	} else {
 		err := fmt.Errorf("Unsupported pattern: %#v\n", patternMap)
 		return nil, err
-- 
2.43.0


From dbcd31de74915b2f7a489eb8566a71c5e3f12b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 026/105] fix: CTC decoder reads word_delimiter_token

---
 pretrained/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pretrained/decoder.go b/pretrained/decoder.go
index b73d924..c832889 100644
--- a/pretrained/decoder.go
+++ b/pretrained/decoder.go
@@ -94,7 +94,7 @@ func createCTCDecoder(params *util.Params) (*decoder.CTC, error) {
 	}
 
 	padToken := params.Get("pad_token").(string)
-	wordDelimiter := params.Get("word_delimiter").(string)
+	wordDelimiter := params.Get("word_delimiter_token", params.Get("word_delimiter")).(string)
 	cleanup := params.Get("cleanup").(bool)
 
 	return decoder.NewCTC(padToken, wordDelimiter, cleanup), nil
-- 
2.43.0


From 31c68a66f9237c92d351f36bb856e14f027d6fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 027/105] fix: an unknown truncation strategy is an error

---
 pretrained/truncation.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pretrained/truncation.go b/pretrained/truncation.go
index 7a8c63d..86d7206 100644
--- a/pretrained/truncation.go
+++ b/pretrained/truncation.go
@@ -1,6 +1,8 @@
 package pretrained
 
 import (
+	"fmt"
+
 	"github.com/sugarme/tokenizer"
 	"github.com/sugarme/tokenizer/util"
 )
@@ -24,6 +26,8 @@ func CreateTruncationParams(config map[string]interface{}) (*tokenizer.Truncatio
 		strategy = tokenizer.OnlyFirst
 	case "OnlySecond":
 		strategy = tokenizer.OnlySecond
+	default:
+		return nil, fmt.Errorf("unknown truncation strategy: %q", strategyName)
 	}
 
 	return &tokenizer.TruncationParams{
-- 
2.43.0


From 1fe7058daae9049117fdebc3993c84931f5db944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 028/105] fix: Metaspace decoder honours prepend_scheme

---
 pretrained/decoder.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pretrained/decoder.go b/pretrained/decoder.go
index c832889..57059cf 100644
--- a/pretrained/decoder.go
+++ b/pretrained/decoder.go
@@ -82,10 +82,13 @@ func createMetaspaceDecoder(params *util.Params) (*pretokenizer.Metaspace, error
 		return nil, nil
 	}
 
-	replacement := params.Get("replacement", "").(string)
-	addPrefixSpace := params.Get("add_prefix_space", false).(bool)
+	// same settings as the pretokenizer of that name
+	m, err := createMetaspacePreTokenizer(params)
+	if err != nil {
+		return nil, err
+	}
 
-	return pretokenizer.NewMetaspace(replacement, addPrefixSpace), nil
+	return m.(*pretokenizer.Metaspace), nil
 }
 
 func createCTCDecoder(params *util.Params) (*decoder.CTC, error) {
-- 
2.43.0


From 2817e060540578e14023f576fe411669f60543e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 029/105] fix: an unknown padding strategy is an error, the
 strategy does not depend on map order

---
 pretrained/padding.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/pretrained/padding.go b/pretrained/padding.go
index 31193e8..cf6b232 100644
--- a/pretrained/padding.go
+++ b/pretrained/padding.go
@@ -1,7 +1,7 @@
 package pretrained
 
 import (
-	"reflect"
+	"fmt"
 
 	"github.com/sugarme/tokenizer"
 	"github.com/sugarme/tokenizer/util"
@@ -22,8 +22,8 @@ func CreatePaddingParams(config map[string]interface{}) (*tokenizer.PaddingParam
 	switch v := strategyValue.(type) {
 	case map[string]interface{}:
 		// Handle object format like {"Fixed": 128}
-		for k, val := range v {
-			strategyName = k
+		if val, ok := v["Fixed"]; ok {
+			strategyName = "Fixed"
 			// Handle different numeric types
 			switch numVal := val.(type) {
 			case float64:
@@ -31,14 +31,10 @@ func CreatePaddingParams(config map[string]interface{}) (*tokenizer.PaddingParam
 			case int:
 				strategySize = numVal
 			default:
-				// Try to convert using reflection
-				valValue := reflect.ValueOf(val)
-				if valValue.Kind() == reflect.Float64 || valValue.Kind() == reflect.Int {
-					strategySize = int(valValue.Int())
-				} else {
-					strategySize = 512 // Default fallback
-				}
+				strategySize = 512 // Default fallback
 			}
+		} else if _, ok := v["BatchLongest"]; ok {
+			strategyName = "BatchLongest"
 		}
 	case string:
 		// Handle string format like "Fixed"
@@ -71,9 +67,7 @@ func CreatePaddingParams(config map[string]interface{}) (*tokenizer.PaddingParam
 		opt := tokenizer.WithFixed(strategySize)
 		strategy = tokenizer.NewPaddingStrategy(opt)
 	default:
-		// Default to Fixed with size
-		opt := tokenizer.WithFixed(strategySize)
-		strategy = tokenizer.NewPaddingStrategy(opt)
+		return nil, fmt.Errorf("unknown padding strategy: %v", strategyValue)
 	}
 
 	// Get direction with fallback to Right
-- 
2.43.0


From 2075ca719f3d4f06b8cbb445be938c895b52b73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 030/105] fix: a configuration without a supported component
 type is an error, not a panic

---
 pretrained/decoder.go      | 2 +-
 pretrained/model.go        | 4 ++--
 pretrained/normalizer.go   | 5 ++---
 pretrained/pretokenizer.go | 2 +-
 pretrained/processor.go    | 2 +-
 pretrained/tokenizer.go    | 3 +++
 6 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/pretrained/decoder.go b/pretrained/decoder.go
index 57059cf..007051d 100644
--- a/pretrained/decoder.go
+++ b/pretrained/decoder.go
@@ -28,7 +28,7 @@ func CreateDecoder(config map[string]interface{}) (tokenizer.Decoder, error) {
 	}
 
 	params := util.NewParams(config)
-	typ := params.Get("type").(string)
+	typ, _ := params.Get("type").(string)
 
 	switch typ {
 	case "BPE":
diff --git a/pretrained/model.go b/pretrained/model.go
index 3a01e3c..c41be0a 100644
--- a/pretrained/model.go
+++ b/pretrained/model.go
@@ -24,12 +24,12 @@ func CreateModel(config *tokenizer.Config) (tokenizer.Model, error) {
 
 	var typ string
 	if params.Has("type") {
-		typ = params.Get("type").(string)
+		typ, _ = params.Get("type").(string)
 	} else {
 		// Guessing from `decoder.type`
 		dparams := util.NewParams(config.Decoder)
 		if dparams.Has("type") {
-			dtyp := dparams.Get("type").(string)
+			dtyp, _ := dparams.Get("type").(string)
 			switch dtyp {
 			case "ByteLevel":
 				typ = "BPE"
diff --git a/pretrained/normalizer.go b/pretrained/normalizer.go
index 63e0e23..15b8bd9 100644
--- a/pretrained/normalizer.go
+++ b/pretrained/normalizer.go
@@ -32,7 +32,7 @@ func CreateNormalizer(config map[string]interface{}) (normalizer.Normalizer, err
 
 	params := util.NewParams(config)
 
-	typ := params.Get("type").(string)
+	typ, _ := params.Get("type").(string)
 
 	switch typ {
 	case "BertNormalizer":
@@ -172,8 +172,7 @@ func createPrecompiledNormalizer(params *util.Params) (normalizer.Normalizer, er
 }
 
 func createNmtNormalizer(params *util.Params) (normalizer.Normalizer, error) {
-	// TODO
-	panic("NotImplementedError")
+	return nil, fmt.Errorf("Nmt normalizer is not implemented")
 }
 
 func createSequenceNormalizer(params *util.Params) (normalizer.Normalizer, error) {
diff --git a/pretrained/pretokenizer.go b/pretrained/pretokenizer.go
index e45efe8..2caa4f3 100644
--- a/pretrained/pretokenizer.go
+++ b/pretrained/pretokenizer.go
@@ -29,7 +29,7 @@ func CreatePreTokenizer(config map[string]interface{}) (tokenizer.PreTokenizer,
 	}
 
 	params := util.NewParams(config)
-	typ := params.Get("type").(string)
+	typ, _ := params.Get("type").(string)
 
 	switch typ {
 	case "BertPreTokenizer":
diff --git a/pretrained/processor.go b/pretrained/processor.go
index c2691ad..2bb4f44 100644
--- a/pretrained/processor.go
+++ b/pretrained/processor.go
@@ -24,7 +24,7 @@ func CreatePostProcessor(config map[string]interface{}) (tokenizer.PostProcessor
 
 	params := util.NewParams(config)
 
-	typ := params.Get("type").(string)
+	typ, _ := params.Get("type").(string)
 
 	switch typ {
 	case "RobertaProcessing": // Bart
diff --git a/pretrained/tokenizer.go b/pretrained/tokenizer.go
index e5769eb..b38c676 100644
--- a/pretrained/tokenizer.go
+++ b/pretrained/tokenizer.go
@@ -30,6 +30,9 @@ func FromReader(r io.Reader) (*tokenizer.Tokenizer, error) {
 	if err := json.NewDecoder(r).Decode(&config); err != nil {
 		return nil, err
 	}
+	if config == nil { // JSON null
+		return nil, fmt.Errorf("no tokenizer configuration")
+	}
 
 	model, err := CreateModel(config)
 	if err != nil {
-- 
2.43.0


From e58b1ef3b9b9350dd299a813f29869031d7077a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 031/105] fix: absent component options take the default of the
 component instead of panicking

---
 pretrained/decoder.go      | 12 ++++++------
 pretrained/pretokenizer.go |  8 ++++----
 pretrained/processor.go    |  4 ++--
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/pretrained/decoder.go b/pretrained/decoder.go
index 007051d..5d25499 100644
--- a/pretrained/decoder.go
+++ b/pretrained/decoder.go
@@ -58,7 +58,7 @@ func CreateDecoder(config map[string]interface{}) (tokenizer.Decoder, error) {
 }
 
 func createBPEDecoder(params *util.Params) (*decoder.BpeDecoder, error) {
-	suffix := params.Get("suffix").(string)
+	suffix := params.Get("suffix", "</w>").(string)
 
 	return decoder.NewBpeDecoder(suffix), nil
 }
@@ -96,9 +96,9 @@ func createCTCDecoder(params *util.Params) (*decoder.CTC, error) {
 		return nil, nil
 	}
 
-	padToken := params.Get("pad_token").(string)
-	wordDelimiter := params.Get("word_delimiter_token", params.Get("word_delimiter")).(string)
-	cleanup := params.Get("cleanup").(bool)
+	padToken := params.Get("pad_token", "<pad>").(string)
+	wordDelimiter := params.Get("word_delimiter_token", params.Get("word_delimiter", "|")).(string)
+	cleanup := params.Get("cleanup", true).(bool)
 
 	return decoder.NewCTC(padToken, wordDelimiter, cleanup), nil
 }
@@ -106,8 +106,8 @@ func createCTCDecoder(params *util.Params) (*decoder.CTC, error) {
 // e.g. `Bert` model
 // "decoder":{"type":"WordPiece","prefix":"##","cleanup":true}
 func createWordPieceDecoder(params *util.Params) (*decoder.WordPieceDecoder, error) {
-	prefix := params.Get("prefix").(string)
-	cleanup := params.Get("cleanup").(bool)
+	prefix := params.Get("prefix", "##").(string)
+	cleanup := params.Get("cleanup", true).(bool)
 	return decoder.NewWordPieceDecoder(prefix, cleanup), nil
 }
 
diff --git a/pretrained/pretokenizer.go b/pretrained/pretokenizer.go
index 2caa4f3..6c37bf6 100644
--- a/pretrained/pretokenizer.go
+++ b/pretrained/pretokenizer.go
@@ -86,7 +86,7 @@ func createMetaspacePreTokenizer(params *util.Params) (tokenizer.PreTokenizer, e
 		return nil, nil
 	}
 
-	replacement := params.Get("replacement", "").(string)
+	replacement := params.Get("replacement", "▁").(string)
 
 	// Check for prepend_scheme parameter
 	var scheme pretokenizer.PrependScheme
@@ -126,7 +126,7 @@ func createWhitespaceSplitPreTokenizer(params *util.Params) (tokenizer.PreTokeni
 	     },
 */
 func createPunctuationPreTokenizer(params *util.Params) (tokenizer.PreTokenizer, error) {
-	behaviorVal := params.Get("behavior").(string)
+	behaviorVal := params.Get("behavior", "Isolated").(string)
 
 	var b normalizer.SplitDelimiterBehavior
 	switch behaviorVal {
@@ -156,7 +156,7 @@ func createPunctuationPreTokenizer(params *util.Params) (tokenizer.PreTokenizer,
 	      },
 */
 func createDigitsPreTokenizer(params *util.Params) (tokenizer.PreTokenizer, error) {
-	individualDigits := params.Get("individual_digits").(bool)
+	individualDigits := params.Get("individual_digits", false).(bool)
 
 	return pretokenizer.NewDigits(individualDigits), nil
 }
@@ -182,7 +182,7 @@ func createSplitPreTokenizer(params *util.Params) (tokenizer.PreTokenizer, error
 
 	patternMap := params.Get("pattern").(map[string]interface{})
 	behaviorVal := params.Get("behavior").(string)
-	invert := params.Get("invert").(bool)
+	invert := params.Get("invert", false).(bool)
 
 	var pattern normalizer.Pattern
 	if v, ok := patternMap["Regex"]; ok {
diff --git a/pretrained/processor.go b/pretrained/processor.go
index 2bb4f44..e81315b 100644
--- a/pretrained/processor.go
+++ b/pretrained/processor.go
@@ -52,8 +52,8 @@ func CreatePostProcessor(config map[string]interface{}) (tokenizer.PostProcessor
 func createRobertaProcessing(params *util.Params) tokenizer.PostProcessor {
 	sep := getPostToken(params, "sep")
 	cls := getPostToken(params, "cls")
-	trimOffsets := params.Get("trim_offsets").(bool)
-	addPrefixSpace := params.Get("add_prefix_space").(bool)
+	trimOffsets := params.Get("trim_offsets", true).(bool)
+	addPrefixSpace := params.Get("add_prefix_space", true).(bool)
 
 	return processor.NewRobertaProcessing(sep, cls, trimOffsets, addPrefixSpace)
 }
-- 
2.43.0


From 81f2e33c3d0d587ef936cc5e2d1c88b5caee775f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 032/105] fix: RobertaBase tokenizers honour trimOffsets

---
 pretrained/roberta.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pretrained/roberta.go b/pretrained/roberta.go
index 7760fcf..f12a373 100644
--- a/pretrained/roberta.go
+++ b/pretrained/roberta.go
@@ -55,7 +55,7 @@ func RobertaBase(addPrefixSpace, trimOffsets bool) *tokenizer.Tokenizer {
 	tk.WithPreTokenizer(blPreTokenizer)
 
 	postProcess := processor.DefaultRobertaProcessing()
-	// postProcess.TrimOffsets(trimOffsets)
+	postProcess.TrimOffsets(trimOffsets)
 	tk.WithPostProcessor(postProcess)
 
 	bpeDecoder := decoder.NewBpeDecoder("Ġ")
@@ -101,6 +101,7 @@ func RobertaBaseSquad2(addPrefixSpace, trimOffsets bool) *tokenizer.Tokenizer {
 	tk.WithPreTokenizer(blPreTokenizer)
 
 	postProcess := processor.DefaultRobertaProcessing()
+	postProcess.TrimOffsets(trimOffsets)
 	tk.WithPostProcessor(postProcess)
 
 	bpeDecoder := decoder.NewBpeDecoder("Ġ")
-- 
2.43.0


From 92ff2107f69435e55dfd5a4a508dd34ee23ab7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 033/105] fix: a token position past the end is not found
 instead of a panic or a sequence

---
 encoding.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding.go b/encoding.go
index f782688..4f53c41 100644
--- a/encoding.go
+++ b/encoding.go
@@ -301,7 +301,7 @@ func (e *Encoding) Word2Chars(word int) (retVal []int, ok bool) {
 
 // Token2Chars get the offsets of the token at the given index
 func (e *Encoding) Token2Chars(tokenIdx int) (retVal []int, ok bool) {
-	if tokenIdx < 0 || tokenIdx > len(e.Offsets) {
+	if tokenIdx < 0 || tokenIdx >= len(e.Offsets) {
 		return retVal, false
 	} else {
 		return e.Offsets[tokenIdx], true
@@ -646,7 +646,7 @@ func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, dire
 
 // Token2Sequence returns the index of the sequence containing the given token.
 func (e *Encoding) Token2Sequence(token int) (int, bool) {
-	if token > e.Len() {
+	if token < 0 || token >= e.Len() {
 		return -1, false
 	} else if len(e.SequenceRanges) == 0 {
 		return 0, true
-- 
2.43.0


From 63e93ffb15eb7a63041becebf591bc6055968c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 034/105] fix: SequenceRange returns the range of the sequence

---
 encoding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding.go b/encoding.go
index 4f53c41..8e656ec 100644
--- a/encoding.go
+++ b/encoding.go
@@ -670,7 +670,7 @@ func (e *Encoding) SequenceRange(sequencId int) (Range, error) {
 		return nil, err
 	}
 
-	return r[0:e.Len()], nil
+	return r, nil
 }
 
 func getCurrentPart[T any](previous, current []T, size, idx, stride int) []T {
-- 
2.43.0


From 6046b9e8821cd1b2ee529de503692434d9ae2067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:25 +0000
Subject: [PATCH 035/105] fix: GetSequenceIds gives one id per token and does
 not panic without ranges

---
 encoding.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/encoding.go b/encoding.go
index 8e656ec..118356d 100644
--- a/encoding.go
+++ b/encoding.go
@@ -191,19 +191,11 @@ func (e *Encoding) SetSequenceIds(sequenceId int) {
 func (e *Encoding) GetSequenceIds() []int {
 	sequences := make([]int, e.Len())
 	for seqId := 0; seqId < e.NSequences(); seqId++ {
-		r := e.SequenceRanges[seqId]
-		seqLen := r.Len()
-		var a []int
-		for i := 0; i < seqLen; i++ {
-			a = append(a, seqId)
+		for _, tok := range e.SequenceRanges[seqId] {
+			if tok < len(sequences) {
+				sequences[tok] = seqId
+			}
 		}
-		// replace items in Range r with seqId
-		start := r[0]
-		end := r[len(r)-1]
-		before := sequences[:start]
-		after := sequences[end:]
-		sequences = append(before, a...)
-		sequences = append(sequences, after...)
 	}
 
 	return sequences
-- 
2.43.0


From fe87cb8459d33b4774f33599d8914b1cec6646d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:35 +0000
Subject: [PATCH 036/105] fix: Word2Tokens returns the tokens of the word, not
 those of other words or special tokens

---
 encoding.go | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/encoding.go b/encoding.go
index 118356d..2dcdb19 100644
--- a/encoding.go
+++ b/encoding.go
@@ -254,40 +254,36 @@ func (e *Encoding) TakeOverflowing() []Encoding {
 // NOTE. e.Words is optional, therefore, there's case of `none` result
 // if `none` result, `ok` will be false.
 func (e *Encoding) Word2Tokens(word int) (startTok, endTok int, ok bool) {
-
-	var start, end int = -1, -1
-
-	var inRangeWords []int
-	for _, w := range e.Words {
-		if w <= word {
-			inRangeWords = append(inRangeWords, w)
-		}
+	if word < 0 { // tokens without a word
+		return startTok, endTok, false
 	}
-	for i, w := range inRangeWords {
-		if w == word && start < 0 {
-			start = i
+
+	for i, w := range e.Words {
+		if w != word {
+			continue
 		}
-	}
 
-	end = len(inRangeWords)
+		end := i + 1
+		for end < len(e.Words) && e.Words[end] == word {
+			end++
+		}
 
-	if start != -1 && end != -1 {
-		return start, end, true
-	} else {
-		return startTok, endTok, false
+		return i, end, true
 	}
+
+	return startTok, endTok, false
 }
 
 // Word2Chars get the offsets of the word at a given index in
 // the input sequence
 func (e *Encoding) Word2Chars(word int) (retVal []int, ok bool) {
 	start, end, ok := e.Word2Tokens(word)
-	if end == 0 {
+	if !ok {
 		return retVal, false
 	} else {
 		oStart := e.Offsets[start][0]
 		oEnd := e.Offsets[end-1][1]
-		return []int{oStart, oEnd}, true // Should we check whether `ok`?
+		return []int{oStart, oEnd}, true
 	}
 }
 
-- 
2.43.0


From 08a2c3242cc3295e33404ab7964fdc6e8ca8dda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:45 +0000
Subject: [PATCH 037/105] fix: a special token has no word

---
 encoding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding.go b/encoding.go
index 2dcdb19..d16e496 100644
--- a/encoding.go
+++ b/encoding.go
@@ -300,7 +300,7 @@ func (e *Encoding) Token2Chars(tokenIdx int) (retVal []int, ok bool) {
 func (e *Encoding) Token2Word(tokenIdx int) (retVal int, ok bool) {
 	// naive search. TODO. improve algorithm
 	for i, w := range e.Words {
-		if i == tokenIdx {
+		if i == tokenIdx && w >= 0 {
 			return w, true
 		}
 	}
-- 
2.43.0


From ce7e3d456861e0a5d35502360718429f571874a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:08 +0000
Subject: [PATCH 038/105] fix: truncation keeps the sequence ranges within the
 encoding

---
 encoding.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/encoding.go b/encoding.go
index d16e496..7e7f878 100644
--- a/encoding.go
+++ b/encoding.go
@@ -364,6 +364,23 @@ func (e *Encoding) Truncate(maxLen int, stride int) (retVal *Encoding, err error
 	e.AttentionMask = newAttent
 	e.Words = newWords
 
+	// The sequence ranges only cover tokens that are kept
+	if len(e.SequenceRanges) > 0 {
+		ranges := make(map[int]Range)
+		for seqId, r := range e.SequenceRanges {
+			var kept Range
+			for _, tok := range r {
+				if tok < maxLen {
+					kept = append(kept, tok)
+				}
+			}
+			if len(kept) > 0 {
+				ranges[seqId] = kept
+			}
+		}
+		e.SequenceRanges = ranges
+	}
+
 	// Separate the overflowing part into as many Encoding as needed
 	partSize := maxLen - stride
 	overflowing := make([]Encoding, 0)
-- 
2.43.0


From ca40846a4bdc406ea40478cca257cd2714d0a80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:55 +0000
Subject: [PATCH 039/105] fix: an added token never takes the id of a model
 token

---
 added-vocabulary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index d707b29..a276171 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -300,6 +300,10 @@ func (av *AddedVocabulary) AddTokens(tokens []AddedToken, model Model, normalize
 			id = i
 		} else {
 			id = model.GetVocabSize() + len(av.addedTokenMap)
+			// ids of the model may lie past its size when they are not contiguous
+			for _, taken := av.IdToToken(id, model); taken; _, taken = av.IdToToken(id, model) {
+				id++
+			}
 			av.addedTokenMap[token.Content] = id
 
 			if _, ok := av.specialTokensSet[token.Content]; !ok {
-- 
2.43.0


From 0458b12c5c5823afcad2c53704c10b445ade639a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:30 +0000
Subject: [PATCH 040/105] fix: added tokens are recognised in text order,
 whatever the order they were added in

---
 added-vocabulary.go | 45 ++++++++++++++-------------------------------
 1 file changed, 14 insertions(+), 31 deletions(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index a276171..df65eef 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -368,23 +368,6 @@ type idOffsets struct {
 	offsets []int
 }
 
-// helper functions to sort idOffsets
-// By implement sort interface of package sort
-
-// byStart sort by offset.Start
-type byStart []idOffsets
-
-func (s byStart) Len() int           { return len(s) }
-func (s byStart) Less(i, j int) bool { return s[i].offsets[0] < s[j].offsets[0] }
-func (s byStart) Swap(i, j int)      { s[i], s[j] = s[j], s[i] }
-
-// byId sort by id
-type byId []idOffsets
-
-func (bi byId) Len() int           { return len(bi) }
-func (bi byId) Less(i, j int) bool { return bi[i].id < bi[j].id }
-func (bi byId) Swap(i, j int)      { bi[i], bi[j] = bi[j], bi[i] }
-
 // findMatches finds any AddedToken in the given sentence, using the provided MatchingSet.
 // This method returns a list "splits", each of them being a pair of Offsets
 // and an optional ID if it is an AddedToken. The list of splits cover the entire input string.
@@ -408,8 +391,12 @@ func (av *AddedVocabulary) findMatches(sentence string, splitRe matchingSet) (re
 	}
 
 	// Sort id-offsets by start then by pattern id
-	sort.Sort(byStart(ioPairs))
-	sort.Sort(byId(ioPairs))
+	sort.Slice(ioPairs, func(i, j int) bool {
+		if ioPairs[i].offsets[0] != ioPairs[j].offsets[0] {
+			return ioPairs[i].offsets[0] < ioPairs[j].offsets[0]
+		}
+		return ioPairs[i].id < ioPairs[j].id
+	})
 
 	// Select the matches, if they overlap, keep them
 	var (
@@ -430,20 +417,16 @@ func (av *AddedVocabulary) findMatches(sentence string, splitRe matchingSet) (re
 		// Find out whether having overlapping neighbours.
 		// If so, keep the one with lowest Idx. All other will be skipped
 		// because `currentOffsets` will have been increased.
-		if i+1 < len(ioPairs) {
-			overlapPairs := ioPairs[i:]
-			sort.Sort(byId(overlapPairs))
-			lowestPair := overlapPairs[0] // lowest Id one
-			splits = append(splits, lowestPair)
-			currentOffsets = ioPair.offsets[1]
-			i++
-			continue
+		lowest := i
+		for j := i + 1; j < len(ioPairs) && ioPairs[j].offsets[0] < ioPair.offsets[1]; j++ {
+			if ioPairs[j].id < ioPairs[lowest].id {
+				lowest = j
+			}
 		}
 
-		// Not found overlap neighbours. Just apply itself
-		splits = append(splits, ioPair)
-		currentOffsets = ioPair.offsets[1]
-		i++
+		splits = append(splits, ioPairs[lowest])
+		currentOffsets = ioPairs[lowest].offsets[1]
+		i = lowest + 1
 	}
 
 	// Also, insert the splits in-between added tokens, to split the entire string
-- 
2.43.0


From 7217818ec2ccc434a42586c6cd3f15b5fbf31db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:47 +0000
Subject: [PATCH 041/105] fix: PreTokenizedString.Normalize keeps the pieces
 that already carry tokens

---
 pretokenizer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pretokenizer.go b/pretokenizer.go
index 6a55545..23e33e0 100644
--- a/pretokenizer.go
+++ b/pretokenizer.go
@@ -101,11 +101,11 @@ func (pt *PreTokenizedString) Normalize(nFn func(*normalizer.NormalizedString) *
 	var nSplits []Split
 
 	for _, split := range pt.splits {
+		newSplit := split
 		if split.tokens == nil {
-			newSplit := split
 			newSplit.normalized = nFn(split.normalized)
-			nSplits = append(nSplits, newSplit)
 		}
+		nSplits = append(nSplits, newSplit)
 	}
 
 	pt.splits = nSplits
-- 
2.43.0


From 95e3d916f9cba3e33a834b127b7c6dfa84f73f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:18 +0000
Subject: [PATCH 042/105] fix: WordLevelBuilder.UnkToken keeps the id of a
 known token and never reuses an id

---
 model/wordlevel/wordlevel.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/model/wordlevel/wordlevel.go b/model/wordlevel/wordlevel.go
index 8fc7806..06a8f3e 100644
--- a/model/wordlevel/wordlevel.go
+++ b/model/wordlevel/wordlevel.go
@@ -44,9 +44,21 @@ func (wlb *WordLevelBuilder) Vocab(vocab map[string]int) {
 }
 
 // UnkToken set `UNK` token for the vocab
+//
+// The token keeps its id if the vocab has it, and gets an unused one otherwise.
 func (wlb *WordLevelBuilder) UnkToken(unkToken string) {
 	wlb.config.unkToken = unkToken
-	wlb.config.vocab[unkToken] = len(wlb.config.vocab)
+	if _, ok := wlb.config.vocab[unkToken]; ok {
+		return
+	}
+
+	id := len(wlb.config.vocab)
+	for _, used := range wlb.config.vocab {
+		if used >= id {
+			id = used + 1
+		}
+	}
+	wlb.config.vocab[unkToken] = id
 }
 
 // Build builds a WordLevel using configuration
-- 
2.43.0


From 35f2bc8369fad95b92c23f50a88db31ec4ac4dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:46 +0000
Subject: [PATCH 043/105] fix: BPE models with a continuing subword prefix load
 their merges

---
 model/bpe/bpe.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index f3f8017..e8e1be7 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -126,6 +126,7 @@ func (bb *BpeBuilder) Build() (*BPE, error) {
 
 	// Read files if provided
 	if bb.config.files != nil {
+		bpe.ContinuingSubwordPrefix = bb.config.continuingSubwordPrefix
 		vocab, merges, err = bpe.ReadFiles(bb.config.files.vocab, bb.config.files.merges)
 		if err != nil {
 			return nil, err
@@ -295,16 +296,15 @@ func (b *BPE) ReadFiles(vocabF string, mergesF string) (*model.Vocab, *Merges, e
 			// return nil, nil, err
 		}
 
-		b, ok := vocab[parts[1]]
+		c, ok := vocab[parts[1]]
 		if !ok {
 			// err = fmt.Errorf("Read merge file error: part b value for '%s' key not found.", parts[1])
 			continue
 			// return nil, nil, err
 		}
 
-		pair := Pair{a, b}
-		// newToken := fmt.Sprintf("%v%v", parts[0], parts[1])
-		newToken := fmt.Sprintf("%v%v", parts[0], parts[1])
+		pair := Pair{a, c}
+		newToken := mergedToken(parts[0], parts[1], b.ContinuingSubwordPrefix)
 		newId, ok := vocab[newToken]
 		if !ok {
 			err = fmt.Errorf("Read merge file error: key value for token: \"%s\" not found.", newToken)
@@ -602,11 +602,26 @@ func makeFilePath(filename string) error {
 	return os.MkdirAll(dirName, os.ModePerm)
 }
 
-func CreateMerges(vocab map[string]int, mergesData []string) (*Merges, error) {
+// mergedToken is the token two merged tokens form: the continuing subword prefix
+// of the second token, if any, is not repeated inside of it.
+func mergedToken(a, b string, prefix *string) string {
+	if prefix != nil {
+		b = strings.TrimPrefix(b, *prefix)
+	}
+	return a + b
+}
+
+// CreateMerges creates the merges from the lines of a merges file. Optionally, it
+// takes the continuing subword prefix of the model.
+func CreateMerges(vocab map[string]int, mergesData []string, prefixOpt ...string) (*Merges, error) {
 	var (
 		lineNum int    = 0
 		merges  Merges = make(map[Pair]PairVal)
 	)
+	var prefix *string
+	if len(prefixOpt) > 0 {
+		prefix = &prefixOpt[0]
+	}
 	for _, line := range mergesData {
 		parts := strings.Split(line, " ")
 		if len(parts) != 2 {
@@ -629,8 +644,7 @@ func CreateMerges(vocab map[string]int, mergesData []string) (*Merges, error) {
 		}
 
 		pair := Pair{a, b}
-		// newToken := fmt.Sprintf("%v%v", parts[0], parts[1])
-		newToken := fmt.Sprintf("%v%v", parts[0], parts[1])
+		newToken := mergedToken(parts[0], parts[1], prefix)
 		newId, ok := vocab[newToken]
 		if !ok {
 			err := fmt.Errorf("Read merges error: key value for token: \"%s\" not found.", newToken)
@@ -657,7 +671,11 @@ func New(
 	continuingSubwordPrefix *string,
 	endOfWordSuffix *string,
 ) (*BPE, error) {
-	merges, err := CreateMerges(vocab, mergesData)
+	var prefixOpt []string
+	if continuingSubwordPrefix != nil {
+		prefixOpt = append(prefixOpt, *continuingSubwordPrefix)
+	}
+	merges, err := CreateMerges(vocab, mergesData, prefixOpt...)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 84df4acafa3e672e361bddf1e69ab2561f226f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:55 +0000
Subject: [PATCH 044/105] fix: saving a model creates the missing directory
 instead of failing

---
 model/bpe/bpe.go             | 7 +------
 model/wordlevel/wordlevel.go | 7 +------
 model/wordpiece/wordpiece.go | 7 +------
 3 files changed, 3 insertions(+), 18 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index e8e1be7..631a4a2 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -594,12 +594,7 @@ func deleteWord(a []Word, i int) ([]Word, error) {
 
 // makeFilePath creates a filePath. If dir not existing, create it
 func makeFilePath(filename string) error {
-	var err error
-	dirName := filepath.Dir(filename)
-	if _, err = os.Stat(dirName); err != nil {
-		return err
-	}
-	return os.MkdirAll(dirName, os.ModePerm)
+	return os.MkdirAll(filepath.Dir(filename), os.ModePerm)
 }
 
 // mergedToken is the token two merged tokens form: the continuing subword prefix
diff --git a/model/wordlevel/wordlevel.go b/model/wordlevel/wordlevel.go
index 06a8f3e..a04c4aa 100644
--- a/model/wordlevel/wordlevel.go
+++ b/model/wordlevel/wordlevel.go
@@ -248,12 +248,7 @@ func (wl *WordLevel) Save(dir string, nameOpt ...string) (err error) {
 
 // makeFilePath creates a filePath. If dir not existing, create it
 func makeFilePath(filename string) error {
-	var err error
-	dirName := filepath.Dir(filename)
-	if _, err = os.Stat(dirName); err != nil {
-		return err
-	}
-	return os.MkdirAll(dirName, os.ModePerm)
+	return os.MkdirAll(filepath.Dir(filename), os.ModePerm)
 }
 
 // New creates new WordLevel from input data.
diff --git a/model/wordpiece/wordpiece.go b/model/wordpiece/wordpiece.go
index e3ee884..bccec01 100644
--- a/model/wordpiece/wordpiece.go
+++ b/model/wordpiece/wordpiece.go
@@ -398,12 +398,7 @@ func (wp WordPiece) Save(dir string, nameOpt ...string) (err error) {
 
 // makeFilePath creates a filePath. If dir not existing, create it
 func makeFilePath(filename string) error {
-	var err error
-	dirName := filepath.Dir(filename)
-	if _, err = os.Stat(dirName); err != nil {
-		return err
-	}
-	return os.MkdirAll(dirName, os.ModePerm)
+	return os.MkdirAll(filepath.Dir(filename), os.ModePerm)
 }
 
 // New creates WordPiece model from input data.
-- 
2.43.0


From 159a66e56f9139e15fc5bdd2591dccf704e8c452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:04 +0000
Subject: [PATCH 045/105] fix: saving a model reports the error of closing its
 file

---
 model/bpe/bpe.go             | 5 ++++-
 model/wordlevel/wordlevel.go | 5 ++++-
 model/wordpiece/wordpiece.go | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index 631a4a2..f2259d6 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -578,7 +578,10 @@ func (b BPE) Save(dir string, nameOpt ...string) error {
 	for _, line := range lines {
 		fmt.Fprintln(w, line)
 	}
-	return w.Flush()
+	if err := w.Flush(); err != nil {
+		return err
+	}
+	return file.Close()
 
 }
 
diff --git a/model/wordlevel/wordlevel.go b/model/wordlevel/wordlevel.go
index a04c4aa..979e988 100644
--- a/model/wordlevel/wordlevel.go
+++ b/model/wordlevel/wordlevel.go
@@ -242,7 +242,10 @@ func (wl *WordLevel) Save(dir string, nameOpt ...string) (err error) {
 	for _, line := range lines {
 		fmt.Fprintln(w, line)
 	}
-	return w.Flush()
+	if err := w.Flush(); err != nil {
+		return err
+	}
+	return file.Close()
 
 }
 
diff --git a/model/wordpiece/wordpiece.go b/model/wordpiece/wordpiece.go
index bccec01..b11c025 100644
--- a/model/wordpiece/wordpiece.go
+++ b/model/wordpiece/wordpiece.go
@@ -392,7 +392,10 @@ func (wp WordPiece) Save(dir string, nameOpt ...string) (err error) {
 	for _, line := range lines {
 		fmt.Fprintln(w, line)
 	}
-	return w.Flush()
+	if err := w.Flush(); err != nil {
+		return err
+	}
+	return file.Close()
 
 }
 
-- 
2.43.0


From 3422233a29da9e5946c3896faf21723b88ad4dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:13 +0000
Subject: [PATCH 046/105] fix: a saved Unigram model has the layout the loader
 reads

---
 model/unigram/unigram.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/model/unigram/unigram.go b/model/unigram/unigram.go
index 8f40367..e66087a 100644
--- a/model/unigram/unigram.go
+++ b/model/unigram/unigram.go
@@ -212,17 +212,10 @@ func (u *Unigram) Save(dir string, prefixOpt ...string) error {
 	}
 	defer vocabFile.Close()
 
-	// Create a serializable representation of the vocabulary
-	type VocabEntry struct {
-		Token string  `json:"token"`
-		Score float64 `json:"score"`
-	}
-	vocabEntries := make([]VocabEntry, len(u.vocab))
+	// Create a serializable representation of the vocabulary: [token, score] pairs
+	vocabEntries := make([][]interface{}, len(u.vocab))
 	for i, ts := range u.vocab {
-		vocabEntries[i] = VocabEntry{
-			Token: ts.Token,
-			Score: ts.Score,
-		}
+		vocabEntries[i] = []interface{}{ts.Token, ts.Score}
 	}
 
 	// Create the model config
@@ -231,6 +224,7 @@ func (u *Unigram) Save(dir string, prefixOpt ...string) error {
 		"vocab":         vocabEntries,
 		"unk_id":        u.unkID,
 		"byte_fallback": u.bytesFallback,
+		"fuse_unk":      u.fuseUnk,
 	}
 
 	encoder := json.NewEncoder(vocabFile)
@@ -239,7 +233,7 @@ func (u *Unigram) Save(dir string, prefixOpt ...string) error {
 		return err
 	}
 
-	return nil
+	return vocabFile.Close()
 }
 
 // Tokenize tokenizes the given sequence into multiple tokens
-- 
2.43.0


From e39eedd5cbeaa06eba404d8e5578e4650dc2ff01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:34 +0000
Subject: [PATCH 047/105] fix: BPE merges of equal rank are applied leftmost
 first

---
 model/bpe/word.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/model/bpe/word.go b/model/bpe/word.go
index 03b6b21..ad07893 100644
--- a/model/bpe/word.go
+++ b/model/bpe/word.go
@@ -261,16 +261,13 @@ func (w *Word) MergeAll(merges map[Pair]PairVal, dropoutOpt ...float32) {
 	}
 
 	// countComaparator return the `smaller` rank value
-	// if both ranks are equal, then return one with smaller timestamp
+	// if both ranks are equal, then return the leftmost one
 	countComparator := func(a, b interface{}) int {
 		c1 := a.(Merge).Rank
 		c2 := b.(Merge).Rank
 
 		if c1 == c2 {
-			aTime := a.(Merge).Time
-			bTime := b.(Merge).Time
-
-			return utils.TimeComparator(aTime, bTime)
+			return utils.IntComparator(a.(Merge).Pos, b.(Merge).Pos)
 		}
 
 		return utils.IntComparator(c1, c2)
-- 
2.43.0


From 172f3ddd0754ba49d133351f49a252920adcf0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:44 +0000
Subject: [PATCH 048/105] fix: BPE merging with dropout ends: a skipped merge
 is queued again only once

---
 model/bpe/word.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/bpe/word.go b/model/bpe/word.go
index ad07893..17354f5 100644
--- a/model/bpe/word.go
+++ b/model/bpe/word.go
@@ -321,6 +321,7 @@ func (w *Word) MergeAll(merges map[Pair]PairVal, dropoutOpt ...float32) {
 			for _, s := range skip {
 				queue.Push(s)
 			}
+			skip = nil
 
 			if (w.Symbols[top.(Merge).Pos]).Len > 0 {
 				if (w.Symbols[top.(Merge).Pos]).Next == -1 {
-- 
2.43.0


From 231d9052e5e006971eb014f54ab1f0c577a0e795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:53 +0000
Subject: [PATCH 049/105] fix: BPE training breaks ties between pairs the same
 way on every run

---
 model/bpe/trainer.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index dc93a00..bd56f13 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -653,15 +653,19 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 	fmt.Printf("5. Merging pairs from top count down...\n")
 
 	// countComparator sort heap descendingly by `Count` field of TMerge struct
+	// and, for equal counts, ascendingly by `Pair`
 	countComparator := func(a, b interface{}) int {
 		c1 := a.(TMerge).Count
 		c2 := b.(TMerge).Count
 
 		if c1 == c2 {
-			aTime := a.(TMerge).Time
-			bTime := b.(TMerge).Time
+			aPair := a.(TMerge).Pair
+			bPair := b.(TMerge).Pair
+			if aPair.C1 != bPair.C1 {
+				return utils.IntComparator(aPair.C1, bPair.C1)
+			}
 
-			return utils.TimeComparator(bTime, aTime)
+			return utils.IntComparator(aPair.C2, bPair.C2)
 		}
 
 		return utils.IntComparator(c2, c1)
-- 
2.43.0


From 3ce617741a08dbeb5c89824e8f82de8b5a69c0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:02 +0000
Subject: [PATCH 050/105] fix: BPE adds the continuing subword prefix after the
 first character and the suffix to the last

---
 model/bpe/bpe.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index f2259d6..444cf25 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -384,15 +384,16 @@ func (b *BPE) MergeWord(w string) *Word {
 		)
 		byteLen = len(string(r))
 
-		// if first rune, add prefix
-		if byteIdx == 0 {
-			s = fmt.Sprintf("%v%v", prefix, string(r))
-		} else if currRuneIdx == len(chars) { // last rune, add suffix
-			s = fmt.Sprintf("%v%v", string(r), suffix)
-		} else { // the rest
-			s = string(r)
+		s = string(r)
+		// every rune but the first continues the word, add prefix
+		if byteIdx > 0 {
+			s = prefix + s
 		}
 		currRuneIdx++
+		// last rune, add suffix
+		if currRuneIdx == len(chars) {
+			s = s + suffix
+		}
 
 		// If `s` exists in vocab, add its id, otherwise add id of `unk`
 		vocab := *b.Vocab
-- 
2.43.0


From e2aa7c215f6fc20b37048c8c8bbb2c94e7723213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:30 +0000
Subject: [PATCH 051/105] fix: Word.Merge reports the pair formed after a merge
 at the start of a word

---
 model/bpe/word.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/bpe/word.go b/model/bpe/word.go
index 17354f5..ff35d17 100644
--- a/model/bpe/word.go
+++ b/model/bpe/word.go
@@ -227,7 +227,7 @@ func (w *Word) Merge(c1, c2, replacement int) ([]WChange, error) {
 			}
 
 			// If there are other `chars` after the pair
-			if i > 0 && i < len(w.Symbols)-1 {
+			if i < len(w.Symbols)-1 {
 				// fmt.Println("Yes, there some char after the pair")
 				changes = append(changes, WChange{
 					C1:     second.C,
-- 
2.43.0


From bcb705b173ab9b7c5f1a5f3bfe6062c62be0df94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:38 +0000
Subject: [PATCH 052/105] fix: BPE training uses the current count and all
 words of a pair

---
 model/bpe/trainer.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index bd56f13..eed0cd3 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -673,6 +673,9 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 
 	var queue = binaryheap.NewWith(countComparator)
 
+	// positions are all words a pair was found or formed in
+	var positions map[Pair]UintSet = whereToUpdate
+
 	// insert them to the queue
 	for pair, pos := range whereToUpdate {
 		if count, ok := pairCounts[pair]; ok {
@@ -732,7 +735,7 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 		// fmt.Printf("Top: count = %v | pair: %v\n", top.Count, top.Pair)
 
 		if top.Count != pairCounts[top.Pair] {
-			pairCounts[top.Pair] = top.Count
+			top.Count = pairCounts[top.Pair]
 			queue.Push(top)
 			// fmt.Println("Not found. Push new one...")
 
@@ -744,6 +747,9 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 			break
 		}
 
+		// The pair may have been formed in other words since it was queued
+		top.Pos = positions[top.Pair]
+
 		// If `pair` is no longer mapped in its origin word, skip merging
 		var skip bool = true
 		for p, _ := range top.Pos {
@@ -809,20 +815,17 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 		// NOTE: reset `whereToUpdate` first
 		whereToUpdate = make(map[Pair]UintSet)
 		for _, tc := range changes {
-			if tc.WChange.Change > 0 {
-				count := tc.WChange.Change * counts[tc.WIndex]
+			count := tc.WChange.Change * counts[tc.WIndex]
 
-				pair := Pair{tc.WChange.C1, tc.WChange.C2}
+			pair := Pair{tc.WChange.C1, tc.WChange.C2}
 
-				if _, ok := pairCounts[pair]; !ok {
-					pairCounts[pair] = count
-					// fmt.Printf("pair: %v - count: %v\n", pair, count)
-				} else {
-					c, _ := pairCounts[pair]
-					c += count
-					pairCounts[pair] = c
-					// fmt.Printf("pair: %v - count: %v\n", pair, c)
+			pairCounts[pair] += count
+
+			if tc.WChange.Change > 0 {
+				if _, ok := positions[pair]; !ok {
+					positions[pair] = make(map[int]struct{})
 				}
+				positions[pair][tc.WIndex] = struct{}{}
 
 				var hs UintSet = make(map[int]struct{})
 				if h, ok := whereToUpdate[pair]; !ok {
-- 
2.43.0


From e723b93960e1437c8895e622a29459ac6556b17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:28 +0000
Subject: [PATCH 053/105] fix: a limited BPE alphabet keeps the most frequent
 characters

---
 model/bpe/trainer.go | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index eed0cd3..107d42e 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -208,13 +208,7 @@ func (bt *BpeTrainer) computeAlphabet(wc map[string]int) (wordToId map[string]in
 	for word, count := range wc {
 		chars := strings.Split(word, "")
 		for _, char := range chars {
-			// if char not existing, newCount will be zero
-			if newCount, ok := alphabet[char]; ok {
-				newCount += count
-				alphabet[char] = newCount
-			} else {
-				alphabet[char] = newCount
-			}
+			alphabet[char] += count
 		}
 	}
 
@@ -257,13 +251,12 @@ func (bt *BpeTrainer) computeAlphabet(wc map[string]int) (wordToId map[string]in
 	// remove the unwanted `chars`
 	if toRemove > 0 {
 		fmt.Println("We are going to remove some chars...")
-		// 1. Sort `kept` by char alphabetically?
-		// TODO: double-check this (sort by char or freq? asc or desc)
-		sort.Slice(kept, func(i, j int) bool {
-			return kept[i].Char < kept[j].Char
+		// 1. Sort `kept` by frequency, least frequent first
+		sort.SliceStable(kept, func(i, j int) bool {
+			return kept[i].Freq < kept[j].Freq
 		})
 		// 2. Remove the unwanted chars
-		kept = kept[:toRemove]
+		kept = kept[toRemove:]
 	}
 
 	// // Keep the initial alphabet (sorted by determinism)
-- 
2.43.0


From c09ece6afdfc31d4949666d5858684c19ec5bef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:52 +0000
Subject: [PATCH 054/105] fix: special tokens are part of a trained BPE
 vocabulary

---
 model/bpe/trainer.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index 107d42e..0f08a43 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -187,23 +187,21 @@ func (bt *BpeTrainer) updateProgress(p interface{}, len int, msg string) {
 }
 
 // addSpecialTokens adds the provided special tokens to the initial vocabulary
-func (bt *BpeTrainer) addSpecialTokens(w2id map[string]int, id2w []string) {
+func (bt *BpeTrainer) addSpecialTokens(w2id map[string]int, id2w []string) []string {
 	for _, tok := range bt.SpecialTokens {
 		if _, ok := w2id[tok.Content]; !ok {
 			id2w = append(id2w, tok.Content)
 			w2id[tok.Content] = len(id2w) - 1
 		}
 	}
+
+	return id2w
 }
 
 // computeAlphabet generate maps of `chars` from input words and limit it if relevant
-func (bt *BpeTrainer) computeAlphabet(wc map[string]int) (wordToId map[string]int, IdToWord []string) {
+func (bt *BpeTrainer) computeAlphabet(wc map[string]int, w2id map[string]int, id2w []string) (wordToId map[string]int, IdToWord []string) {
 	// compute the alphabet from seen words
-	var (
-		alphabet map[string]int = make(map[string]int)
-		w2id     map[string]int = make(map[string]int)
-		id2w     []string
-	)
+	var alphabet map[string]int = make(map[string]int)
 
 	for word, count := range wc {
 		chars := strings.Split(word, "")
@@ -605,13 +603,13 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 
 	// 1. Add all special tokens to the vocabular
 	fmt.Printf("1. Adding special tokens...\n")
-	bt.addSpecialTokens(wordToId, idToWord)
+	idToWord = bt.addSpecialTokens(wordToId, idToWord)
 
 	// 2. Compute the initial alphabet (create maps of `chars`)
 	// These maps will be updated if `prefix`, `suffix` are added
 	// in the following steps
 	fmt.Printf("2. Creating maps of 'chars'...\n")
-	wordToId, idToWord = bt.computeAlphabet(wordCounts)
+	wordToId, idToWord = bt.computeAlphabet(wordCounts, wordToId, idToWord)
 	// fmt.Printf("Before id2Word: length %v - values:  %v\n", len(idToWord), idToWord)
 	// fmt.Printf("Before word2Id: length %v - %v\n", len(wordToId), wordToId)
 
-- 
2.43.0


From cd6541fd544ea73f450e6ff85d7c6ecacc6fc0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:02 +0000
Subject: [PATCH 055/105] fix: BPE training marks characters with the prefix
 and suffix themselves

---
 model/bpe/trainer.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index 0f08a43..7ca73d1 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -312,22 +312,16 @@ func (bt *BpeTrainer) tokenizeWords(wc map[string]int, w2id map[string]int, id2w
 			var s string
 			if _, ok := w2id[c]; ok {
 				// Add the `continuingSubwordPrefix` if relevant
-				if i == 0 { // first `char`
+				s = c
+				if i > 0 { // not the first `char`
 					if prefix := bt.ContinuingSubwordPrefix; prefix != nil {
-						s = fmt.Sprintf("%v%v", &prefix, c)
-					} else {
-						s = c
+						s = *prefix + s
 					}
 				}
-				if i > 0 && i < len(chars)-1 {
-					s = c
-				}
 				// Add the `endOfWordSuffix` if relevant
 				if i == len(chars)-1 { // last `char`
 					if suffix := bt.EndOfWordSuffix; suffix != nil {
-						s = fmt.Sprintf("%v%v", &suffix, c)
-					} else {
-						s = c
+						s = s + *suffix
 					}
 				}
 
-- 
2.43.0


From 8f548dc98dce01c3e4ffc990ed0626fb1152fce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:11 +0000
Subject: [PATCH 056/105] fix: BPE training on many words counts the pairs of
 all of them

---
 model/bpe/trainer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index 7ca73d1..86fe574 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -412,7 +412,7 @@ func (bt *BpeTrainer) countPairs(words []Word, counts []int, progress interface{
 
 				// fmt.Printf("Word: %v\n", word)
 				var window = 2
-				for x := 0; i < len(word.Symbols)-1; x += window - 1 {
+				for x := 0; x < len(word.Symbols)-1; x += window - 1 {
 					y := x + window
 					if y > len(word.Symbols) {
 						// TODO: should we stop when last chunk < chunk size or we just return it
@@ -474,7 +474,13 @@ func (bt *BpeTrainer) countPairs(words []Word, counts []int, progress interface{
 			}
 
 			for pair, hashSet := range res.WT {
-				whereToUpdate[pair] = hashSet
+				if _, ok := whereToUpdate[pair]; !ok {
+					whereToUpdate[pair] = hashSet
+					continue
+				}
+				for i := range hashSet {
+					whereToUpdate[pair][i] = struct{}{}
+				}
 			}
 		}
 
-- 
2.43.0


From cdeb49491a67f426babacb7b96d2dffec1e67565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:17 +0000
Subject: [PATCH 057/105] fix: offsets of WordPiece tokens are in bytes as
 those of other models

---
 model/wordpiece/wordpiece.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/model/wordpiece/wordpiece.go b/model/wordpiece/wordpiece.go
index b11c025..703234d 100644
--- a/model/wordpiece/wordpiece.go
+++ b/model/wordpiece/wordpiece.go
@@ -257,8 +257,14 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 
 	var outputTokens []tokenizer.Token
 
-	chars := []rune(sequence)
-	charLen := len(chars)
+	// byte offsets of the characters, and the end of the last one
+	var bounds []int
+	for i := range sequence {
+		bounds = append(bounds, i)
+	}
+	charLen := len(bounds)
+	bounds = append(bounds, len(sequence))
+
 	if charLen > wp.maxInputCharsPerWord {
 		id, ok := (*wp.vocab)[wp.unkToken]
 		if !ok {
@@ -268,7 +274,7 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 		token := tokenizer.Token{
 			Value:   wp.unkToken,
 			Id:      id,
-			Offsets: []int{0, charLen},
+			Offsets: []int{0, len(sequence)},
 		}
 		outputTokens = append(outputTokens, token)
 
@@ -286,7 +292,7 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 		var currStr *tokenizer.Token
 
 		for start < end {
-			substr := string(chars[start:end])
+			substr := sequence[bounds[start]:bounds[end]]
 			if start > 0 {
 				substr = fmt.Sprintf("%v%v", wp.continueSubwordPrefix, substr)
 			}
@@ -295,7 +301,7 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 				currStr = &tokenizer.Token{
 					Id:      id,
 					Value:   substr,
-					Offsets: []int{start, end},
+					Offsets: []int{bounds[start], bounds[end]},
 				}
 
 				break
@@ -320,7 +326,7 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 		token := tokenizer.Token{
 			Value:   wp.unkToken,
 			Id:      id,
-			Offsets: []int{0, charLen},
+			Offsets: []int{0, len(sequence)},
 		}
 
 		outputTokens = append(outputTokens, token)
-- 
2.43.0


From 086af6b31106463261928b947c3e0d6c31f8ce47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:25 +0000
Subject: [PATCH 058/105] fix: an unknown word becomes the unknown token of a
 word-level model

---
 model/wordlevel/wordlevel.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/model/wordlevel/wordlevel.go b/model/wordlevel/wordlevel.go
index 979e988..20e7ed5 100644
--- a/model/wordlevel/wordlevel.go
+++ b/model/wordlevel/wordlevel.go
@@ -159,11 +159,12 @@ func (wl *WordLevel) Tokenize(token string) ([]tokenizer.Token, error) {
 		ok, unkOk bool
 	)
 
+	value := token
 	id, ok = wl.vocab[token]
 	if !ok {
+		value = wl.unkToken
 		id, unkOk = wl.vocab[wl.unkToken]
 		if !unkOk {
-			fmt.Printf("token: %q\n", token)
 			err := fmt.Errorf("Missing 'unk' token in vocab.\n")
 			return nil, err
 		}
@@ -171,7 +172,7 @@ func (wl *WordLevel) Tokenize(token string) ([]tokenizer.Token, error) {
 
 	output = append(output, tokenizer.Token{
 		Id:      id,
-		Value:   token,
+		Value:   value,
 		Offsets: []int{0, len(token)},
 	})
 
-- 
2.43.0


From 329bbfe8ccdbf6b9f784bf7a6332305894c99e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:33 +0000
Subject: [PATCH 059/105] fix: unigram segmentation maximises the sum of
 scores, without a bonus for length

---
 model/unigram/unigram.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/model/unigram/unigram.go b/model/unigram/unigram.go
index e66087a..2afeb58 100644
--- a/model/unigram/unigram.go
+++ b/model/unigram/unigram.go
@@ -366,13 +366,8 @@ func (u *Unigram) tokenizeWithViterbi(sequence string) ([]string, error) {
 			// If the token is in the vocabulary, use its score
 			score := u.vocab[id].Score
 
-			// Add a bonus for longer tokens to match the Rust implementation
-			// This helps prioritize longer tokens like "ab" over "a" + "b"
-			tokenLength := j - i
-			lengthBonus := float64(tokenLength) * 0.1
-
 			// Calculate the new score for this path
-			newScore := lattice[i].bestScore + score + lengthBonus
+			newScore := lattice[i].bestScore + score
 
 			// If this is a better path to position j, update the lattice
 			if newScore > lattice[j].bestScore {
-- 
2.43.0


From 4ca6dcf0ce1b486b589f8210f6fe848b2833ae51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:42 +0000
Subject: [PATCH 060/105] fix: unigram tokens longer than 20 bytes are found

---
 model/unigram/unigram.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/model/unigram/unigram.go b/model/unigram/unigram.go
index 2afeb58..53bebf8 100644
--- a/model/unigram/unigram.go
+++ b/model/unigram/unigram.go
@@ -39,6 +39,7 @@ type Config struct {
 type Unigram struct {
 	vocab         []TokenScore
 	tokenToIDs    map[string]int
+	maxLen        int // bytes of the longest token
 	unkID         *int
 	bytesFallback bool
 	fuseUnk       bool
@@ -92,8 +93,12 @@ func (ub *UnigramBuilder) FuseUnk(fuseUnk bool) *UnigramBuilder {
 func (ub *UnigramBuilder) Build() (*Unigram, error) {
 	// Create token to ID mapping
 	tokenToIDs := make(map[string]int, len(ub.config.vocab))
+	maxLen := 0
 	for i, ts := range ub.config.vocab {
 		tokenToIDs[ts.Token] = i
+		if len(ts.Token) > maxLen {
+			maxLen = len(ts.Token)
+		}
 	}
 
 	// Validate unkID if provided
@@ -106,6 +111,7 @@ func (ub *UnigramBuilder) Build() (*Unigram, error) {
 	return &Unigram{
 		vocab:         ub.config.vocab,
 		tokenToIDs:    tokenToIDs,
+		maxLen:        maxLen,
 		unkID:         ub.config.unkID,
 		bytesFallback: ub.config.bytesFallback,
 		fuseUnk:       ub.config.fuseUnk,
@@ -332,8 +338,7 @@ func (u *Unigram) tokenizeWithViterbi(sequence string) ([]string, error) {
 		}
 
 		// Try all possible tokens starting at this position
-		// Limit the maximum token length to 20 characters for efficiency
-		maxLen := 20
+		maxLen := u.maxLen
 		if i+maxLen > n {
 			maxLen = n - i
 		}
-- 
2.43.0


From 4450be02f655127449278c33c98bf3b521137950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:50 +0000
Subject: [PATCH 061/105] fix: an invalid byte is one unknown character of a
 unigram text

---
 model/unigram/unigram.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/model/unigram/unigram.go b/model/unigram/unigram.go
index 53bebf8..895d6b8 100644
--- a/model/unigram/unigram.go
+++ b/model/unigram/unigram.go
@@ -349,8 +349,7 @@ func (u *Unigram) tokenizeWithViterbi(sequence string) ([]string, error) {
 		// Get the length of the current character in UTF-8
 		charLen := 1
 		if i < n {
-			r, _ := utf8.DecodeRuneInString(sequence[i:])
-			charLen = utf8.RuneLen(r)
+			_, charLen = utf8.DecodeRuneInString(sequence[i:])
 		}
 
 		// Try to match tokens of all lengths
-- 
2.43.0


From 39a8e295638f213fd3de60a0b5828a8106a3e9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:55 +0000
Subject: [PATCH 062/105] fix: byte fallback applies to the unknown characters
 of a unigram text only

---
 model/unigram/unigram.go | 106 ++++++++++++++++++---------------------
 1 file changed, 48 insertions(+), 58 deletions(-)

diff --git a/model/unigram/unigram.go b/model/unigram/unigram.go
index 895d6b8..1720519 100644
--- a/model/unigram/unigram.go
+++ b/model/unigram/unigram.go
@@ -248,15 +248,7 @@ func (u *Unigram) Tokenize(sequence string) ([]tokenizer.Token, error) {
 	data, ok := u.cache.Get(sequence)
 	if ok {
 		tokens := data.([]string)
-		return u.tokensToTokenizer(tokens, sequence), nil
-	}
-
-	// If byte fallback is enabled, always use it
-	if u.bytesFallback {
-		tokens := u.tokenizeWithByteFallback(sequence)
-		u.cache.Set(sequence, tokens, CacheExpiredTime*time.Minute)
-
-		return u.tokensToTokenizer(tokens, sequence), nil
+		return u.tokensToTokenizer(tokens)
 	}
 
 	// Tokenize using the Viterbi algorithm
@@ -264,40 +256,71 @@ func (u *Unigram) Tokenize(sequence string) ([]tokenizer.Token, error) {
 	if err != nil {
 		return nil, err
 	}
-	u.cache.Set(sequence, tokens, CacheExpiredTime)
+	u.cache.Set(sequence, tokens, CacheExpiredTime*time.Minute)
 
-	return u.tokensToTokenizer(tokens, sequence), nil
+	return u.tokensToTokenizer(tokens)
 }
 
 // tokensToTokenizer converts string tokens to tokenizer.Token
-func (u *Unigram) tokensToTokenizer(tokens []string, sequence string) []tokenizer.Token {
+//
+// With byte fallback, a token not in the vocabulary becomes its bytes if all of them are.
+func (u *Unigram) tokensToTokenizer(tokens []string) ([]tokenizer.Token, error) {
 	var result []tokenizer.Token
 	var offset int
 
 	for _, token := range tokens {
 		length := len(token)
+		value := token
 		id, ok := u.TokenToId(token)
 		if !ok {
+			if u.bytesFallback {
+				if bytes, ok := u.byteTokens(token, offset); ok {
+					result = append(result, bytes...)
+					offset += length
+					continue
+				}
+			}
+
 			// Handle unknown token
-			if u.unkID != nil {
-				id = *u.unkID
-			} else {
-				// Skip if no unkID is defined
-				offset += length
-				continue
+			if u.unkID == nil {
+				return nil, fmt.Errorf("%q is not in the vocabulary and there is no unknown token", token)
+			}
+			id = *u.unkID
+			if u.bytesFallback {
+				value, _ = u.IdToToken(id)
 			}
 		}
 
 		result = append(result, tokenizer.Token{
 			Id:      id,
-			Value:   token,
+			Value:   value,
 			Offsets: []int{offset, offset + length},
 		})
 
 		offset += length
 	}
 
-	return result
+	return result, nil
+}
+
+// byteTokens gives the tokens of the bytes of a text at the given offset, if all of them
+// are in the vocabulary. Each covers the whole text.
+func (u *Unigram) byteTokens(text string, offset int) ([]tokenizer.Token, bool) {
+	var result []tokenizer.Token
+	for _, b := range []byte(text) {
+		token := fmt.Sprintf("<0x%02X>", b)
+		id, ok := u.TokenToId(token)
+		if !ok {
+			return nil, false
+		}
+		result = append(result, tokenizer.Token{
+			Id:      id,
+			Value:   token,
+			Offsets: []int{offset, offset + len(text)},
+		})
+	}
+
+	return result, true
 }
 
 // tokenizeWithViterbi implements the Viterbi algorithm for tokenization
@@ -388,14 +411,17 @@ func (u *Unigram) tokenizeWithViterbi(sequence string) ([]string, error) {
 
 		// If we haven't found a single character token and we have an unknown token ID,
 		// add an unknown token for this character
-		if !hasSingleNode && u.unkID != nil {
+		if !hasSingleNode && (u.unkID != nil || u.bytesFallback) {
 			j := i + charLen
 			if j <= n {
 				newScore := lattice[i].bestScore + unkScore
 				if newScore > lattice[j].bestScore {
 					lattice[j].bestScore = newScore
 					lattice[j].bestIndex = i
-					lattice[j].id = *u.unkID
+					lattice[j].id = -1 // falls back to its bytes
+					if _, ok := u.byteTokens(sequence[i:j], i); u.unkID != nil && !(ok && u.bytesFallback) {
+						lattice[j].id = *u.unkID
+					}
 				}
 			}
 		}
@@ -408,11 +434,6 @@ func (u *Unigram) tokenizeWithViterbi(sequence string) ([]string, error) {
 			return []string{sequence}, nil
 		}
 
-		// If we're using byte fallback, handle it here
-		if u.bytesFallback {
-			return u.tokenizeWithByteFallback(sequence), nil
-		}
-
 		return nil, fmt.Errorf("could not tokenize sequence with Viterbi algorithm")
 	}
 
@@ -478,34 +499,3 @@ func (u *Unigram) tokenizeWithViterbi(sequence string) ([]string, error) {
 		return tokens, nil
 	}
 }
-
-// tokenizeWithByteFallback tokenizes a string by representing each byte as a separate token
-func (u *Unigram) tokenizeWithByteFallback(sequence string) []string {
-	var tokens []string
-
-	// Convert the string to bytes
-	bytes := []byte(sequence)
-
-	// For each byte, create a token in the format "<0xXX>"
-	for _, b := range bytes {
-		// Format the byte as a token
-		token := fmt.Sprintf("<0x%02X>", b)
-
-		// Check if the token is in the vocabulary
-		_, ok := u.TokenToId(token)
-		if ok {
-			// If the token is in the vocabulary, use it
-			tokens = append(tokens, token)
-		} else if u.unkID != nil {
-			// If the token is not in the vocabulary and we have an unknown token ID,
-			// use the unknown token
-			unkToken, _ := u.IdToToken(*u.unkID)
-			tokens = append(tokens, unkToken)
-		} else {
-			// If we don't have an unknown token ID, use the byte token format
-			tokens = append(tokens, token)
-		}
-	}
-
-	return tokens
-}
-- 
2.43.0


From 6fdf1734ff01aedc33fe6b371c8dec1e94d6bf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:46 +0000
Subject: [PATCH 063/105] fix: characters after removed leading ones keep their
 own alignments

---
 normalizer/normalized.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index bf11e5e..4ecbe7e 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -558,7 +558,7 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 		normalizedRunes []rune
 	)
 
-	replacedNormalized.Reset() // make sure iterating from begining
+	// the characters removed initially are consumed already
 	for _, item := range changeMap {
 		/*
 		 *     var changeType string
-- 
2.43.0


From eec896c482a2afbe953779f8eace9bb355b42a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:55 +0000
Subject: [PATCH 064/105] fix: Map applies its function

---
 normalizer/normalized.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 4ecbe7e..7f2869b 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -1124,7 +1124,7 @@ func (n *NormalizedString) Map(nfn NormFn) (retVal *NormalizedString) {
 	s := n.normalized
 	var changeMap []ChangeMap
 	for _, r := range []rune(s) {
-		changeMap = append(changeMap, ChangeMap{string(r), 0})
+		changeMap = append(changeMap, ChangeMap{string(nfn(r)), 0})
 	}
 
 	return n.Transform(changeMap, 0)
-- 
2.43.0


From e6beac2777854447181a69431516afcb68eb1fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:06 +0000
Subject: [PATCH 065/105] fix: changing case keeps the alignments in step with
 the text

---
 normalizer/normalized.go | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 7f2869b..6bcec27 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -3,7 +3,6 @@ package normalizer
 import (
 	"bytes"
 	"log"
-	"strings"
 	"unicode"
 	"unicode/utf8"
 
@@ -1133,14 +1132,7 @@ func (n *NormalizedString) Map(nfn NormFn) (retVal *NormalizedString) {
 // ForEach applies function on each `char` of normalized string
 // Similar to Map???
 func (n *NormalizedString) ForEach(nfn NormFn) (retVal *NormalizedString) {
-	s := n.normalized
-	var runes []rune
-	for _, r := range []rune(s) {
-		runes = append(runes, nfn(r))
-	}
-	n.normalized = string(runes)
-
-	return n
+	return n.Map(nfn)
 }
 
 // RemoveAccents removes all Unicode Mn group (M non-spacing)
@@ -1152,16 +1144,12 @@ func (n *NormalizedString) RemoveAccents() (retVal *NormalizedString) {
 
 // Lowercase transforms string to lowercase
 func (n *NormalizedString) Lowercase() (retVal *NormalizedString) {
-	n.normalized = strings.ToLower(n.normalized)
-
-	return n
+	return n.Map(unicode.ToLower)
 }
 
 // Uppercase transforms string to uppercase
 func (n *NormalizedString) Uppercase() (retVal *NormalizedString) {
-	n.normalized = strings.ToUpper(n.normalized)
-
-	return n
+	return n.Map(unicode.ToUpper)
 }
 
 // Clear clears the normalized part of the string
-- 
2.43.0


From 5ac8f8393901f90cbe626ed4850e80c6ebd7cf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:47 +0000
Subject: [PATCH 066/105] fix: Clear removes as many characters as there are,
 not as many as bytes

---
 normalizer/normalized.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 6bcec27..57cbca0 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -1154,8 +1154,7 @@ func (n *NormalizedString) Uppercase() (retVal *NormalizedString) {
 
 // Clear clears the normalized part of the string
 func (n *NormalizedString) Clear() {
-	length := n.Len()
-	n.Transform([]ChangeMap{}, length)
+	n.Transform([]ChangeMap{}, len([]rune(n.normalized)))
 }
 
 // Split the current string in many subparts. Specify what to do with the
-- 
2.43.0


From e73617754fbb02718802e54a7e9bcb0ecdc92e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:58 +0000
Subject: [PATCH 067/105] fix: prepending nothing keeps the alignment of the
 first character

---
 normalizer/normalized.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 57cbca0..2fa5385 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -1072,7 +1072,7 @@ func (n *NormalizedString) Filter(fn func(rune) bool) (retVal *NormalizedString)
 func (n *NormalizedString) Prepend(s string) (retVal *NormalizedString) {
 	chars := []rune(n.normalized)
 	var changeMap []ChangeMap
-	if len(chars) == 0 {
+	if len(chars) == 0 || s == "" {
 		return n
 	}
 
-- 
2.43.0


From 3a6058cb3bcdcb3241996ed102b54d9f3aff5a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:48 +0000
Subject: [PATCH 068/105] fix: Transform covers the whole normalized text after
 earlier changes

---
 normalizer/normalized.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 2fa5385..1e7c424 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -856,9 +856,7 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 // {5, 6},
 // {6, 7},
 func (n *NormalizedString) Transform(m []ChangeMap, initialOffset int) (retVal *NormalizedString) {
-	start := 0
-	end := len(n.original)
-	wholeRange := NewRange(start, end, OriginalTarget)
+	wholeRange := NewRange(0, len(n.normalized), NormalizedTarget)
 	return n.TransformRange(wholeRange, m, initialOffset)
 }
 
-- 
2.43.0


From 7db62de5053523217b450888226c668005375f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:12 +0000
Subject: [PATCH 069/105] fix: a precompiled replacement marks only the
 characters it adds

---
 normalizer/precompiled.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/normalizer/precompiled.go b/normalizer/precompiled.go
index 9afd0a6..2f20550 100644
--- a/normalizer/precompiled.go
+++ b/normalizer/precompiled.go
@@ -26,14 +26,11 @@ func replace(transformations []ChangeMap, oldPart, newPart string) []ChangeMap {
 
 	n := len(transformations)
 	switch {
-	case diff > 0:
-		// If adding some characters, the last diff characters should be == 1
-		for i := n - 1; i >= diff || i >= 0; i-- {
+	case diff > 0: // the last `diff` characters are added
+		for i := n - diff; i < n; i++ {
 			transformations[i].Changes = 1
 		}
-	case diff < 0:
-		// If removing some characters, the last one should include the diff
-		n := len(transformations)
+	case diff < 0 && n > 0: // the last one includes the removed characters
 		transformations[n-1].Changes += diff
 	}
 
-- 
2.43.0


From 7a68adfa5d3584b3359a447eb658dc656f7ff148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:21 +0000
Subject: [PATCH 070/105] fix: precompiled normalization does not align all
 text with its end

---
 normalizer/precompiled.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/normalizer/precompiled.go b/normalizer/precompiled.go
index 2f20550..76c5ff9 100644
--- a/normalizer/precompiled.go
+++ b/normalizer/precompiled.go
@@ -44,10 +44,7 @@ type Precompiled struct {
 // Implement Normalizer for spm.Precompiled
 func (m *Precompiled) Normalize(normalized *NormalizedString) (*NormalizedString, error) {
 	original := normalized.GetNormalized()
-	var transformations []ChangeMap
-	for i := 0; i < len(original); i++ {
-		transformations = append(transformations, ChangeMap{})
-	}
+	transformations := make([]ChangeMap, 0, len(original))
 
 	graphemes := uniseg.NewGraphemes(original)
 
-- 
2.43.0


From 27bce1f7c197f68f77193908540a527f72f8c821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:59 +0000
Subject: [PATCH 071/105] fix: precompiled normalization looks up each
 character and leaves combining marks as they are

---
 normalizer/precompiled.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/normalizer/precompiled.go b/normalizer/precompiled.go
index 76c5ff9..582a39a 100644
--- a/normalizer/precompiled.go
+++ b/normalizer/precompiled.go
@@ -63,14 +63,9 @@ func (m *Precompiled) Normalize(normalized *NormalizedString) (*NormalizedString
 			}
 		}
 
-		// TT. This is a hacky way to turn non-spacing marks into hexa string
-		// and pass the unit tests.
-		grapheme = spm.NormalizeMn(grapheme)
-		var charIdx int = 0
 		for _, r := range grapheme {
-			part := string(grapheme)[charIdx : charIdx+len(string(r))]
+			part := string(r)
 			norm := m.Transform(part)
-			norm = spm.NormalizeMn(norm)
 			if len(norm) > 0 {
 				modified = true
 				transformations = replace(transformations, part, norm)
@@ -81,7 +76,6 @@ func (m *Precompiled) Normalize(normalized *NormalizedString) (*NormalizedString
 				}
 				transformations = append(transformations, t)
 			}
-			// charIdx += len(string(r))
 		}
 	}
 
-- 
2.43.0


From 0cb0052e74ab60848c1432f6e0a9ddf960805418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:09 +0000
Subject: [PATCH 072/105] fix: precompiled normalization of a string does not
 stop at its first replacement

---
 spm/spm-precompiled.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spm/spm-precompiled.go b/spm/spm-precompiled.go
index 08050ef..7a6db31 100644
--- a/spm/spm-precompiled.go
+++ b/spm/spm-precompiled.go
@@ -207,7 +207,7 @@ func (m *Precompiled) NormalizeString(original string) string {
 				for _, c := range strings.Split(norm, "") {
 					chars = append(chars, c)
 				}
-				return strings.Join(chars, "")
+				continue
 			}
 		}
 
-- 
2.43.0


From c3cd0207f8e604a27a56378abff5a1614991d599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:19 +0000
Subject: [PATCH 073/105] fix: each Unicode normalization form applies its own
 form and returns a string

---
 normalizer/normalized.go | 165 ++++++++-------------------------------
 1 file changed, 33 insertions(+), 132 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 1e7c424..01cff43 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -860,98 +860,31 @@ func (n *NormalizedString) Transform(m []ChangeMap, initialOffset int) (retVal *
 	return n.TransformRange(wholeRange, m, initialOffset)
 }
 
+// NFD applies the Unicode normalization form NFD.
 func (n *NormalizedString) NFD() (retVal *NormalizedString) {
-
-	s := n.normalized
-	var (
-		changeMap []ChangeMap
-		it        norm.Iter
-	)
-	// Create slice of (char, changes) to map changing
-	// if added (inserted) rune, changes = 1; `-N` if char
-	// right before N removed chars
-	// changes = 0 if this represents the old one (even if changed)
-
-	// Iterating over string and apply tranformer (NFD). One character at a time
-	// A `character` is defined as:
-	// - a sequence of runes that starts with a starter,
-	// - a rune that does not modify or combine backwards with any other rune,
-	// - followed by possibly empty sequence of non-starters, that is, runes that do (typically accents).
-	// We will iterate over string and apply transformer to each char
-	// If a char composes of one rune, there no changes
-	// If more than one rune, first is no change, the rest is 1 changes
-	it.InitString(norm.NFD, s)
-	for !it.Done() {
-		// runes := []rune(string(it.Next()))
-		runes := bytes.Runes(it.Next())
-
-		for i, r := range runes {
-			switch i := i; {
-			case i == 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 0,
-				})
-			case i > 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 1,
-				})
-			}
-		}
-	}
-
-	// for i, c := range changeMap {
-	// fmt.Printf("%v - Char: %+q - changes: %v\n", i, c.RuneVal, c.Changes)
-	// }
-
-	return n.Transform(changeMap, 0)
+	return n.normalizeForm(norm.NFD)
 }
 
+// NFC applies the Unicode normalization form NFC.
 func (n *NormalizedString) NFC() (retVal *NormalizedString) {
-	var (
-		changeMap []ChangeMap
-		it        norm.Iter
-	)
-
-	s := n.normalized
-
-	isNFC := norm.Form.IsNormalString(norm.NFC, s)
-	if isNFC {
-		return n
-	}
-
-	it.InitString(norm.NFD, s)
-
-	for !it.Done() {
-		// runes := []rune(string(it.Next()))
-		runes := bytes.Runes(it.Next())
-
-		for i, r := range runes {
-			switch i := i; {
-			case i == 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 0,
-				})
-			case i > 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 1,
-				})
-			}
-		}
-	}
-
-	return n.Transform(changeMap, 0)
+	return n.normalizeForm(norm.NFC)
 }
 
+// NFKD applies the Unicode normalization form NFKD.
 func (n *NormalizedString) NFKD() (retVal *NormalizedString) {
+	return n.normalizeForm(norm.NFKD)
+}
 
+// NFKC applies the Unicode normalization form NFKC.
+func (n *NormalizedString) NFKC() (retVal *NormalizedString) {
+	return n.normalizeForm(norm.NFKC)
+}
+
+// normalizeForm applies a Unicode normalization form.
+func (n *NormalizedString) normalizeForm(form norm.Form) *NormalizedString {
 	s := n.normalized
-	isNFKD := norm.Form.IsNormalString(norm.NFKD, s)
-	if isNFKD {
-		return
+	if form.IsNormalString(s) {
+		return n
 	}
 
 	var (
@@ -959,59 +892,27 @@ func (n *NormalizedString) NFKD() (retVal *NormalizedString) {
 		it        norm.Iter
 	)
 
-	it.InitString(norm.NFKD, s)
+	// Iterate over the text segment by segment. The characters of a segment replace
+	// those it was made from: if there are more they are added (changes = 1), if there
+	// are fewer the last one stands for the rest (changes = -N).
+	it.InitString(form, s)
 	for !it.Done() {
-		runes := []rune(string(it.Next()))
+		start := it.Pos()
+		runes := bytes.Runes(it.Next())
+		for !it.Done() && it.Pos() == start { // a character may have more than one segment
+			runes = append(runes, bytes.Runes(it.Next())...)
+		}
 
+		sources := len([]rune(s[start:it.Pos()]))
 		for i, r := range runes {
-			switch i := i; {
-			case i == 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 0,
-				})
-			case i > 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 1,
-				})
+			changes := 0
+			switch {
+			case i >= sources:
+				changes = 1
+			case i == len(runes)-1:
+				changes = len(runes) - sources
 			}
-		}
-	}
-
-	return n.Transform(changeMap, 0)
-}
-
-func (n *NormalizedString) NFKC() (retVal *NormalizedString) {
-
-	var (
-		changeMap []ChangeMap
-		it        norm.Iter
-	)
-
-	s := n.normalized
-
-	isNFKC := norm.Form.IsNormalString(norm.NFKC, s)
-
-	if isNFKC {
-		return n
-	}
-
-	it.InitString(norm.NFKD, n.normalized)
-
-	for !it.Done() {
-		runes := []rune(string(it.Next()))
-
-		if len(runes) == 1 {
-			changeMap = append(changeMap, ChangeMap{
-				RuneVal: string(runes),
-				Changes: 0,
-			})
-		} else if len(runes) > 1 {
-			changeMap = append(changeMap, ChangeMap{
-				RuneVal: string(runes),
-				Changes: -1,
-			})
+			changeMap = append(changeMap, ChangeMap{RuneVal: string(r), Changes: changes})
 		}
 	}
 
-- 
2.43.0


From eed10b8a1b8068065dd6c0f9d766ab02ee2564dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:28 +0000
Subject: [PATCH 074/105] fix: cleaned text has a space for every whitespace

---
 normalizer/bert.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/normalizer/bert.go b/normalizer/bert.go
index 7adce5e..b07bc35 100644
--- a/normalizer/bert.go
+++ b/normalizer/bert.go
@@ -125,10 +125,10 @@ func doCleanText(n *NormalizedString) *NormalizedString {
 		if r == 0 || r == 0xfffd || isControl(r) {
 			removed += 1
 		} else {
+			if isWhitespace(r) {
+				r = ' '
+			}
 			if removed > 0 {
-				if isWhitespace(r) {
-					r = ' '
-				}
 				changeMap = append(changeMap, ChangeMap{
 					RuneVal: string(r),
 					Changes: -removed,
-- 
2.43.0


From 35174eae938af2eb3c7ab93bedc1c2ec44597f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:37 +0000
Subject: [PATCH 075/105] fix: BERT accent stripping also strips precomposed
 accents

---
 normalizer/bert.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizer/bert.go b/normalizer/bert.go
index b07bc35..d27ddc7 100644
--- a/normalizer/bert.go
+++ b/normalizer/bert.go
@@ -185,7 +185,7 @@ func doLowercase(n *NormalizedString) *NormalizedString {
 }
 
 func stripAccents(n *NormalizedString) *NormalizedString {
-	return n.RemoveAccents()
+	return n.NFD().RemoveAccents()
 }
 
 // Normalize implements Normalizer interface for BertNormalizer
-- 
2.43.0


From 6b109176515a7975b8b6aaef60302b5f381b82d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:47 +0000
Subject: [PATCH 076/105] fix: Prepend of an empty text returns the text

---
 normalizer/prepend.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizer/prepend.go b/normalizer/prepend.go
index 9fef305..88dc61a 100644
--- a/normalizer/prepend.go
+++ b/normalizer/prepend.go
@@ -12,7 +12,7 @@ func NewPrepend(prepend string) *Prepend {
 // Implement Normalizer for Prepend
 func (p *Prepend) Normalize(normalized *NormalizedString) (*NormalizedString, error) {
 	if normalized.IsEmpty() {
-		return nil, nil
+		return normalized, nil
 	}
 
 	return normalized.Prepend(p.Prepend), nil
-- 
2.43.0


From 8e43e20d015d0e7b92f81978e222acd4c3815be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:46 +0000
Subject: [PATCH 077/105] fix: a normalizer made by options applies them

---
 normalizer/normalizer.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/normalizer/normalizer.go b/normalizer/normalizer.go
index 9438fc8..eca9ade 100644
--- a/normalizer/normalizer.go
+++ b/normalizer/normalizer.go
@@ -23,8 +23,7 @@ func newNormalizer(opts ...DefaultOption) *normalizer {
 }
 
 func (n *normalizer) Normalize(normalized *NormalizedString) (*NormalizedString, error) {
-
-	return normalized, nil
+	return n.Normalizer.Normalize(normalized)
 }
 
 type Option func(*normalizer)
@@ -32,14 +31,14 @@ type Option func(*normalizer)
 // WithBertNormalizer creates normalizer with BERT normalization features.
 func WithBertNormalizer(cleanText, lowercase, handleChineseChars, stripAccents bool) Option {
 	return func(o *normalizer) {
-		NewBertNormalizer(cleanText, lowercase, handleChineseChars, stripAccents)
+		o.Normalizer = NewBertNormalizer(cleanText, lowercase, handleChineseChars, stripAccents)
 	}
 }
 
 // WithUnicodeNormalizer creates normalizer with one of unicode NFD, NFC, NFKD, or NFKC normalization feature.
 func WithUnicodeNormalizer(form norm.Form) Option {
 	return func(o *normalizer) {
-		NewUnicodeNormalizer(form)
+		o.Normalizer = NewUnicodeNormalizer(form)
 	}
 
 }
-- 
2.43.0


From 1a3446c671f9b0f510f7c61d95f1db471870a481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:15 +0000
Subject: [PATCH 078/105] fix: slicing an empty range at the end of a text does
 not panic

---
 normalizer/normalized.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 01cff43..3d20507 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -348,8 +348,8 @@ func (n *NormalizedString) validateRange(inputRange *Range) *Range {
 	}
 
 	// Check if r.start is on a rune boundary
-	if r.start != 0 {
-		// If not the very start, verify it's a valid rune boundary
+	if r.start != 0 && r.start != len(s) {
+		// If not at an end, verify it's a valid rune boundary
 		if !utf8.RuneStart(s[r.start]) {
 			return nil
 		}
-- 
2.43.0


From e298871e1533e5c4d6b6d1fe9917be5224d9b0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:25 +0000
Subject: [PATCH 079/105] fix: an empty slice of a text that grew lies within
 its original

---
 normalizer/normalized.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 3d20507..3613843 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -373,6 +373,20 @@ func (n *NormalizedString) Slice(inputRange *Range) (retVal *NormalizedString) {
 		return nil
 	}
 
+	// An empty range may lie outside of the other string, only its position is converted
+	if fullRange.start == fullRange.end {
+		pos := fullRange.start
+		if fullRange.indexOn == NormalizedTarget {
+			switch {
+			case pos < len(n.alignments):
+				pos = n.alignments[pos][0]
+			case len(n.alignments) > 0:
+				pos = n.alignments[len(n.alignments)-1][1]
+			}
+		}
+		return &NormalizedString{originalShift: n.originalShift + pos}
+	}
+
 	// 1. Find range on normalized (nRange) and original string (oRange)
 	var nRange, oRange *Range
 	switch fullRange.indexOn {
-- 
2.43.0


From 95301a2951c9e4e1b4f07be1a84b419e4495cd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:59 +0000
Subject: [PATCH 080/105] fix: removing leading characters of a text that grew
 before does not panic

---
 normalizer/normalized.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 3613843..9fa4e2f 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -782,7 +782,8 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 		// log.Printf("Shifting the end  from %v using shift: %v\n", endShiftStart, oShift)
 
 		var endShift [][]int
-		for _, item := range n.alignments[endShiftStart:] {
+		for i := endShiftStart; i < len(n.alignments); i++ {
+			item := n.alignments[i]
 			endShift = append(endShift, item)
 		}
 		endRange := expandAlignments(endShift)
-- 
2.43.0


From fa0cc3f752d6e879965bfa25dfa6d5ee2dcb88f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:37 +0000
Subject: [PATCH 081/105] fix: recognise the Chinese characters of CJK
 extension A

---
 normalizer/bert.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizer/bert.go b/normalizer/bert.go
index d27ddc7..7a1dc4f 100644
--- a/normalizer/bert.go
+++ b/normalizer/bert.go
@@ -72,8 +72,8 @@ func isPunctuation(c rune) bool {
 var cjk = &unicode.RangeTable{
 
 	R16: []unicode.Range16{
-		{0x4e00, 0x9fff, 1},
 		{0x3400, 0x4dbf, 1},
+		{0x4e00, 0x9fff, 1},
 		{0xf900, 0xfaff, 1},
 	},
 	R32: []unicode.Range32{
-- 
2.43.0


From 60943e750a521b4dd231817e50107df2566d8c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:46 +0000
Subject: [PATCH 082/105] fix: a NUL character takes part in the alignments of
 a normalized text

---
 normalizer/normalized.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 9fa4e2f..70b1ed2 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -610,17 +610,16 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 
 		// If we are replacing a character, find it and compute the change in size
 		var replacedChar rune
+		var hasReplaced bool // the replaced character itself can be '\x00'
 		if item.Changes <= 0 {
-			replacedChar, _ = replacedNormalized.Next()
-		} else {
-			replacedChar = 0 // nil rune value
+			replacedChar, hasReplaced = replacedNormalized.Next()
 		}
 		replacedCharSize := 0
-		if replacedChar > 0 {
+		if hasReplaced {
 			replacedCharSize = len([]byte(string(replacedChar)))
 		}
 		replacedCharSizeChange := len(item.RuneVal) - replacedCharSize
-		if replacedChar > 0 {
+		if hasReplaced {
 			// log.Printf("Replacing char: '%v' - with a change in size: %v", string(replacedChar), replacedCharSizeChange)
 		}
 
-- 
2.43.0


From bf422047a04de423e6184ca77138fa0dc2e308db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:26 +0000
Subject: [PATCH 083/105] fix: default decoders can decode

---
 decoder/bpe.go       | 2 +-
 decoder/ctc.go       | 8 +-------
 decoder/wordpiece.go | 5 +----
 3 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/decoder/bpe.go b/decoder/bpe.go
index 44bfec7..12989b9 100644
--- a/decoder/bpe.go
+++ b/decoder/bpe.go
@@ -29,7 +29,7 @@ func NewBpeDecoder(suffix string) *BpeDecoder {
 
 // DefaultBpeDecoder create a new BpeDecoder with default suffix (`</w>`)
 func DefaultBpeDecoder() *BpeDecoder {
-	return &BpeDecoder{suffix: "</w>"}
+	return NewBpeDecoder("</w>")
 }
 
 /*
diff --git a/decoder/ctc.go b/decoder/ctc.go
index f1f0655..3236e35 100644
--- a/decoder/ctc.go
+++ b/decoder/ctc.go
@@ -30,13 +30,7 @@ func NewCTC(padToken string, wordDelimiterToken string, cleanup bool) *CTC {
 }
 
 func DefaultCTC() *CTC {
-	base := new(DecoderBase)
-	return &CTC{
-		DecoderBase:        base,
-		PadToken:           "<pad>",
-		WordDelimiterToken: "|",
-		Cleanup:            true,
-	}
+	return NewCTC("<pad>", "|", true)
 }
 
 // dedup deduplicates consecutive elements.
diff --git a/decoder/wordpiece.go b/decoder/wordpiece.go
index 8c66b62..37acdc0 100644
--- a/decoder/wordpiece.go
+++ b/decoder/wordpiece.go
@@ -33,10 +33,7 @@ func NewWordPieceDecoder(prefix string, cleanup bool) *WordPieceDecoder {
 
 // DefaultBpeDecoder create a new BpeDecoder with default suffix (`</w>`)
 func DefaultWordpieceDecoder() *WordPieceDecoder {
-	return &WordPieceDecoder{
-		prefix:  "##",
-		cleanup: true,
-	}
+	return NewWordPieceDecoder("##", true)
 }
 
 /*
-- 
2.43.0


From 7ef4bfb56dcdc9b33d8cba49071e925af0f6bef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:34 +0000
Subject: [PATCH 084/105] fix: Strip decoder does not strip more characters
 than there are

---
 decoder/strip.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/strip.go b/decoder/strip.go
index dd428e2..0193298 100644
--- a/decoder/strip.go
+++ b/decoder/strip.go
@@ -36,7 +36,7 @@ func (d *Strip) DecodeChain(tokens []string) []string {
 		chars := strings.Split(token, "")
 
 		startCut := 0
-		for i := 0; i < d.Start; i++ {
+		for i := 0; i < d.Start && i < len(chars); i++ {
 			c := chars[i]
 			if c == d.Content {
 				startCut = i + 1
@@ -47,7 +47,7 @@ func (d *Strip) DecodeChain(tokens []string) []string {
 		}
 
 		stopCut := len(chars)
-		for i := 0; i < d.Stop; i++ {
+		for i := 0; i < d.Stop && len(chars)-i > startCut; i++ {
 			index := len(chars) - i - 1
 			if chars[index] == d.Content {
 				stopCut = index
-- 
2.43.0


From 3ae01bc54d61677b9847f873fcc9a207b7a29e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:41 +0000
Subject: [PATCH 085/105] fix: ByteFallback decoder keeps tokens that only look
 like a byte

---
 decoder/byte-fallback.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/byte-fallback.go b/decoder/byte-fallback.go
index 763f85a..05491a0 100644
--- a/decoder/byte-fallback.go
+++ b/decoder/byte-fallback.go
@@ -43,7 +43,7 @@ func (d *ByteFallback) DecodeChain(tokens []string) []string {
 			// convert hex string to bytes
 			bytes, err = hex.DecodeString(token[3:5])
 			if err != nil {
-				panic(err)
+				bytes = nil // not a byte: the token stands for itself
 			}
 		}
 
-- 
2.43.0


From 5c7b0ec9aa605499437cac26aee39f779bc3d743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:49 +0000
Subject: [PATCH 086/105] fix: byte-level decoding keeps tokens outside of its
 alphabet

---
 pretokenizer/bytelevel.go | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/pretokenizer/bytelevel.go b/pretokenizer/bytelevel.go
index f3e3ff6..39b0807 100644
--- a/pretokenizer/bytelevel.go
+++ b/pretokenizer/bytelevel.go
@@ -229,35 +229,32 @@ var _ tokenizer.Decoder = new(ByteLevel)
 // Decode converts any byte-level characters to their unicode couterpart
 // before merging everything back into a single string
 func (bl *ByteLevel) Decode(tokens []string) string {
-	s := strings.Join(tokens, "")
-	chars := strings.Split(s, "")
-
-	var bytes []byte
-
-	for _, c := range chars {
-		b := CharBytes[c]
-
-		bytes = append(bytes, b)
-	}
-
-	return string(bytes)
+	return strings.Join(bl.DecodeChain(tokens), "")
 }
 
 func (bl *ByteLevel) DecodeChain(tokens []string) []string {
 	out := make([]string, len(tokens))
 	for i, s := range tokens {
-		chars := strings.Split(s, "")
-		var bytes []byte
-		for _, c := range chars {
-			b := CharBytes[c]
+		out[i] = decodeBytes(s)
+	}
 
-			bytes = append(bytes, b)
-		}
+	return out
+}
 
-		out[i] = string(bytes)
+// decodeBytes returns the text of the bytes a token stands for. A token that is
+// not made of characters of the byte-level alphabet (e.g. an added token) is its
+// own text.
+func decodeBytes(token string) string {
+	var bytes []byte
+	for _, r := range token {
+		b, ok := CharBytes[string(r)]
+		if !ok {
+			return token
+		}
+		bytes = append(bytes, b)
 	}
 
-	return out
+	return string(bytes)
 }
 
 // Implement PostProcessor for ByteLevel
-- 
2.43.0


From e0f28681c93feab80eb8aa93c4cfe1e34832ee77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:57 +0000
Subject: [PATCH 087/105] fix: Metaspace does not read its replacement as a
 regular expression

---
 pretokenizer/metaspace.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pretokenizer/metaspace.go b/pretokenizer/metaspace.go
index 7d9606f..4ed5d77 100644
--- a/pretokenizer/metaspace.go
+++ b/pretokenizer/metaspace.go
@@ -98,7 +98,7 @@ func (m *Metaspace) PreTokenize(pretokenized *tokenizer.PreTokenizedString) (*to
 			// Never prepend
 		}
 
-		replacement := normalizer.NewRegexpPattern(m.Replacement)
+		replacement := normalizer.NewStringPattern(m.Replacement)
 		splits = normalized.Split(replacement, normalizer.MergedWithNextBehavior)
 
 		// log.Printf("splits: %+v\n", splits)
-- 
2.43.0


From cd6c58465ba3bbd10fc432fb6fe03f70c5495028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:05 +0000
Subject: [PATCH 088/105] fix: UnicodeScript keeps leading characters that
 belong to no script

---
 pretokenizer/unicode-script.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pretokenizer/unicode-script.go b/pretokenizer/unicode-script.go
index f34436b..075edc9 100644
--- a/pretokenizer/unicode-script.go
+++ b/pretokenizer/unicode-script.go
@@ -57,7 +57,7 @@ func (us *UnicodeScript) PreTokenize(pretokenized *tokenizer.PreTokenizedString)
 		for _, c := range normalized.GetNormalized() {
 			script := FixedScript(c)
 			var result int
-			if script != "Any" && lastScript != "Any" && lastScript != script {
+			if script != "Any" && (lastScript != script || len(ranges) == 0) {
 				result = offset
 			} else {
 				result = -1
-- 
2.43.0


From 6b586768770742de092cdc7b560e22e0faca1aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:13 +0000
Subject: [PATCH 089/105] fix: Whitespace cuts words and white space of any
 script

---
 pretokenizer/whitespace.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pretokenizer/whitespace.go b/pretokenizer/whitespace.go
index 00d071a..75f6627 100644
--- a/pretokenizer/whitespace.go
+++ b/pretokenizer/whitespace.go
@@ -21,7 +21,8 @@ var _ tokenizer.PreTokenizer = new(Whitespace)
 
 func (p *Whitespace) PreTokenize(pretokenized *tokenizer.PreTokenizedString) (*tokenizer.PreTokenizedString, error) {
 	pretok := pretokenized.Split(func(noop int, normalized *normalizer.NormalizedString) []tokenizer.SplitIdx {
-		s := `\w+|[^\w\s]+`
+		// NOTE. `\w` and `\s` of Go are of ASCII only
+		s := `[\pL\pM\pN\p{Pc}]+|[^\pL\pM\pN\p{Pc}\s\v\x{85}\pZ]+`
 		rePattern := normalizer.NewRegexpPattern(s)
 		invert := normalizer.NewInvertPattern(rePattern)
 		splits := normalized.Split(invert, normalizer.RemovedBehavior)
-- 
2.43.0


From ded09a425af5a4579181a5b1a9feaa82c63e8ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:22 +0000
Subject: [PATCH 090/105] fix: BERT pre-tokenization removes white space of any
 script

---
 pretokenizer/bert.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pretokenizer/bert.go b/pretokenizer/bert.go
index 9c40aad..e2bce2c 100644
--- a/pretokenizer/bert.go
+++ b/pretokenizer/bert.go
@@ -1,6 +1,8 @@
 package pretokenizer
 
 import (
+	"unicode"
+
 	// "fmt"
 	// "unicode"
 
@@ -75,7 +77,7 @@ func NewBertPreTokenizer() *BertPreTokenizer {
 func (bt *BertPreTokenizer) PreTokenize(pretokenized *tokenizer.PreTokenizedString) (*tokenizer.PreTokenizedString, error) {
 	pretok := pretokenized.Split(func(noop int, sub *normalizer.NormalizedString) []tokenizer.SplitIdx {
 		var splits []normalizer.NormalizedString
-		whitespace := normalizer.NewRegexpPattern(`\s+`)
+		whitespace := normalizer.NewFnPattern(unicode.IsSpace)
 		wsSubs := sub.Split(whitespace, normalizer.RemovedBehavior)
 
 		for _, sub := range wsSubs {
-- 
2.43.0


From e6348b4601c76803d26bcde6e33dc39380840d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:37 +0000
Subject: [PATCH 091/105] fix: byte-level pre-tokenization cuts white space
 before a word as GPT-2 does

---
 pretokenizer/bytelevel.go | 40 +++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/pretokenizer/bytelevel.go b/pretokenizer/bytelevel.go
index 39b0807..9e297b3 100644
--- a/pretokenizer/bytelevel.go
+++ b/pretokenizer/bytelevel.go
@@ -3,6 +3,7 @@ package pretokenizer
 import (
 	"regexp"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/sugarme/tokenizer"
 	"github.com/sugarme/tokenizer/normalizer"
@@ -14,11 +15,43 @@ import (
 // Ref.https://regex101.com/r/pf5XJv
 // const splitRegStr = `'s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+`
 // const splitRegStr = `'s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+`
-// TODO: this RE does not cover the case with trailing whitespace!!!
-const splitRegStr = `'s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+`
+// NOTE. `\s` of Go is of ASCII only, and there is no lookahead: white space is what this RE
+// does not match, see `wordPattern`.
+const splitRegStr = `'s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\v\x{85}\p{Z}\p{L}\p{N}]+`
 
 var splitRE = regexp.MustCompile(splitRegStr)
 
+// wordPattern finds the words of GPT-2, and the white space between them.
+type wordPattern struct{}
+
+var _ normalizer.Pattern = wordPattern{}
+
+// FindMatches implements normalizer.Pattern. White space that is followed by a word leaves
+// its last character to a piece of its own (`\s+(?!\S)|\s+`).
+func (wordPattern) FindMatches(inside string) []normalizer.OffsetsMatch {
+	var subs []normalizer.OffsetsMatch
+	add := func(start, end int, match bool) {
+		if start < end {
+			subs = append(subs, normalizer.OffsetsMatch{Offsets: []int{start, end}, Match: match})
+		}
+	}
+
+	prev := 0
+	for _, m := range splitRE.FindAllStringIndex(inside, -1) {
+		size := 0
+		if inside[m[0]] != ' ' { // the word has none of the white space
+			_, size = utf8.DecodeLastRuneInString(inside[prev:m[0]])
+		}
+		add(prev, m[0]-size, false)
+		add(m[0]-size, m[0], false)
+		add(m[0], m[1], true)
+		prev = m[1]
+	}
+	add(prev, len(inside), false)
+
+	return subs
+}
+
 var BytesChar map[uint8]string = GenerateBytesChar()
 
 var CharBytes map[string]uint8 = func() map[string]uint8 {
@@ -187,8 +220,7 @@ func (bl *ByteLevel) PreTokenize(pretokenized *tokenizer.PreTokenizedString) (*t
 			newNormalized = normalized.Prepend(" ")
 		}
 
-		splitPattern := normalizer.NewRegexpPattern(splitRegStr)
-		splits := newNormalized.Split(splitPattern, normalizer.IsolatedBehavior)
+		splits := newNormalized.Split(wordPattern{}, normalizer.IsolatedBehavior)
 
 		var splitIdx []tokenizer.SplitIdx
 		for _, s := range splits {
-- 
2.43.0


From 0115fa9805db4725a354b5f9fa27d2689237036b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:42 +0000
Subject: [PATCH 092/105] fix: ConfigFromFile closes the file it reads

---
 config.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/config.go b/config.go
index 2febf54..4aeca0f 100644
--- a/config.go
+++ b/config.go
@@ -64,6 +64,7 @@ func ConfigFromFile(file string) (*Config, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer f.Close()
 
 	dec := json.NewDecoder(f)
 
-- 
2.43.0


From 23203d6dc25b5ede2b35b13df79e4a34a1fcf460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:50 +0000
Subject: [PATCH 093/105] fix: BertLargeCasedWholeWordMaskingSquad and
 RobertaBaseSquad2 return to the working directory

---
 pretrained/bert.go    | 6 ++++++
 pretrained/roberta.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/pretrained/bert.go b/pretrained/bert.go
index 9f3384e..022e359 100644
--- a/pretrained/bert.go
+++ b/pretrained/bert.go
@@ -80,7 +80,13 @@ func BertBaseUncased() *tokenizer.Tokenizer {
 // https://cdn.huggingface.co/bert-large-cased-whole-word-masking-finetuned-squad-vocab.txt
 func BertLargeCasedWholeWordMaskingSquad() *tokenizer.Tokenizer {
 
+	currDir, err := os.Getwd()
+	if err != nil {
+		log.Fatal(err)
+	}
 	util.CdToThis()
+	defer util.CdBack(currDir)
+
 	vocabFile := "model/bert-large-cased-whole-word-masking-finetuned-squad-vocab.txt"
 	model, err := wordpiece.NewWordPieceFromFile(vocabFile, "[UNK]")
 	if err != nil {
diff --git a/pretrained/roberta.go b/pretrained/roberta.go
index f12a373..e42f0a8 100644
--- a/pretrained/roberta.go
+++ b/pretrained/roberta.go
@@ -82,7 +82,13 @@ func RobertaBase(addPrefixSpace, trimOffsets bool) *tokenizer.Tokenizer {
 // - vocab: "https://cdn.huggingface.co/deepset/roberta-base-squad2/vocab.json",
 // - merges: "https://cdn.huggingface.co/deepset/roberta-base-squad2/merges.txt",
 func RobertaBaseSquad2(addPrefixSpace, trimOffsets bool) *tokenizer.Tokenizer {
+	currDir, err := os.Getwd()
+	if err != nil {
+		log.Fatal(err)
+	}
 	util.CdToThis()
+	defer util.CdBack(currDir)
+
 	vocabFile := "model/roberta-base-squad2-vocab.json"
 	mergesFile := "model/roberta-base-squad2-merges.txt"
 	model, err := bpe.NewBpeFromFiles(vocabFile, mergesFile)
-- 
2.43.0


From f4023f3c2c57f55a3f2651f467550a5a01d09605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:15 +0000
Subject: [PATCH 094/105] fix: CachedPath closes the body of its first request

---
 file-util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/file-util.go b/file-util.go
index 350dc9c..f397701 100644
--- a/file-util.go
+++ b/file-util.go
@@ -73,7 +73,8 @@ func CachedPath(modelNameOrPath, fileName string) (resolvedPath string, err erro
 	url := fmt.Sprintf("%s/%s/resolve/main/%s", HFpath, modelNameOrPath, fileName)
 	// url := fmt.Sprintf("%s/%s/raw/main/%s", HFpath, modelNameOrPath, fileName)
 	if isValidURL(url) {
-		if _, err := http.Get(url); err == nil {
+		if resp, err := http.Get(url); err == nil {
+			resp.Body.Close()
 			err := downloadFile(url, cachedFileCandidate)
 			if err != nil {
 				err = fmt.Errorf("CachedPath() failed at trying to download file: %w", err)
-- 
2.43.0


From 93f85da429a24f62ddda5ae814b9e46f8517ec49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:29 +0000
Subject: [PATCH 095/105] fix: copying into the cache makes the directory and
 never leaves a partial file under the final name

---
 file-util.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/file-util.go b/file-util.go
index f397701..53d17ee 100644
--- a/file-util.go
+++ b/file-util.go
@@ -228,13 +228,23 @@ func copyFile(src, dst string) error {
 	}
 	defer source.Close()
 
-	destination, err := os.Create(dst)
+	if err := os.MkdirAll(path.Dir(dst), 0755); err != nil {
+		return err
+	}
+
+	// Copy to a file with .tmp extension, so that a file of the final name is always complete
+	destination, err := os.Create(dst + ".tmp")
 	if err != nil {
 		return err
 	}
 	defer destination.Close()
-	_, err = io.Copy(destination, source)
-	return err
+	if _, err = io.Copy(destination, source); err != nil {
+		return err
+	}
+	if err = destination.Close(); err != nil {
+		return err
+	}
+	return os.Rename(dst+".tmp", dst)
 }
 
 // CleanCache removes all files cached in transformer cache directory `CachedDir`.
-- 
2.43.0


From 01ac5335b074a04850e49a1b927c5a153d02f2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:39 +0000
Subject: [PATCH 096/105] fix: a download is complete only when its file was
 closed without error

---
 file-util.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/file-util.go b/file-util.go
index 53d17ee..b4e382d 100644
--- a/file-util.go
+++ b/file-util.go
@@ -163,6 +163,11 @@ func downloadFile(url string, filepath string) error {
 	// The progress use the same line so print a new line once it's finished downloading
 	fmt.Println()
 
+	// What was written is only known to be complete once the file is closed
+	if err = out.Close(); err != nil {
+		return err
+	}
+
 	// Rename the tmp file back to the original file
 	err = os.Rename(filepath+".tmp", filepath)
 	if err != nil {
-- 
2.43.0


From c1934f3b028df7ece26452cf5606d756a828c3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:04 +0000
Subject: [PATCH 097/105] fix: training reads every line of a file exactly
 once, whatever the number of chunks

---
 tokenizer.go | 76 ++++++++++++++++++++++++++++------------------------
 1 file changed, 41 insertions(+), 35 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index fe9a521..46a6235 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -5,8 +5,8 @@ import (
 	"bufio"
 	// "context"
 	"fmt"
+	"io"
 	"log"
-	"math"
 	"os"
 	"sort"
 	"strings"
@@ -764,6 +764,7 @@ func (t *Tokenizer) Save(path string, pretty bool) (err error) {
 func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 	type Job struct {
 		File     string
+		Size     int64
 		Progress *progressbar.ProgressBar
 	}
 
@@ -779,11 +780,11 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 	for _, f := range files {
 		fsize, err := util.FileSize(f)
 		if err != nil {
-			log.Fatal(err)
+			return err
 		}
 		bar := progressbar.New(int(fsize))
 
-		jobs = append(jobs, Job{f, bar})
+		jobs = append(jobs, Job{f, fsize, bar})
 	}
 
 	// Step 1. scan text files by chunks in goroutines. In each goroutine,
@@ -800,25 +801,17 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 		currentJob := i
 
 		file := jobs[currentJob].File
-		// current is the counter for bytes of the file.
-		var current int64 = 0
 		var limit int64 = 100 * mb
 
-		fi, err := os.Stat(file)
-		if err != nil {
-			return err
-		}
-		fsize := float64(fi.Size())
-
-		chunkNum := int(math.Ceil(fsize / float64(limit)))
+		chunkNum := int((jobs[currentJob].Size + limit - 1) / limit)
 
 		// Setup some workers to process
 		for n := 1; n <= chunkNum; n++ {
 			scanWG.Add(1)
 
 			go func(n int, file string) {
-				// start reading file chunk by chunk
-				current = t.processChunk(current, limit, file, wChan, trainer)
+				// every chunk starts at an offset of its own
+				t.processChunk(int64(n-1)*limit, limit, file, wChan, trainer)
 				fmt.Printf("File chunk %d has been completed\n", n)
 				scanWG.Done()
 			}(n, file)
@@ -876,40 +869,55 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 
 // processChunk reads file chunk and processes it to word-count and sends off to channel
 // offset: start bound
-// limit: end bound
+// limit: number of bytes of the chunk
 // filename: file path includes file name
 // channel: channel to send proccessed words to.
-// current: cummulative point where the file processing stops.
 // trainer: Trainer to process tokens
-func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, channel chan (map[string]int), trainer Trainer) (current int64) {
+//
+// A line belongs to the chunk in which it starts.
+func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, channel chan (map[string]int), trainer Trainer) {
 	file, err := os.Open(filename)
 	if err != nil {
 		panic(err)
 	}
 	defer file.Close()
 
-	// move the pointer of the file to the start of designated chunk
-	file.Seek(offset, 0) // 0 means relative to the origin of file
-
-	scanner := bufio.NewScanner(file)
-	buf := make([]byte, 0, 1*gb) // initial buffer
-	scanner.Buffer(buf, 2*gb)    // max buffer size = 2GB
-
-	var cummulativeSize int64
+	// move the pointer of the file to the start of designated chunk, or to the byte
+	// before it, which tells whether a line starts there.
+	current := offset
+	if offset > 0 {
+		current = offset - 1
+	}
+	if _, err := file.Seek(current, 0); err != nil { // 0 means relative to the origin of file
+		panic(err)
+	}
+	reader := bufio.NewReader(file)
+	if offset > 0 {
+		// the line that started before belongs to the chunk before
+		skipped, err := reader.ReadString('\n')
+		if err == io.EOF {
+			return
+		}
+		if err != nil {
+			panic(err)
+		}
+		current += int64(len(skipped))
+	}
 
-	for scanner.Scan() {
-		// Stop if read size has exceed the chunk size
-		cummulativeSize += int64(len(scanner.Bytes()))
-		if cummulativeSize > limit {
+	// Stop at the first line that starts after the chunk
+	for current < offset+limit {
+		line, err := reader.ReadString('\n')
+		if err != nil && err != io.EOF {
+			panic(err)
+		}
+		if line == "" {
 			break
 		}
+		current += int64(len(line))
 
 		// line words
 		lwords := make(map[string]int)
-		var line string
-		line = scanner.Text()
-		// NOTE: io.scanner returns line w/o `\n`. We add it back manually.
-		// line = fmt.Sprintf("%v\n", line)
+		line = strings.TrimSuffix(strings.TrimSuffix(line, "\n"), "\r")
 
 		/* input := NewSingleEncodeInput(NewInputSequence(line))
 		 * encoding, err := t.Encode(input, false)
@@ -956,8 +964,6 @@ func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, cha
 		channel <- lwords
 
 	}
-
-	return cummulativeSize
 }
 
 /*
-- 
2.43.0


From 4d64f6aa6dbaae5d559992b6e5eeb0002d774ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:16 +0000
Subject: [PATCH 098/105] fix: Train returns the first error of its workers
 instead of ending the process or returning early

---
 tokenizer.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index 46a6235..18702ac 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -777,6 +777,10 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 
 	scanWG := new(sync.WaitGroup)
 
+	// the first error met by a goroutine
+	var scanErr error
+	var scanErrOnce sync.Once
+
 	for _, f := range files {
 		fsize, err := util.FileSize(f)
 		if err != nil {
@@ -811,9 +815,12 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 
 			go func(n int, file string) {
 				// every chunk starts at an offset of its own
-				t.processChunk(int64(n-1)*limit, limit, file, wChan, trainer)
+				defer scanWG.Done()
+				if err := t.processChunk(int64(n-1)*limit, limit, file, wChan, trainer); err != nil {
+					scanErrOnce.Do(func() { scanErr = err })
+					return
+				}
 				fmt.Printf("File chunk %d has been completed\n", n)
-				scanWG.Done()
 			}(n, file)
 		}
 	}
@@ -845,6 +852,9 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 	// Wait for dictionary to process all words then close
 	<-doneChan
 	close(doneChan)
+	if scanErr != nil {
+		return scanErr
+	}
 
 	fmt.Printf("Dictionary length: %v words\n", len(dict))
 	// // Print out some samples
@@ -875,10 +885,10 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 // trainer: Trainer to process tokens
 //
 // A line belongs to the chunk in which it starts.
-func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, channel chan (map[string]int), trainer Trainer) {
+func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, channel chan (map[string]int), trainer Trainer) error {
 	file, err := os.Open(filename)
 	if err != nil {
-		panic(err)
+		return err
 	}
 	defer file.Close()
 
@@ -889,17 +899,17 @@ func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, cha
 		current = offset - 1
 	}
 	if _, err := file.Seek(current, 0); err != nil { // 0 means relative to the origin of file
-		panic(err)
+		return err
 	}
 	reader := bufio.NewReader(file)
 	if offset > 0 {
 		// the line that started before belongs to the chunk before
 		skipped, err := reader.ReadString('\n')
 		if err == io.EOF {
-			return
+			return nil
 		}
 		if err != nil {
-			panic(err)
+			return err
 		}
 		current += int64(len(skipped))
 	}
@@ -908,7 +918,7 @@ func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, cha
 	for current < offset+limit {
 		line, err := reader.ReadString('\n')
 		if err != nil && err != io.EOF {
-			panic(err)
+			return err
 		}
 		if line == "" {
 			break
@@ -927,13 +937,13 @@ func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, cha
 
 		normalized, err := t.doNormalize(line)
 		if err != nil {
-			log.Fatalf("call 'doNormalize' method error: %v\n", err)
+			return fmt.Errorf("call 'doNormalize' method error: %w", err)
 		}
 
 		pretok := NewPreTokenizedStringFromNS(normalized)
 		pretokenized, err := t.doPreTokenize(pretok)
 		if err != nil {
-			log.Fatalf("call 'doPreTokenize' method error: %v\n", err)
+			return fmt.Errorf("call 'doPreTokenize' method error: %w", err)
 		}
 
 		// NOTE. should we get OffsetType as input parameter: either Byte or Char?
@@ -964,6 +974,8 @@ func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, cha
 		channel <- lwords
 
 	}
+
+	return nil
 }
 
 /*
-- 
2.43.0


From 3f8a7eaf03499453562e73d3bb1fa263b91eb9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:44 +0000
Subject: [PATCH 099/105] fix: a normalized added token is looked for by its
 normalized content, any other by its content

---
 added-vocabulary.go | 47 ++++++++++++++++-----------------------------
 1 file changed, 17 insertions(+), 30 deletions(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index df65eef..211e190 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -123,41 +123,25 @@ func (at AddedToken) SetNormalized(normalized bool) (retVal AddedToken) {
 //
 // NOTE. normalizer input is optional
 func (at AddedToken) GetPattern(n normalizer.Normalizer) (retVal string) {
-	var reStr string // regular expression pattern
+	content := at.Content
+	// a normalized token is looked for in normalized text
+	if at.Normalized && n != nil {
+		normalizedString, err := n.Normalize(normalizer.NewNormalizedFrom(at.Content))
+		if err != nil {
+			log.Fatal(err)
+		}
+		content = normalizedString.GetNormalized()
+	}
 
+	reStr := regexp.QuoteMeta(content) // regular expression pattern
 	if at.SingleWord {
-		var firstB, lastB string
 		runes := []rune(at.Content)
-		firstChar := runes[0]
-		lastChar := runes[len(runes)-1]
-		if isWordCharacter(firstChar) {
-			firstB = `\b`
-		} else {
-			firstB = ``
+		if isWordCharacter(runes[0]) {
+			reStr = `\b` + reStr
 		}
-		if isWordCharacter(lastChar) {
-			lastB = `\b`
-		} else {
-			lastB = ``
-		}
-
-		// normalize the content
-		content := normalizer.NewNormalizedFrom(at.Content)
-		var normalized string
-		if n != nil {
-			normalizedString, err := n.Normalize(content)
-			if err != nil {
-				log.Fatal(err)
-			}
-			normalized = normalizedString.GetNormalized()
-		} else { // don't have a normalizer, just use content as is
-			normalized = at.Content
+		if isWordCharacter(runes[len(runes)-1]) {
+			reStr = reStr + `\b`
 		}
-
-		reStr = fmt.Sprintf("%v%v%v", firstB, regexp.QuoteMeta(normalized), lastB)
-
-	} else {
-		reStr = regexp.QuoteMeta(at.Content)
 	}
 
 	if at.LStrip && at.RStrip {
@@ -384,6 +368,9 @@ func (av *AddedVocabulary) findMatches(sentence string, splitRe matchingSet) (re
 		r := regexp.MustCompile(splitRe.regexSet.Patterns()[idx])
 		locs := r.FindAllStringIndex(sentence, -1)
 		for _, loc := range locs {
+			if loc[0] == loc[1] { // nothing is left of the token once normalized
+				continue
+			}
 			id := idx
 			ioPair := idOffsets{id: id, offsets: []int{loc[0], loc[1]}}
 			ioPairs = append(ioPairs, ioPair)
-- 
2.43.0


From 9c2778668f6ca570d27dd934b6f15ef7681ac581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:44 +0000
Subject: [PATCH 100/105] fix: a single word added token is recognised where it
 is a whole word, in any script

---
 added-vocabulary.go | 70 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 54 insertions(+), 16 deletions(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index 211e190..266c9df 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -5,7 +5,9 @@ import (
 	"log"
 	"regexp"
 	"sort"
+	"strings"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/sugarme/regexpset"
 	"github.com/sugarme/tokenizer/normalizer"
@@ -121,7 +123,8 @@ func (at AddedToken) SetNormalized(normalized bool) (retVal AddedToken) {
 
 // GetPattern retrieves the pattern built for this token, according to all the specified parameters.
 //
-// NOTE. normalizer input is optional
+// NOTE. normalizer input is optional. Whether a match of a single word token is a whole word
+// is not part of the pattern, see `findWords`.
 func (at AddedToken) GetPattern(n normalizer.Normalizer) (retVal string) {
 	content := at.Content
 	// a normalized token is looked for in normalized text
@@ -134,15 +137,6 @@ func (at AddedToken) GetPattern(n normalizer.Normalizer) (retVal string) {
 	}
 
 	reStr := regexp.QuoteMeta(content) // regular expression pattern
-	if at.SingleWord {
-		runes := []rune(at.Content)
-		if isWordCharacter(runes[0]) {
-			reStr = `\b` + reStr
-		}
-		if isWordCharacter(runes[len(runes)-1]) {
-			reStr = reStr + `\b`
-		}
-	}
 
 	if at.LStrip && at.RStrip {
 		reStr = fmt.Sprintf("(\\s)?%v(\\s)?", reStr)
@@ -156,16 +150,52 @@ func (at AddedToken) GetPattern(n normalizer.Normalizer) (retVal string) {
 }
 
 func isWordCharacter(r rune) bool {
-	if unicode.IsLetter(r) || unicode.IsMark(r) || unicode.IsDigit(r) || unicode.IsControl(r) || unicode.IsPunct(r) {
-		return true
+	return unicode.IsLetter(r) || unicode.IsMark(r) || unicode.IsDigit(r) || unicode.In(r, unicode.Pc, unicode.Join_Control)
+}
+
+// findWords finds the matches of a single word token that are no part of a longer word.
+func (at AddedToken) findWords(r *regexp.Regexp, sentence string) (retVal [][]int) {
+	for pos := 0; pos < len(sentence); {
+		loc := r.FindStringIndex(sentence[pos:])
+		if loc == nil || loc[0] == loc[1] {
+			break
+		}
+
+		// the word itself, without the whitespaces next to it
+		start, end := pos+loc[0], pos+loc[1]
+		wordStart, wordEnd := start, end
+		if at.LStrip {
+			wordStart = end - len(strings.TrimLeftFunc(sentence[start:end], unicode.IsSpace))
+		}
+		if at.RStrip {
+			wordEnd = start + len(strings.TrimRightFunc(sentence[start:end], unicode.IsSpace))
+		}
+
+		if isWordBoundary(sentence, wordStart) && isWordBoundary(sentence, wordEnd) {
+			retVal = append(retVal, []int{start, end})
+			pos = end
+			continue
+		}
+		_, size := utf8.DecodeRuneInString(sentence[wordStart:])
+		pos = wordStart + size
 	}
-	return false
+
+	return retVal
+}
+
+// isWordBoundary returns whether no word spans the given position of the sentence.
+func isWordBoundary(sentence string, pos int) bool {
+	before, _ := utf8.DecodeLastRuneInString(sentence[:pos])
+	after, _ := utf8.DecodeRuneInString(sentence[pos:])
+
+	return !isWordCharacter(before) || !isWordCharacter(after)
 }
 
 // matchingSet is a set of regular expression string
 type matchingSet struct {
 	regexSet regexpset.RegexpSet
 	ids      []int
+	tokens   []AddedToken
 }
 
 // AddedVocabulary is a vocabulary built on top of the Model
@@ -317,6 +347,7 @@ type tokenId struct {
 func (av *AddedVocabulary) refreshAddedTokens(model Model, normalizer normalizer.Normalizer) {
 	var normIds, nnormIds []int
 	var normPatterns, nnormPatterns []string
+	var normTokens, nnormTokens []AddedToken
 	tokens := append(av.specialTokens, av.addedTokens...)
 	for _, token := range tokens {
 		id, ok := av.TokenToId(token.Content, model)
@@ -328,9 +359,11 @@ func (av *AddedVocabulary) refreshAddedTokens(model Model, normalizer normalizer
 		if token.Normalized {
 			normIds = append(normIds, id)
 			normPatterns = append(normPatterns, pattern)
+			normTokens = append(normTokens, token)
 		} else {
 			nnormIds = append(nnormIds, id)
 			nnormPatterns = append(nnormPatterns, pattern)
+			nnormTokens = append(nnormTokens, token)
 		}
 	}
 
@@ -343,8 +376,8 @@ func (av *AddedVocabulary) refreshAddedTokens(model Model, normalizer normalizer
 		log.Fatal(err)
 	}
 
-	av.splitNormalizedRe = matchingSet{*normSet, normIds}
-	av.splitRe = matchingSet{*nnormSet, nnormIds}
+	av.splitNormalizedRe = matchingSet{*normSet, normIds, normTokens}
+	av.splitRe = matchingSet{*nnormSet, nnormIds, nnormTokens}
 }
 
 type idOffsets struct {
@@ -366,7 +399,12 @@ func (av *AddedVocabulary) findMatches(sentence string, splitRe matchingSet) (re
 
 	for _, idx := range matches {
 		r := regexp.MustCompile(splitRe.regexSet.Patterns()[idx])
-		locs := r.FindAllStringIndex(sentence, -1)
+		var locs [][]int
+		if token := splitRe.tokens[idx]; token.SingleWord {
+			locs = token.findWords(r, sentence)
+		} else {
+			locs = r.FindAllStringIndex(sentence, -1)
+		}
 		for _, loc := range locs {
 			if loc[0] == loc[1] { // nothing is left of the token once normalized
 				continue
-- 
2.43.0


From be87a88e4f128026e04e3d7b9eb0ccc66bd1c3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:44 +0000
Subject: [PATCH 101/105] fix: an added token takes in all the whitespaces next
 to it

---
 added-vocabulary.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index 266c9df..85cca59 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -139,16 +139,19 @@ func (at AddedToken) GetPattern(n normalizer.Normalizer) (retVal string) {
 	reStr := regexp.QuoteMeta(content) // regular expression pattern
 
 	if at.LStrip && at.RStrip {
-		reStr = fmt.Sprintf("(\\s)?%v(\\s)?", reStr)
+		reStr = fmt.Sprintf("%v%v%v", whitespaces, reStr, whitespaces)
 	} else if at.LStrip {
-		reStr = fmt.Sprintf("(\\s)?%v", reStr)
+		reStr = fmt.Sprintf("%v%v", whitespaces, reStr)
 	} else if at.RStrip {
-		reStr = fmt.Sprintf("%v(\\s)?", reStr)
+		reStr = fmt.Sprintf("%v%v", reStr, whitespaces)
 	}
 
 	return reStr
 }
 
+// whitespaces is the pattern of any number of (unicode) whitespaces
+const whitespaces = `[\s\v\x{85}\p{Z}]*`
+
 func isWordCharacter(r rune) bool {
 	return unicode.IsLetter(r) || unicode.IsMark(r) || unicode.IsDigit(r) || unicode.In(r, unicode.Pc, unicode.Join_Control)
 }
-- 
2.43.0


From 30b66b8dd8869975a3c6a8d212ed3c3c62055c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:16 +0000
Subject: [PATCH 102/105] fix: a token is recognised next to whitespace that
 another token takes in

---
 added-vocabulary.go | 61 ++++++++++++++++++++++++++++++---------------
 1 file changed, 41 insertions(+), 20 deletions(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index 85cca59..cb5df21 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -164,16 +164,8 @@ func (at AddedToken) findWords(r *regexp.Regexp, sentence string) (retVal [][]in
 			break
 		}
 
-		// the word itself, without the whitespaces next to it
 		start, end := pos+loc[0], pos+loc[1]
-		wordStart, wordEnd := start, end
-		if at.LStrip {
-			wordStart = end - len(strings.TrimLeftFunc(sentence[start:end], unicode.IsSpace))
-		}
-		if at.RStrip {
-			wordEnd = start + len(strings.TrimRightFunc(sentence[start:end], unicode.IsSpace))
-		}
-
+		wordStart, wordEnd := at.wordOf(sentence, start, end)
 		if isWordBoundary(sentence, wordStart) && isWordBoundary(sentence, wordEnd) {
 			retVal = append(retVal, []int{start, end})
 			pos = end
@@ -186,6 +178,22 @@ func (at AddedToken) findWords(r *regexp.Regexp, sentence string) (retVal [][]in
 	return retVal
 }
 
+// wordOf returns the part of a match that is the token itself, without the whitespaces next to it.
+func (at AddedToken) wordOf(sentence string, start, end int) (wordStart, wordEnd int) {
+	wordStart, wordEnd = start, end
+	if at.LStrip {
+		wordStart = end - len(strings.TrimLeftFunc(sentence[start:end], unicode.IsSpace))
+	}
+	if at.RStrip {
+		wordEnd = start + len(strings.TrimRightFunc(sentence[start:end], unicode.IsSpace))
+	}
+	if wordStart >= wordEnd { // the token is whitespace itself
+		return start, end
+	}
+
+	return wordStart, wordEnd
+}
+
 // isWordBoundary returns whether no word spans the given position of the sentence.
 func isWordBoundary(sentence string, pos int) bool {
 	before, _ := utf8.DecodeLastRuneInString(sentence[:pos])
@@ -386,6 +394,7 @@ func (av *AddedVocabulary) refreshAddedTokens(model Model, normalizer normalizer
 type idOffsets struct {
 	id      int // optional - None value = -1
 	offsets []int
+	word    []int // offsets without the whitespaces next to the token
 }
 
 // findMatches finds any AddedToken in the given sentence, using the provided MatchingSet.
@@ -394,7 +403,7 @@ type idOffsets struct {
 func (av *AddedVocabulary) findMatches(sentence string, splitRe matchingSet) (retVal []idOffsets) {
 
 	if len(sentence) == 0 {
-		return []idOffsets{{-1, []int{0, 0}}}
+		return []idOffsets{{id: -1, offsets: []int{0, 0}}}
 	}
 
 	matches := splitRe.regexSet.Matches(sentence).Matches()
@@ -403,7 +412,8 @@ func (av *AddedVocabulary) findMatches(sentence string, splitRe matchingSet) (re
 	for _, idx := range matches {
 		r := regexp.MustCompile(splitRe.regexSet.Patterns()[idx])
 		var locs [][]int
-		if token := splitRe.tokens[idx]; token.SingleWord {
+		token := splitRe.tokens[idx]
+		if token.SingleWord {
 			locs = token.findWords(r, sentence)
 		} else {
 			locs = r.FindAllStringIndex(sentence, -1)
@@ -413,15 +423,16 @@ func (av *AddedVocabulary) findMatches(sentence string, splitRe matchingSet) (re
 				continue
 			}
 			id := idx
-			ioPair := idOffsets{id: id, offsets: []int{loc[0], loc[1]}}
+			wordStart, wordEnd := token.wordOf(sentence, loc[0], loc[1])
+			ioPair := idOffsets{id: id, offsets: []int{loc[0], loc[1]}, word: []int{wordStart, wordEnd}}
 			ioPairs = append(ioPairs, ioPair)
 		}
 	}
 
 	// Sort id-offsets by start then by pattern id
 	sort.Slice(ioPairs, func(i, j int) bool {
-		if ioPairs[i].offsets[0] != ioPairs[j].offsets[0] {
-			return ioPairs[i].offsets[0] < ioPairs[j].offsets[0]
+		if ioPairs[i].word[0] != ioPairs[j].word[0] {
+			return ioPairs[i].word[0] < ioPairs[j].word[0]
 		}
 		return ioPairs[i].id < ioPairs[j].id
 	})
@@ -437,7 +448,7 @@ func (av *AddedVocabulary) findMatches(sentence string, splitRe matchingSet) (re
 		ioPair := ioPairs[i]
 
 		// current match is before the current offset, skip it
-		if ioPair.offsets[0] < currentOffsets {
+		if ioPair.word[0] < currentOffsets {
 			i++
 			continue
 		}
@@ -446,14 +457,24 @@ func (av *AddedVocabulary) findMatches(sentence string, splitRe matchingSet) (re
 		// If so, keep the one with lowest Idx. All other will be skipped
 		// because `currentOffsets` will have been increased.
 		lowest := i
-		for j := i + 1; j < len(ioPairs) && ioPairs[j].offsets[0] < ioPair.offsets[1]; j++ {
+		for j := i + 1; j < len(ioPairs) && ioPairs[j].word[0] < ioPair.word[1]; j++ {
 			if ioPairs[j].id < ioPairs[lowest].id {
 				lowest = j
 			}
 		}
 
+		// whitespaces between two tokens belong to one of them only
+		if n := len(splits); n > 0 {
+			last, next := splits[n-1], ioPairs[lowest]
+			if last.offsets[1] > next.word[0] {
+				last.offsets[1] = next.word[0]
+			}
+			if next.offsets[0] < last.offsets[1] {
+				next.offsets[0] = last.offsets[1]
+			}
+		}
 		splits = append(splits, ioPairs[lowest])
-		currentOffsets = ioPairs[lowest].offsets[1]
+		currentOffsets = ioPairs[lowest].word[1]
 		i = lowest + 1
 	}
 
@@ -465,15 +486,15 @@ func (av *AddedVocabulary) findMatches(sentence string, splitRe matchingSet) (re
 
 	for _, ioPair := range splits {
 		if startOffset < ioPair.offsets[0] {
-			finalSplits = append(finalSplits, idOffsets{-1, []int{startOffset, ioPair.offsets[0]}})
+			finalSplits = append(finalSplits, idOffsets{id: -1, offsets: []int{startOffset, ioPair.offsets[0]}})
 		}
-		finalSplits = append(finalSplits, idOffsets{splitRe.ids[ioPair.id], ioPair.offsets})
+		finalSplits = append(finalSplits, idOffsets{id: splitRe.ids[ioPair.id], offsets: ioPair.offsets})
 		startOffset = ioPair.offsets[1]
 	}
 
 	totalByteLen := len(sentence)
 	if startOffset != totalByteLen {
-		finalSplits = append(finalSplits, idOffsets{-1, []int{startOffset, totalByteLen}})
+		finalSplits = append(finalSplits, idOffsets{id: -1, offsets: []int{startOffset, totalByteLen}})
 	}
 
 	return finalSplits
-- 
2.43.0


From 512dddefc81c891364424e22eb6a882585f42218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:22 +0000
Subject: [PATCH 103/105] fix: the second of two sequences keeps its type ids
 in a sequence of post-processors

---
 processor/sequence.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/processor/sequence.go b/processor/sequence.go
index 89bedb3..1cbbc9b 100644
--- a/processor/sequence.go
+++ b/processor/sequence.go
@@ -42,9 +42,25 @@ func (seq *Sequence) Process(encoding, pairEncoding *tokenizer.Encoding, addSpec
 	for _, p := range seq.processors[:last] {
 		encoding = p.Process(encoding, nil, addSpecialTokens)
 		if pairEncoding != nil {
-			pairEncoding = p.Process(pairEncoding, nil, addSpecialTokens)
+			pairEncoding = processPair(p, pairEncoding, addSpecialTokens)
 		}
 	}
 
 	return seq.processors[last].Process(encoding, pairEncoding, addSpecialTokens)
 }
+
+// processPair processes the second sequence alone. Alone it would be numbered
+// as the first one: its tokens keep the type ids they have.
+func processPair(p tokenizer.PostProcessor, pairEncoding *tokenizer.Encoding, addSpecialTokens bool) *tokenizer.Encoding {
+	typeIds := append([]int{}, pairEncoding.GetTypeIds()...)
+	out := p.Process(pairEncoding, nil, addSpecialTokens)
+	if out.Len() == len(typeIds) {
+		out.SetTypeIds(typeIds)
+	}
+
+	if r, ok := out.SequenceRanges[0]; ok && len(out.SequenceRanges) == 1 {
+		out.SequenceRanges = map[int]tokenizer.Range{1: r}
+	}
+
+	return out
+}
-- 
2.43.0


From 1043acb067473436c24e89c162a239947b4b1ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:53 +0000
Subject: [PATCH 104/105] fix: a template with special tokens can be validated

---
 processor/template.go | 54 ++++++++++++++-----------------------------
 1 file changed, 17 insertions(+), 37 deletions(-)

diff --git a/processor/template.go b/processor/template.go
index 059a808..c32ab21 100644
--- a/processor/template.go
+++ b/processor/template.go
@@ -412,11 +412,15 @@ func (b *TemplateProcessingBuilder) Validate() error {
 	)
 
 	for _, piece := range b.Pair {
-		if piece.(*SequencePiece).Id == A {
-			hasA = true
+		seq, ok := piece.(*SequencePiece)
+		if !ok {
+			continue
 		}
 
-		if piece.(*SequencePiece).Id == B {
+		switch seq.Id {
+		case A:
+			hasA = true
+		case B:
 			hasB = true
 		}
 	}
@@ -428,46 +432,22 @@ func (b *TemplateProcessingBuilder) Validate() error {
 		return err
 	}
 
-	check := func(sp string) string {
-		var exist bool
-		tok, ok := b.SpecialTokens.GetItemByOrder(0)
-		if !ok {
-			exist = false
-		} else {
-			exist = util.Contains(tok.Tokens, sp)
-		}
-
-		if exist {
-			return sp
-		} else {
-			return ""
-		}
-	}
-
 	var missing []string
-	var pieces []Piece = append(b.Single, b.Pair...)
-	for _, p := range pieces {
-		typ := getType(p)
-		switch typ {
-		case "*SequencePeice":
-			// None
-		case "*SpecialToken":
-			id := p.(*SpecialTokenPiece).Id
-			s := check(id)
-			if s != "" {
-				missing = append(missing, s)
+	for _, tpl := range []Template{b.Single, b.Pair} {
+		for _, piece := range tpl {
+			special, ok := piece.(*SpecialTokenPiece)
+			if !ok {
+				continue
+			}
+
+			if _, ok := b.SpecialTokens.GetItemByKey(special.Id); !ok {
+				missing = append(missing, fmt.Sprintf("Missing SpecialToken %q", special.Id))
 			}
 		}
 	}
 
 	if len(missing) > 0 {
-		var msg string
-		for _, s := range missing {
-			v := fmt.Sprintf("Missing SpecialToken %q", s)
-			msg = fmt.Sprintf("%s, %s", msg, v)
-		}
-
-		return fmt.Errorf(msg)
+		return fmt.Errorf("%s", strings.Join(missing, ", "))
 	}
 
 	return nil
-- 
2.43.0


From 1f42df6ae28567ad79ccd6eca8b1de34c4f4b13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:01 +0000
Subject: [PATCH 105/105] fix: the default template keeps the second sequence

---
 processor/template.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/processor/template.go b/processor/template.go
index c32ab21..250f837 100644
--- a/processor/template.go
+++ b/processor/template.go
@@ -459,7 +459,7 @@ func DefaultTemplateProcessing() *TemplateProcessing {
 		panic(err)
 	}
 
-	pair, err := NewTemplateFromOne("$1")
+	pair, err := NewTemplateFromOne("$A:0 $B:1")
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0

