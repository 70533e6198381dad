package main

// The documented configuration format: which setting ends up where.

const (
	cN  = "pretrained.CreateNormalizer"
	cP  = "pretrained.CreatePreTokenizer"
	cPP = "pretrained.CreatePostProcessor"
	cD  = "pretrained.CreateDecoder"
	cT  = "pretrained.CreateTruncationParams"
	cPd = "pretrained.CreatePaddingParams"
)

type m = map[string]string

func c01Cases() []cfgCase {
	s := func(x string) string { return sym(x) }
	i := func(x string) string { return "int(" + sym(x) + ")" }
	cs := []cfgCase{
		// normalizers
		{name: "BertNormalizer", fn: cN, cfg: jm{"type", "BertNormalizer", "clean_text", jb("clean"), "handle_chinese_chars", jb("chinese"), "strip_accents", jb("accents"), "lowercase", jb("lower")},
			typ: "*normalizer.BertNormalizer", want: m{"CleanText": s("clean"), "HandleChineseChars": s("chinese"), "StripAccents": s("accents"), "Lowercase": s("lower")}},
		{name: "Strip", fn: cN, cfg: jm{"type", "Strip", "strip_left", jb("left"), "strip_right", jb("right")},
			typ: "*normalizer.Strip", want: m{"stripLeft": s("left"), "stripRight": s("right")}},
		{name: "StripNormalizer", fn: cN, cfg: jm{"type", "StripNormalizer", "strip_left", jb("left"), "strip_right", jb("right")},
			typ: "*normalizer.Strip", want: m{"stripLeft": s("left"), "stripRight": s("right")}},
		{name: "Prepend", fn: cN, cfg: jm{"type", "Prepend", "prepend", js("p")}, typ: "*normalizer.Prepend", want: m{"Prepend": s("p")}},
		{name: "Replace string", fn: cN, cfg: jm{"type", "Replace", "pattern", jm{"String", js("pat")}, "content", js("c")},
			typ: "*normalizer.Replace", want: m{"PatternType": "=normalizer.String", "Pattern": "type:*normalizer.StringPattern", "Pattern.string": s("pat"), "Content": s("c")}},
		{name: "Replace regex", fn: cN, cfg: jm{"type", "Replace", "pattern", jm{"Regex", js("pat")}, "content", js("c")},
			typ: "*normalizer.Replace", want: m{"PatternType": "=normalizer.Regex", "Pattern": "type:*normalizer.RegexpPattern", "Content": s("c")}},
		{name: "Sequence order", fn: cN, cfg: jm{"type", "Sequence", "normalizers", jl{jm{"type", "NFC"}, jm{"type", "Lowercase"}, jm{"type", "Strip"}}},
			typ: "*normalizer.Sequence", want: m{"Normalizers[0]": "made(NFC)", "Normalizers[1]": "made(Lowercase)", "Normalizers[2]": "made(Strip)"}},
		{name: "Precompiled", fn: cN, cfg: jm{"type", "Precompiled", "precompiled_charsmap", js("map")}, typ: "*normalizer.Precompiled"},

		// pretokenizers
		{name: "ByteLevel", fn: cP, cfg: jm{"type", "ByteLevel", "add_prefix_space", jb("prefix"), "trim_offsets", jb("trim")},
			typ: "*pretokenizer.ByteLevel", want: m{"AddPrefixSpace": s("prefix"), "TrimOffsets": s("trim")}},
		{name: "Metaspace add_prefix_space true", fn: cP, cfg: jm{"type", "Metaspace", "replacement", js("rep"), "add_prefix_space", true},
			typ: "*pretokenizer.Metaspace", want: m{"Replacement": s("rep"), "StrRep": s("rep"), "PrependScheme": "=pretokenizer.Always", "AddPrefixSpace": "true"}},
		{name: "Metaspace add_prefix_space false", fn: cP, cfg: jm{"type", "Metaspace", "replacement", js("rep"), "add_prefix_space", false},
			typ: "*pretokenizer.Metaspace", want: m{"Replacement": s("rep"), "StrRep": s("rep"), "PrependScheme": "=pretokenizer.Never", "AddPrefixSpace": "false"}},
		{name: "Punctuation default", fn: cP, cfg: jm{"type", "Punctuation"}, typ: "*pretokenizer.Punctuation", want: m{"Behavior": "=normalizer.IsolatedBehavior"}},
		{name: "Digits", fn: cP, cfg: jm{"type", "Digits", "individual_digits", jb("ind")}, typ: "*pretokenizer.Digits", want: m{"IndividualDigits": s("ind")}},
		{name: "Digits default", fn: cP, cfg: jm{"type", "Digits"}, typ: "*pretokenizer.Digits", want: m{"IndividualDigits": "false"}},
		{name: "Delimiter", fn: cP, cfg: jm{"type", "Delimiter", "delimiter", js("d")}, typ: "*pretokenizer.CharDelimiterSplit"},
		{name: "Sequence order", fn: cP, cfg: jm{"type", "Sequence", "pretokenizers", jl{jm{"type", "Whitespace"}, jm{"type", "Digits"}, jm{"type", "Split"}}},
			typ: "*pretokenizer.Sequence", want: m{"pretokenizers[0]": "made(Whitespace)", "pretokenizers[1]": "made(Digits)", "pretokenizers[2]": "made(Split)"}},

		// processors
		{name: "BertProcessing", fn: cPP, cfg: jm{"type", "BertProcessing", "sep", jl{js("sep"), jf("sepId")}, "cls", jl{js("cls"), jf("clsId")}},
			typ: "*processor.BertProcessing", want: m{"sep.Value": s("sep"), "sep.Id": i("sepId"), "cls.Value": s("cls"), "cls.Id": i("clsId")}},
		{name: "RobertaProcessing", fn: cPP, cfg: jm{"type", "RobertaProcessing", "sep", jl{js("sep"), jf("sepId")}, "cls", jl{js("cls"), jf("clsId")}, "trim_offsets", jb("trim"), "add_prefix_space", jb("prefix")},
			typ: "*processor.RobertaProcessing", want: m{"sep.Value": s("sep"), "sep.Id": i("sepId"), "cls.Value": s("cls"), "cls.Id": i("clsId"), "trimOffsets": s("trim"), "addPrefixSpace": s("prefix")}},
		{name: "RobertaProcessing defaults", fn: cPP, cfg: jm{"type", "RobertaProcessing", "sep", jl{js("sep"), jf("sepId")}, "cls", jl{js("cls"), jf("clsId")}},
			typ: "*processor.RobertaProcessing", want: m{"sep.Value": s("sep"), "cls.Value": s("cls"), "trimOffsets": "true", "addPrefixSpace": "true"}},
		{name: "ByteLevel", fn: cPP, cfg: jm{"type", "ByteLevel", "add_prefix_space", jb("prefix"), "trim_offsets", jb("trim")},
			typ: "*processor.ByteLevelProcessing", want: m{"pretok.AddPrefixSpace": s("prefix"), "pretok.TrimOffsets": s("trim")}},
		{name: "Sequence order", fn: cPP, cfg: jm{"type", "Sequence", "processors", jl{jm{"type", "ByteLevel"}, jm{"type", "BertProcessing"}}},
			typ: "*processor.Sequence", want: m{"processors[0]": "made(ByteLevel)", "processors[1]": "made(BertProcessing)"}},
		{name: "TemplateProcessing", fn: cPP, cfg: jm{"type", "TemplateProcessing",
			"single", jl{jm{"SpecialToken", jm{"id", "<s>", "type_id", jf("t1")}}, jm{"Sequence", jm{"id", "A", "type_id", jf("t2")}}},
			"pair", jl{jm{"Sequence", jm{"id", "A", "type_id", jf("t3")}}, jm{"SpecialToken", jm{"id", "</s>", "type_id", jf("t4")}}, jm{"Sequence", jm{"id", "B", "type_id", jf("t5")}}},
			"special_tokens", jm{"<s>", jm{"id", "<s>", "ids", jl{jf("id1")}, "tokens", jl{js("tok1")}}, "</s>", jm{"id", "</s>", "ids", jl{jf("id2"), jf("id3")}, "tokens", jl{js("tok2"), js("tok3")}}}},
			typ: "*processor.TemplateProcessing", want: m{
				"Single[0]": "type:*processor.SpecialTokenPiece", "Single[0].Id": `"<s>"`, "Single[0].TypeId": i("t1"),
				"Single[1]": "type:*processor.SequencePiece", "Single[1].Id": "=processor.A", "Single[1].TypeId": i("t2"),
				"Pair[0]": "type:*processor.SequencePiece", "Pair[0].Id": "=processor.A", "Pair[0].TypeId": i("t3"),
				"Pair[1]": "type:*processor.SpecialTokenPiece", "Pair[1].Id": `"</s>"`, "Pair[1].TypeId": i("t4"),
				"Pair[2]": "type:*processor.SequencePiece", "Pair[2].Id": "=processor.B", "Pair[2].TypeId": i("t5"),
				"SpecialTokens.TokenMap[<s>].Id": `"<s>"`, "SpecialTokens.TokenMap[<s>].Ids": "[" + i("id1") + "]", "SpecialTokens.TokenMap[<s>].Tokens": "[" + s("tok1") + "]",
				"SpecialTokens.TokenMap[</s>].Ids": "[" + i("id2") + " " + i("id3") + "]", "SpecialTokens.TokenMap[</s>].Tokens": "[" + s("tok2") + " " + s("tok3") + "]"}},

		// decoders
		{name: "BPE", fn: cD, cfg: jm{"type", "BPE", "suffix", js("suf")}, typ: "*decoder.BpeDecoder", want: m{"suffix": s("suf")}},
		{name: "BPE default", fn: cD, cfg: jm{"type", "BPE"}, typ: "*decoder.BpeDecoder", want: m{"suffix": `"</w>"`}},
		{name: "ByteLevel", fn: cD, cfg: jm{"type", "ByteLevel", "add_prefix_space", jb("prefix"), "trim_offsets", jb("trim")},
			typ: "*pretokenizer.ByteLevel", want: m{"AddPrefixSpace": s("prefix"), "TrimOffsets": s("trim")}},
		{name: "WordPiece", fn: cD, cfg: jm{"type", "WordPiece", "prefix", js("p"), "cleanup", jb("clean")}, typ: "*decoder.WordPieceDecoder", want: m{"prefix": s("p"), "cleanup": s("clean")}},
		{name: "WordPiece defaults", fn: cD, cfg: jm{"type", "WordPiece"}, typ: "*decoder.WordPieceDecoder", want: m{"prefix": `"##"`, "cleanup": "true"}},
		{name: "Metaspace add_prefix_space", fn: cD, cfg: jm{"type", "Metaspace", "replacement", js("rep"), "add_prefix_space", true},
			typ: "*pretokenizer.Metaspace", want: m{"Replacement": s("rep"), "StrRep": s("rep"), "PrependScheme": "=pretokenizer.Always", "AddPrefixSpace": "true"}},
		{name: "CTC", fn: cD, cfg: jm{"type", "CTC", "pad_token", js("pad"), "word_delimiter_token", js("delim"), "cleanup", jb("clean")}, typ: "*decoder.CTC",
			want: m{"PadToken": s("pad"), "WordDelimiterToken": s("delim"), "Cleanup": s("clean")}},
		{name: "CTC defaults", fn: cD, cfg: jm{"type", "CTC"}, typ: "*decoder.CTC", want: m{"PadToken": `"<pad>"`, "WordDelimiterToken": `"|"`, "Cleanup": "true"}},
		{name: "Sequence order", fn: cD, cfg: jm{"type", "Sequence", "decoders", jl{jm{"type", "Fuse"}, jm{"type", "Strip"}, jm{"type", "Replace"}}},
			typ: "*decoder.Sequence", want: m{"decoders[0]": "made(Fuse)", "decoders[1]": "made(Strip)", "decoders[2]": "made(Replace)"}},
		{name: "Replace string", fn: cD, cfg: jm{"type", "Replace", "pattern", jm{"String", js("pat")}, "content", js("c")},
			typ: "*normalizer.Replace", want: m{"PatternType": "=normalizer.String", "Pattern": "type:*normalizer.StringPattern", "Pattern.string": s("pat"), "Content": s("c")}},
		{name: "Replace regex", fn: cD, cfg: jm{"type", "Replace", "pattern", jm{"Regex", js("pat")}, "content", js("c")},
			typ: "*normalizer.Replace", want: m{"PatternType": "=normalizer.Regex", "Pattern": "type:*normalizer.RegexpPattern", "Content": s("c")}},
		{name: "Strip", fn: cD, cfg: jm{"type", "Strip", "content", js("c"), "start", jf("start"), "stop", jf("stop")}, typ: "*decoder.Strip",
			want: m{"Content": s("c"), "Start": i("start"), "Stop": i("stop")}},

		// truncation and padding
		{name: "absent", fn: cT, nil_: true},
		{name: "absent", fn: cPd, nil_: true},
		{name: "absent", fn: cN, nil_: true}, {name: "absent", fn: cP, nil_: true}, {name: "absent", fn: cPP, nil_: true}, {name: "absent", fn: cD, nil_: true},
	}
	// defaults
	cs = append(cs,
		cfgCase{name: "BertNormalizer defaults", fn: cN, cfg: jm{"type", "BertNormalizer", "lowercase", jb("lower")},
			typ: "*normalizer.BertNormalizer", want: m{"Lowercase": s("lower")}},
		cfgCase{name: "null options count as absent", fn: cD, cfg: jm{"type", "WordPiece", "prefix", nil, "cleanup", nil}, typ: "*decoder.WordPieceDecoder", want: m{"prefix": `"##"`, "cleanup": "true"}},
	)
	for _, b := range []string{"Removed", "Isolated", "MergedWithNext", "MergedWithPrevious", "Contiguous"} {
		want := "=normalizer." + b + "Behavior"
		cs = append(cs,
			cfgCase{name: "Punctuation " + b, fn: cP, cfg: jm{"type", "Punctuation", "behavior", b}, typ: "*pretokenizer.Punctuation", want: m{"Behavior": want}},
			cfgCase{name: "Split " + b, fn: cP, cfg: jm{"type", "Split", "pattern", jm{"Regex", js("pat")}, "behavior", b, "invert", jb("inv")}, typ: "*pretokenizer.Split",
				want: m{"Behavior": want, "Invert": s("inv"), "Pattern": "type:*normalizer.RegexpPattern"}},
			cfgCase{name: "Split string " + b, fn: cP, cfg: jm{"type", "Split", "pattern", jm{"String", js("pat")}, "behavior", b, "invert", jb("inv")}, typ: "*pretokenizer.Split",
				want: m{"Behavior": want, "Invert": s("inv"), "Pattern": "type:*normalizer.StringPattern", "Pattern.string": s("pat")}},
		)
	}
	cs = append(cs, cfgCase{name: "Split unknown behavior", fn: cP, cfg: jm{"type", "Split", "pattern", jm{"Regex", js("pat")}, "behavior", "nonsense", "invert", jb("inv")}, fail: true},
		cfgCase{name: "Punctuation unknown behavior", fn: cP, cfg: jm{"type", "Punctuation", "behavior", "nonsense"}, fail: true},
		cfgCase{name: "Metaspace unknown scheme", fn: cP, cfg: jm{"type", "Metaspace", "replacement", js("rep"), "prepend_scheme", "nonsense"}, fail: true})
	for _, sc := range []string{"Always", "First", "Never"} {
		for _, f := range []string{cP, cD} {
			// the scheme wins over the deprecated flag
			cs = append(cs, cfgCase{name: "Metaspace scheme " + sc, fn: f, cfg: jm{"type", "Metaspace", "replacement", js("rep"), "prepend_scheme", lower(sc), "add_prefix_space", sc == "Never"},
				typ: "*pretokenizer.Metaspace", want: m{"Replacement": s("rep"), "StrRep": s("rep"), "PrependScheme": "=pretokenizer." + sc}})
		}
	}
	for _, st := range []string{"LongestFirst", "OnlyFirst", "OnlySecond"} {
		cs = append(cs, cfgCase{name: st, fn: cT, cfg: jm{"max_length", jf("max"), "stride", jf("stride"), "strategy", st, "direction", "Right"},
			want: m{"MaxLength": i("max"), "Stride": i("stride"), "Strategy": "=tokenizer." + st}})
	}
	cs = append(cs, cfgCase{name: "unknown strategy", fn: cT, cfg: jm{"max_length", jf("max"), "stride", jf("stride"), "strategy", "nonsense"}, fail: true},
		cfgCase{name: "unknown strategy", fn: cPd, cfg: jm{"strategy", "nonsense"}, fail: true},
		cfgCase{name: "unknown strategy object", fn: cPd, cfg: jm{"strategy", jm{"nonsense", jf("n")}}, fail: true})
	for dir, want := range map[string]string{"Left": "Left", "Right": "Right"} {
		rest := m{"Direction": "=tokenizer." + want, "PadId": i("id"), "PadTypeId": i("typ"), "PadToken": s("tok")}
		with := func(k, v string) m {
			o := m{k: v}
			for a, b := range rest {
				o[a] = b
			}
			return o
		}
		tail := jm{"direction", dir, "pad_id", jf("id"), "pad_type_id", jf("typ"), "pad_token", js("tok")}
		cs = append(cs,
			cfgCase{name: "BatchLongest " + dir, fn: cPd, cfg: append(jm{"strategy", "BatchLongest"}, tail...), want: with("Strategy.Name", `"BatchLongest"`)},
			cfgCase{name: "Fixed " + dir, fn: cPd, cfg: append(jm{"strategy", jm{"Fixed", jf("size")}}, tail...), want: with("Strategy.Value", i("size"))},
		)
	}
	cs = append(cs, cfgCase{name: "defaults", fn: cPd, cfg: jm{"strategy", "BatchLongest"}, want: m{"Direction": "=tokenizer.Right", "PadId": "0", "PadTypeId": "0", "PadToken": `"[PAD]"`}})
	return cs
}

func lower(s string) string { return string(s[0]|0x20) + s[1:] }

func c02Cases() []cfgCase {
	var cs []cfgCase
	add := func(fn, typ, want string, more ...interface{}) {
		cs = append(cs, cfgCase{name: typ, fn: fn, cfg: append(jm{"type", typ}, more...), typ: want})
	}
	for k, v := range map[string]string{"NFC": "*normalizer.NFC", "NFD": "*normalizer.NFD", "NFKC": "*normalizer.NFKC", "NFKD": "*normalizer.NFKD", "Lowercase": "*normalizer.DefaultNormalizer",
		"BertNormalizer": "*normalizer.BertNormalizer", "StripNormalizer": "*normalizer.Strip", "Strip": "*normalizer.Strip", "StripAccents": "*normalizer.StripAccents", "Sequence": "*normalizer.Sequence",
		"Prepend": "*normalizer.Prepend"} {
		add(cN, k, v)
	}
	add(cN, "Precompiled", "*normalizer.Precompiled", "precompiled_charsmap", js("map"))
	add(cN, "Replace", "*normalizer.Replace", "pattern", jm{"String", js("p")}, "content", js("c"))
	for k, v := range map[string]string{"BertPreTokenizer": "*pretokenizer.BertPreTokenizer", "ByteLevel": "*pretokenizer.ByteLevel", "Metaspace": "*pretokenizer.Metaspace", "Whitespace": "*pretokenizer.Whitespace",
		"WhitespaceSplit": "*pretokenizer.WhitespaceSplit", "UnicodeScripts": "*pretokenizer.UnicodeScript", "Punctuation": "*pretokenizer.Punctuation", "Digits": "*pretokenizer.Digits"} {
		add(cP, k, v)
	}
	add(cP, "Delimiter", "*pretokenizer.CharDelimiterSplit", "delimiter", js("d"))
	add(cP, "Sequence", "*pretokenizer.Sequence", "pretokenizers", jl{})
	add(cP, "Split", "*pretokenizer.Split", "pattern", jm{"Regex", js("p")}, "behavior", "Isolated", "invert", false)
	sc := []interface{}{"sep", jl{js("sep"), jf("sid")}, "cls", jl{js("cls"), jf("cid")}}
	add(cPP, "RobertaProcessing", "*processor.RobertaProcessing", sc...)
	add(cPP, "BertProcessing", "*processor.BertProcessing", sc...)
	add(cPP, "ByteLevel", "*processor.ByteLevelProcessing")
	add(cPP, "Sequence", "*processor.Sequence", "processors", jl{})
	add(cPP, "TemplateProcessing", "*processor.TemplateProcessing", "single", jl{}, "pair", jl{}, "special_tokens", jm{})
	for k, v := range map[string]string{"BPE": "*decoder.BpeDecoder", "ByteLevel": "*pretokenizer.ByteLevel", "WordPiece": "*decoder.WordPieceDecoder", "Metaspace": "*pretokenizer.Metaspace", "CTC": "*decoder.CTC",
		"Fuse": "*decoder.Fuse", "ByteFallback": "*decoder.ByteFallback"} {
		add(cD, k, v)
	}
	add(cD, "Strip", "*decoder.Strip", "content", js("c"), "start", jf("a"), "stop", jf("b"))
	add(cD, "Sequence", "*decoder.Sequence", "decoders", jl{})
	add(cD, "Replace", "*normalizer.Replace", "pattern", jm{"String", js("p")}, "content", js("c"))
	for _, f := range []string{cN, cP, cPP, cD} {
		cs = append(cs,
			cfgCase{name: "unknown type", fn: f, cfg: jm{"type", "NoSuchComponent"}, fail: true},
			cfgCase{name: "type missing", fn: f, cfg: jm{"other", js("x")}, fail: true},
			cfgCase{name: "type in another case", fn: f, cfg: jm{"type", "sequence"}, fail: true},
			cfgCase{name: "type empty", fn: f, cfg: jm{"type", ""}, fail: true},
			cfgCase{name: "absent", fn: f, nil_: true})
	}
	// other components' names are not accepted
	for f, l := range map[string][]string{cN: {"Digits", "BPE", "BertProcessing", "Whitespace"}, cP: {"NFC", "BPE", "BertProcessing", "WordPiece"}, cPP: {"NFC", "Metaspace", "BPE", "Digits"}, cD: {"NFC", "BertProcessing", "Digits", "Unigram"}} {
		for _, t := range l {
			cs = append(cs, cfgCase{name: "foreign type " + t, fn: f, cfg: jm{"type", t}, fail: true})
		}
	}
	return cs
}
