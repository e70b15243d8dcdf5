B="misc/beancode.go"
M=[
("str-start-unchecked","C02",[(B,"	if start >= len(src) {\n		return \"\", -1, WrongDecodeParamErr\n	}\n",""),]),
("str-neg","C02",[(B,"slen < 0 || ","")]),
("slice-loop-bound","C02",[(B,"for i < len(src) && src[i] != 'e' {\n		tmp","for src[i] != 'e' {\n		tmp")]),
("dict-key-assert","C02",[(B,"key, ok := ktmp.(string)\n		if !ok {\n			return nil, -1, WrongDecodeParamErr\n		}","key := ktmp.(string)")]),
("slice-noconsume","C02",[(B,"i = nextIdx","if nextIdx > i+64 {\n			i = nextIdx\n		}")]),
("decodedict-short","C02",[(B,"tLen := len(src)\n	if tLen < 2 {\n		return nil, WrongDecodeParamErr\n	}\n\n	if src[0] != 'd' || src[tLen-1] != 'e' {","tLen := len(src)\n	if src[0] != 'd' || src[tLen-1] != 'e' {")]),
("unterminated","C03",[(B,"	// the terminator is missing\n	if i >= len(src) {\n		return nil, -1, WrongDecodeParamErr\n	}\n	return result, i + 1, nil","	return result, i + 1, nil")]),
("trailing-dict","C03",[(B,"	if next != len(src) {\n		return nil, WrongDecodeParamErr\n	}\n\n	return result, nil","	_ = next\n	return result, nil")]),
("trailing-dict2","C03",[(B,"	if next != len(src) {\n		return nil, WrongDecodeParamErr\n	}\n\n	return result, nil","	if next > len(src) {\n		return nil, WrongDecodeParamErr\n	}\n	return result, nil")]),
("nested-swallow","C03",[(B,"		tmp, nextIdx, err := decodeItem(src, i)\n		if err != nil {\n			return nil, -1, err\n		}","		tmp, nextIdx, err := decodeItem(src, i)\n		if err != nil {\n			break\n		}")]),
("nested-partial","C03",[(B,"		val, next, err := decodeItem(src, next)\n		if err != nil {\n			return nil, -1, err\n		}","		val, next, err := decodeItem(src, next)\n		if err != nil {\n			return result, i + 1, nil\n		}")]),
("nil-list","C03",[(B,"result := make(List, 0, 16)","var result List")]),
("drop-elem","C03",[(B,"		result = append(result, tmp)\n","		if tmp != nil && len(result) < 64 {\n			result = append(result, tmp)\n		}\n")]),
("enc-default","C04",[(B,"	default:\n		err = WrongDecodeParamErr\n	}\n	return tmp, err","	}\n	return tmp, err")]),
("enc-runelen","C04",[(B,"strconv.Itoa(len(src)) + \":\" + src, nil","strconv.Itoa(len([]rune(src))) + \":\" + src, nil")]),
("enc-partial","C04",[(B,"		tmp, err := encodeItem(item)\n		if err != nil {\n			return \"\", err\n		}","		tmp, err := encodeItem(item)\n		if err != nil {\n			continue\n		}")]),
("enc-partial2","C04",[(B,"		vtmp, err := encodeItem(v)\n		if err != nil {\n			return \"\", err\n		}","		vtmp, err := encodeItem(v)\n		if err != nil {\n			return str, err\n		}")]),
("enc-tag","C04",[(B,'return "l" + res + "e", nil','return "d" + res + "e", nil')]),
("enc-assert","C04",[(B,"	case List:\n		tmp, err = EncodeSlice(v)","	case []interface{}:\n		tmp, err = EncodeSlice(List(v))")]),
("enc-key-order","C04",[(B,"		str += vtmp\n","		str = vtmp + str\n")]),
]
R=[
("codec-switch",["C02","C03","C04"],[(B,"""	if src[i] == 'i' {
		return innerDecodeInteger(src, i)
	} else if src[i] == 'l' {
		return innerDecodeSlice(src, i)
	} else if src[i] == 'd' {
		return innerDecodeDict(src, i)
	} else if src[i] >= '0' && src[i] <= '9' {
		return innerDecodeString(src, i)
	} else {
		return nil, -1, WrongDecodeParamErr
	}
""","""	switch c := src[i]; {
	case c == 'i':
		return innerDecodeInteger(src, i)
	case c == 'l':
		return innerDecodeSlice(src, i)
	case c == 'd':
		return innerDecodeDict(src, i)
	case c >= '0' && c <= '9':
		return innerDecodeString(src, i)
	}
	return nil, -1, WrongDecodeParamErr
""")]),
("codec-slice-for",["C02","C03","C04"],[(B,"""	result := make(List, 0, 16)
	i := start + 1
	for i < len(src) && src[i] != 'e' {
		tmp, nextIdx, err := decodeItem(src, i)
		if err != nil {
			return nil, -1, err
		}
		result = append(result, tmp)
		i = nextIdx
	}
	// the terminator is missing
	if i >= len(src) {
		return nil, -1, WrongDecodeParamErr
	}
	return result, i + 1, nil
""","""	var items = List{}
	for pos := start + 1; pos < len(src); {
		if src[pos] == 'e' {
			return items, pos + 1, nil
		}
		item, after, err := decodeItem(src, pos)
		if err != nil {
			return nil, -1, err
		}
		items, pos = append(items, item), after
	}
	return nil, -1, WrongDecodeParamErr
""")]),
("codec-helper",["C02","C03","C04"],[(B,"""	idx := indexFirstByteInStr(src, start, len(src), ':')
	if idx <= start {
		return "", -1, WrongDecodeParamErr
	}

	slen, err := strconv.Atoi(src[start:idx])
	if err != nil {
		return "", -1, err
	}
""","""	slen, idx, err := parseLen(src, start)
	if err != nil {
		return "", -1, err
	}
"""),(B,"func innerDecodeString","""func parseLen(src string, start int) (int, int, error) {
	idx := indexFirstByteInStr(src, start, len(src), ':')
	if idx <= start {
		return 0, -1, WrongDecodeParamErr
	}
	n, err := strconv.Atoi(src[start:idx])
	return n, idx, err
}

func innerDecodeString""")]),
("codec-enc-builder",["C02","C03","C04","C05"],[(B,"""	res := ""
	for _, item := range src {
		tmp, err := encodeItem(item)
		if err != nil {
			return "", err
		}
		res += tmp
	}

	return "l" + res + "e", nil""","""	var sb strings.Builder
	sb.WriteByte('l')
	for i := 0; i < len(src); i++ {
		tmp, err := encodeItem(src[i])
		if err != nil {
			return "", err
		}
		sb.WriteString(tmp)
	}
	sb.WriteByte('e')
	return sb.String(), nil""")]),
("codec-enc-dict",["C04","C05"],[(B,"""		ktmp, err := EncodeString(k)
		if err != nil {
			return "", err
		}
		str += ktmp

		vtmp, err := encodeItem(v)
		if err != nil {
			return "", err
		}
		str += vtmp
	}
	return "d" + str + "e", nil""","""		pair, err := encodePair(k, v)
		if err != nil {
			return "", err
		}
		str = str + pair
	}
	return "d" + str + "e", nil"""),(B,"func DecodeDict(","""func encodePair(k string, v interface{}) (string, error) {
	ktmp, err := EncodeString(k)
	if err != nil {
		return "", err
	}
	vtmp, err := encodeItem(v)
	if err != nil {
		return "", err
	}
	return ktmp + vtmp, nil
}

func DecodeDict(""")]),
("codec-enc-return",["C04","C05"],[(B,"""	var err error
	var tmp string
	switch v := item.(type) {
	case int:
		tmp, err = EncodeInteger(v)
	case string:
		tmp, err = EncodeString(v)
	case List:
		tmp, err = EncodeSlice(v)
	case Dict:
		tmp, err = EncodeDict(v)
	default:
		err = WrongDecodeParamErr
	}
	return tmp, err""","""	if n, ok := item.(int); ok {
		return EncodeInteger(n)
	}
	if s, ok := item.(string); ok {
		return EncodeString(s)
	}
	switch v := item.(type) {
	case Dict:
		return EncodeDict(v)
	case List:
		return EncodeSlice(v)
	}
	return "", WrongDecodeParamErr""")]),
("codec-index",["C02","C03"],[(B,"	idx := indexFirstByteInStr(src, start, len(src), ':')\n	if idx <= start {","	idx := strings.IndexByte(src[start:], ':') + start\n	if idx <= start {")]),
]
