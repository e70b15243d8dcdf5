BC = 'misc/beancode.go'
A = '''err != nil || strconv.Itoa(result) != src[start+1:i] {'''
B = '''slen > len(src)-idx-1 || strconv.Itoa(slen) != src[start:idx] {'''
C = '''len(subs[1]) != slen || strconv.Itoa(slen) != subs[0] {'''
LOOP = '''		// pass -0 -02
		if src[i-1] == '-' && src[i] == '0' {
			return 0, -1, WrongDecodeParamErr
		}

		// pass 00 02
		if src[i-1] == 'i' && src[i] == '0' && i+1 < len(src) && src[i+1] != 'e' {
			return 0, -1, WrongDecodeParamErr
		}
'''
END = '''func indexFirstByteInStr('''
M = [
 ('no-int', 'C39', [(BC, A, 'err != nil {')]),
 ('no-str', 'C39', [(BC, B, 'slen > len(src)-idx-1 {')]),
 ('no-top', 'C39', [(BC, C, 'len(subs[1]) != slen {')]),
 ('int-and', 'C39', [(BC, A, '''err != nil || strconv.Itoa(result) != src[start+1:i] && result > 9 {''')]),
 ('int-eq', 'C39', [(BC, A, '''err != nil || strconv.Itoa(result) == "+"+src[start+1:i] {''')]),
 ('str-other', 'C39', [(BC, B, '''slen > len(src)-idx-1 || strconv.Itoa(slen) != strconv.Itoa(slen+0) {''')]),
 ('int-zero', 'C39', [(BC, A, '''err != nil || (result != 0 && strconv.Itoa(result) != src[start+1:i]) {'''), (BC, LOOP, '')]),
 ('str-len', 'C39', [(BC, B, '''slen > len(src)-idx-1 || (slen > 0 && strconv.Itoa(slen) != src[start:idx]) {''')]),
 ('top-atleast', 'C39', [(BC, C, '''len(subs[1]) != slen || len(strconv.Itoa(slen)) > len(subs[0]) {''')]),
]
R = [
 ('helper', ['C39', 'C04'], [(BC, '''		result, err := strconv.Atoi(src[start+1 : i])
		// a number has only one valid form, Atoi also takes +5
		if err != nil || strconv.Itoa(result) != src[start+1:i] {''', '''		result, err := parseNumber(src[start+1 : i])
		if err != nil {'''), (BC, '''	slen, err := strconv.Atoi(src[start:idx])
	if err != nil {''', '''	slen, err := parseNumber(src[start:idx])
	if err != nil {'''), (BC, B, 'slen > len(src)-idx-1 {'), (BC, '''	slen, err := strconv.Atoi(subs[0])
	if err''', '''	slen, err := parseNumber(subs[0])
	if err'''), (BC, C, 'len(subs[1]) != slen {'), (BC, END, '''func parseNumber(text string) (int, error) {
	n, err := strconv.Atoi(text)
	if err != nil {
		return 0, err
	}
	if text != strconv.Itoa(n) {
		return 0, WrongDecodeParamErr
	}
	return n, nil
}
func indexFirstByteInStr(''')]),
 ('bool-helper', ['C39'], [(BC, A, 'err != nil || !canonical(src[start+1:i], result) {'), (BC, END, '''func canonical(text string, n int) bool {
	return strconv.Itoa(n) == text
}
func indexFirstByteInStr(''')]),
 ('var', ['C39'], [(BC, '''		if err != nil || strconv.Itoa(result) != src[start+1:i] {''', '''		text := strconv.Itoa(result)
		same := text == src[start+1:i]
		if err != nil || !same {''')]),
 ('inverted', ['C39'], [(BC, '''	if len(subs[1]) != slen || strconv.Itoa(slen) != subs[0] {
		return "", WrongDecodeParamErr
	}

	return subs[1], nil''', '''	if len(subs[1]) == slen && strconv.Itoa(slen) == subs[0] {
		return subs[1], nil
	}
	return "", WrongDecodeParamErr''')]),
 ('formatint', ['C39'], [(BC, A, '''err != nil || strconv.FormatInt(int64(result), 10) != src[start+1:i] {''')]),
 ('parseint', ['C39'], [(BC, '''		result, err := strconv.Atoi(src[start+1 : i])''', '''		big, err := strconv.ParseInt(src[start+1:i], 10, 0)
		result := int(big)''')]),
 ('scan', ['C39'], [(BC, A, 'err != nil || src[start+1] == \'+\' {')]),
 ('len', ['C39'], [(BC, A, 'err != nil || len(strconv.Itoa(result)) != i-start-1 {')]),
 ('loop-gone', ['C39', 'C04', 'C02'], [(BC, LOOP, '')]),
 ('two-ifs', ['C39'], [(BC, '''		if err != nil || strconv.Itoa(result) != src[start+1:i] {''', '''		if err != nil {
			return 0, -1, WrongDecodeParamErr
		}
		if digits := src[start+1 : i]; digits != strconv.Itoa(result) {''')]),
]
