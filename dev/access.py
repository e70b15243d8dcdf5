T = 'misc/types.go'
GI = '''	dst, ok := d.GetVal(key).(int)
	if !ok {
		PanicBizErr(key + "'s val cannot match type of int")
	}
	return dst
'''
GS = GI.replace('(int)', '(string)').replace('of int', 'of string')
GV = '''	val, exist := (*d)[key]
	if !exist {
		PanicBizErr("cannot find " + key + "'s val")
	}
	return val
'''
VD = '''	dst, exist := (*d)[key]
	if !exist {
		return val
	}
	return dst
'''
ID = '''	dst, ok := d.GetValOrDefault(key, val).(int)
	if !ok {
		return val
	}
	return dst
'''
EX = '''	_, exist := (*d)[key]
	return exist
'''
LI = '''	val, ok := l.GetVal(index).(int)
	if !ok {
		PanicBizErr("val cannot match type of int")
	}
	return val
'''
LX = '	return len(*l) > index\n'
LV = '	return (*l)[index]\n'
M = [
 ('default-lost', 'C42', [(T, VD, VD.replace('dst', 'val'))]),
 ('lower', 'C42', [(T, GV, GV.replace('[key]', '[strings.ToLower(key)]'))]),
 ('trim', 'C42', [(T, GV, GV.replace('	val, e', '	key = strings.TrimSpace(key)\n	val, e'))]),
 ('fallback', 'C42', [(T, GV, GV.replace('	if !exist {', '	if !exist {\n		val, exist = (*d)[key+".utf-8"]\n	}\n	if !exist {'))]),
 ('zero', 'C42', [(T, GI, '	dst, _ := d.GetVal(key).(int)\n	return dst\n')]),
 ('zero-str', 'C42', [(T, GS, '	dst, _ := d.GetVal(key).(string)\n	return dst\n')]),
 ('bare-assert', 'C42', [(T, GI, '	return d.GetVal(key).(int)\n')]),
 ('missing-nil', 'C42', [(T, GV, '	return (*d)[key]\n')]),
 ('missing-only-nil', 'C42', [(T, GV, GV.replace('if !exist {', 'if !exist && len(*d) > 0 {'))]),
 ('panic-string', 'C42', [(T, GV, GV.replace('PanicBizErr("cannot find " + key + "\'s val")', 'panic("cannot find " + key)'))]),
 ('panic-error', 'C42', [(T, GI, GI.replace('PanicBizErr(key + "\'s val cannot match type of int")', 'panic(errors.New(key))')), (T, 'import "strings"', 'import (\n	"errors"\n	"strings"\n)')]),
 ('def-when-zero', 'C42', [(T, ID, ID.replace('if !ok {', 'if !ok || dst == 0 {'))]),
 ('def-never', 'C42', [(T, ID, '	dst, _ := d.GetValOrDefault(key, val).(int)\n	return dst\n')]),
 ('def-inv', 'C42', [(T, VD, VD.replace('!exist', 'exist'))]),
 ('def-panics', 'C42', [(T, ID, ID.replace('GetValOrDefault(key, val)', 'GetVal(key)'))]),
 ('exist-nonnil', 'C42', [(T, EX, '	v, exist := (*d)[key]\n	return exist && v != nil\n')]),
 ('exist-inv', 'C42', [(T, EX, EX.replace('return exist', 'return !exist'))]),
 ('exist-fold', 'C42', [(T, EX, '	for k := range *d {\n		if strings.EqualFold(k, key) {\n			return true\n		}\n	}\n	return false\n')]),
 ('list-zero', 'C42', [(T, LI, '	val, _ := l.GetVal(index).(int)\n	return val\n')]),
 ('list-off', 'C42', [(T, LV, '	return (*l)[index+1]\n')]),
 ('list-back', 'C42', [(T, LV, '	return (*l)[len(*l)-1-index]\n')]),
 ('list-wrap', 'C42', [(T, LV, '	return (*l)[index%len(*l)]\n')]),
 ('list-exist', 'C42', [(T, LX, LX.replace('>', '>='))]),
 ('list-exist2', 'C42', [(T, LX, '	return len(*l) > index+1\n')]),
 ('list-nil', 'C42', [(T, LV, '	if index >= len(*l) {\n		return nil\n	}\n' + LV)]),
 ('consume', 'C42', [(T, GV, GV.replace('	return val', '	delete(*d, key)\n	return val'))]),
 ('cache', 'C42', [(T, VD, VD.replace('		return val', '		(*d)[key] = val\n		return val'))]),
 ('int-from-string', 'C42', [(T, GI, '''	v := d.GetVal(key)
	if sv, ok := v.(string); ok {
		return len(sv)
	}
	dst, ok := v.(int)
	if !ok {
		PanicBizErr(key + "'s val cannot match type of int")
	}
	return dst
''')]),
 ('neg-clamp', 'C42', [(T, GI, GI.replace('	return dst', '	if dst < 0 {\n		return 0\n	}\n	return dst'))]),
 ('log-no-panic', 'C42', [(T, GS, GS.replace('PanicBizErr(', 'println('))]),
]
R = [
 ('switch', ['C42', 'C02', 'C08'], [(T, GI, '''	switch v := d.GetVal(key).(type) {
	case int:
		return v
	default:
		PanicBizErr(key + "'s val cannot match type of int")
	}
	return 0
''')]),
 ('if-ok', ['C42', 'C08'], [(T, GI, '''	if dst, ok := d.GetVal(key).(int); ok {
		return dst
	}
	PanicBizErr(key + "'s val cannot match type of int")
	return 0
''')]),
 ('inline', ['C42', 'C08'], [(T, GS, '''	val, exist := (*d)[key]
	if !exist {
		PanicBizErr("cannot find " + key + "'s val")
	}
	dst, ok := val.(string)
	if !ok {
		PanicBizErr(key + "'s val cannot match type of string")
	}
	return dst
''')]),
 ('helper', ['C42', 'C08'], [(T, GV, '''	val, exist := d.find(key)
	if !exist {
		PanicBizErr("cannot find " + key + "'s val")
	}
	return val
'''), (T, 'type List []', 'func (d *Dict) find(key string) (interface{}, bool) {\n	m := *d\n	v, ok := m[key]\n	return v, ok\n}\n\ntype List []'), (T, EX, '	_, exist := d.find(key)\n	return exist\n')]),
 ('direct-panic', ['C42'], [(T, GV, GV.replace('PanicBizErr("cannot find " + key + "\'s val")', 'panic(NewError(GenericErr, "cannot find "+key+"\'s val", false))'))]),
 ('exist-if', ['C42'], [(T, EX, '	if _, ok := (*d)[key]; ok {\n		return true\n	}\n	return false\n'), (T, LX, '	if index < len(*l) {\n		return true\n	}\n	return false\n')]),
 ('exist-nonneg', ['C42'], [(T, LX, '	return index >= 0 && index < len(*l)\n')]),
 ('def-exist', ['C42'], [(T, VD, '	if d.Exist(key) {\n		return (*d)[key]\n	}\n	return val\n')]),
 ('def-other', ['C42'], [(T, ID, '	if !d.Exist(key) {\n		return val\n	}\n	dst, ok := d.GetVal(key).(int)\n	if !ok {\n		dst = val\n	}\n	return dst\n')]),
 ('list-check', ['C42'], [(T, LV, '	if !l.Exist(index) {\n		PanicBizErr("no such element")\n	}\n' + LV)]),
 ('nilcheck', ['C42'], [(T, GV, '	if *d == nil {\n		PanicBizErr("cannot find " + key + "\'s val")\n	}\n' + GV)]),
]
