RT = 'dht/routetable.go'
BITS = 'misc/bits.go'
PFX = '''	for i, v := range bytes {
		if v != 0 {
			return i*8 + bits.LeadingZeros8(v)
		}
	}
	return len(bytes) * 8
'''
SOLVE = '''	pLen := solvePrefixLen(id, t.hnode.Id)
	if pLen <= t.lastBucketIndex {
		return pLen
	}
	return t.lastBucketIndex
'''
MOVE = '''	for _, n := range snodes {
		t.addNode(n, t.solveMaxPreLen(n.Id))
	}
'''
FINDL = '''	for _, n := range nodes {
		if n.Id == id {
			return n
		}
	}
	return nil
'''
M = [
 ('xor-or', 'C43', [(BITS, 'a[i] ^ b[i]', 'a[i] | b[i]')]),
 ('xor-and', 'C43', [(BITS, 'a[i] ^ b[i]', 'a[i] &^ b[i]')]),
 ('xor-0', 'C43', [(BITS, 'a[i] ^ b[i]', 'a[i] ^ b[0]')]),
 ('xor-rev', 'C43', [(BITS, 'a[i] ^ b[i]', 'a[i] ^ b[minLen-1-i]')]),
 ('xor-short', 'C43', [(BITS, 'i < minLen;', 'i < minLen-1;')]),
 ('xor-start', 'C43', [(BITS, 'i := 0;', 'i := 1;')]),
 ('xor-inplace', 'C43', [(BITS, 'dst := make([]byte, minLen)', 'dst := a[:minLen]')]),
 ('xor-skip', 'C43', [(BITS, '		dst[i] = ', '		if a[i] == 0 {\n			continue\n		}\n		dst[i] = ')]),
 ('xor-longer', 'C43', [(BITS, 'dst := make([]byte, minLen)', 'dst := make([]byte, len(a))')]),
 ('xor-20', 'C43', [(BITS, 'i < minLen;', 'i < minLen && i < 16;')]),
 ('pfx-trailing', 'C43', [(RT, 'LeadingZeros8(v)', 'TrailingZeros8(v)')]),
 ('pfx-16', 'C43', [(RT, 'LeadingZeros8(v)', 'LeadingZeros16(uint16(v))')]),
 ('pfx-len', 'C43', [(RT, 'LeadingZeros8(v)', 'Len8(v)')]),
 ('pfx-plus', 'C43', [(RT, 'return i*8 + bits', 'return i*8 + 1 + bits')]),
 ('pfx-4', 'C43', [(RT, 'return i*8 + bits', 'return i*4 + bits')]),
 ('pfx-minus', 'C43', [(RT, 'return i*8 + bits', 'return i*8 - bits')]),
 ('pfx-bytes', 'C43', [(RT, 'return len(bytes) * 8', 'return len(bytes)')]),
 ('pfx-zero', 'C43', [(RT, 'return len(bytes) * 8', 'return 0')]),
 ('pfx-skip', 'C43', [(RT, '		if v != 0 {', '		if v != 0 && i > 0 {')]),
 ('pfx-gt1', 'C43', [(RT, '		if v != 0 {', '		if v > 1 {')]),
 ('pfx-first', 'C43', [(RT, 'range bytes {', 'range bytes[1:] {')]),
 ('pfx-a', 'C43', [(RT, PFX, '''	for i, v := range bytes {
		if v != 0 {
			return i*8 + bits.LeadingZeros8(a[i])
		}
	}
	return len(bytes) * 8
''')]),
 ('pfx-stop', 'C43', [(RT, PFX, '''	for i, v := range bytes {
		if v != 0 {
			return i*8 + bits.LeadingZeros8(v)
		}
		if i == 15 {
			break
		}
	}
	return len(bytes) * 8
''')]),
 ('pfx-same', 'C43', [(RT, 'misc.Xor([]byte(a), []byte(b))', 'misc.Xor([]byte(a), []byte(a))')]),
 ('idx-lt', 'C43', [(RT, SOLVE, SOLVE.replace('	return t.lastBucketIndex\n', '	return t.lastBucketIndex - 1\n'))]),
 ('idx-nomin', 'C43', [(RT, SOLVE, SOLVE.replace('		return pLen\n', '		return t.lastBucketIndex\n'))]),
 ('idx-wrap', 'C43', [(RT, SOLVE, SOLVE.replace('	return t.lastBucketIndex\n', '	return 0\n'))]),
 ('idx-own', 'C43', [(RT, 'solvePrefixLen(id, t.hnode.Id)', 'solvePrefixLen(id, localNodeId)')]),
 ('idx-self', 'C43', [(RT, 'pLen := t.solveMaxPreLen(node.Id)\n	return t.addNode', 'pLen := t.solveMaxPreLen(t.hnode.Id)\n	return t.addNode')]),
 ('idx-last', 'C43', [(RT, 'pLen := t.solveMaxPreLen(node.Id)\n	return t.addNode', 'pLen := t.lastBucketIndex\n	return t.addNode')]),
 ('move-last', 'C43', [(RT, '		t.addNode(n, t.solveMaxPreLen(n.Id))', '		t.addNode(n, t.lastBucketIndex)')]),
 ('move-prev', 'C43', [(RT, '		t.addNode(n, t.solveMaxPreLen(n.Id))', '		t.addNode(n, t.lastBucketIndex-1)')]),
 ('move-new', 'C43', [(RT, '		t.addNode(n, t.solveMaxPreLen(n.Id))', '		t.addNode(n, t.solveMaxPreLen(node.Id))')]),
 ('move-stale', 'C43', [(RT, '	snodes := sourceBucket', '	idx := t.solveMaxPreLen(node.Id) - 1\n	snodes := sourceBucket'), (RT, 'err := t.addNode(node, t.solveMaxPreLen(node.Id))', 'err := t.addNode(node, idx)')]),
 ('move-before', 'C43', [(RT, '	preSize := t.size\n', '	preSize := t.size\n	idx := t.solveMaxPreLen(node.Id)\n'), (RT, 'err := t.addNode(node, t.solveMaxPreLen(node.Id))', 'err := t.addNode(node, idx)')]),
 ('move-skip0', 'C43', [(RT, MOVE, '''	for i := 1; i < len(snodes); i++ {
		t.addNode(snodes[i], t.solveMaxPreLen(snodes[i].Id))
	}
''')]),
 ('move-skipown', 'C43', [(RT, MOVE, '''	for _, n := range snodes {
		if n.Id == t.hnode.Id {
			continue
		}
		t.addNode(n, t.solveMaxPreLen(n.Id))
	}
''')]),
 ('move-half', 'C43', [(RT, MOVE, '''	for i := 0; i < len(snodes)/2; i++ {
		t.addNode(snodes[i], t.solveMaxPreLen(snodes[i].Id))
	}
''')]),
 ('move-stop', 'C43', [(RT, MOVE, '''	for _, n := range snodes {
		if t.addNode(n, t.solveMaxPreLen(n.Id)) != nil {
			break
		}
		if t.nodeMap[t.lastBucketIndex].Size() > t.k/2 {
			break
		}
	}
''')]),
 ('find-last', 'C43', [(RT, '''	preLen := t.solveMaxPreLen(id)
	bucket := t.nodeMap[preLen]
''', '''	bucket := t.nodeMap[t.lastBucketIndex]
''')]),
 ('find-min', 'C43', [(RT, '''	preLen := t.solveMaxPreLen(id)
	bucket := t.nodeMap[preLen]
''', '''	preLen := solvePrefixLen(id, t.hnode.Id)
	if preLen >= t.lastBucketIndex {
		preLen = t.lastBucketIndex - 1
	}
	bucket := t.nodeMap[preLen]
''')]),
 ('find-short', 'C43', [(RT, FINDL, '''	for i := 0; i < len(nodes)-1; i++ {
		if nodes[i].Id == id {
			return nodes[i]
		}
	}
	return nil
''')]),
 ('find-start', 'C43', [(RT, FINDL, '''	for i := 1; i < len(nodes); i++ {
		if nodes[i].Id == id {
			return nodes[i]
		}
	}
	return nil
''')]),
 ('find-firstonly', 'C43', [(RT, FINDL, '''	for _, n := range nodes {
		if n.Id == id {
			return n
		}
		if n.Id > id {
			break
		}
	}
	return nil
''')]),
]
R = [
 ('xor-swap', ['C43'], [(BITS, 'a[i] ^ b[i]', 'b[i] ^ a[i]')]),
 ('xor-range', ['C43'], [(BITS, 'for i := 0; i < minLen; i++ {', 'for i := range dst {')]),
 ('xor-tmp', ['C43'], [(BITS, '		dst[i] = a[i] ^ b[i]\n', '		x := a[i]\n		x ^= b[i]\n		dst[i] = x\n')]),
 ('xor-down', ['C43'], [(BITS, 'for i := 0; i < minLen; i++ {', 'for i := minLen - 1; i >= 0; i-- {')]),
 ('xor-append', ['C43'], [(BITS, 'dst := make([]byte, minLen)', 'dst := make([]byte, 0, minLen)'), (BITS, 'dst[i] = a[i] ^ b[i]', 'dst = append(dst, a[i]^b[i])')]),
 ('pfx-index', ['C43'], [(RT, PFX, '''	for i := 0; i < len(bytes); i++ {
		if bytes[i] == 0 {
			continue
		}
		return i*8 + bits.LeadingZeros8(bytes[i])
	}
	return len(bytes) * 8
''')]),
 ('pfx-acc', ['C43'], [(RT, PFX, '''	n := 0
	for _, v := range bytes {
		if v != 0 {
			return n + bits.LeadingZeros8(v)
		}
		n += 8
	}
	return n
''')]),
 ('pfx-acc2', ['C43'], [(RT, PFX, '''	n := 0
	for _, v := range bytes {
		n += bits.LeadingZeros8(v)
		if v != 0 {
			break
		}
	}
	return n
''')]),
 ('pfx-direct', ['C43'], [(RT, 'bytes := misc.Xor([]byte(a), []byte(b))', 'minLen := len(a)\n	if minLen > len(b) {\n		minLen = len(b)\n	}'), (RT, PFX, '''	for i := 0; i < minLen; i++ {
		if a[i] != b[i] {
			return i*8 + bits.LeadingZeros8(a[i]^b[i])
		}
	}
	return minLen * 8
'''), (RT, '	"github.com/GalaIO/P2Pcrawler/misc"\n', '	"github.com/GalaIO/P2Pcrawler/misc"\n')]),
 ('pfx-shift', ['C43'], [(RT, 'return i*8 + bits', 'return i<<3 + bits')]),
 ('idx-min', ['C43'], [(RT, SOLVE, '''	pLen := solvePrefixLen(t.hnode.Id, id)
	if pLen > t.lastBucketIndex {
		pLen = t.lastBucketIndex
	}
	return pLen
''')]),
 ('idx-inline', ['C43'], [(RT, '	pLen := t.solveMaxPreLen(node.Id)\n	return t.addNode(node, pLen)\n', '	return t.addNode(node, t.solveMaxPreLen(node.Id))\n')]),
 ('add-noidx', ['C43'], [(RT, '	pLen := t.solveMaxPreLen(node.Id)\n	return t.addNode(node, pLen)\n', '	return t.addNode(node)\n'), (RT, 'addNode(node *NodeInfo, preLen int) error {\n', 'addNode(node *NodeInfo) error {\n	preLen := t.solveMaxPreLen(node.Id)\n'), (RT, 't.addNode(n, t.solveMaxPreLen(n.Id))', 't.addNode(n)'), (RT, 't.addNode(node, t.solveMaxPreLen(node.Id))', 't.addNode(node)')]),
 ('move-direct', ['C43'], [(RT, MOVE, '''	for _, n := range snodes {
		if t.nodeMap[t.solveMaxPreLen(n.Id)].Add(n) {
			t.size++
		}
	}
''')]),
 ('move-lr', ['C43'], [(RT, MOVE, '''	for _, n := range snodes {
		target := newRightBucket
		if t.solveMaxPreLen(n.Id) == t.lastBucketIndex {
			target = newLeftBucket
		}
		if target.Add(n) {
			t.size++
		}
	}
''')]),
 ('move-iter', ['C43'], [(RT, '	snodes := sourceBucket.All()\n' + MOVE, '''	sourceBucket.Iterator(func(n *NodeInfo) {
		t.addNode(n, t.solveMaxPreLen(n.Id))
	})
''')]),
 ('move-index', ['C43'], [(RT, MOVE, '''	for i := 0; i < len(snodes); i++ {
		t.addNode(snodes[i], t.solveMaxPreLen(snodes[i].Id))
	}
''')]),
 ('find-index', ['C43'], [(RT, FINDL, '''	for i := 0; i < len(nodes); i++ {
		if nodes[i].Id == id {
			return nodes[i]
		}
	}
	return nil
''')]),
 ('find-var', ['C43'], [(RT, FINDL, '''	var found *NodeInfo
	for _, n := range nodes {
		if n.Id == id {
			found = n
			break
		}
	}
	return found
''')]),
 ('find-iter', ['C43'], [(RT, '	nodes := bucket.All()\n' + FINDL, '''	var found *NodeInfo
	bucket.Iterator(func(n *NodeInfo) {
		if found == nil && n.Id == id {
			found = n
		}
	})
	return found
''')]),
 ('find-inline', ['C43'], [(RT, '''	preLen := t.solveMaxPreLen(id)
	bucket := t.nodeMap[preLen]
	nodes := bucket.All()
''', '''	nodes := t.nodeMap[t.solveMaxPreLen(id)].All()
''')]),
]
