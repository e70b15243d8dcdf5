RT="dht/routetable.go"; ND="dht/node.go"; RH="dht/requesthandler.go"; RS="dht/resphandler.go"
ADDNODE='''	if bucket.Exist(node) {
		// known node, nothing is added
		return nil
	}

	if !bucket.Add(node) {
		// full bucket just ignore
		rtableLogger.Info("the bucket has full", misc.Dict{"tableSize": t.size, "preLen": preLen})
		return errors.New("the bucket is full")
	}
	t.size++
	return nil
}
'''
FULLCHK='''	if bucket.Full() {
		// full bucket just ignore
		rtableLogger.Info("the bucket has full", misc.Dict{"tableSize": t.size, "preLen": preLen})
		return errors.New("the bucket is full")
	}

'''
READD='''	for _, n := range snodes {
		t.addNode(n, t.solveMaxPreLen(n.Id))
	}
'''
M=[
("ignore-add","C13",[(RT,FULLCHK,""),(RT,ADDNODE,'''	if bucket.Exist(node) {
		return nil
	}
	if bucket.Add(node) {
		t.size++
	}
	return nil
}
''')]),
("known-counts","C13",[(RT,"		// known node, nothing is added\n","		t.size++\n")]),
("no-count","C13",[(RT,"	t.size++\n	return nil\n","	return nil\n")]),
("split-no-sub","C13",[(RT,"	t.size -= sourceBucket.Size()\n","")]),
("split-sub-const","C13",[(RT,"	t.size -= sourceBucket.Size()\n","	t.size -= 1\n")]),
("split-lose","C13",[(RT,READD,"	_ = snodes\n"),(RT,"	t.size -= sourceBucket.Size()\n	","	t.size -= sourceBucket.Size()\n	")]),
("split-ignore-err","C13",[(RT,"	if err := t.addNode(node, t.solveMaxPreLen(node.Id)); err != nil {\n		return err\n	}\n","	t.addNode(node, t.solveMaxPreLen(node.Id))\n")]),
("split-drop-new","C13",[(RT,"	if err := t.addNode(node, t.solveMaxPreLen(node.Id)); err != nil {\n		return err\n	}\n","")]),
("full-nil","C13",[(RT,'		return errors.New("full route table")','		return nil')]),
("full-bucket-nil","C13",[(RT,FULLCHK,FULLCHK.replace('return errors.New("the bucket is full")','return nil'))]),
("ctor-size-0","C13",[(RT,"		size:            1,","		size:            0,")]),
("ctor-no-add","C13",[(RT,"	bucket.Add(hostNode)\n","")]),
("size-last","C13",[(RT,"	defer t.RUnlock()\n	t.RLock()\n	return t.size","	defer t.RUnlock()\n	t.RLock()\n	return t.lastBucketIndex")]),
("size-minus","C13",[(RT,"	defer t.RUnlock()\n	t.RLock()\n	return t.size","	defer t.RUnlock()\n	t.RLock()\n	return t.size - 1")]),
("double-count","C13",[(RT,"	t.size++\n	return nil\n","	t.size += 2\n	return nil\n")]),
("err-after-add","C13",[(RT,"	if preSize+1 != t.nodeCount() {","	if preSize+1 != t.nodeCount() {\n		return errors.New(\"x\")\n	}\n	if false {")]),
("addnode-swallow","C13",[(RT,"	return t.addNode(node, pLen)\n}","	if err := t.addNode(node, pLen); err != nil {\n		rtableLogger.Info(\"x\", nil)\n	}\n	return nil\n}")]),
("ignored-full-race","C13",[(RT,ADDNODE,ADDNODE.replace("	if !bucket.Add(node) {","	ok := bucket.Add(node)\n	t.size++\n	if !ok {"))]),
("split-count-only-left","C13",[(RT,READD,'''	for _, n := range snodes {
		if t.solveMaxPreLen(n.Id) == t.lastBucketIndex {
			newLeftBucket.Add(n)
			t.size++
		} else {
			newRightBucket.Add(n)
		}
	}
''')]),
# C14
("no-exist","C14",[(RT,"	if bucket.Exist(node) {\n		// known node, nothing is added\n		return nil\n	}\n","")]),
("split-nocap","C14",[(RT,'	if t.lastBucketIndex >= t.capacity {\n		rtableLogger.Error("the route','	if t.lastBucketIndex > t.capacity {\n		rtableLogger.Error("the route')]),
("split-nocheck","C14",[(RT,'''	if t.lastBucketIndex >= t.capacity {
		rtableLogger.Error("the route table has full", misc.Dict{"size": t.size})
		return errors.New("full route table")
	}
''','')]),
("split-notfull","C14",[(RT,"	if preLen >= t.lastBucketIndex && !bucket.Exist(node) && bucket.Full() {","	if preLen >= t.lastBucketIndex && !bucket.Exist(node) {")]),
("split-any","C14",[(RT,"	if preLen >= t.lastBucketIndex && !bucket.Exist(node) && bucket.Full() {","	if !bucket.Exist(node) && bucket.Full() {")]),
("split-other","C14",[(RT,"	if preLen >= t.lastBucketIndex && !bucket.Exist","	if preLen >= t.lastBucketIndex-1 && !bucket.Exist")]),
("add-nocheck","C14",[(RT,"	if b.full() {\n		return false\n	}\n	b.nodes[b.size] = node","	b.nodes[b.size] = node")]),
("add-precheck-only","C14",[(RT,"	defer b.Unlock()\n	b.Lock()\n	if b.full() {\n		return false\n	}\n","	defer b.Unlock()\n	b.Lock()\n")]),
("full-gt","C14",[(RT,"	if b.size >= b.cap {","	if b.size > b.cap {")]),
("full-minus","C14",[(RT,"	if b.size >= b.cap {","	if b.size+1 >= b.cap {")]),
("add-append","C14",[(RT,"	if b.full() {\n		return false\n	}\n	b.nodes[b.size] = node\n	b.size++","	b.nodes = append(b.nodes[:b.size], node)\n	b.size++")]),
("add-idx","C14",[(RT,"	b.nodes[b.size] = node\n	b.size++","	b.size++\n	b.nodes[b.size-2] = node")]),
("add-zero","C14",[(RT,"	b.nodes[b.size] = node\n	b.size++","	b.nodes[0] = node\n	b.size++")]),
("add-nocount","C14",[(RT,"	b.nodes[b.size] = node\n	b.size++\n	return true","	b.nodes[b.size] = node\n	return true")]),
("add-false","C14",[(RT,"	b.size++\n	return true","	b.size++\n	return b.size < b.cap")]),
("exist-short","C14",[(RT,"	for i := 0; i < b.size; i++ {","	for i := 0; i < b.size-1; i++ {")]),
("exist-from1","C14",[(RT,"	for i := 0; i < b.size; i++ {","	for i := 1; i < b.size; i++ {")]),
("exist-negated","C14",[(RT,"		if b.nodes[i].Equals(node) {\n			return true\n		}\n	}\n	return false","		if !b.nodes[i].Equals(node) {\n			return false\n		}\n	}\n	return true")]),
("all-cap","C14",[(RT,"	return b.nodes[:b.size]\n","	return b.nodes[:b.cap]\n")]),
("all-short","C14",[(RT,"	return b.nodes[:b.size]\n","	if b.size > 0 {\n		return b.nodes[:b.size-1]\n	}\n	return nil\n")]),
("iter-all","C14",[(RT,"range b.nodes[:b.size]","range b.nodes")]),
("newbucket-k-1","C14",[(RT,"	newRightBucket := NewBucket(t.k)","	newRightBucket := NewBucket(t.k - 1)")]),
("newbucket-cap","C14",[(RT,"	newRightBucket := NewBucket(t.k)","	newRightBucket := NewBucket(t.capacity)")]),
("newbucket-room","C14",[(RT,"make([]*NodeInfo, capacity)","make([]*NodeInfo, capacity-1)")]),
("index-by-2","C14",[(RT,"	t.lastBucketIndex++\n","	t.lastBucketIndex += 2\n")]),
("index-forgot","C14",[(RT,"	t.lastBucketIndex++\n	t.nodeMap[t.lastBucketIndex] = newLeftBucket","	t.nodeMap[t.lastBucketIndex+1] = newLeftBucket")]),
# C15
("id-fold","C15",[(ND,"n.Id == node.Id && ","strings.EqualFold(n.Id, node.Id) && ")]),
("id-dropped","C15",[(ND,"n.Id == node.Id && ","")]),
("id-or","C15",[(ND,"n.Id == node.Id && ","n.Id == node.Id || ")]),
("id-prefix","C15",[(ND,"n.Id == node.Id && ","n.Id[:10] == node.Id[:10] && ")]),
("id-lower","C15",[(ND,"n.Id == node.Id && ","strings.ToLower(n.Id) == strings.ToLower(node.Id) && ")]),
("id-trim","C15",[(ND,"	return &NodeInfo{Id: id, Addr: addr}","	return &NodeInfo{Id: strings.TrimSpace(id), Addr: addr}")]),
("find-fold","C15",[(RT,"		if n.Id == id {","		if strings.EqualFold(n.Id, id) {"),(RT,'	"sync"\n','	"strings"\n	"sync"\n')]),
("find-len","C15",[(RT,"		if n.Id == id {","		if solvePrefixLen(n.Id, id) >= 152 {")]),
("find-first","C15",[(RT,"	for _, n := range nodes {\n		if n.Id == id {\n			return n\n		}\n	}\n	return nil","	for _, n := range nodes {\n		if n.Id == id {\n			return n\n		}\n	}\n	if len(nodes) > 0 {\n		return nodes[0]\n	}\n	return nil")]),
]
P=["C13","C14","C15","C11","C12"]
R=[
("helper-reject",P,[(RT,FULLCHK,'''	if bucket.Full() {
		return t.reject(preLen)
	}

'''),(RT,"// split left and right","func (t *RouteTable) reject(preLen int) error {\n	rtableLogger.Info(\"the bucket has full\", misc.Dict{\"tableSize\": t.size, \"preLen\": preLen})\n	return errors.New(\"the bucket is full\")\n}\n\n// split left and right")]),
("no-full-check",P,[(RT,FULLCHK,"")]),
("positive-add",P,[(RT,ADDNODE,'''	if bucket.Exist(node) {
		return nil
	}
	if bucket.Add(node) {
		t.size++
		return nil
	}
	return errors.New("the bucket is full")
}
''')]),
("exist-var",P,[(RT,"	if preLen >= t.lastBucketIndex && !bucket.Exist(node) && bucket.Full() {","	known, full := bucket.Exist(node), bucket.Full()\n	if known {\n		return nil\n	}\n	if full && t.lastBucketIndex <= preLen {")]),
("split-inline",P,[(RT,READD,'''	for i := 0; i < len(snodes); i++ {
		n := snodes[i]
		t.addNode(n, t.solveMaxPreLen(n.Id))
	}
''')]),
("split-direct",P,[(RT,READD,'''	for _, n := range snodes {
		if t.solveMaxPreLen(n.Id) == t.lastBucketIndex {
			newLeftBucket.Add(n)
		} else {
			newRightBucket.Add(n)
		}
	}
'''),(RT,"	t.size -= sourceBucket.Size()\n","")]),
("split-direct-count",P,[(RT,READD,'''	for _, n := range snodes {
		b := newRightBucket
		if t.solveMaxPreLen(n.Id) == t.lastBucketIndex {
			b = newLeftBucket
		}
		if b.Add(n) {
			t.size++
		}
	}
''')]),
("split-late-sub",P,[(RT,"	t.size -= sourceBucket.Size()\n",""),(RT,"	snodes := sourceBucket.All()\n","	snodes := sourceBucket.All()\n	t.size = t.size - sourceBucket.Size()\n")]),
("split-iter",P,[(RT,"	snodes := sourceBucket.All()\n"+READD,"	sourceBucket.Iterator(func(n *NodeInfo) {\n		t.addNode(n, t.solveMaxPreLen(n.Id))\n	})\n")]),
("split-order",P,[(RT,"	t.nodeMap[t.lastBucketIndex] = newRightBucket\n	t.lastBucketIndex++\n	t.nodeMap[t.lastBucketIndex] = newLeftBucket","	t.nodeMap[t.lastBucketIndex], t.nodeMap[t.lastBucketIndex+1] = newRightBucket, newLeftBucket\n	t.lastBucketIndex++")]),
("split-helper",P,[(RT,"	newLeftBucket := NewBucket(t.k)\n	newRightBucket := NewBucket(t.k)\n	t.nodeMap[t.lastBucketIndex] = newRightBucket\n	t.lastBucketIndex++\n	t.nodeMap[t.lastBucketIndex] = newLeftBucket","	t.growBuckets()"),(RT,"// split left and right","func (t *RouteTable) growBuckets() {\n	t.nodeMap[t.lastBucketIndex] = NewBucket(t.k)\n	t.lastBucketIndex++\n	t.nodeMap[t.lastBucketIndex] = NewBucket(t.k)\n}\n\n// split left and right")]),
("split-noerrvar",P,[(RT,"	if err := t.addNode(node, t.solveMaxPreLen(node.Id)); err != nil {\n		return err\n	}\n	if preSize+1 != t.nodeCount() {\n		rtableLogger.Error(\"the route table add fail\", misc.Dict{\"lastIndex\": t.lastBucketIndex, \"size\": t.size})\n	}\n	return nil","	_ = preSize\n	return t.addNode(node, t.solveMaxPreLen(node.Id))")]),
("full-direct",P,[(RT,"	if b.size >= b.cap {\n		return true\n	}\n	return false","	return b.cap <= b.size")]),
("full-eq",P,[(RT,"	if b.size >= b.cap {\n		return true\n	}\n	return false","	return !(b.size < b.cap)")]),
("exist-range",P,[(RT,"	for i := 0; i < b.size; i++ {\n		if b.nodes[i].Equals(node) {","	for _, n := range b.nodes[:b.size] {\n		if n.Equals(node) {")]),
("exist-flag",P,[(RT,"	for i := 0; i < b.size; i++ {\n		if b.nodes[i].Equals(node) {\n			return true\n		}\n	}\n	return false","	found := false\n	for i := 0; i < b.size && !found; i++ {\n		found = b.nodes[i].Equals(node)\n	}\n	return found")]),
("exist-while",P,[(RT,"	for i := 0; i < b.size; i++ {\n		if b.nodes[i].Equals(node) {\n			return true\n		}\n	}\n	return false","	i := 0\n	for i < b.size {\n		if b.nodes[i].Equals(node) {\n			return true\n		}\n		i++\n	}\n	return false")]),
("exist-rev",P,[(RT,"	for i := 0; i < b.size; i++ {","	for i := b.size - 1; i >= 0; i-- {")]),
("iter-idx",P,[(RT,"	for _, v := range b.nodes[:b.size] {\n		handler(v)\n	}","	for i := 0; i < b.size; i++ {\n		handler(b.nodes[i])\n	}")]),
("iter-all",P,[(RT,"	for _, v := range b.nodes[:b.size] {\n		handler(v)\n	}","	for i, v := range b.nodes {\n		if i >= b.size {\n			break\n		}\n		handler(v)\n	}")]),
("all-copy",P,[(RT,"	return b.nodes[:b.size]\n","	out := make([]*NodeInfo, b.size)\n	copy(out, b.nodes[:b.size])\n	return out\n")]),
("all-copy2",P,[(RT,"	return b.nodes[:b.size]\n","	return append([]*NodeInfo(nil), b.nodes[:b.size]...)\n")]),
("rename-fields",P,[(RT,"	nodes []*NodeInfo\n	size  int\n	cap   int\n","	items []*NodeInfo\n	count int\n	limit int\n"),(RT,"		size:  0,\n		cap:   capacity,\n		nodes: make([]*NodeInfo, capacity),","		limit: capacity,\n		items: make([]*NodeInfo, capacity),"),
 (RT,"i < b.size; i++ {\n		if b.nodes[i]","i < b.count; i++ {\n		if b.items[i]"),(RT,"range b.nodes[:b.size]","range b.items[:b.count]"),(RT,"	b.nodes[b.size] = node\n	b.size++","	b.items[b.count] = node\n	b.count++"),(RT,"	return b.nodes[:b.size]","	return b.items[:b.count]"),(RT,"	return b.size\n","	return b.count\n"),(RT,"b.size >= b.cap","b.count >= b.limit")]),
("add-idxvar",P,[(RT,"	b.nodes[b.size] = node\n	b.size++","	i := b.size\n	b.size = i + 1\n	b.nodes[i] = node")]),
("add-order",P,[(RT,"	b.nodes[b.size] = node\n	b.size++","	b.size++\n	b.nodes[b.size-1] = node")]),
("add-else",P,[(RT,"	if b.full() {\n		return false\n	}\n	b.nodes[b.size] = node\n	b.size++\n	return true","	if !b.full() {\n		b.nodes[b.size] = node\n		b.size++\n		return true\n	}\n	return false")]),
("add-named",P,[(RT,"	if b.full() {\n		return false\n	}\n	b.nodes[b.size] = node\n	b.size++\n	return true","	ok := b.size < b.cap\n	if ok {\n		b.nodes[b.size] = node\n		b.size++\n	}\n	return ok")]),
("eq-negated",P,[(ND,"	if n.Id == node.Id && strings.EqualFold(n.Addr.String(), node.Addr.String()) {\n		return true\n	}\n	return false","	if n.Id != node.Id {\n		return false\n	}\n	return strings.EqualFold(n.Addr.String(), node.Addr.String())")]),
("eq-expr",P,[(ND,"	if node == nil {\n		return false\n	}\n	if n.Id == node.Id && strings.EqualFold(n.Addr.String(), node.Addr.String()) {\n		return true\n	}\n	return false","	return node != nil && n.Id == node.Id && n.Addr.String() == node.Addr.String()")]),
("eq-bytes",P,[(ND,"n.Id == node.Id && ","strings.Compare(n.Id, node.Id) == 0 && ")]),
("eq-helper",P,[(ND,"n.Id == node.Id && ","sameID(n.Id, node.Id) && "),(ND,"func resolveHost(","func sameID(a, b string) bool {\n	return a == b\n}\n\nfunc resolveHost(")]),
("find-var",P,[(RT,"	for _, n := range nodes {\n		if n.Id == id {\n			return n\n		}\n	}\n	return nil","	var found *NodeInfo\n	for _, n := range nodes {\n		if n.Id == id {\n			found = n\n			break\n		}\n	}\n	return found")]),
("find-continue",P,[(RT,"	for _, n := range nodes {\n		if n.Id == id {\n			return n\n		}\n	}\n	return nil","	for i := range nodes {\n		if nodes[i].Id != id {\n			continue\n		}\n		return nodes[i]\n	}\n	return nil")]),
("find-iter",P,[(RT,"	nodes := bucket.All()\n	for _, n := range nodes {\n		if n.Id == id {\n			return n\n		}\n	}\n	return nil","	var found *NodeInfo\n	bucket.Iterator(func(n *NodeInfo) {\n		if found == nil && n.Id == id {\n			found = n\n		}\n	})\n	return found")]),
("cap-flip",P,[(RT,'	if t.lastBucketIndex >= t.capacity {\n		rtableLogger.Error("the route','	if !(t.lastBucketIndex < t.capacity) {\n		rtableLogger.Error("the route')]),
("size-inc",P,[(RT,"	t.size++\n	return nil\n","	t.size = t.size + 1\n	return nil\n")]),
("merge-addnode",P,[(RT,"	return t.addNode(node, pLen)\n}","	err := t.addNode(node, pLen)\n	return err\n}")]),
]
