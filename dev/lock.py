SM="misc/syncmap.go"; RT="dht/routetable.go"; ND="dht/node.go"; LG="misc/logger.go"; SH="misc/shutdown.go"; WP="misc/workpool.go"; CF="config/config.go"; UD="dht/krpc/udp.go"
M=[
("get-nolock","C11",[(SM,"func (m *SyncMap) Get(key string) (interface{}, bool) {\n\tdefer m.Unlock()\n\tm.Lock()\n","func (m *SyncMap) Get(key string) (interface{}, bool) {\n")]),
("put-nolock","C11",[(SM,"\tdefer m.Unlock()\n\tm.Lock()\n\tm.mapping[key] = handler","\tm.mapping[key] = handler")]),
("del-lock-late","C11",[(SM,"\tdefer m.Unlock()\n\tm.Lock()\n\tif _, ok := m.mapping[txId]; !ok {\n\t\treturn\n\t}\n","\tif _, ok := m.mapping[txId]; !ok {\n\t\treturn\n\t}\n\tdefer m.Unlock()\n\tm.Lock()\n")]),
("take-split","C11",[(SM,"\tval, ok := m.mapping[key]\n\tdelete(m.mapping, key)\n\treturn val, ok","\tval, ok := m.mapping[key]\n\tm.Unlock()\n\tm.Lock()\n\tdelete(m.mapping, key)\n\treturn val, ok")]),
("bucket-rlock-write","C11",[(RT,"\tdefer b.Unlock()\n\tb.Lock()\n\tif b.full()","\tdefer b.RUnlock()\n\tb.RLock()\n\tif b.full()")]),
("bucket-no-recheck","C11",[(RT,"\tif b.full() {\n\t\treturn false\n\t}\n\tb.nodes[b.size] = node","\tb.nodes[b.size] = node")]),
("bucket-size-nolock","C11",[(RT,"func (b *Bucket) Size() int {\n\tdefer b.RUnlock()\n\tb.RLock()\n","func (b *Bucket) Size() int {\n")]),
("table-size-nolock","C11",[(RT,"func (t *RouteTable) Size() int {\n\tdefer t.RUnlock()\n\tt.RLock()\n","func (t *RouteTable) Size() int {\n")]),
("addnode-rlock","C11",[(RT,"\tdefer t.Unlock()\n\tt.Lock()\n\tpLen := t.solveMaxPreLen(node.Id)","\tdefer t.RUnlock()\n\tt.RLock()\n\tpLen := t.solveMaxPreLen(node.Id)")]),
("addnode-prelen-before","C11",[(RT,"\tdefer t.Unlock()\n\tt.Lock()\n\tpLen := t.solveMaxPreLen(node.Id)\n","\tpLen := t.solveMaxPreLen(node.Id)\n\tdefer t.Unlock()\n\tt.Lock()\n")]),
("find-nolock","C11",[(RT,"func (t *RouteTable) Find(id string) *NodeInfo {\n\tdefer t.RUnlock()\n\tt.RLock()\n","func (t *RouteTable) Find(id string) *NodeInfo {\n")]),
("next-split","C11",[(ND,"\tdefer g.Unlock()\n\tg.Lock()\n\tg.txId++\n\treturn g.txId","\tg.Lock()\n\tg.txId++\n\tg.Unlock()\n\treturn g.txId")]),
("next-split2","C11",[(ND,"\tdefer g.Unlock()\n\tg.Lock()\n\tg.txId++\n\treturn g.txId","\tg.Lock()\n\tv := g.txId + 1\n\tg.Unlock()\n\tg.Lock()\n\tg.txId = v\n\tg.Unlock()\n\treturn v")]),
("maplogger-nolock","C11",[(LG,"\tb.Lock()\n\tdefer b.Unlock()\n\tif v, ok","\tif v, ok")]),
("maplogger-split","C11",[(LG,"\tb.Lock()\n\tdefer b.Unlock()\n\tif v, ok := b.bufferedLoggers[name]; ok {\n\t\treturn v\n\t}\n\tlogger := defaultLoggerFactory.NewLogger(name, b.level)\n","\tb.Lock()\n\tv, ok := b.bufferedLoggers[name]\n\tlevel := b.level\n\tb.Unlock()\n\tif ok {\n\t\treturn v\n\t}\n\tlogger := defaultLoggerFactory.NewLogger(name, level)\n\tb.Lock()\n\tdefer b.Unlock()\n")]),
("clean-nolock","C11",[(SH,"\tctx.lock.Lock()\n\tdefer ctx.lock.Unlock()\n\tctx.cleans = append","\tctx.cleans = append")]),
("runcleans-nolock","C11",[(SH,"\tctx.lock.Lock()\n\tcleans := append([]CleanFunc(nil), ctx.cleans...)\n\tctx.lock.Unlock()\n","\tcleans := append([]CleanFunc(nil), ctx.cleans...)\n")]),
("startshutdown-check-outside","C22",[(WP,"\tpool.lock.Lock()\n\tdefer pool.lock.Unlock()\n\tif Running != pool.Status() {\n\t\treturn false\n\t}\n","\tif Running != pool.Status() {\n\t\treturn false\n\t}\n\tpool.lock.Lock()\n\tdefer pool.lock.Unlock()\n")]),
("config-nolock","C11",[(CF,"\tconfigLock.Lock()\n\tdefer configLock.Unlock()\n\tif val, ok","\tif val, ok")]),
("runcleans-after-unlock","C11",[(SH,"\tgo func() {\n\t\twg := sync.WaitGroup{}\n\t\twg.Add(len(cleans))\n\t\tfor _, clean := range cleans {","\tgo func() {\n\t\twg := sync.WaitGroup{}\n\t\twg.Add(len(cleans))\n\t\tfor _, clean := range ctx.cleans {")]),
# C12
("add-missing-unlock","C12",[(RT,"\tdefer b.Unlock()\n\tb.Lock()\n\tif b.full() {\n\t\treturn false\n\t}\n\tb.nodes[b.size] = node\n\tb.size++\n\treturn true","\tb.Lock()\n\tif b.full() {\n\t\treturn false\n\t}\n\tb.nodes[b.size] = node\n\tb.size++\n\tb.Unlock()\n\treturn true")]),
("del-missing-unlock","C12",[(SM,"\tdefer m.Unlock()\n\tm.Lock()\n\tif _, ok := m.mapping[txId]; !ok {\n\t\treturn\n\t}\n\tdelete(m.mapping, txId)","\tm.Lock()\n\tif _, ok := m.mapping[txId]; !ok {\n\t\treturn\n\t}\n\tdelete(m.mapping, txId)\n\tm.Unlock()")]),
("add-self-deadlock","C12",[(RT,"\tif b.full() {\n\t\treturn false\n\t}\n\tb.nodes","\tif b.Full() {\n\t\treturn false\n\t}\n\tb.nodes")]),
("addnode-self","C12",[(RT,"\tif t.lastBucketIndex >= t.capacity {\n\t\trtableLogger.Error","\tif t.Full() {\n\t\trtableLogger.Error")]),
("wrong-unlock","C12",[(RT,"func (b *Bucket) Size() int {\n\tdefer b.RUnlock()\n\tb.RLock()","func (b *Bucket) Size() int {\n\tdefer b.Unlock()\n\tb.RLock()")]),
("iterator-nodefer","C12",[(RT,"\tdefer b.RUnlock()\n\tb.RLock()\n\tfor _, v := range b.nodes[:b.size] {\n\t\thandler(v)\n\t}","\tb.RLock()\n\tfor _, v := range b.nodes[:b.size] {\n\t\thandler(v)\n\t}\n\tb.RUnlock()")]),
("find-nounlock","C12",[(RT,"\tdefer t.RUnlock()\n\tt.RLock()\n\tpreLen := t.solveMaxPreLen(id)\n\tbucket := t.nodeMap[preLen]\n\tnodes := bucket.All()\n\tfor _, n := range nodes {\n\t\tif n.Id == id {\n\t\t\treturn n\n\t\t}\n\t}\n","\tt.RLock()\n\tpreLen := t.solveMaxPreLen(id)\n\tbucket := t.nodeMap[preLen]\n\tnodes := bucket.All()\n\tfor _, n := range nodes {\n\t\tif n.Id == id {\n\t\t\treturn n\n\t\t}\n\t}\n\tt.RUnlock()\n")]),
("shutdown-under-lock","C12",[(WP,"\tif !pool.startShutdown() {\n\t\treturn\n\t}\n\tworkPoolLogger.Trace(\"strating","\tpool.lock.Lock()\n\tdefer pool.lock.Unlock()\n\tif !pool.startShutdown() {\n\t\treturn\n\t}\n\tworkPoolLogger.Trace(\"strating")]),
("wait-under-lock","C12",[(WP,"\tif !pool.startShutdown() {\n\t\treturn\n\t}\n","\tpool.lock.Lock()\n\tdefer pool.lock.Unlock()\n\tif Running != pool.Status() {\n\t\treturn\n\t}\n\tpool.status.Store(Shutdowning)\n")]),
("send-under-lock","C12",[(UD,"\tn, err := s.conn.WriteToUDP(bytes, raddr)","\ts.Lock()\n\tdefer s.Unlock()\n\tn, err := s.conn.WriteToUDP(bytes, raddr)")]),
("submit-under-lock","C12",[(WP,"\tpool.queue <- worker\n","\tpool.lock.Lock()\n\tdefer pool.lock.Unlock()\n\tpool.queue <- worker\n")]),
("cleans-under-lock","C12",[(SH,"\tgo func() {\n\t\twg := sync.WaitGroup{}\n","\tctx.lock.Lock()\n\tdefer ctx.lock.Unlock()\n\tfunc() {\n\t\twg := sync.WaitGroup{}\n")]),
("maplogger-nounlock","C12",[(LG,"\tb.Lock()\n\tdefer b.Unlock()\n\tif v, ok := b.bufferedLoggers[name]; ok {\n\t\treturn v\n\t}\n\tlogger := defaultLoggerFactory.NewLogger(name, b.level)\n\tb.bufferedLoggers[name] = logger\n","\tb.Lock()\n\tif v, ok := b.bufferedLoggers[name]; ok {\n\t\treturn v\n\t}\n\tlogger := defaultLoggerFactory.NewLogger(name, b.level)\n\tb.bufferedLoggers[name] = logger\n\tb.Unlock()\n")]),
]
R=[
("get-explicit",["C11","C12"],[(SM,"\tdefer m.Unlock()\n\tm.Lock()\n\thandlerFunc, ok := m.mapping[key]\n\treturn handlerFunc, ok","\tm.Lock()\n\thandlerFunc, ok := m.mapping[key]\n\tm.Unlock()\n\treturn handlerFunc, ok")]),
("del-plain",["C11","C12"],[(SM,"\tif _, ok := m.mapping[txId]; !ok {\n\t\treturn\n\t}\n\tdelete","\tdelete")]),
("syncmap-rw",["C11","C12"],[(SM,"\tsync.Mutex\n","\tsync.RWMutex\n"),(SM,"\tdefer m.Unlock()\n\tm.Lock()\n\thandlerFunc","\tdefer m.RUnlock()\n\tm.RLock()\n\thandlerFunc")]),
("add-nofast",["C11","C12"],[(RT,"\tif b.Full() {\n\t\treturn false\n\t}\n\tdefer b.Unlock()","\tdefer b.Unlock()")]),
("next-explicit",["C11","C12"],[(ND,"\tdefer g.Unlock()\n\tg.Lock()\n\tg.txId++\n\treturn g.txId","\tg.Lock()\n\tg.txId++\n\tv := g.txId\n\tg.Unlock()\n\treturn v")]),
("next-named-field",["C11","C12"],[(ND,"\tsync.Mutex\n\ttxId uint16","\tmu   sync.Mutex\n\ttxId uint16"),(ND,"\tdefer g.Unlock()\n\tg.Lock()","\tdefer g.mu.Unlock()\n\tg.mu.Lock()")]),
("helper-locked",["C11","C12"],[(RT,"\tdefer t.Unlock()\n\tt.Lock()\n\tpLen := t.solveMaxPreLen(node.Id)\n\treturn t.addNode(node, pLen)","\tt.Lock()\n\tdefer t.Unlock()\n\treturn t.insert(node)"),(RT,"func (t *RouteTable) addNode(","func (t *RouteTable) insert(node *NodeInfo) error {\n\treturn t.addNode(node, t.solveMaxPreLen(node.Id))\n}\n\nfunc (t *RouteTable) addNode(")]),
("with-lock-closure",["C11","C12"],[(SM,"\tdefer m.Unlock()\n\tm.Lock()\n\tm.mapping[key] = handler\n}","\tm.locked(func() {\n\t\tm.mapping[key] = handler\n\t})\n}\n\nfunc (m *SyncMap) locked(f func()) {\n\tm.Lock()\n\tdefer m.Unlock()\n\tf()\n}")]),
("flush-copy",["C11","C12"],[(LG,"\tb.Lock()\n\tdefer b.Unlock()\n\tfor _, v := range b.bufferedLoggers {\n\t\tv.Flush()\n\t}\n\treturn nil","\tb.Lock()\n\tall := make([]Logger, 0, len(b.bufferedLoggers))\n\tfor _, v := range b.bufferedLoggers {\n\t\tall = append(all, v)\n\t}\n\tb.Unlock()\n\tfor _, v := range all {\n\t\tv.Flush()\n\t}\n\treturn nil")]),
("maplogger-dcl",["C11","C12"],[(LG,"\tb.Lock()\n\tdefer b.Unlock()\n\tif v, ok := b.bufferedLoggers[name]; ok {\n\t\treturn v\n\t}\n\tlogger :=","\tb.Lock()\n\tv, ok := b.bufferedLoggers[name]\n\tb.Unlock()\n\tif ok {\n\t\treturn v\n\t}\n\tb.Lock()\n\tdefer b.Unlock()\n\tif v, ok := b.bufferedLoggers[name]; ok {\n\t\treturn v\n\t}\n\tlogger :=")]),
("shutdown-explicit",["C11","C12"],[(WP,"\tpool.lock.Lock()\n\tdefer pool.lock.Unlock()\n\tif Running != pool.Status() {\n\t\treturn false\n\t}\n\tpool.status.Store(Shutdowning)\n\treturn true","\tpool.lock.Lock()\n\tok := Running == pool.Status()\n\tif ok {\n\t\tpool.status.Store(Shutdowning)\n\t}\n\tpool.lock.Unlock()\n\treturn ok")]),
("size-local",["C11","C12"],[(RT,"\tfor i := 0; i < b.size; i++ {","\tn := b.size\n\tfor i := 0; i < n; i++ {")]),
]
