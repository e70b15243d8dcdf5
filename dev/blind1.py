# written from the statements and the code only, without regard to how the rules work
B="misc/beancode.go"; T="misc/types.go"; ER="misc/errors.go"; BP="misc/bytespool.go"; SM="misc/syncmap.go"
SD="misc/shutdown.go"; WP="misc/workpool.go"; LG="misc/logger.go"; ZP="misc/zap.go"; CF="config/config.go"
RT="dht/routetable.go"; FT="dht/fetchtorrent.go"; RH="dht/requesthandler.go"; RP="dht/resphandler.go"; DH="dht/dht.go"; DM="dht/messgaes.go"; ND="dht/node.go"
SV="dht/krpc/server.go"; MW="dht/krpc/middleware.go"; UD="dht/krpc/udp.go"; MS="dht/krpc/messages.go"
B3="dht/peerwire/bep3.go"; B9="dht/peerwire/bep9.go"; B10="dht/peerwire/bep10.go"; PC="dht/peerwire/peer.go"
M=[
# C01
("b-empty-datagram","C01",[(UD,'		udpLogger.Info("<<< received Bytes"','		if buf[:n][0] != \'d\' {\n			continue\n		}\n		udpLogger.Info("<<< received Bytes"')]),
("b-piece-goroutine","C01",[(B9,"		handleExtendedMsg(peerConn, readBytes)\n","		done := make(chan struct{})\n		go func() {\n			defer close(done)\n			handleExtendedMsg(peerConn, readBytes)\n		}()\n		<-done\n")]),
("b-loop-reads-port","C01",[(FT,"		ctx := <-recvInfoHash\n","		ctx := <-recvInfoHash\n		body := ctx.Request().Body()\n		if body.GetInteger(\"port\") == 0 {\n			continue\n		}\n")]),
("b-recover-asserts","C01",[(SV,'serverLogger.Error("recv packet handle panic", misc.Dict{"from": packet.Addr.String(), "err": err, "bytesLen": len(packet.Bytes)})','serverLogger.Error("recv packet handle panic", misc.Dict{"from": packet.Addr.String(), "err": err.(error).Error(), "bytesLen": len(packet.Bytes)})')]),
("b-fetch-repanic","C01",[(FT,'			dhtLogger.Error("fetchHandler panic", misc.Dict{"err": err})\n','			dhtLogger.Error("fetchHandler panic", misc.Dict{"err": err})\n			if _, ok := err.(*misc.Error); !ok {\n				panic(err)\n			}\n')]),
("b-size-or","C01",[(B9,"metaSize <= 0 || metaSize > maxMetaDataSize","metaSize <= 0 && metaSize > maxMetaDataSize")]),
("b-piece-grow","C01",[(B9,"		// copy, the data lies","		for len(peerConn.metaData) <= pieceNum {\n			peerConn.metaData = append(peerConn.metaData, nil)\n			peerConn.requestedMetaData = append(peerConn.requestedMetaData, true)\n		}\n		// copy, the data lies")]),
("b-total-size-alloc","C01",[(B9,"	totalSize := dict.GetInteger(\"total_size\")\n","	totalSize := dict.GetInteger(\"total_size\")\n	if totalSize > len(data) {\n		data = append(make([]byte, 0, totalSize), data...)\n	}\n")]),
# C02
("b-zero-string","C02",[(B,"	start = idx + slen + 1\n","	if slen == 0 {\n		return \"\", idx + 1, nil\n	}\n	start = idx + slen + 1\n")]),
("b-dup-key-continue","C02",[(B,"		result[key] = val\n		i = next\n","		if _, dup := result[key]; dup {\n			continue\n		}\n		result[key] = val\n		i = next\n")]),
("b-int-lookahead","C02",[(B,"src[i] == '0' && i+1 < len(src) && src[i+1] != 'e'","src[i] == '0' && src[i+1] != 'e'")]),
("b-str-end","C02",[(B,"	if start >= len(src) {\n","	if start > len(src) {\n")]),
("b-skip-space","C02",[(B,"		tmp, nextIdx, err := decodeItem(src, i)\n","		for src[i] == ' ' {\n			i++\n		}\n		tmp, nextIdx, err := decodeItem(src, i)\n")]),
("b-nolimit-last","C02",[(B,"	tLen := len(src)\n	if tLen < 2 {\n		return nil, -1, WrongDecodeParamErr\n	}\n\n	if src[0] != 'd' {","	tLen := len(src)\n	if tLen == 1 {\n		return nil, -1, WrongDecodeParamErr\n	}\n\n	if src[0] != 'd' {")]),
# C03
("b-int-and","C03",[(B,"next != len(src) || err != nil","next != len(src) && err != nil")]),
("b-nolimit-plus","C03",[(B,"		return nil, -1, err\n	}\n\n	return result, next, nil","		return nil, -1, err\n	}\n\n	return result, next + 1, nil")]),
("b-dict-inner-err","C03",[(B,"		val, next, err := decodeItem(src, next)\n		if err != nil {\n			return nil, -1, err\n		}","		val, next, err := decodeItem(src, next)\n		if err != nil && len(result) == 0 {\n			return nil, -1, err\n		}\n		if err != nil {\n			return result, len(src), nil\n		}")]),
("b-slice-trunc","C03",[(B,"	if err != nil {\n		return nil, err\n	}\n\n	if next != len(src) {\n		return nil, WrongDecodeParamErr\n	}\n	return result, nil\n}\n\nfunc innerDecodeSlice","	if err != nil {\n		return nil, err\n	}\n\n	if next < len(src)-1 {\n		return nil, WrongDecodeParamErr\n	}\n	return result, nil\n}\n\nfunc innerDecodeSlice")]),
("b-empty-dict-nil","C03",[(B,"	result := make(Dict)\n","	var result Dict\n	if src[start+1:] != \"e\" {\n		result = make(Dict)\n	}\n")]),
# C04
("b-int32","C04",[(B,'"i" + strconv.Itoa(src) + "e"','"i" + strconv.Itoa(int(int32(src))) + "e"')]),
("b-float","C04",[(B,"	default:\n		err = WrongDecodeParamErr\n","	case float64:\n		tmp, err = EncodeInteger(int(v))\n	default:\n		err = WrongDecodeParamErr\n")]),
("b-trim","C04",[(B,"func EncodeString(src string) (string, error) {\n	return strconv.Itoa(len(src)) + \":\" + src, nil","func EncodeString(src string) (string, error) {\n	return strconv.Itoa(len(src)) + \":\" + strings.TrimRight(src, \"\\x00\"), nil")]),
("b-nil-empty","C04",[(B,"	switch v := item.(type) {\n	case int:","	switch v := item.(type) {\n	case nil:\n		return \"\", nil\n	case int:")]),
("b-slice-partial","C04",[(B,"			return \"\", err\n		}\n		res += tmp","			return \"l\" + res + \"e\", err\n		}\n		res += tmp")]),
("b-dict-prev-key","C04",[(B,"	str := \"\"\n	for k, v := range src {\n		ktmp, err := EncodeString(k)\n		if err != nil {\n			return \"\", err\n		}\n		str += ktmp\n","	str := \"\"\n	last := \"\"\n	for k, v := range src {\n		ktmp, err := EncodeString(k)\n		if err != nil {\n			return \"\", err\n		}\n		if ktmp[0] == '0' {\n			ktmp = last\n		}\n		last = ktmp\n		str += ktmp\n")]),
# C06
("b-txid-cut","C06",[(SV,'	txId := resp.GetString("t")\n	queryType','	txId := resp.GetString("t")\n	if len(txId) > 2 {\n		txId = txId[:2]\n	}\n	queryType')]),
("b-announce-reply-in-case","C06",[(RH,"	ctx.WriteAs(WithAnnouncePeerResponse(req.TxId(), localNodeId))\n",""),(RH,"	case recvInfoHash <- ctx:\n","	case recvInfoHash <- ctx:\n		ctx.WriteAs(WithAnnouncePeerResponse(req.TxId(), localNodeId))\n")]),
("b-recover-queryid","C06",[(SV,"			ret = WithParamErr(txId, dhtError.Error())","			ret = WithParamErr(queryType, dhtError.Error())")]),
("b-silent-badid","C06",[(SV,"		bytes, err := misc.EncodeDict(ret.RawData())\n","		if ret.Error() && len(packet.Bytes) < 20 {\n			return\n		}\n		bytes, err := misc.EncodeDict(ret.RawData())\n")]),
("b-body-addr","C06",[(SV,"		err = s.udpConn.SendPacket([]byte(bytes), packet.Addr)\n","		to := packet.Addr\n		if dict.Exist(\"ip\") {\n			to = &net.UDPAddr{IP: net.ParseIP(dict.GetString(\"ip\")), Port: packet.Addr.Port}\n		}\n		err = s.udpConn.SendPacket([]byte(bytes), to)\n")]),
("b-lower-txid","C06",[(SV,"	req := NewBaseRequest(txId, queryType, body, nil)","	req := NewBaseRequest(hex.EncodeToString([]byte(txId)), queryType, body, nil)")]),
("b-err-no-reply","C06",[(SV,'			serverLogger.Error("encode response err"','			s.udpConn.SendPacket([]byte(ret.String()), packet.Addr)\n			serverLogger.Error("encode response err"')]),
# C08
("b-id-min","C08",[(SV,"if len(sourceId) != 20 {","if len(sourceId) < 20 {")]),
("b-id-of-target","C08",[(SV,'	sourceId := body.GetString("id")','	sourceId := body.GetStringOrDefault("target", body.GetString("id"))')]),
("b-handler-nil-later","C08",[(SV,'	if handler == nil {\n		panic("register fail, handler is nil")\n	}\n','	if handler == nil {\n		handler = func(ctx *RpcContext) {}\n	}\n')]),
("b-supported-after","C08",[(SV,"if !supportQueryType.ContainsString(queryType) {\n		return","if len(queryType) == 0 {\n		return"),]),
# C09
("b-getval-sys","C09",[(T,'PanicBizErr("cannot find " + key + "\'s val")','PanicSysErr("cannot find " + key + "\'s val")')]),
("b-runtime-stack","C09",[(SV,"			if !ok {\n				panic(err)\n			}\n			ret","			if !ok {\n				dhtError = misc.NewError(misc.ServerErr, \"internal\", true)\n			}\n			ret")]),
("b-default-stack","C09",[(ER,"	if d.printStack {","	if d.printStack || d.code == GenericErr && len(d.context) > 0 {")]),
# C10
("b-get-then-del","C10",[(SV,"	handler, exist := s.requestMapping.Take(txId)","	handler, exist := s.requestMapping.Get(txId)"),(SV,"	s.doResponseHandle(req, resp, addr)\n}","	s.doResponseHandle(req, resp, addr)\n	s.requestMapping.Del(txId)\n}")]),
("b-put-late","C10",[(SV,"	s.requestMapping.Put(req.TxId(), req)\n	raw","	raw"),(SV,'	serverLogger.Info(">>>rpc sended"','	s.requestMapping.Put(req.TxId(), req)\n	serverLogger.Info(">>>rpc sended"')]),
("b-del-lower","C10",[(SV,"	txId := err.GetString(\"t\")\n	s.requestMapping.Del(txId)","	txId := hex.EncodeToString([]byte(err.GetString(\"t\")))\n	s.requestMapping.Del(txId)")]),
("b-prefix-txid","C10",[(SV,'	txId := dict.GetString("t")\n	body','	txId := dict.GetString("t")\n	if len(txId) > 2 {\n		txId = txId[:2]\n	}\n	body')]),
("b-requeue","C10",[(SV,"	s.doResponseHandle(req, resp, addr)\n}","	if nodeId == \"\" {\n		s.requestMapping.Put(txId, req)\n	}\n	s.doResponseHandle(req, resp, addr)\n}")]),
("b-resp-chain-req","C10",[(SV,"	executeChain = append(executeChain, req.Handler())\n	ctx := NewReqContext(executeChain, req, resp, addr)","	executeChain = append(executeChain, req.Handler())\n	ctx := NewReqContext(executeChain, req, WithResponse(req.TxId(), req.Body()), addr)")]),
# C11
("b-size-nolock","C11",[(RT,"func (t *RouteTable) Size() int {\n	defer t.RUnlock()\n	t.RLock()\n","func (t *RouteTable) Size() int {\n")]),
("b-add-rlock","C11",[(RT,"	defer t.Unlock()\n	t.Lock()\n	pLen := t.solveMaxPreLen(node.Id)","	defer t.RUnlock()\n	t.RLock()\n	pLen := t.solveMaxPreLen(node.Id)")]),
("b-syncmap-get","C11",[(SM,"func (m *SyncMap) Get(key string) (interface{}, bool) {\n	defer m.Unlock()\n	m.Lock()\n","func (m *SyncMap) Get(key string) (interface{}, bool) {\n")]),
("b-find-unlock-early","C11",[(RT,"	defer t.RUnlock()\n	t.RLock()\n	preLen := t.solveMaxPreLen(id)\n	bucket := t.nodeMap[preLen]","	t.RLock()\n	preLen := t.solveMaxPreLen(id)\n	t.RUnlock()\n	bucket := t.nodeMap[preLen]")]),
("b-cleans-norun-lock","C11",[(SD,"	ctx.lock.Lock()\n	cleans := append([]CleanFunc(nil), ctx.cleans...)\n	ctx.lock.Unlock()\n","	cleans := append([]CleanFunc(nil), ctx.cleans...)\n")]),
("b-take-two","C11",[(SM,"	defer m.Unlock()\n	m.Lock()\n	val, ok := m.mapping[key]\n	delete(m.mapping, key)\n	return val, ok","	val, ok := m.Get(key)\n	if ok {\n		m.Del(key)\n	}\n	return val, ok")]),
("b-logger-double","C11",[(LG,"	b.Lock()\n	defer b.Unlock()\n	if v, ok := b.bufferedLoggers[name]; ok {\n		return v\n	}\n","	if v, ok := b.bufferedLoggers[name]; ok {\n		return v\n	}\n	b.Lock()\n	defer b.Unlock()\n")]),
# C12
("b-return-locked","C12",[(SM,"	defer m.Unlock()\n	m.Lock()\n	if _, ok := m.mapping[txId]; !ok {\n		return\n	}\n	delete(m.mapping, txId)","	m.Lock()\n	if _, ok := m.mapping[txId]; !ok {\n		return\n	}\n	delete(m.mapping, txId)\n	m.Unlock()")]),
("b-size-in-add","C12",[(RT,'misc.Dict{"tableSize": t.size, "preLen": preLen})','misc.Dict{"tableSize": t.Size(), "preLen": preLen})')]),
("b-shutdown-lock","C12",[(WP,"	pool.status.Store(Shutdowning)\n	return true","	pool.status.Store(Shutdowning)\n	pool.wg.Wait()\n	return true")]),
("b-flush-get","C12",[(LG,"	for _, v := range b.bufferedLoggers {\n		v.Flush()\n	}\n","	for n := range b.bufferedLoggers {\n		b.mapLogger(n).Flush()\n	}\n")]),
("b-config-lock-panic","C12",[(CF,"	configLock.Lock()\n	defer configLock.Unlock()\n	if val, ok := configMap[key]; ok {\n		return val\n	}\n","	configLock.Lock()\n	if val, ok := configMap[key]; ok {\n		configLock.Unlock()\n		return val\n	}\n"),(CF,"	configMap[key] = valPtr\n	return valPtr","	configMap[key] = valPtr\n	configLock.Unlock()\n	return valPtr")]),
# C13
("b-split-size","C13",[(RT,"	t.size -= sourceBucket.Size()\n","	t.size -= t.k\n"),(RT,"	for _, n := range snodes {\n		t.addNode(n, t.solveMaxPreLen(n.Id))","	for _, n := range snodes[:len(snodes):len(snodes)] {\n		t.size++\n		t.addNode(n, t.solveMaxPreLen(n.Id))")]),
("b-size-before","C13",[(RT,"	if !bucket.Add(node) {\n","	t.size++\n	if !bucket.Add(node) {\n"),(RT,"		return errors.New(\"the bucket is full\")\n	}\n	t.size++\n	return nil","		return errors.New(\"the bucket is full\")\n	}\n	return nil")]),
("b-add-ignored","C13",[(RT,"	if !bucket.Add(node) {\n","	if !bucket.Add(node) && preLen < t.lastBucketIndex {\n")]),
("b-split-err","C13",[(RT,"	if err := t.addNode(node, t.solveMaxPreLen(node.Id)); err != nil {\n		return err\n	}\n	if preSize+1","	if err := t.addNode(node, t.solveMaxPreLen(node.Id)); err != nil {\n		rtableLogger.Error(err.Error(), nil)\n	}\n	if preSize+1")]),
# C14
("b-full-gt","C14",[(RT,"	if b.size >= b.cap {","	if b.size > b.cap {")]),
("b-cap-eq","C14",[(RT,"	if t.lastBucketIndex >= t.capacity {","	if t.lastBucketIndex == t.capacity+1 {")]),
("b-add-append","C14",[(RT,"	if b.full() {\n		return false\n	}\n	b.nodes[b.size] = node","	if b.full() && b.nodes[b.size-1] != nil {\n		b.nodes = append(b.nodes, nil)\n	}\n	b.nodes[b.size] = node")]),
("b-split-any","C14",[(RT,"	if preLen >= t.lastBucketIndex && !bucket.Exist(node) && bucket.Full() {","	if preLen >= t.lastBucketIndex && !bucket.Exist(node) && bucket.Size() > t.k/2 {")]),
("b-exist-partial","C14",[(RT,"	for i := 0; i < b.size; i++ {\n		if b.nodes[i].Equals(node)","	for i := 1; i < b.size; i++ {\n		if b.nodes[i].Equals(node)")]),
]
R=[
("r-sub-k",["C13","C14"],[(RT,"	t.size -= sourceBucket.Size()\n","	t.size -= t.k\n")]),]
