# written from the statements and the code only, without regard to how the rules work
B="misc/beancode.go"; T="misc/types.go"; ER="misc/errors.go"; BP="misc/bytespool.go"; SM="misc/syncmap.go"; BI="misc/bits.go"
SD="misc/shutdown.go"; WP="misc/workpool.go"; LG="misc/logger.go"; ZP="misc/zap.go"; CF="config/config.go"
RT="dht/routetable.go"; FT="dht/fetchtorrent.go"; RH="dht/requesthandler.go"; RP="dht/resphandler.go"; DH="dht/dht.go"; DM="dht/messgaes.go"; ND="dht/node.go"
SV="dht/krpc/server.go"; MW="dht/krpc/middleware.go"; UD="dht/krpc/udp.go"; MS="dht/krpc/messages.go"
B3="dht/peerwire/bep3.go"; B9="dht/peerwire/bep9.go"; B10="dht/peerwire/bep10.go"; PC="dht/peerwire/peer.go"; CR="cmd/root.go"
CM="cmd/root.go"; TC="cmd/torrent.go"
M=[
# C01
("b4-handle-inline","C01",[(SV,"		pool.AsyncSubmit(func() {\n			s.recvPacketHandle(packet)\n		})\n","		if len(packet.Bytes) < 2 {\n			s.recvPacketHandle(packet)\n			continue\n		}\n		if kind := packet.Bytes[len(packet.Bytes)-3]; kind == 0 {\n			continue\n		}\n		pool.AsyncSubmit(func() {\n			s.recvPacketHandle(packet)\n		})\n")]),
("b4-fetch-log-first","C01",[(FT,"		ctx := <-recvInfoHash\n","		ctx := <-recvInfoHash\n		body := ctx.Request().Body()\n		dhtLogger.Info(\"fetch torrent\", misc.Dict{\"port\": body.GetInteger(\"implied_port\")})\n")]),
("b4-repanic","C01",[(SV,"				panic(err)\n","				go func() { panic(err) }()\n				return\n")]),
("b4-pieces-alloc","C01",[(B9,"		if metaSize <= 0 || metaSize > maxMetaDataSize {","		pieces := make([]bool, metaSize/SizeOf16KB+1)\n		fetchMetaLogger.Info(\"pieces\", misc.Dict{\"count\": len(pieces)})\n		if metaSize <= 0 || metaSize > maxMetaDataSize {")]),
("b4-log-fatal","C01",[(SV,'		serverLogger.Error("decode bencode err", misc.Dict{','		if len(packet.Bytes) == 0 {\n			log.Fatal("empty packet")\n		}\n		serverLogger.Error("decode bencode err", misc.Dict{'),(SV,'	"net"\n','	"log"\n	"net"\n')]),
# C02
("b4-string-cut","C02",[(B,"	if slen < 0 || slen > len(src)-idx-1 ||","	if slen > len(src)-idx-1 ||")]),
("b4-slice-peek","C02",[(B,"		result = append(result, tmp)\n		i = nextIdx\n","		result = append(result, tmp)\n		i = nextIdx\n		if src[i] == ' ' {\n			i++\n		}\n")]),
("b4-int-peek","C02",[(B,"src[i] == '0' && i+1 < len(src) && src[i+1] != 'e'","src[i] == '0' && src[i+1] != 'e'")]),
("b4-skip-loop","C02",[(B,"		key, ok := ktmp.(string)\n		if !ok {\n			return nil, -1, WrongDecodeParamErr\n		}\n","		key, ok := ktmp.(string)\n		if !ok {\n			continue\n		}\n")]),
# C03
("b4-dict-first-err","C03",[(B,"		val, next, err := decodeItem(src, next)\n		if err != nil {\n			return nil, -1, err\n		}\n","		val, next, err := decodeItem(src, next)\n		if err != nil && len(result) == 0 {\n			return nil, -1, err\n		}\n		if err != nil {\n			break\n		}\n")]),
("b4-slice-empty-nil","C03",[(B,"	result := make(List, 0, 16)\n	i := start + 1\n","	var result List\n	i := start + 1\n")]),
("b4-whole-next","C03",[(B,"	if next != len(src) {\n		return nil, WrongDecodeParamErr\n	}\n	return result, nil\n}\n\nfunc innerDecodeSlice","	if next < len(src)-1 {\n		return nil, WrongDecodeParamErr\n	}\n	return result, nil\n}\n\nfunc innerDecodeSlice")]),
("b4-string-tail","C03",[(B,"	if len(subs[1]) != slen || strconv.Itoa(slen) != subs[0] {\n		return \"\", WrongDecodeParamErr\n	}\n\n	return subs[1], nil","	if len(subs[1]) < slen || slen < 0 || strconv.Itoa(slen) != subs[0] {\n		return \"\", WrongDecodeParamErr\n	}\n\n	return subs[1][:slen], nil")]),
# C04
("b4-int64","C04",[(B,"	case string:\n		tmp, err = EncodeString(v)\n	case List:","	case string:\n		tmp, err = EncodeString(v)\n	case bool:\n		tmp = \"\"\n	case List:")]),
("b4-slice-partial","C04",[(B,"		tmp, err := encodeItem(item)\n		if err != nil {\n			return \"\", err\n		}\n		res += tmp","		tmp, err := encodeItem(item)\n		if err != nil {\n			return \"l\" + res + \"e\", err\n		}\n		res += tmp")]),
("b4-nil-item","C04",[(B,"	var tmp string\n	switch v := item.(type) {","	var tmp string\n	if item == nil {\n		return \"\", nil\n	}\n	switch v := item.(type) {")]),
("b4-trim","C04",[(B,'	return strconv.Itoa(len(src)) + ":" + src, nil','	return strconv.Itoa(len(src)) + ":" + strings.ToValidUTF8(src, "?"), nil')]),
# C06
("b4-txid-empty","C06",[(SV,"		err = s.udpConn.SendPacket([]byte(bytes), packet.Addr)\n","		if ret.Error() && len(ret.TxId()) == 0 {\n			return\n		}\n		err = s.udpConn.SendPacket([]byte(bytes), packet.Addr)\n")]),
("b4-retry-send","C06",[(SV,'			serverLogger.Error("send response packet err", misc.Dict{"to": packet.Addr.String(), "err": err})\n			return','			serverLogger.Error("send response packet err", misc.Dict{"to": packet.Addr.String(), "err": err})\n			s.udpConn.SendPacketToHost(bytes, packet.Addr.String())\n			return'.replace("Host(bytes","Host([]byte(bytes)"))]),
("b4-dedupe","C06",[(SV,'	case "q":\n		ret :=','	case "q":\n		if _, seen := s.requestMapping.Get(dict.GetString("t")); seen {\n			return\n		}\n		ret :=')]),
("b4-ping-silent","C06",[(RH,"	ctx.WriteAs(WithPingResponse(req.TxId(), localNodeId))","	body := req.Body()\n	if body.GetString(\"id\") != localNodeId {\n		ctx.WriteAs(WithPingResponse(req.TxId(), localNodeId))\n	}")]),
("b4-txid-q","C06",[(SV,'		return WithParamErr(txId, "donnot support','		return WithParamErr(queryType, "donnot support')]),
# C07
("b4-resp-default","C07",[(RP,'	case "announce_peer":\n		announcePeerRespHandler(ctx, nodeId)','	case "announce":\n		announcePeerRespHandler(ctx, nodeId)')]),
("b4-query-name","C07",[(DM,'krpc.NewBaseRequest(txId, "get_peers"','krpc.NewBaseRequest(txId, "get_peer"')]),
# C08
("b4-id-max","C08",[(SV,"	if len(sourceId) != 20 {","	if len(sourceId) == 0 || len(sourceId)%20 != 0 {")]),
("b4-fallback-handler","C08",[(SV,"	handler, exist := s.reqestHandlerRouter.Get(queryType)\n	if !exist {","	handler, exist := s.reqestHandlerRouter.Get(queryType)\n	if !exist {\n		handler, exist = s.reqestHandlerRouter.Get(\"ping\")\n	}\n	if !exist {")]),
("b4-reg-nil","C08",[(SV,'	if handler == nil {\n		panic("register fail, handler is nil")\n	}\n','	if handler == nil {\n		serverLogger.Error("register fail, handler is nil", misc.Dict{"type": qType})\n	}\n')]),
# C09
("b4-sys-err","C09",[(T,"func (d *Dict) GetVal(key string) interface{} {\n	val, exist := (*d)[key]\n	if !exist {\n		PanicBizErr(","func (d *Dict) GetVal(key string) interface{} {\n	val, exist := (*d)[key]\n	if !exist {\n		PanicSysErr(")]),
("b4-wrap","C09",[(SV,'			ret = WithParamErr(txId, dhtError.Error())','			ret = WithParamErr(txId, misc.NewError(misc.ProtocolErr, dhtError.Error(), true).Error())')]),
("b4-default-flag","C09",[(ER,"		printStack: printStack,","		printStack: printStack || len(params) == 0,")]),
# C10
("b4-get-del","C10",[(SV,"	handler, exist := s.requestMapping.Take(txId)\n","	handler, exist := s.requestMapping.Get(txId)\n	defer s.requestMapping.Del(txId)\n")]),
("b4-match-type","C10",[(SV,"	resp := WithResponse(txId, body)\n","	resp := WithResponse(txId, body)\n	if len(nodeId) != 20 {\n		s.requestMapping.Put(txId, req)\n	}\n")]),
("b4-err-keeps","C10",[(SV,"	s.requestMapping.Del(txId)\n	list :=","	if _, ok := s.requestMapping.Get(hex.EncodeToString([]byte(txId))); ok {\n		s.requestMapping.Del(txId)\n	}\n	list :=")]),
("b4-async-del","C10",[(SV,'	if err != nil {\n		s.requestMapping.Del(req.TxId())\n		serverLogger.Error("send query packet err"','	if err != nil {\n		serverLogger.Error("send query packet err"')]),
("b4-prefix-tx","C10",[(SV,"	handler, exist := s.requestMapping.Take(txId)\n","	if len(txId) > 4 {\n		txId = txId[:4]\n	}\n	handler, exist := s.requestMapping.Take(txId)\n")]),
# C11
("b4-size-nolock","C11",[(RT,"func (t *RouteTable) Size() int {\n	defer t.RUnlock()\n	t.RLock()\n	return t.size","func (t *RouteTable) Size() int {\n	return t.size")]),
("b4-rlock-add","C11",[(RT,"func (t *RouteTable) AddNode(node *NodeInfo) error {\n	defer t.Unlock()\n	t.Lock()\n","func (t *RouteTable) AddNode(node *NodeInfo) error {\n	defer t.RUnlock()\n	t.RLock()\n")]),
("b4-log-unlocked","C11",[(LG,"	logger := defaultLoggerFactory.NewLogger(name, b.level)\n	b.bufferedLoggers[name] = logger\n	return logger\n","	logger := defaultLoggerFactory.NewLogger(name, b.level)\n	go func() { b.bufferedLoggers[name] = logger }()\n	return logger\n")]),
("b4-clean-lock","C11",[(SD,"	ctx.lock.Lock()\n	cleans := append([]CleanFunc(nil), ctx.cleans...)\n	ctx.lock.Unlock()\n","	cleans := append([]CleanFunc(nil), ctx.cleans...)\n")]),
("b4-txid-two-locks","C11",[(ND,"	defer g.Unlock()\n	g.Lock()\n	g.txId++\n	return g.txId","	g.Lock()\n	next := g.txId + 1\n	g.Unlock()\n	g.Lock()\n	g.txId = next\n	g.Unlock()\n	return next")]),
# C12
("b4-find-nested","C12",[(RT,"	nodes := make([]*NodeInfo, 0, k)\n	for","	if t.Size() < k {\n		k = t.Size()\n	}\n	nodes := make([]*NodeInfo, 0, k)\n	for")]),
("b4-iter-exist","C12",[(RT,"	for _, v := range b.nodes[:b.size] {\n		handler(v)","	for _, v := range b.nodes[:b.size] {\n		if !b.Exist(v) {\n			continue\n		}\n		handler(v)")]),
("b4-send-locked","C12",[(UD,"	n, err := s.conn.WriteToUDP(bytes, raddr)\n","	s.RLock()\n	defer s.RUnlock()\n	n, err := s.conn.WriteToUDP(bytes, raddr)\n")]),
("b4-unlock-twice","C12",[(SM,"	if _, ok := m.mapping[txId]; !ok {\n		return\n	}","	if _, ok := m.mapping[txId]; !ok {\n		m.Unlock()\n		return\n	}")]),
# C13
("b4-known-err","C13",[(RT,"		// known node, nothing is added\n		return nil","		// known node, nothing is added\n		t.size++\n		return nil")]),
("b4-split-swallow","C13",[(RT,"	if err := t.addNode(node, t.solveMaxPreLen(node.Id)); err != nil {\n		return err\n	}\n","	if err := t.addNode(node, t.solveMaxPreLen(node.Id)); err != nil && preSize == t.size {\n		return err\n	}\n")]),
# C14
("b4-add-ge","C14",[(RT,"	if b.full() {\n		return false\n	}\n	b.nodes[b.size] = node\n","	if b.full() {\n		b.nodes = append(b.nodes, nil)\n	}\n	b.nodes[b.size] = node\n")]),
("b4-limit-gt","C14",[(RT,"	if t.lastBucketIndex >= t.capacity {\n","	if t.lastBucketIndex > t.capacity {\n")]),
("b4-exist-after","C14",[(RT,"	if bucket.Exist(node) {\n		// known node, nothing is added\n		return nil\n	}\n","	if preLen < t.lastBucketIndex && bucket.Exist(node) {\n		// known node, nothing is added\n		return nil\n	}\n")]),
("b4-equals-port","C14",[(ND,"	if n.Id == node.Id && strings.EqualFold(n.Addr.String(), node.Addr.String()) {","	if n == node {")]),
# C15
("b4-find-short","C15",[(RT,"		if n.Id == id {","		if solvePrefixLen(n.Id, id) == len(id)*8 {")]),
("b4-equals-hex","C15",[(ND,"	if n.Id == node.Id &&","	if strings.ToLower(n.Id) == strings.ToLower(node.Id) &&")]),
# C16
("b4-put-early","C16",[(SV,"	// parse packet\n","	// parse packet\n	defer krpcBytesPool.Put(packet.Bytes)\n")]),
("b4-zero-copy","C16",[(SV,"misc.DecodeDictNoLimit(string(packet.Bytes))","misc.DecodeDictNoLimit(misc.Bytes2Str(packet.Bytes))")]),
("b4-piece-keep","C16",[(B9,"		peerConn.metaData[pieceNum] = append([]byte(nil), fetchMetaResp.Data()...)","		peerConn.metaData[pieceNum] = fetchMetaResp.Data()[:len(fetchMetaResp.Data()):len(fetchMetaResp.Data())]")]),
("b4-prefix-use","C16",[(B3,"	preLen := binary.BigEndian.Uint32(preLenbytes)\n\n	if preLen <= 0 {\n		return true, nil, nil\n	}\n	// recollection\n	peerBytesPool.Put(preLenbytes)\n","	// recollection\n	peerBytesPool.Put(preLenbytes)\n	preLen := binary.BigEndian.Uint32(preLenbytes)\n\n	if preLen <= 0 {\n		return true, nil, nil\n	}\n")]),
# C17
("b4-put-len","C17",[(BP,"	bytesChan := bp.loadOrStore(cap(b))\n","	bytesChan := bp.loadOrStore(len(b))\n")]),
("b4-get-any","C17",[(BP,"	case b = <-bp.loadOrStore(size):\n	// reuse existing buffer\n","	case b = <-bp.loadOrStore(size):\n	// reuse existing buffer\n	case b = <-bp.loadOrStore(bp.defaultWidth):\n")]),
("b4-put-block","C17",[(BP,"	default:\n		// buffer didn't go back into pool, just discard\n	}","	}")]),
# C18
("b4-hash-prefix","C18",[(B9,"!bytes.Equal(peerConn.infoHash, GenerateInfoHash(result))","!bytes.HasPrefix(GenerateInfoHash(result), peerConn.infoHash[:4])")]),
("b4-hash-meta","C18",[(B9,"	return result, nil\n}\n\n// read loop","	return result[:peerConn.metaDataSize:cap(result)], nil\n}\n\n// read loop")]),
# C19
("b4-name-raw","C19",[(FT,"	flushTorrentFile(hash, result)","	if meta, err := misc.DecodeDict(string(result)); err == nil {\n		hash = meta.GetStringOrDefault(\"name\", hash)\n	}\n	flushTorrentFile(hash, result)")]),
("b4-direct-write","C19",[(FT,"	err = os.Rename(file.Name(), filepath.Join(torrentDir, fileName+\".torrent\"))\n	if err != nil {","	err = os.Rename(file.Name(), filepath.Join(torrentDir, fileName+\".torrent\"))\n	if err != nil {\n		err = ioutil.WriteFile(filepath.Join(torrentDir, fileName+\".torrent\"), data, 0644)\n	}\n	if err != nil {")]),
("b4-chmod-resets","C19",[(FT,"	if err == nil {\n		err = file.Chmod(0644)\n	}\n","	if cerr := file.Chmod(0644); cerr == nil {\n		err = cerr\n	}\n")]),
# C20
("b4-no-write-dl","C20",[(B9,"	conn.SetWriteDeadline(time.Now().Add(time.Second * 10))\n","")]),
("b4-read-renew","C20",[(B9,"	keepAlive, readBytes, err := readBytesByPrefixLenMsg(conn)\n","	conn.SetReadDeadline(time.Time{})\n	keepAlive, readBytes, err := readBytesByPrefixLenMsg(conn)\n")]),
("b4-close-moved","C20",[(B9,"			retErr = errors.New(\"FetchMetaData err\")\n		}\n		conn.Close()\n	}()","			retErr = errors.New(\"FetchMetaData err\")\n			return\n		}\n		conn.Close()\n	}()")]),
("b4-dial","C20",[(B9,'net.DialTimeout("tcp", laddr, 3*time.Second)','net.Dial("tcp", laddr)')]),
# C21
("b4-bufio","C21",[(B9,"	keepAlive, readBytes, err := readBytesByPrefixLenMsg(conn)\n","	keepAlive, readBytes, err := readBytesByPrefixLenMsg(bufio.NewReader(conn))\n"),(B9,'import (\n	"bytes"\n','import (\n	"bufio"\n	"bytes"\n')]),
("b4-short-read","C21",[(B3,"	_, err = io.ReadFull(reader, buf[:preLen])\n	if err != nil {","	n, err := io.ReadAtLeast(reader, buf[:preLen], 1)\n	buf = buf[:n]\n	if err != nil {")]),
("b4-readall","C21",[(B3,"	_, err = io.ReadFull(reader, buf[:preLen])\n","	_, err = io.ReadAtLeast(reader, buf, int(preLen))\n")]),
("b4-limit-after","C21",[(B3,"	if preLen > maxReadLength {\n		return false, nil, errors.New(\"read input toolarge\")\n	}\n	buf := peerBytesPool.GetBySize(maxReadLength)\n	// exactly one message, the stream may deliver it in pieces or together with the next one\n	_, err = io.ReadFull(reader, buf[:preLen])\n","	buf := peerBytesPool.GetBySize(maxReadLength)\n	// exactly one message, the stream may deliver it in pieces or together with the next one\n	if preLen > maxReadLength {\n		io.ReadFull(reader, buf)\n		return false, nil, errors.New(\"read input toolarge\")\n	}\n	_, err = io.ReadFull(reader, buf[:preLen])\n")]),
# C22
("b4-drain-one","C22",[(WP,"		case worker := <-pool.queue:\n			worker()\n		default:\n			return\n","		case worker := <-pool.queue:\n			worker()\n			return\n		default:\n			return\n")]),
("b4-status-late","C22",[(WP,"	if !pool.startShutdown() {\n		return\n	}\n","	if !pool.startShutdown() {\n		<-pool.waitFinish()\n		return\n	}\n")]),
("b4-go-worker","C22",[(WP,"		case worker := <-pool.queue:\n			worker()\n		case <-pool.shutdowned:","		case worker := <-pool.queue:\n			go worker()\n		case <-pool.shutdowned:")]),
("b4-cas-lost","C22",[(WP,"	pool.lock.Lock()\n	defer pool.lock.Unlock()\n	if Running","	if Running")]),
# C23
("b4-sig-hup","C23",[(SD,"syscall.SIGINT, syscall.SIGTERM","syscall.SIGINT, syscall.SIGHUP")]),
("b4-status-order","C23",[(SD,"	ctx.status.Store(Shutdowning)\n	ctx.waitCleans(timeout)\n","	ctx.waitCleans(timeout)\n	ctx.status.Store(Shutdowning)\n")]),
("b4-seq-clean","C23",[(SD,"			go func(callback CleanFunc) {\n				callback()\n				wg.Done()\n			}(clean)","			func(callback CleanFunc) {\n				callback()\n				wg.Done()\n			}(clean)")]),
("b4-wg-early","C23",[(SD,"				callback()\n				wg.Done()\n","				wg.Done()\n				callback()\n")]),
("b4-sigchan","C23",[(SD,"make(chan os.Signal, 1)","make(chan os.Signal)")]),
# C24
("b4-flag-after","C24",[(UD,"	s.closed.Store(true)\n	if s.conn != nil {\n		return s.conn.Close()\n	}\n	return nil","	if s.conn != nil {\n		if err := s.conn.Close(); err != nil {\n			return err\n		}\n	}\n	s.closed.Store(true)\n	return nil")]),
("b4-err-break","C24",[(UD,'			udpLogger.Error("<<< receive udp err", misc.Dict{"err": err})\n			continue','			udpLogger.Error("<<< receive udp err", misc.Dict{"err": err})\n			if ne, ok := err.(net.Error); !ok || !ne.Temporary() {\n				return\n			}\n			continue')]),
("b4-shared-buf","C24",[(UD,"	for !(s.closed.Load().(bool)) {\n		buf := krpcBytesPool.GetBySize(RecvPacketLen)\n","	buf := krpcBytesPool.GetBySize(RecvPacketLen)\n	for !(s.closed.Load().(bool)) {\n")]),
("b4-drop-full","C24",[(UD,"		s.recvq <- &RecvPacket{Addr: raddr, Bytes: buf[:n]}","		select {\n		case s.recvq <- &RecvPacket{Addr: raddr, Bytes: buf[:n]}:\n		default:\n		}")]),
# C25
("b4-zap-dpanic","C25",[(LG,"	c.print(\"Panic\", msg, ctx)\n	panic(msg)","	if ctx == nil {\n		c.print(\"Panic\", msg, ctx)\n		return\n	}\n	c.print(\"Panic\", msg, ctx)\n	panic(msg)")]),
("b4-level-copy","C25",[(LG,"	b.level = level\n	for _, v","	if b.level == level {\n		return\n	}\n	b.level = level\n	for _, v")]),
("b4-debug-info","C25",[(LG,"	if c.level.get() > INFO {\n		return\n	}\n	c.print(\"Info\"","	if c.level.get() >= INFO && len(c.prefix) == 0 {\n		return\n	}\n	c.print(\"Info\"")]),
("b4-tostring-nil","C25",[(LG,"		builder.WriteString(ToString(v))","		builder.WriteString(v.(fmt.Stringer).String())")]),
]
R=[]
EQ='''	if n.Id == node.Id && strings.EqualFold(n.Addr.String(), node.Addr.String()) {
		return true
	}
	return false
'''
R += [
("b4r-eq-early",["C14"],[(ND,EQ,'''	if n.Id != node.Id {
		return false
	}
	return strings.EqualFold(n.Addr.String(), node.Addr.String())
''')]),
("b4r-eq-ip",["C14"],[(ND,EQ,'''	if n == node {
		return true
	}
	same := n.Addr.IP.Equal(node.Addr.IP) && n.Addr.Port == node.Addr.Port
	return same && n.Id == node.Id || strings.ToLower("") == "x"
''')]),
("b4r-eq-helper",["C14"],[(ND,EQ,'''	return n.Id == node.Id && sameAddr(n.Addr, node.Addr)
'''),(ND,"func resolveHost(","""func sameAddr(a, b *net.UDPAddr) bool {
	if a == b {
		return true
	}
	return strings.EqualFold(a.String(), b.String())
}

func resolveHost(""")]),
]
