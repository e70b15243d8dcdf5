# C26 to C43, written from the statements and the code only
B="misc/beancode.go"; T="misc/types.go"; ER="misc/errors.go"; BP="misc/bytespool.go"; SM="misc/syncmap.go"; BI="misc/bits.go"
SD="misc/shutdown.go"; WP="misc/workpool.go"; LG="misc/logger.go"; ZP="misc/zap.go"; CF="config/config.go"
RT="dht/routetable.go"; FT="dht/fetchtorrent.go"; RH="dht/requesthandler.go"; RP="dht/resphandler.go"; DH="dht/dht.go"; DM="dht/messgaes.go"; ND="dht/node.go"
SV="dht/krpc/server.go"; MW="dht/krpc/middleware.go"; UD="dht/krpc/udp.go"; MS="dht/krpc/messages.go"
B3="dht/peerwire/bep3.go"; B9="dht/peerwire/bep9.go"; B10="dht/peerwire/bep10.go"; PC="dht/peerwire/peer.go"; CR="cmd/root.go"
CM="cmd/root.go"; TC="cmd/torrent.go"
CB="config/config.go"
M=[
# C26
("b5-chain-array","C26",[(SV,"	executeChain := make([]RpcHandlerFunc, 0, len(s.reqHandlerChain))\n	executeChain = append(executeChain, s.reqHandlerChain...)\n	executeChain = append(executeChain, reqHandler)","	executeChain := append(s.reqHandlerChain[:len(s.reqHandlerChain)], reqHandler)")]),
("b5-chain-resp-nil","C26",[(SV,"	executeChain = append(executeChain, s.respHandlerChain...)\n	executeChain = append(executeChain, req.Handler())","	if h := req.Handler(); h != nil && len(s.respHandlerChain) == 0 {\n		executeChain = append(executeChain, h)\n	}\n	executeChain = append(executeChain, s.respHandlerChain...)")]),
("b5-next-step","C26",[(MW,"	c.index++\n	for ; c.index < len(c.chain); c.index++ {\n		c.chain[c.index](c)\n	}","	c.index++\n	for i := c.index; i < len(c.chain); i++ {\n		c.chain[i](c)\n	}")]),
("b5-next-once","C26",[(MW,"	for ; c.index < len(c.chain); c.index++ {","	if c.index < len(c.chain) {")]),
("b5-next-stop","C26",[(MW,"	for ; c.index < len(c.chain); c.index++ {","	for ; c.index < len(c.chain) && (c.resp == nil || c.index == len(c.chain)-1); c.index++ {")]),
("b5-use-prepend","C26",[(SV,"	s.reqHandlerChain = append(s.reqHandlerChain, handlerChain...)","	s.reqHandlerChain = append(handlerChain, s.reqHandlerChain...)")]),
("b5-use-replace","C26",[(SV,"	s.respHandlerChain = append(s.respHandlerChain, handlerChain...)","	s.respHandlerChain = append(s.respHandlerChain[:0], handlerChain...)")]),
("b5-ctx-reuse","C26",[(SV,"	ctx := NewReqContext(executeChain, req, nil, addr)\n	ctx.Next()\n	return ctx.resp","	ctx := reqCtxs.Get().(*RpcContext)\n	*ctx = *NewReqContext(executeChain, req, nil, addr)\n	reqCtxs.Put(ctx)\n	ctx.Next()\n	return ctx.resp"),(SV,"type RpcHandlerFunc func","var reqCtxs = sync.Pool{New: func() interface{} { return &RpcContext{} }}\n\ntype RpcHandlerFunc func"),(SV,"	\"net\"\n","	\"net\"\n	\"sync\"\n")]),
("b5-writeas-index","C26",[(MW,"	c.resp = resp\n}\n\nfunc (c *RpcContext) RemoteAddr","	c.resp = resp\n	c.index = len(c.chain)\n}\n\nfunc (c *RpcContext) RemoteAddr")]),
# C27
("b5-parse-shift8","C27",[(ND,"			Port: int(binary.BigEndian.Uint16(bytes[4:6])),\n		})","			Port: int(bytes[4]<<8) | int(bytes[5]),\n		})")]),
("b5-parse-shared","C27",[(ND,"	nodes := make([]*NodeInfo, len(infos)/26)\n","	nodes := make([]*NodeInfo, len(infos)/26)\n	var bytes [6]byte\n"),(ND,"		bytes := []byte(infos[j+20 : j+26])\n","		copy(bytes[:], infos[j+20:j+26])\n")]),
("b5-parse-ceil","C27",[(ND,"len(infos)/26)","(len(infos)+25)/26)")]),
("b5-parse-one-less","C27",[(ND,"len(infos)/26)","len(infos)/26)\n	if len(infos)%26 != 0 && len(nodes) > 0 {\n		nodes = nodes[:len(nodes)-1]\n	}")]),
("b5-join-peer-port","C27",[(ND,"		binary.BigEndian.PutUint16(portBytes, uint16(addr.Port))","		binary.BigEndian.PutUint16(portBytes, uint16(addr.Port&0x7fff))")]),
("b5-join-skip-zero","C27",[(ND,"		builder.WriteString(v.Id)\n","		if v.Addr.Port == 0 {\n			continue\n		}\n		builder.WriteString(v.Id)\n")]),
("b5-parse-skip","C27",[(ND,"		j := i * 26\n","		j := i * 26\n		if infos[j+24] == 0 {\n			continue\n		}\n")]),
# C28
("b5-next-val-ret","C28",[(ND,"	return g.txId\n","	if g.txId == 0 {\n		g.txId = 1\n	}\n	return g.txId\n")]),
("b5-hex-trim","C28",[(ND,"	return hex.EncodeToString(bytes)\n}\n\ntype NodeInfo","	return strings.TrimLeft(hex.EncodeToString(bytes), \"0\")\n}\n\ntype NodeInfo")]),
("b5-fmt-x","C28",[(ND,"	bytes := make([]byte, 2)\n	binary.BigEndian.PutUint16(bytes, g.nextVal())\n	return hex.EncodeToString(bytes)","	v := g.nextVal()\n	return hex.EncodeToString([]byte{byte(v), byte(v)})")]),
("b5-reuse-tx","C28",[(RP,"	for _, n := range nodes {\n","	txId := txIdGenerator.Next()\n	for _, n := range nodes {\n"),(RP,"WithFindNodeMsg(txIdGenerator.Next(),","WithFindNodeMsg(txId,")]),
("b5-resp-tx","C28",[(RP,"WithFindNodeMsg(txIdGenerator.Next(),","WithFindNodeMsg(ctx.Response().TxId(),")]),
("b5-lock-unlock","C28",[(ND,"	defer g.Unlock()\n	g.Lock()\n	g.txId++\n	return g.txId","	g.Lock()\n	g.txId++\n	g.Unlock()\n	return g.txId")]),
("b5-two-gens","C28",[(DH,"WithFindNodeMsg(txIdGenerator.Next(),","WithFindNodeMsg(NewTxIdGenerator(1000).Next(),")]),
# C29
("b5-implied-exist","C29",[(FT,"	if body.Exist(\"implied_port\") && body.GetInteger(\"implied_port\") > 0 {","	if body.Exist(\"implied_port\") && body.GetInteger(\"implied_port\") >= 0 {")]),
("b5-implied-one","C29",[(FT,"body.GetInteger(\"implied_port\") > 0 {","body.GetInteger(\"implied_port\") == 1 {")]),
("b5-port-mask","C29",[(FT,"strconv.Itoa(port))\n","strconv.Itoa(int(uint16(port))))\n")]),
("b5-port-zero","C29",[(FT,"	if useUdpPort {\n","	if useUdpPort || port <= 0 {\n")]),
("b5-local-ip","C29",[(FT,"	if useUdpPort {\n		laddr = ctx.RemoteAddr().String()","	if useUdpPort {\n		laddr = net.JoinHostPort(ctx.RemoteAddr().IP.String(), strconv.Itoa(body.GetInteger(\"implied_port\")))")]),
("b5-ip-key","C29",[(FT,"	if useUdpPort {\n","	if body.Exist(\"ip\") {\n		laddr = net.JoinHostPort(body.GetString(\"ip\"), strconv.Itoa(port))\n	}\n	if useUdpPort {\n")]),
# C30
("b5-err-code-str","C30",[(MS,"		\"e\": misc.List{code, msg},","		\"e\": misc.List{msg, code},")]),
("b5-token-missing","C30",[(DM,"misc.Dict{\"id\": nodeId, \"token\": token, \"nodes\": joinNodeInfos(nodes)}","misc.Dict{\"id\": nodeId, \"nodes\": joinNodeInfos(nodes)}")]),
("b5-target-id","C30",[(DM,"		\"target\": target,","		\"target\": nodeId,")]),
("b5-infohash","C30",[(DM,"		\"id\":        nodeId,\n		\"info_hash\": infoHash,\n	}, handler)","		\"id\":       nodeId,\n		\"infohash\": infoHash,\n	}, handler)")]),
("b5-nodes-list","C30",[(DM,"misc.Dict{\"id\": nodeId, \"nodes\": joinNodeInfos(nodes)})\n}\n\nfunc WithGetPeersVals","misc.Dict{\"id\": nodeId, \"nodes\": misc.List{joinNodeInfos(nodes)}})\n}\n\nfunc WithGetPeersVals")]),
("b5-port-str","C30",[(DM,"		\"port\":         port,","		\"port\":         int64(port),")]),
("b5-y-q","C30",[(MS,"		\"y\": \"q\",","		\"y\": b.qType[:1],")]),
("b5-ping-handler-type","C30",[(RH,"WithGetPeersNodesResponse(req.TxId(), localNodeId, req.TxId(), nil)","WithFindNodeResponse(req.TxId(), localNodeId, nil)")]),
("b5-tx-swap","C30",[(RH,"WithAnnouncePeerResponse(req.TxId(), localNodeId)","WithAnnouncePeerResponse(localNodeId, req.TxId())")]),
# C31
("b5-reserved-7","C31",[(B3,"	bytes[5] = bytes[5] | 0x10\n","	bytes[7] = bytes[7] | 0x01\n	bytes[5] = 0x10 >> 1 << 2\n")]),
("b5-check-bit","C31",[(B3,"	return b.rBytes[5]&0x10 > 0","	return b.rBytes[5] >= 0x10")]),
("b5-check-or","C31",[(B9,"	if !strings.EqualFold(supportProtocolName, handShakeResp.Protocol()) {","	if !strings.EqualFold(supportProtocolName, handShakeResp.Protocol()) && !handShakeResp.SupportExtended() {")]),
("b5-check-hasprefix","C31",[(B9,"	if !strings.EqualFold(supportProtocolName, handShakeResp.Protocol()) {","	if !strings.HasPrefix(supportProtocolName, handShakeResp.Protocol()) {")]),
("b5-swap-ids","C31",[(B3,"NewBaseHandShakeMsg(supportProtocolName, reservedBytes, infoHash, peerId)\n	return","NewBaseHandShakeMsg(supportProtocolName, reservedBytes, peerId, infoHash)\n	return")]),
("b5-len-or","C31",[(B3,"	if PeerIdLen != len(peerId) || InfoHashLen != len(infoHash) {","	if PeerIdLen+InfoHashLen != len(peerId)+len(infoHash) {")]),
("b5-protolen-const","C31",[(B3,"	protocolLen := int(data[index])\n","	protocolLen := int(data[index]) % 20\n")]),
("b5-index-order","C31",[(B3,"	peerId := data[index : index+PeerIdLen]","	peerId := data[index-InfoHashLen : index-InfoHashLen+PeerIdLen]")]),
# C32
("b5-reset-before","C32",[(CB,"	// forget the sections of an earlier load\n	configLock.Lock()\n	configMap = make(misc.Dict, 16)\n	configLock.Unlock()\n",""),(CB,"	viper.SetConfigPermissions(0666)\n","	viper.SetConfigPermissions(0666)\n	configLock.Lock()\n	configMap = make(misc.Dict, 16)\n	configLock.Unlock()\n")]),
("b5-cache-lost","C32",[(CB,"	if err != nil {\n		misc.PanicSysErr(\"cannot find \"+key+\" config\", err)\n	}\n	configMap[key] = valPtr\n","	configMap[key] = valPtr\n	if err != nil {\n		misc.PanicSysErr(\"cannot find \"+key+\" config\", err)\n	}\n")]),
("b5-reset-ifmissing","C32",[(CB,"	configLock.Lock()\n	configMap = make(misc.Dict, 16)\n	configLock.Unlock()\n	configLogger","	if len(viper.AllKeys()) == 0 {\n		configLock.Lock()\n		configMap = make(misc.Dict, 16)\n		configLock.Unlock()\n	}\n	configLogger")]),
("b5-key-lower","C32",[(CB,"	return getSubConfig(loggerConfigKey, new(loggerConfig)).(*loggerConfig)","	return getSubConfig(\"log\"+\"ger.Level\", new(loggerConfig)).(*loggerConfig)")]),
("b5-any-err","C32",[(CB,"		if _, ok := err.(viper.ConfigFileNotFoundError); !ok {\n			misc.PanicSysErr(\"read config panic\", err)\n		}\n","		if _, ok := err.(viper.ConfigParseError); ok {\n			misc.PanicSysErr(\"read config panic\", err)\n		}\n")]),
("b5-no-mkdir","C32",[(CB,"		if !misc.IsExist(configPath) {\n			misc.Mkdir(configPath)\n		}\n","		if misc.IsExist(configPath) && !misc.IsDir(configPath) {\n			misc.Mkdir(configPath)\n		}\n")]),
("b5-cfg-flag","C32",[(CR,"		viper.SetConfigFile(cfgFile)\n		config.ResetConfig()\n","		config.ResetConfig()\n		viper.SetConfigFile(cfgFile)\n")]),
("b5-cfg-noreset","C32",[(CR,"		config.ResetConfig()\n","		if cfgFile != config.FileAbsPath {\n			viper.ReadInConfig()\n		}\n")]),
("b5-write-ignored","C32",[(CB,"		if err = viper.SafeWriteConfig(); err != nil {\n			misc.PanicSysErr(\"init flush config err\", err)\n		}\n","		if err = viper.SafeWriteConfig(); err != nil {\n			configLogger.Trace(\"init flush config err\", misc.Dict{\"err\": err})\n		}\n")]),
# C33
("b5-enc-resp","C33",[(SV,"			serverLogger.Error(\"encode response err\", misc.Dict{\"from\": packet.Addr.String(), \"dict\": ret.String()})\n			return\n","			serverLogger.Error(\"encode response err\", misc.Dict{\"from\": packet.Addr.String(), \"dict\": ret.String()})\n")]),
("b5-query-err","C33",[(DH,"	err = rpcServer.Query(raddr, msg)\n	if err != nil {","	rpcServer.Query(raddr, msg)\n	if err != nil {")]),
("b5-dec-swallow","C33",[(B10,"	if err != nil {\n		peerWireLogger.Panic(\"decode extended handshake err\", misc.Dict{\"err\": err})\n	}\n","	if err != nil {\n		peerWireLogger.Error(\"decode extended handshake err\", misc.Dict{\"err\": err})\n	}\n")]),
("b5-send-nil","C33",[(UD,"		udpLogger.Error(\">>> send udp err\", misc.Dict{\"laddr\": s.laddr, \"err\": err})\n		return err\n","		udpLogger.Error(\">>> send udp err\", misc.Dict{\"laddr\": s.laddr, \"err\": err})\n		return nil\n")]),
("b5-err-shadow","C33",[(SV,"	err = s.udpConn.SendPacket([]byte(raw), raddr)\n	if err != nil {\n		s.requestMapping","	if err := s.udpConn.SendPacket([]byte(raw), raddr); err != nil && raddr.IP.IsLoopback() {\n		s.requestMapping")]),
("b5-read-n","C33",[(B3,"	_, err = io.ReadFull(reader, buf[:preLen])\n	if err != nil {\n","	n, err := io.ReadFull(reader, buf[:preLen])\n	if err != nil && n == 0 {\n")]),
("b5-fetch-err","C33",[(FT,"	if err != nil {\n		return\n	}\n	flushTorrentFile(hash, result)","	if err != nil && result == nil {\n		return\n	}\n	flushTorrentFile(hash, result)")]),
("b5-writemeta","C33",[(B9,"			_, err := peerConn.conn.Write(withExtendedFetchMetaMsg(exMsgId, ExRequest, i, 0))\n			if err != nil {","			n, err := peerConn.conn.Write(withExtendedFetchMetaMsg(exMsgId, ExRequest, i, 0))\n			if err != nil && n > 0 {")]),
("b5-resolve-nil","C33",[(UD,"		udpLogger.Error(\"resolve remote host err\", misc.Dict{\"raddr\": remoteAddr, \"err\": err})\n		return err\n	}\n\n	return s","		udpLogger.Error(\"resolve remote host err\", misc.Dict{\"raddr\": remoteAddr, \"err\": err})\n	}\n\n	return s")]),
("b5-torrent-read","C33",[(TC,"	misc.PanicSysErrNonNil(err, \"read torrent file err\", path)\n","	if len(bytes) == 0 {\n		misc.PanicSysErrNonNil(err, \"read torrent file err\", path)\n	}\n")]),
# C34
("b5-enqueue-wait","C34",[(RH,"	default:\n","	case <-time.After(time.Second):\n"),(RH,"	\"encoding/hex\"\n","	\"encoding/hex\"\n	\"time\"\n")]),
("b5-handler-lookup","C34",[(RH,"	infoHashLogger.Info(\"announce_peer\"","	if names, err := net.LookupAddr(ctx.RemoteAddr().IP.String()); err == nil {\n		dhtLogger.Info(\"announce from\", misc.Dict{\"names\": names})\n	}\n	infoHashLogger.Info(\"announce_peer\""),(RH,"	\"github.com/GalaIO/P2Pcrawler/misc\"\n","	\"github.com/GalaIO/P2Pcrawler/misc\"\n	\"net\"\n")]),
("b5-cond-wait","C34",[(RH,"	// to chan, the","	for len(recvInfoHash) == cap(recvInfoHash) {\n		runtime.Gosched()\n	}\n	// to chan, the"),(RH,"	\"encoding/hex\"\n","	\"encoding/hex\"\n	\"runtime\"\n")]),
("b5-sync-fetch","C34",[(RH,"	default:\n","	default:\n		fetchHandler(ctx)\n")]),
("b5-resp-wait","C34",[(RP,"		err := rtable.AddNode(n)\n","		queryQueue <- n\n		err := rtable.AddNode(n)\n"),(RP,"func findNodeRespHandler","var queryQueue = make(chan *NodeInfo, 1000)\n\nfunc drainQueries() {\n	for range queryQueue {\n	}\n}\n\nfunc findNodeRespHandler"),(DH,"	go fetchTorrent()\n","	go fetchTorrent()\n	go drainQueries()\n")]),
("b5-drop-log-pool","C34",[(FT,"	for {\n		ctx := <-recvInfoHash\n","	announcePool = pool\n	for {\n		ctx := <-recvInfoHash\n"),(FT,"const torrentDir","var announcePool *misc.WorkPool\n\nconst torrentDir"),(RH,"	default:\n","	default:\n		if announcePool != nil {\n			announcePool.AsyncSubmit(func() { fetchHandler(ctx) })\n			return\n		}\n")]),
# C35
("b5-piece-minus","C35",[(B9,"		peerConn.requestedMetaData[pieceNum] = true\n","		peerConn.requestedMetaData[pieceNum] = len(fetchMetaResp.Data()) == SizeOf16KB || true\n		peerConn.requestedMetaData[len(peerConn.requestedMetaData)-1] = true\n")]),
("b5-count-only","C35",[(PC,"	for _, v := range p.requestedMetaData {\n		if !v {\n			return false\n		}\n	}\n	return true","	n := 0\n	for _, v := range p.requestedMetaData {\n		if v {\n			n++\n		}\n	}\n	return n*SizeOf16KB >= p.metaDataSize")]),
("b5-ceil-wrong","C35",[(B9,"		if metaSize%SizeOf16KB > 0 {","		if metaSize%SizeOf16KB > 1 {")]),
("b5-reject-mark","C35",[(B9,"			fetchMetaLogger.Error(\"get extended piece wrong format\", misc.Dict{\"laddr\": laddr, \"fetchMetaResp\": fetchMetaResp})\n			return\n","			fetchMetaLogger.Error(\"get extended piece wrong format\", misc.Dict{\"laddr\": laddr, \"fetchMetaResp\": fetchMetaResp})\n			if fetchMetaResp.MsgType() == ExReject {\n				peerConn.requestedMetaData[fetchMetaResp.PieceNum()] = true\n			}\n			return\n")]),
("b5-join-missing","C35",[(B9,"		result = append(result, peerConn.metaData[i]...)","		if len(peerConn.metaData[i]) > SizeOf16KB {\n			continue\n		}\n		result = append(result, peerConn.metaData[i]...)")]),
("b5-join-map","C35",[(B9,"	for i := 0; i < len(peerConn.requestedMetaData); i++ {\n		result","	for i := range map[int]bool{0: true, 1: true, 2: true} {\n		if i >= len(peerConn.metaData) {\n			continue\n		}\n		result")]),
("b5-rehandshake","C35",[(B9,"		peerConn.metaData = make([][]byte, pieceCount)\n","		if len(peerConn.metaData) < pieceCount {\n			peerConn.metaData = make([][]byte, pieceCount)\n		}\n")]),
("b5-default-complete","C35",[(PC,"		requestedMetaData: []bool{false},","		requestedMetaData: []bool{},")]),
("b5-arrival","C35",[(B9,"		pieceNum := fetchMetaResp.PieceNum()\n","		pieceNum := fetchMetaResp.PieceNum()\n		for pieceNum < len(peerConn.requestedMetaData)-1 && peerConn.requestedMetaData[pieceNum] {\n			pieceNum++\n		}\n")]),
# C39
("b5-atoi-plus","C39",[(B,"strconv.Atoi","strconv.ParseInt")]) if False else ("b5-x","C39",[(B,"zzz","zzz")]),
# C40
("b5-frame-len","C40",[(B10,"uint32(len(dst)+2)","uint32(len(dst)+1)")]),
("b5-frame-16","C40",[(B9,"	binary.BigEndian.PutUint32(preLenBytes, uint32(preLen))","	binary.BigEndian.PutUint16(preLenBytes[2:], uint16(preLen))")]),
("b5-id-1","C40",[(B9,"withExtendedFetchMetaMsg(exMsgId, ExRequest, i, 0)","withExtendedFetchMetaMsg(1, ExRequest, i, 0)")]),
("b5-id-def","C40",[(B9,"		exMsgId := supported.GetInteger(\"ut_metadata\")\n","		exMsgId := supported.GetIntegerOrDefault(\"ut_metadata\", 1)\n")]),
("b5-announce-2","C40",[(B9,"misc.Dict{\"ut_metadata\": 1}","misc.Dict{\"ut_metadata\": 2}")]),
("b5-announce-missing","C40",[(B9,"withExtendedhandShake(misc.Dict{\"ut_metadata\": 1}, nil)","withExtendedhandShake(misc.Dict{}, misc.Dict{\"ut_metadata\": 1})")]),
("b5-range","C40",[(B9,"		if exMsgId <= 0 || exMsgId > 255 {","		if exMsgId < 0 || exMsgId > 255 {")]),
("b5-byte-wrap","C40",[(B9,"		if exMsgId <= 0 || exMsgId > 255 {","		if exMsgId <= 0 || exMsgId > 256 {")]),
("b5-m-merged","C40",[(B10,"	dict[\"m\"] = metadata\n","	if _, ok := dict[\"m\"]; !ok && len(dict) > 0 {\n		dict[\"m\"] = metadata\n	}\n")]),
("b5-data-first","C40",[(B9,"	buf.Write([]byte(dst))\n	if len(b.data) > 0 {\n		buf.Write(b.data)\n	}","	if len(b.data) > 0 {\n		buf.Write(b.data)\n	}\n	buf.Write([]byte(dst))")]),
("b5-two-ids","C40",[(B9,"	case 1:\n","	case 1, 3:\n")]),
("b5-spin-select","C34",[(RH,"	select {\n	case recvInfoHash <- ctx:\n	default:\n","	for {\n		select {\n		case recvInfoHash <- ctx:\n			return\n		default:\n		}\n	}\n	if port < 0 {\n")]),
("b5-spin-helper","C34",[(RH,"	// to chan, the","	for queueFull() {\n	}\n	// to chan, the"),(RH,"func pingHandler(","func queueFull() bool { return len(recvInfoHash) >= cap(recvInfoHash) }\n\nfunc pingHandler(")]),
# C41
("b5-boot-first","C41",[(CR,"		dht.BootStrap(host)\n	}\n","		dht.BootStrap(host)\n		break\n	}\n")]),
("b5-run-late","C41",[(CR,"	go dht.Run()\n	misc.Wait4Shutdown(5 * time.Second)","	misc.Wait4Shutdown(5 * time.Second)\n	dht.Run()")]),
("b5-fetch-after","C41",[(DH,"	go fetchTorrent()\n",""),(DH,"	rpcServer.Listen()\n","	rpcServer.Listen()\n	go fetchTorrent()\n")]),
("b5-break-node","C41",[(RP,"			continue\n","			break\n")]),
("b5-query-addr","C41",[(RP,"rpcServer.Query(n.Addr,","rpcServer.Query(ctx.RemoteAddr(),")]),
("b5-query-ping","C41",[(RP,"WithFindNodeMsg(txIdGenerator.Next(), localNodeId, localNodeId, genericRespHandler)","WithPingMsg(txIdGenerator.Next(), localNodeId, genericRespHandler)")]),
("b5-query-nil","C41",[(DH,"localNodeId, localNodeId, genericRespHandler)","localNodeId, localNodeId, nil)")]),
("b5-enq-cond","C41",[(RH,"	// to chan, the","	if port == 0 {\n		return\n	}\n	// to chan, the")]),
("b5-task-batch","C41",[(FT,"		ctx := <-recvInfoHash\n","		ctx := <-recvInfoHash\n		if len(recvInfoHash) > 0 {\n			ctx = <-recvInfoHash\n		}\n")]),
("b5-retry","C41",[(FT,"	if err != nil {\n		return\n	}\n	flushTorrentFile(hash, result)","	if err != nil {\n		result, err = peerwire.FetchMetaData(laddr, peerwire.LocalPeerId, misc.Str2Bytes(infoHash))\n	}\n	if err != nil {\n		return\n	}\n	flushTorrentFile(hash, result)")]),
("b5-size-gate","C41",[(FT,"	flushTorrentFile(hash, result)","	if len(result) > 256 {\n		flushTorrentFile(hash, result)\n	}")]),
("b5-slice-nodes","C41",[(RP,"		findNodeRespHandler(ctx, parseNodeInfo(nodes))","		all := parseNodeInfo(nodes)\n		if len(all) > maxBucketLen {\n			all = all[:maxBucketLen]\n		}\n		findNodeRespHandler(ctx, all)")]),
# C42
("b5-def-zero","C42",[(T,"GetIntegerOrDefault","GetIntegerOrDefault")]) if False else ("b5-y","C42",[(T,"zzz","zzz")]),
# C43
]
M=[m for m in M if m[0] not in ("b5-x","b5-y")]
R=[
("b5r-join-skip",["C27"],[(ND,"		builder.WriteString(v.Id)\n		builder.Write(v.Addr.IP.To4())","		ip := v.Addr.IP.To4()\n		if ip == nil {\n			continue\n		}\n		builder.WriteString(v.Id)\n		builder.Write(ip)")]),
("b5r-retry-bounded",["C34"],[(RH,"	select {\n	case recvInfoHash <- ctx:\n	default:\n","	for i := 0; i < 3; i++ {\n		select {\n		case recvInfoHash <- ctx:\n			return\n		default:\n		}\n	}\n	if port < 0 || port >= 0 {\n")]),
("b5r-drain-counted",["C34"],[(RH,"	// to chan, the","	for n := len(recvInfoHash); n > 0; n-- {\n		if n == port {\n			break\n		}\n	}\n	// to chan, the")]),
]
