SV="dht/krpc/server.go"; MW="dht/krpc/middleware.go"; MS="dht/krpc/messages.go"; RH="dht/requesthandler.go"; RP="dht/resphandler.go"; DM="dht/messgaes.go"; DH="dht/dht.go"; ER="misc/errors.go"; FT="dht/fetchtorrent.go"; UD="dht/krpc/udp.go"; WP="misc/workpool.go"
M=[
# C06
("send-fixed-tx","C06",[(SV,"ret = WithParamErr(txId, dhtError.Error())","ret = WithParamErr(\"\", dhtError.Error())")]),
("err-wrong-tx","C06",[(SV,"return WithParamErr(txId, \"id format err\")","return WithParamErr(sourceId, \"id format err\")")]),
("no-reply-unsupported","C06",[(SV,"		ret := s.requestHandle(packet.Addr, dict)\n","		ret := s.requestHandle(packet.Addr, dict)\n		if ret.Error() && len(ret.TxId()) == 0 {\n			return\n		}\n")]),
("reply-twice","C06",[(SV,"			serverLogger.Error(\"send response packet err\", misc.Dict{\"to\": packet.Addr.String(), \"err\": err})\n			return","			s.udpConn.SendPacket([]byte(bytes), packet.Addr)\n			return")]),
("reply-elsewhere","C06",[(SV,"err = s.udpConn.SendPacket([]byte(bytes), packet.Addr)","err = s.udpConn.SendPacket([]byte(bytes), &net.UDPAddr{IP: packet.Addr.IP, Port: 6881})")]),
("send-on-encode-error","C06",[(SV,"			serverLogger.Error(\"encode response err\", misc.Dict{\"from\": packet.Addr.String(), \"dict\": ret.String()})\n			return","			serverLogger.Error(\"encode response err\", misc.Dict{\"from\": packet.Addr.String(), \"dict\": ret.String()})")]),
("handler-no-reply","C06",[(RH,"	ctx.WriteAs(WithAnnouncePeerResponse(req.TxId(), localNodeId))\n	// to chan, the reply must not wait for the downloads\n	select {\n	case recvInfoHash <- ctx:\n	default:","	// to chan, the reply must not wait for the downloads\n	select {\n	case recvInfoHash <- ctx:\n		ctx.WriteAs(WithAnnouncePeerResponse(req.TxId(), localNodeId))\n	default:")]),
("handler-wrong-tx","C06",[(RH,"ctx.WriteAs(WithPingResponse(req.TxId(), localNodeId))","ctx.WriteAs(WithPingResponse(localNodeId, req.TxId()))")]),
("handler-fresh-tx","C06",[(RH,"WithFindNodeResponse(req.TxId(),","WithFindNodeResponse(txIdGenerator.Next(),")]),
("handler-runtime-panic","C06",[(RH,"	hash := hex.EncodeToString([]byte(infoHash))\n	dhtLogger.Info(\"get get_peers","	hash := hex.EncodeToString([]byte(infoHash[:20]))\n	dhtLogger.Info(\"get get_peers")]),
("shared-packet-var","C06",[(SV,"	for {\n		packet := <-s.udpConn.RecvChan()","	var packet *RecvPacket\n	for {\n		packet = <-s.udpConn.RecvChan()")]),
("drop-packet","C06",[(SV,"		pool.AsyncSubmit(func() {\n			s.recvPacketHandle(packet)\n		})","		if len(packet.Bytes) < 50 {\n			continue\n		}\n		pool.AsyncSubmit(func() {\n			s.recvPacketHandle(packet)\n		})")]),
("handed-twice","C06",[(SV,"		pool.AsyncSubmit(func() {\n			s.recvPacketHandle(packet)\n		})","		pool.AsyncSubmit(func() {\n			s.recvPacketHandle(packet)\n		})\n		if len(packet.Bytes) > 500 {\n			pool.AsyncSubmit(func() { s.recvPacketHandle(packet) })\n		}")]),
("tx-in-server","C06",[(SV,"	respHandlerChain    []RpcHandlerFunc\n}","	respHandlerChain    []RpcHandlerFunc\n	curTx               string\n}"),(SV,"	txId := resp.GetString(\"t\")\n	queryType","	s.curTx = resp.GetString(\"t\")\n	txId := s.curTx\n	queryType")]),
("repanic-all","C06",[(SV,"			if !ok {\n				panic(err)\n			}\n			ret = WithParamErr(txId, dhtError.Error())","			if !ok || len(dhtError.Error()) > 200 {\n				panic(err)\n			}\n			ret = WithParamErr(txId, dhtError.Error())")]),
# C08
("id-len","C08",[(SV,"if len(sourceId) != 20 {","if len(sourceId) > 20 {")]),
("id-check-gone","C08",[(SV,"	if len(sourceId) != 20 {\n		return WithParamErr(txId, \"id format err\")\n	}\n","	if len(sourceId) == 0 {\n		return WithParamErr(txId, \"id format err\")\n	}\n")]),
("id-from-target","C08",[(SV,"sourceId := body.GetString(\"id\")","sourceId := body.GetStringOrDefault(\"target\", body.GetString(\"id\"))")]),
("default-handler","C08",[(SV,"	if !exist {\n		return WithParamErr(txId, \"cannot handle not match handler\")\n	}","	if !exist {\n		handler, _ = s.reqestHandlerRouter.Get(\"ping\")\n	}")]),
("refused-as-response","C08",[(SV,"return WithParamErr(txId, \"id format err\")","return WithResponse(txId, misc.Dict{\"id\": sourceId})")]),
("register-nil","C08",[(SV,"	if handler == nil {\n		panic(\"register fail, handler is nil\")\n	}\n\n","")]),
("register-any","C08",[(SV,"	if !supportQueryType.ContainsString(qType) {\n		panic(\"cannot support the query type\")\n	}\n","	if !supportQueryType.ContainsString(qType) {\n		serverLogger.Error(\"cannot support the query type\", nil)\n	}\n")]),
# C09
("biz-stack","C09",[(ER,"func PanicBizErr(errMsg string, params ...interface{}) {\n	panic(NewError(GenericErr, errMsg, false,","func PanicBizErr(errMsg string, params ...interface{}) {\n	panic(NewError(GenericErr, errMsg, true,")]),
("stack-always","C09",[(ER,"if d.printStack {","if d.printStack || d.code == GenericErr {")]),
("stack-in-err","C09",[(SV,"ret = WithParamErr(txId, dhtError.Error())","ret = WithParamErr(txId, dhtError.Error()+string(debug.Stack()))"),(SV,"	\"net\"\n","	\"net\"\n	\"runtime/debug\"\n")]),
("stack-hex","C09",[(SV,"ret = WithParamErr(txId, dhtError.Error())","trace := hex.EncodeToString(debug.Stack())\n			ret = WithErr(txId, 203, dhtError.Error()+\" at \"+trace)"),(SV,"	\"net\"\n","	\"net\"\n	\"runtime/debug\"\n")]),
("sys-in-handler","C09",[(RH,"	infoHash := body.GetString(\"info_hash\")\n	hash := hex.EncodeToString([]byte(infoHash))\n	port","	infoHash := body.GetString(\"info_hash\")\n	if len(infoHash) != 20 {\n		misc.PanicSysErr(\"bad info hash\")\n	}\n	hash := hex.EncodeToString([]byte(infoHash))\n	port")]),
# C10
("get-not-take","C10",[(SV,"handler, exist := s.requestMapping.Take(txId)","handler, exist := s.requestMapping.Get(txId)")]),
("get-then-del","C10",[(SV,"handler, exist := s.requestMapping.Take(txId)","handler, exist := s.requestMapping.Get(txId)\n	s.requestMapping.Del(txId)")]),
("put-after-send","C10",[(SV,"	s.requestMapping.Put(req.TxId(), req)\n	raw","	raw"),(SV,"	serverLogger.Info(\">>>rpc sended\"","	s.requestMapping.Put(req.TxId(), req)\n	serverLogger.Info(\">>>rpc sended\"")]),
("no-del-on-send-err","C10",[(SV,"	if err != nil {\n		s.requestMapping.Del(req.TxId())\n		serverLogger.Error(\"send query","	if err != nil {\n		serverLogger.Error(\"send query")]),
("no-del-on-enc-err","C10",[(SV,"	if err != nil {\n		s.requestMapping.Del(req.TxId())\n		serverLogger.Error(\"encode request","	if err != nil {\n		serverLogger.Error(\"encode request")]),
("del-wrong-key","C10",[(SV,"	if err != nil {\n		s.requestMapping.Del(req.TxId())\n		serverLogger.Error(\"send query","	if err != nil {\n		s.requestMapping.Del(req.Type())\n		serverLogger.Error(\"send query")]),
("err-not-forgotten","C10",[(SV,"	s.requestMapping.Del(txId)\n	list","	list")]),
("err-forget-wrong","C10",[(SV,"	s.requestMapping.Del(txId)\n	list","	s.reqestHandlerRouter.Del(txId)\n	list")]),
("err-forget-cond","C10",[(SV,"	s.requestMapping.Del(txId)\n	list","	if len(txId) == 4 {\n		s.requestMapping.Del(txId)\n	}\n	list")]),
("unmatched-runs","C10",[(SV,"		serverLogger.Error(\"cannot match request\", misc.Dict{\"txId\": txId, \"nodeId\": nodeId})\n		return\n	}","		serverLogger.Error(\"cannot match request\", misc.Dict{\"txId\": txId, \"nodeId\": nodeId})\n		handler = NewBaseRequest(txId, \"ping\", nil, s.respHandlerChain[0])\n	}")]),
("key-type","C10",[(SV,"s.requestMapping.Put(req.TxId(), req)","s.requestMapping.Put(req.TxId()+req.Type(), req)")]),
("resp-other-tx","C10",[(SV,"resp := WithResponse(txId, body)","resp := WithResponse(nodeId, body)")]),
("ctx-nil-resp","C10",[(SV,"	executeChain = append(executeChain, req.Handler())\n	ctx := NewReqContext(executeChain, req, resp, addr)","	executeChain = append(executeChain, req.Handler())\n	ctx := NewReqContext(executeChain, req, nil, addr)")]),
("take-nondeleting","C10",[("misc/syncmap.go","	val, ok := m.mapping[key]\n	delete(m.mapping, key)\n	return val, ok","	val, ok := m.mapping[key]\n	if !ok {\n		delete(m.mapping, key)\n	}\n	return val, ok")]),
("del-on-success","C10",[(SV,"	serverLogger.Info(\">>>rpc sended\"","	if len(raw) > 1000 {\n		s.requestMapping.Del(req.TxId())\n	}\n	serverLogger.Info(\">>>rpc sended\"")]),
# C26
("share-chain","C26",[(SV,"	executeChain := make([]RpcHandlerFunc, 0, len(s.reqHandlerChain))\n	executeChain = append(executeChain, s.reqHandlerChain...)\n	executeChain = append(executeChain, reqHandler)","	executeChain := append(s.reqHandlerChain, reqHandler)")]),
("resp-share-chain","C26",[(SV,"	executeChain := make([]RpcHandlerFunc, 0, len(s.reqHandlerChain))\n	executeChain = append(executeChain, s.respHandlerChain...)\n	executeChain = append(executeChain, req.Handler())","	executeChain := append(s.respHandlerChain, req.Handler())")]),
("mixed-chain","C26",[(SV,"executeChain = append(executeChain, s.respHandlerChain...)","executeChain = append(executeChain, s.reqHandlerChain...)")]),
("handler-first","C26",[(SV,"	executeChain = append(executeChain, s.reqHandlerChain...)\n	executeChain = append(executeChain, reqHandler)","	executeChain = append(executeChain, reqHandler)\n	executeChain = append(executeChain, s.reqHandlerChain...)")]),
("handler-twice","C26",[(SV,"	executeChain = append(executeChain, reqHandler)\n","	executeChain = append(executeChain, reqHandler, reqHandler)\n")]),
("start-at-0","C26",[(MW,"index: -1,","index: 0,")]),
("no-inc","C26",[(MW,"for ; c.index < len(c.chain); c.index++ {\n		c.chain[c.index](c)\n	}","if c.index < len(c.chain) {\n		c.chain[c.index](c)\n	}")]),
("local-index","C26",[(MW,"	c.index++\n	for ; c.index < len(c.chain); c.index++ {\n		c.chain[c.index](c)\n	}","	for i := c.index + 1; i < len(c.chain); i++ {\n		c.index = i\n		c.chain[i](c)\n	}")]),
("local-index2","C26",[(MW,"	c.index++\n	for ; c.index < len(c.chain); c.index++ {\n		c.chain[c.index](c)\n	}","	for i := c.index + 1; i < len(c.chain); i++ {\n		c.chain[i](c)\n	}\n	c.index = len(c.chain)")]),
("stop-early","C26",[(MW,"c.index < len(c.chain);","c.index < len(c.chain)-1;")]),
("shared-ctx","C26",[(SV,"	respHandlerChain    []RpcHandlerFunc\n}","	respHandlerChain    []RpcHandlerFunc\n	last                *RpcContext\n}"),(SV,"	ctx := NewReqContext(executeChain, req, nil, addr)\n	ctx.Next()\n	return ctx.resp","	if s.last == nil {\n		s.last = &RpcContext{}\n	}\n	ctx := s.last\n	*ctx = *NewReqContext(executeChain, req, nil, addr)\n	ctx.Next()\n	return ctx.resp")]),
("use-wrong-chain","C26",[(SV,"s.respHandlerChain = append(s.respHandlerChain, handlerChain...)","s.respHandlerChain = append(s.reqHandlerChain, handlerChain...)")]),
("use-prepend","C26",[(SV,"s.respHandlerChain = append(s.respHandlerChain, handlerChain...)","s.respHandlerChain = append(handlerChain, s.respHandlerChain...)")]),
("no-middleware","C26",[(SV,"	executeChain = append(executeChain, s.respHandlerChain...)\n","")]),
# C34
("blocking-send","C34",[(RH,"	select {\n	case recvInfoHash <- ctx:\n	default:\n		dhtLogger.Error(\"info hash queue is full, ignore\", misc.Dict{\"infoHash\": hash})\n	}","	recvInfoHash <- ctx")]),
("timed-send","C34",[(RH,"	default:\n		dhtLogger.Error(\"info","	case <-time.After(time.Second):\n		dhtLogger.Error(\"info"),(RH,"	\"github.com/GalaIO/P2Pcrawler/misc\"\n","	\"github.com/GalaIO/P2Pcrawler/misc\"\n	\"time\"\n")]),
("fetch-inline","C34",[(RH,"	default:\n		dhtLogger.Error(\"info hash queue is full, ignore\", misc.Dict{\"infoHash\": hash})","	default:\n		fetchHandler(ctx)")]),
("drain-one","C34",[(RH,"	default:\n		dhtLogger.Error(\"info hash queue is full, ignore\", misc.Dict{\"infoHash\": hash})","	default:\n		<-recvInfoHash\n		recvInfoHash <- ctx")]),
("sleep-query","C34",[(RP,"		if err != nil {\n			dhtLogger.Error(\"recurve","		time.Sleep(time.Millisecond)\n		if err != nil {\n			dhtLogger.Error(\"recurve"),(RP,"	\"net\"\n","	\"net\"\n	\"time\"\n")]),
# C07
("support-typo","C07",[(SV,"\"find_node\", \"get_peers\"","\"find_nodes\", \"get_peers\"")]),
("register-typo","C07",[(DH,"RegisteHandler(\"find_node\"","RegisteHandler(\"ping\"")]),
("register-late","C07",[(DH,"	rpcServer.RegisteHandler(\"announce_peer\", announcePeerHandler)\n",""),(DH,"	rpcServer.Listen()\n","	rpcServer.Listen()\n	rpcServer.RegisteHandler(\"announce_peer\", announcePeerHandler)\n")]),
("register-cond","C07",[(DH,"	rpcServer.RegisteHandler(\"announce_peer\", announcePeerHandler)\n","	if config.FetchTorrentConfig().InfoHashQueueSize > 0 {\n		rpcServer.RegisteHandler(\"announce_peer\", announcePeerHandler)\n	}\n")]),
("build-typo","C07",[(DM,"NewBaseRequest(txId, \"get_peers\"","NewBaseRequest(txId, \"get_peer\"")]),
("dispatch-typo","C07",[(RP,"case \"find_node\":","case \"findnode\":")]),
("dispatch-gone","C07",[(RP,"	case \"announce_peer\":\n		announcePeerRespHandler(ctx, nodeId)\n","")]),
("dispatch-merged","C07",[(RP,"	case \"ping\":\n		pingRespHandler(ctx, nodeId)\n","	case \"ping\", \"announce_peer\":\n		pingRespHandler(ctx, nodeId)\n"),(RP,"	case \"announce_peer\":\n		announcePeerRespHandler(ctx, nodeId)\n","")]),
# C30
("reply-key","C30",[(DM,"misc.Dict{\"id\": nodeId, \"nodes\": joinNodeInfos(nodes)})\n}\n\nfunc WithGetPeersV","misc.Dict{\"id\": nodeId, \"node\": joinNodeInfos(nodes)})\n}\n\nfunc WithGetPeersV")]),
("token-missing","C30",[(DM,"misc.Dict{\"id\": nodeId, \"token\": token, \"nodes\":","misc.Dict{\"id\": nodeId, \"nodes\":")]),
("swap-args","C30",[(DM,"		\"id\":     nodeId,\n		\"target\": target,","		\"id\":     target,\n		\"target\": nodeId,")]),
("port-string","C30",[(DM,"\"port\":         port,","\"port\":         string(rune(port)),")]),
("read-implied","C30",[(FT,"if body.Exist(\"implied_port\") && body.GetInteger(\"implied_port\") > 0 {","if body.Exist(\"impliedPort\") && body.GetInteger(\"impliedPort\") > 0 {")]),
("read-infohash","C30",[(RH,"	infoHash := body.GetString(\"info_hash\")\n	hash := hex.EncodeToString([]byte(infoHash))\n	port","	infoHash := body.GetString(\"infohash\")\n	hash := hex.EncodeToString([]byte(infoHash))\n	port")]),
("env-swap","C30",[(MS,"		\"q\": b.qType,\n		\"a\": b.body,","		\"a\": b.body,\n		\"q\": b.txId,")]),
("env-noerr","C30",[(MS,"		\"y\": \"e\",","		\"y\": \"r\",")]),
("env-errlist","C30",[(MS,"misc.List{code, msg}","misc.List{msg, code}")]),
("err-code-key","C30",[(MS,"misc.Dict{\"code\": code, \"msg\": errMsg}","misc.Dict{\"errcode\": code, \"msg\": errMsg}")]),
("read-values-string","C30",[(RP,"vals := body.GetList(\"values\")","vals := misc.List{body.GetString(\"values\")}")]),
("swapped-handler","C30",[(DH,"RegisteHandler(\"find_node\", findNodeHandler)","RegisteHandler(\"find_node\", pingHandler)")]),
("reply-id-txid","C30",[(RH,"WithAnnouncePeerResponse(req.TxId(), localNodeId)","WithAnnouncePeerResponse(req.TxId(), body.GetString(\"id\"))")]),
("read-body-key","C30",[(SV,"body := resp.GetDict(\"a\")","body := resp.GetDict(\"args\")")]),
]
R=[
("extract-send",None,[(SV,"		ret := s.requestHandle(packet.Addr, dict)\n		bytes, err := misc.EncodeDict(ret.RawData())\n		if err != nil {\n			serverLogger.Error(\"encode response err\", misc.Dict{\"from\": packet.Addr.String(), \"dict\": ret.String()})\n			return\n		}\n		err = s.udpConn.SendPacket([]byte(bytes), packet.Addr)\n		if err != nil {\n			serverLogger.Error(\"send response packet err\", misc.Dict{\"to\": packet.Addr.String(), \"err\": err})\n			return\n		}\n		serverLogger.Info(\">>>  Bytes sended\", misc.Dict{\"to\": packet.Addr.String(), \"len\": len(bytes)})\n","		s.answer(packet.Addr, s.requestHandle(packet.Addr, dict))\n"),(SV,"// err handler\n","func (s *RpcServer) answer(addr *net.UDPAddr, ret Response) {\n	raw, err := misc.EncodeDict(ret.RawData())\n	if err != nil {\n		serverLogger.Error(\"encode response err\", misc.Dict{\"from\": addr.String()})\n		return\n	}\n	if err = s.udpConn.SendPacket([]byte(raw), addr); err != nil {\n		serverLogger.Error(\"send response packet err\", misc.Dict{\"to\": addr.String(), \"err\": err})\n	}\n}\n\n// err handler\n")]),
("if-chain",None,[(SV,"	switch dict.GetString(\"y\") {\n	case \"q\":","	y := dict.GetString(\"y\")\n	if y == \"q\" {"),(SV,"	case \"r\":\n		s.responseHandle(packet.Addr, dict)\n	case \"e\":\n		s.responseErrHandle(packet.Addr, dict)\n	}","	} else if y == \"r\" {\n		s.responseHandle(packet.Addr, dict)\n	} else if y == \"e\" {\n		s.responseErrHandle(packet.Addr, dict)\n	}")]),
("next-for",None,[(MW,"	c.index++\n	for ; c.index < len(c.chain); c.index++ {\n		c.chain[c.index](c)\n	}","	for {\n		c.index++\n		if c.index >= len(c.chain) {\n			return\n		}\n		handler := c.chain[c.index]\n		handler(c)\n	}")]),
("next-pos",None,[(MW,"	c.index++\n	for ; c.index < len(c.chain); c.index++ {\n		c.chain[c.index](c)\n	}","	for c.index < len(c.chain) {\n		handler := c.chain[c.index]\n		c.index++\n		handler(c)\n	}"),(MW,"index: -1","index: 0")]),
("chain-cap",None,[(SV,"	executeChain := make([]RpcHandlerFunc, 0, len(s.reqHandlerChain))\n	executeChain = append(executeChain, s.reqHandlerChain...)\n	executeChain = append(executeChain, reqHandler)","	executeChain := append(s.reqHandlerChain[:len(s.reqHandlerChain):len(s.reqHandlerChain)], reqHandler)")]),
("chain-nil",None,[(SV,"	executeChain := make([]RpcHandlerFunc, 0, len(s.reqHandlerChain))\n	executeChain = append(executeChain, s.reqHandlerChain...)\n	executeChain = append(executeChain, reqHandler)","	executeChain := append([]RpcHandlerFunc(nil), s.reqHandlerChain...)\n	executeChain = append(executeChain, reqHandler)")]),
("chain-copy",None,[(SV,"	executeChain := make([]RpcHandlerFunc, 0, len(s.reqHandlerChain))\n	executeChain = append(executeChain, s.reqHandlerChain...)\n	executeChain = append(executeChain, reqHandler)","	n := len(s.reqHandlerChain)\n	executeChain := make([]RpcHandlerFunc, n+1)\n	copy(executeChain, s.reqHandlerChain)\n	executeChain[n] = reqHandler")]),
("chain-helper",None,[(SV,"	executeChain := make([]RpcHandlerFunc, 0, len(s.reqHandlerChain))\n	executeChain = append(executeChain, s.reqHandlerChain...)\n	executeChain = append(executeChain, reqHandler)","	executeChain := makeChain(s.reqHandlerChain, reqHandler)"),(SV,"	executeChain := make([]RpcHandlerFunc, 0, len(s.reqHandlerChain))\n	executeChain = append(executeChain, s.respHandlerChain...)\n	executeChain = append(executeChain, req.Handler())","	executeChain := makeChain(s.respHandlerChain, req.Handler())"),(SV,"// err handler\n","func makeChain(chain []RpcHandlerFunc, last RpcHandlerFunc) []RpcHandlerFunc {\n	out := make([]RpcHandlerFunc, 0, len(chain)+1)\n	for _, h := range chain {\n		out = append(out, h)\n	}\n	return append(out, last)\n}\n\n// err handler\n")]),
("query-helper",None,[(SV,"	s.requestMapping.Put(req.TxId(), req)\n	raw","	txId := req.TxId()\n	s.requestMapping.Put(txId, req)\n	raw"),(SV,"		s.requestMapping.Del(req.TxId())\n		serverLogger.Error(\"send query","		s.forget(txId)\n		serverLogger.Error(\"send query"),(SV,"// err handler\n","func (s *RpcServer) forget(txId string) {\n	s.requestMapping.Del(txId)\n}\n\n// err handler\n")]),
("query-defer",None,[(SV,"func (s *RpcServer) Query(raddr *net.UDPAddr, req Request) error {\n	s.requestMapping.Put(req.TxId(), req)\n	raw, err := misc","func (s *RpcServer) Query(raddr *net.UDPAddr, req Request) (err error) {\n	s.requestMapping.Put(req.TxId(), req)\n	defer func() {\n		if err != nil {\n			s.requestMapping.Del(req.TxId())\n		}\n	}()\n	raw, err := misc"),(SV,"	if err != nil {\n		s.requestMapping.Del(req.TxId())\n		serverLogger.Error(\"send query","	if err != nil {\n		serverLogger.Error(\"send query"),(SV,"	if err != nil {\n		s.requestMapping.Del(req.TxId())\n		serverLogger.Error(\"encode request","	if err != nil {\n		serverLogger.Error(\"encode request")]),
("go-submit",None,[(SV,"		pool.AsyncSubmit(func() {\n			s.recvPacketHandle(packet)\n		})","		task := s.taskFor(packet)\n		pool.AsyncSubmit(task)"),(SV,"// err handler\n","func (s *RpcServer) taskFor(packet *RecvPacket) func() {\n	return func() { s.recvPacketHandle(packet) }\n}\n\n// err handler\n")]),
("range-recv",None,[(SV,"	for {\n		packet := <-s.udpConn.RecvChan()\n","	for p := range s.udpConn.RecvChan() {\n		packet := p\n")]),
("validate-helper",None,[(SV,"	if len(sourceId) != 20 {\n		return","	if !validId(sourceId) {\n		return"),(SV,"// err handler\n","func validId(id string) bool { return len(id) == 20 }\n\n// err handler\n")]),
("register-loop",None,[(DH,"	rpcServer.RegisteHandler(\"ping\", pingHandler)\n	rpcServer.RegisteHandler(\"find_node\", findNodeHandler)\n	rpcServer.RegisteHandler(\"get_peers\", getPeersHandler)\n	rpcServer.RegisteHandler(\"announce_peer\", announcePeerHandler)\n","	handlers := map[string]krpc.RpcHandlerFunc{\n		\"ping\": pingHandler, \"find_node\": findNodeHandler, \"get_peers\": getPeersHandler, \"announce_peer\": announcePeerHandler,\n	}\n	for name, h := range handlers {\n		rpcServer.RegisteHandler(name, h)\n	}\n")]),
("register-helper",None,[(DH,"	rpcServer.RegisteHandler(\"ping\", pingHandler)\n	rpcServer.RegisteHandler(\"find_node\", findNodeHandler)\n	rpcServer.RegisteHandler(\"get_peers\", getPeersHandler)\n	rpcServer.RegisteHandler(\"announce_peer\", announcePeerHandler)\n","	registerHandlers(rpcServer)\n"),(DH,"// bootstrap find","func registerHandlers(s *krpc.RpcServer) {\n	s.RegisteHandler(\"announce_peer\", announcePeerHandler)\n	s.RegisteHandler(\"ping\", pingHandler)\n	s.RegisteHandler(\"find_node\", findNodeHandler)\n	s.RegisteHandler(\"get_peers\", getPeersHandler)\n}\n\n// bootstrap find")]),
("method-consts",None,[(DH,"	rpcServer.RegisteHandler(\"ping\", pingHandler)\n","	rpcServer.RegisteHandler(pingMethod, pingHandler)\n"),(DH,"// bootstrap find","const pingMethod = \"ping\"\n\n// bootstrap find"),(RP,"case \"ping\":","case pingMethod:")]),
("dispatch-if",None,[(RP,"	switch req.Type() {\n	case \"ping\":\n		pingRespHandler(ctx, nodeId)\n	case \"find_node\":","	qType := req.Type()\n	if qType == \"ping\" {\n		pingRespHandler(ctx, nodeId)\n		return\n	}\n	switch qType {\n	case \"find_node\":")]),
("ann-helper",None,[(RH,"	select {\n	case recvInfoHash <- ctx:\n	default:\n		dhtLogger.Error(\"info hash queue is full, ignore\", misc.Dict{\"infoHash\": hash})\n	}\n}","	if !enqueue(ctx) {\n		dhtLogger.Error(\"info hash queue is full, ignore\", misc.Dict{\"infoHash\": hash})\n	}\n}\n\nfunc enqueue(ctx *krpc.RpcContext) bool {\n	select {\n	case recvInfoHash <- ctx:\n		return true\n	default:\n		return false\n	}\n}")]),
("body-var",None,[(DM,"	return krpc.NewBaseRequest(txId, \"ping\", misc.Dict{\n		\"id\": nodeId,\n	}, handler)","	body := make(misc.Dict)\n	body[\"id\"] = nodeId\n	return krpc.NewBaseRequest(txId, \"ping\", body, handler)")]),
("raw-build",None,[(MS,"	return misc.Dict{\n		\"t\": b.txId,\n		\"y\": \"q\",\n		\"q\": b.qType,\n		\"a\": b.body,\n	}","	raw := misc.Dict{\"t\": b.TxId(), \"y\": \"q\"}\n	raw[\"q\"] = b.Type()\n	raw[\"a\"] = b.Body()\n	return raw")]),
("implied-default",None,[(FT,"if body.Exist(\"implied_port\") && body.GetInteger(\"implied_port\") > 0 {","if body.GetIntegerOrDefault(\"implied_port\", 0) > 0 {")]),
("err-recover-helper",None,[(SV,"	defer func() {\n		if err := recover(); err != nil {\n			serverLogger.Error(\"request handle panic\", misc.Dict{\"err\": err})\n			dhtError, ok := err.(*misc.Error)\n			if !ok {\n				panic(err)\n			}\n			ret = WithParamErr(txId, dhtError.Error())\n		}\n	}()","	defer func() {\n		err := recover()\n		if err == nil {\n			return\n		}\n		serverLogger.Error(\"request handle panic\", misc.Dict{\"err\": err})\n		switch e := err.(type) {\n		case *misc.Error:\n			ret = WithParamErr(txId, e.Error())\n		default:\n			panic(err)\n		}\n	}()")]),
]
