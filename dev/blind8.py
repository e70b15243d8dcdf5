SV="dht/krpc/server.go"; UD="dht/krpc/udp.go"; MW="dht/krpc/middleware.go"; DH="dht/dht.go"; RP="dht/resphandler.go"; RQ="dht/requesthandler.go"; FT="dht/fetchtorrent.go"; SM="misc/syncmap.go"; RT="dht/routetable.go"; ND="dht/node.go"; MS="dht/krpc/messages.go"; DM="dht/messgaes.go"
M=[
("b8-decode-before-defer","C01",[(SV,"\n	defer func() {\n		if err := recover(); err != nil {\n			serverLogger.Error(\"recv packet handle panic\"","\n	kind := packet.Bytes[0]\n	serverLogger.Trace(\"packet\", misc.Dict{\"kind\": kind})\n	defer func() {\n		if err := recover(); err != nil {\n			serverLogger.Error(\"recv packet handle panic\"")]),
("b8-recover-index","C01",[(SV,'"err": err, "bytesLen": len(packet.Bytes)})\n','"err": err, "bytesLen": len(packet.Bytes), "first": packet.Bytes[0]})\n')]),
("b8-loop-token","C01",[(FT,"		ctx := <-recvInfoHash\n","		ctx := <-recvInfoHash\n		body := ctx.Request().Body()\n		dhtLogger.Trace(\"announced\", misc.Dict{\"token\": body.GetString(\"token\")})\n")]),
("b8-ping-cached","C06",[(RQ,"	ctx.WriteAs(WithPingResponse(req.TxId(), localNodeId))","	if pingResp == nil {\n		pingResp = WithPingResponse(req.TxId(), localNodeId)\n	}\n	ctx.WriteAs(pingResp)"),(RQ,"func pingHandler(","var pingResp krpc.Response\n\nfunc pingHandler(")]),
("b8-put-back","C10",[(SV,"	s.doResponseHandle(req, resp, addr)\n}","	s.doResponseHandle(req, resp, addr)\n	if len(nodeId) != 20 {\n		s.requestMapping.Put(txId, handler)\n	}\n}")]),
("b8-get-early","C11",[(SM,"	defer m.Unlock()\n	m.Lock()\n	handlerFunc, ok","	if len(m.mapping) == 0 {\n		return nil, false\n	}\n	defer m.Unlock()\n	m.Lock()\n	handlerFunc, ok")]),
("b8-lookup","C34",[(RP,"	dhtLogger.Info(\"handle response\"","	names, _ := net.LookupAddr(ctx.RemoteAddr().IP.String())\n	dhtLogger.Info(\"handle response\", misc.Dict{\"names\": names})\n	dhtLogger.Info(\"handle response\"")]),
("b8-same-hash","C41",[(FT,"		ctx := <-recvInfoHash\n","		ctx := <-recvInfoHash\n		body := ctx.Request().Body()\n		hash := body.GetStringOrDefault(\"info_hash\", \"\")\n		if hash == last {\n			continue\n		}\n		last = hash\n"),(FT,"	for {\n		ctx","	last := \"\"\n	for {\n		ctx")]),
# equivalent or out of scope
#("b8-verbose-err","C09",[(SV,"ret = WithParamErr(txId, dhtError.Error())","ret = WithParamErr(txId, fmt.Sprintf(\"%#v\", *dhtError))"),(SV,'	"encoding/hex"\n','	"encoding/hex"\n	"fmt"\n')]),
# equivalent or out of scope
#("b8-closest-zero","C15",[(RT,"	for len(nodes) <= k && pLen >= 0 {","	for len(nodes) <= k && pLen >= 0 && t.nodeMap[pLen].Size() > 0 {")]),
("b8-own-generator","C28",[(DH,"WithFindNodeMsg(txIdGenerator.Next(), localNodeId, localNodeId, genericRespHandler)\n	raddr","WithFindNodeMsg(NewTxIdGenerator(1000).Next(), localNodeId, localNodeId, genericRespHandler)\n	raddr")]),
("b8-bootstrap-ignore","C33",[(DH,"	err = rpcServer.Query(raddr, msg)\n	if err != nil {\n		dhtLogger.Panic(\"bootstrap findnode err\", misc.Dict{\"host\": host, \"err\": err})\n	}","	rpcServer.Query(raddr, msg)")]),
("b8-resolve-each","C33",[(DH,"	if err != nil {\n		dhtLogger.Panic(\"bootstrap resolve host err\", misc.Dict{\"host\": host, \"err\": err})\n	}\n","	if err != nil {\n		dhtLogger.Error(\"bootstrap resolve host err\", misc.Dict{\"host\": host, \"err\": err})\n	}\n")]),
("b8-next-once","C26",[(MW,"	for ; c.index < len(c.chain); c.index++ {\n		c.chain[c.index](c)\n	}","	for i := c.index; i < len(c.chain); i++ {\n		c.chain[i](c)\n	}")]),
("b8-resp-chain-req","C26",[(SV,"	executeChain = append(executeChain, s.respHandlerChain...)","	executeChain = append(executeChain, s.respHandlerChain[:len(s.reqHandlerChain)]...)")]),
("b8-register-panic-later","C06",[(SV,"	handler, exist := s.reqestHandlerRouter.Get(queryType)\n	if !exist {","	handler, exist := s.reqestHandlerRouter.Get(queryType)\n	if !exist && queryType != \"ping\" {")]),
("b8-hash-len-drop","C41",[(FT,"	infoHash := body.GetString(\"info_hash\")\n	laddr","	infoHash := body.GetString(\"info_hash\")\n	if port := body.GetInteger(\"port\"); port < 1024 {\n		return\n	}\n	laddr")]),
("b8-addr-of-packet","C06",[(SV,"		err = s.udpConn.SendPacket([]byte(bytes), packet.Addr)","		addr := packet.Addr\n		if body, ok := dict[\"a\"].(misc.Dict); ok && body.Exist(\"port\") {\n			addr = &net.UDPAddr{IP: addr.IP, Port: body.GetIntegerOrDefault(\"port\", addr.Port)}\n		}\n		err = s.udpConn.SendPacket([]byte(bytes), addr)")]),
("b8-err-claims","C10",[(SV,"	s.requestMapping.Del(txId)\n	list := err.GetList(\"e\")","	list := err.GetList(\"e\")\n	if list.GetInteger(0) >= 203 {\n		s.requestMapping.Del(txId)\n	}")]),
("b8-recvq-drop","C24",[(UD,"		s.recvq <- &RecvPacket{Addr: raddr, Bytes: buf[:n]}","		select {\n		case s.recvq <- &RecvPacket{Addr: raddr, Bytes: buf[:n]}:\n		default:\n			return\n		}")]),
("b8-close-race","C24",[(UD,"	defer s.Unlock()\n	s.Lock()\n	return s.close()","	if s.conn == nil {\n		return nil\n	}\n	return s.conn.Close()")]),
("b8-put-then-log","C16",[(SV,"		krpcBytesPool.Put(packet.Bytes)\n","		krpcBytesPool.Put(packet.Bytes)\n		serverLogger.Trace(\"packet done\", misc.Dict{\"head\": string(packet.Bytes[:1])})\n")]),
("b8-str-alias","C16",[(SV,"misc.DecodeDictNoLimit(string(packet.Bytes))","misc.DecodeDictNoLimit(misc.Bytes2Str(packet.Bytes))")]),
]
R=[
("r8-chain-full-slice",["C26"],[(SV,"	executeChain = append(executeChain, s.respHandlerChain...)","	all := s.respHandlerChain\n	executeChain = append(executeChain, all[:len(all):len(all)]...)")]),
("r8-chain-loop",["C26"],[(SV,"	executeChain = append(executeChain, s.respHandlerChain...)","	for _, m := range s.respHandlerChain {\n		executeChain = append(executeChain, m)\n	}")]),
("r8-backoff",None,[(UD,"			udpLogger.Error(\"<<< receive udp err\", misc.Dict{\"err\": err})\n","			udpLogger.Error(\"<<< receive udp err\", misc.Dict{\"err\": err})\n			time.Sleep(time.Millisecond)\n"),(UD,'	"sync/atomic"\n','	"sync/atomic"\n	"time"\n')]),
("r8-early-return",None,[(SV,"	switch dict.GetString(\"y\") {\n	case \"q\":\n		ret := s.requestHandle(packet.Addr, dict)\n","	kind := dict.GetString(\"y\")\n	if kind != \"q\" {\n		if kind == \"r\" {\n			s.responseHandle(packet.Addr, dict)\n		} else if kind == \"e\" {\n			s.responseErrHandle(packet.Addr, dict)\n		}\n		return\n	}\n	{\n		ret := s.requestHandle(packet.Addr, dict)\n"),(SV,"	case \"r\":\n		s.responseHandle(packet.Addr, dict)\n	case \"e\":\n		s.responseErrHandle(packet.Addr, dict)\n	}\n","	}\n")]),
("r8-dispatch-table",None,[(DH,"	rpcServer.RegisteHandler(\"ping\", pingHandler)\n	rpcServer.RegisteHandler(\"find_node\", findNodeHandler)\n	rpcServer.RegisteHandler(\"get_peers\", getPeersHandler)\n	rpcServer.RegisteHandler(\"announce_peer\", announcePeerHandler)\n","	for _, h := range []struct {\n		name string\n		f    krpc.RpcHandlerFunc\n	}{{\"ping\", pingHandler}, {\"find_node\", findNodeHandler}, {\"get_peers\", getPeersHandler}, {\"announce_peer\", announcePeerHandler}} {\n		rpcServer.RegisteHandler(h.name, h.f)\n	}\n")]),
("r8-send-func",None,[(SV,"		err = s.udpConn.SendPacket([]byte(bytes), packet.Addr)\n		if err != nil {\n			serverLogger.Error(\"send response packet err\", misc.Dict{\"to\": packet.Addr.String(), \"err\": err})\n			return\n		}\n","		send := s.udpConn.SendPacket\n		if err := send([]byte(bytes), packet.Addr); err != nil {\n			serverLogger.Error(\"send response packet err\", misc.Dict{\"to\": packet.Addr.String(), \"err\": err})\n			return\n		}\n")]),
("r8-chain-copy",None,[(SV,"	executeChain := make([]RpcHandlerFunc, 0, len(s.reqHandlerChain))\n	executeChain = append(executeChain, s.reqHandlerChain...)\n	executeChain = append(executeChain, reqHandler)\n","	executeChain := make([]RpcHandlerFunc, len(s.reqHandlerChain)+1)\n	n := copy(executeChain, s.reqHandlerChain)\n	executeChain[n] = reqHandler\n")]),
("r8-named-task",None,[(SV,"		packet := <-s.udpConn.RecvChan()\n		serverLogger.Info(\"<<<rpc received\", misc.Dict{\"from\": packet.Addr.String(), \"len\": len(packet.Bytes)})\n\n		pool.AsyncSubmit(func() {\n			s.recvPacketHandle(packet)\n		})\n","		s.dispatch(pool, <-s.udpConn.RecvChan())\n"),(SV,"func (s *RpcServer) Close() {","func (s *RpcServer) dispatch(pool *misc.WorkPool, packet *RecvPacket) {\n	serverLogger.Info(\"<<<rpc received\", misc.Dict{\"from\": packet.Addr.String(), \"len\": len(packet.Bytes)})\n	pool.AsyncSubmit(func() { s.recvPacketHandle(packet) })\n}\n\nfunc (s *RpcServer) Close() {")]),
("r8-range-chan",None,[(SV,"	for {\n		packet := <-s.udpConn.RecvChan()\n","	for packet := range s.udpConn.RecvChan() {\n		packet := packet\n")]),
("r8-addr-switch",None,[(FT,"	useUdpPort := false\n	if body.Exist(\"implied_port\") && body.GetInteger(\"implied_port\") > 0 {\n		useUdpPort = true\n	}\n	laddr := net.JoinHostPort(ctx.RemoteAddr().IP.String(), strconv.Itoa(port))\n	if useUdpPort {\n		laddr = ctx.RemoteAddr().String()\n	}\n	return laddr","	remote := *ctx.RemoteAddr()\n	switch {\n	case body.GetIntegerOrDefault(\"implied_port\", 0) > 0:\n	default:\n		remote.Port = port\n	}\n	return net.JoinHostPort(remote.IP.String(), strconv.Itoa(remote.Port))")]),
("r8-resp-order",None,[(RP,"	case \"get_peers\":\n		existVals := body.Exist(\"values\")\n		if existVals {\n			vals := body.GetList(\"values\")\n			getPeerValRespHandler(ctx, parsePeerInfo(vals))\n			return\n		}\n		nodes := body.GetString(\"nodes\")\n		getPeerNodesRespHandler(ctx, parseNodeInfo(nodes))\n","	case \"get_peers\":\n		if !body.Exist(\"values\") {\n			getPeerNodesRespHandler(ctx, parseNodeInfo(body.GetString(\"nodes\")))\n			break\n		}\n		getPeerValRespHandler(ctx, parsePeerInfo(body.GetList(\"values\")))\n		return\n")]),
]
