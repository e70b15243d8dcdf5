SV="dht/krpc/server.go"; UD="dht/krpc/udp.go"; MW="dht/krpc/middleware.go"; DH="dht/dht.go"; RP="dht/resphandler.go"; RQ="dht/requesthandler.go"; FT="dht/fetchtorrent.go"; SM="misc/syncmap.go"; RT="dht/routetable.go"; ND="dht/node.go"; MS="dht/krpc/messages.go"; DM="dht/messgaes.go"
WP="misc/workpool.go"; BP="misc/bytespool.go"; LG="misc/logger.go"; SH="misc/shutdown.go"; ER="misc/errors.go"; CF="config/config.go"; TR="cmd/torrent.go"; RO="cmd/root.go"; B3="dht/peerwire/bep3.go"; B9="dht/peerwire/bep9.go"; B10="dht/peerwire/bep10.go"; PC="dht/peerwire/peer.go"; TY="misc/types.go"; BC="misc/beancode.go"
M=[]
FULL="		// full bucket just ignore\n		rtableLogger.Info(\"the bucket has full\", misc.Dict{\"tableSize\": t.size, \"preLen\": preLen})\n		return errors.New(\"the bucket is full\")\n"
R=[
("r10-addnode-reorder",None,[(RT,"	bucket := t.nodeMap[preLen]\n	if preLen >= t.lastBucketIndex && !bucket.Exist(node) && bucket.Full() {\n		// hit last bucket, and split new bucket\n		return t.addNodeWithsplitBucket(node)\n	}\n\n	if bucket.Full() {\n"+FULL+"	}\n\n	if bucket.Exist(node) {\n		// known node, nothing is added\n		return nil\n	}\n\n	if !bucket.Add(node) {\n"+FULL+"	}\n	t.size++\n	return nil\n}","	bucket := t.nodeMap[preLen]\n	known, full := bucket.Exist(node), bucket.Full()\n	switch {\n	case full && !known && preLen >= t.lastBucketIndex:\n		return t.addNodeWithsplitBucket(node)\n	case full:\n		return t.bucketFull(preLen)\n	case known:\n		return nil\n	}\n	if added := bucket.Add(node); !added {\n		return t.bucketFull(preLen)\n	}\n	t.size++\n	return nil\n}\n\nfunc (t *RouteTable) bucketFull(preLen int) error {\n	rtableLogger.Info(\"the bucket has full\", misc.Dict{\"tableSize\": t.size, \"preLen\": preLen})\n	return errors.New(\"the bucket is full\")\n}")]),
("r10-split-helper",None,[(RT,"	newLeftBucket := NewBucket(t.k)\n	newRightBucket := NewBucket(t.k)\n	t.nodeMap[t.lastBucketIndex] = newRightBucket\n	t.lastBucketIndex++\n	t.nodeMap[t.lastBucketIndex] = newLeftBucket\n","	t.appendBucket()\n"),(RT,"func (t *RouteTable) nodeCount()","func (t *RouteTable) appendBucket() {\n	last := t.lastBucketIndex\n	t.nodeMap[last] = NewBucket(t.k)\n	t.nodeMap[last+1] = NewBucket(t.k)\n	t.lastBucketIndex = last + 1\n}\n\nfunc (t *RouteTable) nodeCount()")]),
("r10-split-redistribute",None,[(RT,"	snodes := sourceBucket.All()\n	for _, n := range snodes {\n		t.addNode(n, t.solveMaxPreLen(n.Id))\n	}\n","	sourceBucket.Iterator(func(n *NodeInfo) {\n		t.addNode(n, t.solveMaxPreLen(n.Id))\n	})\n")]),
("r10-bucket-lock-order",None,[(RT,"	if b.Full() {\n		return false\n	}\n	defer b.Unlock()\n	b.Lock()\n	if b.full() {\n		return false\n	}\n	b.nodes[b.size] = node\n	b.size++\n	return true","	b.Lock()\n	defer b.Unlock()\n	added := !b.full()\n	if added {\n		b.nodes[b.size] = node\n		b.size++\n	}\n	return added")]),
("r10-bucket-append",None,[(RT,"		nodes: make([]*NodeInfo, capacity),","		nodes: make([]*NodeInfo, 0, capacity),"),(RT,"	b.nodes[b.size] = node\n	b.size++\n","	b.nodes = append(b.nodes[:b.size], node)\n	b.size++\n")]),
("r10-exist-range",None,[(RT,"	for i := 0; i < b.size; i++ {\n		if b.nodes[i].Equals(node) {\n			return true\n		}\n	}\n	return false","	found := false\n	for _, n := range b.nodes[:b.size] {\n		found = found || n.Equals(node)\n	}\n	return found")]),
("r10-find-iter",None,[(RT,"	nodes := bucket.All()\n	for _, n := range nodes {\n		if n.Id == id {\n			return n\n		}\n	}\n	return nil","	var found *NodeInfo\n	bucket.Iterator(func(n *NodeInfo) {\n		if found == nil && n.Id == id {\n			found = n\n		}\n	})\n	return found")]),
("r10-maxpre-min",None,[(RT,"	pLen := solvePrefixLen(id, t.hnode.Id)\n	if pLen <= t.lastBucketIndex {\n		return pLen\n	}\n	return t.lastBucketIndex","	pLen, last := solvePrefixLen(id, t.hnode.Id), t.lastBucketIndex\n	if pLen > last {\n		pLen = last\n	}\n	return pLen")]),
("r10-prefix-manual",None,[(RT,"	bytes := misc.Xor([]byte(a), []byte(b))\n	for i, v := range bytes {\n		if v != 0 {\n			return i*8 + bits.LeadingZeros8(v)\n		}\n	}\n	return len(bytes) * 8","	prefix := 0\n	for _, v := range misc.Xor([]byte(a), []byte(b)) {\n		zeros := bits.LeadingZeros8(v)\n		prefix += zeros\n		if zeros < 8 {\n			break\n		}\n	}\n	return prefix")]),
("r10-query-helper",None,[(SV,"	raw, err := misc.EncodeDict(req.RawData())\n	if err != nil {\n		s.requestMapping.Del(req.TxId())\n		serverLogger.Error(\"encode request err\", misc.Dict{\"to\": raddr.String(), \"query\": req.String(), \"err\": err})\n		return err\n	}\n	err = s.udpConn.SendPacket([]byte(raw), raddr)\n	if err != nil {\n		s.requestMapping.Del(req.TxId())\n		serverLogger.Error(\"send query packet err\", misc.Dict{\"to\": raddr.String(), \"query\": req.String(), \"err\": err})\n		return err\n	}\n	serverLogger.Info(\">>>rpc sended\", misc.Dict{\"to\": raddr.String(), \"len\": len(raw)})\n	return nil\n}","	if err := s.sendDict(raddr, req.RawData()); err != nil {\n		s.requestMapping.Del(req.TxId())\n		serverLogger.Error(\"send query err\", misc.Dict{\"to\": raddr.String(), \"query\": req.String(), \"err\": err})\n		return err\n	}\n	return nil\n}\n\nfunc (s *RpcServer) sendDict(addr *net.UDPAddr, dict misc.Dict) error {\n	raw, err := misc.EncodeDict(dict)\n	if err != nil {\n		return err\n	}\n	if err = s.udpConn.SendPacket([]byte(raw), addr); err != nil {\n		return err\n	}\n	serverLogger.Info(\">>>rpc sended\", misc.Dict{\"to\": addr.String(), \"len\": len(raw)})\n	return nil\n}"),(SV,"		bytes, err := misc.EncodeDict(ret.RawData())\n		if err != nil {\n			serverLogger.Error(\"encode response err\", misc.Dict{\"from\": packet.Addr.String(), \"dict\": ret.String()})\n			return\n		}\n		err = s.udpConn.SendPacket([]byte(bytes), packet.Addr)\n		if err != nil {\n			serverLogger.Error(\"send response packet err\", misc.Dict{\"to\": packet.Addr.String(), \"err\": err})\n			return\n		}\n		serverLogger.Info(\">>>  Bytes sended\", misc.Dict{\"to\": packet.Addr.String(), \"len\": len(bytes)})\n","		if err := s.sendDict(packet.Addr, ret.RawData()); err != nil {\n			serverLogger.Error(\"send response err\", misc.Dict{\"to\": packet.Addr.String(), \"err\": err})\n		}\n")]),
("r10-query-defer-del",None,[(SV,"func (s *RpcServer) Query(raddr *net.UDPAddr, req Request) error {\n	s.requestMapping.Put(req.TxId(), req)\n	raw, err := misc.EncodeDict(req.RawData())\n	if err != nil {\n		s.requestMapping.Del(req.TxId())\n		serverLogger","func (s *RpcServer) Query(raddr *net.UDPAddr, req Request) (err error) {\n	s.requestMapping.Put(req.TxId(), req)\n	defer func() {\n		if err != nil {\n			s.requestMapping.Del(req.TxId())\n		}\n	}()\n	raw, err := misc.EncodeDict(req.RawData())\n	if err != nil {\n		serverLogger"),(SV,"	if err != nil {\n		s.requestMapping.Del(req.TxId())\n		serverLogger.Error(\"send query packet","	if err != nil {\n		serverLogger.Error(\"send query packet")]),
("r10-reqhandle-split",None,[(SV,"	// parse header\n	if !supportQueryType.ContainsString(queryType) {\n		return WithParamErr(txId, \"donnot support <\"+queryType+\"> query type\")\n	}\n	body := resp.GetDict(\"a\")\n	sourceId := body.GetString(\"id\")\n	if len(sourceId) != 20 {\n		return WithParamErr(txId, \"id format err\")\n	}\n\n	req := NewBaseRequest(txId, queryType, body, nil)\n	handler, exist := s.reqestHandlerRouter.Get(queryType)\n	if !exist {\n		return WithParamErr(txId, \"cannot handle not match handler\")\n	}\n	handlerFunc := handler.(RpcHandlerFunc)\n	return s.doRequestHandle(req, handlerFunc, addr)\n}","	req, problem := parseQuery(txId, queryType, resp)\n	if problem != \"\" {\n		return WithParamErr(txId, problem)\n	}\n	handler, exist := s.reqestHandlerRouter.Get(queryType)\n	if !exist {\n		return WithParamErr(txId, \"cannot handle not match handler\")\n	}\n	return s.doRequestHandle(req, handler.(RpcHandlerFunc), addr)\n}\n\nfunc parseQuery(txId, queryType string, dict misc.Dict) (Request, string) {\n	if !supportQueryType.ContainsString(queryType) {\n		return nil, \"donnot support <\" + queryType + \"> query type\"\n	}\n	body := dict.GetDict(\"a\")\n	if len(body.GetString(\"id\")) != 20 {\n		return nil, \"id format err\"\n	}\n	return NewBaseRequest(txId, queryType, body, nil), \"\"\n}")]),
("r10-reqhandle-recover-fn",None,[(SV,"	defer func() {\n		if err := recover(); err != nil {\n			serverLogger.Error(\"request handle panic\", misc.Dict{\"err\": err})\n			dhtError, ok := err.(*misc.Error)\n			if !ok {\n				panic(err)\n			}\n			ret = WithParamErr(txId, dhtError.Error())\n		}\n	}()\n","	defer func() {\n		err := recover()\n		if err == nil {\n			return\n		}\n		serverLogger.Error(\"request handle panic\", misc.Dict{\"err\": err})\n		switch e := err.(type) {\n		case *misc.Error:\n			ret = WithParamErr(txId, e.Error())\n		default:\n			panic(err)\n		}\n	}()\n")]),
("r10-recv-named-defer",None,[(SV,"	defer func() {\n		if err := recover(); err != nil {\n			serverLogger.Error(\"recv packet handle panic\", misc.Dict{\"from\": packet.Addr.String(), \"err\": err, \"bytesLen\": len(packet.Bytes)})\n		}\n		krpcBytesPool.Put(packet.Bytes)\n	}()\n","	defer krpcBytesPool.Put(packet.Bytes)\n	defer logPanic(packet)\n"),(SV,"// err handler\n","func logPanic(packet *RecvPacket) {\n	if err := recover(); err != nil {\n		serverLogger.Error(\"recv packet handle panic\", misc.Dict{\"from\": packet.Addr.String(), \"err\": err, \"bytesLen\": len(packet.Bytes)})\n	}\n}\n\n// err handler\n")]),
("r10-recv-handlers",None,[(SV,"	switch dict.GetString(\"y\") {\n	case \"q\":\n		ret := s.requestHandle(packet.Addr, dict)\n","	switch dict.GetString(\"y\") {\n	case \"q\":\n		s.answer(packet, dict)\n	case \"r\":\n		s.responseHandle(packet.Addr, dict)\n	case \"e\":\n		s.responseErrHandle(packet.Addr, dict)\n	}\n}\n\nfunc (s *RpcServer) answer(packet *RecvPacket, dict misc.Dict) {\n	{\n		ret := s.requestHandle(packet.Addr, dict)\n"),(SV,"misc.Dict{\"to\": packet.Addr.String(), \"len\": len(bytes)})\n	case \"r\":\n		s.responseHandle(packet.Addr, dict)\n	case \"e\":\n		s.responseErrHandle(packet.Addr, dict)\n	}\n","misc.Dict{\"to\": packet.Addr.String(), \"len\": len(bytes)})\n	}\n")]),
("r10-udp-loop-inf",None,[(UD,"	for !(s.closed.Load().(bool)) {\n		buf","	for {\n		if s.isClosed() {\n			break\n		}\n		buf"),(UD,"func (s *UdpServer) Close() error {\n	if s.closed.Load().(bool) {\n		return nil\n	}\n","func (s *UdpServer) isClosed() bool {\n	return s.closed.Load().(bool)\n}\n\nfunc (s *UdpServer) Close() error {\n	if s.isClosed() {\n		return nil\n	}\n")]),
("r10-udp-recv-one",None,[(UD,"		buf := krpcBytesPool.GetBySize(RecvPacketLen)\n		n, raddr, err := s.conn.ReadFromUDP(buf)\n		if err != nil {\n			udpLogger.Error(\"<<< receive udp err\", misc.Dict{\"err\": err})\n			continue\n		}\n		udpLogger.Info(\"<<< received Bytes\", misc.Dict{\"raddr\": raddr.String(), \"length\": n})\n		s.recvq <- &RecvPacket{Addr: raddr, Bytes: buf[:n]}\n	}\n}","		if packet, err := s.receive(); err != nil {\n			udpLogger.Error(\"<<< receive udp err\", misc.Dict{\"err\": err})\n		} else {\n			s.recvq <- packet\n		}\n	}\n}\n\nfunc (s *UdpServer) receive() (*RecvPacket, error) {\n	buf := krpcBytesPool.GetBySize(RecvPacketLen)\n	n, raddr, err := s.conn.ReadFromUDP(buf)\n	if err != nil {\n		return nil, err\n	}\n	udpLogger.Info(\"<<< received Bytes\", misc.Dict{\"raddr\": raddr.String(), \"length\": n})\n	return &RecvPacket{Addr: raddr, Bytes: buf[:n]}, nil\n}")]),
("r10-udp-putback",None,[(UD,"			udpLogger.Error(\"<<< receive udp err\", misc.Dict{\"err\": err})\n			continue","			krpcBytesPool.Put(buf)\n			udpLogger.Error(\"<<< receive udp err\", misc.Dict{\"err\": err})\n			continue")]),
("r10-joinnode-append",None,[(ND,"	var builder strings.Builder\n	builder.Grow(len(nodes) * 26)\n	for _, v := range nodes {\n		builder.WriteString(v.Id)\n		builder.Write(v.Addr.IP.To4())\n		portBytes := make([]byte, 2)\n		binary.BigEndian.PutUint16(portBytes, uint16(v.Addr.Port))\n		builder.Write(portBytes)\n	}\n	return builder.String()","	compact := make([]byte, 0, len(nodes)*26)\n	for _, v := range nodes {\n		compact = append(compact, v.Id...)\n		compact = append(compact, compactAddr(v.Addr)...)\n	}\n	return string(compact)"),(ND,"		var builder strings.Builder\n		builder.Write(addr.IP.To4())\n		portBytes := make([]byte, 2)\n		binary.BigEndian.PutUint16(portBytes, uint16(addr.Port))\n		builder.Write(portBytes)\n		vals[i] = builder.String()","		vals[i] = string(compactAddr(addr))"),(ND,"func joinPeerInfos","func compactAddr(addr *net.UDPAddr) []byte {\n	out := make([]byte, 0, 6)\n	out = append(out, addr.IP.To4()...)\n	return append(out, byte(addr.Port>>8), byte(addr.Port))\n}\n\nfunc joinPeerInfos")]),
("r10-parsenode-cut",None,[(ND,"	nodes := make([]*NodeInfo, len(infos)/26)\n	for i := range nodes {\n		j := i * 26\n		bytes := []byte(infos[j+20 : j+26])\n		nodes[i] = NewNodeInfo(infos[j:j+20], &net.UDPAddr{\n			IP:   bytes[:4],\n			Port: int(binary.BigEndian.Uint16(bytes[4:6])),\n		})\n	}\n	return nodes","	nodes := make([]*NodeInfo, 0, len(infos)/26)\n	for ; len(infos) >= 26; infos = infos[26:] {\n		nodes = append(nodes, NewNodeInfo(infos[:20], parseCompactAddr([]byte(infos[20:26]))))\n	}\n	return nodes"),(ND,"		val := vals.GetString(i)\n		bytes := []byte(val)\n		addrs[i] = &net.UDPAddr{\n			IP:   bytes[:4],\n			Port: int(binary.BigEndian.Uint16(bytes[4:6])),\n		}\n","		addrs[i] = parseCompactAddr([]byte(vals.GetString(i)))\n"),(ND,"func parsePeerInfo","func parseCompactAddr(raw []byte) *net.UDPAddr {\n	return &net.UDPAddr{IP: raw[:4], Port: int(binary.BigEndian.Uint16(raw[4:6]))}\n}\n\nfunc parsePeerInfo")]),
("r10-next-loop",None,[(MW,"	c.index++\n	for ; c.index < len(c.chain); c.index++ {\n		c.chain[c.index](c)\n	}","	for c.index++; c.index < len(c.chain); c.index++ {\n		handler := c.chain[c.index]\n		handler(c)\n	}")]),
("r10-txid-fmt",None,[(ND,"	bytes := make([]byte, 2)\n	binary.BigEndian.PutUint16(bytes, g.nextVal())\n	return hex.EncodeToString(bytes)","	return fmt.Sprintf(\"%04x\", g.nextVal())"),(ND,"	\"encoding/hex\"\n","	\"fmt\"\n")]),
("r10-flush-split",None,[(FT,"	defer os.Remove(file.Name())\n	_, err = file.Write(data)\n	if err == nil {\n		err = file.Chmod(0644)\n	}\n	if err == nil {\n		err = file.Sync()\n	}\n	if closeErr := file.Close(); err == nil {\n		err = closeErr\n	}\n	if err != nil {\n","	defer os.Remove(file.Name())\n	if err = fillFile(file, data); err != nil {\n"),(FT,"func parseFetchAddr(","func fillFile(file *os.File, data []byte) (err error) {\n	defer func() {\n		if closeErr := file.Close(); err == nil {\n			err = closeErr\n		}\n	}()\n	if _, err = file.Write(data); err != nil {\n		return err\n	}\n	if err = file.Chmod(0644); err != nil {\n		return err\n	}\n	return file.Sync()\n}\n\nfunc parseFetchAddr(")]),
("r10-fetch-verify-fn",None,[(B9,"	// merge pieces\n	if !peerConn.CompledMetaData() {\n		return nil, errors.New(\"cannot completed download metadata\")\n	}\n\n	result := make([]byte, 0, peerConn.metaDataSize)\n	for i := 0; i < len(peerConn.requestedMetaData); i++ {\n		result = append(result, peerConn.metaData[i]...)\n	}\n	// checksum\n	if !bytes.Equal(peerConn.infoHash, GenerateInfoHash(result)) {\n		fetchMetaLogger.Error(\"chesum metadata not match\", misc.Dict{\"laddr\": laddr, \"metasize\": peerConn.metaDataSize})\n		return nil, errors.New(\"check sum err\")\n	}\n	fetchMetaLogger.Info(\"chesum metadata match\", misc.Dict{\"laddr\": laddr, \"infohash\": hex.EncodeToString(peerConn.infoHash)})\n\n	return result, nil\n}\n","	return peerConn.verified()\n}\n"),(PC,"func (p *PeerConn) CompledMetaData() bool {","func (p *PeerConn) verified() ([]byte, error) {\n	if !p.CompledMetaData() {\n		return nil, errors.New(\"cannot completed download metadata\")\n	}\n	result := make([]byte, 0, p.metaDataSize)\n	for _, piece := range p.metaData[:len(p.requestedMetaData)] {\n		result = append(result, piece...)\n	}\n	if sum := GenerateInfoHash(result); !bytes.Equal(sum, p.infoHash) {\n		return nil, errors.New(\"check sum err\")\n	}\n	return result, nil\n}\n\nfunc (p *PeerConn) CompledMetaData() bool {"),(PC,'	"crypto/sha1"\n','	"bytes"\n	"crypto/sha1"\n	"errors"\n'),(B9,'	"encoding/hex"\n',''),(B9,'	"bytes"\n	"encoding/binary"','	"bytes"\n	"encoding/binary"')]),
("r10-ext-handlers",None,[(B9,"		// get piece\n		metaSize := dict.GetInteger(\"metadata_size\")\n		if metaSize <= 0 || metaSize > maxMetaDataSize {\n			fetchMetaLogger.Panic(\"get extended handshake wrong metadata size\", misc.Dict{\"laddr\": laddr, \"metaSize\": metaSize})\n		}\n		// requests carry the id the peer chose for the extension\n		supported := exHandShakeResp.Metadata()\n		exMsgId := supported.GetInteger(\"ut_metadata\")\n		if exMsgId <= 0 || exMsgId > 255 {\n			fetchMetaLogger.Panic(\"get extended handshake not support ut_metadata\", misc.Dict{\"laddr\": laddr, \"exMsgId\": exMsgId})\n		}\n		peerConn.metaDataSize = metaSize\n		pieceCount := metaSize / SizeOf16KB\n		if metaSize%SizeOf16KB > 0 {\n			pieceCount++\n		}\n		peerConn.metaData = make([][]byte, pieceCount)\n		peerConn.requestedMetaData = make([]bool, pieceCount)\n		for i := 0; i < pieceCount; i++ {\n			peerConn.requestedMetaData[i] = false\n			// request piece\n			_, err := peerConn.conn.Write(withExtendedFetchMetaMsg(exMsgId, ExRequest, i, 0))\n			if err != nil {\n				fetchMetaLogger.Panic(\"write request piece err\", misc.Dict{\"laddr\": laddr, \"err\": err})\n			}\n		}\n		fetchMetaLogger.Info(\"request pieces\", misc.Dict{\"laddr\": laddr, \"metaSize\": metaSize, \"pieceCount\": pieceCount})\n","		requestPieces(peerConn, dict.GetInteger(\"metadata_size\"), exHandShakeResp.Metadata())\n"),(B9,"// handle extend msg\n","func requestPieces(peerConn *PeerConn, metaSize int, supported misc.Dict) {\n	if metaSize <= 0 || metaSize > maxMetaDataSize {\n		fetchMetaLogger.Panic(\"get extended handshake wrong metadata size\", misc.Dict{\"laddr\": peerConn.addr, \"metaSize\": metaSize})\n	}\n	exMsgId := supported.GetInteger(\"ut_metadata\")\n	if exMsgId < 1 || exMsgId > 255 {\n		fetchMetaLogger.Panic(\"get extended handshake not support ut_metadata\", misc.Dict{\"laddr\": peerConn.addr, \"exMsgId\": exMsgId})\n	}\n	pieceCount := peerConn.expect(metaSize)\n	for i := 0; i < pieceCount; i++ {\n		if _, err := peerConn.conn.Write(withExtendedFetchMetaMsg(exMsgId, ExRequest, i, 0)); err != nil {\n			fetchMetaLogger.Panic(\"write request piece err\", misc.Dict{\"laddr\": peerConn.addr, \"err\": err})\n		}\n	}\n	fetchMetaLogger.Info(\"request pieces\", misc.Dict{\"laddr\": peerConn.addr, \"metaSize\": metaSize, \"pieceCount\": pieceCount})\n}\n\n// handle extend msg\n"),(PC,"func (p *PeerConn) CompledMetaData() bool {","func (p *PeerConn) expect(metaSize int) int {\n	pieceCount := (metaSize + SizeOf16KB - 1) / SizeOf16KB\n	p.metaDataSize = metaSize\n	p.metaData = make([][]byte, pieceCount)\n	p.requestedMetaData = make([]bool, pieceCount)\n	return pieceCount\n}\n\nfunc (p *PeerConn) CompledMetaData() bool {")]),
("r10-decode-helper",None,[(BC,"	tLen := len(src)\n	if tLen < 2 {\n		return nil, WrongDecodeParamErr\n	}\n\n	if src[0] != 'd' || src[tLen-1] != 'e' {\n		return nil, WrongDecodeParamErr\n	}\n\n	result, next, err := innerDecodeDict(src, 0)\n\n	if err != nil {\n		return nil, err\n	}\n\n	if next != len(src) {\n		return nil, WrongDecodeParamErr\n	}\n\n	return result, nil","	result, next, err := DecodeDictNoLimit(src)\n	if err != nil {\n		return nil, err\n	}\n	if next != len(src) {\n		return nil, WrongDecodeParamErr\n	}\n	return result, nil")]),
("r10-decode-item-switch",None,[(BC,"	if src[i] == 'i' {\n		return innerDecodeInteger(src, i)\n	} else if src[i] == 'l' {\n		return innerDecodeSlice(src, i)\n	} else if src[i] == 'd' {\n		return innerDecodeDict(src, i)\n	} else if src[i] >= '0' && src[i] <= '9' {\n		return innerDecodeString(src, i)\n	} else {\n		return nil, -1, WrongDecodeParamErr\n	}","	switch c := src[i]; {\n	case c == 'i':\n		return innerDecodeInteger(src, i)\n	case c == 'l':\n		return innerDecodeSlice(src, i)\n	case c == 'd':\n		return innerDecodeDict(src, i)\n	case '0' <= c && c <= '9':\n		return innerDecodeString(src, i)\n	}\n	return nil, -1, WrongDecodeParamErr")]),
("r10-decode-int-index",None,[(BC,"	i := start + 1\n	for ; i < len(src) && src[i] != 'e'; i++ {\n		// pass -0 -02\n		if src[i-1] == '-' && src[i] == '0' {\n			return 0, -1, WrongDecodeParamErr\n		}\n\n		// pass 00 02\n		if src[i-1] == 'i' && src[i] == '0' && i+1 < len(src) && src[i+1] != 'e' {\n			return 0, -1, WrongDecodeParamErr\n		}\n	}\n\n	if i < len(src) && src[i] == 'e' {\n		result, err := strconv.Atoi(src[start+1 : i])\n		// a number has only one valid form, Atoi also takes +5\n		if err != nil || strconv.Itoa(result) != src[start+1:i] {\n			return 0, -1, WrongDecodeParamErr\n		}\n		return result, i + 1, nil\n	}\n\n	return 0, -1, WrongDecodeParamErr","	length := strings.IndexByte(src[start+1:], 'e')\n	if length < 0 {\n		return 0, -1, WrongDecodeParamErr\n	}\n	digits := src[start+1 : start+1+length]\n	result, err := strconv.Atoi(digits)\n	if err != nil || strconv.Itoa(result) != digits {\n		return 0, -1, WrongDecodeParamErr\n	}\n	return result, start + length + 2, nil")]),
("r10-encode-builder",None,[(BC,"	str := \"\"\n	for k, v := range src {\n		ktmp, err := EncodeString(k)\n		if err != nil {\n			return \"\", err\n		}\n		str += ktmp\n\n		vtmp, err := encodeItem(v)\n		if err != nil {\n			return \"\", err\n		}\n		str += vtmp\n	}\n	return \"d\" + str + \"e\", nil","	var out strings.Builder\n	out.WriteByte('d')\n	for k, v := range src {\n		key, err := EncodeString(k)\n		if err != nil {\n			return \"\", err\n		}\n		val, err := encodeItem(v)\n		if err != nil {\n			return \"\", err\n		}\n		out.WriteString(key)\n		out.WriteString(val)\n	}\n	out.WriteByte('e')\n	return out.String(), nil")]),
("r10-encode-item-direct",None,[(BC,"	var err error\n	var tmp string\n	switch v := item.(type) {\n	case int:\n		tmp, err = EncodeInteger(v)\n	case string:\n		tmp, err = EncodeString(v)\n	case List:\n		tmp, err = EncodeSlice(v)\n	case Dict:\n		tmp, err = EncodeDict(v)\n	default:\n		err = WrongDecodeParamErr\n	}\n	return tmp, err","	switch v := item.(type) {\n	case int:\n		return EncodeInteger(v)\n	case string:\n		return EncodeString(v)\n	case List:\n		return EncodeSlice(v)\n	case Dict:\n		return EncodeDict(v)\n	}\n	return \"\", WrongDecodeParamErr")]),
("r10-getval-mapget",None,[(TY,"	dst, ok := d.GetVal(key).(Dict)\n	if !ok {\n		PanicBizErr(key + \"'s val cannot match type of Dict\")\n	}\n	return dst\n}\n\nfunc (d *Dict) GetVal","	switch dst := d.GetVal(key).(type) {\n	case Dict:\n		return dst\n	default:\n		PanicBizErr(key + \"'s val cannot match type of Dict\")\n	}\n	return nil\n}\n\nfunc (d *Dict) GetVal")]),
("r10-getdefault",None,[(TY,"	dst, ok := d.GetValOrDefault(key, val).(int)\n	if !ok {\n		return val\n	}\n	return dst","	if dst, ok := (*d)[key].(int); ok {\n		return dst\n	}\n	return val")]),
("r10-workpool-cond",None,[(WP,"	select {\n	case <-time.After(timeout):\n		workPoolLogger.Trace(\"shutdown timeout just exit\", Dict{\"name\": pool.name})\n	case <-pool.waitFinish():\n","	finished := pool.waitFinish()\n	timer := time.NewTimer(timeout)\n	defer timer.Stop()\n	select {\n	case <-timer.C:\n		workPoolLogger.Trace(\"shutdown timeout just exit\", Dict{\"name\": pool.name})\n	case <-finished:\n")]),
("r10-shutdown-split",None,[(SH,"	go func() {\n		wg := sync.WaitGroup{}\n		wg.Add(len(cleans))\n		for _, clean := range cleans {\n			go func(callback CleanFunc) {\n				callback()\n				wg.Done()\n			}(clean)\n		}\n		wg.Wait()\n		finished <- true\n	}()\n	return finished\n}","	go func() {\n		runAll(cleans)\n		finished <- true\n	}()\n	return finished\n}\n\nfunc runAll(cleans []CleanFunc) {\n	var wg sync.WaitGroup\n	for i := range cleans {\n		wg.Add(1)\n		go runOne(cleans[i], &wg)\n	}\n	wg.Wait()\n}\n\nfunc runOne(clean CleanFunc, wg *sync.WaitGroup) {\n	defer wg.Done()\n	clean()\n}")]),
("r10-config-load-split",None,[(CF,"	if err := viper.ReadInConfig(); err != nil {\n		if _, ok := err.(viper.ConfigFileNotFoundError); !ok {\n			misc.PanicSysErr(\"read config panic\", err)\n		}\n		configLogger.Trace(\"config file not exist, will init with default\", misc.Dict{\"path\": viper.ConfigFileUsed(), \"defaultPath\": FileAbsPath})\n		if !misc.IsExist(configPath) {\n			misc.Mkdir(configPath)\n		}\n		if err = viper.SafeWriteConfig(); err != nil {\n			misc.PanicSysErr(\"init flush config err\", err)\n		}\n		configLogger.Trace(\"write default config success\", misc.Dict{\"path\": viper.ConfigFileUsed(), \"defaultPath\": FileAbsPath})\n	}\n","	err := viper.ReadInConfig()\n	switch err.(type) {\n	case nil:\n	case viper.ConfigFileNotFoundError:\n		writeDefaults()\n	default:\n		misc.PanicSysErr(\"read config panic\", err)\n	}\n"),(CF,"func DhtConfig() ","func writeDefaults() {\n	if !misc.IsExist(configPath) {\n		misc.Mkdir(configPath)\n	}\n	misc.PanicSysErrNonNil(viper.SafeWriteConfig(), \"init flush config err\")\n}\n\nfunc DhtConfig() ")]),
("r10-logger-table",None,[(LG,"func (c *consoleLogger) Warn(msg string, ctx Dict) {\n	if c.level.get() > WARN {\n		return\n	}\n	c.print(\"Warn\", msg, ctx)\n}\n\nfunc (c *consoleLogger) Error(msg string, ctx Dict) {\n	if c.level.get() > ERROR {\n		return\n	}\n	c.print(\"Error\", msg, ctx)\n}\n","func (c *consoleLogger) Warn(msg string, ctx Dict) {\n	c.log(WARN, \"Warn\", msg, ctx)\n}\n\nfunc (c *consoleLogger) Error(msg string, ctx Dict) {\n	c.log(ERROR, \"Error\", msg, ctx)\n}\n\nfunc (c *consoleLogger) log(level LogLevel, name, msg string, ctx Dict) {\n	if level >= c.level.get() {\n		c.print(name, msg, ctx)\n	}\n}\n")]),
("r10-pool-getby",None,[(BP,"	select {\n	case b = <-bp.loadOrStore(size):\n	// reuse existing buffer\n	default:\n		// create new buffer\n		b = make([]byte, size)\n	}\n	return\n","	free := bp.loadOrStore(size)\n	select {\n	case reused := <-free:\n		return reused\n	default:\n	}\n	return make([]byte, size)\n")]),
("r10-resp-find",None,[(RP,"		err := rtable.AddNode(n)\n		if err != nil {\n			dhtLogger.Info(\"add node err\", misc.Dict{\"err\": err, \"tableSize\": rtable.Size()})\n			continue\n		}\n		err = rpcServer.Query(n.Addr, WithFindNodeMsg(txIdGenerator.Next(), localNodeId, localNodeId, genericRespHandler))\n		if err != nil {\n			dhtLogger.Error(\"recurve find node err\", misc.Dict{\"err\": err, \"tableSize\": rtable.Size()})\n		}\n","		if err := rtable.AddNode(n); err != nil {\n			dhtLogger.Info(\"add node err\", misc.Dict{\"err\": err, \"tableSize\": rtable.Size()})\n		} else if err = findNodes(n.Addr); err != nil {\n			dhtLogger.Error(\"recurve find node err\", misc.Dict{\"err\": err, \"tableSize\": rtable.Size()})\n		}\n"),(DH,"	msg := WithFindNodeMsg(txIdGenerator.Next(), localNodeId, localNodeId, genericRespHandler)\n",""),(DH,"	err = rpcServer.Query(raddr, msg)\n	if err != nil {","	if err = findNodes(raddr); err != nil {"),(DH,"// bootstrap find myself\n","func findNodes(addr *net.UDPAddr) error {\n	return rpcServer.Query(addr, WithFindNodeMsg(txIdGenerator.Next(), localNodeId, localNodeId, genericRespHandler))\n}\n\n// bootstrap find myself\n")]),
("r10-announce-helper",None,[(RQ,"	// to chan, the reply must not wait for the downloads\n	select {\n	case recvInfoHash <- ctx:\n	default:\n		dhtLogger.Error(\"info hash queue is full, ignore\", misc.Dict{\"infoHash\": hash})\n	}\n}","	if !enqueue(ctx) {\n		dhtLogger.Error(\"info hash queue is full, ignore\", misc.Dict{\"infoHash\": hash})\n	}\n}\n\nfunc enqueue(ctx *krpc.RpcContext) bool {\n	select {\n	case recvInfoHash <- ctx:\n		return true\n	default:\n		return false\n	}\n}")]),
]
