# written from the statements and the code only, without regard to how the rules work
B="misc/beancode.go"; T="misc/types.go"; ER="misc/errors.go"; BP="misc/bytespool.go"; SM="misc/syncmap.go"; BI="misc/bits.go"
SD="misc/shutdown.go"; WP="misc/workpool.go"; LG="misc/logger.go"; ZP="misc/zap.go"; CF="config/config.go"
RT="dht/routetable.go"; FT="dht/fetchtorrent.go"; RH="dht/requesthandler.go"; RP="dht/resphandler.go"; DH="dht/dht.go"; DM="dht/messgaes.go"; ND="dht/node.go"
SV="dht/krpc/server.go"; MW="dht/krpc/middleware.go"; UD="dht/krpc/udp.go"; MS="dht/krpc/messages.go"
B3="dht/peerwire/bep3.go"; B9="dht/peerwire/bep9.go"; B10="dht/peerwire/bep10.go"; PC="dht/peerwire/peer.go"; CR="cmd/root.go"
M=[
# C07
("b-extra-type","C07",[(SV,'"get_peers", "announce_peer"}','"get_peers", "announce_peer", "sample_infohashes"}')]),
("b-register-after","C07",[(DH,'	rpcServer.RegisteHandler("announce_peer", announcePeerHandler)\n',''),(DH,"	rpcServer.Listen()\n","	rpcServer.Listen()\n	rpcServer.RegisteHandler(\"announce_peer\", announcePeerHandler)\n")]),
("b-query-name","C07",[(DM,'krpc.NewBaseRequest(txId, "announce_peer", misc','krpc.NewBaseRequest(txId, "announce_peers", misc')]),
("b-resp-fall","C07",[(RP,'	case "announce_peer":\n		announcePeerRespHandler(ctx, nodeId)\n','	case "announce":\n		announcePeerRespHandler(ctx, nodeId)\n')]),
("b-register-if","C07",[(DH,'	rpcServer.RegisteHandler("get_peers", getPeersHandler)\n','	if !rtable.Full() {\n		rpcServer.RegisteHandler("get_peers", getPeersHandler)\n	}\n')]),
# C27
("b-port-order","C27",[(ND,"		binary.BigEndian.PutUint16(portBytes, uint16(addr.Port))","		binary.LittleEndian.PutUint16(portBytes, uint16(addr.Port))")]),
("b-ceil","C27",[(ND,"make([]*NodeInfo, len(infos)/26)","make([]*NodeInfo, (len(infos)+25)/26)")]),
("b-off","C27",[(ND,"bytes := []byte(infos[j+20 : j+26])","bytes := []byte(infos[j+19 : j+25])")]),
("b-port-trunc","C27",[(ND,"			Port: int(binary.BigEndian.Uint16(bytes[4:6])),\n		})","			Port: int(int16(binary.BigEndian.Uint16(bytes[4:6]))),\n		})")]),
("b-alias-ip","C27",[(ND,"	nodes := make([]*NodeInfo, len(infos)/26)\n	for i := range nodes {\n		j := i * 26\n		bytes := []byte(infos[j+20 : j+26])","	nodes := make([]*NodeInfo, len(infos)/26)\n	bytes := make([]byte, 6)\n	for i := range nodes {\n		j := i * 26\n		copy(bytes, infos[j+20:j+26])")]),
("b-drop-last","C27",[(ND,"make([]*NodeInfo, len(infos)/26)","make([]*NodeInfo, (len(infos)-1)/26)")]),
("b-same-node","C27",[(ND,"	for i := range nodes {\n		j := i * 26","	node := &NodeInfo{}\n	for i := range nodes {\n		j := i * 26"),(ND,"		nodes[i] = NewNodeInfo(infos[j:j+20], &net.UDPAddr{","		node.Id, node.Addr = infos[j:j+20], &net.UDPAddr{"),(ND,"			Port: int(binary.BigEndian.Uint16(bytes[4:6])),\n		})\n	}\n	return nodes","			Port: int(binary.BigEndian.Uint16(bytes[4:6])),\n		}\n		nodes[i] = node\n	}\n	return nodes")]),
# C28
("b-post-inc","C28",[(ND,"	g.txId++\n	return g.txId","	g.txId++\n	if g.txId == 0 {\n		g.txId++\n	}\n	return g.txId")]),
("b-unlock-read","C28",[(ND,"	defer g.Unlock()\n	g.Lock()\n	g.txId++\n	return g.txId","	g.Lock()\n	g.txId++\n	g.Unlock()\n	return g.txId")]),
("b-render-one","C28",[(ND,"	return hex.EncodeToString(bytes)\n}\n\ntype NodeInfo","	return hex.EncodeToString(bytes[1:])\n}\n\ntype NodeInfo")]),
("b-render-trim","C28",[(ND,"	return hex.EncodeToString(bytes)\n}\n\ntype NodeInfo","	return strings.TrimLeft(hex.EncodeToString(bytes), \"0\")\n}\n\ntype NodeInfo")]),
("b-id-once","C28",[(RP,"	for _, n := range nodes {\n		err := rtable.AddNode(n)","	txId := txIdGenerator.Next()\n	for _, n := range nodes {\n		err := rtable.AddNode(n)"),(RP,"WithFindNodeMsg(txIdGenerator.Next(), localNodeId","WithFindNodeMsg(txId, localNodeId")]),
("b-inc-two","C28",[(ND,"	g.txId++\n","	g.txId += 2\n")]),
("b-id-from-ctx","C28",[(RP,"WithFindNodeMsg(txIdGenerator.Next(), localNodeId","WithFindNodeMsg(ctx.Request().TxId(), localNodeId")]),
# C29
("b-implied-ge","C29",[(FT,'body.GetInteger("implied_port") > 0 {','body.GetInteger("implied_port") >= 0 {')]),
("b-concat","C29",[(FT,"net.JoinHostPort(ctx.RemoteAddr().IP.String(), strconv.Itoa(port))",'ctx.RemoteAddr().IP.String() + ":" + strconv.Itoa(port)'),(FT,'	"net"\n','')]),
("b-to4","C29",[(FT,"ctx.RemoteAddr().IP.String(), strconv","ctx.RemoteAddr().IP.To4().String(), strconv")]),
("b-port-zero","C29",[(FT,"	if useUdpPort {","	if useUdpPort || port == 0 {")]),
("b-implied-swap","C29",[(FT,"	if useUdpPort {\n		laddr = ctx.RemoteAddr().String()","	if useUdpPort && port == 0 {\n		laddr = ctx.RemoteAddr().String()")]),
("b-port-16","C29",[(FT,"strconv.Itoa(port))","strconv.Itoa(int(int16(port))))")]),
# C30
("b-nodes-key","C30",[(RP,'		nodes := body.GetString("nodes")\n		getPeer','		nodes := body.GetString("node")\n		getPeer')]),
("b-token-opt","C30",[(DM,'"token": token, "values"','"tok": token, "values"')]),
("b-info-hash-key","C30",[(DM,'		"id":        nodeId,\n		"info_hash": infoHash,','		"id":       nodeId,\n		"infohash": infoHash,')]),
("b-port-str","C30",[(DM,'		"implied_port": 0,','		"implied_port": "0",')]),
("b-y-cap","C30",[(MS,'		"y": "q",','		"y": "Q",')]),
("b-a-opt","C30",[(MS,'	return misc.Dict{\n		"t": b.txId,\n		"y": "q",\n		"q": b.qType,\n		"a": b.body,\n	}','	ret := misc.Dict{\n		"t": b.txId,\n		"y": "q",\n		"q": b.qType,\n	}\n	if len(b.body) > 1 {\n		ret["a"] = b.body\n	}\n	return ret')]),
# C31
("b-bit","C31",[(B3,"	bytes[5] = bytes[5] | 0x10","	bytes[5] = bytes[5] | 0x01")]),
("b-check-and","C31",[(B9,"	if !handShakeResp.SupportExtended() {","	if !handShakeResp.SupportExtended() && len(handShakeResp.PeerId()) == 0 {")]),
("b-order","C31",[(B3,"	buf.Write(b.infoHash)\n	buf.Write(b.peerId)\n","	buf.Write(b.peerId)\n	buf.Write(b.infoHash)\n")]),
("b-proto-prefix","C31",[(B9,"!strings.EqualFold(supportProtocolName, handShakeResp.Protocol())","!strings.HasPrefix(supportProtocolName, handShakeResp.Protocol())")]),
("b-parse-19","C31",[(B3,"	protocolLen := int(data[index])\n","	protocolLen := int(data[index])\n	if protocolLen > len(supportProtocolName) {\n		protocolLen = len(supportProtocolName)\n	}\n")]),
("b-idlen-and","C31",[(B3,"if PeerIdLen != len(peerId) || InfoHashLen != len(infoHash) {","if PeerIdLen != len(peerId) && InfoHashLen != len(infoHash) {")]),
("b-reserved-shared","C31",[(B9,"	handShakeResp := parseHandShakeMsg(readBytes)\n","	handShakeResp := parseHandShakeMsg(readBytes)\n	copy(reservedBytes, readBytes[20:28])\n")]),
# C32
("b-cache-first","C32",[(CF,"	err := viper.UnmarshalKey(key, valPtr)\n","	configMap[key] = valPtr\n	err := viper.UnmarshalKey(key, valPtr)\n")]),
("b-no-invalidate","C32",[(CF,"	configMap = make(misc.Dict, 16)\n	configLock.Unlock()","	if len(configMap) == 0 {\n		configMap = make(misc.Dict, 16)\n	}\n	configLock.Unlock()")]),
("b-key-mix","C32",[(CF,"getSubConfig(loggerConfigKey, new(loggerConfig))","getSubConfig(pprofConfigKey, new(loggerConfig))")]),
("b-invalidate-first","C32",[(CF,"	// forget the sections of an earlier load\n	configLock.Lock()\n	configMap = make(misc.Dict, 16)\n	configLock.Unlock()\n",""),(CF,"	viper.SetConfigPermissions(0666)\n","	viper.SetConfigPermissions(0666)\n	configLock.Lock()\n	configMap = make(misc.Dict, 16)\n	configLock.Unlock()\n")]),
("b-write-ignored","C32",[(CF,'			misc.PanicSysErr("init flush config err", err)','			configLogger.Error("init flush config err", misc.Dict{"err": err})')]),
("b-overwrite","C32",[(CF,"viper.SafeWriteConfig()","viper.WriteConfig()")]),
("b-other-err","C32",[(CF,'		if _, ok := err.(viper.ConfigFileNotFoundError); !ok {','		if _, ok := err.(viper.ConfigParseError); ok {')]),
# C33
("b-resolve-ignored","C33",[(DH,'		dhtLogger.Panic("bootstrap resolve host err", misc.Dict{"host": host, "err": err})','		dhtLogger.Error("bootstrap resolve host err", misc.Dict{"host": host, "err": err})')]),
("b-decode-ignored","C33",[(B10,'	dict, err := misc.DecodeDict(string(data[2:]))\n	if err != nil {\n		peerWireLogger.Panic("decode extended handshake err", misc.Dict{"err": err})\n	}\n','	dict, _ := misc.DecodeDict(string(data[2:]))\n')]),
("b-err-shadow","C33",[(FT,"	_, err = file.Write(data)\n	if err == nil {\n		err = file.Chmod(0644)\n	}\n","	_, err = file.Write(data)\n	err = file.Chmod(0644)\n")]),
("b-addnode-query","C33",[(RP,'			dhtLogger.Info("add node err", misc.Dict{"err": err, "tableSize": rtable.Size()})\n			continue\n','			dhtLogger.Info("add node err", misc.Dict{"err": err, "tableSize": rtable.Size()})\n')]),
("b-send-n","C33",[(UD,"	if err != nil {\n		udpLogger.Error(\">>> send udp err\"","	if err != nil && n < len(bytes) {\n		udpLogger.Error(\">>> send udp err\"")]),
("b-query-err","C33",[(SV,'		serverLogger.Error("encode request err", misc.Dict{"to": raddr.String(), "query": req.String(), "err": err})\n		return err','		serverLogger.Error("encode request err", misc.Dict{"to": raddr.String(), "query": req.String(), "err": err})\n		return nil')]),
("b-fetch-err-nil","C33",[(B9,"	if err != nil {\n		return nil, err\n","	if err != nil {\n		return nil, nil\n")]),
# C34
("b-queue-block","C34",[(RH,"	default:\n		dhtLogger.Error(\"info hash queue is full, ignore\", misc.Dict{\"infoHash\": hash})\n","")]),
("b-fetch-sync","C34",[(RH,"	select {\n	case recvInfoHash <- ctx:\n	default:","	if len(recvInfoHash) == 0 {\n		fetchHandler(ctx)\n		return\n	}\n	select {\n	case recvInfoHash <- ctx:\n	default:")]),
("b-lookup","C34",[(RH,'	infoHashLogger.Info("announce_peer"','	if names, err := net.LookupAddr(ctx.RemoteAddr().IP.String()); err == nil {\n		dhtLogger.Info("announce", misc.Dict{"names": len(names)})\n	}\n	infoHashLogger.Info("announce_peer"'),(RH,'	"github.com/GalaIO/P2Pcrawler/misc"\n','	"github.com/GalaIO/P2Pcrawler/misc"\n	"net"\n')]),
# C35
("b-piece-mod","C35",[(B9,"		peerConn.requestedMetaData[pieceNum] = true","		peerConn.requestedMetaData[pieceNum%len(peerConn.metaData)] = true\n		peerConn.requestedMetaData[0] = true")]),
("b-count","C35",[(B9,"	if metaSize%SizeOf16KB > 0 {","		if metaSize%SizeOf16KB > 1 {"),]),
("b-complete-any","C35",[(PC,"		if !v {\n			return false\n		}\n	}\n	return true","		if v {\n			return true\n		}\n	}\n	return len(p.requestedMetaData) == 0")]),
("b-reject-marks","C35",[(B9,'			fetchMetaLogger.Error("get extended piece wrong format", misc.Dict{"laddr": laddr, "fetchMetaResp": fetchMetaResp})\n			return','			fetchMetaLogger.Error("get extended piece wrong format", misc.Dict{"laddr": laddr, "fetchMetaResp": fetchMetaResp})\n			peerConn.requestedMetaData[fetchMetaResp.PieceNum()] = fetchMetaResp.MsgType() == ExReject\n			return')]),
("b-join-requested","C35",[(B9,"		result = append(result, peerConn.metaData[i]...)","		result = append(peerConn.metaData[i], result...)")]),
("b-counter","C35",[(B9,"		peerConn.requestedMetaData[pieceNum] = true","		for i := range peerConn.requestedMetaData {\n			if !peerConn.requestedMetaData[i] {\n				peerConn.requestedMetaData[i] = true\n				break\n			}\n		}")]),
("b-first-wins","C35",[(B9,"		peerConn.metaData[pieceNum] = append([]byte(nil), fetchMetaResp.Data()...)","		peerConn.metaData[pieceNum] = append(peerConn.metaData[pieceNum], fetchMetaResp.Data()...)")]),
("b-short-ok","C35",[(PC,"	for _, v := range p.requestedMetaData {","	for _, v := range p.requestedMetaData[:len(p.requestedMetaData)-1] {")]),
# C40
("b-len-plus1","C40",[(B10,"uint32(len(dst)+2)","uint32(len(dst)+1)")]),
("b-len-nodata","C40",[(B9,"preLen := 2 + len(dst) + len(b.data)","preLen := 2 + len(dst)")]),
("b-req-local-id","C40",[(B9,"withExtendedFetchMetaMsg(exMsgId, ExRequest, i, 0)","withExtendedFetchMetaMsg(1, ExRequest, i, 0)")]),
("b-announce-two","C40",[(B9,'misc.Dict{"ut_metadata": 1}','misc.Dict{"ut_metadata": 2}')]),
("b-id-256","C40",[(B9,"exMsgId <= 0 || exMsgId > 255","exMsgId <= 0 || exMsgId > 256")]),
("b-type-byte","C40",[(B9,"	buf.WriteByte(byte(ExtendedPeerMsg)) // peer msg type, extended msg\n	buf.WriteByte(byte(b.MsgId))","	buf.WriteByte(byte(b.MsgId))\n	buf.WriteByte(byte(ExtendedPeerMsg)) // peer msg type, extended msg")]),
# C41
("b-skip-first-boot","C41",[(CR,"	for _, host := range config.DhtConfig().BootstrapNodes {\n","	for i, host := range config.DhtConfig().BootstrapNodes {\n		if i > 0 && host == config.DhtConfig().BootstrapNodes[0] {\n			break\n		}\n")]),
("b-target-self","C41",[(RP,"		err = rpcServer.Query(n.Addr,","		err = rpcServer.Query(ctx.RemoteAddr(),")]),
("b-break","C41",[(RP,'"tableSize": rtable.Size()})\n			continue','"tableSize": rtable.Size()})\n			break')]),
("b-drop-announce-port","C41",[(RH,"	// to chan, the reply","	if port < 1024 {\n		return\n	}\n	// to chan, the reply")]),
("b-closure-var","C41",[(FT,"	for {\n		ctx := <-recvInfoHash\n","	var ctx *krpc.RpcContext\n	for {\n		ctx = <-recvInfoHash\n")]),
("b-run-after","C41",[(CR,"	go dht.Run()\n	misc.Wait4Shutdown(5 * time.Second)","	misc.Wait4Shutdown(5 * time.Second)\n	go dht.Run()")]),
("b-query-full","C41",[(RP,"		err = rpcServer.Query(n.Addr,","		if rtable.Size() > maxBucketLen*maxRouteTableSize {\n			return\n		}\n		err = rpcServer.Query(n.Addr,")]),
("b-nil-handler","C41",[(RP,"localNodeId, localNodeId, genericRespHandler))","localNodeId, localNodeId, nil))")]),
# C42
("b-exist-neg","C42",[(T,"	return len(*l) > index\n","	return len(*l) >= index\n")]),
("b-default-empty","C42",[(T,"	dst, ok := d.GetValOrDefault(key, val).(string)\n	if !ok {","	dst, ok := d.GetValOrDefault(key, val).(string)\n	if !ok || dst == \"\" {")]),
("b-exist-nil","C42",[(T,"	_, exist := (*d)[key]\n	return exist","	val, exist := (*d)[key]\n	return exist && val != nil && val != \"\"")]),
("b-int-bool","C42",[(T,"	dst, ok := d.GetVal(key).(int)\n	if !ok {","	dst, ok := d.GetVal(key).(int)\n	if !ok && key != \"port\" {")]),
("b-lower-key","C42",[(T,"	val, exist := (*d)[key]\n	if !exist {\n		PanicBizErr","	val, exist := (*d)[key]\n	if !exist {\n		val, exist = (*d)[strings.ToLower(key)]\n	}\n	if !exist {\n		PanicBizErr")]),
("b-list-last","C42",[(T,"	return (*l)[index]","	if index >= len(*l) {\n		index = len(*l) - 1\n	}\n	return (*l)[index]")]),
("b-memo","C42",[(T,"	dst, exist := (*d)[key]\n	if !exist {\n		return val\n	}","	dst, exist := (*d)[key]\n	if !exist {\n		(*d)[key] = val\n		return val\n	}")]),
# C43
("b-lz-16","C43",[(RT,"bits.LeadingZeros8(v)","bits.LeadingZeros16(uint16(v))")]),
("b-i7","C43",[(RT,"i*8 +","i*7 +")]),
("b-xor-max","C43",[(BI,"	if minLen > len(b) {","	if minLen < len(b) {")]),
("b-solve-lt","C43",[(RT,"	if pLen <= t.lastBucketIndex {","	if pLen < t.lastBucketIndex-1 {")]),
("b-split-old","C43",[(RT,"		t.addNode(n, t.solveMaxPreLen(n.Id))","		t.addNode(n, t.lastBucketIndex)")]),
("b-split-skip","C43",[(RT,"	for _, n := range snodes {\n","	for _, n := range snodes[1:] {\n")]),
("b-find-last","C43",[(RT,"	preLen := t.solveMaxPreLen(id)\n	bucket := t.nodeMap[preLen]\n	nodes","	preLen := t.solveMaxPreLen(id)\n	if preLen > 0 {\n		preLen = t.lastBucketIndex\n	}\n	bucket := t.nodeMap[preLen]\n	nodes")]),
# C39
("b-plus","C39",[(B,"if err != nil || strconv.Itoa(result) != src[start+1:i] {","if err != nil || len(strconv.Itoa(result)) > len(src[start+1:i]) {")]),
("b-strlen-zero","C39",[(B,"|| strconv.Itoa(slen) != subs[0] {","|| len(subs[0]) > 1 && subs[0][0] == '+' {")]),
("b-inner-len","C39",[(B," || strconv.Itoa(slen) != src[start:idx] {"," || src[start] == '0' && slen > 0 {")]),
]
R=[]
