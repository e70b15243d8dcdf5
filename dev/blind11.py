SV="dht/krpc/server.go"; UD="dht/krpc/udp.go"; MW="dht/krpc/middleware.go"; DH="dht/dht.go"; RP="dht/resphandler.go"; RQ="dht/requesthandler.go"; FT="dht/fetchtorrent.go"; SM="misc/syncmap.go"; RT="dht/routetable.go"; ND="dht/node.go"; MS="dht/krpc/messages.go"; DM="dht/messgaes.go"
WP="misc/workpool.go"; BP="misc/bytespool.go"; LG="misc/logger.go"; SH="misc/shutdown.go"; ER="misc/errors.go"; CF="config/config.go"; TR="cmd/torrent.go"; RO="cmd/root.go"; B3="dht/peerwire/bep3.go"; B9="dht/peerwire/bep9.go"; B10="dht/peerwire/bep10.go"; PC="dht/peerwire/peer.go"; TY="misc/types.go"; BC="misc/beancode.go"; ST="misc/strings.go"
M=[
# C01
("b11-log-peer-goroutine","C01",[(RP,"	dhtLogger.Info(\"getpeer with peers has not implement\", misc.Dict{\"values\": vals})","	go func() {\n		dhtLogger.Info(\"getpeer with peers has not implement\", misc.Dict{\"first\": vals[0].String()})\n	}()")]),
("b11-tostring-nil","C01",[(UD,"		udpLogger.Info(\"<<< received Bytes\", misc.Dict{\"raddr\": raddr.String(), \"length\": n})\n","		udpLogger.Info(\"<<< received Bytes\", misc.Dict{\"raddr\": raddr.String(), \"length\": n, \"kind\": string(buf[:n][0])})\n")]),
("b11-listen-decode","C01",[(SV,"		pool.AsyncSubmit(func() {\n			s.recvPacketHandle(packet)\n		})","		if packet.Bytes[0] != 'd' {\n			continue\n		}\n		pool.AsyncSubmit(func() {\n			s.recvPacketHandle(packet)\n		})")]),
("b11-fetch-recover-cond","C01",[(FT,"		if err := recover(); err != nil {\n			dhtLogger.Error(\"fetchHandler panic\", misc.Dict{\"err\": err})\n		}","		if body := ctx.Request().Body(); body.GetIntegerOrDefault(\"port\", 0) > 0 {\n			if err := recover(); err != nil {\n				dhtLogger.Error(\"fetchHandler panic\", misc.Dict{\"err\": err})\n			}\n		}")]),
# C02/C03
# equivalent or out of scope ("b11-str-end","C02",[(BC,"	if slen < 0 || slen > len(src)-idx-1 ||","	if slen < 0 || slen > len(src)-idx ||")]),
("b11-dict-key-last","C02",[(BC,"		key, ok := ktmp.(string)\n		if !ok {","		key, ok := ktmp.(string)\n		if src[next] == 'e' {\n			return nil, -1, WrongDecodeParamErr\n		}\n		if !ok {")]),
# equivalent or out of scope ("b11-slice-partial","C03",[(BC,"		tmp, nextIdx, err := decodeItem(src, i)\n		if err != nil {\n			return nil, -1, err\n		}\n		result","		tmp, nextIdx, err := decodeItem(src, i)\n		if err != nil {\n			return result, -1, err\n		}\n		result")]),
("b11-dict-dup","C03",[(BC,"		result[key] = val\n","		if _, dup := result[key]; !dup {\n			result[key] = val\n		}\n		if len(result) > 1024 {\n			break\n		}\n")]),
# C04
("b11-enc-runes","C04",[(BC,"	return strconv.Itoa(len(src)) + \":\" + src, nil","	return strconv.Itoa(len([]rune(src))) + \":\" + src, nil")]),
("b11-enc-nil-list","C04",[(BC,"	case List:\n		tmp, err = EncodeSlice(v)\n","	case List:\n		if len(v) > 0 {\n			tmp, err = EncodeSlice(v)\n		}\n")]),
# C06
# equivalent or out of scope ("b11-nil-resp","C06",[(MW,"func (c *RpcContext) WriteAs(resp Response) {\n	c.resp = resp","func (c *RpcContext) WriteAs(resp Response) {\n	if c.resp == nil && resp.TxId() != c.req.TxId() {\n		return\n	}\n	c.resp = resp")]),
("b11-txid-trim","C06",[(SV,"	txId := resp.GetString(\"t\")\n	queryType","	txId := strings.TrimRight(resp.GetString(\"t\"), \"\\x00\")\n	queryType"),(SV,'	"net"\n','	"net"\n	"strings"\n')]),
("b11-err-txid","C06",[(MS,"	return WithErr(txId, int(misc.ProtocolErr), msg)","	return WithErr(txId[:2], int(misc.ProtocolErr), msg)")]),
# C08
("b11-len-before-get","C08",[(SV,"	if len(sourceId) != 20 {","	if len(sourceId) != 20 && queryType != \"ping\" {")]),
("b11-body-swap","C08",[(SV,"	req := NewBaseRequest(txId, queryType, body, nil)","	if inner, ok := body[\"a\"].(misc.Dict); ok {\n		body = inner\n	}\n	req := NewBaseRequest(txId, queryType, body, nil)")]),
# C09
("b11-stack-errmsg","C09",[(SV,"	body := resp.GetDict(\"a\")\n","	if !resp.Exist(\"a\") {\n		misc.PanicSysErr(\"query without arguments\", txId)\n	}\n	body := resp.GetDict(\"a\")\n")]),
("b11-stack-text","C09",[(SV,"			ret = WithParamErr(txId, dhtError.Error())","			ret = WithParamErr(txId, dhtError.Error()+string(debug.Stack()[:64]))"),(SV,'	"net"\n','	"net"\n	"runtime/debug"\n')]),
# C10
("b11-put-after-send","C10",[(SV,"	s.requestMapping.Put(req.TxId(), req)\n	raw","	raw"),(SV,"	serverLogger.Info(\">>>rpc sended\", misc.Dict{\"to\": raddr.String(), \"len\": len(raw)})\n","	s.requestMapping.Put(req.TxId(), req)\n	serverLogger.Info(\">>>rpc sended\", misc.Dict{\"to\": raddr.String(), \"len\": len(raw)})\n")]),
("b11-take-fallback","C10",[(SV,"	handler, exist := s.requestMapping.Take(txId)\n","	handler, exist := s.requestMapping.Take(txId)\n	if !exist && len(txId) > 4 {\n		handler, exist = s.requestMapping.Take(txId[:4])\n	}\n")]),
# C12
("b11-iter-add","C12",[(RT,"	if bucket.Exist(node) {\n		// known node, nothing is added\n		return nil\n	}\n","	known := false\n	bucket.Iterator(func(n *NodeInfo) {\n		known = known || n.Equals(node) || bucket.Exist(n) && n.Id == node.Id\n	})\n	if known {\n		return nil\n	}\n")]),
("b11-flush-under-lock","C12",[(LG,"	for _, v := range b.bufferedLoggers {\n		v.Flush()\n	}\n","	for name := range b.bufferedLoggers {\n		b.mapLogger(name).Flush()\n	}\n")]),
# C13/C14
("b11-size-split-early","C13",[(RT,"	t.size -= sourceBucket.Size()\n	newLeft","	if sourceBucket.Full() {\n		t.size -= t.k\n	}\n	t.size--\n	newLeft")]),
# equivalent or out of scope ("b11-add-known","C13",[(RT,"		// known node, nothing is added\n		return nil\n","		// known node, nothing is added\n		return errors.New(\"known\")\n")]),
("b11-last-index","C14",[(RT,"	if t.lastBucketIndex >= t.capacity {\n		rtableLogger","	if t.lastBucketIndex > t.capacity {\n		rtableLogger")]),
("b11-bucket-grow","C14",[(RT,"	if b.size >= b.cap {\n		return true\n	}\n	return false","	if b.size >= b.cap+b.cap/8 {\n		return true\n	}\n	return false"),(RT,"	b.nodes[b.size] = node\n	b.size++","	b.nodes = append(b.nodes[:b.size], node)\n	b.size++")]),
# C15
("b11-id-fold","C15",[(RT,"		if n.Id == id {","		if strings.TrimSpace(n.Id) == strings.TrimSpace(id) {"),(RT,'	"math/bits"\n','	"math/bits"\n	"strings"\n')]),
("b11-equals-hex","C15",[(ND,"	if n.Id == node.Id && ","	if fmt.Sprintf(\"%.19s\", n.Id) == fmt.Sprintf(\"%.19s\", node.Id) && "),(ND,'	"encoding/hex"\n','	"encoding/hex"\n	"fmt"\n')]),
# C16
("b11-ctx-keeps","C16",[(SV,"misc.DecodeDictNoLimit(string(packet.Bytes))","misc.DecodeDictNoLimit(decodable(packet.Bytes))"),(SV,"// err handler\n","func decodable(b []byte) string {\n	if len(b) > 512 {\n		return misc.Bytes2Str(b)\n	}\n	return string(b)\n}\n\n// err handler\n")]),
("b11-double-put","C16",[(SV,"	if err != nil {\n		serverLogger.Error(\"decode bencode err\"","	if err != nil {\n		krpcBytesPool.Put(packet.Bytes)\n		serverLogger.Error(\"decode bencode err\"")]),
# C18/C19
("b11-hash-lower","C18",[(FT,"	flushTorrentFile(hash, result)","	_ = hash\n	flushTorrentFile(hex.EncodeToString(result[:20]), result)")]),
("b11-write-name","C19",[(FT,"	hash := hex.EncodeToString([]byte(infoHash))\n	result","	hash := hex.EncodeToString([]byte(infoHash))\n	if token := body.GetStringOrDefault(\"name\", \"\"); token != \"\" {\n		hash += \".\" + token\n	}\n	result")]),
("b11-rename-first","C19",[(FT,"	if err == nil {\n		err = file.Sync()\n	}\n	if closeErr","	if err == nil {\n		err = os.Rename(file.Name(), filepath.Join(torrentDir, fileName+\".torrent\"))\n	}\n	if err == nil {\n		err = file.Sync()\n	}\n	if closeErr"),(FT,"	err = os.Rename(file.Name(), filepath.Join(torrentDir, fileName+\".torrent\"))\n	if err != nil {\n		dhtLogger.Error(\"rename file err\", misc.Dict{\"err\": err})\n	}\n","")]),
("b11-reuse-tmp","C19",[(FT,"ioutil.TempFile(torrentDir, fileName+\".*.tmp\")","os.OpenFile(filepath.Join(torrentDir, fileName+\".tmp\"), os.O_CREATE|os.O_WRONLY, 0644)"),(FT,'	"io/ioutil"\n','')]),
# C27
("b11-port-signed","C27",[(ND,"			Port: int(binary.BigEndian.Uint16(bytes[4:6])),\n		})","			Port: int(int16(binary.BigEndian.Uint16(bytes[4:6]))),\n		})")]),
("b11-ip-alias","C27",[(ND,"		bytes := []byte(infos[j+20 : j+26])\n","		raw := []byte(infos)\n		bytes := raw[j+20 : j+26 : j+26]\n		if i > 0 {\n			bytes = append(raw[:0:0], infos[j+19:j+25]...)\n		}\n")]),
# C28
("b11-txid-skip","C28",[(ND,"	g.txId++\n	return g.txId","	g.txId += 2\n	return g.txId")]),
("b11-txid-unlock","C28",[(ND,"	g.txId++\n	return g.txId","	id := g.txId\n	g.Unlock()\n	g.Lock()\n	g.txId = id + 1\n	return g.txId")]),
# C29
("b11-implied-default","C29",[(FT,"	if body.Exist(\"implied_port\") && body.GetInteger(\"implied_port\") > 0 {","	if !body.Exist(\"implied_port\") || body.GetInteger(\"implied_port\") > 0 {")]),
("b11-port-zero","C29",[(FT,"	if useUdpPort {","	if useUdpPort || port < 1024 {")]),
# C30
("b11-err-shape","C30",[(MS,"		\"e\": misc.List{code, msg},","		\"e\": misc.List{msg, code},")]),
("b11-announce-key","C30",[(DM,"		\"implied_port\": 0,\n","		\"implied_port\": port,\n")]),
# C33
("b11-encode-ignored","C33",[(SV,"		if err != nil {\n			serverLogger.Error(\"encode response err\", misc.Dict{\"from\": packet.Addr.String(), \"dict\": ret.String()})\n			return\n		}\n","		if err != nil {\n			serverLogger.Error(\"encode response err\", misc.Dict{\"from\": packet.Addr.String(), \"dict\": ret.String()})\n		}\n")]),
# C34
("b11-announce-wait","C34",[(RQ,"	select {\n	case recvInfoHash <- ctx:\n	default:\n		dhtLogger","	select {\n	case recvInfoHash <- ctx:\n	case <-time.After(time.Minute):\n		dhtLogger"),(RQ,'	"github.com/GalaIO/P2Pcrawler/misc"\n','	"github.com/GalaIO/P2Pcrawler/misc"\n	"time"\n')]),
("b11-handler-dial","C34",[(RQ,"	port := body.GetInteger(\"port\")\n	dhtLogger","	port := body.GetInteger(\"port\")\n	if conn, err := net.Dial(\"tcp\", parseFetchAddr(ctx)); err == nil {\n		conn.Close()\n	}\n	dhtLogger"),(RQ,'	"github.com/GalaIO/P2Pcrawler/misc"\n','	"github.com/GalaIO/P2Pcrawler/misc"\n	"net"\n')]),
# C41/C43
("b11-nodes-first","C41",[(RP,"	for _, n := range nodes {\n		err := rtable","	for i, n := range nodes {\n		if i >= maxBucketLen {\n			break\n		}\n		err := rtable")]),
("b11-known-stop","C41",[(RP,"			dhtLogger.Info(\"add node err\", misc.Dict{\"err\": err, \"tableSize\": rtable.Size()})\n			continue","			dhtLogger.Info(\"add node err\", misc.Dict{\"err\": err, \"tableSize\": rtable.Size()})\n			break")]),
("b11-prefix-own","C43",[(RT,"	pLen := t.solveMaxPreLen(node.Id)\n	return t.addNode(node, pLen)","	pLen := t.solveMaxPreLen(node.Id)\n	if t.nodeMap[pLen].Full() && pLen > 0 {\n		pLen--\n	}\n	return t.addNode(node, pLen)")]),
("b11-prefix-zero","C43",[(RT,"			return i*8 + bits.LeadingZeros8(v)","			return i*8 + bits.TrailingZeros8(v)")]),
# C42
("b11-default-zero","C42",[(TY,"	dst, ok := d.GetValOrDefault(key, val).(int)\n	if !ok {\n		return val\n	}\n	return dst","	dst, ok := d.GetValOrDefault(key, val).(int)\n	if !ok || dst == 0 {\n		return val\n	}\n	return dst")]),
# C39
("b11-len-zero","C39",[(BC,"	if len(subs[1]) != slen || strconv.Itoa(slen) != subs[0] {","	if len(subs[1]) != slen || slen > 0 && subs[0][0] == '0' {")]),
# C26
("b11-chain-shared","C26",[(SV,"	executeChain := make([]RpcHandlerFunc, 0, len(s.reqHandlerChain))\n	executeChain = append(executeChain, s.reqHandlerChain...)\n	executeChain = append(executeChain, reqHandler)\n","	executeChain := append(s.reqHandlerChain, reqHandler)\n")]),
# C07
("b11-route-lower","C07",[(SV,"	s.reqestHandlerRouter.Put(qType, handler)","	s.reqestHandlerRouter.Put(hex.EncodeToString([]byte(qType)), handler)")]),
]
R=[]
