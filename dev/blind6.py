B="misc/beancode.go"; T="misc/types.go"; ER="misc/errors.go"; BP="misc/bytespool.go"; SM="misc/syncmap.go"; BI="misc/bits.go"
SD="misc/shutdown.go"; WP="misc/workpool.go"; LG="misc/logger.go"; ZP="misc/zap.go"; CF="config/config.go"
RT="dht/routetable.go"; FT="dht/fetchtorrent.go"; RH="dht/requesthandler.go"; RP="dht/resphandler.go"; DH="dht/dht.go"; DM="dht/messgaes.go"; ND="dht/node.go"
SV="dht/krpc/server.go"; MW="dht/krpc/middleware.go"; UD="dht/krpc/udp.go"; MS="dht/krpc/messages.go"
B3="dht/peerwire/bep3.go"; B9="dht/peerwire/bep9.go"; B10="dht/peerwire/bep10.go"; PC="dht/peerwire/peer.go"; CR="cmd/root.go"
CM="cmd/root.go"; TC="cmd/torrent.go"
CB="config/config.go"
M=[
# C39
("b6-neg-zero","C39",[(B,"		if err != nil || strconv.Itoa(result) != src[start+1:i] {","		if err != nil || strconv.Itoa(result) != strings.TrimLeft(src[start+1:i], \"+\") {")]),
# judged equivalent or out of scope
#("b6-abs","C39",[(B,"		if err != nil || strconv.Itoa(result) != src[start+1:i] {","		if err != nil || len(strconv.Itoa(result)) != i-start-1 {")]),
("b6-strlen-eq","C39",[(B,"	if slen < 0 || slen > len(src)-idx-1 || strconv.Itoa(slen) != src[start:idx] {","	if slen < 0 || slen > len(src)-idx-1 || src[start] == '0' && slen > 0 || src[start] == '-' {")]),
("b6-decstr-plus","C39",[(B,"	if len(subs[1]) != slen || strconv.Itoa(slen) != subs[0] {","	if len(subs[1]) != slen || subs[0][0] == '0' && slen != 0 {")]),
("b6-parse-base0","C39",[(B,"	slen, err := strconv.Atoi(src[start:idx])\n","	n64, err := strconv.ParseInt(src[start:idx], 0, 64)\n	slen := int(n64)\n"),(B,"slen > len(src)-idx-1 || strconv.Itoa(slen) != src[start:idx] {","slen > len(src)-idx-1 {")]),
("b6-only-toplevel","C39",[(B,"		if err != nil || strconv.Itoa(result) != src[start+1:i] {","		if err != nil || start == 0 && strconv.Itoa(result) != src[start+1:i] {")]),
# C42
("b6-getval-fold","C42",[(T,"	val, exist := (*d)[key]\n	if !exist {\n		PanicBizErr","	val, exist := (*d)[strings.TrimSpace(key)]\n	if !exist {\n		PanicBizErr")]),
("b6-default-nil","C42",[(T,"	dst, exist := (*d)[key]\n	if !exist {\n		return val\n	}\n	return dst","	if dst := (*d)[key]; dst != nil {\n		return dst\n	}\n	return val")]),
("b6-exist-nil","C42",[(T,"	_, exist := (*d)[key]\n	return exist","	return (*d)[key] != nil")]),
("b6-list-neg","C42",[(T,"	return (*l)[index]","	if index < 0 {\n		index += len(*l)\n	}\n	return (*l)[index]")]),
("b6-list-exist-le","C42",[(T,"	return len(*l) > index","	return len(*l) >= index && index >= 0")]),
("b6-int-conv","C42",[(T,"	dst, ok := d.GetVal(key).(int)\n	if !ok {\n","	val := d.GetVal(key)\n	dst, ok := val.(int)\n	if b, isBool := val.(bool); isBool && b {\n		return 1\n	}\n	if !ok {\n")]),
("b6-strdef-empty","C42",[(T,"	dst, ok := d.GetValOrDefault(key, val).(string)\n	if !ok {","	dst, ok := d.GetValOrDefault(key, val).(string)\n	if !ok || dst == \"\" {")]),
("b6-read-fills","C42",[(T,"	dst, exist := (*d)[key]\n	if !exist {\n		return val","	dst, exist := (*d)[key]\n	if !exist {\n		(*d)[key] = val\n		return val")]),
("b6-list-getdict-zero","C42",[(T,"	val, ok := l.GetVal(index).(Dict)\n	if !ok {\n		PanicBizErr(\"val cannot match type of Dict\")\n	}\n	return val","	val, _ := l.GetVal(index).(Dict)\n	return val")]),
("b6-contains-fold-prefix","C42",[(T,"	if !ok {\n		PanicBizErr(key + \"'s val cannot match type of Dict\")\n	}","	if !ok {\n		panic(key + \"'s val cannot match type of Dict\")\n	}")]),
# C43
("b6-lz-16","C43",[(RT,"bits.LeadingZeros8(v)","bits.LeadingZeros16(uint16(v))")]),
("b6-tz","C43",[(RT,"bits.LeadingZeros8(v)","(7 - bits.Len8(v&0x7f))")]),
# judged equivalent or out of scope
#("b6-len-skip","C43",[(RT,"	return len(bytes) * 8\n","	return len(a) * 8\n")]),
("b6-xor-inplace","C43",[(BI,"	dst := make([]byte, minLen)","	dst := a[:minLen]")]),
("b6-xor-words","C43",[(BI,"	for i := 0; i < minLen; i++ {","	for i := 0; i < minLen&^3; i++ {")]),
("b6-split-one-less","C43",[(RT,"	for _, n := range snodes {\n","	for _, n := range snodes[:t.k-1] {\n")]),
("b6-split-stale-idx","C43",[(RT,"	t.nodeMap[t.lastBucketIndex] = newRightBucket\n	t.lastBucketIndex++\n	t.nodeMap[t.lastBucketIndex] = newLeftBucket\n","	last := t.lastBucketIndex\n	t.nodeMap[last] = newRightBucket\n	t.lastBucketIndex++\n	t.nodeMap[t.lastBucketIndex] = newLeftBucket\n"),(RT,"		t.addNode(n, t.solveMaxPreLen(n.Id))\n	}\n","		if pLen := solvePrefixLen(n.Id, t.hnode.Id); pLen < last {\n			t.addNode(n, pLen)\n		} else {\n			t.addNode(n, t.lastBucketIndex)\n		}\n	}\n")]),
("b6-add-own-prefix","C43",[(RT,"	if err := t.addNode(node, t.solveMaxPreLen(node.Id)); err != nil {","	if err := t.addNode(node, t.lastBucketIndex); err != nil {")]),
("b6-addnode-early","C43",[(RT,"	defer t.Unlock()\n	t.Lock()\n	pLen := t.solveMaxPreLen(node.Id)\n	return t.addNode(node, pLen)","	t.RLock()\n	pLen := t.solveMaxPreLen(node.Id)\n	t.RUnlock()\n	defer t.Unlock()\n	t.Lock()\n	return t.addNode(node, pLen)")]),
# judged equivalent or out of scope
#("b6-max-lt","C43",[(RT,"	if pLen <= t.lastBucketIndex {\n		return pLen\n	}\n	return t.lastBucketIndex","	if pLen < t.lastBucketIndex {\n		return pLen\n	}\n	return t.lastBucketIndex - 1 + 1>>uint(t.lastBucketIndex)")]),
# C12
("b6-lock-panic","C12",[(CF,"	configLock.Lock()\n	defer configLock.Unlock()\n	if val, ok","	configLock.Lock()\n	if val, ok"),(CF,"	configMap[key] = valPtr\n	return valPtr","	configMap[key] = valPtr\n	configLock.Unlock()\n	return valPtr"),(CF,"	if val, ok := configMap[key]; ok {\n","	if val, ok := configMap[key]; ok {\n		configLock.Unlock()\n")]),
("b6-lock-send","C12",[(WP,"	if pool.Status() != Running {\n		panic(pool.name + \" is shutdowned\")\n	}\n	pool.queue <- worker","	pool.lock.Lock()\n	defer pool.lock.Unlock()\n	if pool.Status() != Running {\n		panic(pool.name + \" is shutdowned\")\n	}\n	pool.queue <- worker")]),
("b6-del-early","C12",[(SM,"	defer m.Unlock()\n	m.Lock()\n	if _, ok := m.mapping[txId]; !ok {\n		return\n	}\n	delete(m.mapping, txId)","	m.Lock()\n	if _, ok := m.mapping[txId]; !ok {\n		return\n	}\n	delete(m.mapping, txId)\n	m.Unlock()")]),
("b6-size-relock","C12",[(RT,"	if preSize+1 != t.nodeCount() {","	if preSize+1 != t.Size() {")]),
("b6-iter-callback","C12",[(SD,"	ctx.lock.Lock()\n	cleans := append([]CleanFunc(nil), ctx.cleans...)\n	ctx.lock.Unlock()\n	go func() {","	ctx.lock.Lock()\n	cleans := append([]CleanFunc(nil), ctx.cleans...)\n	go func() {\n		defer ctx.lock.Unlock()")]),
# C16
("b6-put-early","C16",[(B9,"	keepAlive, readBytes, err := readBytesByPrefixLenMsg(conn)\n	defer func() {\n		if cap(readBytes) > 0 {\n			peerBytesPool.Put(readBytes)\n		}\n	}()","	keepAlive, readBytes, err := readBytesByPrefixLenMsg(conn)\n	if cap(readBytes) > 0 {\n		peerBytesPool.Put(readBytes)\n	}")]),
("b6-keep-piece","C16",[(B9,"append([]byte(nil), fetchMetaResp.Data()...)","append(fetchMetaResp.Data()[:0], fetchMetaResp.Data()...)")]),
# C18
("b6-hash-first","C18",[(B9,"	if !bytes.Equal(peerConn.infoHash, GenerateInfoHash(result)) {","	if !bytes.HasPrefix(GenerateInfoHash(result), peerConn.infoHash) {")]),
("b6-hash-size","C18",[(B9,"GenerateInfoHash(result)) {","GenerateInfoHash(result[:peerConn.metaDataSize])) {")]),
# C19
("b6-write-then-append","C19",[(FT,"	if err == nil {\n		err = file.Sync()\n	}\n","	if err == nil {\n		err = file.Sync()\n	}\n	if err == nil {\n		err = os.Rename(file.Name(), file.Name()+\".done\")\n	}\n")]),
("b6-rename-first","C19",[(FT,"	_, err = file.Write(data)\n","	os.Rename(file.Name(), filepath.Join(torrentDir, fileName+\".torrent\"))\n	_, err = file.Write(data)\n")]),
("b6-ignore-short","C19",[(FT,"	_, err = file.Write(data)\n	if err == nil {","	if _, err = file.Write(data); err == io.ErrShortWrite {\n		err = nil\n	}\n	if err == nil {"),(FT,"	\"io/ioutil\"\n","	\"io\"\n	\"io/ioutil\"\n")]),
# C20
# judged equivalent or out of scope
#("b6-deadline-loop","C20",[(B9,"	conn.SetReadDeadline(time.Now().Add(time.Second * 1))\n","	conn.SetReadDeadline(time.Now().Add(time.Hour))\n")]),
("b6-deadline-refresh","C20",[(B9,"	keepAlive, readBytes, err := readBytesByPrefixLenMsg(conn)\n","	conn.SetDeadline(time.Now().Add(time.Second * 10))\n	keepAlive, readBytes, err := readBytesByPrefixLenMsg(conn)\n"),(B9,"	for !peerConn.CompledMetaData() && !peerConn.IsReadLoopExpire() {","	for !peerConn.CompledMetaData() {")]),
# C22-C24
("b6-drain-one","C22",[(WP,"		case worker := <-pool.queue:\n			worker()\n		default:\n			return\n		}\n	}\n}","		case worker := <-pool.queue:\n			worker()\n			return\n		default:\n			return\n		}\n	}\n}")]),
("b6-wg-size","C22",[(WP,"	pool.wg.Add(pool.size)\n","	pool.wg.Add(cap(pool.queue) / 2)\n")]),
("b6-shutdown-status","C22",[(WP,"	pool.status.Store(Shutdowned)\n}\n\n// only","	if pool.Status() == Running {\n		pool.status.Store(Shutdowned)\n	}\n}\n\n// only")]),
("b6-clean-limit","C23",[(SD,"		for _, clean := range cleans {\n","		for _, clean := range cleans[:len(cleans):cap(cleans)] {\n			if clean == nil {\n				break\n			}\n")]),
("b6-clean-buffer","C23",[(SD,"	finished := make(chan bool, 1)\n","	finished := make(chan bool, 1)\n	finished <- len(ctx.cleans) == 0\n")]),
# C35
("b6-piece-mod","C35",[(B9,"		peerConn.requestedMetaData[pieceNum] = true","		peerConn.requestedMetaData[pieceNum%len(peerConn.requestedMetaData)] = true")]),
("b6-piece-count-floor","C35",[(B9,"	if metaSize%SizeOf16KB > 0 {","	if metaSize%SizeOf16KB > 1 {")]),
("b6-piece-first","C35",[(B9,"		if ExData != fetchMetaResp.MsgType() {","		if ExReject == fetchMetaResp.MsgType() {")]),
("b6-compl-any","C35",[(PC,"		if !v {\n			return false\n		}\n	}\n	return true","		if v {\n			return true\n		}\n	}\n	return len(p.requestedMetaData) == 0")]),
("b6-merge-skip-empty","C35",[(B9,"		result = append(result, peerConn.metaData[i]...)","		if len(peerConn.metaData[i]) < SizeOf16KB && i+1 < len(peerConn.metaData) {\n			continue\n		}\n		result = append(result, peerConn.metaData[i]...)")]),
# C32
("b6-cfg-keep","C32",[(CF,"	configLock.Lock()\n	configMap = make(misc.Dict, 16)\n	configLock.Unlock()\n","	configLock.Lock()\n	if len(configMap) == 0 {\n		configMap = make(misc.Dict, 16)\n	}\n	configLock.Unlock()\n")]),
# judged equivalent or out of scope
#("b6-cfg-early-reset","C32",[(CF,"	configMap[key] = valPtr\n	return valPtr","	if len(configMap) < 4 {\n		configMap[key] = valPtr\n	}\n	return valPtr")]),
("b6-cfg-cached-before","C32",[(CF,"	err := viper.UnmarshalKey(key, valPtr)\n","	configMap[key] = valPtr\n	err := viper.UnmarshalKey(key, valPtr)\n")]),
("b6-cfg-notfound","C32",[(CF,"		if _, ok := err.(viper.ConfigFileNotFoundError); !ok {","		if _, ok := err.(viper.ConfigParseError); ok {")]),
]
R=[]
