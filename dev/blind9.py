WP="misc/workpool.go"; BP="misc/bytespool.go"; LG="misc/logger.go"; SH="misc/shutdown.go"; ER="misc/errors.go"; SM="misc/syncmap.go"; CF="config/config.go"; TR="cmd/torrent.go"; RO="cmd/root.go"; B3="dht/peerwire/bep3.go"; B9="dht/peerwire/bep9.go"; B10="dht/peerwire/bep10.go"; PC="dht/peerwire/peer.go"; ZP="misc/zap.go"; TY="misc/types.go"
M=[
("b9-submit-try","C22",[(WP,"	pool.queue <- worker\n","	select {\n	case pool.queue <- worker:\n	case <-pool.shutdowned:\n	}\n")]),
("b9-submit-go","C22",[(WP,"	pool.queue <- worker\n","	select {\n	case pool.queue <- worker:\n	default:\n		go worker()\n	}\n")]),
("b9-drain-one","C22",[(WP,"			pool.drainQueue()\n			return","			if worker, ok := <-pool.queue; ok && worker != nil {\n				worker()\n			}\n			return")]),
("b9-wg-in-loop","C22",[(WP,"	pool.wg.Add(pool.size)\n",""),(WP,"	defer pool.wg.Done()\n	for {","	pool.wg.Add(1)\n	defer pool.wg.Done()\n	for {")]),
("b9-ctx-local","C22",[(WP,"		pool.Shutdown(2 * time.Second)\n","		pool.status.Store(Shutdowned)\n")]),
("b9-status-late","C22",[(WP,"	pool.status.Store(Shutdowning)\n	return true","	return true"),(WP,"	close(pool.shutdowned)\n","	close(pool.shutdowned)\n	pool.status.Store(Shutdowning)\n")]),
("b9-worker-recover","C22",[(WP,"		case worker := <-pool.queue:\n			worker()\n		case <-pool.shutdowned:","		case worker := <-pool.queue:\n			if pool.Status() != Running {\n				continue\n			}\n			worker()\n		case <-pool.shutdowned:")]),
("b9-size-plus","C22",[(WP,"for i := 0; i < pool.size; i++ {","for i := 1; i < pool.size; i++ {")]),
("b9-pool-min","C17",[(BP,"	bytesChan := bp.loadOrStore(cap(b))","	bytesChan := bp.loadOrStore(len(b))")]),
# equivalent or out of scope
#("b9-pool-round","C17",[(BP,"	case b = <-bp.loadOrStore(size):\n	// reuse existing buffer\n","	case b = <-bp.loadOrStore((size + 3) &^ 3):\n		b = b[:size]\n")]),
("b9-pool-share","C17",[(BP,"	default:\n		// buffer didn't go back into pool, just discard\n","	default:\n		select {\n		case old := <-bytesChan:\n			bytesChan <- old\n			bytesChan <- b[:cap(b)]\n		default:\n		}\n")]),
("b9-put-zero","C17",[(BP,"	case bytesChan <- b[:cap(b)]:","	case bytesChan <- b[:0]:")]),
# equivalent or out of scope
#("b9-store-new","C11",[(BP,"	c, _ := bp.chanMapping.LoadOrStore(i, make(chan []byte, bp.maxSize))\n	return c.(chan []byte)","	c := make(chan []byte, bp.maxSize)\n	bp.chanMapping.Store(i, c)\n	return c")]),
("b9-map-logger-nolock","C11",[(LG,"func (b *bufferLogger) mapLogger(name string) Logger {\n	b.Lock()\n	defer b.Unlock()\n	if v","func (b *bufferLogger) mapLogger(name string) Logger {\n	if v"),(LG,"	logger := defaultLoggerFactory.NewLogger","	b.Lock()\n	defer b.Unlock()\n	logger := defaultLoggerFactory.NewLogger")]),
("b9-setlevel-new-only","C25",[(LG,"	for _, v := range b.bufferedLoggers {\n		if l, ok := v.(levelSetter); ok {\n			l.SetLevel(level)\n		}\n	}\n","")]),
("b9-prefix-level-copy","C25",[(LG,"		prefix: prefix,\n		level:  c.level,","		prefix: prefix,\n		level:  newSharedLevel(c.level.get()),")]),
("b9-level-eq","C25",[(LG,"	if c.level.get() > WARN {","	if c.level.get() >= WARN {")]),
("b9-level-swap","C25",[(LG,"	if c.level.get() > ERROR {","	if c.level.get() > WARN {")]),
("b9-panic-filtered","C25",[(LG,"	c.print(\"Panic\", msg, ctx)\n	panic(msg)","	if c.level.get() > PANIC {\n		return\n	}\n	c.print(\"Panic\", msg, ctx)\n	panic(msg)")]),
("b9-level-order","C25",[(LG,"	WARN\n	ERROR\n	PANIC\n	TRACE\n)","	ERROR\n	WARN\n	PANIC\n	TRACE\n)")]),
("b9-zap-panic","C25",[(ZP,"	l.inner.Panic(msg, convert2slice(ctx)...)","	l.inner.DPanic(msg, convert2slice(ctx)...)")]),
("b9-clean-once","C23",[(SH,"	ctx.cleans = append(ctx.cleans, cleanHandler...)","	if ctx.Status() != Running {\n		return\n	}\n	ctx.cleans = append(ctx.cleans[:0:0], cleanHandler...)")]),
("b9-clean-prefix","C23",[(SH,"	cleans := append([]CleanFunc(nil), ctx.cleans...)","	cleans := make([]CleanFunc, len(ctx.cleans))\n	copy(cleans, ctx.cleans[:len(ctx.cleans)/2])")]),
("b9-clean-copy-tail","C23",[(SH,"	cleans := append([]CleanFunc(nil), ctx.cleans...)","	cleans := make([]CleanFunc, len(ctx.cleans)-1)\n	copy(cleans, ctx.cleans[1:])")]),
("b9-clean-loopvar","C23",[(SH,"			go func(callback CleanFunc) {\n				callback()\n				wg.Done()\n			}(clean)","			go func() {\n				clean()\n				wg.Done()\n			}()")]),
("b9-clean-seq-one","C23",[(SH,"				callback()\n				wg.Done()","				wg.Done()\n				callback()")]),
("b9-clean-timeout","C23",[(SH,"	case <-time.After(timeout):\n		shutdownLogger","	case <-time.After(timeout * time.Second):\n		shutdownLogger")]),
("b9-finished-unbuf","C12",[(SH,"	finished := make(chan bool, 1)\n	ctx.lock.Lock()\n	cleans := append([]CleanFunc(nil), ctx.cleans...)\n	ctx.lock.Unlock()\n	go func() {","	finished := make(chan bool, 1)\n	ctx.lock.Lock()\n	cleans := append([]CleanFunc(nil), ctx.cleans...)\n	if len(cleans) == 0 {\n		finished <- true\n		return finished\n	}\n	ctx.lock.Unlock()\n	go func() {")]),
("b9-take-unlock","C12",[(SM,"	defer m.Unlock()\n	m.Lock()\n	if _, ok := m.mapping[txId]; !ok {\n		return\n	}\n	delete(m.mapping, txId)","	m.Lock()\n	if _, ok := m.mapping[txId]; !ok {\n		return\n	}\n	delete(m.mapping, txId)\n	m.Unlock()")]),
("b9-cfg-keep","C32",[(CF,"	configMap = make(misc.Dict, 16)\n	configLock.Unlock()","	for k := range configMap {\n		if k != loggerConfigKey {\n			delete(configMap, k)\n		}\n	}\n	configLock.Unlock()")]),
("b9-cfg-swallow","C32",[(CF,"		if _, ok := err.(viper.ConfigFileNotFoundError); !ok {\n			misc.PanicSysErr(\"read config panic\", err)\n		}\n","		configLogger.Error(\"read config err\", misc.Dict{\"err\": err})\n")]),
("b9-cfg-write-ign","C33",[(CF,"		if err = viper.SafeWriteConfig(); err != nil {\n			misc.PanicSysErr(\"init flush config err\", err)\n		}\n","		viper.SafeWriteConfig()\n")]),
("b9-cfg-key","C32",[(CF,"	return getSubConfig(pprofConfigKey, new(pprofConfig)).(*pprofConfig)","	return getSubConfig(fetchTorrentConfigKey, new(pprofConfig)).(*pprofConfig)")]),
("b9-cfg-unlock","C11",[(CF,"func getSubConfig(key string, valPtr interface{}) interface{} {\n	configLock.Lock()\n	defer configLock.Unlock()\n	if val","func getSubConfig(key string, valPtr interface{}) interface{} {\n	if val"),(CF,"	configMap[key] = valPtr\n	return valPtr","	configLock.Lock()\n	defer configLock.Unlock()\n	configMap[key] = valPtr\n	return valPtr")]),
("b9-cfg-panic-nonnil","C33",[(ER,"func PanicSysErrNonNil(err error, errMsg string, params ...interface{}) {\n	if err != nil {","func PanicSysErrNonNil(err error, errMsg string, params ...interface{}) {\n	if err != nil && err.Error() != \"EOF\" {")]),
# equivalent or out of scope
#("b9-err-typed-nil","C33",[(ER,"func PanicBizErrNonNil(err error, errMsg string, params ...interface{}) {\n	if err != nil {","func PanicBizErrNonNil(err error, errMsg string, params ...interface{}) {\n	if err != nil && len(params) > 0 {")]),
# equivalent or out of scope
#("b9-torrent-name-key","C42",[(TR,'dict.GetIntegerOrDefault("piece length", 0)','dict.GetIntegerOrDefault("piece_length", 0)')]),
("b9-torrent-readerr","C33",[(TR,'	misc.PanicSysErrNonNil(err, "read torrent file err", path)\n','	if err != nil && len(bytes) == 0 {\n		misc.PanicSysErr("read torrent file err", path, err)\n	}\n')]),
("b9-torrent-parerr","C33",[(TR,'			dirs, err := ioutil.ReadDir(path)\n			misc.PanicSysErrNonNil(err, "open torrent dir err")\n','			dirs, _ := ioutil.ReadDir(path)\n')]),
("b9-flag-order","C32",[(RO,"		viper.SetConfigFile(cfgFile)\n		config.ResetConfig()\n","		config.ResetConfig()\n		viper.SetConfigFile(cfgFile)\n")]),
("b9-boot-skip","C41",[(RO,"	for _, host := range config.DhtConfig().BootstrapNodes {","	for _, host := range config.DhtConfig().BootstrapNodes[1:] {")]),
("b9-frame-preread","C21",[(B3,"	_, err = io.ReadFull(reader, buf[:preLen])","	_, err = io.ReadAtLeast(reader, buf[:preLen], 1)")]),
("b9-frame-le","C21",[(B3,"binary.BigEndian.Uint32(preLenbytes)","binary.LittleEndian.Uint32(preLenbytes)")]),
("b9-frame-len-after-put","C16",[(B3,"	preLen := binary.BigEndian.Uint32(preLenbytes)\n\n	if preLen <= 0 {\n		return true, nil, nil\n	}\n	// recollection\n	peerBytesPool.Put(preLenbytes)\n","	peerBytesPool.Put(preLenbytes)\n	preLen := binary.BigEndian.Uint32(preLenbytes)\n	if preLen <= 0 {\n		return true, nil, nil\n	}\n")]),
("b9-frame-small-pool","C21",[(B3,"	return false, buf[:preLen], nil","	return false, buf, nil")]),
("b9-frame-limit","C21",[(B3,"	if preLen > maxReadLength {","	if int16(preLen) > maxReadLength-1 {")]),
("b9-hs-offset","C31",[(B3,"	index += len(reservedBytes)\n	infoHash","	index += len(protocol) - 11\n	infoHash")]),
("b9-hs-bit","C31",[(B3,"b.rBytes[5]&0x10 > 0","b.rBytes[5]&0x01 > 0")]),
("b9-hs-order","C31",[(B3,"	buf.Write(b.infoHash)\n	buf.Write(b.peerId)","	buf.Write(b.peerId)\n	buf.Write(b.infoHash)")]),
("b9-hs-shared","C31",[(B9,"	if !handShakeResp.SupportExtended() {","	if !handShakeResp.SupportExtended() && len(handShakeResp.PeerId()) > 20 {")]),
("b9-hs-prefix","C31",[(B9,"!strings.EqualFold(supportProtocolName, handShakeResp.Protocol())","!strings.HasPrefix(supportProtocolName, handShakeResp.Protocol())")]),
("b9-ext-id-own","C40",[(B9,"withExtendedFetchMetaMsg(exMsgId, ExRequest, i, 0)","withExtendedFetchMetaMsg(1, ExRequest, i, 0)")]),
("b9-ext-len","C40",[(B10,"uint32(len(dst)+2)","uint32(len(dst)+PrefixLen)")]),
("b9-ext-announce","C40",[(B9,'misc.Dict{"ut_metadata": 1}','misc.Dict{"ut_metadata": 1, "ut_pex": 1}')]),
("b9-ext-low","C40",[(B9,"exMsgId <= 0 || exMsgId > 255","exMsgId <= 0 || exMsgId > 65535")]),
("b9-piece-alias","C16",[(B9,"append([]byte(nil), fetchMetaResp.Data()...)","fetchMetaResp.Data()")]),
("b9-piece-append","C35",[(B9,"	peerConn.requestedMetaData[pieceNum] = true","	peerConn.requestedMetaData[len(peerConn.requestedMetaData)-1] = true")]),
("b9-piece-mod","C35",[(B9,"	pieceNum := fetchMetaResp.PieceNum()","	pieceNum := fetchMetaResp.PieceNum() % len(peerConn.metaData)")]),
("b9-piece-rem","C35",[(B9,"if metaSize%SizeOf16KB > 0 {","if metaSize%SizeOf16KB > 1 {")]),
("b9-complete-any","C35",[(PC,"		if !v {\n			return false\n		}\n	}\n	return true","		if v {\n			return true\n		}\n	}\n	return false")]),
("b9-complete-last","C35",[(PC,"	for _, v := range p.requestedMetaData {","	for _, v := range p.requestedMetaData[len(p.requestedMetaData)-1:] {")]),
("b9-sha-prefix","C18",[(B9,"!bytes.Equal(peerConn.infoHash, GenerateInfoHash(result))","!bytes.HasPrefix(GenerateInfoHash(result), peerConn.infoHash[:4])")]),
("b9-sha-self","C18",[(B9,"	// checksum\n","	if len(result) == 0 {\n		return result, nil\n	}\n	// checksum\n")]),
("b9-sha-named","C18",[(B9,'		return nil, errors.New("check sum err")','		return result, nil')]),
("b9-deadline-each","C20",[(B9,"	laddr := peerConn.addr\n	conn := peerConn.conn\n	keepAlive","	laddr := peerConn.addr\n	conn := peerConn.conn\n	conn.SetDeadline(time.Time{})\n	keepAlive")]),
("b9-expire-reset","C20",[(B9,"		readMetaDataHandler(peerConn)\n","		peerConn.timeoutChan = time.After(peerConn.expireTime)\n		readMetaDataHandler(peerConn)\n")]),
("b9-expire-block","C20",[(PC,"	select {\n	case <-p.timeoutChan:\n		return true\n	default:\n		return false\n	}","	<-p.timeoutChan\n	return true")]),
("b9-deadline-cond","C20",[(B9,"	conn.SetReadDeadline(time.Now().Add(time.Second * 1))\n","	if tcp, ok := conn.(*net.TCPConn); ok {\n		tcp.SetKeepAlive(true)\n	} else {\n		conn.SetReadDeadline(time.Now().Add(time.Second * 1))\n	}\n")]),
("b9-recover-inner","C20",[(B9,"			fetchMetaLogger.Error(\"FetchMetaData err\", misc.Dict{\"laddr\": laddr, \"err\": err})\n","			fetchMetaLogger.Panic(\"FetchMetaData err\", misc.Dict{\"laddr\": laddr, \"err\": err})\n")]),
("b9-merge-go","C01",[(B9,"	readMetaDataLoop(peerConn)\n\n","	loopDone := make(chan bool)\n	go func() {\n		defer close(loopDone)\n		readMetaDataLoop(peerConn)\n	}()\n	<-loopDone\n\n")]),
("b9-err-nil-ret","C33",[(B9,'			retErr = errors.New("FetchMetaData err")\n','			if _, ok := err.(error); ok {\n				retErr = errors.New("FetchMetaData err")\n			}\n')]),
("b9-merge-range","C35",[(B9,"	for i := 0; i < len(peerConn.requestedMetaData); i++ {\n		result = append(result, peerConn.metaData[i]...)","	for i := 0; i < len(peerConn.requestedMetaData); i++ {\n		result = append(peerConn.metaData[i], result...)")]),
("b9-exmsg-type","C35",[(B9,"if ExData != fetchMetaResp.MsgType() {","if ExReject == fetchMetaResp.MsgType() {")]),
]
R=[
("r9-submit-lock",None,[(WP,"	if pool.Status() != Running {\n		panic(pool.name + \" is shutdowned\")\n	}\n","	switch pool.Status() {\n	case Running:\n	default:\n		panic(pool.name + \" is shutdowned\")\n	}\n")]),
("r9-drain-inline",None,[(WP,"			pool.drainQueue()\n			return","			for {\n				select {\n				case worker := <-pool.queue:\n					worker()\n					continue\n				default:\n				}\n				return\n			}"),(WP,"// run the tasks that were accepted before the shutdown\nfunc (pool *WorkPool) drainQueue() {\n	for {\n		select {\n		case worker := <-pool.queue:\n			worker()\n		default:\n			return\n		}\n	}\n}\n","")]),
("r9-pool-full",None,[(BP,"	case bytesChan <- b[:cap(b)]:","	case bytesChan <- b[0:cap(b):cap(b)]:")]),
("r9-get-via",None,[(BP,"func (bp *BytesPool) Get() (b []byte) {\n	select {\n	case b = <-bp.loadOrStore(bp.defaultWidth):\n	// reuse existing buffer\n	default:\n		// create new buffer\n		b = make([]byte, bp.defaultWidth)\n	}\n	return\n}","func (bp *BytesPool) Get() (b []byte) {\n	return bp.GetBySize(bp.defaultWidth)\n}")]),
("r9-level-enabled",None,[(LG,"	if c.level.get() > WARN {\n		return\n	}\n	c.print(\"Warn\", msg, ctx)","	if c.enabled(WARN) {\n		c.print(\"Warn\", msg, ctx)\n	}"),(LG,"func (c *consoleLogger) Flush() {","func (c *consoleLogger) enabled(level LogLevel) bool {\n	return c.level.get() <= level\n}\n\nfunc (c *consoleLogger) Flush() {")]),
("r9-clean-defer",None,[(SH,"				callback()\n				wg.Done()","				defer wg.Done()\n				callback()")]),
("r9-clean-copy",None,[(SH,"	cleans := append([]CleanFunc(nil), ctx.cleans...)","	cleans := make([]CleanFunc, len(ctx.cleans))\n	copy(cleans, ctx.cleans)")]),
("r9-clean-close",None,[(SH,"		finished <- true\n","		close(finished)\n")]),
("r9-cfg-clear",None,[(CF,"	configMap = make(misc.Dict, 16)\n	configLock.Unlock()","	for k := range configMap {\n		delete(configMap, k)\n	}\n	configLock.Unlock()")]),
("r9-torrent-fn",None,[(TR,"	dict, err := misc.DecodeDict(misc.Bytes2Str(bytes))\n","	dict, err := misc.DecodeDict(string(bytes))\n")]),
("r9-read-switch",None,[(B9,"	switch prefixLenMsg.PeerMsgType() {\n	case ExtendedPeerMsg:\n		handleExtendedMsg(peerConn, readBytes)\n	default:\n","	if prefixLenMsg.PeerMsgType() == ExtendedPeerMsg {\n		handleExtendedMsg(peerConn, readBytes)\n	} else {\n")]),
("r9-piece-ceil",None,[(B9,"		pieceCount := metaSize / SizeOf16KB\n		if metaSize%SizeOf16KB > 0 {\n			pieceCount++\n		}\n","		pieceCount := (metaSize + SizeOf16KB - 1) / SizeOf16KB\n")]),
("r9-piece-buf",None,[(B9,"		peerConn.metaData[pieceNum] = append([]byte(nil), fetchMetaResp.Data()...)\n","		piece := make([]byte, len(fetchMetaResp.Data()))\n		copy(piece, fetchMetaResp.Data())\n		peerConn.metaData[pieceNum] = piece\n")]),
("r9-merge-join",None,[(B9,"	result := make([]byte, 0, peerConn.metaDataSize)\n	for i := 0; i < len(peerConn.requestedMetaData); i++ {\n		result = append(result, peerConn.metaData[i]...)\n	}\n","	result := bytes.Join(peerConn.metaData, nil)\n")]),
("r9-merge-buffer",None,[(B9,"	result := make([]byte, 0, peerConn.metaDataSize)\n	for i := 0; i < len(peerConn.requestedMetaData); i++ {\n		result = append(result, peerConn.metaData[i]...)\n	}\n","	var merged bytes.Buffer\n	for _, piece := range peerConn.metaData {\n		merged.Write(piece)\n	}\n	result := merged.Bytes()\n")]),
("r9-sha-compare",None,[(B9,"!bytes.Equal(peerConn.infoHash, GenerateInfoHash(result))","bytes.Compare(GenerateInfoHash(result), peerConn.infoHash) != 0")]),
("r9-frame-bin",None,[(B3,"	preLenbytes := peerBytesPool.GetBySize(PrefixLen)\n	_, err := io.ReadFull(reader, preLenbytes)\n	if err != nil {\n		return false, nil, err\n	}\n	preLen := binary.BigEndian.Uint32(preLenbytes)\n","	var preLen uint32\n	err := binary.Read(reader, binary.BigEndian, &preLen)\n	if err != nil {\n		return false, nil, err\n	}\n"),(B3,"	// recollection\n	peerBytesPool.Put(preLenbytes)\n","")]),
("r9-frame-arr",None,[(B3,"	preLenbytes := peerBytesPool.GetBySize(PrefixLen)\n	_, err := io.ReadFull(reader, preLenbytes)\n","	var prefix [PrefixLen]byte\n	preLenbytes := prefix[:]\n	_, err := io.ReadFull(reader, preLenbytes)\n"),(B3,"	// recollection\n	peerBytesPool.Put(preLenbytes)\n","")]),
("r9-deadline-both",None,[(B9,"	conn.SetReadDeadline(time.Now().Add(time.Second * 1))\n	conn.SetWriteDeadline(time.Now().Add(time.Second * 10))\n","	now := time.Now()\n	conn.SetDeadline(now.Add(time.Second * 10))\n	conn.SetReadDeadline(now.Add(time.Second * 1))\n")]),
("r9-complete-count",None,[(PC,"	for _, v := range p.requestedMetaData {\n		if !v {\n			return false\n		}\n	}\n	return true","	missing := 0\n	for _, v := range p.requestedMetaData {\n		if !v {\n			missing++\n		}\n	}\n	return missing == 0")]),
("r9-hs-slices",None,[(B3,"	index += len(reservedBytes)\n	infoHash := data[index : index+InfoHashLen]\n	index += InfoHashLen\n	peerId := data[index : index+PeerIdLen]\n","	rest := data[index+len(reservedBytes):]\n	infoHash := rest[:InfoHashLen]\n	peerId := rest[InfoHashLen : InfoHashLen+PeerIdLen]\n")]),
("r9-handle-split",None,[(B9,"		pieceNum := fetchMetaResp.PieceNum()\n		// copy, the data lies in a pooled buffer that is reused for the next message\n		peerConn.metaData[pieceNum] = append([]byte(nil), fetchMetaResp.Data()...)\n		peerConn.requestedMetaData[pieceNum] = true\n","		peerConn.storePiece(fetchMetaResp)\n"),(PC,"func (p *PeerConn) CompledMetaData() bool {","func (p *PeerConn) storePiece(msg ExtendedFetchMetaMsg) {\n	n := msg.PieceNum()\n	p.metaData[n] = append([]byte{}, msg.Data()...)\n	p.requestedMetaData[n] = true\n}\n\nfunc (p *PeerConn) CompledMetaData() bool {")]),
]
