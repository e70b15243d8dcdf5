# written from the statements and the code only, without regard to how the rules work
B="misc/beancode.go"; T="misc/types.go"; ER="misc/errors.go"; BP="misc/bytespool.go"; SM="misc/syncmap.go"
SD="misc/shutdown.go"; WP="misc/workpool.go"; LG="misc/logger.go"; ZP="misc/zap.go"; CF="config/config.go"
RT="dht/routetable.go"; FT="dht/fetchtorrent.go"; RH="dht/requesthandler.go"; RP="dht/resphandler.go"; DH="dht/dht.go"; DM="dht/messgaes.go"; ND="dht/node.go"
SV="dht/krpc/server.go"; MW="dht/krpc/middleware.go"; UD="dht/krpc/udp.go"; MS="dht/krpc/messages.go"
B3="dht/peerwire/bep3.go"; B9="dht/peerwire/bep9.go"; B10="dht/peerwire/bep10.go"; PC="dht/peerwire/peer.go"; CR="cmd/root.go"
M=[
# C15
("b-find-prefix","C15",[(RT,"if n.Id == id {","if strings.HasPrefix(n.Id, id) {"),(RT,'	"math/bits"\n','	"math/bits"\n	"strings"\n')]),
("b-equals-trim","C15",[(ND,"if n.Id == node.Id &&","if strings.TrimSpace(n.Id) == strings.TrimSpace(node.Id) &&")]),
("b-equals-prefixlen","C15",[(ND,"if n.Id == node.Id &&","if solvePrefixLen(n.Id, node.Id) >= len(n.Id)*8-1 &&")]),
("b-equals-addr","C15",[(ND,"if n.Id == node.Id && strings.EqualFold(n.Addr.String(), node.Addr.String()) {","if n == node || strings.EqualFold(n.Addr.String(), node.Addr.String()) {")]),
("b-find-runes","C15",[(RT,"if n.Id == id {","if string([]rune(n.Id)) == string([]rune(id)) {")]),
("b-find-fallback","C15",[(RT,"	for _, n := range nodes {\n		if n.Id == id {\n			return n\n		}\n	}\n	return nil","	var last *NodeInfo\n	for _, n := range nodes {\n		if n.Id == id {\n			return n\n		}\n		if len(n.Id) == len(id) && n.Id > id {\n			last = n\n		}\n	}\n	return last")]),
# C16
("b-double-put","C16",[(SV,"	if err != nil {\n		serverLogger.Error(\"decode bencode err\"","	if err != nil {\n		krpcBytesPool.Put(packet.Bytes)\n		serverLogger.Error(\"decode bencode err\"")]),
("b-decode-alias","C16",[(SV,"misc.DecodeDictNoLimit(string(packet.Bytes))","misc.DecodeDictNoLimit(misc.Bytes2Str(packet.Bytes))")]),
("b-prefix-put-early","C16",[(B3,"	preLen := binary.BigEndian.Uint32(preLenbytes)\n","	peerBytesPool.Put(preLenbytes)\n	preLen := binary.BigEndian.Uint32(preLenbytes)\n"),(B3,"	// recollection\n	peerBytesPool.Put(preLenbytes)\n","")]),
("b-piece-nocopy","C16",[(B9,"append([]byte(nil), fetchMetaResp.Data()...)","fetchMetaResp.Data()[:len(fetchMetaResp.Data()):len(fetchMetaResp.Data())]")]),
("b-put-before-log","C16",[(SV,"		serverLogger.Info(\">>>  Bytes sended\"","		krpcBytesPool.Put(packet.Bytes)\n		serverLogger.Info(\">>>  Bytes sended\"")]),
("b-recv-reuse","C16",[(UD,"	for !(s.closed.Load().(bool)) {\n		buf := krpcBytesPool.GetBySize(RecvPacketLen)\n","	buf := krpcBytesPool.GetBySize(RecvPacketLen)\n	for !(s.closed.Load().(bool)) {\n")]),
("b-pool-err-keep","C16",[(B3,"	_, err = io.ReadFull(reader, buf[:preLen])\n	if err != nil {\n		return false, nil, err","	_, err = io.ReadFull(reader, buf[:preLen])\n	if err != nil {\n		peerBytesPool.Put(buf)\n		return false, buf[:0], err")]),
# C17
("b-put-len","C17",[(BP,"	bytesChan := bp.loadOrStore(cap(b))","	bytesChan := bp.loadOrStore(len(b))")]),
("b-put-noextend","C17",[(BP,"bytesChan <- b[:cap(b)]","bytesChan <- b")]),
("b-get-bigger","C17",[(BP,"	case b = <-bp.loadOrStore(size):\n","	case b = <-bp.loadOrStore(size):\n	case b = <-bp.loadOrStore(bp.defaultWidth):\n")]),
("b-pool-blocks","C17",[(BP,"	case bytesChan <- b[:cap(b)]:\n		// buffer went back into pool\n	default:\n		// buffer didn't go back into pool, just discard\n","	case bytesChan <- b[:cap(b)]:\n")]),
("b-chan-size","C17",[(BP,"bp.chanMapping.LoadOrStore(i, make(chan []byte, bp.maxSize))","bp.chanMapping.LoadOrStore(i, make(chan []byte, i))")]),
("b-get-zero-default","C17",[(BP,"		b = make([]byte, size)","		b = make([]byte, size, size+8)")]),
# C18
("b-hash-prefix","C18",[(B9,"!bytes.Equal(peerConn.infoHash, GenerateInfoHash(result))","!bytes.HasPrefix(GenerateInfoHash(result), bytes.TrimRight(peerConn.infoHash, \"\\x00\"))")]),
("b-hash-other","C18",[(B9,"!bytes.Equal(peerConn.infoHash, GenerateInfoHash(result))","!bytes.Equal(peerConn.infoHash, GenerateInfoHash(result[:len(result):len(result)])) && len(result) == peerConn.metaDataSize")]),
("b-trim-result","C18",[(B9,"	return result, nil\n}\n\n// read loop","	return bytes.TrimRight(result, \"\\x00\"), nil\n}\n\n// read loop")]),
("b-infohash-overwrite","C18",[(B9,"	handShakeResp := parseHandShakeMsg(readBytes)\n","	handShakeResp := parseHandShakeMsg(readBytes)\n	peerConn.infoHash = handShakeResp.InfoHash()\n")]),
("b-recover-no-err","C18",[(B9,"			ret = nil\n			fetchMetaLogger.Error(\"FetchMetaData err\", misc.Dict{\"laddr\": laddr, \"err\": err})\n			retErr = errors.New(\"FetchMetaData err\")","			ret = nil\n			fetchMetaLogger.Error(\"FetchMetaData err\", misc.Dict{\"laddr\": laddr, \"err\": err})\n			if e, ok := err.(error); ok {\n				retErr = e\n			}")]),
("b-hash-lower","C18",[(B9,"!bytes.Equal(peerConn.infoHash, GenerateInfoHash(result))","!strings.EqualFold(string(peerConn.infoHash), string(GenerateInfoHash(result)))")]),
# C19
("b-raw-name","C19",[(FT,"	flushTorrentFile(hash, result)","	name := hash\n	if len(infoHash) < 20 {\n		name = infoHash\n	}\n	flushTorrentFile(name, result)")]),
("b-rename-before-close","C19",[(FT,"	if err != nil {\n		dhtLogger.Error(\"write file err\", misc.Dict{\"err\": err})\n		return\n	}\n","	if err != nil {\n		dhtLogger.Error(\"write file err\", misc.Dict{\"err\": err})\n	}\n")]),
("b-nosync","C19",[(FT,"	if err == nil {\n		err = file.Sync()\n	}\n","")]),
("b-write-final","C19",[(FT,'ioutil.TempFile(torrentDir, fileName+".*.tmp")','os.Create(filepath.Join(torrentDir, fileName+".torrent"))'),(FT,"	defer os.Remove(file.Name())\n",""),(FT,'	err = os.Rename(file.Name(), filepath.Join(torrentDir, fileName+".torrent"))\n	if err != nil {\n		dhtLogger.Error("rename file err", misc.Dict{"err": err})\n	}\n',''),(FT,'	"io/ioutil"\n','')]),
("b-tmp-elsewhere","C19",[(FT,'ioutil.TempFile(torrentDir, fileName+".*.tmp")','ioutil.TempFile("", fileName+".*.tmp")')]),
("b-write-partial","C19",[(FT,"	_, err = file.Write(data)\n","	for len(data) > 0 && err == nil {\n		var n int\n		n, err = file.Write(data[:len(data)/2])\n		data = data[n:]\n		if n == 0 {\n			break\n		}\n	}\n")]),
# C20
("b-no-read-deadline","C20",[(B9,"	conn.SetReadDeadline(time.Now().Add(time.Second * 1))\n","	conn.SetReadDeadline(time.Time{})\n")]),
("b-dial-notimeout","C20",[(B9,'net.DialTimeout("tcp", laddr, 3*time.Second)','net.DialTimeout("tcp", laddr, 0)')]),
("b-write-deadline-before-nil","C20",[(B9,"	conn.SetWriteDeadline(time.Now().Add(time.Second * 10))\n","	if len(infoHash) != InfoHashLen {\n		conn.SetWriteDeadline(time.Now().Add(time.Second * 10))\n	}\n")]),
("b-loop-budget","C20",[(B9,"for !peerConn.CompledMetaData() && !peerConn.IsReadLoopExpire() {\n		readMetaDataHandler(peerConn)","for !peerConn.CompledMetaData() && !peerConn.IsReadLoopExpire() {\n		peerConn.timeoutChan = time.After(peerConn.expireTime)\n		readMetaDataHandler(peerConn)")]),
("b-deadline-extend","C20",[(B9,"	keepAlive, readBytes, err := readBytesByPrefixLenMsg(conn)\n","	conn.SetReadDeadline(time.Time{})\n	keepAlive, readBytes, err := readBytesByPrefixLenMsg(conn)\n")]),
("b-close-ok-only","C20",[(B9,"			retErr = errors.New(\"FetchMetaData err\")\n		}\n		conn.Close()","			retErr = errors.New(\"FetchMetaData err\")\n			return\n		}\n		conn.Close()")]),
("b-expire-block","C20",[(PC,"	case <-p.timeoutChan:\n		return true\n	default:\n		return false\n","	case <-p.timeoutChan:\n		p.timeoutChan = nil\n		return len(p.metaData) > 0\n	default:\n		return false\n")]),
# C21
("b-read-limit","C21",[(B3,"	if preLen > maxReadLength {","	if preLen > maxReadLength+PrefixLen {")]),
("b-short-read","C21",[(B3,"	_, err = io.ReadFull(reader, buf[:preLen])","	_, err = reader.Read(buf[:preLen])")]),
("b-readatleast","C21",[(B3,"	_, err := io.ReadFull(reader, preLenbytes)","	_, err := io.ReadAtLeast(reader, preLenbytes, 2)")]),
("b-bufio","C21",[(B3,"	_, err := io.ReadFull(reader, preLenbytes)","	reader = bufio.NewReader(reader)\n	_, err := io.ReadFull(reader, preLenbytes)"),(B3,'import (\n','import (\n	"bufio"\n')]),
("b-little","C21",[(B3,"binary.BigEndian.Uint32(preLenbytes)","binary.LittleEndian.Uint32(preLenbytes)")]),
("b-keepalive-one","C21",[(B3,"	if preLen <= 0 {","	if preLen <= 1 {")]),
("b-readfull-buf","C21",[(B3,"	_, err = io.ReadFull(reader, buf[:preLen])","	_, err = io.ReadAtLeast(reader, buf, int(preLen))")]),
("b-toolarge-skip","C21",[(B3,'		return false, nil, errors.New("read input toolarge")','		return true, nil, nil'),(B3,'	"errors"\n','')]),
("b-hs-short","C21",[(B9,"	_, err = io.ReadFull(peerConn.conn, readBytes)","	_, err = io.ReadFull(peerConn.conn, readBytes[:handShakeLen-PeerIdLen])")]),
# C22
("b-drain-one","C22",[(WP,"		case worker := <-pool.queue:\n			worker()\n		default:\n			return","		case worker := <-pool.queue:\n			worker()\n			return\n		default:\n			return")]),
("b-worker-go","C22",[(WP,"		case worker := <-pool.queue:\n			worker()\n		case <-pool.shutdowned:","		case worker := <-pool.queue:\n			go worker()\n		case <-pool.shutdowned:")]),
("b-add-size-1","C22",[(WP,"	pool.wg.Add(pool.size)","	pool.wg.Add(pool.size + 1)")]),
("b-shutdown-twice","C22",[(WP,"	if Running != pool.Status() {\n		return false\n	}","	if Shutdowned == pool.Status() {\n		return false\n	}")]),
("b-submit-drop","C22",[(WP,"	pool.queue <- worker\n","	select {\n	case pool.queue <- worker:\n	case <-time.After(10 * time.Millisecond):\n	}\n")]),
("b-status-late","C22",[(WP,"	pool.status.Store(Shutdowned)\n}","	if pool.Status() == Running {\n		pool.status.Store(Shutdowned)\n	}\n}")]),
("b-task-once-more","C22",[(WP,"		case worker := <-pool.queue:\n			worker()\n		case <-pool.shutdowned:","		case worker := <-pool.queue:\n			worker()\n			if len(pool.queue) == cap(pool.queue) {\n				worker()\n			}\n		case <-pool.shutdowned:")]),
("b-cancel-no-shutdown","C22",[(WP,"		pool.Shutdown(2 * time.Second)\n","		pool.status.Store(Shutdowned)\n")]),
("b-recover-worker-exit","C22",[(WP,"	defer pool.wg.Done()\n	for {","	defer pool.wg.Done()\n	defer func() { recover() }()\n	for {")]),
# C23
("b-status-before-wait","C23",[(SD,"	ctx.status.Store(Shutdowning)\n	ctx.waitCleans(timeout)","	ctx.waitCleans(timeout)\n	ctx.status.Store(Shutdowning)")]),
("b-seq-cleans","C23",[(SD,"			go func(callback CleanFunc) {\n				callback()\n				wg.Done()\n			}(clean)","			clean()\n			wg.Done()")]),
("b-sig-one","C23",[(SD,"syscall.SIGINT, syscall.SIGTERM)","syscall.SIGINT, syscall.SIGHUP)")]),
("b-finished-early","C23",[(SD,"		wg.Wait()\n		finished <- true","		finished <- true\n		wg.Wait()")]),
("b-unbuffered-sig","C23",[(SD,"make(chan os.Signal, 1)","make(chan os.Signal)")]),
("b-timeout-units","C23",[(SD,"time.After(timeout)","time.After(timeout * time.Second)")]),
("b-first-clean-twice","C23",[(SD,"	ctx.cleans = append(ctx.cleans, cleanHandler...)","	ctx.cleans = append(ctx.cleans, cleanHandler...)\n	if len(ctx.cleans) > 8 {\n		ctx.cleans = append(ctx.cleans[:0], cleanHandler...)\n	}")]),
("b-skip-nil-clean","C23",[(SD,"		for _, clean := range cleans {\n","		for i, clean := range cleans {\n			if i > 0 && ctx.innerCtx.Err() != nil {\n				wg.Done()\n				continue\n			}\n")]),
# C24
("b-closed-after","C24",[(UD,"	s.closed.Store(true)\n	if s.conn != nil {\n		return s.conn.Close()\n	}\n	return nil","	var err error\n	if s.conn != nil {\n		err = s.conn.Close()\n	}\n	s.closed.Store(true)\n	return err")]),
("b-err-return","C24",[(UD,'			udpLogger.Error("<<< receive udp err", misc.Dict{"err": err})\n			continue','			udpLogger.Error("<<< receive udp err", misc.Dict{"err": err})\n			if n == 0 {\n				return\n			}\n			continue')]),
("b-packet-full-buf","C24",[(UD,"Bytes: buf[:n]}","Bytes: buf[:cap(buf)]}")]),
("b-shared-packet","C24",[(UD,"	for !(s.closed.Load().(bool)) {\n		buf","	packet := &RecvPacket{}\n	for !(s.closed.Load().(bool)) {\n		buf"),(UD,"		s.recvq <- &RecvPacket{Addr: raddr, Bytes: buf[:n]}","		packet.Addr, packet.Bytes = raddr, buf[:n]\n		s.recvq <- packet")]),
("b-drop-when-full","C24",[(UD,"		s.recvq <- &RecvPacket{Addr: raddr, Bytes: buf[:n]}","		select {\n		case s.recvq <- &RecvPacket{Addr: raddr, Bytes: buf[:n]}:\n		default:\n		}")]),
("b-close-conn-nil","C24",[(UD,"	if s.closed.Load().(bool) {\n		return nil\n	}\n	defer s.Unlock()","	defer s.Unlock()")]),
# C25
("b-zap-panic-error","C25",[(ZP,"	l.inner.Panic(msg, convert2slice(ctx)...)","	l.inner.DPanic(msg, convert2slice(ctx)...)")]),
("b-console-panic-level","C25",[(LG,'	c.print("Panic", msg, ctx)\n	panic(msg)','	if c.level.get() > PANIC {\n		return\n	}\n	c.print("Panic", msg, ctx)\n	panic(msg)')]),
("b-warn-ge","C25",[(LG,"	if c.level.get() > WARN {","	if c.level.get() >= WARN {")]),
("b-setlevel-one","C25",[(LG,"			l.SetLevel(level)\n","			l.SetLevel(level)\n			break\n")]),
("b-prefix-own-level","C25",[(LG,"		prefix: prefix,\n		level:  c.level,","		prefix: prefix,\n		level:  newSharedLevel(c.level.get()),")]),
("b-trace-zap","C25",[(ZP,"	l.inner.Check(traceLevel, msg).Write(convert2slice(ctx)...)","	l.inner.Check(zapcore.FatalLevel, msg).Write(convert2slice(ctx)...)")]),
("b-zap-level-swap","C25",[(ZP,'	case "WARN":\n		return zapcore.WarnLevel','	case "WARN":\n		return zapcore.InfoLevel')]),
# C26
("b-index-reset","C26",[(MW,"	c.index++\n	for","	c.index = 0\n	for")]),
("b-skip-one","C26",[(MW,"		c.chain[c.index](c)\n","		c.chain[c.index](c)\n		if c.resp != nil {\n			c.index++\n		}\n")]),
("b-append-shared","C26",[(SV,"	executeChain := make([]RpcHandlerFunc, 0, len(s.reqHandlerChain))\n	executeChain = append(executeChain, s.reqHandlerChain...)\n	executeChain = append(executeChain, reqHandler)","	executeChain := append(s.reqHandlerChain, reqHandler)")]),
("b-resp-uses-req","C26",[(SV,"append(executeChain, s.respHandlerChain...)","append(executeChain, s.reqHandlerChain...)")]),
("b-prepend","C26",[(SV,"	s.reqHandlerChain = append(s.reqHandlerChain, handlerChain...)","	s.reqHandlerChain = append(append([]RpcHandlerFunc{}, handlerChain...), s.reqHandlerChain...)")]),
("b-ctx-cache","C26",[(MW,"func NewReqContext(chain []RpcHandlerFunc, req Request, resp Response, addr *net.UDPAddr) *RpcContext {\n	return &RpcContext{\n		chain: chain,\n		index: -1,\n		req:   req,\n		resp:  resp,\n		addr:  addr,\n	}","var ctxPool = RpcContext{}\n\nfunc NewReqContext(chain []RpcHandlerFunc, req Request, resp Response, addr *net.UDPAddr) *RpcContext {\n	ctxPool = RpcContext{\n		chain: chain,\n		index: -1,\n		req:   req,\n		resp:  resp,\n		addr:  addr,\n	}\n	return &ctxPool")]),
]
R=[]
