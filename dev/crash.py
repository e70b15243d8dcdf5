SV='dht/krpc/server.go'; FT='dht/fetchtorrent.go'; B3='dht/peerwire/bep3.go'; B9='dht/peerwire/bep9.go'; UD='dht/krpc/udp.go'; BC='misc/beancode.go'; WP='misc/workpool.go'
C='C01'
DEF='''	defer func() {
		if err := recover(); err != nil {
			serverLogger.Error("recv packet handle panic", misc.Dict{"from": packet.Addr.String(), "err": err, "bytesLen": len(packet.Bytes)})
		}
		krpcBytesPool.Put(packet.Bytes)
	}()
'''
FDEF='''	defer func() {
		if err := recover(); err != nil {
			dhtLogger.Error("fetchHandler panic", misc.Dict{"err": err})
		}
	}()
'''
LIM='''		if metaSize <= 0 || metaSize > maxMetaDataSize {
			fetchMetaLogger.Panic("get extended handshake wrong metadata size", misc.Dict{"laddr": laddr, "metaSize": metaSize})
		}
'''
M=[
('no-recover-packet',C,[(SV,DEF,'	defer krpcBytesPool.Put(packet.Bytes)\n')]),
('no-recover-fetch',C,[(FT,FDEF,'')]),
('recover-nested',C,[(SV,DEF,'''	defer func() {
		recoverPacket(packet)
		krpcBytesPool.Put(packet.Bytes)
	}()
'''),(SV,'// err handler\n','''func recoverPacket(packet *RecvPacket) {
	if err := recover(); err != nil {
		serverLogger.Error("recv packet handle panic", misc.Dict{"from": packet.Addr.String(), "err": err})
	}
}

// err handler
''')]),
('decode-before-defer',C,[(SV,DEF+'''
	// parse packet
	dict, _, err := misc.DecodeDictNoLimit(string(packet.Bytes))
''','''	// parse packet
	dict, _, err := misc.DecodeDictNoLimit(string(packet.Bytes))
	kind := dict.GetString("y")
	serverLogger.Info("packet", misc.Dict{"kind": kind})
'''+DEF)]),
('repanic-runtime',C,[(SV,'''			serverLogger.Error("recv packet handle panic",''','''			if re, ok := err.(error); ok {
				panic(re)
			}
			serverLogger.Error("recv packet handle panic",''')]),
('only-biz',C,[(FT,'''			dhtLogger.Error("fetchHandler panic", misc.Dict{"err": err})''','''			dhtLogger.Error("fetchHandler panic", misc.Dict{"err": err.(*misc.Error).Error()})''')]),
('deferred-slice',C,[(SV,'"bytesLen": len(packet.Bytes)})','"bytesLen": len(packet.Bytes), "head": packet.Bytes[:4]})')]),
('parse-in-listen',C,[(SV,'''		pool.AsyncSubmit(func() {''','''		if packet.Bytes[0] != 'd' {
			continue
		}
		pool.AsyncSubmit(func() {''')]),
('go-handler',C,[(SV,'		s.responseHandle(packet.Addr, dict)\n','		go s.responseHandle(packet.Addr, dict)\n')]),
('go-query',C,[('dht/resphandler.go','''		findNodeRespHandler(ctx, parseNodeInfo(nodes))
''','''		go findNodeRespHandler(ctx, parseNodeInfo(nodes))
''')]),
('go-fetch',C,[(FT,'	result, err := peerwire.FetchMetaData(laddr, peerwire.LocalPeerId, misc.Str2Bytes(infoHash))\n	if err != nil {\n		return\n	}\n	flushTorrentFile(hash, result)\n','	go func() {\n		result, err := peerwire.FetchMetaData(laddr, peerwire.LocalPeerId, misc.Str2Bytes(infoHash))\n		if err != nil {\n			return\n		}\n		flushTorrentFile(hash[:40], result)\n	}()\n')]),
('exit-on-reply',C,[(SV,'			serverLogger.Error("encode response err", misc.Dict{"from": packet.Addr.String(), "dict": ret.String()})\n','			log.Fatal("encode response err")\n'),(SV,'	"net"\n','	"log"\n	"net"\n')]),
('recv-panic',C,[(UD,'			udpLogger.Error("<<< receive udp err", misc.Dict{"err": err})\n			continue\n','			udpLogger.Panic("<<< receive udp err", misc.Dict{"err": err})\n')]),
('recv-early-use',C,[(UD,'''		if err != nil {
			udpLogger.Error("<<< receive udp err"''','''		port := raddr.Port
		if err != nil || port == 0 {
			udpLogger.Error("<<< receive udp err"''')]),
('recv-slice',C,[(UD,'Bytes: buf[:n]','Bytes: buf[:n+1]')]),
('no-size-limit',C,[(B9,LIM,'')]),
('size-limit-lower-only',C,[(B9,'metaSize <= 0 || metaSize > maxMetaDataSize','metaSize <= 0')]),
('size-limit-and',C,[(B9,'metaSize <= 0 || metaSize > maxMetaDataSize','metaSize <= 0 && metaSize > maxMetaDataSize')]),
('size-limit-log',C,[(B9,'fetchMetaLogger.Panic("get extended handshake wrong metadata size"','fetchMetaLogger.Error("get extended handshake wrong metadata size"')]),
('limit-huge',C,[(B9,'const maxMetaDataSize = 16 * 1024 * 1024','const maxMetaDataSize = 16 * 1024 * 1024 * 1024')]),
('limit-after',C,[(B9,LIM,''),(B9,'''		fetchMetaLogger.Info("request pieces",''',LIM+'''		fetchMetaLogger.Info("request pieces",''')]),
('read-unlimited',C,[(B3,'''	if preLen > maxReadLength {
		return false, nil, errors.New("read input toolarge")
	}
	buf := peerBytesPool.GetBySize(maxReadLength)
''','''	buf := peerBytesPool.GetBySize(int(preLen))
'''),(B3,'	"errors"\n','')]),
('read-exact-before',C,[(B3,'''	if preLen > maxReadLength {
		return false, nil, errors.New("read input toolarge")
	}
	buf := peerBytesPool.GetBySize(maxReadLength)
''','''	buf := make([]byte, preLen)
	if preLen > maxReadLength {
		return false, nil, errors.New("read input toolarge")
	}
''')]),
('total-size',C,[(B9,'''	totalSize := dict.GetInteger("total_size")
''','''	totalSize := dict.GetInteger("total_size")
	whole := make([]byte, 0, totalSize)
	whole = append(whole, data[next:]...)
''')]),
('grow-total',C,[(B9,'''	totalSize := dict.GetInteger("total_size")
''','''	totalSize := dict.GetInteger("total_size")
	var whole bytes.Buffer
	whole.Grow(totalSize)
''')]),
('codec-make',C,[(BC,'''	// compare before adding, a huge length must not overflow
''','''	if slen >= 0 && slen < 1<<40 {
		tmp := make([]byte, 0, slen)
		_ = append(tmp, ':')
	}
	// compare before adding, a huge length must not overflow
''')]),
('readall',C,[(B9,'''	_, err = io.ReadFull(peerConn.conn, readBytes)
	if err != nil {
		fetchMetaLogger.Panic("get handshake''','''	readBytes, err = io.ReadAll(peerConn.conn)
	if err != nil {
		fetchMetaLogger.Panic("get handshake''')]),
('worker-task-bare',C,[(SV,'			s.recvPacketHandle(packet)\n','			misc.GetLogger().Info("packet", misc.Dict{"kind": packet.Bytes[0]})\n			s.recvPacketHandle(packet)\n')]),
('conditional-recover',C,[(SV,DEF,'''	if len(packet.Bytes) > 0 {
		defer func() {
			if err := recover(); err != nil {
				serverLogger.Error("recv packet handle panic", misc.Dict{"from": packet.Addr.String(), "err": err})
			}
		}()
	}
	defer krpcBytesPool.Put(packet.Bytes)
	if packet.Bytes[0] != 'd' {
		return
	}
''')]),
]
R=[
('noop',[C],[(SV,'	// parse packet\n','	_ = len(packet.Bytes)\n	// parse packet\n')]),
('recover-fn',[C],[(SV,DEF,'''	defer krpcBytesPool.Put(packet.Bytes)
	defer recoverPacket(packet)
'''),(SV,'// err handler\n','''func recoverPacket(packet *RecvPacket) {
	if err := recover(); err != nil {
		serverLogger.Error("recv packet handle panic", misc.Dict{"from": packet.Addr.String(), "err": err})
	}
}

// err handler
''')]),
('recover-in-task',[C],[(FT,FDEF,''),(FT,'			fetchHandler(ctx)\n','''			defer func() {
				if err := recover(); err != nil {
					dhtLogger.Error("fetchHandler panic", misc.Dict{"err": err})
				}
			}()
			fetchHandler(ctx)
''')]),
('safe-run',[C],[(FT,FDEF,''),(FT,'			fetchHandler(ctx)\n','			safely(func() { fetchHandler(ctx) })\n'),(FT,'func fetchHandler(','''func safely(f func()) {
	defer func() {
		if err := recover(); err != nil {
			dhtLogger.Error("fetchHandler panic", misc.Dict{"err": err})
		}
	}()
	f()
}

func fetchHandler(''')]),
('task-factory',[C],[(SV,'''		pool.AsyncSubmit(func() {
			s.recvPacketHandle(packet)
		})
''','''		pool.AsyncSubmit(s.taskFor(packet))
'''),(SV,'func (s *RpcServer) Close() {','''func (s *RpcServer) taskFor(packet *RecvPacket) misc.AsyncWorkFunc {
	return func() {
		s.recvPacketHandle(packet)
	}
}

func (s *RpcServer) Close() {''')]),
('recover-in-worker',[C],[(FT,FDEF,''),(WP,'''			worker()
		case <-pool.shutdowned:''','''			runTask(worker)
		case <-pool.shutdowned:'''),(WP,'''			worker()
		default:''','''			runTask(worker)
		default:'''),(WP,'func (pool *WorkPool) AsyncSubmit','''func runTask(worker AsyncWorkFunc) {
	defer func() {
		if err := recover(); err != nil {
			workPoolLogger.Error("task failed", Dict{"err": err})
		}
	}()
	worker()
}

func (pool *WorkPool) AsyncSubmit''')]),
('limit-helper',[C],[(B9,LIM,'''		if !validMetaSize(metaSize) {
			fetchMetaLogger.Panic("get extended handshake wrong metadata size", misc.Dict{"laddr": laddr, "metaSize": metaSize})
		}
'''),(B9,'// handle extend msg\n','''func validMetaSize(n int) bool {
	return n > 0 && n <= maxMetaDataSize
}

// handle extend msg
''')]),
('piece-count-helper',[C],[(B9,'''		pieceCount := metaSize / SizeOf16KB
		if metaSize%SizeOf16KB > 0 {
			pieceCount++
		}
''','''		pieceCount := (metaSize + SizeOf16KB - 1) / SizeOf16KB
''')]),
('merge-helper',[C],[(B9,'''	result := make([]byte, 0, peerConn.metaDataSize)
	for i := 0; i < len(peerConn.requestedMetaData); i++ {
		result = append(result, peerConn.metaData[i]...)
	}
''','''	result := mergePieces(peerConn, peerConn.metaDataSize)
'''),(B9,'// read loop for communication\n','''func mergePieces(peerConn *PeerConn, size int) []byte {
	out := make([]byte, 0, size)
	for _, piece := range peerConn.metaData {
		out = append(out, piece...)
	}
	return out
}

// read loop for communication
''')]),
('var-buffer',[C],[(B3,'	buf := peerBytesPool.GetBySize(maxReadLength)\n','	size := maxReadLength\n	buf := peerBytesPool.GetBySize(size)\n')]),
('recv-split',[C],[(UD,'''		s.recvq <- &RecvPacket{Addr: raddr, Bytes: buf[:n]}
''','''		payload := buf[:n]
		packet := &RecvPacket{Addr: raddr, Bytes: payload}
		s.recvq <- packet
''')]),
('switch-if',[C],[(SV,'''	case "r":
		s.responseHandle(packet.Addr, dict)
''','''	case "r":
		addr := packet.Addr
		s.responseHandle(addr, dict)
''')]),
('method-task',[C],[(SV,'''		pool.AsyncSubmit(func() {
			s.recvPacketHandle(packet)
		})
''','''		task := func() { s.recvPacketHandle(packet) }
		pool.AsyncSubmit(task)
''')]),
]
