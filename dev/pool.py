B3="dht/peerwire/bep3.go"; B9="dht/peerwire/bep9.go"; BP="misc/bytespool.go"; SV="dht/krpc/server.go"; UD="dht/krpc/udp.go"; PE="dht/peerwire/peer.go"
M=[
("alias-piece","C16",[(B9,"append([]byte(nil), fetchMetaResp.Data()...)","fetchMetaResp.Data()")]),
("alias-packet","C16",[(SV,"misc.DecodeDictNoLimit(string(packet.Bytes))","misc.DecodeDictNoLimit(misc.Bytes2Str(packet.Bytes))")]),
("put-before-read","C16",[(B3,"\tpreLen := binary.BigEndian.Uint32(preLenbytes)\n","\tpeerBytesPool.Put(preLenbytes)\n\tpreLen := binary.BigEndian.Uint32(preLenbytes)\n"),(B3,"\t// recollection\n\tpeerBytesPool.Put(preLenbytes)\n","")]),
("put-twice","C16",[(B3,"\tif preLen <= 0 {\n","\tdefer peerBytesPool.Put(preLenbytes)\n\tif preLen <= 0 {\n")]),
("put-returned","C16",[(B3,"\t// exactly one message","\tdefer peerBytesPool.Put(buf)\n\t// exactly one message")]),
("recv-one-buffer","C16",[(UD,"\tfor !(s.closed.Load().(bool)) {\n\t\tbuf := krpcBytesPool.GetBySize(RecvPacketLen)\n","\tbuf := krpcBytesPool.GetBySize(RecvPacketLen)\n\tfor !(s.closed.Load().(bool)) {\n")]),
("recv-put-after-send","C16",[(UD,"Bytes: buf[:n]}\n","Bytes: buf[:n]}\n\t\tkrpcBytesPool.Put(buf)\n")]),
("put-early","C16",[(SV,"\t\tkrpcBytesPool.Put(packet.Bytes)\n\t}()\n","\t}()\n\tkrpcBytesPool.Put(packet.Bytes)\n")]),
("put-twice-packet","C16",[(SV,"\t\tserverLogger.Error(\"decode bencode err\"","\t\tkrpcBytesPool.Put(packet.Bytes)\n\t\tserverLogger.Error(\"decode bencode err\"")]),
("packet-shared","C16",[(SV,"\tfor {\n\t\tpacket := <-s.udpConn.RecvChan()","\tvar packet *RecvPacket\n\tfor {\n\t\tpacket = <-s.udpConn.RecvChan()")]),
("listen-put","C16",[(SV,"\t\tpool.AsyncSubmit(func() {\n\t\t\ts.recvPacketHandle(packet)\n\t\t})\n","\t\tpool.AsyncSubmit(func() {\n\t\t\ts.recvPacketHandle(packet)\n\t\t})\n\t\tkrpcBytesPool.Put(packet.Bytes)\n")]),
("put-handled-twice","C16",[(B9,"\tdefer func() {\n\t\tif cap(readBytes) > 0 {\n\t\t\tpeerBytesPool.Put(readBytes)\n\t\t}\n\t}()\n","\tdefer func() {\n\t\tif cap(readBytes) > 0 {\n\t\t\tpeerBytesPool.Put(readBytes)\n\t\t}\n\t}()\n\tif len(readBytes) == 1 {\n\t\tpeerBytesPool.Put(readBytes)\n\t\treturn\n\t}\n")]),
("exdict-alias","C16",[("dht/peerwire/bep10.go","string(data[2:])","misc.Bytes2Str(data[2:])"),(B9,"\t\tpeerConn.metaDataSize = metaSize\n","\t\tpeerConn.metaDataSize = metaSize\n\t\tpeerConn.addr = peerConn.addr + \" \"\n\t\tpeerConn.client = dict.GetStringOrDefault(\"v\", \"\")\n"),(PE,"type PeerConn struct {\n","type PeerConn struct {\n\tclient string\n")]),
("piece-subslice","C16",[(B9,"append([]byte(nil), fetchMetaResp.Data()...)","fetchMetaResp.Data()[:len(fetchMetaResp.Data()):len(fetchMetaResp.Data())]")]),
("put-noreslice","C17",[(BP,"bytesChan <- b[:cap(b)]:","bytesChan <- b:")]),
("get-blocking","C17",[(BP,"\tselect {\n\tcase b = <-bp.loadOrStore(size):\n\t// reuse existing buffer\n\tdefault:\n\t\t// create new buffer\n\t\tb = make([]byte, size)\n\t}\n\treturn\n","\tc := bp.loadOrStore(size)\n\tif len(c) > 0 {\n\t\treturn <-c\n\t}\n\treturn make([]byte, size)\n")]),
("put-blocking","C17",[(BP,"\tselect {\n\t// reset bytes length, import...\n\tcase bytesChan <- b[:cap(b)]:\n\t\t// buffer went back into pool\n\tdefault:\n\t\t// buffer didn't go back into pool, just discard\n\t}\n","\tif len(bytesChan) < cap(bytesChan) {\n\t\tbytesChan <- b[:cap(b)]\n\t}\n")]),
("put-bylen","C17",[(BP,"bp.loadOrStore(cap(b))","bp.loadOrStore(len(b))")]),
("get-default-make","C17",[(BP,"\t\tb = make([]byte, size)","\t\tb = make([]byte, size, bp.defaultWidth)[:0]")]),
("get-default-width","C17",[(BP,"\t\tb = make([]byte, size)","\t\tb = make([]byte, bp.defaultWidth)")]),
("get-anysize","C17",[(BP,"<-bp.loadOrStore(size):","<-bp.loadOrStore(bp.defaultWidth):")]),
("chan-cap","C17",[(BP,"make(chan []byte, bp.maxSize))","make(chan []byte, bp.maxSize*2))")]),
("chan-cap-ctor","C17",[(BP,"chanMapping.Store(width, make(chan []byte, maxSize))","chanMapping.Store(width, make(chan []byte, width))")]),
("ctor-key","C17",[(BP,"chanMapping.Store(width, make(chan []byte, maxSize))","chanMapping.Store(width, make(chan []byte, maxSize))"),(BP,"\t\tdefaultWidth: width,\n\t\tmaxSize:      maxSize,","\t\tdefaultWidth: maxSize,\n\t\tmaxSize:      width,")]),
("roundup","C17",[(BP,"func (bp *BytesPool) GetBySize(size int) (b []byte) {\n","func (bp *BytesPool) GetBySize(size int) (b []byte) {\n\tif size%2 == 1 {\n\t\tsize++\n\t}\n")]),
]
P=["C16","C17"]
R=[
("put-helper",P,[(B3,"\tpeerBytesPool.Put(preLenbytes)\n","\trelease(preLenbytes)\n"),(B3,"// without prefix bytes","func release(b []byte) {\n\tpeerBytesPool.Put(b)\n}\n\n// without prefix bytes")]),
("put-errpaths",P,[(B3,"\t_, err := io.ReadFull(reader, preLenbytes)\n\tif err != nil {\n\t\treturn false, nil, err\n\t}\n","\t_, err := io.ReadFull(reader, preLenbytes)\n\tif err != nil {\n\t\tpeerBytesPool.Put(preLenbytes)\n\t\treturn false, nil, err\n\t}\n"),(B3,"\tif preLen <= 0 {\n\t\treturn true","\tif preLen <= 0 {\n\t\tpeerBytesPool.Put(preLenbytes)\n\t\treturn true")]),
("defer-prelen",P,[(B3,"\t_, err := io.ReadFull(reader, preLenbytes)\n","\tdefer peerBytesPool.Put(preLenbytes)\n\t_, err := io.ReadFull(reader, preLenbytes)\n"),(B3,"\t// recollection\n\tpeerBytesPool.Put(preLenbytes)\n","")]),
("packet-named-fn",P,[(SV,"\t\tpool.AsyncSubmit(func() {\n\t\t\ts.recvPacketHandle(packet)\n\t\t})\n","\t\tpool.AsyncSubmit(s.task(packet))\n"),(SV,"func (s *RpcServer) Close() {","func (s *RpcServer) task(packet *RecvPacket) func() {\n\treturn func() {\n\t\ts.recvPacketHandle(packet)\n\t}\n}\n\nfunc (s *RpcServer) Close() {")]),
("packet-local",P,[(SV,"\t// parse packet\n\tdict, _, err := misc.DecodeDictNoLimit(string(packet.Bytes))","\t// parse packet\n\tbuf := packet.Bytes\n\traw := string(buf)\n\tdict, _, err := misc.DecodeDictNoLimit(raw)")]),
("packet-put-explicit",P,[(SV,"\t\tkrpcBytesPool.Put(packet.Bytes)\n\t}()\n","\t}()\n\tdefer krpcBytesPool.Put(packet.Bytes)\n")]),
("recv-err-put",P,[(UD,"\t\t\tudpLogger.Error(\"<<< receive udp err\"","\t\t\tkrpcBytesPool.Put(buf)\n\t\t\tudpLogger.Error(\"<<< receive udp err\"")]),
("recv-struct-first",P,[(UD,"\t\ts.recvq <- &RecvPacket{Addr: raddr, Bytes: buf[:n]}\n","\t\tpkt := &RecvPacket{Addr: raddr}\n\t\tpkt.Bytes = buf[:n]\n\t\ts.recvq <- pkt\n")]),
("piece-copy",P,[(B9,"\t\tpeerConn.metaData[pieceNum] = append([]byte(nil), fetchMetaResp.Data()...)\n","\t\tpiece := make([]byte, len(fetchMetaResp.Data()))\n\t\tcopy(piece, fetchMetaResp.Data())\n\t\tpeerConn.metaData[pieceNum] = piece\n")]),
("handler-split",P,[(B9,"\tdefer func() {\n\t\tif cap(readBytes) > 0 {\n\t\t\tpeerBytesPool.Put(readBytes)\n\t\t}\n\t}()\n","\tdefer recycle(&readBytes)\n"),(B9,"// handle extend msg","func recycle(b *[]byte) {\n\tif cap(*b) > 0 {\n\t\tpeerBytesPool.Put(*b)\n\t}\n}\n\n// handle extend msg")]),
("exdict-alias-ok",P,[("dht/peerwire/bep10.go","string(data[2:])","string(data[2:len(data)])")]),
("get-early-return",P,[(BP,"\tselect {\n\tcase b = <-bp.loadOrStore(size):\n\t// reuse existing buffer\n\tdefault:\n\t\t// create new buffer\n\t\tb = make([]byte, size)\n\t}\n\treturn\n","\tselect {\n\tcase b = <-bp.loadOrStore(size):\n\t\treturn b\n\tdefault:\n\t}\n\treturn make([]byte, size)\n")]),
("get-delegates",P,[(BP,"\tselect {\n\tcase b = <-bp.loadOrStore(bp.defaultWidth):\n\t// reuse existing buffer\n\tdefault:\n\t\t// create new buffer\n\t\tb = make([]byte, bp.defaultWidth)\n\t}\n\treturn\n","\treturn bp.GetBySize(bp.defaultWidth)\n")]),
("put-local",P,[(BP,"\tbytesChan := bp.loadOrStore(cap(b))\n","\tfull := b[:cap(b)]\n\tbytesChan := bp.loadOrStore(len(full))\n"),(BP,"bytesChan <- b[:cap(b)]:","bytesChan <- full:")]),
("pool-map",P,[(BP,"\tsync.RWMutex\n\tchanMapping  *sync.Map\n","\tsync.RWMutex\n\tchanMapping  map[int]chan []byte\n"),(BP,"\tchanMapping := new(sync.Map)\n\tchanMapping.Store(width, make(chan []byte, maxSize))\n","\tchanMapping := make(map[int]chan []byte)\n\tchanMapping[width] = make(chan []byte, maxSize)\n"),(BP,"\tif c, exist := bp.chanMapping.Load(i); exist {\n\t\treturn c.(chan []byte)\n\t}\n\n\tc, _ := bp.chanMapping.LoadOrStore(i, make(chan []byte, bp.maxSize))\n\treturn c.(chan []byte)\n","\tbp.Lock()\n\tdefer bp.Unlock()\n\tc, exist := bp.chanMapping[i]\n\tif !exist {\n\t\tc = make(chan []byte, bp.maxSize)\n\t\tbp.chanMapping[i] = c\n\t}\n\treturn c\n")]),
("pool-mapput-helper",P,[(BP,"\tselect {\n\t// reset bytes length, import...\n\tcase bytesChan <- b[:cap(b)]:\n\t\t// buffer went back into pool\n\tdefault:\n\t\t// buffer didn't go back into pool, just discard\n\t}\n","\toffer(bytesChan, b[:cap(b)])\n"),(BP,"// double check","func offer(c chan []byte, b []byte) bool {\n\tselect {\n\tcase c <- b:\n\t\treturn true\n\tdefault:\n\t\treturn false\n\t}\n}\n\n// double check")]),
("put-empty-guard",P,[(BP,"\tbytesChan := bp.loadOrStore(cap(b))\n","\tif cap(b) == 0 {\n\t\treturn\n\t}\n\tbytesChan := bp.loadOrStore(cap(b))\n")]),
("make-chan-helper",P,[(BP,"LoadOrStore(i, make(chan []byte, bp.maxSize))","LoadOrStore(i, bp.newChan())"),(BP,"// double check","func (bp *BytesPool) newChan() chan []byte {\n\treturn make(chan []byte, bp.maxSize)\n}\n\n// double check")]),
]
