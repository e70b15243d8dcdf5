RT="dht/routetable.go"; S="dht/krpc/server.go"; U="dht/krpc/udp.go"; F="dht/fetchtorrent.go"; H="dht/resphandler.go"; D="dht/dht.go"
B3="dht/peerwire/bep3.go"; B9="dht/peerwire/bep9.go"; B10="dht/peerwire/bep10.go"; BC="misc/beancode.go"; T="cmd/torrent.go"; C="config/config.go"
ENCQ='''		serverLogger.Error("encode request err", misc.Dict{"to": raddr.String(), "query": req.String(), "err": err})
		return err
'''
SNDQ='''		serverLogger.Error("send query packet err", misc.Dict{"to": raddr.String(), "query": req.String(), "err": err})
		return err
'''
ENCR='''			serverLogger.Error("encode response err", misc.Dict{"from": packet.Addr.String(), "dict": ret.String()})
			return
'''
DEC='''		serverLogger.Error("decode bencode err", misc.Dict{"from": packet.Addr.String(), "err": err, "len": len(packet.Bytes)})
		return
'''
SPK='''		udpLogger.Error(">>> send udp err", misc.Dict{"laddr": s.laddr, "err": err})
		return err
'''
RSV='''		udpLogger.Error("resolve remote host err", misc.Dict{"raddr": remoteAddr, "err": err})
		return err
'''
RCV='''			udpLogger.Error("<<< receive udp err", misc.Dict{"err": err})
			continue
'''
ADDN='''			dhtLogger.Info("add node err", misc.Dict{"err": err, "tableSize": rtable.Size()})
			continue
'''
DIAL='''	if err != nil {
		return nil, err
	}
	defer func() {
		if err := recover'''
PIECE='''			_, err := peerConn.conn.Write(withExtendedFetchMetaMsg(exMsgId, ExRequest, i, 0))
			if err != nil {
				fetchMetaLogger.Panic("write request piece err", misc.Dict{"laddr": laddr, "err": err})
			}
'''
FM='''	result, err := peerwire.FetchMetaData(laddr, peerwire.LocalPeerId, misc.Str2Bytes(infoHash))
	if err != nil {
		return
	}
'''
PRE='''	if err != nil {
		return false, nil, err
	}
	preLen :='''
BODY='''	if err != nil {
		return false, nil, err
	}
	return false, buf'''
SPLIT='''	if err := t.addNode(node, t.solveMaxPreLen(node.Id)); err != nil {
		return err
	}
'''
INIT='''	_, err := peerConn.conn.Write(withExtendedhandShake(misc.Dict{"ut_metadata": 1}, nil))
	if err != nil {
		fetchMetaLogger.Panic("write extended handshake err", misc.Dict{"laddr": peerConn.addr, "err": err})
	}
'''
EX10='''	if err != nil {
		peerWireLogger.Panic("decode extended handshake err", misc.Dict{"err": err})
	}
'''
ENC10='''	if err != nil {
		peerWireLogger.Panic("encode extended handshake err", misc.Dict{"ExDict": b.ExDict, "err": err})
	}
'''
RET='\n			return\n'
M=[
("encq-noreturn","C33",[(S,ENCQ,ENCQ.replace("		return err\n",""))]),
("encq-nil","C33",[(S,ENCQ,ENCQ.replace("return err","return nil"))]),
("sndq-noreturn","C33",[(S,SNDQ,SNDQ.replace("		return err\n",""))]),
("sndq-ignored","C33",[(S,'	err = s.udpConn.SendPacket([]byte(raw), raddr)\n','	s.udpConn.SendPacket([]byte(raw), raddr)\n')]),
("encr-noreturn","C33",[(S,ENCR,ENCR.replace("			return\n",""))]),
("encr-blank","C33",[(S,'		bytes, err := misc.EncodeDict(ret.RawData())\n		if err != nil {\n'+ENCR+'		}\n		err = s','		bytes, _ := misc.EncodeDict(ret.RawData())\n		err = s')]),
("dec-noreturn","C33",[(S,DEC,DEC.replace("		return\n",""))]),
("dec-blank","C33",[(S,'	dict, _, err := misc.DecodeDictNoLimit(string(packet.Bytes))\n	if err != nil {\n'+DEC+'	}\n','	dict, _, _ := misc.DecodeDictNoLimit(string(packet.Bytes))\n')]),
("spk-nil","C33",[(U,SPK,SPK.replace("return err","return nil"))]),
("spk-noreturn","C33",[(U,SPK,SPK.replace("		return err\n",""))]),
("rsv-noreturn","C33",[(U,RSV,RSV.replace("		return err\n",""))]),
("rcv-nocontinue","C33",[(U,RCV,RCV.replace("			continue\n",""))]),
("listen-ignored","C33",[(U,'	serverConn, err := net.ListenUDP("udp", laddr)\n	if err != nil {\n		log.Panic("listen udp err", misc.Dict{"laddr": laddr, "err": err})\n	}\n','	serverConn, _ := net.ListenUDP("udp", laddr)\n'),(U,'	"log"\n','')]),
("listen-logged","C33",[(U,'		log.Panic("listen udp err",','		udpLogger.Error("listen udp err",'),(U,'	"log"\n','')]),
("addn-nocontinue","C33",[(H,ADDN,ADDN.replace("			continue\n",""))]),
("addn-ignored","C33",[(H,'		err := rtable.AddNode(n)\n		if err != nil {\n'+ADDN+'		}\n		err = rpc','		rtable.AddNode(n)\n		err := rpc')]),
("query-ignored","C33",[(H,'''		err = rpcServer.Query(n.Addr, WithFindNodeMsg(txIdGenerator.Next(), localNodeId, localNodeId, genericRespHandler))
		if err != nil {
			dhtLogger.Error("recurve find node err", misc.Dict{"err": err, "tableSize": rtable.Size()})
		}
''','''		rpcServer.Query(n.Addr, WithFindNodeMsg(txIdGenerator.Next(), localNodeId, localNodeId, genericRespHandler))
''')]),
("boot-log","C33",[(D,'dhtLogger.Panic("bootstrap resolve host err"','dhtLogger.Error("bootstrap resolve host err"')]),
("boot-ignored","C33",[(D,'	err = rpcServer.Query(raddr, msg)\n','	rpcServer.Query(raddr, msg)\n')]),
("dial-ignored","C33",[(B9,DIAL,'	if err != nil {\n		fetchMetaLogger.Error("dial", misc.Dict{"err": err})\n	}\n'+DIAL[DIAL.index("	defer"):])]),
("dial-nil","C33",[(B9,DIAL,DIAL.replace("return nil, err","return nil, nil"))]),
("piece-ignored","C33",[(B9,PIECE,'			peerConn.conn.Write(withExtendedFetchMetaMsg(exMsgId, ExRequest, i, 0))\n')]),
("piece-logged","C33",[(B9,PIECE,PIECE.replace("Panic","Error"))]),
("piece-last","C33",[(B9,"		for i := 0; i < pieceCount; i++ {\n			peerConn.requestedMetaData[i] = false\n","		var err error\n		for i := 0; i < pieceCount; i++ {\n			peerConn.requestedMetaData[i] = false\n"),(B9,PIECE,'			_, err = peerConn.conn.Write(withExtendedFetchMetaMsg(exMsgId, ExRequest, i, 0))\n		}\n		if err != nil {\n			fetchMetaLogger.Panic("write request piece err", misc.Dict{"laddr": laddr, "err": err})\n')]),
("fm-ignored","C33",[(F,FM,FM.replace("		return\n",'		dhtLogger.Error("fetch", misc.Dict{"err": err})\n'))]),
("fm-blank","C33",[(F,FM,"	result, _ := peerwire.FetchMetaData(laddr, peerwire.LocalPeerId, misc.Str2Bytes(infoHash))\n")]),
("pre-nil","C33",[(B3,PRE,PRE.replace("nil, err","nil, nil"))]),
("pre-blank","C33",[(B3,"	_, err := io.ReadFull(reader, preLenbytes)\n"+PRE,"	io.ReadFull(reader, preLenbytes)\n	preLen :="),(B3,"	_, err = io.ReadFull(reader, buf[:preLen])","	_, err := io.ReadFull(reader, buf[:preLen])")]),
("body-short","C33",[(B3,BODY,"	if err == io.EOF {\n		return false, nil, err\n	}\n	return false, buf")]),
("body-drop","C33",[(B3,BODY,"	return false, buf"),(B3,"	_, err = io.ReadFull(reader, buf[:preLen])","	io.ReadFull(reader, buf[:preLen])")]),
("split-drop","C33",[(RT,SPLIT,"	t.addNode(node, t.solveMaxPreLen(node.Id))\n")]),
("split-nil","C33",[(RT,SPLIT,SPLIT.replace("return err","return nil"))]),
("add-drop","C33",[(RT,"	return t.addNode(node, pLen)\n","	t.addNode(node, pLen)\n	return nil\n")]),
("init-drop","C33",[(B9,INIT,'	peerConn.conn.Write(withExtendedhandShake(misc.Dict{"ut_metadata": 1}, nil))\n')]),
("hs-short","C33",[(B9,'''	_, err = io.ReadFull(peerConn.conn, readBytes)
	if err != nil {
''','''	_, err = io.ReadFull(peerConn.conn, readBytes)
	if err == io.EOF {
''')]),
("ex10-drop","C33",[(B10,EX10,"	_ = err\n")]),
("ex10-log","C33",[(B10,EX10,EX10.replace("Panic","Error"))]),
("enc10-log","C33",[(B10,ENC10,ENC10.replace("Panic","Error"))]),
("tor-open","C33",[(T,'	misc.PanicSysErrNonNil(err, "open torrent file err", path)\n','')]),
("tor-read","C33",[(T,'	misc.PanicSysErrNonNil(err, "read torrent file err", path)\n','')]),
("tor-dec","C33",[(T,'	misc.PanicSysErrNonNil(err, "DecodeDict torrent file err", path)\n','	_ = err\n')]),
("write-drop","C33",[(F,"	_, err = file.Write(data)\n	if err == nil {\n","	file.Write(data)\n	if err == nil {\n")]),
("sync-shadow","C33",[(F,"		err = file.Sync()\n",'		err := file.Sync()\n		dhtLogger.Trace("synced", misc.Dict{"err": err})\n')]),
("rename-drop","C33",[(F,'''	err = os.Rename(file.Name(), filepath.Join(torrentDir, fileName+".torrent"))
	if err != nil {
		dhtLogger.Error("rename file err", misc.Dict{"err": err})
	}
''','''	os.Rename(file.Name(), filepath.Join(torrentDir, fileName+".torrent"))
''')]),
("write-continue","C33",[(F,'		dhtLogger.Error("write file err", misc.Dict{"err": err})\n		return\n','		dhtLogger.Error("write file err", misc.Dict{"err": err})\n')]),
("temp-continue","C33",[(F,'		dhtLogger.Error("create file err", misc.Dict{"err": err})\n		return\n','		dhtLogger.Error("create file err", misc.Dict{"err": err})\n')]),
]
R=[
("encq-if",["C33"],[(S,'''	err = s.udpConn.SendPacket([]byte(raw), raddr)
	if err != nil {
''','''	if err = s.udpConn.SendPacket([]byte(raw), raddr); err != nil {
''')]),
("query-return",["C33"],[(S,SNDQ+'	}\n	serverLogger.Info(">>>rpc sended", misc.Dict{"to": raddr.String(), "len": len(raw)})\n	return nil\n','		serverLogger.Error("send query packet err", nil)\n	} else {\n		serverLogger.Info(">>>rpc sended", nil)\n	}\n	return err\n')]),
("encode-helper",["C33"],[(S,"	raw, err := misc.EncodeDict(req.RawData())\n","	raw, err := encodeRequest(req)\n"),(S,"// send query msg","func encodeRequest(req Request) ([]byte, error) {\n	raw, err := misc.EncodeDict(req.RawData())\n	if err != nil {\n		return nil, err\n	}\n	return []byte(raw), nil\n}\n\n// send query msg"),(S,"SendPacket([]byte(raw), raddr)","SendPacket(raw, raddr)")]),
("encode-pass",["C33"],[(S,"	raw, err := misc.EncodeDict(req.RawData())\n","	raw, err := encodeRequest(req)\n"),(S,"// send query msg","func encodeRequest(req Request) (string, error) {\n	return misc.EncodeDict(req.RawData())\n}\n\n// send query msg")]),
("answer-helper",["C33"],[(S,'''		bytes, err := misc.EncodeDict(ret.RawData())
		if err != nil {
'''+ENCR+'''		}
		err = s.udpConn.SendPacket([]byte(bytes), packet.Addr)
		if err != nil {
			serverLogger.Error("send response packet err", misc.Dict{"to": packet.Addr.String(), "err": err})
			return
		}
		serverLogger.Info(">>>  Bytes sended", misc.Dict{"to": packet.Addr.String(), "len": len(bytes)})
''','		s.answer(packet.Addr, ret)\n'),(S,"// err handler",'''func (s *RpcServer) answer(addr *net.UDPAddr, ret Response) {
	bytes, err := misc.EncodeDict(ret.RawData())
	if err != nil {
		serverLogger.Error("encode response err", nil)
		return
	}
	if err := s.udpConn.SendPacket([]byte(bytes), addr); err != nil {
		serverLogger.Error("send response packet err", nil)
		return
	}
	serverLogger.Info(">>>  Bytes sended", misc.Dict{"len": len(bytes)})
}

// err handler''')]),
("recv-else",["C33"],[(U,'''		if err != nil {
			udpLogger.Error("<<< receive udp err", misc.Dict{"err": err})
			continue
		}
		udpLogger.Info("<<< received Bytes", misc.Dict{"raddr": raddr.String(), "length": n})
		s.recvq <- &RecvPacket{Addr: raddr, Bytes: buf[:n]}
''','''		if err == nil {
			udpLogger.Info("<<< received Bytes", misc.Dict{"raddr": raddr.String(), "length": n})
			s.recvq <- &RecvPacket{Addr: raddr, Bytes: buf[:n]}
		} else {
			udpLogger.Error("<<< receive udp err", misc.Dict{"err": err})
		}
''')]),
("add-else",["C33"],[(H,'''		if err != nil {
'''+ADDN+'''		}
		err = rpcServer.Query(n.Addr, WithFindNodeMsg(txIdGenerator.Next(), localNodeId, localNodeId, genericRespHandler))
		if err != nil {
			dhtLogger.Error("recurve find node err", misc.Dict{"err": err, "tableSize": rtable.Size()})
		}
''','''		if err == nil {
			err = rpcServer.Query(n.Addr, WithFindNodeMsg(txIdGenerator.Next(), localNodeId, localNodeId, genericRespHandler))
		}
		if err != nil {
			dhtLogger.Info("add node err", misc.Dict{"err": err, "tableSize": rtable.Size()})
		}
''')]),
("add-helper",["C33"],[(H,'''		err := rtable.AddNode(n)
		if err != nil {
'''+ADDN+'''		}
		err = rpcServer.Query(n.Addr, WithFindNodeMsg(txIdGenerator.Next(), localNodeId, localNodeId, genericRespHandler))
		if err != nil {
			dhtLogger.Error("recurve find node err", misc.Dict{"err": err, "tableSize": rtable.Size()})
		}
''','''		learn(n)
'''),(H,"func pingRespHandler",'''func learn(n *NodeInfo) {
	if err := rtable.AddNode(n); err != nil {
		dhtLogger.Info("add node err", misc.Dict{"err": err, "tableSize": rtable.Size()})
		return
	}
	if err := rpcServer.Query(n.Addr, WithFindNodeMsg(txIdGenerator.Next(), localNodeId, localNodeId, genericRespHandler)); err != nil {
		dhtLogger.Error("recurve find node err", misc.Dict{"err": err, "tableSize": rtable.Size()})
	}
}

func pingRespHandler''')]),
("must-write",["C33"],[(B9,INIT,'	mustWrite(peerConn, withExtendedhandShake(misc.Dict{"ut_metadata": 1}, nil), "write extended handshake err")\n'),(B9,"// handshake, exchange info",'''func mustWrite(peerConn *PeerConn, data []byte, what string) {
	if _, err := peerConn.conn.Write(data); err != nil {
		fetchMetaLogger.Panic(what, misc.Dict{"laddr": peerConn.addr, "err": err})
	}
}

// handshake, exchange info''')]),
("check-helper",["C33"],[(B9,INIT,'	_, err := peerConn.conn.Write(withExtendedhandShake(misc.Dict{"ut_metadata": 1}, nil))\n	check(peerConn, err)\n'),(B9,"// handshake, exchange info",'''func check(peerConn *PeerConn, err error) {
	if err == nil {
		return
	}
	fetchMetaLogger.Panic("write extended handshake err", misc.Dict{"laddr": peerConn.addr, "err": err})
}

// handshake, exchange info''')]),
("err-first",["C33"],[(B9,'''	if keepAlive {
		// keep alive
		//fetchMetaLogger.Info("keep alive msg", misc.Dict{"laddr": laddr})
		return
	}
	if err != nil {
		fetchMetaLogger.Panic("read prefix length err", misc.Dict{"laddr": laddr, "err": err})
	}
''','''	if err != nil {
		fetchMetaLogger.Panic("read prefix length err", misc.Dict{"laddr": laddr, "err": err})
	}
	if keepAlive {
		return
	}
''')]),
("named",["C33"],[(B3,"func readBytesByPrefixLenMsg(reader io.Reader) (bool, []byte, error) {","func readBytesByPrefixLenMsg(reader io.Reader) (alive bool, data []byte, err error) {"),(B3,"	_, err := io.ReadFull(reader, preLenbytes)\n	if err != nil {\n		return false, nil, err\n	}\n","	if _, err = io.ReadFull(reader, preLenbytes); err != nil {\n		return\n	}\n")]),
("both-errs",["C33"],[(F,'''	_, err = file.Write(data)
	if err == nil {
		err = file.Chmod(0644)
	}
	if err == nil {
		err = file.Sync()
	}
	if closeErr := file.Close(); err == nil {
		err = closeErr
	}
	if err != nil {
		dhtLogger.Error("write file err", misc.Dict{"err": err})
		return
	}
''','''	if err := fill(file, data); err != nil {
		dhtLogger.Error("write file err", misc.Dict{"err": err})
		return
	}
'''),(F,"func flushTorrentFile",'''func fill(file *os.File, data []byte) error {
	defer file.Close()
	if _, err := file.Write(data); err != nil {
		return err
	}
	if err := file.Chmod(0644); err != nil {
		return err
	}
	return file.Sync()
}

func flushTorrentFile''')]),
("rename-if",["C33"],[(F,'''	err = os.Rename(file.Name(), filepath.Join(torrentDir, fileName+".torrent"))
	if err != nil {
''','''	if err = os.Rename(file.Name(), filepath.Join(torrentDir, fileName+".torrent")); err != nil {
''')]),
("errors-wrap",["C33"],[(U,SPK,SPK.replace("return err",'return fmt.Errorf("send: %w", err)')),(U,'	"log"\n','	"fmt"\n	"log"\n')]),
("tor-if",["C33"],[(T,'	misc.PanicSysErrNonNil(err, "open torrent file err", path)\n','	if err != nil {\n		misc.PanicSysErr("open torrent file err", err)\n	}\n')]),
("readdir",["C33"],[(T,'''			dirs, err := ioutil.ReadDir(path)
			misc.PanicSysErrNonNil(err, "open torrent dir err")
''','''			dirs := listDir(path)
'''),(T,"func printTorrentInfo",'''func listDir(path string) []os.FileInfo {
	dirs, err := ioutil.ReadDir(path)
	misc.PanicSysErrNonNil(err, "open torrent dir err")
	return dirs
}

func printTorrentInfo''')]),
("fetch-else",["C33"],[(F,FM+"	flushTorrentFile(hash, result)\n",FM.replace("	if err != nil {\n		return\n	}\n","	if err == nil {\n		flushTorrentFile(hash, result)\n	}\n"))]),
("fetch-switch",["C33"],[(F,FM,FM.replace("	if err != nil {\n		return\n	}\n",'	switch {\n	case err != nil:\n		dhtLogger.Info("fetch failed", misc.Dict{"err": err})\n		return\n	}\n'))]),
]
