B3='dht/peerwire/bep3.go'; B9='dht/peerwire/bep9.go'
C='C31'
CHK='''	if !strings.EqualFold(supportProtocolName, handShakeResp.Protocol()) {
		fetchMetaLogger.Panic("get handshake not support bittoroute protocol", misc.Dict{"laddr": laddr, "handShakeResp": handShakeResp})
	}
'''
EXT='''	if !handShakeResp.SupportExtended() {
		fetchMetaLogger.Panic("get handshake not support extended protocol", misc.Dict{"laddr": laddr, "handShakeResp": handShakeResp})
	}
'''
LEN='''	if PeerIdLen != len(peerId) || InfoHashLen != len(infoHash) {
		peerWireLogger.Panic("wrong peerId or infohash", misc.Dict{"peerIdLen": len(peerId), "infohashLen": len(infoHash)})
	}
'''
BYTES='''	var buf bytes.Buffer
	buf.Grow(handShakeLen)
	buf.WriteByte(byte(len(b.protocol)))
	buf.WriteString(b.protocol)
	buf.Write(b.rBytes)
	buf.Write(b.infoHash)
	buf.Write(b.peerId)
	return buf.Bytes()
'''
M=[
('swap-ids',C,[(B3,'	buf.Write(b.infoHash)\n	buf.Write(b.peerId)\n','	buf.Write(b.peerId)\n	buf.Write(b.infoHash)\n')]),
('swap-args',C,[(B9,'withHandShakeMsg(peerId, peerConn.infoHash)','withHandShakeMsg(peerConn.infoHash, peerId)')]),
('same-id-twice',C,[(B3,'	buf.Write(b.peerId)\n','	buf.Write(b.infoHash)\n')]),
('no-len-check',C,[(B3,LEN,'')]),
('len-and',C,[(B3,'PeerIdLen != len(peerId) || InfoHashLen','PeerIdLen != len(peerId) && InfoHashLen')]),
('len-sum',C,[(B3,'PeerIdLen != len(peerId) || InfoHashLen != len(infoHash)','PeerIdLen+InfoHashLen != len(peerId)+len(infoHash)')]),
('len-upper',C,[(B3,'InfoHashLen != len(infoHash)','InfoHashLen < len(infoHash)')]),
('writer-bit',C,[(B3,'bytes[5] = bytes[5] | 0x10','bytes[5] = bytes[5] | 0x01')]),
('writer-index',C,[(B3,'bytes[5] = bytes[5] | 0x10','bytes[7] = bytes[7] | 0x10')]),
('writer-plain',C,[(B3,'var reservedBytes = supportExterned(defaultReservedBytes)','var reservedBytes = defaultReservedBytes')]),
('writer-copy-lost',C,[(B3,'	bytes[5] = bytes[5] | 0x10\n	return bytes','	out := append([]byte(nil), bytes...)\n	bytes = append([]byte(nil), bytes...)\n	bytes[5] = bytes[5] | 0x10\n	return out')]),
('reserved7',C,[(B3,'0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00}','0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00}')]),
('name-case',C,[(B3,'"BitTorrent protocol"','"Bittorrent protocol"')]),
('no-name-check',C,[(B9,CHK,''),(B9,'	"strings"\n','')]),
('no-ext-check',C,[(B9,EXT,'')]),
('ext-inverted',C,[(B9,'if !handShakeResp.SupportExtended','if handShakeResp.SupportExtended')]),
('name-inverted',C,[(B9,'if !strings.EqualFold','if strings.EqualFold')]),
('name-log-only',C,[(B9,'fetchMetaLogger.Panic("get handshake not support bittoroute','fetchMetaLogger.Error("get handshake not support bittoroute')]),
('ext-log-only',C,[(B9,'fetchMetaLogger.Panic("get handshake not support ext','fetchMetaLogger.Error("get handshake not support ext')]),
('reader-mask',C,[(B3,'b.rBytes[5]&0x10 > 0','b.rBytes[5]&0x01 > 0')]),
('reader-index',C,[(B3,'b.rBytes[5]&0x10 > 0','b.rBytes[6]&0x10 > 0')]),
('reader-or',C,[(B3,'b.rBytes[5]&0x10 > 0','b.rBytes[5]|0x10 > 0')]),
('reader-ge',C,[(B3,'b.rBytes[5]&0x10 > 0','b.rBytes[5]&0x10 >= 0')]),
('parse-no-inc',C,[(B3,'	protocolLen := int(data[index])\n	index++\n','	protocolLen := int(data[index])\n')]),
('parse-order',C,[(B3,'''	infoHash := data[index : index+InfoHashLen]
	index += InfoHashLen
	peerId := data[index : index+PeerIdLen]
''','''	peerId := data[index : index+PeerIdLen]
	index += PeerIdLen
	infoHash := data[index : index+InfoHashLen]
''')]),
('parse-short-res',C,[(B3,'	index += len(reservedBytes)\n','	index += len(reservedBytes) - 1\n')]),
('parse-skip',C,[(B3,'	index += protocolLen\n','')]),
('parse-ctor-swap',C,[(B3,'NewBaseHandShakeMsg(string(protocol), rBytes, infoHash, peerId)','NewBaseHandShakeMsg(string(protocol), rBytes, peerId, infoHash)')]),
('len49',C,[(B3,'const handShakeLen = 68','const handShakeLen = 78')]),
('len-byte',C,[(B3,'buf.WriteByte(byte(len(b.protocol)))','buf.WriteByte(byte(len(b.protocol)+len(b.rBytes)))')]),
('own-name',C,[(B9,'strings.EqualFold(supportProtocolName, handShakeResp.Protocol())','strings.EqualFold(handShakeResp.Protocol(), handShakeResp.Protocol())')]),
('both-or',C,[(B9,CHK+EXT,'''	if !strings.EqualFold(supportProtocolName, handShakeResp.Protocol()) && !handShakeResp.SupportExtended() {
		fetchMetaLogger.Panic("get handshake not support", misc.Dict{"laddr": laddr, "handShakeResp": handShakeResp})
	}
''')]),
('early-ext-write',C,[(B9,'''	handshakePeer(peerId, peerConn)
	initialMessages(peerConn)
''','''	initialMessages(peerConn)
	handshakePeer(peerId, peerConn)
''')]),
]
R=[
('noop',[C],[(B9,'	laddr := peerConn.addr\n	_, err := peerConn.conn.Write(withHand','	laddr := peerConn.addr\n	_ = len(peerId)\n	_, err := peerConn.conn.Write(withHand')]),
('bytes-append',[C],[(B3,BYTES,'''	out := make([]byte, 0, handShakeLen)
	out = append(out, byte(len(b.protocol)))
	out = append(out, b.protocol...)
	out = append(out, b.rBytes...)
	out = append(out, b.infoHash...)
	return append(out, b.peerId...)
'''),(B3,'import (\n	"bytes"\n','import (\n')]),
('bytes-copy',[C],[(B3,BYTES,'''	out := make([]byte, handShakeLen)
	out[0] = byte(len(b.protocol))
	n := 1
	n += copy(out[n:], b.protocol)
	n += copy(out[n:], b.rBytes)
	n += copy(out[n:], b.infoHash)
	n += copy(out[n:], b.peerId)
	return out[:n]
'''),(B3,'import (\n	"bytes"\n','import (\n')]),
('two-writes',[C],[(B9,'''	_, err := peerConn.conn.Write(withHandShakeMsg(peerId, peerConn.infoHash))
''','''	hs := withHandShakeMsg(peerId, peerConn.infoHash)
	_, err := peerConn.conn.Write(hs)
''')]),
('split-checks',[C],[(B3,LEN,'''	if len(peerId) != PeerIdLen {
		peerWireLogger.Panic("wrong peerId", misc.Dict{"peerIdLen": len(peerId)})
	}
	if len(infoHash) != InfoHashLen {
		peerWireLogger.Panic("wrong infohash", misc.Dict{"infohashLen": len(infoHash)})
	}
''')]),
('helper-check',[C],[(B9,CHK+EXT,'''	verifyHandshake(laddr, handShakeResp)
'''),(B9,'// handshake, exchange info\n','''func verifyHandshake(laddr string, resp HandShakeMsg) {
	switch {
	case !resp.SupportExtended():
		fetchMetaLogger.Panic("no ext", misc.Dict{"laddr": laddr})
	case !strings.EqualFold(resp.Protocol(), supportProtocolName):
		fetchMetaLogger.Panic("no proto", misc.Dict{"laddr": laddr})
	}
}

// handshake, exchange info
''')]),
('accept-bool',[C],[(B9,CHK+EXT,'''	if ok := acceptable(handShakeResp); !ok {
		fetchMetaLogger.Panic("bad handshake", misc.Dict{"laddr": laddr})
	}
'''),(B9,'// handshake, exchange info\n','''func acceptable(resp HandShakeMsg) bool {
	return resp.SupportExtended() && resp.Protocol() == supportProtocolName
}

// handshake, exchange info
'''),(B9,'	"strings"\n','')]),
('bytes-equal',[C],[(B9,'!strings.EqualFold(supportProtocolName, handShakeResp.Protocol())','!bytes.Equal([]byte(supportProtocolName), []byte(handShakeResp.Protocol()))'),(B9,'	"strings"\n','')]),
('ext-eq',[C],[(B3,'b.rBytes[5]&0x10 > 0','b.rBytes[5]&0x10 == 0x10')]),
('ext-ne',[C],[(B3,'b.rBytes[5]&0x10 > 0','0x10&b.rBytes[5] != 0')]),
('ext-const',[C],[(B3,'return b.rBytes[5]&0x10 > 0','const extBit = byte(1 << 4)\n	flags := b.rBytes[5]\n	return flags&extBit != 0')]),
('ext-shift',[C],[(B3,'b.rBytes[5]&0x10 > 0','(b.rBytes[5]>>4)&1 == 1')]),
('parse-direct',[C],[(B3,'''	index := 0
	protocolLen := int(data[index])
	index++
	protocol := data[index : index+protocolLen]
	index += protocolLen
	rBytes := data[index : index+len(reservedBytes)]
	index += len(reservedBytes)
	infoHash := data[index : index+InfoHashLen]
	index += InfoHashLen
	peerId := data[index : index+PeerIdLen]
''','''	n := int(data[0])
	protocol := data[1 : 1+n]
	rest := data[1+n:]
	rBytes := rest[:8]
	infoHash := rest[8:28]
	peerId := rest[28:48]
''')]),
('parse-take',[C],[(B3,'''	index := 0
	protocolLen := int(data[index])
	index++
	protocol := data[index : index+protocolLen]
	index += protocolLen
	rBytes := data[index : index+len(reservedBytes)]
	index += len(reservedBytes)
	infoHash := data[index : index+InfoHashLen]
	index += InfoHashLen
	peerId := data[index : index+PeerIdLen]
''','''	protocolLen := int(data[0])
	rest := data[1:]
	take := func(n int) []byte {
		out := rest[:n]
		rest = rest[n:]
		return out
	}
	protocol := take(protocolLen)
	rBytes := take(8)
	infoHash := take(InfoHashLen)
	peerId := take(PeerIdLen)
''')]),
('array-buf',[C],[(B9,'''	readBytes := make([]byte, handShakeLen)
	_, err = io.ReadFull(peerConn.conn, readBytes)
''','''	var hsBuf [handShakeLen]byte
	readBytes := hsBuf[:]
	_, err = io.ReadFull(peerConn.conn, readBytes)
''')]),
('reserved-const',[C],[(B3,'var reservedBytes = supportExterned(defaultReservedBytes)','var reservedBytes = []byte{0, 0, 0, 0, 0, 0x10, 0, 0}')]),
('reserved-copy',[C],[(B3,'	bytes[5] = bytes[5] | 0x10\n	return bytes','	out := make([]byte, len(bytes))\n	copy(out, bytes)\n	out[5] |= 0x10\n	return out')]),
('errors',[C],[(B9,'	handShakeResp := parseHandShakeMsg(readBytes)\n'+CHK+EXT,'''	if err = checkReply(parseHandShakeMsg(readBytes)); err != nil {
		fetchMetaLogger.Panic("handshake", misc.Dict{"laddr": laddr, "err": err})
	}
'''),(B9,'// handshake, exchange info\n','''func checkReply(resp HandShakeMsg) error {
	if !strings.EqualFold(supportProtocolName, resp.Protocol()) {
		return errors.New("protocol")
	}
	if !resp.SupportExtended() {
		return errors.New("extended")
	}
	return nil
}

// handshake, exchange info
''')]),
('strict-name',[C],[(B3,'	protocolLen := int(data[index])\n','''	protocolLen := int(data[index])
	if protocolLen != len(supportProtocolName) {
		peerWireLogger.Panic("parseHandShakeMsg wrong protocol len", misc.Dict{"len": protocolLen})
	}
''')]),
]
