B9 = 'dht/peerwire/bep9.go'
B10 = 'dht/peerwire/bep10.go'
HS = 'binary.BigEndian.PutUint32(preLenBytes, uint32(len(dst)+2))'
PL = '	preLen := 2 + len(dst) + len(b.data)\n'
GET = '		exMsgId := supported.GetInteger("ut_metadata")\n'
CHK = '''		if exMsgId <= 0 || exMsgId > 255 {
			fetchMetaLogger.Panic("get extended handshake not support ut_metadata", misc.Dict{"laddr": laddr, "exMsgId": exMsgId})
		}
'''
SEND = 'withExtendedFetchMetaMsg(exMsgId, ExRequest, i, 0)'
M = [
 ('hs-len-1', 'C40', [(B10, HS, HS.replace('+2', '+1'))]),
 ('hs-len-6', 'C40', [(B10, HS, HS.replace('+2', '+6'))]),
 ('hs-le', 'C40', [(B10, HS, HS.replace('Big', 'Little'))]),
 ('hs-len16', 'C40', [(B10, HS, 'binary.BigEndian.PutUint16(preLenBytes, uint16(len(dst)+2))')]),
 ('hs-id', 'C40', [(B10, 'const handShakeMsgId = 0', 'const handShakeMsgId = 1'), (B9, '	case 0:\n', '	case handShakeMsgId:\n'), (B9, '	case 1:\n', '	case 3:\n')]),
 ('hs-type', 'C40', [(B10, 'buf.WriteByte(byte(ExtendedPeerMsg))', 'buf.WriteByte(byte(ExtendedPeerMsg)+1)')]),
 ('hs-noid', 'C40', [(B10, '	buf.WriteByte(byte(handShakeMsgId))  // MsgId = 0 extended handshake msg\n', ''), (B10, HS, HS.replace('+2', '+1'))]),
 ('req-len', 'C40', [(B9, PL, PL.replace('2 +', '1 +'))]),
 ('req-len-whole', 'C40', [(B9, 'uint32(preLen))', 'uint32(preLen+PrefixLen))')]),
 ('req-len-data', 'C40', [(B9, PL, '	preLen := 2 + len(dst) + len(b.data) + b.ExTotalSize + b.ExPieceNum\n')]),
 ('req-one', 'C40', [(B9, SEND, SEND.replace('exMsgId', '1'))]),
 ('req-swap', 'C40', [(B9, SEND, SEND.replace('exMsgId, ExRequest, i', 'i, ExRequest, exMsgId'))]),
 ('req-msgid', 'C40', [(B9, SEND, SEND.replace('exMsgId', 'msgId'))]),
 ('req-pex', 'C40', [(B9, GET, GET.replace('ut_metadata', 'ut_pex'))]),
 ('req-top', 'C40', [(B9, GET, GET.replace('supported', 'dict') + "		_ = supported\n")]),
 ('req-top2', 'C40', [(B10, 'return b.ExDict.GetDict("m")', 'return b.ExDict')]),
 ('req-nocheck', 'C40', [(B9, CHK, '')]),
 ('req-nozero', 'C40', [(B9, 'exMsgId <= 0 || exMsgId > 255', 'exMsgId < 0 || exMsgId > 255')]),
 ('req-wide', 'C40', [(B9, 'exMsgId <= 0 || exMsgId > 255', 'exMsgId <= 0 || exMsgId > 65535')]),
 ('req-and', 'C40', [(B9, 'exMsgId <= 0 || exMsgId > 255', 'exMsgId <= 0 && exMsgId > 255')]),
 ('req-error', 'C40', [(B9, CHK, CHK.replace('Panic', 'Error'))]),
 ('req-default', 'C40', [(B9, GET, '''		exMsgId := 1
		if supported.Exist("ut_metadata_id") {
			exMsgId = supported.GetInteger("ut_metadata")
		}
''')]),
 ('offer-name', 'C40', [(B9, '{"ut_metadata": 1}', '{"ut-metadata": 1}')]),
 ('offer-zero', 'C40', [(B9, '{"ut_metadata": 1}', '{"ut_metadata": 0}')]),
 ('offer-other', 'C40', [(B9, '{"ut_metadata": 1}', '{"ut_metadata": 2}')]),
 ('offer-pex', 'C40', [(B9, '{"ut_metadata": 1}', '{"ut_pex": 1, "ut_metadata": 2}')]),
 ('take-any', 'C40', [(B9, '	case 1:\n', '	default:\n'), (B9, '	default:\n		fetchMetaLogger.Info("fetch pexExtendedId wrong extend msg"', '	case 77:\n		fetchMetaLogger.Info("fetch pexExtendedId wrong extend msg"')]),
 ('take-2', 'C40', [(B9, '	case 1:\n', '	case 2:\n'), (B9, '	//pexExtendedId\n	case 2:\n', '	case 1:\n')]),
 ('take-12', 'C40', [(B9, '	case 1:\n', '	case 1, 3:\n')]),
 ('no-hs', 'C40', [(B9, '	initialMessages(peerConn)\n', '')]),
 ('hs-any', 'C40', [(B9, '	case 0:\n', '	case 0, 4:\n'), (B10, '|| handShakeMsgId != msgId {', '{')]),
 ('hs-m', 'C40', [(B10, '	dict["m"] = metadata\n', '	if len(metadata) > 1 {\n		dict["m"] = metadata\n	}\n')]),
 ('dup-byte', 'C40', [(B9, '	buf.WriteByte(byte(b.MsgId))\n', '	buf.WriteByte(byte(b.MsgId))\n	buf.WriteByte(byte(b.ExMsgType))\n')]),
]
R = [
 ('split-writes', ['C40', 'C35', 'C31', 'C21', 'C22'], [(B9, '''			_, err := peerConn.conn.Write(%s)
''' % SEND, '''			msg := %s
			_, err := peerConn.conn.Write(msg[:PrefixLen])
			if err == nil {
				_, err = peerConn.conn.Write(msg[PrefixLen:])
			}
''' % SEND)]),
 ('shifts', ['C40', 'C31'], [(B10, '	preLenBytes := make([]byte, 4)\n	' + HS + '\n	buf.Write(preLenBytes)\n', '''	n := uint32(len(dst) + 2)
	buf.Write([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)})
	_ = binary.BigEndian
''')]),
 ('append', ['C40', 'C35'], [(B9, '''	var buf bytes.Buffer
	buf.Grow(preLen + PrefixLen)
	buf.Write(preLenBytes)
	buf.WriteByte(byte(ExtendedPeerMsg)) // peer msg type, extended msg
	buf.WriteByte(byte(b.MsgId))
	buf.Write([]byte(dst))
	if len(b.data) > 0 {
		buf.Write(b.data)
	}
	return buf.Bytes()
''', '''	out := append([]byte{}, preLenBytes...)
	out = append(out, byte(ExtendedPeerMsg), byte(b.MsgId))
	out = append(out, dst...)
	return append(out, b.data...)
''')]),
 ('one-buffer', ['C40', 'C35'], [(B9, '''	preLenBytes := make([]byte, PrefixLen)
	binary.BigEndian.PutUint32(preLenBytes, uint32(preLen))

	var buf bytes.Buffer
	buf.Grow(preLen + PrefixLen)
	buf.Write(preLenBytes)
	buf.WriteByte(byte(ExtendedPeerMsg)) // peer msg type, extended msg
	buf.WriteByte(byte(b.MsgId))
	buf.Write([]byte(dst))
	if len(b.data) > 0 {
		buf.Write(b.data)
	}
	return buf.Bytes()
''', '''	out := make([]byte, PrefixLen+preLen)
	binary.BigEndian.PutUint32(out, uint32(preLen))
	out[PrefixLen] = byte(ExtendedPeerMsg)
	out[PrefixLen+1] = byte(b.MsgId)
	n := copy(out[PrefixLen+2:], dst)
	copy(out[PrefixLen+2+n:], b.data)
	return out
'''), (B9, '	"bytes"\n', '	"bytes"\n')]),
 ('helper', ['C40', 'C35', 'C33'], [(B9, GET + CHK, '		exMsgId := announcedId(supported, laddr)\n'), (B9, '// handle extend msg\n', '''func announcedId(supported misc.Dict, laddr string) int {
	id := supported.GetInteger("ut_metadata")
	if id > 0 && id <= 255 {
		return id
	}
	fetchMetaLogger.Panic("get extended handshake not support ut_metadata", misc.Dict{"laddr": laddr, "exMsgId": id})
	return 0
}

// handle extend msg
''')]),
 ('ifs', ['C40', 'C35'], [(B9, '	msgId := int(readBytes[1])\n	switch msgId {\n', '	msgId := readBytes[1]\n	switch {\n'), (B9, '	case 0:\n', '	case msgId == 0:\n'), (B9, '	case 1:\n', '	case msgId == 1:\n'), (B9, '	case 2:\n', '	case msgId == 2:\n')]),
 ('keep-const', ['C40'], [(B9, '{"ut_metadata": 1}', '{"ut_metadata": utMetadataId}'), (B9, '	case 1:\n', '	case utMetadataId:\n'), (B9, '// handle extend msg\n', 'const utMetadataId = 1\n\n// handle extend msg\n')]),
 ('direct', ['C40'], [(B9, GET, '		all := exHandShakeResp.Dict()\n		m := all.GetDict("m")\n		exMsgId := m.GetInteger("ut_metadata")\n'), (B9, '		supported := exHandShakeResp.Metadata()\n', '')]),
 ('hs-dict', ['C40'], [(B10, '	dict["m"] = metadata\n	return &BaseExHandShakeMsg{ExDict: dict}\n', '	m := &BaseExHandShakeMsg{ExDict: dict}\n	m.ExDict["m"] = metadata\n	return m\n')]),
 ('pex-too', ['C40'], [(B9, '{"ut_metadata": 1}', '{"ut_metadata": 1, "ut_pex": 2}')]),
 ('id-in-conn', ['C40', 'C35'], [('dht/peerwire/peer.go', '	metaDataSize ', '	utMetadataId int\n	metaDataSize '), (B9, CHK, CHK + '		peerConn.utMetadataId = exMsgId\n'), (B9, SEND, SEND.replace('exMsgId', 'peerConn.utMetadataId'))]),
]
