FT="dht/fetchtorrent.go"; B3="dht/peerwire/bep3.go"; B9="dht/peerwire/bep9.go"; UD="dht/krpc/udp.go"
M=[
("b7-partial-any","C19",[(FT,"	_, err = file.Write(data)\n","	if n, werr := file.Write(data); n == 0 {\n		err = werr\n	}\n")]),
("b7-partial-half","C19",[(FT,"	_, err = file.Write(data)\n","	if n, werr := file.Write(data); n < len(data)/2 {\n		err = werr\n	}\n")]),
("b7-trim-plus","C39",[("misc/beancode.go","strconv.Itoa(result) != src[start+1:i] {","strconv.Itoa(result) != strings.TrimLeft(src[start+1:i], \"+\") {")]),
("b7-trim-zero","C39",[("misc/beancode.go","strconv.Itoa(slen) != src[start:idx] {","strconv.Itoa(slen) != strings.TrimLeft(src[start:idx], \"0\") && slen != 0 {")]),
# partial reads and writes
("b7-prefix-partial","C21",[(B3,"	_, err := io.ReadFull(reader, preLenbytes)\n	if err != nil {","	n, err := io.ReadFull(reader, preLenbytes)\n	if err != nil && n == 0 {")]),
("b7-prefix-eof","C21",[(B3,"	_, err := io.ReadFull(reader, preLenbytes)\n	if err != nil {","	_, err := io.ReadFull(reader, preLenbytes)\n	if err != nil && err != io.ErrUnexpectedEOF {")]),
("b7-body-partial","C21",[(B3,"	_, err = io.ReadFull(reader, buf[:preLen])\n	if err != nil {\n		return false, nil, err\n	}\n","	if n, err := io.ReadFull(reader, buf[:preLen]); n == 0 {\n		return false, nil, err\n	}\n")]),
("b7-body-n","C21",[(B3,"	_, err = io.ReadFull(reader, buf[:preLen])\n	if err != nil {\n		return false, nil, err\n	}\n	return false, buf[:preLen], nil","	n, err := io.ReadFull(reader, buf[:preLen])\n	if n == 0 {\n		return false, nil, err\n	}\n	return false, buf[:n], nil")]),
("b7-hs-partial","C21",[(B9,"	_, err = io.ReadFull(peerConn.conn, readBytes)\n","	n := 0\n	n, err = io.ReadFull(peerConn.conn, readBytes)\n	if n > 48 {\n		err = nil\n	}\n")]),
("b7-req-partial","C33",[(B9,"			_, err := peerConn.conn.Write(withExtendedFetchMetaMsg(exMsgId, ExRequest, i, 0))\n			if err != nil {","			n, err := peerConn.conn.Write(withExtendedFetchMetaMsg(exMsgId, ExRequest, i, 0))\n			if err != nil && n == 0 {")]),
]
R=[
("r7-trim-eq",["C39"],[("misc/beancode.go","strconv.Itoa(slen) != src[start:idx] {","strings.TrimLeft(src[start:idx], \"+0\") != src[start:idx] && src[start:idx] != \"0\" {")]),
("r7-n-check",None,[(FT,"	_, err = file.Write(data)\n","	n, err := file.Write(data)\n	if err == nil && n < len(data) {\n		err = io.ErrShortWrite\n	}\n"),(FT,"	\"io/ioutil\"\n","	\"io\"\n	\"io/ioutil\"\n")]),
("r7-n-only",["C19","C18"],[(FT,"	_, err = file.Write(data)\n","	if n, werr := file.Write(data); n != len(data) {\n		err = werr\n	}\n")]),
("r7-copy",["C19","C18"],[(FT,"	_, err = file.Write(data)\n","	_, err = io.Copy(file, bytes.NewReader(data))\n"),(FT,"	\"io/ioutil\"\n","	\"bytes\"\n	\"io\"\n	\"io/ioutil\"\n")]),
]
