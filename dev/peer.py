B3="dht/peerwire/bep3.go"
B9="dht/peerwire/bep9.go"
PE="dht/peerwire/peer.go"
CHK="\tif !bytes.Equal(peerConn.infoHash, GenerateInfoHash(result)) {\n\t\tfetchMetaLogger.Error(\"chesum metadata not match\", misc.Dict{\"laddr\": laddr, \"metasize\": peerConn.metaDataSize})\n\t\treturn nil, errors.New(\"check sum err\")\n\t}\n"
DL="\tconn.SetReadDeadline(time.Now().Add(time.Second * 1))\n\tconn.SetWriteDeadline(time.Now().Add(time.Second * 10))\n"
DEFER="\tdefer func() {\n\t\tif err := recover(); err != nil {\n\t\t\t//debug.PrintStack()\n\t\t\tret = nil\n"
LOOPC="for !peerConn.CompledMetaData() && !peerConn.IsReadLoopExpire() {"
M=[
# C18
("no-check","C18",[(B9,"\tif !bytes.Equal(peerConn.infoHash, GenerateInfoHash(result)) {","\tif len(result) == 0 {")]),
("log-only","C18",[(B9,"\t\treturn nil, errors.New(\"check sum err\")\n","")]),
("inverted","C18",[(B9,"if !bytes.Equal(","if bytes.Equal(")]),
("self-compare","C18",[(B9,"bytes.Equal(peerConn.infoHash, GenerateInfoHash(result))","bytes.Equal(GenerateInfoHash(result), GenerateInfoHash(result))")]),
("peerid-compare","C18",[(B9,"bytes.Equal(peerConn.infoHash,","bytes.Equal(peerId,")]),
("prefix-compare","C18",[(B9,"bytes.Equal(peerConn.infoHash, GenerateInfoHash(result))","bytes.HasPrefix(GenerateInfoHash(result), peerConn.infoHash[:4])")]),
("slice-compare","C18",[(B9,"bytes.Equal(peerConn.infoHash, GenerateInfoHash(result))","bytes.Equal(peerConn.infoHash[:10], GenerateInfoHash(result)[:10])")]),
("err-with-bytes","C18",[(B9,"\t\treturn nil, errors.New(\"check sum err\")\n","\t\treturn result, errors.New(\"check sum err\")\n")]),
("return-trunc","C18",[(B9,"\treturn result, nil\n","\treturn result[:peerConn.metaDataSize], nil\n")]),
("recover-ok","C18",[(B9,"\t\t\tretErr = errors.New(\"FetchMetaData err\")\n","")]),
("skip-small","C18",[(B9,"\tif !bytes.Equal(peerConn.infoHash, GenerateInfoHash(result)) {","\tif len(result) > 16 && !bytes.Equal(peerConn.infoHash, GenerateInfoHash(result)) {")]),
("trim-after","C18",[(B9,"\treturn result, nil\n","\treturn bytes.TrimSpace(result), nil\n")]),
("hash-first-piece","C18",[(B9,"GenerateInfoHash(result))","GenerateInfoHash(peerConn.metaData[0]))")]),
("hash-from-peer","C18",[(B9,"\thandShakeResp := parseHandShakeMsg(readBytes)\n","\thandShakeResp := parseHandShakeMsg(readBytes)\n\tpeerConn.infoHash = handShakeResp.InfoHash()\n")]),
("zero-after","C18",[(B9,"\treturn result, nil\n","\tresult[0] = 'd'\n\treturn result, nil\n")]),
# C20
("plain-dial","C20",[(B9,'net.DialTimeout("tcp", laddr, 3*time.Second)','net.Dial("tcp", laddr)')]),
("zero-timeout","C20",[(B9,'laddr, 3*time.Second)','laddr, 0)')]),
("no-read-deadline","C20",[(B9,"\tconn.SetReadDeadline(time.Now().Add(time.Second * 1))\n","")]),
("no-write-deadline","C20",[(B9,"\tconn.SetWriteDeadline(time.Now().Add(time.Second * 10))\n","")]),
("deadline-late","C20",[(B9,DL,""),(B9,"\tinitialMessages(peerConn)\n","\tinitialMessages(peerConn)\n"+DL)]),
("clear-deadline","C20",[(B9,"\tinitialMessages(peerConn)\n","\tinitialMessages(peerConn)\n\tconn.SetDeadline(time.Time{})\n")]),
("no-expire","C20",[(B9,LOOPC,"for !peerConn.CompledMetaData() {")]),
("or-expire","C20",[(B9,LOOPC,"for !peerConn.CompledMetaData() || !peerConn.IsReadLoopExpire() {")]),
("expire-false","C20",[(PE,"\t\treturn true\n\tdefault:\n","\t\treturn false\n\tdefault:\n")]),
("expire-fresh","C20",[(PE,"\tcase <-p.timeoutChan:","\tcase <-time.After(p.expireTime):")]),
("no-close","C20",[(B9,"\t\tconn.Close()\n","")]),
("close-in-recover","C20",[(B9,"\t\t\tretErr = errors.New(\"FetchMetaData err\")\n\t\t}\n\t\tconn.Close()\n","\t\t\tretErr = errors.New(\"FetchMetaData err\")\n\t\t\tconn.Close()\n\t\t}\n")]),
("close-at-end","C20",[(B9,"\t\tconn.Close()\n\t}()","\t}()"),(B9,"\treturn result, nil\n","\tconn.Close()\n\treturn result, nil\n")]),
("close-not-on-panic","C20",[(B9,"\t\t\tretErr = errors.New(\"FetchMetaData err\")\n\t\t}\n","\t\t\tretErr = errors.New(\"FetchMetaData err\")\n\t\t\treturn\n\t\t}\n")]),
("do-while","C20",[(B9,"\tfor !peerConn.CompledMetaData() && !peerConn.IsReadLoopExpire() {\n\t\treadMetaDataHandler(peerConn)\n\t}","\tfor !peerConn.IsReadLoopExpire() {\n\t\treadMetaDataHandler(peerConn)\n\t}")]),
("check-after-read","C20",[(B9,"\tfor !peerConn.CompledMetaData() && !peerConn.IsReadLoopExpire() {\n\t\treadMetaDataHandler(peerConn)\n\t}","\tfor i := 0; ; i++ {\n\t\tif peerConn.CompledMetaData() || (i%64 == 0 && peerConn.IsReadLoopExpire()) {\n\t\t\treturn\n\t\t}\n\t\treadMetaDataHandler(peerConn)\n\t}")]),
("keepalive-inner","C20",[(B9,"\tkeepAlive, readBytes, err := readBytesByPrefixLenMsg(conn)\n","\tkeepAlive, readBytes, err := readBytesByPrefixLenMsg(conn)\n\tfor keepAlive && err == nil {\n\t\tconn.SetReadDeadline(time.Now().Add(time.Second))\n\t\tkeepAlive, readBytes, err = readBytesByPrefixLenMsg(conn)\n\t}\n")]),
("defer-late","C20",[(B9,"\t\tconn.Close()\n\t}()","\t}()"),(B9,"\tinitialMessages(peerConn)\n","\tdefer conn.Close()\n\tinitialMessages(peerConn)\n")]),
# C21
("short-read","C21",[(B3,"\t_, err = io.ReadFull(reader, buf[:preLen])\n","\t_, err = reader.Read(buf[:preLen])\n")]),
("short-prefix","C21",[(B3,"\t_, err := io.ReadFull(reader, preLenbytes)\n","\t_, err := reader.Read(preLenbytes)\n")]),
("short-hand","C21",[(B9,'\t"io"\n',''),(B9,"\t_, err = io.ReadFull(peerConn.conn, readBytes)\n","\t_, err = peerConn.conn.Read(readBytes)\n")]),
("read-atleast","C21",[(B3,"\t_, err = io.ReadFull(reader, buf[:preLen])\n","\t_, err = io.ReadAtLeast(reader, buf, int(preLen))\n")]),
("whole-buf","C21",[(B3,"io.ReadFull(reader, buf[:preLen])","io.ReadFull(reader, buf)")]),
("one-less","C21",[(B3,"io.ReadFull(reader, buf[:preLen])","io.ReadFull(reader, buf[:preLen-1])")]),
("return-buf","C21",[(B3,"return false, buf[:preLen], nil","return false, buf, nil")]),
("no-limit","C21",[(B3,"\tif preLen > maxReadLength {\n\t\treturn false, nil, errors.New(\"read input toolarge\")\n\t}\n\tbuf := peerBytesPool.GetBySize(maxReadLength)\n","\tbuf := make([]byte, preLen)\n"),(B3,'\t"errors"\n','')]),
("late-limit","C21",[(B3,"\tif preLen > maxReadLength {\n\t\treturn false, nil, errors.New(\"read input toolarge\")\n\t}\n\tbuf := peerBytesPool.GetBySize(maxReadLength)\n","\tbuf := make([]byte, preLen)\n"),(B3,"\treturn false, buf[:preLen], nil\n","\tif preLen > maxReadLength {\n\t\treturn false, nil, errors.New(\"read input toolarge\")\n\t}\n\treturn false, buf[:preLen], nil\n")]),
("small-limit","C21",[(B3,"const maxReadLength = 32 * 1024","const maxReadLength = 16 * 1024")]),
("little","C21",[(B3,"preLen := binary.BigEndian","preLen := binary.LittleEndian")]),
("zero-error","C21",[(B3,"\t\treturn true, nil, nil\n","\t\treturn false, nil, errors.New(\"empty\")\n")]),
("zero-not-keep","C21",[(B3,"\t\treturn true, nil, nil\n","\t\treturn false, nil, nil\n")]),
("no-zero","C21",[(B3,"\tif preLen <= 0 {\n\t\treturn true, nil, nil\n\t}\n","")]),
("bufio","C21",[(B3,"\tpreLenbytes :=","\treader = bufio.NewReader(reader)\n\tpreLenbytes :="),(B3,'import (\n','import (\n\t"bufio"\n')]),
("skip-large","C21",[(B3,"\t\treturn false, nil, errors.New(\"read input toolarge\")\n","\t\treturn true, nil, nil\n"),(B3,'\t"errors"\n','')]),
("prefix16","C21",[(B3,"preLen := binary.BigEndian.Uint32(preLenbytes)","preLen := uint32(binary.BigEndian.Uint16(preLenbytes[2:]))")]),
("one-is-keepalive","C21",[(B3,"if preLen <= 0 {","if preLen <= 1 {")]),
("hand-67","C21",[(B3,"const handShakeLen = 68","const handShakeLen = 67")]),
("incl-prefix","C21",[(B3,"\tpreLen := binary.BigEndian.Uint32(preLenbytes)\n","\tpreLen := binary.BigEndian.Uint32(preLenbytes) + PrefixLen\n")]),
("signed","C21",[(B3,"\tpreLen := binary.BigEndian.Uint32(preLenbytes)\n","\tpreLen := int32(binary.BigEndian.Uint32(preLenbytes))\n"),(B3,"if preLen <= 0 {","if preLen == 0 {"),(B3,"GetBySize(maxReadLength)","GetBySize(maxReadLength)")]),
("keepalive-on-err","C21",[(B3,"\t_, err = io.ReadFull(reader, buf[:preLen])\n\tif err != nil {\n\t\treturn false, nil, err\n\t}\n","\tn, err := io.ReadFull(reader, buf[:preLen])\n\tif err != nil && err != io.ErrUnexpectedEOF {\n\t\treturn false, nil, err\n\t}\n\tif n == 0 {\n\t\treturn true, nil, nil\n\t}\n")]),
]
P=["C18","C20","C21"]
R=[
("sum-array",P,[(B9,"!bytes.Equal(peerConn.infoHash, GenerateInfoHash(result))","sha1.Sum(result) != toArray(peerConn.infoHash)"),(B9,'\t"bytes"\n','\t"bytes"\n\t"crypto/sha1"\n'),(B9,"// read loop for communication","func toArray(b []byte) (a [20]byte) {\n\tcopy(a[:], b)\n\treturn\n}\n\n// read loop for communication")]),
("string-eq",P,[(B9,"!bytes.Equal(peerConn.infoHash, GenerateInfoHash(result))","string(peerConn.infoHash) != string(GenerateInfoHash(result))"),(B9,'\t"bytes"\n\t"encoding/binary"','\t"encoding/binary"'),(B9,"var buf bytes.Buffer","var buf bytes.Buffer")] if 0 else [(B9,"!bytes.Equal(peerConn.infoHash, GenerateInfoHash(result))","string(infoHash) != string(GenerateInfoHash(result))")]),
("hex-eq",P,[(B9,"!bytes.Equal(peerConn.infoHash, GenerateInfoHash(result))","hex.EncodeToString(infoHash) != hex.EncodeToString(GenerateInfoHash(result))")]),
("compare",P,[(B9,"!bytes.Equal(peerConn.infoHash, GenerateInfoHash(result))","bytes.Compare(peerConn.infoHash, GenerateInfoHash(result)) != 0")]),
("sha1-new",P,[(PE,"\tsha160 := sha1.Sum(bytes)\n\treturn sha160[:]\n","\th := sha1.New()\n\th.Write(bytes)\n\treturn h.Sum(nil)\n")]),
("positive",P,[(B9,CHK,""),(B9,"\tfetchMetaLogger.Info(\"chesum metadata match\", misc.Dict{\"laddr\": laddr, \"infohash\": hex.EncodeToString(peerConn.infoHash)})\n\n\treturn result, nil\n","\tif bytes.Equal(peerConn.infoHash, GenerateInfoHash(result)) {\n\t\tfetchMetaLogger.Info(\"chesum metadata match\", misc.Dict{\"laddr\": laddr, \"infohash\": hex.EncodeToString(peerConn.infoHash)})\n\t\treturn result, nil\n\t}\n\tfetchMetaLogger.Error(\"chesum metadata not match\", misc.Dict{\"laddr\": laddr})\n\treturn nil, errors.New(\"check sum err\")\n")]),
("helper-verify",P,[(B9,CHK,"\tif err := verify(peerConn, result); err != nil {\n\t\treturn nil, err\n\t}\n"),(B9,"// read loop for communication","func verify(c *PeerConn, result []byte) error {\n\tif !bytes.Equal(c.infoHash, GenerateInfoHash(result)) {\n\t\treturn errors.New(\"check sum err\")\n\t}\n\treturn nil\n}\n\n// read loop for communication")]),
("helper-merge",P,[(B9,"\tresult := make([]byte, 0, peerConn.metaDataSize)\n\tfor i := 0; i < len(peerConn.requestedMetaData); i++ {\n\t\tresult = append(result, peerConn.metaData[i]...)\n\t}\n","\tresult := merge(peerConn)\n"),(B9,"// read loop for communication","func merge(c *PeerConn) []byte {\n\tvar result []byte\n\tfor _, piece := range c.metaData {\n\t\tresult = append(result, piece...)\n\t}\n\treturn result\n}\n\n// read loop for communication")]),
("bytes-join",P,[(B9,"\tresult := make([]byte, 0, peerConn.metaDataSize)\n\tfor i := 0; i < len(peerConn.requestedMetaData); i++ {\n\t\tresult = append(result, peerConn.metaData[i]...)\n\t}\n","\tresult := bytes.Join(peerConn.metaData, nil)\n")]),
("split-fn",P,[(B9,"\tpeerConn := NewPeerConn(laddr, conn, infoHash, time.Second*10)\n\thandshakePeer(","\treturn download(laddr, conn, peerId, infoHash)\n}\n\nfunc download(laddr string, conn net.Conn, peerId, infoHash []byte) ([]byte, error) {\n\tpeerConn := NewPeerConn(laddr, conn, infoHash, time.Second*10)\n\thandshakePeer(")]),
("two-defers",P,[(B9,"\t\tconn.Close()\n\t}()","\t}()"),(B9,DEFER,"\tdefer conn.Close()\n"+DEFER)]),
("close-first",P,[(B9,"\t\tconn.Close()\n\t}()","\t}()"),(B9,DEFER,"\tdefer func() {\n\t\tconn.Close()\n\t\tif err := recover(); err != nil {\n\t\t\tret = nil\n")]),
("one-deadline",P,[(B9,DL,"\tif err := conn.SetDeadline(time.Now().Add(time.Second * 10)); err != nil {\n\t\treturn nil, err\n\t}\n")]),
("dialer",P,[(B9,'net.DialTimeout("tcp", laddr, 3*time.Second)','(&net.Dialer{Timeout: 3 * time.Second}).Dial("tcp", laddr)')]),
("deadline-const",P,[(B9,'3*time.Second)','dialTimeout)'),(B9,"var fetchMetaLogger","const dialTimeout = 3 * time.Second\n\nvar fetchMetaLogger")]),
("deadline-per-msg",P,[(B9,"\t\treadMetaDataHandler(peerConn)\n","\t\tpeerConn.conn.SetReadDeadline(time.Now().Add(time.Second))\n\t\treadMetaDataHandler(peerConn)\n")]),
("since",P,[(PE,"\tselect {\n\tcase <-p.timeoutChan:\n\t\treturn true\n\tdefault:\n\t\treturn false\n\t}\n","\treturn time.Since(p.connTimeStamp) > p.expireTime\n")]),
("after",P,[(PE,"\tselect {\n\tcase <-p.timeoutChan:\n\t\treturn true\n\tdefault:\n\t\treturn false\n\t}\n","\treturn time.Now().After(p.connTimeStamp.Add(p.expireTime))\n")]),
("loop-if",P,[(B9,"\tfor !peerConn.CompledMetaData() && !peerConn.IsReadLoopExpire() {\n\t\treadMetaDataHandler(peerConn)\n\t}","\tfor {\n\t\tif peerConn.CompledMetaData() {\n\t\t\treturn\n\t\t}\n\t\tif peerConn.IsReadLoopExpire() {\n\t\t\tbreak\n\t\t}\n\t\treadMetaDataHandler(peerConn)\n\t}")]),
("loop-swap",P,[(B9,LOOPC,"for !peerConn.IsReadLoopExpire() && !peerConn.CompledMetaData() {")]),
("inline-select",P,[(B9,"\tfor !peerConn.CompledMetaData() && !peerConn.IsReadLoopExpire() {\n\t\treadMetaDataHandler(peerConn)\n\t}","\tfor !peerConn.CompledMetaData() {\n\t\tselect {\n\t\tcase <-peerConn.timeoutChan:\n\t\t\treturn\n\t\tdefault:\n\t\t}\n\t\treadMetaDataHandler(peerConn)\n\t}")]),
("inline-loop",P,[(B9,"\treadMetaDataLoop(peerConn)\n","\tfor !peerConn.CompledMetaData() && !peerConn.IsReadLoopExpire() {\n\t\treadMetaDataHandler(peerConn)\n\t}\n")]),
("goto-recursion",P,[(B3,"io.ReadFull(reader, buf[:preLen])","io.ReadAtLeast(reader, buf[:preLen], int(preLen))")]),
("binary-read",P,[(B3,"\tpreLenbytes := peerBytesPool.GetBySize(PrefixLen)\n\t_, err := io.ReadFull(reader, preLenbytes)\n","\tvar preLen uint32\n\terr := binary.Read(reader, binary.BigEndian, &preLen)\n"),(B3,"\tpreLen := binary.BigEndian.Uint32(preLenbytes)\n",""),(B3,"\tpeerBytesPool.Put(preLenbytes)\n","")]),
("array-prefix",P,[(B3,"\tpreLenbytes := peerBytesPool.GetBySize(PrefixLen)\n\t_, err := io.ReadFull(reader, preLenbytes)\n","\tvar preLenbytes [PrefixLen]byte\n\t_, err := io.ReadFull(reader, preLenbytes[:])\n"),(B3,"Uint32(preLenbytes)","Uint32(preLenbytes[:])"),(B3,"\tpeerBytesPool.Put(preLenbytes)\n","")]),
("make-body",P,[(B3,"buf := peerBytesPool.GetBySize(maxReadLength)","buf := make([]byte, preLen)")]),
("int-len",P,[(B3,"preLen := binary.BigEndian.Uint32(preLenbytes)","preLen := int(binary.BigEndian.Uint32(preLenbytes))")]),
("sub-slice",P,[(B3,"\tbuf := peerBytesPool.GetBySize(maxReadLength)\n","\tbuf := peerBytesPool.GetBySize(maxReadLength)[:preLen]\n"),(B3,"buf[:preLen])","buf)"),(B3,"return false, buf[:preLen], nil","return false, buf, nil")]),
("helper-readn",P,[(B3,"\t_, err = io.ReadFull(reader, buf[:preLen])\n\tif err != nil {\n\t\treturn false, nil, err\n\t}\n\treturn false, buf[:preLen], nil\n","\tmsg, err := readN(reader, buf, preLen)\n\treturn false, msg, err\n"),(B3,"// without prefix bytes","func readN(reader io.Reader, buf []byte, n uint32) ([]byte, error) {\n\tif _, err := io.ReadFull(reader, buf[:n]); err != nil {\n\t\treturn nil, err\n\t}\n\treturn buf[:n], nil\n}\n\n// without prefix bytes")]),
("limit-const-64k",P,[(B3,"const maxReadLength = 32 * 1024","const maxReadLength = 1 << 15")]),
("loop-body",P,[(B3,"\t_, err = io.ReadFull(reader, buf[:preLen])\n\tif err != nil {\n\t\treturn false, nil, err\n\t}\n","\tfor got := 0; got < int(preLen); {\n\t\tn, err := reader.Read(buf[got:preLen])\n\t\tif err != nil {\n\t\t\treturn false, nil, err\n\t\t}\n\t\tgot += n\n\t}\n")]),
("bufio-once",P,[(B9,"\treadBytes := make([]byte, handShakeLen)\n\t_, err = io.ReadFull(peerConn.conn, readBytes)","\treadBytes := make([]byte, handShakeLen)\n\t_, err = io.ReadFull(peerConn.reader, readBytes)"),(B9,"readBytesByPrefixLenMsg(conn)","readBytesByPrefixLenMsg(peerConn.reader)"),(B9,"\tconn := peerConn.conn\n",""),(PE,"\tinfoHash          []byte\n","\tinfoHash          []byte\n\treader            *bufio.Reader\n"),(PE,"\t\tinfoHash:          infoHash,\n","\t\tinfoHash:          infoHash,\n\t\treader:            bufio.NewReader(conn),\n"),(PE,'import (\n','import (\n\t"bufio"\n')]),
]
