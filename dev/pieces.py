B9="dht/peerwire/bep9.go"
PE="dht/peerwire/peer.go"
CNT="\t\tpieceCount := metaSize / SizeOf16KB\n\t\tif metaSize%SizeOf16KB > 0 {\n\t\t\tpieceCount++\n\t\t}\n"
CEIL="\t\tpieceCount := (metaSize + SizeOf16KB - 1) / SizeOf16KB\n"
STORE="\t\tpeerConn.metaData[pieceNum] = append([]byte(nil), fetchMetaResp.Data()...)\n"
MARK="\t\tpeerConn.requestedMetaData[pieceNum] = true\n"
MK="\t\tpeerConn.metaData = make([][]byte, pieceCount)\n"
MF="\t\tpeerConn.requestedMetaData = make([]bool, pieceCount)\n"
LOOP="\t\tfor i := 0; i < pieceCount; i++ {\n\t\t\tpeerConn.requestedMetaData[i] = false\n\t\t\t// request piece\n\t\t\t_, err := peerConn.conn.Write(withExtendedFetchMetaMsg(exMsgId, ExRequest, i, 0))\n\t\t\tif err != nil {\n\t\t\t\tfetchMetaLogger.Panic(\"write request piece err\", misc.Dict{\"laddr\": laddr, \"err\": err})\n\t\t\t}\n\t\t}\n"
FOR="\t\tfor i := 0; i < pieceCount; i++ {\n"
REJ="\t\tif ExData != fetchMetaResp.MsgType() {\n\t\t\tfetchMetaLogger.Error(\"get extended piece wrong format\", misc.Dict{\"laddr\": laddr, \"fetchMetaResp\": fetchMetaResp})\n\t\t\treturn\n\t\t}\n"
JOIN="\tresult := make([]byte, 0, peerConn.metaDataSize)\n\tfor i := 0; i < len(peerConn.requestedMetaData); i++ {\n\t\tresult = append(result, peerConn.metaData[i]...)\n\t}\n"
JF="\tfor i := 0; i < len(peerConn.requestedMetaData); i++ {\n"
JB="\t\tresult = append(result, peerConn.metaData[i]...)\n"
CHKC="\tif !peerConn.CompledMetaData() {\n\t\treturn nil, errors.New(\"cannot completed download metadata\")\n\t}\n"
CM="\tfor _, v := range p.requestedMetaData {\n\t\tif !v {\n\t\t\treturn false\n\t\t}\n\t}\n\treturn true\n"
M=[
("idx-plus","C35",[(B9,STORE,STORE.replace("[pieceNum]","[pieceNum+1]"))]),
("idx-mark-plus","C35",[(B9,MARK,MARK.replace("[pieceNum]","[pieceNum-1]"))]),
("idx-mod","C35",[(B9,"\t\tpieceNum := fetchMetaResp.PieceNum()\n","\t\tpieceNum := fetchMetaResp.PieceNum() % len(peerConn.metaData)\n")]),
("idx-counter","C35",[(B9,STORE,"\t\tnext := 0\n\t\tfor next < len(peerConn.requestedMetaData)-1 && peerConn.requestedMetaData[next] {\n\t\t\tnext++\n\t\t}\n"+STORE.replace("[pieceNum]","[next]"))]),
("idx-totalsize","C35",[(B9,"\t\tpieceNum := fetchMetaResp.PieceNum()\n","\t\tpieceNum := fetchMetaResp.TotalSize() / SizeOf16KB\n")]),
("no-mark","C35",[(B9,MARK,"")]),
("mark-only","C35",[(B9,STORE,"\t\tif len(fetchMetaResp.Data()) == SizeOf16KB {\n\t"+STORE+"\t\t}\n")]),
("mark-if-full","C35",[(B9,MARK,"\t\tif len(fetchMetaResp.Data()) == SizeOf16KB {\n\t"+MARK+"\t\t}\n")]),
("mark-all","C35",[(B9,"\t\t\tpeerConn.requestedMetaData[i] = false\n","\t\t\tpeerConn.requestedMetaData[i] = i > 0\n")]),
("floor","C35",[(B9,CNT,"\t\tpieceCount := metaSize / SizeOf16KB\n")]),
("plus1","C35",[(B9,CNT,"\t\tpieceCount := metaSize/SizeOf16KB + 1\n")]),
("ge0","C35",[(B9,"if metaSize%SizeOf16KB > 0 {","if metaSize%SizeOf16KB >= 0 {")]),
("gt1","C35",[(B9,"if metaSize%SizeOf16KB > 0 {","if metaSize%SizeOf16KB > 1 {")]),
("size32","C35",[(B9,CNT,"\t\tpieceCount := (metaSize + 2*SizeOf16KB - 1) / (2 * SizeOf16KB)\n")]),
("size-const","C35",[(B9,"const SizeOf16KB = 16 * 1024","const SizeOf16KB = 16 * 1000")]),
("from1","C35",[(B9,FOR,FOR.replace("i := 0","i := 1"))]),
("to-n-1","C35",[(B9,FOR,FOR.replace("i < pieceCount","i < pieceCount-1"))]),
("step2","C35",[(B9,FOR,FOR.replace("i++","i += 2"))]),
("skip-8","C35",[(B9,"\t\t\t// request piece\n","\t\t\tif i == 8 {\n\t\t\t\tcontinue\n\t\t\t}\n")]),
("cap-64","C35",[(B9,"\t\t\t// request piece\n","\t\t\tif i >= 64 {\n\t\t\t\tbreak\n\t\t\t}\n")]),
("req-fixed","C35",[(B9,"withExtendedFetchMetaMsg(exMsgId, ExRequest, i, 0)","withExtendedFetchMetaMsg(exMsgId, ExRequest, 0, 0)")]),
("req-type","C35",[(B9,"withExtendedFetchMetaMsg(exMsgId, ExRequest, i, 0)","withExtendedFetchMetaMsg(1, ExReject, i, 0)")]),
("rej-stored","C35",[(B9,REJ,"")]),
("rej-inv","C35",[(B9,"if ExData != fetchMetaResp.MsgType()","if ExReject == fetchMetaResp.MsgType()")]),
("rej-noreturn","C35",[(B9,REJ,REJ.replace("\t\t\treturn\n",""))]),
("desc","C35",[(B9,JOIN,JOIN.replace("i := 0; i < len(peerConn.requestedMetaData); i++","i := len(peerConn.requestedMetaData) - 1; i >= 0; i--"))]),
("prepend","C35",[(B9,JB,"\t\tresult = append(append([]byte(nil), peerConn.metaData[i]...), result...)\n")]),
("join-from1","C35",[(B9,JF,JF.replace("i := 0","i := 1"))]),
("join-n-1","C35",[(B9,JF,JF.replace("i < len(peerConn.requestedMetaData)","i < len(peerConn.requestedMetaData)-1"))]),
("join-skip","C35",[(B9,JB,"\t\tif len(peerConn.metaData[i]) < SizeOf16KB {\n\t\t\tcontinue\n\t\t}\n"+JB)]),
("join-break","C35",[(B9,JB,JB+"\t\tif len(result) >= 64*SizeOf16KB {\n\t\t\tbreak\n\t\t}\n")]),
("nocheck","C35",[(B9,CHKC,"")]),
("done-first","C35",[(PE,CM,"\tfor _, v := range p.requestedMetaData {\n\t\tif v {\n\t\t\treturn true\n\t\t}\n\t}\n\treturn false\n")]),
("done-last","C35",[(PE,CM,"\tfor i := 0; i < len(p.requestedMetaData)-1; i++ {\n\t\tif !p.requestedMetaData[i] {\n\t\t\treturn false\n\t\t}\n\t}\n\treturn true\n")]),
("done-onlylast","C35",[(PE,CM,"\treturn p.requestedMetaData[len(p.requestedMetaData)-1]\n")]),
("done-count","C35",[(PE,CM,"\tn := 0\n\tfor _, v := range p.requestedMetaData {\n\t\tif v {\n\t\t\tn++\n\t\t}\n\t}\n\treturn n >= len(p.requestedMetaData)-1\n")]),
("done-limit","C35",[(PE,"\t\tif !v {\n","\t\tif !v && p.metaDataSize > 0 {\n")]),
("empty-flags","C35",[(PE,"[]bool{false}","[]bool{}")]),
("nil-flags","C35",[(PE,"\t\trequestedMetaData: []bool{false},\n","")]),
("true-flags","C35",[(PE,"[]bool{false}","[]bool{true}")]),
("one-list","C35",[(B9,MK,"")]),
("one-list2","C35",[(B9,MF,"\t\tif len(peerConn.requestedMetaData) < pieceCount {\n\t"+MF+"\t\t}\n")]),
("len-diff","C35",[(B9,MF,"\t\tpeerConn.requestedMetaData = make([]bool, pieceCount+1)\n")]),
("data-off","C35",[(B9,"totalSize, data[next:])","totalSize, data[next+1:])")]),
("data-next","C35",[(B9,"\tnext += 2\n","\tnext += 1\n")]),
("data-all","C35",[(B9,"totalSize, data[next:])","totalSize, data)")]),
]
R=[
("r-ceil",["C35"],[(B9,CNT,CEIL)]),
("r-ceil2",["C35"],[(B9,CNT,"\t\tpieceCount := (metaSize-1)/SizeOf16KB + 1\n")]),
("r-ne0",["C35"],[(B9,"if metaSize%SizeOf16KB > 0 {","if metaSize%SizeOf16KB != 0 {")]),
("r-mul",["C35"],[(B9,"if metaSize%SizeOf16KB > 0 {","if rest := metaSize % SizeOf16KB; rest > 0 {")]),
("r-ceil-helper",["C35"],[(B9,CNT,"\t\tpieceCount := countPieces(metaSize)\n"),(B9,"// handle extend msg\n","func countPieces(n int) int {\n\tc := n / SizeOf16KB\n\tif n%SizeOf16KB == 0 {\n\t\treturn c\n\t}\n\treturn c + 1\n}\n\n// handle extend msg\n")]),
("r-mark-first",["C35"],[(B9,STORE,MARK+STORE),(B9,STORE+MARK,STORE)]),
("r-make-order",["C35"],[(B9,MK+MF,MF+MK)]),
("r-noreset",["C35"],[(B9,"\t\t\tpeerConn.requestedMetaData[i] = false\n","")]),
("r-range-req",["C35"],[(B9,FOR,"\t\tfor i := range peerConn.requestedMetaData {\n")]),
("r-range-req2",["C35"],[(B9,FOR,"\t\tfor i := range peerConn.metaData {\n")]),
("r-le",["C35"],[(B9,FOR,"\t\tfor i := 0; i <= pieceCount-1; i++ {\n")]),
("r-inline-loop",["C35"],[(B9,FOR,"\t\tn := 0\n\t\tfor n < pieceCount {\n\t\t\ti := n\n\t\t\tn++\n")]),
("r-helper-req",["C35"],[(B9,LOOP,"\t\trequestPieces(peerConn, exMsgId, pieceCount)\n"),(B9,"// handle extend msg\n","func requestPieces(peerConn *PeerConn, exMsgId int, pieceCount int) {\n\tladdr := peerConn.addr\n"+LOOP.replace("\n\t","\n")[1:]+"}\n\n// handle extend msg\n")]),
("r-helper-store",["C35"],[(B9,STORE+MARK,"\t\tpeerConn.put(pieceNum, fetchMetaResp.Data())\n"),(PE,"func (p *PeerConn) CompledMetaData","func (p *PeerConn) put(n int, b []byte) {\n\tc := make([]byte, len(b))\n\tcopy(c, b)\n\tp.metaData[n] = c\n\tp.requestedMetaData[n] = true\n}\n\nfunc (p *PeerConn) CompledMetaData")]),
("r-switch-type",["C35"],[(B9,REJ,"\t\tswitch fetchMetaResp.MsgType() {\n\t\tcase ExData:\n\t\tdefault:\n\t\t\treturn\n\t\t}\n")]),
("r-if-data",["C35"],[(B9,REJ+"\t\tpieceNum := fetchMetaResp.PieceNum()\n\t\t// copy, the data lies in a pooled buffer that is reused for the next message\n"+STORE+MARK,"\t\tif fetchMetaResp.MsgType() == ExData {\n\t\tpieceNum := fetchMetaResp.PieceNum()\n"+STORE+MARK+"\t\t}\n")]),
("r-join-range",["C35"],[(B9,JF+JB,"\tfor _, piece := range peerConn.metaData {\n\t\tresult = append(result, piece...)\n")]),
("r-join-range2",["C35"],[(B9,JF,"\tfor i := range peerConn.metaData {\n")]),
("r-join-buffer",["C35"],[(B9,JOIN,"\tvar buf bytes.Buffer\n\tfor i := 0; i < len(peerConn.requestedMetaData); i++ {\n\t\tbuf.Write(peerConn.metaData[i])\n\t}\n\tresult := buf.Bytes()\n")]),
("r-join-join",["C35"],[(B9,JOIN,"\tresult := bytes.Join(peerConn.metaData, nil)\n")]),
("r-join-helper",["C35"],[(B9,JOIN,"\tresult := peerConn.merge()\n"),(PE,"func (p *PeerConn) CompledMetaData","func (p *PeerConn) merge() []byte {\n\tvar out []byte\n\tfor _, m := range p.metaData {\n\t\tout = append(out, m...)\n\t}\n\treturn out\n}\n\nfunc (p *PeerConn) CompledMetaData")]),
("r-done-idx",["C35"],[(PE,CM,"\tfor i := 0; i < len(p.requestedMetaData); i++ {\n\t\tif !p.requestedMetaData[i] {\n\t\t\treturn false\n\t\t}\n\t}\n\treturn true\n")]),
("r-done-cont",["C35"],[(PE,CM,"\tfor _, v := range p.requestedMetaData {\n\t\tif v {\n\t\t\tcontinue\n\t\t}\n\t\treturn false\n\t}\n\treturn true\n")]),
("r-done-flag",["C35"],[(PE,CM,"\tdone := true\n\tfor _, v := range p.requestedMetaData {\n\t\tif !v {\n\t\t\tdone = false\n\t\t\tbreak\n\t\t}\n\t}\n\treturn done\n")]),
("r-done-and",["C35"],[(PE,CM,"\tdone := true\n\tfor _, v := range p.requestedMetaData {\n\t\tdone = done && v\n\t}\n\treturn done\n")]),
("r-done-count",["C35"],[(PE,CM,"\tn := 0\n\tfor _, v := range p.requestedMetaData {\n\t\tif v {\n\t\t\tn++\n\t\t}\n\t}\n\treturn n == len(p.requestedMetaData)\n")]),
("r-flags-make",["C35"],[(PE,"[]bool{false}","make([]bool, 1)")]),
("r-copy-make",["C35"],[(B9,STORE,"\t\tpiece := make([]byte, len(fetchMetaResp.Data()))\n\t\tcopy(piece, fetchMetaResp.Data())\n\t\tpeerConn.metaData[pieceNum] = piece\n")]),
("r-loop-for",["C35"],[(B9,"\tfor !peerConn.CompledMetaData() && !peerConn.IsReadLoopExpire() {\n\t\treadMetaDataHandler(peerConn)\n\t}\n","\tfor {\n\t\tif peerConn.CompledMetaData() || peerConn.IsReadLoopExpire() {\n\t\t\treturn\n\t\t}\n\t\treadMetaDataHandler(peerConn)\n\t}\n")]),
]
