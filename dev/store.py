FT="dht/fetchtorrent.go"
MK="\tif err := os.MkdirAll(torrentDir, os.ModePerm); err != nil {\n\t\tdhtLogger.Error(\"create torrent dir err\", misc.Dict{\"err\": err})\n\t\treturn\n\t}\n"
TMP="\tfile, err := ioutil.TempFile(torrentDir, fileName+\".*.tmp\")\n"
WR="\t_, err = file.Write(data)\n"
CH="\tif err == nil {\n\t\terr = file.Chmod(0644)\n\t}\n"
SY="\tif err == nil {\n\t\terr = file.Sync()\n\t}\n"
CL="\tif closeErr := file.Close(); err == nil {\n\t\terr = closeErr\n\t}\n"
WE="\tif err != nil {\n\t\tdhtLogger.Error(\"write file err\", misc.Dict{\"err\": err})\n\t\treturn\n\t}\n"
RN="\terr = os.Rename(file.Name(), filepath.Join(torrentDir, fileName+\".torrent\"))\n"
ERRC="\tif err != nil {\n\t\treturn\n\t}\n\tflushTorrentFile(hash, result)\n"
HASH="\thash := hex.EncodeToString([]byte(infoHash))\n"
FM="\tresult, err := peerwire.FetchMetaData(laddr, peerwire.LocalPeerId, misc.Str2Bytes(infoHash))\n"
ADDR="\tport := body.GetInteger(\"port\")\n\tuseUdpPort := false\n\tif body.Exist(\"implied_port\") && body.GetInteger(\"implied_port\") > 0 {\n\t\tuseUdpPort = true\n\t}\n\tladdr := net.JoinHostPort(ctx.RemoteAddr().IP.String(), strconv.Itoa(port))\n\tif useUdpPort {\n\t\tladdr = ctx.RemoteAddr().String()\n\t}\n\treturn laddr\n"
IMP='if body.Exist("implied_port") && body.GetInteger("implied_port") > 0 {'
LA="\tladdr := net.JoinHostPort(ctx.RemoteAddr().IP.String(), strconv.Itoa(port))\n"
UD="\tif useUdpPort {\n\t\tladdr = ctx.RemoteAddr().String()\n\t}\n"
TASK="\t\tctx := <-recvInfoHash\n"
BODYF=TMP+"\tif err != nil {\n\t\tdhtLogger.Error(\"create file err\", misc.Dict{\"err\": err})\n\t\treturn\n\t}\n\tdefer os.Remove(file.Name())\n"+WR+CH+SY+CL+WE+RN
NOIO=(FT,'\t"io/ioutil"\n','')
NOPATH=(FT,'\t"path/filepath"\n','')
M=[
# C18
("write-always","C18",[(FT,ERRC,"\tif err != nil {\n\t\tdhtLogger.Error(\"fetch err\", misc.Dict{\"err\": err})\n\t}\n\tflushTorrentFile(hash, result)\n")]),
("write-inverted","C18",[(FT,"\tif err != nil {\n\t\treturn\n\t}\n\tflush","\tif err == nil {\n\t\treturn\n\t}\n\tflush")]),
("write-trunc","C18",[(FT,"\tflushTorrentFile(hash, result)\n","\tflushTorrentFile(hash, result[:len(result)-1])\n")]),
("write-append","C18",[(FT,"\tflushTorrentFile(hash, result)\n","\tflushTorrentFile(hash, append(result, '\\n'))\n")]),
("name-other","C18",[(FT,HASH,"\thash := hex.EncodeToString([]byte(body.GetString(\"id\")))\n")]),
("name-peer","C18",[(FT,HASH,"\thash := hex.EncodeToString(peerwire.LocalPeerId)\n")]),
("fetch-other","C18",[(FT,"misc.Str2Bytes(infoHash))","misc.Str2Bytes(body.GetString(\"id\")))")]),
("write-partial","C18",[(FT,WR,"\t_, err = file.Write(data[:len(data)/2])\n")]),
# C19
("raw-name","C19",[(FT,HASH,"\thash := infoHash\n"),(FT,'\t"encoding/hex"\n','')]),
("quote-name","C19",[(FT,HASH,"\thash := strconv.Quote(infoHash)\n"),(FT,'\t"encoding/hex"\n','')]),
("name-prefix","C19",[(FT,"\tflushTorrentFile(hash, result)\n","\tflushTorrentFile(body.GetStringOrDefault(\"name\", \"\")+hash, result)\n")]),
("dir-up","C19",[(FT,'const torrentDir = "torrent"','const torrentDir = "../torrent"')]),
("dir-none","C19",[(FT,RN,"\terr = os.Rename(file.Name(), fileName+\".torrent\")\n"),NOPATH]),
("dir-tmp","C19",[(FT,TMP,TMP.replace("torrentDir, ",'"", '))]),
("no-mkdir","C19",[(FT,MK,"")]),
("mkdir-late","C19",[(FT,MK,""),(FT,RN,MK.replace("if err :=","if err =").replace("if err =","if err :=")+RN)]),
("mkdir-perm","C19",[(FT,"os.ModePerm","0444")]),
("mkdir-other","C19",[(FT,"os.MkdirAll(torrentDir,","os.MkdirAll(\"torrents\",")]),
("in-place","C19",[(FT,BODYF,"\tfile, err := os.Create(filepath.Join(torrentDir, fileName+\".torrent\"))\n\tif err != nil {\n\t\treturn\n\t}\n\tdefer file.Close()\n\t_, err = file.Write(data)\n"),NOIO]),
("in-place-wf","C19",[(FT,BODYF,"\terr := ioutil.WriteFile(filepath.Join(torrentDir, fileName+\".torrent\"), data, 0644)\n")]),
("shared-tmp","C19",[(FT,TMP,"\tfile, err := os.Create(filepath.Join(torrentDir, fileName+\".tmp\"))\n"),NOIO]),
("shared-tmp2","C19",[(FT,TMP,"\tfile, err := os.OpenFile(filepath.Join(torrentDir, fileName+\".tmp\"), os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)\n"),NOIO]),
("rename-first","C19",[(FT,WR,RN+WR),(FT,WE+RN,WE)]),
("rename-before-sync","C19",[(FT,WR,WR+RN),(FT,WE+RN,WE)]),
("ignore-write","C19",[(FT,WR,"\tfile.Write(data)\n")]),
("write-err-lost","C19",[(FT,CH,"\terr = file.Chmod(0644)\n")]),
("sync-err-lost","C19",[(FT,CL+WE,"\terr = file.Close()\n"+WE)]),
("no-return","C19",[(FT,WE,WE.replace("\t\treturn\n",""))]),
("no-close-check","C19",[(FT,SY+CL,"\tfile.Close()\n")]),
("fixed-name","C19",[(FT,'filepath.Join(torrentDir, fileName+".torrent")','filepath.Join(torrentDir, "latest.torrent")')]),
("rename-on-err","C19",[(FT,WE+RN,"\tif err != nil {\n\t\tdhtLogger.Error(\"write file err\", misc.Dict{\"err\": err})\n\t}\n"+RN)]),
# C29
("always-ann","C29",[(FT,UD,"\t_ = useUdpPort\n")]),
("always-udp","C29",[(FT,"\tif useUdpPort {\n","\tif useUdpPort || port > 0 {\n")]),
("exist-only","C29",[(FT,IMP,'if body.Exist("implied_port") {')]),
("inverted","C29",[(FT,"\tif useUdpPort {\n","\tif !useUdpPort {\n")]),
("gt1","C29",[(FT,'body.GetInteger("implied_port") > 0','body.GetInteger("implied_port") > 1')]),
("ge0","C29",[(FT,'body.GetInteger("implied_port") > 0','body.GetInteger("implied_port") >= 0')]),
("key-typo","C29",[(FT,IMP,IMP.replace("implied_port","implied-port"))]),
("colon","C29",[(FT,LA,'\tladdr := ctx.RemoteAddr().IP.String() + ":" + strconv.Itoa(port)\n\t_ = net.IP{}\n')]),
("sprintf","C29",[(FT,LA,'\tladdr := fmt.Sprintf("%s:%d", ctx.RemoteAddr().IP, port)\n'),(FT,'\t"net"\n\t"os"','\t"fmt"\n\t"os"'),(FT,'\t"strconv"\n','')]),
("host-body","C29",[(FT,"ctx.RemoteAddr().IP.String()",'body.GetStringOrDefault("ip", ctx.RemoteAddr().IP.String())')]),
("host-local","C29",[(FT,"ctx.RemoteAddr().IP.String()",'config.DhtConfig().LocalAddr')]) if False else ("host-lo","C29",[(FT,"ctx.RemoteAddr().IP.String()",'net.IPv4zero.String()')]),
("port-plus","C29",[(FT,"strconv.Itoa(port)","strconv.Itoa(port+1)")]),
("port-key","C29",[(FT,'body.GetInteger("port")','body.GetInteger("implied_port")')]),
("port-udp-both","C29",[(FT,"strconv.Itoa(port)","strconv.Itoa(ctx.RemoteAddr().Port)"),(FT,'\tport := body.GetInteger("port")\n','')]),
("hoisted","C29",[(FT,"\tfor {\n"+TASK,"\tvar ctx *krpc.RpcContext\n\tfor {\n"+TASK.replace(":=","="))]),
]
R=[
("r-default",["C29","C18","C19"],[(FT,IMP,'if body.GetIntegerOrDefault("implied_port", 0) > 0 {')]),
("r-ne0",["C29"],[(FT,'body.GetInteger("implied_port") > 0','body.GetInteger("implied_port") != 0')]),
("r-assert",["C29"],[(FT,IMP,'if v, ok := body["implied_port"].(int); ok && v > 0 {')]),
("r-ge1",["C29"],[(FT,'body.GetInteger("implied_port") > 0','body.GetInteger("implied_port") >= 1')]),
("r-port-switch",["C29"],[(FT,LA+UD+"\treturn laddr\n","\tif useUdpPort {\n\t\tport = ctx.RemoteAddr().Port\n\t}\n\treturn net.JoinHostPort(ctx.RemoteAddr().IP.String(), strconv.Itoa(port))\n")]),
("r-early",["C29"],[(FT,ADDR,'\tremote := ctx.RemoteAddr()\n\tif body.Exist("implied_port") && body.GetInteger("implied_port") > 0 {\n\t\treturn remote.String()\n\t}\n\treturn net.JoinHostPort(remote.IP.String(), strconv.Itoa(body.GetInteger("port")))\n')]),
("r-tcpaddr",["C29"],[(FT,LA,"\tladdr := (&net.TCPAddr{IP: ctx.RemoteAddr().IP, Port: port}).String()\n"),(FT,'\t"strconv"\n','')]),
("r-brackets",["C29"],[(FT,LA,'\tladdr := "[" + ctx.RemoteAddr().IP.String() + "]:" + strconv.Itoa(port)\n\t_ = net.IP{}\n')]),
("r-brackets2",["C29"],[(FT,LA,'\tladdr := fmt.Sprintf("[%s]:%d", ctx.RemoteAddr().IP, port)\n'),(FT,'\t"net"\n\t"os"','\t"fmt"\n\t"os"'),(FT,'\t"strconv"\n','')]),
("r-inline-addr",["C29","C18","C19"],[(FT,"\tladdr := parseFetchAddr(ctx)\n",ADDR.replace("\treturn laddr\n",""))]),
("r-helper",["C29"],[(FT,IMP,"if usesUdpPort(body) {"),(FT,"func flushTorrentFile",'func usesUdpPort(body misc.Dict) bool {\n\tif !body.Exist("implied_port") {\n\t\treturn false\n\t}\n\treturn body.GetInteger("implied_port") > 0\n}\n\nfunc flushTorrentFile')]),
("r-hash-helper",["C18","C19"],[(FT,"\tflushTorrentFile(hash, result)\n","\tflushTorrentFile([]byte(infoHash), result)\n"),(FT,HASH,""),(FT,"func flushTorrentFile(fileName string, data []byte) {\n","func flushTorrentFile(h []byte, data []byte) {\n\tfileName := hex.EncodeToString(h)\n")]),
("r-sprintf-name",["C18","C19"],[(FT,'filepath.Join(torrentDir, fileName+".torrent")','fmt.Sprintf("%s/%s.torrent", torrentDir, fileName)'),(FT,'\t"path/filepath"\n','\t"fmt"\n')]),
("r-sprintf-x",["C18","C19"],[(FT,HASH,'\thash := fmt.Sprintf("%x", infoHash)\n'),(FT,'\t"encoding/hex"\n','\t"fmt"\n')]),
("r-concat-name",["C18","C19"],[(FT,'filepath.Join(torrentDir, fileName+".torrent")','torrentDir + "/" + fileName + ".torrent"'),NOPATH]),
("r-upper",["C18","C19"],[(FT,HASH,"\thash := strings.ToUpper(hex.EncodeToString([]byte(infoHash)))\n"),(FT,'\t"strconv"\n','\t"strconv"\n\t"strings"\n')]),
("r-sync-off",["C19"],[(FT,SY,"")]),
("r-chmod-off",["C19"],[(FT,CH,"")]),
("r-steps",["C18","C19"],[(FT,WR+CH+SY+CL+WE,"\tif _, err = file.Write(data); err != nil {\n\t\tfile.Close()\n\t\treturn\n\t}\n\tif err = file.Sync(); err != nil {\n\t\tfile.Close()\n\t\treturn\n\t}\n\tif err = file.Close(); err != nil {\n\t\treturn\n\t}\n")]),
("r-defer-close",["C18","C19"],[(FT,WR+CH+SY+CL+WE,"\tdefer file.Close()\n\tif _, err = file.Write(data); err != nil {\n\t\treturn\n\t}\n\tif err = file.Sync(); err != nil {\n\t\treturn\n\t}\n")]),
("r-write-helper",["C18","C19"],[(FT,WR+CH+SY+CL+WE,"\tif err = fill(file, data); err != nil {\n\t\tdhtLogger.Error(\"write file err\", misc.Dict{\"err\": err})\n\t\treturn\n\t}\n"),(FT,"func flushTorrentFile","func fill(file *os.File, data []byte) error {\n\t_, err := file.Write(data)\n"+CH+SY+CL+"\treturn err\n}\n\nfunc flushTorrentFile")]),
("r-writefile",["C18","C19"],[(FT,WR+CH+SY+CL+WE,"\tname := file.Name()\n\tfile.Close()\n\tif err = ioutil.WriteFile(name, data, 0644); err != nil {\n\t\treturn\n\t}\n"),(FT,"os.Rename(file.Name(),","os.Rename(name,")]),
("r-excl",["C18","C19"],[(FT,TMP,"\tfile, err := os.OpenFile(filepath.Join(torrentDir, fileName+\".tmp\"), os.O_CREATE|os.O_WRONLY|os.O_EXCL, 0644)\n"),NOIO]),
("r-iocopy",["C18","C19"],[(FT,WR,"\t_, err = io.Copy(file, bytes.NewReader(data))\n"),(FT,'\t"context"\n','\t"bytes"\n\t"context"\n\t"io"\n')]),
("r-bufio",["C18","C19"],[(FT,WR,"\tw := bufio.NewWriter(file)\n\t_, err = w.Write(data)\n\tif err == nil {\n\t\terr = w.Flush()\n\t}\n"),(FT,'\t"context"\n','\t"bufio"\n\t"context"\n')]),
("r-mkdir-stat",["C19"],[(FT,MK,"\tif _, err := os.Stat(torrentDir); err != nil {\n\t\tif err := os.MkdirAll(torrentDir, 0755); err != nil {\n\t\t\treturn\n\t\t}\n\t}\n")]),
("r-mkdir-start",["C19"],[(FT,MK,""),(FT,"\t// 开启线程池消费\n","\tif err := os.MkdirAll(torrentDir, os.ModePerm); err != nil {\n\t\tdhtLogger.Error(\"create torrent dir err\", misc.Dict{\"err\": err})\n\t}\n")]),
("r-var-dir",["C19"],[(FT,'const torrentDir = "torrent"','var torrentDir = "torrent"')]),
("r-worker",["C18","C19","C29"],[(FT,"\t\tpool.AsyncSubmit(func() {\n\t\t\tfetchHandler(ctx)\n\t\t})\n","\t\tpool.AsyncSubmit(fetchTask(ctx))\n"),(FT,"func fetchHandler(","func fetchTask(ctx *krpc.RpcContext) func() {\n\treturn func() { fetchHandler(ctx) }\n}\n\nfunc fetchHandler(")]),
("r-inline-all",["C18","C19","C29"],[(FT,"\t\t\tfetchHandler(ctx)\n","\t\t\tc := ctx\n\t\t\tfetchHandler(c)\n")]),
("r-positive",["C18","C19"],[(FT,ERRC,"\tif err == nil {\n\t\tflushTorrentFile(hash, result)\n\t}\n")]),
]
