UD="dht/krpc/udp.go"
LOOP="\tfor !(s.closed.Load().(bool)) {\n"
M=[
("close-after","C24",[(UD,"\ts.closed.Store(true)\n\tif s.conn != nil {\n\t\treturn s.conn.Close()\n\t}\n\treturn nil\n","\tif s.conn != nil {\n\t\tif err := s.conn.Close(); err != nil {\n\t\t\treturn err\n\t\t}\n\t}\n\ts.closed.Store(true)\n\treturn nil\n")]),
("no-mark","C24",[(UD,"\ts.closed.Store(true)\n","")]),
("loop-forever","C24",[(UD,LOOP,"\tfor {\n")]),
("err-return","C24",[(UD,"\t\t\tcontinue\n","\t\t\treturn\n")]),
("err-inner-loop","C24",[(UD,"\t\tif err != nil {\n\t\t\tudpLogger.Error(\"<<< receive udp err\", misc.Dict{\"err\": err})\n\t\t\tcontinue\n\t\t}\n","\t\tfor err != nil {\n\t\t\tudpLogger.Error(\"<<< receive udp err\", misc.Dict{\"err\": err})\n\t\t\tn, raddr, err = s.conn.ReadFromUDP(buf)\n\t\t}\n")]),
("full-buf","C24",[(UD,"Bytes: buf[:n]}","Bytes: buf}")]),
("one-less","C24",[(UD,"Bytes: buf[:n]}","Bytes: buf[:n-1]}")]),
("laddr","C24",[(UD,"Addr: raddr, B","Addr: s.laddr, B")]),
("drop-full","C24",[(UD,"\t\ts.recvq <- &RecvPacket{Addr: raddr, Bytes: buf[:n]}\n","\t\tselect {\n\t\tcase s.recvq <- &RecvPacket{Addr: raddr, Bytes: buf[:n]}:\n\t\tdefault:\n\t\t}\n")]),
("shared-buf","C24",[(UD,LOOP+"\t\tbuf := krpcBytesPool.GetBySize(RecvPacketLen)\n","\tbuf := krpcBytesPool.GetBySize(RecvPacketLen)\n"+LOOP)]),
("shared-make","C24",[(UD,LOOP+"\t\tbuf := krpcBytesPool.GetBySize(RecvPacketLen)\n","\tbuf := make([]byte, RecvPacketLen)\n"+LOOP)]),
("put-after","C24",[(UD,"Bytes: buf[:n]}\n","Bytes: buf[:n]}\n\t\tkrpcBytesPool.Put(buf)\n")]),
("skip-small","C24",[(UD,"\t\ts.recvq <- &","\t\tif n < 20 {\n\t\t\tcontinue\n\t\t}\n\t\ts.recvq <- &")]),
("close-recvq","C24",[(UD,"\ts.closed.Store(true)\n","\ts.closed.Store(true)\n\tclose(s.recvq)\n")]),
("close-nothing","C24",[(UD,"\tif s.conn != nil {\n\t\treturn s.conn.Close()\n\t}\n","")]),
("close-again-panics","C24",[(UD,"\tif s.closed.Load().(bool) {\n\t\treturn nil\n\t}\n\tdefer","\tif s.closed.Load().(bool) {\n\t\tpanic(\"closed\")\n\t}\n\tdefer")]),
("err-closes","C24",[(UD,"\t\t\tcontinue\n","\t\t\tif _, ok := err.(*net.OpError); !ok {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\tcontinue\n")]),
("ignore-n","C24",[(UD,"\t\tn, raddr, err := s.conn","\t\t_, raddr, err := s.conn"),(UD,"buf[:n]","buf[:RecvPacketLen]"),(UD,"\"length\": n})\n\t\ts.","\"length\": 0})\n\t\ts.")]),
("shared-packet","C24",[(UD,LOOP,"\tpkt := &RecvPacket{}\n"+LOOP),(UD,"\t\ts.recvq <- &RecvPacket{Addr: raddr, Bytes: buf[:n]}\n","\t\tpkt.Addr, pkt.Bytes = raddr, buf[:n]\n\t\ts.recvq <- pkt\n")]),
("retry-before-check","C24",[(UD,"\t\t\tcontinue\n\t\t}\n","\t\t\tif n, raddr, err = s.conn.ReadFromUDP(buf); err != nil {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t}\n")]),
("go-before-store","C24",[(UD,"\tserver.closed.Store(false)\n\tgo server.recvRoutiue()\n","\tgo server.recvRoutiue()\n\tserver.closed.Store(false)\n")]),
("open-after-err","C24",[(UD,"\tif s.conn != nil {\n\t\treturn s.conn.Close()\n\t}\n","\tif s.conn != nil {\n\t\tif err := s.conn.Close(); err != nil {\n\t\t\ts.closed.Store(false)\n\t\t\treturn err\n\t\t}\n\t}\n")]),
]
P=["C24","C16","C11","C12"]
R=[
("atomic-bool",P,[(UD,"\tclosed *atomic.Value\n","\tclosed atomic.Bool\n"),(UD,"\t\tclosed: &atomic.Value{},\n",""),(UD,"s.closed.Load().(bool) {\n\t\treturn nil","s.closed.Load() {\n\t\treturn nil"),(UD,"!(s.closed.Load().(bool))","!s.closed.Load()")]),
("value-not-ptr",P,[(UD,"\tclosed *atomic.Value\n","\tclosed atomic.Value\n"),(UD,"\t\tclosed: &atomic.Value{},\n","")]),
("is-closed",P,[(UD,"!(s.closed.Load().(bool))","!s.isClosed()"),(UD,"func (s *UdpServer) recvR","func (s *UdpServer) isClosed() bool {\n\treturn s.closed.Load().(bool)\n}\n\nfunc (s *UdpServer) recvR")]),
("check-on-error",P,[(UD,LOOP,"\tfor {\n"),(UD,"\t\t\tcontinue\n","\t\t\tif s.closed.Load().(bool) {\n\t\t\t\treturn\n\t\t\t}\n\t\t\tcontinue\n")]),
("loop-break",P,[(UD,LOOP,"\tfor {\n\t\tif s.closed.Load().(bool) {\n\t\t\tbreak\n\t\t}\n")]),
("else-branch",P,[(UD,"\t\t\tudpLogger.Error(\"<<< receive udp err\", misc.Dict{\"err\": err})\n\t\t\tcontinue\n\t\t}\n\t\tudpLogger.Info(\"<<< received Bytes\", misc.Dict{\"raddr\": raddr.String(), \"length\": n})\n\t\ts.recvq <- &RecvPacket{Addr: raddr, Bytes: buf[:n]}\n","\t\t\tudpLogger.Error(\"<<< receive udp err\", misc.Dict{\"err\": err})\n\t\t} else {\n\t\t\tudpLogger.Info(\"<<< received Bytes\", misc.Dict{\"raddr\": raddr.String(), \"length\": n})\n\t\t\ts.recvq <- &RecvPacket{Addr: raddr, Bytes: buf[:n]}\n\t\t}\n")]),
("helper-receive",P,[(UD,"\t\tbuf := krpcBytesPool.GetBySize(RecvPacketLen)\n\t\tn, raddr, err := s.conn.ReadFromUDP(buf)\n\t\tif err != nil {\n\t\t\tudpLogger.Error(\"<<< receive udp err\", misc.Dict{\"err\": err})\n\t\t\tcontinue\n\t\t}\n\t\tudpLogger.Info(\"<<< received Bytes\", misc.Dict{\"raddr\": raddr.String(), \"length\": n})\n\t\ts.recvq <- &RecvPacket{Addr: raddr, Bytes: buf[:n]}\n\t}\n}\n","\t\tif pkt, err := s.receive(); err == nil {\n\t\t\ts.recvq <- pkt\n\t\t}\n\t}\n}\n\nfunc (s *UdpServer) receive() (*RecvPacket, error) {\n\tbuf := krpcBytesPool.GetBySize(RecvPacketLen)\n\tn, raddr, err := s.conn.ReadFromUDP(buf)\n\tif err != nil {\n\t\tudpLogger.Error(\"<<< receive udp err\", misc.Dict{\"err\": err})\n\t\treturn nil, err\n\t}\n\tudpLogger.Info(\"<<< received Bytes\", misc.Dict{\"raddr\": raddr.String(), \"length\": n})\n\treturn &RecvPacket{Addr: raddr, Bytes: buf[:n]}, nil\n}\n")]),
("make-buf",P,[(UD,"krpcBytesPool.GetBySize(RecvPacketLen)","make([]byte, RecvPacketLen)")]),
("copy-out",P,[(UD,"Bytes: buf[:n]}","Bytes: append([]byte(nil), buf[:n]...)}")]),
("close-inline",P,[(UD,"\treturn s.close()\n}\n\nfunc (s *UdpServer) close() error {\n","")]),
("close-local-conn",P,[(UD,"\tif s.conn != nil {\n\t\treturn s.conn.Close()\n\t}\n\treturn nil\n","\tconn := s.conn\n\tif conn == nil {\n\t\treturn nil\n\t}\n\treturn conn.Close()\n")]),
("close-log-err",P,[(UD,"\t\treturn s.conn.Close()\n","\t\tif err := s.conn.Close(); err != nil {\n\t\t\tudpLogger.Error(\"close err\", misc.Dict{\"err\": err})\n\t\t\treturn err\n\t\t}\n")]),
("cas-close",P,[(UD,"\tif s.closed.Load().(bool) {\n\t\treturn nil\n\t}\n\tdefer s.Unlock()\n\ts.Lock()\n","\tif !s.closed.CompareAndSwap(false, true) {\n\t\treturn nil\n\t}\n\tdefer s.Unlock()\n\ts.Lock()\n")]),
("struct-steps",P,[(UD,"\t\ts.recvq <- &RecvPacket{Addr: raddr, Bytes: buf[:n]}\n","\t\tpkt := new(RecvPacket)\n\t\tpkt.Addr = raddr\n\t\tpkt.Bytes = buf[0:n]\n\t\ts.RecvChan() <- pkt\n")]),
("errors-is",P,[(UD,"\t\t\tcontinue\n","\t\t\tif errors.Is(err, net.ErrClosed) {\n\t\t\t\treturn\n\t\t\t}\n\t\t\tcontinue\n"),(UD,"import (\n","import (\n\t\"errors\"\n")]),
("go-closure",P,[(UD,"\tgo server.recvRoutiue()\n","\tgo func() {\n\t\tserver.recvRoutiue()\n\t\tudpLogger.Trace(\"receive loop ended\", nil)\n\t}()\n")]),
]
