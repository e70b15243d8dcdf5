N="dht/node.go"
W='''		builder.WriteString(v.Id)
		builder.Write(v.Addr.IP.To4())
		portBytes := make([]byte, 2)
		binary.BigEndian.PutUint16(portBytes, uint16(v.Addr.Port))
		builder.Write(portBytes)
	}
	return builder.String()
}

func parseNodeInfo'''
JN='''	var builder strings.Builder
	builder.Grow(len(nodes) * 26)
	for _, v := range nodes {
		builder.WriteString(v.Id)
		builder.Write(v.Addr.IP.To4())
		portBytes := make([]byte, 2)
		binary.BigEndian.PutUint16(portBytes, uint16(v.Addr.Port))
		builder.Write(portBytes)
	}
	return builder.String()
'''
PN='''	nodes := make([]*NodeInfo, len(infos)/26)
	for i := range nodes {
		j := i * 26
		bytes := []byte(infos[j+20 : j+26])
		nodes[i] = NewNodeInfo(infos[j:j+20], &net.UDPAddr{
			IP:   bytes[:4],
			Port: int(binary.BigEndian.Uint16(bytes[4:6])),
		})
	}
	return nodes
'''
PP='''	addrs := make([]*net.UDPAddr, len(vals))
	for i := range vals {
		val := vals.GetString(i)
		bytes := []byte(val)
		addrs[i] = &net.UDPAddr{
			IP:   bytes[:4],
			Port: int(binary.BigEndian.Uint16(bytes[4:6])),
		}
	}
'''
JP='''	for i, addr := range addrs {
		var builder strings.Builder
		builder.Write(addr.IP.To4())
		portBytes := make([]byte, 2)
		binary.BigEndian.PutUint16(portBytes, uint16(addr.Port))
		builder.Write(portBytes)
		vals[i] = builder.String()
	}
'''
def r(a,o,n):
    assert o in a,o
    return a.replace(o,n,1)
M=[
("order","C27",[(N,JN,r(r(JN,"		builder.WriteString(v.Id)\n",""),"		builder.Write(portBytes)\n","		builder.Write(portBytes)\n		builder.WriteString(v.Id)\n"))]),
("both-orders","C27",[(N,JN,r(r(JN,"		builder.Write(v.Addr.IP.To4())\n",""),"		builder.Write(portBytes)\n","		builder.Write(portBytes)\n		builder.Write(v.Addr.IP.To4())\n")),(N,PN,PN.replace("bytes[:4]","bytes[2:6]").replace("bytes[4:6]","bytes[0:2]"))]),
("raw-ip","C27",[(N,JN,r(JN,".To4()",""))]),
("to16","C27",[(N,JN,r(JN,".To4()",".To16()"))]),
("le-write","C27",[(N,JN,r(JN,"BigEndian","LittleEndian"))]),
("le-both","C27",[(N,JN,r(JN,"BigEndian","LittleEndian")),(N,PN,r(PN,"BigEndian","LittleEndian"))]),
("le-both-peer","C27",[(N,JP,r(JP,"BigEndian","LittleEndian")),(N,PP,r(PP,"BigEndian","LittleEndian"))]),
("peer-raw","C27",[(N,JP,r(JP,".To4()",""))]),
("round-up","C27",[(N,PN,r(PN,"len(infos)/26)","(len(infos)+25)/26)"))]),
("drop-last","C27",[(N,PN,PN.replace('''	nodes := make([]*NodeInfo, len(infos)/26)
	for i := range nodes {
		j := i * 26
''','''	nodes := []*NodeInfo{}
	for j := 0; j+26 < len(infos); j += 26 {
''').replace("nodes[i] = NewNodeInfo(","nodes = append(nodes, NewNodeInfo(").replace("		})\n","		}))\n"))]),
("over","C27",[(N,PN,PN.replace('''	nodes := make([]*NodeInfo, len(infos)/26)
	for i := range nodes {
		j := i * 26
''','''	nodes := []*NodeInfo{}
	for j := 0; j < len(infos); j += 26 {
''').replace("nodes[i] = NewNodeInfo(","nodes = append(nodes, NewNodeInfo(").replace("		})\n","		}))\n"))]),
("stride","C27",[(N,PN,r(PN,"i * 26","i * 25"))]),
("div20","C27",[(N,PN,r(PN,"/26","/28"))]),
("shared-buf","C27",[(N,PN,PN.replace("	for i := range nodes {\n","	bytes := make([]byte, 6)\n	for i := range nodes {\n").replace("bytes := []byte(infos[j+20 : j+26])","copy(bytes, infos[j+20:j+26])"))]),
("shared-addr","C27",[(N,PN,PN.replace("	for i := range nodes {\n","	addr := &net.UDPAddr{}\n	for i := range nodes {\n").replace('''&net.UDPAddr{
			IP:   bytes[:4],
			Port: int(binary.BigEndian.Uint16(bytes[4:6])),
		})''','''addr)
		addr.IP = bytes[:4]
		addr.Port = int(binary.BigEndian.Uint16(bytes[4:6]))''').replace("NewNodeInfo(infos[j:j+20], addr)","NewNodeInfo(infos[j:j+20], addr)"))]),
("shared-peer","C27",[(N,PP,PP.replace("	for i := range vals {\n","	var buf [6]byte\n	bytes := buf[:]\n	for i := range vals {\n").replace("bytes := []byte(val)","copy(bytes, val)"))]),
("skip-one","C27",[(N,PN,r(PN,"		j := i * 26\n","		j := i * 26\n		if infos[j] == 0 {\n			continue\n		}\n"))]),
("first-skipped","C27",[(N,PN,r(PN,"for i := range nodes {","for i := 1; i < len(nodes); i++ {"))]),
("last-skipped","C27",[(N,JN,r(JN,"for _, v := range nodes {","for i := 0; i < len(nodes)-1; i++ {\n		v := nodes[i]"))]),
("early-return","C27",[(N,PN,r(PN,"		j := i * 26\n","		j := i * 26\n		if infos[j] == 0 {\n			break\n		}\n"))]),
("id-19","C27",[(N,PN,r(PN,"infos[j:j+20]","infos[j+1:j+20]"))]),
("port-of-first","C27",[(N,JN,r(JN,"uint16(v.Addr.Port)","uint16(nodes[0].Addr.Port)"))]),
("swap-bytes","C27",[(N,PN,r(PN,"int(binary.BigEndian.Uint16(bytes[4:6]))","int(bytes[4]) | int(bytes[5])<<8"))]),
("peer-first","C27",[(N,PP,r(PP,"vals.GetString(i)","vals.GetString(0)"))]),
]
R=[
("append","C27".split(),[(N,PN,PN.replace('''	nodes := make([]*NodeInfo, len(infos)/26)
	for i := range nodes {
		j := i * 26
''','''	nodes := make([]*NodeInfo, 0, len(infos)/26)
	for j := 0; j+26 <= len(infos); j += 26 {
''').replace("nodes[i] = NewNodeInfo(","nodes = append(nodes, NewNodeInfo(").replace("		})\n","		}))\n"))]),
("shrink",["C27"],[(N,PN,'''	nodes := make([]*NodeInfo, 0, len(infos)/26)
	for len(infos) >= 26 {
		rec := infos[:26]
		infos = infos[26:]
		ip := []byte(rec[20:24])
		port := []byte(rec[24:26])
		addr := &net.UDPAddr{IP: ip, Port: int(port[0])<<8 | int(port[1])}
		nodes = append(nodes, NewNodeInfo(rec[:20], addr))
	}
	return nodes
''')]),
("helper",["C27"],[(N,PN,'''	nodes := make([]*NodeInfo, len(infos)/26)
	for i := range nodes {
		rec := infos[i*26 : (i+1)*26]
		n := new(NodeInfo)
		nodes[i] = n
		n.Id = rec[:20]
		n.Addr = parseAddr([]byte(rec[20:]))
	}
	return nodes
'''),(N,"func parsePeerInfo","func parseAddr(b []byte) *net.UDPAddr {\n	return &net.UDPAddr{IP: b[:4], Port: int(binary.BigEndian.Uint16(b[4:]))}\n}\n\nfunc parsePeerInfo"),(N,PP,'''	addrs := make([]*net.UDPAddr, len(vals))
	for i := range vals {
		addrs[i] = parseAddr([]byte(vals.GetString(i)))
	}
''')]),
("count",["C27"],[(N,PN,'''	count := len(infos) / 26
	nodes := make([]*NodeInfo, count)
	for i, j := 0, 0; i < count; i, j = i+1, j+26 {
		bytes := []byte(infos[j+20 : j+26])
		addr := &net.UDPAddr{}
		addr.IP = net.IPv4(bytes[0], bytes[1], bytes[2], bytes[3])
		addr.Port = int(binary.BigEndian.Uint16(bytes[4:6]))
		nodes[i] = &NodeInfo{Id: infos[j : j+20], Addr: addr}
	}
	return nodes
''')]),
("writer-helper",["C27"],[(N,JN,'''	var builder strings.Builder
	for i := 0; i < len(nodes); i++ {
		builder.WriteString(nodes[i].Id)
		writeAddr(&builder, nodes[i].Addr)
	}
	return builder.String()
'''),(N,JP,'''	for i := range addrs {
		var builder strings.Builder
		writeAddr(&builder, addrs[i])
		vals[i] = builder.String()
	}
'''),(N,"func parseNodeInfo","func writeAddr(b *strings.Builder, a *net.UDPAddr) {\n	ip := a.IP.To4()\n	b.Write(ip)\n	b.Write([]byte{byte(a.Port >> 8), byte(a.Port)})\n}\n\nfunc parseNodeInfo")]),
("writer-append",["C27"],[(N,JN,'''	out := make([]byte, 0, len(nodes)*26)
	for _, v := range nodes {
		out = append(out, v.Id...)
		out = append(out, v.Addr.IP.To4()...)
		p := uint16(v.Addr.Port)
		out = append(out, byte(p>>8), byte(p))
	}
	return string(out)
''' ),(N,'	"strings"\n','	"strings"\n')]),
("writer-concat",["C27"],[(N,JN,'''	res := ""
	for _, v := range nodes {
		portBytes := make([]byte, 2)
		binary.BigEndian.PutUint16(portBytes, uint16(v.Addr.Port))
		res += v.Id + string(v.Addr.IP.To4()) + string(portBytes)
	}
	return res
''')]),
("writer-local",["C27"],[(N,JN,'''	var builder strings.Builder
	if len(nodes) == 0 {
		return ""
	}
	for _, v := range nodes {
		info := v.Id + joinAddr(v.Addr)
		builder.WriteString(info)
	}
	return builder.String()
'''),(N,"func parseNodeInfo","func joinAddr(a *net.UDPAddr) string {\n	buf := make([]byte, 6)\n	copy(buf, a.IP.To4())\n	binary.BigEndian.PutUint16(buf[4:], uint16(a.Port))\n	return string(buf)\n}\n\nfunc parseNodeInfo")]),
("peer-append",["C27"],[(N,JP,'''	for _, addr := range addrs {
		val := make([]byte, 0, 6)
		val = append(val, addr.IP.To4()...)
		val = append(val, byte(addr.Port>>8), byte(addr.Port))
		vals = append(vals, string(val))
	}
'''),(N,"vals := make([]interface{}, len(addrs))","vals := make([]interface{}, 0, len(addrs))")]),
("peer-copy",["C27"],[(N,PP,'''	addrs := make([]*net.UDPAddr, 0, len(vals))
	for i := 0; i < vals.Size(); i++ {
		val := vals.GetString(i)
		ip := make(net.IP, 4)
		copy(ip, val[:4])
		port := uint16(val[4])<<8 | uint16(val[5])
		addrs = append(addrs, &net.UDPAddr{IP: ip, Port: int(port)})
	}
'''),("misc/types.go","func (l *List) GetVal(","func (l List) Size() int {\n	return len(l)\n}\n\nfunc (l *List) GetVal(")]),
]
