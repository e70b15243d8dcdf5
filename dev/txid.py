N="dht/node.go"; D="dht/dht.go"; H="dht/resphandler.go"
NV='''	defer g.Unlock()
	g.Lock()
	g.txId++
	return g.txId
'''
NX='''	bytes := make([]byte, 2)
	binary.BigEndian.PutUint16(bytes, g.nextVal())
	return hex.EncodeToString(bytes)
'''
IMP='	"log"\n	"net"\n	"strings"\n	"sync"\n'
Q='rpcServer.Query(n.Addr, WithFindNodeMsg(txIdGenerator.Next(), localNodeId, localNodeId, genericRespHandler))'
LP='''	for _, n := range nodes {
		err := rtable.AddNode(n)
'''
M=[
("nolock","C28",[(N,NV,"	g.txId++\n	return g.txId\n")]),
("two-sections","C28",[(N,NV,"	g.Lock()\n	g.txId++\n	g.Unlock()\n	g.Lock()\n	defer g.Unlock()\n	return g.txId\n")]),
("unlock-early","C28",[(N,NV,"	g.Lock()\n	g.txId++\n	g.Unlock()\n	return g.txId\n")]),
("read-early","C28",[(N,NV,"	v := g.txId + 1\n	g.Lock()\n	defer g.Unlock()\n	g.txId = v\n	return v\n")]),
("step2","C28",[(N,NV,NV.replace("g.txId++","g.txId += 2"))]),
("wrap-early","C28",[(N,NV,NV.replace("	g.txId++\n","	g.txId++\n	if g.txId == 0xffff {\n		g.txId = 0\n	}\n"))]),
("no-adv","C28",[(N,NV,NV.replace("	g.txId++\n","	if g.txId != 0xffff {\n		g.txId++\n	}\n"))]),
("trunc","C28",[(N,NX,"	v := g.nextVal()\n	return hex.EncodeToString([]byte{byte(v)})\n")]),
("itoa","C28",[(N,NX,"	return strconv.Itoa(int(g.nextVal()))\n"),(N,IMP,IMP.replace('	"strings"\n','	"strconv"\n	"strings"\n')),(N,'	"encoding/hex"\n','')]),
("mod","C28",[(N,NX,NX.replace("g.nextVal()","g.nextVal()%10000"))]),
("rune","C28",[(N,NX,"	return string(rune(g.nextVal()))\n"),(N,'	"encoding/hex"\n','')]),
("half","C28",[(N,NX,NX.replace("hex.EncodeToString(bytes)","hex.EncodeToString(bytes)[:2]"))]),
("u8","C28",[(N,"	txId uint16\n","	txId uint8\n"),(N,"&TxIdGenerator{txId: init}","&TxIdGenerator{txId: uint8(init)}"),(N,NV,NV.replace("return g.txId","return uint16(g.txId)"))]),
("rlock","C28",[(N,"type TxIdGenerator struct {\n	sync.Mutex","type TxIdGenerator struct {\n	sync.RWMutex"),(N,NV,"	defer g.RUnlock()\n	g.RLock()\n	g.txId++\n	return g.txId\n")]),
("hoist","C28",[(H,LP,"	id := txIdGenerator.Next()\n"+LP),(H,Q,Q.replace("txIdGenerator.Next()","id"))]),
("hoist-msg","C28",[(H,LP,"	msg := WithFindNodeMsg(txIdGenerator.Next(), localNodeId, localNodeId, genericRespHandler)\n"+LP),(H,Q,"rpcServer.Query(n.Addr, msg)")]),
("reuse-resp","C28",[(H,Q,Q.replace("txIdGenerator.Next()","ctx.Request().TxId()"))]),
("const","C28",[(H,Q,Q.replace("txIdGenerator.Next()",'"aa"'))]),
("newgen","C28",[(H,Q,Q.replace("txIdGenerator.Next()",'NewTxIdGenerator(1000).Next()'))]),
("newgen2","C28",[(H,LP,"	gen := NewTxIdGenerator(2000)\n"+LP),(H,Q,Q.replace("txIdGenerator.Next()",'gen.Next()'))]),
("two-gens","C28",[(D,"var txIdGenerator = NewTxIdGenerator(1000)","var txIdGenerator = NewTxIdGenerator(1000)\nvar bootGenerator = NewTxIdGenerator(0)"),(D,"WithFindNodeMsg(txIdGenerator.Next()","WithFindNodeMsg(bootGenerator.Next()")]),
("reset","C28",[(D,'	dhtLogger.Info("bootstrap dht...", misc','	txIdGenerator = NewTxIdGenerator(1000)\n	dhtLogger.Info("bootstrap dht...", misc')]),
("retry","C28",[(D,"	err = rpcServer.Query(raddr, msg)\n","	err = rpcServer.Query(raddr, msg)\n	if err != nil {\n		err = rpcServer.Query(raddr, msg)\n	}\n")]),
("value-recv","C28",[(N,"func (g *TxIdGenerator) nextVal","func (g TxIdGenerator) nextVal")]),
("setter","C28",[(N,"func (g *TxIdGenerator) Next","func (g *TxIdGenerator) Reset() {\n	g.Lock()\n	defer g.Unlock()\n	g.txId = 0\n}\n\nfunc (g *TxIdGenerator) Next")]),
]
R=[
("explicit",["C28","C11","C12"],[(N,NV,"	g.Lock()\n	v := g.txId + 1\n	g.txId = v\n	g.Unlock()\n	return v\n")]),
("post",["C28"],[(N,NV,"	g.Lock()\n	v := g.txId\n	g.txId = v + 1\n	g.Unlock()\n	return v\n")]),
("inline",["C28"],[(N,NX,"	g.Lock()\n	g.txId++\n	v := g.txId\n	g.Unlock()\n	buf := [2]byte{byte(v >> 8), byte(v)}\n	return hex.EncodeToString(buf[:])\n")]),
("sprintf",["C28"],[(N,NX,'	return fmt.Sprintf("%04x", g.nextVal())\n'),(N,'	"encoding/hex"\n','	"fmt"\n'),(N,'	"encoding/binary"\n','	"encoding/binary"\n')]),
("atomic",["C28"],[(N,"	txId uint16\n","	txId uint32\n"),(N,"&TxIdGenerator{txId: init}","&TxIdGenerator{txId: uint32(init)}"),(N,NV,"	return uint16(atomic.AddUint32(&g.txId, 1))\n"),(N,IMP,IMP.replace('	"sync"\n','	"sync"\n	"sync/atomic"\n'))]),
("u32",["C28"],[(N,"	txId uint16\n","	txId uint32\n"),(N,"&TxIdGenerator{txId: init}","&TxIdGenerator{txId: uint32(init)}"),(N,NV,NV.replace("return g.txId","return uint16(g.txId)"))]),
("named-lock",["C28"],[(N,"type TxIdGenerator struct {\n	sync.Mutex","type TxIdGenerator struct {\n	mu sync.Mutex"),(N,NV,NV.replace("g.Lock","g.mu.Lock").replace("g.Unlock","g.mu.Unlock"))]),
("helper",["C28"],[(H,Q,"queryNode(n)"),(H,"func pingRespHandler","func queryNode(n *NodeInfo) error {\n	id := txIdGenerator.Next()\n	msg := WithFindNodeMsg(id, localNodeId, localNodeId, genericRespHandler)\n	return rpcServer.Query(n.Addr, msg)\n}\n\nfunc pingRespHandler")]),
("fresh-retry",["C28"],[(D,"	err = rpcServer.Query(raddr, msg)\n","	err = rpcServer.Query(raddr, msg)\n	if err != nil {\n		msg = WithFindNodeMsg(txIdGenerator.Next(), localNodeId, localNodeId, genericRespHandler)\n		err = rpcServer.Query(raddr, msg)\n	}\n")]),
("send8",["C28"],[(N,NX,"	var b strings.Builder\n	v := g.nextVal()\n	b.WriteByte(byte(v >> 8))\n	b.WriteByte(byte(v))\n	return hex.EncodeToString([]byte(b.String()))\n")]),
("go-query",["C28"],[(H,Q,"queryLater(n)"),(H,"func pingRespHandler","func queryLater(n *NodeInfo) error {\n	msg := WithFindNodeMsg(txIdGenerator.Next(), localNodeId, localNodeId, genericRespHandler)\n	go func() {\n		if err := rpcServer.Query(n.Addr, msg); err != nil {\n			dhtLogger.Error(\"query err\", nil)\n		}\n	}()\n	return nil\n}\n\nfunc pingRespHandler")]),
]
