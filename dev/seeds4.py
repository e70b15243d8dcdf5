S = []
_n = {}
exec(open("/verif/dev/seeds2.py").read(), _n)
_PW = _n["PW"].replace("\t\"testing\"\n","\t\"testing\"\n").replace("import (", "import (\n\t\"github.com/GalaIO/P2Pcrawler/misc\"")
S.append(dict(id="c06-ping-reply-kept", property="C06", pkg="dht",
  needs="a second ping query",
  breaks="the reply to the first ping is kept and used for the next ones: they are answered under the first transaction id",
  edits=[("dht/requesthandler.go", "	ctx.WriteAs(WithPingResponse(req.TxId(), localNodeId))", "	if pingResp == nil {\n		pingResp = WithPingResponse(req.TxId(), localNodeId)\n	}\n	ctx.WriteAs(pingResp)"),
         ("dht/requesthandler.go", "func pingHandler(", "var pingResp krpc.Response\n\nfunc pingHandler(")],
  test='''package dht

import (
	"net"
	"testing"

	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/misc"
)

func TestDemo(t *testing.T) {
	addr := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}
	for _, id := range []string{"aa", "bb"} {
		ctx := krpc.NewReqContext(nil, krpc.NewBaseRequest(id, "ping", misc.Dict{"id": "01234567890123456789"}, nil), nil, addr)
		pingHandler(ctx)
		if r := ctx.Response(); r == nil || r.TxId() != id {
			t.Fatal("ping ", id, " was answered with ", r)
		}
	}
}
'''))

S.append(dict(id="c07-handler-key-cut", property="C07", pkg="dht/krpc",
  needs="a query with the longest of the four methods, announce_peer",
  breaks="handlers are kept under the first ten bytes of the method and looked up under all of it: announce_peer is registered and never found",
  edits=[("dht/krpc/server.go", "	s.reqestHandlerRouter.Put(qType, handler)", "	key := qType\n	if len(key) > 10 {\n		key = key[:10]\n	}\n	s.reqestHandlerRouter.Put(key, handler)")],
  test='''package krpc

import (
	"net"
	"testing"

	"github.com/GalaIO/P2Pcrawler/misc"
)

func TestDemo(t *testing.T) {
	s := NewRpcServer("127.0.0.1:0")
	addr := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}
	for _, m := range []string{"ping", "find_node", "get_peers", "announce_peer"} {
		m := m
		s.RegisteHandler(m, func(ctx *RpcContext) { ctx.WriteAs(WithResponse(ctx.Request().TxId(), misc.Dict{"m": m})) })
		r := s.requestHandle(addr, misc.Dict{"t": "A", "y": "q", "q": m, "a": misc.Dict{"id": "01234567890123456789"}})
		body := r.Body()
		if body.GetStringOrDefault("m", "") != m {
			t.Fatal(m, " was not handled: ", r)
		}
	}
}
'''))

S.append(dict(id="c10-request-put-back", property="C10", pkg="dht/krpc",
  needs="a response whose node id is not 20 bytes long, and a second one with the same transaction id",
  breaks="the request is kept pending after the response was handed to its handler: a second response is delivered as well",
  edits=[("dht/krpc/server.go", "	s.doResponseHandle(req, resp, addr)\n}", "	if s.doResponseHandle(req, resp, addr); len(nodeId) != 20 {\n		s.requestMapping.Put(txId, handler)\n	}\n}")],
  test='''package krpc

import (
	"net"
	"testing"

	"github.com/GalaIO/P2Pcrawler/misc"
)

func TestDemo(t *testing.T) {
	for _, id := range []string{"01234567890123456789", "short"} {
		s := NewRpcServer("127.0.0.1:0")
		addr := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}
		n := 0
		if err := s.Query(addr, NewBaseRequest("aa", "ping", misc.Dict{"id": "x"}, func(ctx *RpcContext) { n++ })); err != nil {
			t.Fatal(err)
		}
		for i := 0; i < 2; i++ {
			func() {
				defer func() { recover() }()
				s.responseHandle(addr, misc.Dict{"t": "aa", "y": "r", "r": misc.Dict{"id": id}})
			}()
		}
		if n > 1 {
			t.Fatal("delivered ", n, " times")
		}
	}
}
'''))

S.append(dict(id="c14-bucket-an-eighth-over", property="C14", pkg="dht",
  needs="a bucket of at least eight places that is full and gets another node",
  breaks="a bucket is full only an eighth above its capacity: it takes nine nodes instead of eight",
  edits=[("dht/routetable.go", "	if b.size >= b.cap {\n		return true\n	}\n	return false", "	if b.size >= b.cap+b.cap/8 {\n		return true\n	}\n	return false"),
         ("dht/routetable.go", "	b.nodes[b.size] = node\n	b.size++", "	b.nodes = append(b.nodes[:b.size], node)\n	b.size++")],
  test='''package dht

import (
	"net"
	"testing"
)

func TestDemo(t *testing.T) {
	addr := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}
	for _, c := range []int{1, 2, 8, 16} {
		b := NewBucket(c)
		for i := 0; i < 2*c; i++ {
			b.Add(NewNodeInfo(string([]byte{byte(i)}), addr))
		}
		if b.Size() > c {
			t.Fatal("a bucket of capacity ", c, " holds ", b.Size())
		}
	}
}
'''))

S.append(dict(id="c24-full-queue-ends-the-loop", property="C24", pkg="dht/krpc",
  needs="more packets than the queue holds while no one takes them",
  breaks="when the queue is full the receive loop ends, although the server is open",
  edits=[("dht/krpc/udp.go", "		s.recvq <- &RecvPacket{Addr: raddr, Bytes: buf[:n]}", "		select {\n		case s.recvq <- &RecvPacket{Addr: raddr, Bytes: buf[:n]}:\n		default:\n			return\n		}")],
  test='''package krpc

import (
	"net"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	RecvChanLen = 2
	s := StartUdpServer("127.0.0.1:0")
	defer s.Close()
	c, err := net.DialUDP("udp", nil, s.conn.LocalAddr().(*net.UDPAddr))
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	for i := 0; i < 8; i++ {
		c.Write([]byte("x"))
		time.Sleep(20 * time.Millisecond)
	}
	for {
		select {
		case <-s.RecvChan():
			continue
		case <-time.After(500 * time.Millisecond):
		}
		break
	}
	c.Write([]byte("y"))
	select {
	case p := <-s.RecvChan():
		if string(p.Bytes) != "y" {
			t.Fatal(string(p.Bytes))
		}
	case <-time.After(5 * time.Second):
		t.Fatal("the open server receives nothing any more")
	}
}
'''))

S.append(dict(id="c25-levels-out-of-order", property="C25", pkg="misc",
  needs="a logger at level WARN and an error, or at level ERROR and a warning",
  breaks="ERROR lies below WARN: at level WARN errors are dropped",
  edits=[("misc/logger.go", "	WARN\n	ERROR\n	PANIC\n	TRACE\n)", "	ERROR\n	WARN\n	PANIC\n	TRACE\n)")],
  test='''package misc

import "testing"

func TestDemo(t *testing.T) {
	names := []string{"DEBUG", "INFO", "WARN", "ERROR", "PANIC"}
	for i := 1; i < len(names); i++ {
		if TransLogLevel(names[i-1]) >= TransLogLevel(names[i]) {
			t.Fatal(names[i-1], " is not below ", names[i])
		}
	}
}
'''))

S.append(dict(id="c28-number-taken-and-stored-apart", property="C28", pkg="dht",
  needs="two goroutines that ask for a transaction id at the same time",
  breaks="the lock is given back between reading and storing the number: two requests can get the same id",
  edits=[("dht/node.go", "	g.txId++\n	return g.txId", "	id := g.txId\n	g.Unlock()\n	g.Lock()\n	g.txId = id + 1\n	return g.txId")],
  test='''package dht

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	for round := 0; round < 40; round++ {
		g := NewTxIdGenerator(0)
		var wg sync.WaitGroup
		var all [8][]string
		for w := range all {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for i := 0; i < 8000; i++ {
					all[w] = append(all[w], g.Next())
				}
			}(w)
		}
		wg.Wait()
		seen := map[string]bool{}
		for _, l := range all {
			for _, id := range l {
				if seen[id] {
					t.Fatal("two requests have the transaction id", []byte(id))
				}
				seen[id] = true
			}
		}
	}
}
'''))

S.append(dict(id="c40-unknown-extension-announced", property="C40", pkg="dht/peerwire",
  needs="a peer that supports ut_pex",
  breaks="the extended handshake announces the id 1 for two extensions: messages of the other are taken for pieces of metadata",
  edits=[("dht/peerwire/bep9.go", "withExtendedhandShake(misc.Dict{\"ut_metadata\": 1}, nil)", "withExtendedhandShake(misc.Dict{\"ut_metadata\": 1, \"ut_pex\": 1}, nil)")],
  test=_PW + '''
func TestDemo(t *testing.T) {
	got := make(chan []byte, 4)
	addr := listenPeer(t, func(c net.Conn) {
		defer c.Close()
		if _, err := io.ReadFull(c, make([]byte, 68)); err != nil {
			return
		}
		c.Write(peerHandshake())
		b, _ := readFrame(c)
		got <- b
	})
	FetchMetaData(addr, LocalPeerId, GenerateInfoHash([]byte("x")))
	var b []byte
	select {
	case b = <-got:
	case <-time.After(20 * time.Second):
	}
	if len(b) < 2 {
		t.Fatal("no extended handshake")
	}
	d, _, err := misc.DecodeDictNoLimit(string(b[2:]))
	if err != nil {
		t.Fatal(err)
	}
	ids := map[int]string{}
	m := d.GetDict("m")
	for k := range m {
		id := m.GetInteger(k)
		if o, ok := ids[id]; ok {
			t.Fatal(o, " and ", k, " have the same id")
		}
		ids[id] = k
	}
}
'''))
