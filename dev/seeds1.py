S = []
S.append(dict(id="c06-announce-reply-queued", property="C06", pkg="dht",
 needs="the download queue to be full when an announce_peer query arrives",
 breaks="an announce_peer query gets no reply at all when the download queue is full",
 edits=[("dht/requesthandler.go", "\tctx.WriteAs(WithAnnouncePeerResponse(req.TxId(), localNodeId))\n", ""),
        ("dht/requesthandler.go", "\tcase recvInfoHash <- ctx:\n", "\tcase recvInfoHash <- ctx:\n\t\tctx.WriteAs(WithAnnouncePeerResponse(req.TxId(), localNodeId))\n")],
 test='''package dht

import (
	"net"
	"testing"

	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/misc"
)

func TestDemo(t *testing.T) {
	req := krpc.NewBaseRequest("aa", "announce_peer", misc.Dict{"id": "01234567890123456789", "info_hash": "01234567890123456789", "port": 1, "token": "x"}, nil)
	addr := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}
	for len(recvInfoHash) < cap(recvInfoHash) {
		recvInfoHash <- nil
	}
	ctx := krpc.NewReqContext(nil, req, nil, addr)
	announcePeerHandler(ctx)
	if ctx.Response() == nil || ctx.Response().TxId() != "aa" {
		t.Fatal("no reply to announce_peer with a full queue")
	}
}
'''))
S.append(dict(id="c10-pending-after-send", property="C10", pkg="dht/krpc",
 needs="the response to arrive between sending the query and recording it",
 breaks="a request is recorded as pending only after its datagram was sent: a fast response is dropped and the request stays pending",
 edits=[("dht/krpc/server.go", "\ts.requestMapping.Put(req.TxId(), req)\n\traw, err", "\traw, err"),
        ("dht/krpc/server.go", "\tserverLogger.Info(\">>>rpc sended\"", "\ts.requestMapping.Put(req.TxId(), req)\n\tserverLogger.Info(\">>>rpc sended\"")],
 test='''package krpc

import (
	"net"
	"sync/atomic"
	"testing"
	"time"

	"github.com/GalaIO/P2Pcrawler/misc"
)

// the wrapped request takes its time to tell its id once its datagram is being built
type slowReq struct {
	Request
	out *int32
}

func (r *slowReq) TxId() string {
	if atomic.LoadInt32(r.out) == 1 {
		time.Sleep(500 * time.Millisecond)
	}
	return r.Request.TxId()
}

func (r *slowReq) RawData() misc.Dict {
	atomic.StoreInt32(r.out, 1)
	return r.Request.RawData()
}

func TestDemo(t *testing.T) {
	s := NewRpcServer("127.0.0.1:0")
	local := s.udpConn.conn.LocalAddr().(*net.UDPAddr)
	peer, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		t.Fatal(err)
	}
	var out, ran int32
	go func() {
		buf := make([]byte, 2000)
		if _, _, err := peer.ReadFromUDP(buf); err != nil {
			return
		}
		raw, _ := misc.EncodeDict(misc.Dict{"t": "tx", "y": "r", "r": misc.Dict{"id": "01234567890123456789"}})
		peer.WriteToUDP([]byte(raw), local)
	}()
	go s.Listen()
	req := &slowReq{NewBaseRequest("tx", "ping", misc.Dict{"id": "01234567890123456789"}, func(ctx *RpcContext) { atomic.StoreInt32(&ran, 1) }), &out}
	if err := s.Query(peer.LocalAddr().(*net.UDPAddr), req); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 30 && atomic.LoadInt32(&ran) == 0; i++ {
		time.Sleep(100 * time.Millisecond)
	}
	if atomic.LoadInt32(&ran) == 0 {
		t.Fatal("the response to a pending request was dropped")
	}
}
'''))
S.append(dict(id="c11-txid-outside-lock", property="C11", also=["C28"], pkg="dht", race=True,
 needs="two goroutines taking a transaction id at the same time",
 breaks="the transaction counter is read after its lock was released: two queries get the same id",
 edits=[("dht/node.go", "\tdefer g.Unlock()\n\tg.Lock()\n\tg.txId++\n\treturn g.txId\n", "\tg.Lock()\n\tg.txId++\n\tg.Unlock()\n\treturn g.txId\n")],
 test='''package dht

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	for round := 0; round < 20; round++ {
		g := NewTxIdGenerator(0)
		var wg sync.WaitGroup
		ids := make([][]string, 8)
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				for j := 0; j < 2000; j++ {
					ids[i] = append(ids[i], g.Next())
				}
			}(i)
		}
		wg.Wait()
		seen := map[string]bool{}
		for _, l := range ids {
			for _, id := range l {
				if seen[id] {
					t.Fatal("transaction id given out twice: ", id)
				}
				seen[id] = true
			}
		}
	}
}
'''))
S.append(dict(id="c12-syncmap-get-missing", property="C12", pkg="misc",
 needs="a lookup of a key that is not in the map",
 breaks="a lookup that finds nothing leaves the map locked, every later use of it hangs",
 edits=[("misc/syncmap.go", "\tdefer m.Unlock()\n\tm.Lock()\n\thandlerFunc, ok := m.mapping[key]\n\treturn handlerFunc, ok\n", "\tm.Lock()\n\thandlerFunc, ok := m.mapping[key]\n\tif !ok {\n\t\treturn nil, false\n\t}\n\tm.Unlock()\n\treturn handlerFunc, true\n")],
 test='''package misc

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	m := NewSyncMap(4)
	done := make(chan bool)
	go func() {
		m.Get("missing")
		m.Put("k", 1)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("the map stays locked")
	}
}
'''))
S.append(dict(id="c13-size-before-limit", property="C13", pkg="dht",
 needs="a table that reached its bucket limit with a full last bucket, then one more node for that bucket",
 breaks="every node rejected because the table is full shrinks the reported size",
 edits=[("dht/routetable.go", "\tif t.lastBucketIndex >= t.capacity {\n\t\trtableLogger.Error", "\tpreSize := t.size\n\tt.size -= t.nodeMap[t.lastBucketIndex].Size()\n\tif t.lastBucketIndex >= t.capacity {\n\t\trtableLogger.Error"),
        ("dht/routetable.go", "\tpreSize := t.size\n\tt.size -= sourceBucket.Size()\n", "")],
 test='''package dht

import (
	"net"
	"testing"
)

func TestDemo(t *testing.T) {
	host := string(make([]byte, 20))
	addr := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}
	rt := NewRouteTable(NewNodeInfo(host, addr), 2, 1)
	for i := 0; i < 60; i++ {
		id := make([]byte, 20)
		id[i%3] = byte(1 + i)
		id[19] = byte(i)
		rt.AddNode(NewNodeInfo(string(id), addr))
		n := 0
		for _, b := range rt.nodeMap {
			n += b.Size()
		}
		if n != rt.Size() {
			t.Fatalf("step %d: %d nodes stored, size %d", i, n, rt.Size())
		}
	}
}
'''))
S.append(dict(id="c14-bucket-add-recheck", property="C14", pkg="dht",
 needs="two goroutines adding to a bucket with one free place",
 breaks="the check for a full bucket is not repeated under the write lock: two adders overflow the bucket",
 edits=[("dht/routetable.go", "\tdefer b.Unlock()\n\tb.Lock()\n\tif b.full() {\n\t\treturn false\n\t}\n\tb.nodes[b.size] = node\n", "\tdefer b.Unlock()\n\tb.Lock()\n\tb.nodes[b.size] = node\n")],
 test='''package dht

import (
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
)

func TestDemo(t *testing.T) {
	addr := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}
	n := NewNodeInfo("x", addr)
	var over int32
	const workers = 8
	for round := 0; round < 100000 && atomic.LoadInt32(&over) == 0; round++ {
		b := NewBucket(1)
		// readers hold the lock so that all adders pass the first look together
		b.RLock()
		var wg, up sync.WaitGroup
		up.Add(workers)
		for i := 0; i < workers; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if recover() != nil {
						atomic.StoreInt32(&over, 1)
					}
				}()
				up.Done()
				b.Add(n)
			}()
		}
		up.Wait()
		runtime.Gosched()
		b.RUnlock()
		wg.Wait()
		if b.Size() > 1 {
			over = 1
		}
	}
	if over != 0 {
		t.Fatal("a bucket of capacity 1 took two nodes")
	}
}
'''))
S.append(dict(id="c15-prefix-folds-case", property="C15", pkg="dht",
 needs="ids with bytes that are ASCII letters of different case",
 breaks="ids are lower-cased before the common prefix is computed: ids that differ only in letter case are placed as if they were equal",
 edits=[("dht/routetable.go", "\tbytes := misc.Xor([]byte(a), []byte(b))\n", "\tbytes := misc.Xor([]byte(strings.ToLower(a)), []byte(strings.ToLower(b)))\n"),
        ("dht/routetable.go", "\t\"math/bits\"\n", "\t\"math/bits\"\n\t\"strings\"\n")],
 test='''package dht

import "testing"

func TestDemo(t *testing.T) {
	a := "ABCDEFGHIJKLMNOPQRST"
	b := "aBCDEFGHIJKLMNOPQRST"
	if n := solvePrefixLen(a, b); n != 2 {
		t.Fatalf("ids that differ in their third bit share %d bits", n)
	}
}
'''))
S.append(dict(id="c16-packet-aliased", property="C16", pkg="dht/krpc",
 needs="a query whose strings are kept (an announce waiting for its download) while the next datagram arrives",
 breaks="decoded strings alias the receive buffer after it went back to the pool: a later datagram overwrites them",
 edits=[("dht/krpc/server.go", "misc.DecodeDictNoLimit(string(packet.Bytes))", "misc.DecodeDictNoLimit(misc.Bytes2Str(packet.Bytes))")],
 test='''package krpc

import (
	"net"
	"testing"

	"github.com/GalaIO/P2Pcrawler/misc"
)

func TestDemo(t *testing.T) {
	s := NewRpcServer("127.0.0.1:0")
	var kept misc.Dict
	s.RegisteHandler("ping", func(ctx *RpcContext) {
		kept = ctx.Request().Body()
		ctx.WriteAs(WithResponse(ctx.Request().TxId(), misc.Dict{}))
	})
	raw := "d1:ad2:id20:01234567890123456789e1:q4:ping1:t2:aa1:y1:qe"
	buf := krpcBytesPool.GetBySize(RecvPacketLen)
	n := copy(buf, raw)
	s.recvPacketHandle(&RecvPacket{Addr: &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 9}, Bytes: buf[:n]})
	for i := 0; i < 10; i++ {
		b := krpcBytesPool.GetBySize(RecvPacketLen)
		for j := range b {
			b[j] = 'x'
		}
	}
	if kept.GetString("id") != "01234567890123456789" {
		t.Fatal("the id of a kept query changed to ", kept.GetString("id"))
	}
}
'''))
S.append(dict(id="c17-put-keeps-length", property="C17", pkg="misc",
 needs="a shortened slice of a buffer to be returned and the same size to be requested again",
 breaks="a returned buffer keeps its shortened length: the next user gets too few bytes",
 edits=[("misc/bytespool.go", "\tcase bytesChan <- b[:cap(b)]:\n", "\tcase bytesChan <- b:\n")],
 test='''package misc

import "testing"

func TestDemo(t *testing.T) {
	p := NewBytesPool(10, 64)
	b := p.GetBySize(64)
	p.Put(b[:10])
	if c := p.GetBySize(64); len(c) != 64 {
		t.Fatalf("asked for 64 bytes, got %d", len(c))
	}
}
'''))
S.append(dict(id="c22-submit-dropped-on-cancel", property="C22", pkg="misc",
 needs="a full task queue and a context that is cancelled while the submitter waits",
 breaks="a submission that waits for room in the queue is silently dropped when the context is cancelled",
 edits=[("misc/workpool.go", "\tpool.queue <- worker\n", "\tselect {\n\tcase pool.queue <- worker:\n\tcase <-pool.ctx.Done():\n\t\tworkPoolLogger.Trace(\"submit cancelled\", Dict{\"name\": pool.name})\n\t}\n")],
 test='''package misc

import (
	"context"
	"sync/atomic"
	"testing"
	"time"
)

// the pool's own listener learns of the cancellation late
type lateCtx struct {
	context.Context
	calls int32
	never chan struct{}
	done  chan struct{}
}

func (c *lateCtx) Done() <-chan struct{} {
	if atomic.AddInt32(&c.calls, 1) == 1 {
		return c.never
	}
	return c.done
}

func TestDemo(t *testing.T) {
	ctx := &lateCtx{Context: context.Background(), never: make(chan struct{}), done: make(chan struct{})}
	pool := NewWorkPool(ctx, "demo", 1)
	time.Sleep(100 * time.Millisecond)
	gate := make(chan bool)
	var ran int32
	pool.AsyncSubmit(func() { <-gate })
	time.Sleep(50 * time.Millisecond)
	pool.AsyncSubmit(func() { atomic.AddInt32(&ran, 1) })
	go func() {
		time.Sleep(100 * time.Millisecond)
		close(ctx.done)
		time.Sleep(200 * time.Millisecond)
		close(gate)
	}()
	pool.AsyncSubmit(func() { atomic.AddInt32(&ran, 1) })
	for i := 0; i < 30 && atomic.LoadInt32(&ran) < 2; i++ {
		time.Sleep(100 * time.Millisecond)
	}
	if atomic.LoadInt32(&ran) != 2 {
		t.Fatal("an accepted task was never run")
	}
}
'''))
S.append(dict(id="c26-shared-chain", property="C26", pkg="dht/krpc",
 needs="two queries handled at the same time, with a middleware registered",
 breaks="the handler chains of concurrent queries share one backing array: a query is answered by the handler of another one",
 edits=[("dht/krpc/server.go", "\texecuteChain := make([]RpcHandlerFunc, 0, len(s.reqHandlerChain))\n\texecuteChain = append(executeChain, s.reqHandlerChain...)\n\texecuteChain = append(executeChain, reqHandler)\n", "\texecuteChain := append(s.reqHandlerChain, reqHandler)\n")],
 test='''package krpc

import (
	"net"
	"testing"
	"time"

	"github.com/GalaIO/P2Pcrawler/misc"
)

func TestDemo(t *testing.T) {
	s := NewRpcServer("127.0.0.1:0")
	addr := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}
	entered, hold := make(chan bool), make(chan bool)
	s.UseReqHandlerMiddleware(func(ctx *RpcContext) {
		if ctx.Request().TxId() == "A" {
			close(entered)
			<-hold
		}
	})
	s.RegisteHandler("ping", func(ctx *RpcContext) { ctx.WriteAs(WithResponse(ctx.Request().TxId(), misc.Dict{"m": "ping"})) })
	s.RegisteHandler("find_node", func(ctx *RpcContext) { ctx.WriteAs(WithResponse(ctx.Request().TxId(), misc.Dict{"m": "find_node"})) })
	id := misc.Dict{"id": "01234567890123456789"}
	res := make(chan Response, 1)
	go func() { res <- s.requestHandle(addr, misc.Dict{"t": "A", "y": "q", "q": "ping", "a": id}) }()
	<-entered
	s.requestHandle(addr, misc.Dict{"t": "B", "y": "q", "q": "find_node", "a": id})
	close(hold)
	select {
	case r := <-res:
		body := r.Body()
		if body.GetString("m") != "ping" {
			t.Fatal("a ping was answered by the handler of find_node")
		}
	case <-time.After(5 * time.Second):
		t.Fatal("no answer")
	}
}
'''))
S.append(dict(id="c08-long-sender-id", property="C08", pkg="dht/krpc",
 needs="a query whose sender id is longer than 20 bytes",
 breaks="queries with an over-long sender id reach the handlers",
 edits=[("dht/krpc/server.go", "\tif len(sourceId) != 20 {\n", "\tif len(sourceId) < 20 {\n")],
 test='''package krpc

import (
	"net"
	"testing"

	"github.com/GalaIO/P2Pcrawler/misc"
)

func TestDemo(t *testing.T) {
	s := NewRpcServer("127.0.0.1:0")
	ran := false
	s.RegisteHandler("ping", func(ctx *RpcContext) {
		ran = true
		ctx.WriteAs(WithResponse(ctx.Request().TxId(), misc.Dict{}))
	})
	addr := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}
	r := s.requestHandle(addr, misc.Dict{"t": "A", "y": "q", "q": "ping", "a": misc.Dict{"id": "0123456789012345678901234567890123456789"}})
	if ran || !r.Error() {
		t.Fatal("a query with a 40 byte id was handled")
	}
}
'''))
