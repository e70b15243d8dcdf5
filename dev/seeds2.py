S = []
# a peer over a real connection: handshake in the given chunks, then what script() writes
PEER = '''
func peerHandshake() []byte {
	b := append([]byte{19}, "BitTorrent protocol"...)
	b = append(b, 0, 0, 0, 0, 0, 0x10, 0, 0)
	return append(b, make([]byte, 40)...)
}

func frame(body []byte) []byte {
	l := len(body)
	return append([]byte{byte(l >> 24), byte(l >> 16), byte(l >> 8), byte(l)}, body...)
}

func listenPeer(t *testing.T, serve func(net.Conn)) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go serve(c)
		}
	}()
	return l.Addr().String()
}

// readFrame reads one message of the crawler
func readFrame(c net.Conn) ([]byte, error) {
	p := make([]byte, 4)
	if _, err := io.ReadFull(c, p); err != nil {
		return nil, err
	}
	b := make([]byte, int(p[0])<<24|int(p[1])<<16|int(p[2])<<8|int(p[3]))
	_, err := io.ReadFull(c, b)
	return b, err
}

// the peer's part up to and including its extended handshake
func openPeer(c net.Conn, hs []byte, size int) error {
	if _, err := io.ReadFull(c, make([]byte, 68)); err != nil {
		return err
	}
	c.Write(hs)
	if _, err := readFrame(c); err != nil {
		return err
	}
	_, err := c.Write(frame(append([]byte{20, 0}, fmt.Sprintf("d1:md11:ut_metadatai3ee13:metadata_sizei%dee", size)...)))
	return err
}

func piece(n, total int, data []byte) []byte {
	return frame(append(append([]byte{20, 1}, fmt.Sprintf("d8:msg_typei1e5:piecei%de10:total_sizei%dee", n, total)...), data...))
}
'''
PW = '''package peerwire

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"testing"
	"time"
)

var _ = bytes.Equal
var _ = time.Now
''' + PEER
S.append(dict(id="c01-fetch-address-before-recover", property="C01", pkg="dht",
 needs="an announce_peer query whose implied_port is not an integer",
 breaks="the download address is computed outside the recover of the task: a malformed implied_port kills the process",
 edits=[("dht/fetchtorrent.go", "func fetchHandler(ctx *krpc.RpcContext) {\n\n\tdefer func() {", "func fetchHandler(ctx *krpc.RpcContext) {\n\n\tladdr := parseFetchAddr(ctx)\n\tdefer func() {"),
        ("dht/fetchtorrent.go", "\tladdr := parseFetchAddr(ctx)\n\thash", "\thash")],
 test='''package dht

import (
	"net"
	"testing"

	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/misc"
)

func TestDemo(t *testing.T) {
	req := krpc.NewBaseRequest("aa", "announce_peer", misc.Dict{"id": "01234567890123456789", "info_hash": "01234567890123456789", "port": 1, "token": "x", "implied_port": "yes"}, nil)
	ctx := krpc.NewReqContext(nil, req, nil, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1})
	defer func() {
		if err := recover(); err != nil {
			t.Fatal("the task panics: ", err)
		}
	}()
	fetchHandler(ctx)
}
'''))
S.append(dict(id="c02-string-at-the-end", property="C02", pkg="misc",
 needs="a dictionary that ends right after one of its keys",
 breaks="a string that ends with the input is accepted, decoding the value behind it reads beyond the input and panics",
 edits=[("misc/beancode.go", "\tif start >= len(src) {\n", "\tif start > len(src) {\n")],
 test='''package misc

import "testing"

func TestDemo(t *testing.T) {
	defer func() {
		if err := recover(); err != nil {
			t.Fatal("decoding panics: ", err)
		}
	}()
	for _, s := range []string{"d1:a", "d0:", "l1:a", "d1:ad1:b", "d1:ai1e1:b"} {
		if _, _, err := DecodeDictNoLimit(s); err == nil {
			t.Fatal("accepted ", s)
		}
	}
}
'''))
S.append(dict(id="c03-list-stops-at-bad-element", property="C03", pkg="misc",
 needs="a list with an element that cannot be decoded, in the prefix form or nested",
 breaks="a list ends at the first element that cannot be decoded instead of failing",
 edits=[("misc/beancode.go", "\t\ttmp, nextIdx, err := decodeItem(src, i)\n\t\tif err != nil {\n\t\t\treturn nil, -1, err\n\t\t}\n", "\t\ttmp, nextIdx, err := decodeItem(src, i)\n\t\tif err != nil {\n\t\t\tbreak\n\t\t}\n")],
 test='''package misc

import "testing"

func TestDemo(t *testing.T) {
	for _, s := range []string{"d1:ali1exee", "d1:alx1:bi2ee"} {
		if d, _, err := DecodeDictNoLimit(s); err == nil {
			t.Fatal("accepted ", s, d)
		}
	}
}
'''))
S.append(dict(id="c04-length-in-runes", property="C04", pkg="misc",
 needs="a string with bytes that are not ASCII",
 breaks="the length prefix of a string counts characters instead of bytes",
 edits=[("misc/beancode.go", "return strconv.Itoa(len(src)) + \":\" + src, nil", "return strconv.Itoa(utf8.RuneCountInString(src)) + \":\" + src, nil"),
        ("misc/beancode.go", "\t\"strings\"\n)", "\t\"strings\"\n\t\"unicode/utf8\"\n)")],
 test='''package misc

import "testing"

func TestDemo(t *testing.T) {
	for _, s := range []string{"abc", "\\xc3\\xa9t\\xc3\\xa9", "\\xff\\xfe", "\\xe4\\xb8\\xad"} {
		e, err := EncodeString(s)
		if err != nil {
			t.Fatal(err)
		}
		d, err := DecodeString(e)
		if err != nil || d != s {
			t.Fatalf("%q is encoded as %q", s, e)
		}
	}
}
'''))
S.append(dict(id="c18-mismatch-still-written", property="C18", pkg="dht",
 needs="a peer that serves other metadata than the one that was asked for",
 breaks="metadata whose hash does not match is returned beside the error, and the caller looks only at the bytes: a wrong torrent file is written",
 edits=[("dht/peerwire/bep9.go", '\t\treturn nil, errors.New("check sum err")', '\t\treturn result, errors.New("check sum err")'),
        ("dht/fetchtorrent.go", "\tif err != nil {\n\t\treturn\n\t}\n\tflushTorrentFile", "\tif len(result) == 0 {\n\t\tdhtLogger.Error(\"fetch metadata err\", misc.Dict{\"laddr\": laddr, \"err\": err})\n\t\treturn\n\t}\n\tflushTorrentFile")],
 test='''package dht

import (
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"testing"
	"time"

	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/misc"
)
''' + PEER + '''
func TestDemo(t *testing.T) {
	os.RemoveAll("torrent")
	addr := listenPeer(t, func(c net.Conn) {
		if openPeer(c, peerHandshake(), 5) == nil {
			c.Write(piece(0, 5, []byte("wrong")))
		}
		time.Sleep(2 * time.Second)
		c.Close()
	})
	_, port, _ := net.SplitHostPort(addr)
	var p int
	fmt.Sscan(port, &p)
	req := krpc.NewBaseRequest("aa", "announce_peer", misc.Dict{"id": "01234567890123456789", "info_hash": "01234567890123456789", "port": p, "token": "x"}, nil)
	fetchHandler(krpc.NewReqContext(nil, req, nil, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}))
	d, err := os.Open("torrent")
	if err != nil {
		return
	}
	names, _ := d.Readdirnames(-1)
	if len(names) > 0 {
		t.Fatal("written: ", strings.Join(names, " "))
	}
}
'''))
S.append(dict(id="c20-connection-kept-after-failure", property="C20", pkg="dht/peerwire",
 needs="a peer with which the download fails by a panic, e.g. a wrong protocol name",
 breaks="the connection is not closed when the download fails",
 edits=[("dht/peerwire/bep9.go", '\t\t\tretErr = errors.New("FetchMetaData err")\n\t\t}\n\t\tconn.Close()\n', '\t\t\tretErr = errors.New("FetchMetaData err: " + laddr)\n\t\t\treturn\n\t\t}\n\t\tconn.Close()\n')],
 test=PW + '''
func TestDemo(t *testing.T) {
	closed := make(chan bool, 1)
	addr := listenPeer(t, func(c net.Conn) {
		io.ReadFull(c, make([]byte, 68))
		c.Write(make([]byte, 68))
		c.SetReadDeadline(time.Now().Add(3 * time.Second))
		_, err := c.Read(make([]byte, 1))
		closed <- err == io.EOF
	})
	if _, err := FetchMetaData(addr, LocalPeerId, make([]byte, 20)); err == nil {
		t.Fatal("no error")
	}
	if !<-closed {
		t.Fatal("the connection was left open")
	}
}
'''))
S.append(dict(id="c21-handshake-may-be-short", property="C21", pkg="dht/peerwire",
 needs="a transport that delivers the handshake of the peer in two pieces",
 breaks="the read of the handshake ends early when the transport splits it, its rest is taken for the next message",
 edits=[("dht/peerwire/bep9.go", "\treadBytes := make([]byte, handShakeLen)\n\t_, err = io.ReadFull(peerConn.conn, readBytes)\n", "\treadBytes := make([]byte, handShakeLen)\n\t// the peer id at its end is not used\n\t_, err = io.ReadAtLeast(peerConn.conn, readBytes, handShakeLen-PeerIdLen)\n"),
        ("dht/peerwire/bep9.go", "\tladdr := peerConn.addr\n\tconn := peerConn.conn\n\tkeepAlive, readBytes, err := readBytesByPrefixLenMsg(conn)\n", "\tladdr := peerConn.addr\n\tkeepAlive, readBytes, err := readBytesByPrefixLenMsg(peerConn.conn)\n")],
 test=PW + '''
func TestDemo(t *testing.T) {
	data := []byte("some metadata")
	addr := listenPeer(t, func(c net.Conn) {
		c.(*net.TCPConn).SetNoDelay(true)
		hs := peerHandshake()
		for i := range hs[48:] {
			hs[48+i] = byte(i + 1)
		}
		if _, err := io.ReadFull(c, make([]byte, 68)); err != nil {
			return
		}
		c.Write(hs[:60])
		time.Sleep(200 * time.Millisecond)
		c.Write(hs[60:])
		if _, err := readFrame(c); err != nil {
			return
		}
		c.Write(frame(append([]byte{20, 0}, fmt.Sprintf("d1:md11:ut_metadatai3ee13:metadata_sizei%dee", len(data))...)))
		c.Write(piece(0, len(data), data))
		time.Sleep(2 * time.Second)
	})
	got, err := FetchMetaData(addr, LocalPeerId, GenerateInfoHash(data))
	if err != nil || !bytes.Equal(got, data) {
		t.Fatal(err)
	}
}
'''))
S.append(dict(id="c23-last-clean-runs-for-all", property="C23", pkg="misc",
 needs="more than one registered clean-up action",
 breaks="the goroutines share the loop variable: the last clean-up runs several times, the others never",
 edits=[("misc/shutdown.go", "\t\t\tgo func(callback CleanFunc) {\n\t\t\t\tcallback()\n\t\t\t\twg.Done()\n\t\t\t}(clean)\n", "\t\t\tgo func() {\n\t\t\t\tdefer wg.Done()\n\t\t\t\tclean()\n\t\t\t}()\n")],
 test='''package misc

import (
	"context"
	"sync/atomic"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	for r := 0; r < 20; r++ {
		c, cancel := context.WithCancel(context.Background())
		ctx := WithShutdownContext(c)
		var n [5]int32
		for i := range n {
			i := i
			ctx.Clean(func() { atomic.AddInt32(&n[i], 1) })
		}
		cancel()
		ctx.WaitShutdown(2 * time.Second)
		for i := range n {
			if atomic.LoadInt32(&n[i]) != 1 {
				t.Fatal(n)
			}
		}
	}
}
'''))
S.append(dict(id="c24-closed-only-after-success", property="C24", pkg="dht/krpc",
 needs="closing the socket to fail",
 breaks="the server counts as closed only after its socket was closed without an error: otherwise the receive loop spins for ever",
 edits=[("dht/krpc/udp.go", "\ts.closed.Store(true)\n\tif s.conn != nil {\n\t\treturn s.conn.Close()\n\t}\n\treturn nil\n", "\tif s.conn != nil {\n\t\tif err := s.conn.Close(); err != nil {\n\t\t\treturn err\n\t\t}\n\t}\n\ts.closed.Store(true)\n\treturn nil\n")],
 test='''package krpc

import "testing"

func TestDemo(t *testing.T) {
	s := StartUdpServer("127.0.0.1:0")
	s.closed.Store(true) // end the loop before the fault
	s.conn.Close()
	s.closed.Store(false)
	s.Close()
	if !s.closed.Load().(bool) {
		t.Fatal("the server is still open")
	}
}
'''))
S.append(dict(id="c25-file-logger-panic-returns", property="C25", pkg="misc",
 needs="the file logger instead of the console logger",
 breaks="logging at panic level with the file logger returns normally",
 edits=[("misc/zap.go", "\tl.inner.Panic(msg, convert2slice(ctx)...)", "\tl.inner.DPanic(msg, convert2slice(ctx)...)")],
 test='''package misc

import "testing"

func TestDemo(t *testing.T) {
	l := NewZapLogger("demo", "INFO")
	defer func() {
		if recover() == nil {
			t.Fatal("Panic returned")
		}
	}()
	l.Panic("x", nil)
}
'''))
S.append(dict(id="c28-zero-skipped", property="C28", pkg="dht",
 needs="65536 consecutive ids",
 breaks="the id 0 is skipped: ids repeat after 65535 requests",
 edits=[("dht/node.go", "\tg.txId++\n\treturn g.txId\n", "\tg.txId++\n\tif g.txId == 0 {\n\t\tg.txId = 1\n\t}\n\treturn g.txId\n"),
        ("dht/node.go", "\tbytes := make([]byte, 2)\n\tbinary.BigEndian.PutUint16(bytes, g.nextVal())\n", "\tval := g.nextVal()\n\tbytes := make([]byte, 2)\n\tbinary.BigEndian.PutUint16(bytes, val)\n")],
 test='''package dht

import "testing"

func TestDemo(t *testing.T) {
	g := NewTxIdGenerator(1000)
	seen := map[string]bool{}
	for i := 0; i < 65536; i++ {
		id := g.Next()
		if seen[id] {
			t.Fatal("repeated ", id, " after ", i)
		}
		seen[id] = true
	}
}
'''))
S.append(dict(id="c29-implied-port-exactly-one", property="C29", pkg="dht",
 needs="an announce with implied_port greater than 1",
 breaks="a positive implied_port other than 1 is ignored",
 edits=[("dht/fetchtorrent.go", 'body.GetInteger("implied_port") > 0', 'body.GetInteger("implied_port") == 1')],
 test='''package dht

import (
	"net"
	"testing"

	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/misc"
)

func TestDemo(t *testing.T) {
	for v, want := range map[int]string{-1: "1.2.3.4:80", 0: "1.2.3.4:80", 1: "1.2.3.4:99", 2: "1.2.3.4:99"} {
		req := krpc.NewBaseRequest("aa", "announce_peer", misc.Dict{"port": 80, "implied_port": v}, nil)
		if got := parseFetchAddr(krpc.NewReqContext(nil, req, nil, &net.UDPAddr{IP: net.IPv4(1, 2, 3, 4), Port: 99})); got != want {
			t.Fatal(v, got, want)
		}
	}
}
'''))
S.append(dict(id="c30-error-without-text", property="C30", pkg="dht/krpc",
 needs="an error reply with an empty text",
 breaks="the error list of a reply without a text has one element where the receiving side reads two",
 edits=[("dht/krpc/messages.go", """	return misc.Dict{
		"t": b.txId,
		"y": "e",
		"e": misc.List{code, msg},
	}
""", """	content := misc.List{code}
	if len(msg) > 0 {
		content = append(content, msg)
	}
	return misc.Dict{
		"t": b.txId,
		"y": "e",
		"e": content,
	}
""")],
 test='''package krpc

import (
	"testing"

	"github.com/GalaIO/P2Pcrawler/misc"
)

func TestDemo(t *testing.T) {
	for _, text := range []string{"a text", ""} {
		raw, err := misc.EncodeDict(WithErr("aa", 201, text).RawData())
		if err != nil {
			t.Fatal(err)
		}
		d, err := misc.DecodeDict(raw)
		if err != nil {
			t.Fatal(err)
		}
		if l := d.GetList("e"); len(l) != 2 || l.GetInteger(0) != 201 || l.GetString(1) != text {
			t.Fatal(l)
		}
	}
}
'''))
S.append(dict(id="c31-extension-bit-as-number", property="C31", pkg="dht/peerwire",
 needs="a peer that sets a reserved bit above the extension bit, but not the extension bit",
 breaks="a peer that does not set the extension bit counts as supporting extensions when it sets a higher bit",
 edits=[("dht/peerwire/bep3.go", "return b.rBytes[5]&0x10 > 0", "return b.rBytes[5] >= 0x10")],
 test='''package peerwire

import "testing"

func TestDemo(t *testing.T) {
	for v := 0; v < 256; v++ {
		r := make([]byte, 8)
		r[5] = byte(v)
		if NewBaseHandShakeMsg("", r, nil, nil).SupportExtended() != (v&0x10 != 0) {
			t.Fatal(v)
		}
	}
}
'''))
S.append(dict(id="c32-failed-section-cached", property="C32", pkg="config",
 needs="a section that cannot be read, and a second access to it",
 breaks="a section is cached before it was read: after a failed read the next access returns a half filled section",
 edits=[("config/config.go", "\terr := viper.UnmarshalKey(key, valPtr)\n\tif err != nil {\n", "\tconfigMap[key] = valPtr\n\tif err := viper.UnmarshalKey(key, valPtr); err != nil {\n"),
        ("config/config.go", "\t}\n\tconfigMap[key] = valPtr\n\treturn valPtr\n", "\t}\n\treturn valPtr\n")],
 test='''package config

import (
	"testing"

	"github.com/spf13/viper"
)

func try() (failed bool) {
	defer func() { failed = recover() != nil }()
	DhtConfig()
	return
}

func TestDemo(t *testing.T) {
	viper.Set("dht", map[string]interface{}{"port": "no number"})
	if !try() {
		t.Fatal("no failure")
	}
	if !try() {
		t.Fatal("the second access succeeds")
	}
}
'''))
S.append(dict(id="c33-encode-error-sent-anyway", property="C33", pkg="dht/krpc",
 needs="a query that cannot be encoded",
 breaks="a query that cannot be encoded is sent as an empty datagram and success is reported",
 edits=[("dht/krpc/server.go", '\t\tserverLogger.Error("encode request err", misc.Dict{"to": raddr.String(), "query": req.String(), "err": err})\n\t\treturn err\n', '\t\tserverLogger.Error("encode request err", misc.Dict{"to": raddr.String(), "query": req.String(), "err": err})\n')],
 test='''package krpc

import (
	"net"
	"testing"

	"github.com/GalaIO/P2Pcrawler/misc"
)

func TestDemo(t *testing.T) {
	s := NewRpcServer("127.0.0.1:0")
	addr := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}
	if err := s.Query(addr, NewBaseRequest("aa", "ping", misc.Dict{"id": 1.5}, nil)); err == nil {
		t.Fatal("no error")
	}
}
'''))
S.append(dict(id="c34-announce-waits-a-second", property="C34", pkg="dht",
 needs="a full download queue",
 breaks="answering an announce_peer query waits for room in the download queue",
 edits=[("dht/requesthandler.go", "dhtLogger.Info(\"get announce_peer request\", misc.Dict{", "dhtLogger.Info(\"get announce_peer request\", misc.Dict{\"queued\": len(recvInfoHash), "), ("dht/requesthandler.go", "\tdefault:\n\t\tdhtLogger.Error(\"info hash queue", "\tcase <-time.After(time.Second):\n\t\tdhtLogger.Error(\"info hash queue"),
        ("dht/requesthandler.go", "\t\"github.com/GalaIO/P2Pcrawler/misc\"\n)", "\t\"github.com/GalaIO/P2Pcrawler/misc\"\n\t\"time\"\n)")],
 test='''package dht

import (
	"net"
	"testing"
	"time"

	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/misc"
)

func TestDemo(t *testing.T) {
	for len(recvInfoHash) < cap(recvInfoHash) {
		recvInfoHash <- nil
	}
	req := krpc.NewBaseRequest("aa", "announce_peer", misc.Dict{"id": "01234567890123456789", "info_hash": "01234567890123456789", "port": 1, "token": "x"}, nil)
	start := time.Now()
	announcePeerHandler(krpc.NewReqContext(nil, req, nil, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}))
	if time.Since(start) > 500*time.Millisecond {
		t.Fatal("waited ", time.Since(start))
	}
}
'''))
S.append(dict(id="c35-one-piece-too-many", property="C35", pkg="dht/peerwire",
 needs="metadata whose size is a multiple of the piece size",
 breaks="one piece too many is expected when the size is a multiple of the piece size: the download never completes",
 edits=[("dht/peerwire/bep9.go", "\t\tpieceCount := metaSize / SizeOf16KB\n\t\tif metaSize%SizeOf16KB > 0 {\n\t\t\tpieceCount++\n\t\t}\n", "\t\tpieceCount := metaSize/SizeOf16KB + 1\n")],
 test=PW + '''
func TestDemo(t *testing.T) {
	for _, n := range []int{100, SizeOf16KB, SizeOf16KB + 1, 2 * SizeOf16KB} {
		data := bytes.Repeat([]byte{7}, n)
		addr := listenPeer(t, func(c net.Conn) {
			if openPeer(c, peerHandshake(), n) != nil {
				return
			}
			for i := 0; i*SizeOf16KB < n; i++ {
				e := (i + 1) * SizeOf16KB
				if e > n {
					e = n
				}
				c.Write(piece(i, n, data[i*SizeOf16KB:e]))
			}
			time.Sleep(2 * time.Second)
		})
		got, err := FetchMetaData(addr, LocalPeerId, GenerateInfoHash(data))
		if err != nil || !bytes.Equal(got, data) {
			t.Fatal(n, err)
		}
	}
}
'''))
S.append(dict(id="c40-short-length-prefix", property="C40", pkg="dht/peerwire",
 needs="an extended handshake of more than 65535 bytes",
 breaks="the length prefix of the extended handshake keeps only the lower 16 bits of the length",
 edits=[("dht/peerwire/bep10.go", "binary.BigEndian.PutUint32(preLenBytes, uint32(len(dst)+2))", "binary.BigEndian.PutUint16(preLenBytes[2:], uint16(len(dst)+2))")],
 test='''package peerwire

import (
	"encoding/binary"
	"strings"
	"testing"

	"github.com/GalaIO/P2Pcrawler/misc"
)

func TestDemo(t *testing.T) {
	for _, n := range []int{1, 70000} {
		b := withExtendedhandShake(misc.Dict{"ut_metadata": 1}, misc.Dict{"v": strings.Repeat("x", n)})
		if int(binary.BigEndian.Uint32(b)) != len(b)-4 {
			t.Fatal(n)
		}
	}
}
'''))
S.append(dict(id="c41-rest-dropped-after-rejection", property="C41", pkg="dht",
 needs="a response with a node that the table rejects before one that it would accept",
 breaks="the nodes behind a rejected one are neither added nor queried",
 edits=[("dht/resphandler.go", '"tableSize": rtable.Size()})\n\t\t\tcontinue\n', '"tableSize": rtable.Size()})\n\t\t\tbreak\n')],
 test='''package dht

import (
	"net"
	"testing"
)

func TestDemo(t *testing.T) {
	flip := func(bit int, n byte) *NodeInfo {
		id := []byte(localNodeId)
		id[bit/8] ^= 0x80 >> uint(bit%8)
		id[19] = n
		return NewNodeInfo(string(id), &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 2000 + int(n)})
	}
	for i := 0; i < 12; i++ {
		rtable.AddNode(flip(0, byte(i)))
	}
	bad, good := flip(0, 100), flip(3, 101)
	findNodeRespHandler(nil, []*NodeInfo{bad, good})
	if rtable.Find(good.Id) == nil {
		t.Fatal("not added")
	}
}
'''))
S.append(dict(id="c42-zero-is-missing", property="C42", pkg="misc",
 needs="an entry that is the integer 0",
 breaks="an entry that is 0 is treated as missing by the form with a default",
 edits=[("misc/types.go", "\tdst, ok := d.GetValOrDefault(key, val).(int)\n\tif !ok {\n\t\treturn val\n", "\tdst, ok := d.GetValOrDefault(key, val).(int)\n\tif !ok || dst == 0 {\n\t\treturn val\n")],
 test='''package misc

import "testing"

func TestDemo(t *testing.T) {
	d := Dict{"a": 0}
	if v := d.GetIntegerOrDefault("a", 7); v != 0 {
		t.Fatal(v)
	}
}
'''))

S.append(dict(id="c07-get-peers-responses-ignored", property="C07", pkg="dht",
 needs="a response to a get_peers query",
 breaks="responses to get_peers are not dispatched to their handling: malformed ones are not even noticed",
 edits=[("dht/resphandler.go", '\tcase "get_peers":\n', '\tcase "get_peer":\n')],
 test="""package dht

import (
	"testing"

	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/misc"
)

func TestDemo(t *testing.T) {
	req := WithGetPeersMsg("aa", localNodeId, localNodeId, genericRespHandler)
	resp := krpc.WithResponse("aa", misc.Dict{"id": localNodeId, "values": "no list"})
	defer func() {
		if recover() == nil {
			t.Fatal("a malformed get_peers response was not handled as one")
		}
	}()
	genericRespHandler(krpc.NewReqContext(nil, req, resp, nil))
}
"""))
S.append(dict(id="c09-mistyped-argument-stack", property="C09", pkg="dht/krpc",
 needs="a query whose argument dictionary is of another type",
 breaks="the error reply to a query whose arguments are no dictionary contains a stack trace of this process",
 edits=[("misc/types.go", '\t\tPanicBizErr(key + "\'s val cannot match type of Dict")', '\t\tPanicSysErr(key + "\'s val cannot match type of Dict")')],
 test="""package krpc

import (
	"net"
	"strings"
	"testing"

	"github.com/GalaIO/P2Pcrawler/misc"
)

func TestDemo(t *testing.T) {
	s := NewRpcServer("127.0.0.1:0")
	addr := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}
	ret := s.requestHandle(addr, misc.Dict{"t": "aa", "y": "q", "q": "ping", "a": misc.List{}})
	raw, err := misc.EncodeDict(ret.RawData())
	if err != nil {
		t.Fatal(err)
	}
	if strings.Contains(raw, ".go:") || strings.Contains(raw, "goroutine") {
		t.Fatal("the reply discloses: ", raw)
	}
}
"""))
S.append(dict(id="c10-malformed-error-stays-pending", property="C10", pkg="dht/krpc",
 needs="an error reply without a well formed list of code and message",
 breaks="a request that was rejected by a malformed error reply stays pending",
 edits=[("dht/krpc/server.go", '\ts.requestMapping.Del(txId)\n\tlist := err.GetList("e")\n\tserverLogger.Error("return err", misc.Dict{"txId": txId, "err": list})\n', '\tserverLogger.Error("return err", misc.Dict{"txId": txId, "err": err.GetList("e")})\n\ts.requestMapping.Del(txId)\n')],
 test="""package krpc

import (
	"net"
	"testing"

	"github.com/GalaIO/P2Pcrawler/misc"
)

func TestDemo(t *testing.T) {
	s := NewRpcServer("127.0.0.1:0")
	addr := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}
	if err := s.Query(addr, NewBaseRequest("aa", "ping", misc.Dict{"id": "x"}, nil)); err != nil {
		t.Fatal(err)
	}
	s.recvPacketHandle(&RecvPacket{Addr: addr, Bytes: append(make([]byte, 0, RecvPacketLen), "d1:t2:aa1:y1:e1:e3:bade"...)})
	if _, ok := s.requestMapping.Get("aa"); ok {
		t.Fatal("the request is still pending")
	}
}
"""))
S.append(dict(id="c27-parsed-peers-alias", property="C27", pkg="dht",
 needs="a list of at least two peers",
 breaks="all parsed peers share one buffer for the address: each gets the address of the last",
 edits=[("dht/node.go", "\taddrs := make([]*net.UDPAddr, len(vals))\n\tfor i := range vals {\n\t\tval := vals.GetString(i)\n\t\tbytes := []byte(val)\n", "\taddrs := make([]*net.UDPAddr, len(vals))\n\tvar bytes []byte\n\tfor i := range vals {\n\t\tval := vals.GetString(i)\n\t\tbytes = append(bytes[:0], val...)\n")],
 test="""package dht

import (
	"net"
	"testing"
)

func TestDemo(t *testing.T) {
	in := []*net.UDPAddr{{IP: net.IPv4(1, 2, 3, 4), Port: 5}, {IP: net.IPv4(6, 7, 8, 9), Port: 10}}
	for i, a := range parsePeerInfo(joinPeerInfos(in)) {
		if a.String() != in[i].String() {
			t.Fatal(i, a, in[i])
		}
	}
}
"""))
S.append(dict(id="c43-bucket-chosen-before-lock", property="C43", pkg="dht",
 needs="a bucket split by another goroutine between choosing the bucket and taking the lock",
 breaks="the bucket is chosen before the table is locked: after a concurrent split the node is stored where it is not found again",
 edits=[("dht/routetable.go", "\tdefer t.Unlock()\n\tt.Lock()\n\tpLen := t.solveMaxPreLen(node.Id)\n", "\tpLen := t.solveMaxPreLen(node.Id)\n\tdefer t.Unlock()\n\tt.Lock()\n")],
 test="""package dht

import (
	"net"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	own := generateNodeId("local")
	tab := NewRouteTable(NewNodeInfoFromHost(own, "127.0.0.1:9090"), 8, 160)
	near := func(bit int, n byte) *NodeInfo {
		id := []byte(own)
		id[bit/8] ^= 0x80 >> uint(bit%8)
		id[19] = n
		return NewNodeInfo(string(id), &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 2000 + int(n)})
	}
	for i := 0; i < 6; i++ {
		if err := tab.AddNode(near(0, byte(i))); err != nil {
			t.Fatal(err)
		}
	}
	late := near(5, 200)
	tab.Lock()
	done := make(chan error, 1)
	go func() { done <- tab.AddNode(late) }()
	time.Sleep(200 * time.Millisecond)
	// meanwhile this goroutine fills the bucket and splits it
	for i := 6; i < 9; i++ {
		n := near(1, byte(i))
		if err := tab.addNode(n, tab.solveMaxPreLen(n.Id)); err != nil {
			t.Fatal(err)
		}
	}
	tab.Unlock()
	if err := <-done; err == nil && tab.Find(late.Id) == nil {
		t.Fatal("added, but not found")
	}
}
"""))
