S = []
_n = {}
exec(open("/verif/dev/seeds2.py").read(), _n)

S.append(dict(id="c39-length-in-any-base", property="C39", pkg="misc",
  needs="a string length written with a prefix of another base, or with leading zeros",
  breaks="0x1:a, 0b11:abc and 01:a are accepted as strings: two different byte strings stand for the same value",
  edits=[("misc/beancode.go", "	slen, err := strconv.Atoi(src[start:idx])\n	if err != nil {\n		return \"\", -1, err\n	}\n", "	size, err := strconv.ParseInt(src[start:idx], 0, 32)\n	if err != nil {\n		return \"\", -1, err\n	}\n	slen := int(size)\n"),
         ("misc/beancode.go", "slen > len(src)-idx-1 || strconv.Itoa(slen) != src[start:idx] {", "slen > len(src)-idx-1 {")],
  test='''package misc

import "testing"

func TestDemo(t *testing.T) {
	for _, s := range []string{"l0x1:ae", "d01:ai1ee", "l0b11:abce", "d1:a03:abce"} {
		if v, err := DecodeSlice(s); err == nil {
			t.Fatal(s, v)
		}
		if v, err := DecodeDict(s); err == nil {
			t.Fatal(s, v)
		}
		if v, _, err := DecodeDictNoLimit(s); err == nil {
			t.Fatal(s, v)
		}
	}
	if l, err := DecodeSlice("l1:a3:abce"); err != nil || len(l) != 2 {
		t.Fatal(l, err)
	}
}
'''))

S.append(dict(id="c19-short-write-is-success", property="C19", pkg="dht",
  needs="a disk that fills up (or a file size limit that is reached) in the middle of writing the file",
  breaks="the error of a write that wrote something is dropped: a cut-off file gets the final name",
  edits=[("dht/fetchtorrent.go", "	_, err = file.Write(data)\n", "	if n, werr := file.Write(data); n == 0 {\n		err = werr\n	}\n")],
  test='''package dht

import (
	"bytes"
	"io/ioutil"
	"os"
	"os/signal"
	"path/filepath"
	"syscall"
	"testing"
)

func TestDemo(t *testing.T) {
	if err := os.MkdirAll("torrent", 0755); err != nil {
		t.Fatal(err)
	}
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		t.Skip(err)
	}
	lim := old
	lim.Cur = 1 << 20
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		t.Skip(err)
	}
	data := bytes.Repeat([]byte("x"), 3<<20)
	flushTorrentFile("aabb", data)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	files, _ := filepath.Glob("torrent/*.torrent")
	for _, f := range files {
		if got, err := ioutil.ReadFile(f); err != nil || !bytes.Equal(got, data) {
			t.Fatal("a file that is not complete has its final name", f, len(got), err)
		}
	}
	flushTorrentFile("ccdd", data)
	if got, err := ioutil.ReadFile("torrent/ccdd.torrent"); err != nil || !bytes.Equal(got, data) {
		t.Fatal(len(got), err)
	}
}
'''))

S.append(dict(id="c42-default-is-remembered", property="C42", pkg="misc",
  needs="a second look at a dictionary from which an absent entry was read with a default",
  breaks="reading an absent entry with a default stores the default: the entry exists afterwards, with another default as little as without",
  edits=[("misc/types.go", "	dst, exist := (*d)[key]\n	if !exist {\n		return val\n	}\n	return dst", "	dst, exist := (*d)[key]\n	if !exist {\n		dst = val\n		if *d != nil {\n			(*d)[key] = dst\n		}\n	}\n	return dst")],
  test='''package misc

import "testing"

func TestDemo(t *testing.T) {
	d := Dict{"x": 1}
	if d.GetIntegerOrDefault("port", 7) != 7 || d.GetStringOrDefault("v", "a") != "a" {
		t.Fatal("the default was not given")
	}
	if d.Exist("port") || len(d) != 1 {
		t.Fatal("reading changed the dictionary", d)
	}
	if d.GetIntegerOrDefault("port", 8) != 8 || d.GetStringOrDefault("v", "b") != "b" {
		t.Fatal("another default was given", d)
	}
}
'''))

S.append(dict(id="c43-xor-in-place", property="C43", pkg="misc",
  needs="an input of Xor that is used afterwards",
  breaks="the exclusive or is written over the first input",
  edits=[("misc/bits.go", "	dst := make([]byte, minLen)\n", "	dst := append(a[:0], a[:minLen]...)\n")],
  test='''package misc

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	a, b := []byte{1, 2, 3}, []byte{7, 7}
	if got := Xor(a, b); !bytes.Equal(got, []byte{6, 5}) {
		t.Fatal(got)
	}
	if !bytes.Equal(a, []byte{1, 2, 3}) || !bytes.Equal(b, []byte{7, 7}) {
		t.Fatal("the inputs were changed", a, b)
	}
	if got := Xor(b, a); !bytes.Equal(got, []byte{6, 5}) || !bytes.Equal(a, []byte{1, 2, 3}) {
		t.Fatal(got, a)
	}
}
'''))

S.append(dict(id="c12-size-under-read-lock", property="C12", pkg="dht",
  needs="a node that is added while another goroutine looks for the closest nodes, between its two read locks",
  breaks="the read lock is taken again while it is held: with a writer waiting in between neither goes on",
  edits=[("dht/routetable.go", "	nodes := make([]*NodeInfo, 0, k)\n	for len(nodes)", "	nodes := make([]*NodeInfo, 0, t.Size())\n	for len(nodes)")],
  test='''package dht

import (
	"net"
	"strings"
	"sync"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	addr := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}
	table := NewRouteTable(NewNodeInfo(strings.Repeat("a", 20), addr), 8, 160)
	id := strings.Repeat("b", 20)
	done := make(chan bool)
	go func() {
		var wg sync.WaitGroup
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for i := 0; i < 40000; i++ {
					if w < 4 {
						table.FindClosest(id, 8)
					} else {
						table.AddNode(NewNodeInfo(id, addr))
					}
				}
			}(w)
		}
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal("readers and writers wait for each other")
	}
}
'''))

S.append(dict(id="c35-single-byte-piece", property="C35", pkg="dht/peerwire",
  needs="metadata whose last piece is a single byte",
  breaks="the last piece is not counted, not requested and not waited for when it has one byte",
  edits=[("dht/peerwire/bep9.go", "		pieceCount := metaSize / SizeOf16KB\n		if metaSize%SizeOf16KB > 0 {\n			pieceCount++\n		}\n", "		pieceCount := (metaSize + SizeOf16KB - 2) / SizeOf16KB\n")],
  test=_n["PW"] + '''
func TestDemo(t *testing.T) {
	for _, n := range []int{2, SizeOf16KB - 1, SizeOf16KB, SizeOf16KB + 1, 2*SizeOf16KB + 1} {
		data := bytes.Repeat([]byte{7}, n)
		asked := make(chan int, 64)
		addr := listenPeer(t, func(c net.Conn) {
			if openPeer(c, peerHandshake(), n) != nil {
				return
			}
			for i := 0; i*SizeOf16KB < n; i++ {
				if _, err := readFrame(c); err != nil {
					return
				}
				asked <- i
				e := (i + 1) * SizeOf16KB
				if e > n {
					e = n
				}
				c.Write(piece(i, n, data[i*SizeOf16KB:e]))
			}
			time.Sleep(time.Second)
		})
		got, err := FetchMetaData(addr, LocalPeerId, GenerateInfoHash(data))
		if err != nil || !bytes.Equal(got, data) {
			t.Fatal(n, len(asked), err)
		}
	}
}
'''))

S.append(dict(id="c27-high-ports", property="C27", pkg="dht",
  needs="a compact node whose port is 32768 or above",
  breaks="the port of a compact node is read as a signed number",
  edits=[("dht/node.go", "			Port: int(binary.BigEndian.Uint16(bytes[4:6])),\n		})", "			Port: int(int16(binary.BigEndian.Uint16(bytes[4:6]))),\n		})")],
  test='''package dht

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, port := range []int{1, 255, 256, 32767, 32768, 65535} {
		rec := strings.Repeat("n", 20) + string([]byte{1, 2, 3, 4, byte(port >> 8), byte(port)})
		for _, n := range parseNodeInfo(rec + rec + "rest") {
			if n.Addr.Port != port || n.Addr.IP.String() != "1.2.3.4" {
				t.Fatal(port, n.Addr)
			}
		}
	}
}
'''))

S.append(dict(id="c23-signed-off-before-the-action", property="C23", pkg="misc",
  needs="a clean-up action that takes longer than the others",
  breaks="a goroutine signs off before it runs its action: completion is announced, and the status is shut down, while actions still run",
  edits=[("misc/shutdown.go", "				callback()\n				wg.Done()\n", "				wg.Done()\n				callback()\n")],
  test='''package misc

import (
	"context"
	"sync/atomic"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	for round := 0; round < 5; round++ {
		ctx, cancel := context.WithCancel(context.Background())
		s := WithShutdownContext(ctx)
		var ended int32
		for i := 0; i < 3; i++ {
			d := time.Duration(i) * 150 * time.Millisecond
			s.Clean(func() {
				time.Sleep(d)
				atomic.AddInt32(&ended, 1)
			})
		}
		cancel()
		s.WaitShutdown(20 * time.Second)
		if n := atomic.LoadInt32(&ended); n != 3 {
			t.Fatal("shut down although actions still run", n)
		}
	}
}
'''))

S.append(dict(id="c29-low-ports-only", property="C29", pkg="dht",
  needs="an announcement of a port of 32768 or above without implied_port",
  breaks="the announced port is cut to 15 bits: the peer is looked for at another port",
  edits=[("dht/fetchtorrent.go", '	port := body.GetInteger("port")\n', '	port := body.GetInteger("port") & 0x7fff\n')],
  test='''package dht

import (
	"fmt"
	"net"
	"testing"

	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/misc"
)

func TestDemo(t *testing.T) {
	for _, port := range []int{1, 80, 32767, 32768, 51413, 65535} {
		req := krpc.NewBaseRequest("aa", "announce_peer", misc.Dict{"port": port, "implied_port": 0}, nil)
		want := fmt.Sprintf("1.2.3.4:%d", port)
		if got := parseFetchAddr(krpc.NewReqContext(nil, req, nil, &net.UDPAddr{IP: net.IPv4(1, 2, 3, 4), Port: 99})); got != want {
			t.Fatal(got, want)
		}
	}
}
'''))
