From 643407116956988906df2e580551079fa32930a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 01/29] fix: bencode decoding panics on truncated integers and
 oversized string lengths

Truncated integers indexed past the input, a string length near the integer
limit overflowed the end offset, and DecodeString indexed a missing part.
---
 misc/beancode.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/misc/beancode.go b/misc/beancode.go
index 0e59064..8eff9a2 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -45,12 +45,12 @@ func innerDecodeInteger(src string, start int) (int, int, error) {
 		}
 
 		// pass 00 02
-		if src[i-1] == 'i' && src[i] == '0' && src[i+1] != 'e' {
+		if src[i-1] == 'i' && src[i] == '0' && i+1 < len(src) && src[i+1] != 'e' {
 			return 0, -1, WrongDecodeParamErr
 		}
 	}
 
-	if i > start && src[i] == 'e' {
+	if i < len(src) && src[i] == 'e' {
 		result, err := strconv.Atoi(src[start+1 : i])
 		if err != nil {
 			return 0, -1, WrongDecodeParamErr
@@ -70,8 +70,9 @@ func DecodeString(src string) (string, error) {
 	if len(src) < 2 {
 		return "", WrongDecodeParamErr
 	}
-	subs := strings.Split(src, ":")
-	if len(subs) < 1 || len(subs) > 2 {
+	// the content may contain ':' too, only the first one ends the length
+	subs := strings.SplitN(src, ":", 2)
+	if len(subs) != 2 {
 		return "", WrongDecodeParamErr
 	}
 
@@ -98,6 +99,11 @@ func innerDecodeString(src string, start int) (string, int, error) {
 		return "", -1, err
 	}
 
+	// compare before adding, a huge length must not overflow
+	if slen < 0 || slen > len(src)-idx-1 {
+		return "", -1, WrongDecodeParamErr
+	}
+
 	start = idx + slen + 1
 
 	if start >= len(src) {
-- 
2.43.0


From f424f2c3af9a2647e0c132e41406a256d020c2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 02/29] fix: bencode decoding accepts unterminated containers
 and trailing data

An unterminated list or dictionary was returned as a success with a consumed
length beyond the input, and DecodeDict answered trailing data with a nil
dictionary and a nil error.
---
 misc/beancode.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/misc/beancode.go b/misc/beancode.go
index 8eff9a2..e60a562 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -193,6 +193,10 @@ func innerDecodeSlice(src string, start int) (List, int, error) {
 		result = append(result, tmp)
 		i = nextIdx
 	}
+	// the terminator is missing
+	if i >= len(src) {
+		return nil, -1, WrongDecodeParamErr
+	}
 	return result, i + 1, nil
 }
 
@@ -245,10 +249,14 @@ func DecodeDict(src string) (Dict, error) {
 
 	result, next, err := innerDecodeDict(src, 0)
 
-	if next < len(src) || err != nil {
+	if err != nil {
 		return nil, err
 	}
 
+	if next != len(src) {
+		return nil, WrongDecodeParamErr
+	}
+
 	return result, nil
 }
 
@@ -300,6 +308,10 @@ func innerDecodeDict(src string, start int) (Dict, int, error) {
 		result[key] = val
 		i = next
 	}
+	// the terminator is missing
+	if i >= len(src) {
+		return nil, -1, WrongDecodeParamErr
+	}
 
 	return result, i + 1, nil
 }
-- 
2.43.0


From 38fbdedc4c8529bd82790798b70d68c9bf031800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 03/29] fix: bencode encoding panics on nil and on named
 integer and string types

---
 misc/beancode.go | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/misc/beancode.go b/misc/beancode.go
index e60a562..09abf8b 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -2,7 +2,6 @@ package misc
 
 import (
 	"errors"
-	"reflect"
 	"strconv"
 	"strings"
 )
@@ -131,26 +130,17 @@ func EncodeSlice(src List) (string, error) {
 }
 
 func encodeItem(item interface{}) (string, error) {
-	t := reflect.TypeOf(item)
 	var err error
 	var tmp string
-	switch t.Kind() {
-	case reflect.Int:
-		tmp, err = EncodeInteger(item.(int))
-	case reflect.String:
-		tmp, err = EncodeString(item.(string))
-	case reflect.Slice:
-		if ls, ok := item.(List); ok {
-			tmp, err = EncodeSlice(ls)
-		} else {
-			err = WrongDecodeParamErr
-		}
-	case reflect.Map:
-		if ls, ok := item.(Dict); ok {
-			tmp, err = EncodeDict(ls)
-		} else {
-			err = WrongDecodeParamErr
-		}
+	switch v := item.(type) {
+	case int:
+		tmp, err = EncodeInteger(v)
+	case string:
+		tmp, err = EncodeString(v)
+	case List:
+		tmp, err = EncodeSlice(v)
+	case Dict:
+		tmp, err = EncodeDict(v)
 	default:
 		err = WrongDecodeParamErr
 	}
-- 
2.43.0


From 8d3fa98739dfe389a93ff11b2853e5c27bc75ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 04/29] fix: metadata pieces keep a reference into a buffer
 returned to the pool

A later message read into the same buffer overwrote the pieces already
received, so that metadata of more than one piece never passed its checksum.
---
 dht/peerwire/bep9.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index 81e4fae..011eb87 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -240,7 +240,8 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 			return
 		}
 		pieceNum := fetchMetaResp.PieceNum()
-		peerConn.metaData[pieceNum] = fetchMetaResp.Data()
+		// copy, the data lies in a pooled buffer that is reused for the next message
+		peerConn.metaData[pieceNum] = append([]byte(nil), fetchMetaResp.Data()...)
 		peerConn.requestedMetaData[pieceNum] = true
 	//pexExtendedId
 	case 2:
-- 
2.43.0


From d0294a8a0263e717c8a85740d0d9c8de160285e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 05/29] fix: peer messages are read with the framing of the
 transport

A short read left stale bytes in the length prefix or cut the message, and a
read that returned more than one message swallowed the following ones.
---
 dht/peerwire/bep3.go | 7 ++++---
 dht/peerwire/bep9.go | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dht/peerwire/bep3.go b/dht/peerwire/bep3.go
index 528b095..56adbbd 100644
--- a/dht/peerwire/bep3.go
+++ b/dht/peerwire/bep3.go
@@ -136,7 +136,7 @@ func supportExterned(bytes []byte) []byte {
 // without prefix bytes
 func readBytesByPrefixLenMsg(reader io.Reader) (bool, []byte, error) {
 	preLenbytes := peerBytesPool.GetBySize(PrefixLen)
-	_, err := reader.Read(preLenbytes)
+	_, err := io.ReadFull(reader, preLenbytes)
 	if err != nil {
 		return false, nil, err
 	}
@@ -151,9 +151,10 @@ func readBytesByPrefixLenMsg(reader io.Reader) (bool, []byte, error) {
 		return false, nil, errors.New("read input toolarge")
 	}
 	buf := peerBytesPool.GetBySize(maxReadLength)
-	n, err := reader.Read(buf)
+	// exactly one message, the stream may deliver it in pieces or together with the next one
+	_, err = io.ReadFull(reader, buf[:preLen])
 	if err != nil {
 		return false, nil, err
 	}
-	return false, buf[:n], nil
+	return false, buf[:preLen], nil
 }
diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index 011eb87..79998ef 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -6,6 +6,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"github.com/GalaIO/P2Pcrawler/misc"
+	"io"
 	"net"
 	"strings"
 	"time"
@@ -271,7 +272,7 @@ func handshakePeer(peerId []byte, peerConn *PeerConn) {
 	}
 	// get handshake response
 	readBytes := make([]byte, handShakeLen)
-	_, err = peerConn.conn.Read(readBytes)
+	_, err = io.ReadFull(peerConn.conn, readBytes)
 	if err != nil {
 		fetchMetaLogger.Panic("get handshake response err", misc.Dict{"laddr": laddr, "err": err})
 	}
-- 
2.43.0


From a49586abd88977455151ba0ab708aac12cc9a63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 06/29] fix: a peer can make the crawler allocate any amount of
 memory

The announced metadata size was used unchecked to size the piece tables and the
number of piece requests; an out of memory failure ends the process.
---
 dht/peerwire/bep9.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index 79998ef..ce9c3e7 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -15,6 +15,9 @@ import (
 // refer http://www.bittorrent.org/beps/bep_0009.html
 const SizeOf16KB = 16 * 1024
 
+// the largest metadata that will be downloaded, the size is announced by the peer
+const maxMetaDataSize = 16 * 1024 * 1024
+
 type ExFecthMetaType int
 
 const (
@@ -215,6 +218,9 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 
 		// get piece
 		metaSize := dict.GetInteger("metadata_size")
+		if metaSize <= 0 || metaSize > maxMetaDataSize {
+			fetchMetaLogger.Panic("get extended handshake wrong metadata size", misc.Dict{"laddr": laddr, "metaSize": metaSize})
+		}
 		peerConn.metaDataSize = metaSize
 		pieceCount := metaSize / SizeOf16KB
 		if metaSize%SizeOf16KB > 0 {
-- 
2.43.0


From e2dca8d61b25ebd4b0a4d6cc62c4fda9bc21ae1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 07/29] fix: a peer that does not read blocks a download worker
 forever

Writing to the peer had no deadline.
---
 dht/peerwire/bep9.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index ce9c3e7..bb3b691 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -138,7 +138,7 @@ func FetchMetaData(laddr string, peerId, infoHash []byte) (ret []byte, retErr er
 		conn.Close()
 	}()
 	conn.SetReadDeadline(time.Now().Add(time.Second * 1))
-	conn.SetWriteDeadline(time.Time{})
+	conn.SetWriteDeadline(time.Now().Add(time.Second * 10))
 	peerConn := NewPeerConn(laddr, conn, infoHash, time.Second*10)
 	handshakePeer(peerId, peerConn)
 	initialMessages(peerConn)
-- 
2.43.0


From fbd17cfa07a8f2380c90ccc0bf521c9e54ba7b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 08/29] fix: download address of IPv6 nodes is malformed

---
 dht/fetchtorrent.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dht/fetchtorrent.go b/dht/fetchtorrent.go
index e60aad4..5a5ced8 100644
--- a/dht/fetchtorrent.go
+++ b/dht/fetchtorrent.go
@@ -7,6 +7,7 @@ import (
 	"github.com/GalaIO/P2Pcrawler/dht/krpc"
 	"github.com/GalaIO/P2Pcrawler/dht/peerwire"
 	"github.com/GalaIO/P2Pcrawler/misc"
+	"net"
 	"os"
 	"strconv"
 )
@@ -51,7 +52,7 @@ func parseFetchAddr(ctx *krpc.RpcContext) string {
 	if body.Exist("implied_port") && body.GetInteger("implied_port") > 0 {
 		useUdpPort = true
 	}
-	laddr := ctx.RemoteAddr().IP.String() + ":" + strconv.Itoa(port)
+	laddr := net.JoinHostPort(ctx.RemoteAddr().IP.String(), strconv.Itoa(port))
 	if useUdpPort {
 		laddr = ctx.RemoteAddr().String()
 	}
-- 
2.43.0


From 98df95ab9d757b67de585d2054ed2514c2abb3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 09/29] fix: a full download queue blocks the workers that
 answer queries

---
 dht/requesthandler.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dht/requesthandler.go b/dht/requesthandler.go
index 228bb71..4254f1c 100644
--- a/dht/requesthandler.go
+++ b/dht/requesthandler.go
@@ -39,6 +39,10 @@ func announcePeerHandler(ctx *krpc.RpcContext) {
 	dhtLogger.Info("get announce_peer request", misc.Dict{"txId": req.TxId(), "infoHash": hash, "port": port})
 	infoHashLogger.Info("announce_peer", misc.Dict{"addr": ctx.RemoteAddr().String(), "port": port, "infoHash": hash})
 	ctx.WriteAs(WithAnnouncePeerResponse(req.TxId(), localNodeId))
-	// to chan
-	recvInfoHash <- ctx
+	// to chan, the reply must not wait for the downloads
+	select {
+	case recvInfoHash <- ctx:
+	default:
+		dhtLogger.Error("info hash queue is full, ignore", misc.Dict{"infoHash": hash})
+	}
 }
-- 
2.43.0


From eb390f6b110d164d6b258fae8da15a46cc34287b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 10/29] fix: torrents are lost without a torrent directory and
 left partial on failure

The directory was never created, and a failed or interrupted write left a
truncated file under the final name.
---
 dht/fetchtorrent.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/dht/fetchtorrent.go b/dht/fetchtorrent.go
index 5a5ced8..f7a1882 100644
--- a/dht/fetchtorrent.go
+++ b/dht/fetchtorrent.go
@@ -7,13 +7,17 @@ import (
 	"github.com/GalaIO/P2Pcrawler/dht/krpc"
 	"github.com/GalaIO/P2Pcrawler/dht/peerwire"
 	"github.com/GalaIO/P2Pcrawler/misc"
+	"io/ioutil"
 	"net"
 	"os"
+	"path/filepath"
 	"strconv"
 )
 
 var recvInfoHash = make(chan *krpc.RpcContext, config.FetchTorrentConfig().InfoHashQueueSize)
 
+const torrentDir = "torrent"
+
 func fetchTorrent() {
 	// 开启线程池消费
 	pool := misc.NewWorkPool(context.Background(), "fetchtorrent-workpool", config.FetchTorrentConfig().WorkPoolSize)
@@ -60,15 +64,33 @@ func parseFetchAddr(ctx *krpc.RpcContext) string {
 }
 
 func flushTorrentFile(fileName string, data []byte) {
-	file, err := os.Create("torrent/" + fileName + ".torrent")
-	defer file.Close()
+	if err := os.MkdirAll(torrentDir, os.ModePerm); err != nil {
+		dhtLogger.Error("create torrent dir err", misc.Dict{"err": err})
+		return
+	}
+	// a file under its final name is always complete
+	file, err := ioutil.TempFile(torrentDir, fileName+".*.tmp")
 	if err != nil {
 		dhtLogger.Error("create file err", misc.Dict{"err": err})
 		return
 	}
+	defer os.Remove(file.Name())
 	_, err = file.Write(data)
+	if err == nil {
+		err = file.Chmod(0644)
+	}
+	if err == nil {
+		err = file.Sync()
+	}
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
 	if err != nil {
 		dhtLogger.Error("write file err", misc.Dict{"err": err})
 		return
 	}
+	err = os.Rename(file.Name(), filepath.Join(torrentDir, fileName+".torrent"))
+	if err != nil {
+		dhtLogger.Error("rename file err", misc.Dict{"err": err})
+	}
 }
-- 
2.43.0


From c4e4b3792feb9fb1923e539a991dd0e90caa27fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 11/29] fix: workers of a work pool never exit on shutdown

The break only left the select, so the workers kept waiting for tasks, the wait
group was never done and every shutdown ran into its timeout.
---
 misc/workpool.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/misc/workpool.go b/misc/workpool.go
index 12b5d4d..d5b3019 100644
--- a/misc/workpool.go
+++ b/misc/workpool.go
@@ -32,17 +32,29 @@ func (pool *WorkPool) init() {
 }
 
 func (pool *WorkPool) workerLoop() {
+	// not running exit
+	defer pool.wg.Done()
 	for {
 		select {
+		case worker := <-pool.queue:
+			worker()
 		case <-pool.shutdowned:
-			break
+			pool.drainQueue()
+			return
+		}
+	}
+}
+
+// run the tasks that were accepted before the shutdown
+func (pool *WorkPool) drainQueue() {
+	for {
+		select {
+		case worker := <-pool.queue:
+			worker()
 		default:
+			return
 		}
-		worker := <-pool.queue
-		worker()
 	}
-	// not running exit
-	pool.wg.Done()
 }
 
 func (pool *WorkPool) AsyncSubmit(worker AsyncWorkFunc) {
-- 
2.43.0


From 9013967bd7f182039581fbb3621bd539d05b119f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 12/29] fix: concurrent shutdowns of a work pool close its
 channel twice

Shutdown and the cancellation of the context could both see the pool running.
---
 misc/workpool.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/misc/workpool.go b/misc/workpool.go
index d5b3019..d67d832 100644
--- a/misc/workpool.go
+++ b/misc/workpool.go
@@ -16,6 +16,7 @@ type WorkPool struct {
 	size       int
 	queue      chan AsyncWorkFunc
 	wg         sync.WaitGroup
+	lock       sync.Mutex
 	status     atomic.Value
 	shutdowned chan bool
 	ctx        context.Context
@@ -65,11 +66,10 @@ func (pool *WorkPool) AsyncSubmit(worker AsyncWorkFunc) {
 }
 
 func (pool *WorkPool) Shutdown(timeout time.Duration) {
-	if Running != pool.Status() {
+	if !pool.startShutdown() {
 		return
 	}
 	workPoolLogger.Trace("strating shutdown", Dict{"name": pool.name, "timeout": timeout.String()})
-	pool.status.Store(Shutdowning)
 	// broadcast shutdown
 	close(pool.shutdowned)
 	select {
@@ -81,6 +81,17 @@ func (pool *WorkPool) Shutdown(timeout time.Duration) {
 	pool.status.Store(Shutdowned)
 }
 
+// only one caller can move the pool from running to shutdowning
+func (pool *WorkPool) startShutdown() bool {
+	pool.lock.Lock()
+	defer pool.lock.Unlock()
+	if Running != pool.Status() {
+		return false
+	}
+	pool.status.Store(Shutdowning)
+	return true
+}
+
 func (pool *WorkPool) waitFinish() chan bool {
 	finish := make(chan bool)
 	go func() {
-- 
2.43.0


From 52c7c8f3960b49d2e39c9e18ab269c2ec517d251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 13/29] fix: SyncMap.Del reads the map without the lock

A concurrent map read and map write is a fatal error.
---
 misc/syncmap.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/misc/syncmap.go b/misc/syncmap.go
index 300cf07..4d76a09 100644
--- a/misc/syncmap.go
+++ b/misc/syncmap.go
@@ -24,11 +24,8 @@ func (m *SyncMap) Get(key string) (interface{}, bool) {
 	return handlerFunc, ok
 }
 
-// double check delete
+// delete if exist
 func (m *SyncMap) Del(txId string) {
-	if _, ok := m.mapping[txId]; !ok {
-		return
-	}
 	defer m.Unlock()
 	m.Lock()
 	if _, ok := m.mapping[txId]; !ok {
-- 
2.43.0


From 32d0f9c867667c4dcdc2212b8078a042e7aff760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 14/29] fix: the logger registry is accessed without its lock

---
 misc/logger.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/misc/logger.go b/misc/logger.go
index 6a54e24..1176793 100644
--- a/misc/logger.go
+++ b/misc/logger.go
@@ -58,9 +58,6 @@ var bufferedLoggers = &bufferLogger{
 var defaultLoggerFactory LoggerFactory = NewConsoleLoggerFactory()
 
 func (b *bufferLogger) mapLogger(name string) Logger {
-	if v, ok := b.bufferedLoggers[name]; ok {
-		return v
-	}
 	b.Lock()
 	defer b.Unlock()
 	if v, ok := b.bufferedLoggers[name]; ok {
@@ -72,6 +69,8 @@ func (b *bufferLogger) mapLogger(name string) Logger {
 }
 
 func (b *bufferLogger) flush() error {
+	b.Lock()
+	defer b.Unlock()
 	for _, v := range b.bufferedLoggers {
 		v.Flush()
 	}
@@ -91,7 +90,7 @@ func TransLogLevel(name string) LogLevel {
 // using this function when programe init
 func InitLogger(factory LoggerFactory, level LogLevel) {
 	defaultLoggerFactory = factory
-	bufferedLoggers.level = level
+	bufferedLoggers.setLevel(level)
 }
 
 // different name whit different log file, you can add prefix to set [gin] module log
-- 
2.43.0


From d8f3c7eb1dae0f624bf0309f569e99b22cb2e3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 15/29] fix: shutdown actions are registered and run without
 synchronisation

They are registered from another goroutine than the one that waits, and the
list could change between counting it and starting its actions.
---
 misc/shutdown.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/misc/shutdown.go b/misc/shutdown.go
index b9e5f3e..db06ea0 100644
--- a/misc/shutdown.go
+++ b/misc/shutdown.go
@@ -38,6 +38,7 @@ type shutdownContext struct {
 	sigChan  chan os.Signal
 	status   atomic.Value
 	innerCtx context.Context
+	lock     sync.Mutex
 	cleans   []CleanFunc
 }
 
@@ -72,15 +73,20 @@ func (ctx *shutdownContext) Status() ShutdownStatus {
 }
 
 func (ctx *shutdownContext) Clean(cleanHandler ...CleanFunc) {
+	ctx.lock.Lock()
+	defer ctx.lock.Unlock()
 	ctx.cleans = append(ctx.cleans, cleanHandler...)
 }
 
 func (ctx *shutdownContext) runCleans() chan bool {
-	finished := make(chan bool)
+	finished := make(chan bool, 1)
+	ctx.lock.Lock()
+	cleans := append([]CleanFunc(nil), ctx.cleans...)
+	ctx.lock.Unlock()
 	go func() {
 		wg := sync.WaitGroup{}
-		wg.Add(len(ctx.cleans))
-		for _, clean := range ctx.cleans {
+		wg.Add(len(cleans))
+		for _, clean := range cleans {
 			go func(callback CleanFunc) {
 				callback()
 				wg.Done()
-- 
2.43.0


From 6099c7ee01d91c76ba13a8600aefddd4e367d898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 16/29] fix: the routing table miscounts known nodes and
 reports rejected ones as added

A known node increased the size again, and the error of adding to a full bucket
after a split was dropped.
---
 dht/routetable.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dht/routetable.go b/dht/routetable.go
index 27613a1..5a5e017 100644
--- a/dht/routetable.go
+++ b/dht/routetable.go
@@ -165,7 +165,12 @@ func (t *RouteTable) addNode(node *NodeInfo, preLen int) error {
 		return errors.New("the bucket is full")
 	}
 
-	if !bucket.Exist(node) && !bucket.Add(node) {
+	if bucket.Exist(node) {
+		// known node, nothing is added
+		return nil
+	}
+
+	if !bucket.Add(node) {
 		// full bucket just ignore
 		rtableLogger.Info("the bucket has full", misc.Dict{"tableSize": t.size, "preLen": preLen})
 		return errors.New("the bucket is full")
@@ -195,7 +200,9 @@ func (t *RouteTable) addNodeWithsplitBucket(node *NodeInfo) error {
 	for _, n := range snodes {
 		t.addNode(n, t.solveMaxPreLen(n.Id))
 	}
-	t.addNode(node, t.solveMaxPreLen(node.Id))
+	if err := t.addNode(node, t.solveMaxPreLen(node.Id)); err != nil {
+		return err
+	}
 	if preSize+1 != t.nodeCount() {
 		rtableLogger.Error("the route table add fail", misc.Dict{"lastIndex": t.lastBucketIndex, "size": t.size})
 	}
-- 
2.43.0


From f86509cac2529e36363347ffbe9c010c01b25675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 17/29] fix: different node ids are taken for the same node

Ids are binary, case folding and the replacement of invalid UTF-8 make
different ids equal.
---
 dht/node.go       | 2 +-
 dht/routetable.go | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/dht/node.go b/dht/node.go
index 2380dfe..dd26d83 100644
--- a/dht/node.go
+++ b/dht/node.go
@@ -50,7 +50,7 @@ func (n *NodeInfo) Equals(node *NodeInfo) bool {
 	if node == nil {
 		return false
 	}
-	if strings.EqualFold(n.Id, node.Id) && strings.EqualFold(n.Addr.String(), node.Addr.String()) {
+	if n.Id == node.Id && strings.EqualFold(n.Addr.String(), node.Addr.String()) {
 		return true
 	}
 	return false
diff --git a/dht/routetable.go b/dht/routetable.go
index 5a5e017..089e5ff 100644
--- a/dht/routetable.go
+++ b/dht/routetable.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"github.com/GalaIO/P2Pcrawler/misc"
 	"math/bits"
-	"strings"
 	"sync"
 )
 
@@ -116,7 +115,7 @@ func (t *RouteTable) Find(id string) *NodeInfo {
 	bucket := t.nodeMap[preLen]
 	nodes := bucket.All()
 	for _, n := range nodes {
-		if strings.EqualFold(n.Id, id) {
+		if n.Id == id {
 			return n
 		}
 	}
-- 
2.43.0


From 5b616fa08530331bd36713a0fc3db6b4795d9061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 18/29] fix: the bucket iterator visits unused slots

---
 dht/routetable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/routetable.go b/dht/routetable.go
index 089e5ff..6e01ed6 100644
--- a/dht/routetable.go
+++ b/dht/routetable.go
@@ -38,7 +38,7 @@ func (b *Bucket) Exist(node *NodeInfo) bool {
 func (b *Bucket) Iterator(handler func(*NodeInfo)) {
 	defer b.RUnlock()
 	b.RLock()
-	for _, v := range b.nodes {
+	for _, v := range b.nodes[:b.size] {
 		handler(v)
 	}
 }
-- 
2.43.0


From e83a680591d6a8b973ccd962d943e984433bef34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 19/29] fix: an empty datagram is sent when a reply cannot be
 encoded

---
 dht/krpc/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dht/krpc/server.go b/dht/krpc/server.go
index f5d0a9f..a3713fb 100644
--- a/dht/krpc/server.go
+++ b/dht/krpc/server.go
@@ -133,8 +133,13 @@ func (s *RpcServer) recvPacketHandle(packet *RecvPacket) {
 		bytes, err := misc.EncodeDict(ret.RawData())
 		if err != nil {
 			serverLogger.Error("encode response err", misc.Dict{"from": packet.Addr.String(), "dict": ret.String()})
+			return
 		}
 		err = s.udpConn.SendPacket([]byte(bytes), packet.Addr)
+		if err != nil {
+			serverLogger.Error("send response packet err", misc.Dict{"to": packet.Addr.String(), "err": err})
+			return
+		}
 		serverLogger.Info(">>>  Bytes sended", misc.Dict{"to": packet.Addr.String(), "len": len(bytes)})
 	case "r":
 		s.responseHandle(packet.Addr, dict)
-- 
2.43.0


From 71adc0ad3be0f5fdfbd4a166f71926df29532b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 20/29] fix: answered and failed requests stay pending

A repeated or forged response with an old transaction id ran the response
handler again, which sends further queries.
---
 dht/krpc/server.go | 6 +++++-
 misc/syncmap.go    | 9 +++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/dht/krpc/server.go b/dht/krpc/server.go
index a3713fb..1130940 100644
--- a/dht/krpc/server.go
+++ b/dht/krpc/server.go
@@ -96,11 +96,13 @@ func (s *RpcServer) Query(raddr *net.UDPAddr, req Request) error {
 	s.requestMapping.Put(req.TxId(), req)
 	raw, err := misc.EncodeDict(req.RawData())
 	if err != nil {
+		s.requestMapping.Del(req.TxId())
 		serverLogger.Error("encode request err", misc.Dict{"to": raddr.String(), "query": req.String(), "err": err})
 		return err
 	}
 	err = s.udpConn.SendPacket([]byte(raw), raddr)
 	if err != nil {
+		s.requestMapping.Del(req.TxId())
 		serverLogger.Error("send query packet err", misc.Dict{"to": raddr.String(), "query": req.String(), "err": err})
 		return err
 	}
@@ -152,6 +154,7 @@ func (s *RpcServer) recvPacketHandle(packet *RecvPacket) {
 func (s *RpcServer) responseErrHandle(addr *net.UDPAddr, err misc.Dict) {
 	// parse header
 	txId := err.GetString("t")
+	s.requestMapping.Del(txId)
 	list := err.GetList("e")
 	serverLogger.Error("return err", misc.Dict{"txId": txId, "err": list})
 }
@@ -164,7 +167,8 @@ func (s *RpcServer) responseHandle(addr *net.UDPAddr, dict misc.Dict) {
 	body := dict.GetDict("r")
 	nodeId := body.GetString("id")
 	serverLogger.Info("response handle", misc.Dict{"txId": txId, "nodeId": hex.EncodeToString([]byte(nodeId))})
-	handler, exist := s.requestMapping.Get(txId)
+	// a request is answered at most once
+	handler, exist := s.requestMapping.Take(txId)
 
 	if !exist {
 		serverLogger.Error("cannot match request", misc.Dict{"txId": txId, "nodeId": nodeId})
diff --git a/misc/syncmap.go b/misc/syncmap.go
index 4d76a09..598a488 100644
--- a/misc/syncmap.go
+++ b/misc/syncmap.go
@@ -24,6 +24,15 @@ func (m *SyncMap) Get(key string) (interface{}, bool) {
 	return handlerFunc, ok
 }
 
+// get and delete in one step, only one caller gets the value
+func (m *SyncMap) Take(key string) (interface{}, bool) {
+	defer m.Unlock()
+	m.Lock()
+	val, ok := m.mapping[key]
+	delete(m.mapping, key)
+	return val, ok
+}
+
 // delete if exist
 func (m *SyncMap) Del(txId string) {
 	defer m.Unlock()
-- 
2.43.0


From 75fd267096375b7697a2a592214cf7c624cc0c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 21/29] fix: error replies to remote nodes contain a stack
 trace

The stack was added to the text of every error, the flag that asks for it was
ignored. The text has the format the tests describe again.
---
 misc/errors.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/misc/errors.go b/misc/errors.go
index f7fe989..e4cbdd6 100644
--- a/misc/errors.go
+++ b/misc/errors.go
@@ -23,14 +23,16 @@ type Error struct {
 }
 
 func (d *Error) Error() string {
-	errString := strconv.Itoa(int(d.code)) + ": " + d.msg
+	errString := strconv.Itoa(int(d.code)) + ":" + d.msg
 	if d.context != nil {
 		errString += ", params: "
 		for _, val := range d.context {
 			errString += ToString(val) + "|"
 		}
 	}
-	errString += "\r\nstacks:\r\n" + Bytes2Str(debug.Stack())
+	if d.printStack {
+		errString += "\r\nstacks:\r\n" + Bytes2Str(debug.Stack())
+	}
 	return errString
 }
 
-- 
2.43.0


From 13d4049cc4c0b1b38f78bc7aa04f0db69e67a9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 22/29] fix: a panic level log returns at the trace level

Callers rely on it to stop, at the trace level they went on with invalid data.
---
 misc/logger.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/misc/logger.go b/misc/logger.go
index 1176793..21457a9 100644
--- a/misc/logger.go
+++ b/misc/logger.go
@@ -181,9 +181,6 @@ func (c *consoleLogger) Error(msg string, ctx Dict) {
 }
 
 func (c *consoleLogger) Panic(msg string, ctx Dict) {
-	if c.level > PANIC {
-		return
-	}
 	c.print("Panic", msg, ctx)
 	panic(msg)
 }
-- 
2.43.0


From 894be91fc383bccda5b2279e2aa91effe8dce228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 23/29] fix: the configured log level has no effect

All loggers are created while packages are initialised, with a copy of the
default level, before the configuration can be applied.
---
 misc/logger.go | 48 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/misc/logger.go b/misc/logger.go
index 21457a9..dfb917f 100644
--- a/misc/logger.go
+++ b/misc/logger.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -43,6 +44,11 @@ type Logger interface {
 	Flush()
 }
 
+// loggers that can change the level after they were created
+type levelSetter interface {
+	SetLevel(level LogLevel)
+}
+
 type bufferLogger struct {
 	sync.Mutex
 	bufferedLoggers map[string]Logger
@@ -81,6 +87,11 @@ func (b *bufferLogger) setLevel(level LogLevel) {
 	b.Lock()
 	defer b.Unlock()
 	b.level = level
+	for _, v := range b.bufferedLoggers {
+		if l, ok := v.(levelSetter); ok {
+			l.SetLevel(level)
+		}
+	}
 }
 
 func TransLogLevel(name string) LogLevel {
@@ -126,13 +137,36 @@ func (f *consoleLoggerFactory) GetDefaultName() string {
 func (f *consoleLoggerFactory) NewLogger(name string, level LogLevel) Logger {
 	return &consoleLogger{
 		prefix: "",
-		level:  level,
+		level:  newSharedLevel(level),
 	}
 }
 
+// the level of a logger and of all loggers derived from it with SetPrefix
+type sharedLevel struct {
+	val atomic.Value
+}
+
+func newSharedLevel(level LogLevel) *sharedLevel {
+	l := new(sharedLevel)
+	l.set(level)
+	return l
+}
+
+func (l *sharedLevel) set(level LogLevel) {
+	l.val.Store(level)
+}
+
+func (l *sharedLevel) get() LogLevel {
+	return l.val.Load().(LogLevel)
+}
+
 type consoleLogger struct {
 	prefix string
-	level  LogLevel
+	level  *sharedLevel
+}
+
+func (c *consoleLogger) SetLevel(level LogLevel) {
+	c.level.set(level)
 }
 
 func (c *consoleLogger) SetPrefix(prefix string) Logger {
@@ -143,7 +177,7 @@ func (c *consoleLogger) SetPrefix(prefix string) Logger {
 }
 
 func (c *consoleLogger) Debug(msg string, ctx Dict) {
-	if c.level > DEBUG {
+	if c.level.get() > DEBUG {
 		return
 	}
 	c.print("Debug", msg, ctx)
@@ -160,21 +194,21 @@ func (c *consoleLogger) print(level string, msg string, ctx Dict) {
 }
 
 func (c *consoleLogger) Info(msg string, ctx Dict) {
-	if c.level > INFO {
+	if c.level.get() > INFO {
 		return
 	}
 	c.print("Info", msg, ctx)
 }
 
 func (c *consoleLogger) Warn(msg string, ctx Dict) {
-	if c.level > WARN {
+	if c.level.get() > WARN {
 		return
 	}
 	c.print("Warn", msg, ctx)
 }
 
 func (c *consoleLogger) Error(msg string, ctx Dict) {
-	if c.level > ERROR {
+	if c.level.get() > ERROR {
 		return
 	}
 	c.print("Error", msg, ctx)
@@ -186,7 +220,7 @@ func (c *consoleLogger) Panic(msg string, ctx Dict) {
 }
 
 func (c *consoleLogger) Trace(msg string, ctx Dict) {
-	if c.level > TRACE {
+	if c.level.get() > TRACE {
 		return
 	}
 	c.print("Trace", msg, ctx)
-- 
2.43.0


From 3d8752ffec9e4ef7b18abc601630b5ed0e882e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 24/29] fix: a configuration file given on the command line is
 ignored

Sections read before, while packages are initialised, were kept; the cache was
also accessed from several goroutines without synchronisation.
---
 config/config.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index c151eb2..978e5ea 100644
--- a/config/config.go
+++ b/config/config.go
@@ -3,6 +3,7 @@ package config
 import (
 	"github.com/GalaIO/P2Pcrawler/misc"
 	"github.com/spf13/viper"
+	"sync"
 )
 
 const (
@@ -17,6 +18,8 @@ const (
 	loggerConfigKey       = "logger"
 )
 
+// protects configMap, sections are read from several goroutines
+var configLock sync.Mutex
 var configMap = make(misc.Dict, 16)
 var configLogger = misc.GetLogger().SetPrefix("config")
 
@@ -40,6 +43,8 @@ type loggerConfig struct {
 }
 
 func subConfig(key string, val interface{}) {
+	configLock.Lock()
+	defer configLock.Unlock()
 	configMap[key] = val
 }
 
@@ -83,6 +88,10 @@ func ResetConfig() {
 		}
 		configLogger.Trace("write default config success", misc.Dict{"path": viper.ConfigFileUsed(), "defaultPath": FileAbsPath})
 	}
+	// forget the sections of an earlier load
+	configLock.Lock()
+	configMap = make(misc.Dict, 16)
+	configLock.Unlock()
 	configLogger.Trace("config values", viper.AllSettings())
 }
 
@@ -103,7 +112,8 @@ func LoggerConfig() *loggerConfig {
 }
 
 func getSubConfig(key string, valPtr interface{}) interface{} {
-
+	configLock.Lock()
+	defer configLock.Unlock()
 	if val, ok := configMap[key]; ok {
 		return val
 	}
-- 
2.43.0


From f433fec4d4783f7c8ddb4f4c270bfdfc7a23e5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 25/29] fix: the torrent command crashes without an argument
 and leaks files

---
 cmd/torrent.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/torrent.go b/cmd/torrent.go
index 3bbdd7a..9713dd1 100644
--- a/cmd/torrent.go
+++ b/cmd/torrent.go
@@ -14,6 +14,7 @@ var torrent = &cobra.Command{
 	Use:   "torrent",
 	Short: "torrent tools",
 	Long:  `tools for torrent, ie.parseinfo、findpeers...`,
+	Args:  cobra.ExactArgs(1),
 	Run: func(cmd *cobra.Command, args []string) {
 		path := args[0]
 		if misc.IsDir(path) {
@@ -33,6 +34,7 @@ var torrent = &cobra.Command{
 func printTorrentInfo(filename, path string) {
 	file, err := os.Open(path)
 	misc.PanicSysErrNonNil(err, "open torrent file err", path)
+	defer file.Close()
 	bytes, err := ioutil.ReadAll(file)
 	misc.PanicSysErrNonNil(err, "read torrent file err", path)
 	dict, err := misc.DecodeDict(misc.Bytes2Str(bytes))
-- 
2.43.0


From 6d867ffc8b61ec585883a190f402d3ff94f66efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:21 +0000
Subject: [PATCH 26/29] fix: zap loggers configured with WARN or TRACE log at
 INFO

---
 misc/zap.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/misc/zap.go b/misc/zap.go
index 2a90fec..413f011 100644
--- a/misc/zap.go
+++ b/misc/zap.go
@@ -97,10 +97,14 @@ func parseLogLevel(logLevel string) zapcore.Level {
 		return zapcore.DebugLevel
 	case "INFO":
 		return zapcore.InfoLevel
+	case "WARN":
+		return zapcore.WarnLevel
 	case "ERROR":
 		return zapcore.ErrorLevel
 	case "PANIC":
 		return zapcore.PanicLevel
+	case "TRACE":
+		return traceLevel
 	default:
 		return zapcore.InfoLevel
 	}
-- 
2.43.0


From 052384c3a1fbdd2cd89a2362d68875a41990faeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:41 +0000
Subject: [PATCH 27/29] fix: metadata requests carry the extension id the peer
 announced

---
 dht/peerwire/bep9.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index bb3b691..22956e3 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -221,6 +221,12 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 		if metaSize <= 0 || metaSize > maxMetaDataSize {
 			fetchMetaLogger.Panic("get extended handshake wrong metadata size", misc.Dict{"laddr": laddr, "metaSize": metaSize})
 		}
+		// requests carry the id the peer chose for the extension
+		supported := exHandShakeResp.Metadata()
+		exMsgId := supported.GetInteger("ut_metadata")
+		if exMsgId <= 0 || exMsgId > 255 {
+			fetchMetaLogger.Panic("get extended handshake not support ut_metadata", misc.Dict{"laddr": laddr, "exMsgId": exMsgId})
+		}
 		peerConn.metaDataSize = metaSize
 		pieceCount := metaSize / SizeOf16KB
 		if metaSize%SizeOf16KB > 0 {
@@ -231,7 +237,7 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 		for i := 0; i < pieceCount; i++ {
 			peerConn.requestedMetaData[i] = false
 			// request piece
-			_, err := peerConn.conn.Write(withExtendedFetchMetaMsg(1, ExRequest, i, 0))
+			_, err := peerConn.conn.Write(withExtendedFetchMetaMsg(exMsgId, ExRequest, i, 0))
 			if err != nil {
 				fetchMetaLogger.Panic("write request piece err", misc.Dict{"laddr": laddr, "err": err})
 			}
-- 
2.43.0


From 823052252d24198cd46ce08ca4e68d612a5755fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:44 +0000
Subject: [PATCH 28/29] fix: GetValOrDefault returns nil instead of the default

---
 misc/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misc/types.go b/misc/types.go
index 2ac73b6..1f0ef0f 100644
--- a/misc/types.go
+++ b/misc/types.go
@@ -61,11 +61,11 @@ func (d *Dict) GetVal(key string) interface{} {
 }
 
 func (d *Dict) GetValOrDefault(key string, val interface{}) interface{} {
-	val, exist := (*d)[key]
+	dst, exist := (*d)[key]
 	if !exist {
 		return val
 	}
-	return val
+	return dst
 }
 
 func (d *Dict) Exist(key string) bool {
-- 
2.43.0


From 20ffbbee94eb0e3cbf793912eb7b24bd0e784cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:40 +0000
Subject: [PATCH 29/29] fix: numbers and lengths in a form that is not valid
 bencode are accepted

---
 misc/beancode.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/misc/beancode.go b/misc/beancode.go
index 09abf8b..352fc85 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -51,7 +51,8 @@ func innerDecodeInteger(src string, start int) (int, int, error) {
 
 	if i < len(src) && src[i] == 'e' {
 		result, err := strconv.Atoi(src[start+1 : i])
-		if err != nil {
+		// a number has only one valid form, Atoi also takes +5
+		if err != nil || strconv.Itoa(result) != src[start+1:i] {
 			return 0, -1, WrongDecodeParamErr
 		}
 		return result, i + 1, nil
@@ -80,7 +81,7 @@ func DecodeString(src string) (string, error) {
 		return "", WrongDecodeParamErr
 	}
 
-	if len(subs[1]) != slen {
+	if len(subs[1]) != slen || strconv.Itoa(slen) != subs[0] {
 		return "", WrongDecodeParamErr
 	}
 
@@ -99,7 +100,7 @@ func innerDecodeString(src string, start int) (string, int, error) {
 	}
 
 	// compare before adding, a huge length must not overflow
-	if slen < 0 || slen > len(src)-idx-1 {
+	if slen < 0 || slen > len(src)-idx-1 || strconv.Itoa(slen) != src[start:idx] {
 		return "", -1, WrongDecodeParamErr
 	}
 
-- 
2.43.0

