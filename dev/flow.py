ROOT = 'cmd/root.go'
DHT = 'dht/dht.go'
RESP = 'dht/resphandler.go'
REQ = 'dht/requesthandler.go'
FT = 'dht/fetchtorrent.go'
BL = '''	for _, host := range config.DhtConfig().BootstrapNodes {
		dht.BootStrap(host)
	}
'''
FIND = '''	for _, n := range nodes {
		err := rtable.AddNode(n)
		if err != nil {
			dhtLogger.Info("add node err", misc.Dict{"err": err, "tableSize": rtable.Size()})
			continue
		}
		err = rpcServer.Query(n.Addr, WithFindNodeMsg(txIdGenerator.Next(), localNodeId, localNodeId, genericRespHandler))
		if err != nil {
			dhtLogger.Error("recurve find node err", misc.Dict{"err": err, "tableSize": rtable.Size()})
		}
	}
'''
Q = 'err = rpcServer.Query(n.Addr, WithFindNodeMsg(txIdGenerator.Next(), localNodeId, localNodeId, genericRespHandler))'
SEL = '''	select {
	case recvInfoHash <- ctx:
	default:
		dhtLogger.Error("info hash queue is full, ignore", misc.Dict{"infoHash": hash})
	}
'''
LOOP = '''	for {
		ctx := <-recvInfoHash
		pool.AsyncSubmit(func() {
			fetchHandler(ctx)
		})
	}
'''
M = [
 ('boot-first', 'C41', [(ROOT, '		dht.BootStrap(host)\n', '		dht.BootStrap(host)\n		break\n')]),
 ('boot-notfirst', 'C41', [(ROOT, BL, '''	for i, host := range config.DhtConfig().BootstrapNodes {
		if i > 0 {
			dht.BootStrap(host)
		}
	}
''')]),
 ('boot-start1', 'C41', [(ROOT, BL, '''	hosts := config.DhtConfig().BootstrapNodes
	for i := 1; i < len(hosts); i++ {
		dht.BootStrap(hosts[i])
	}
''')]),
 ('boot-short', 'C41', [(ROOT, BL, '''	hosts := config.DhtConfig().BootstrapNodes
	for i := 0; i < len(hosts)-1; i++ {
		dht.BootStrap(hosts[i])
	}
''')]),
 ('boot-only3', 'C41', [(ROOT, BL, '''	hosts := config.DhtConfig().BootstrapNodes
	for i := 0; i < len(hosts) && i < 3; i++ {
		dht.BootStrap(hosts[i])
	}
''')]),
 ('boot-fixed', 'C41', [(ROOT, BL, BL.replace('_, host', '_, _').replace('for _, _ :=', 'for').replace('for range', 'for range').replace('BootStrap(host)', 'BootStrap("router.bittorrent.com:6881")').replace('for  range', 'for range'))]),
 ('boot-none', 'C41', [(ROOT, BL, ''), (ROOT, '"time"', '"time"')]),
 ('boot-iff', 'C41', [(ROOT, BL, '	if !config.PProfConfig().NeedRun {\n' + BL + '	}\n')]),
 ('boot-step2', 'C41', [(ROOT, BL, '''	hosts := config.DhtConfig().BootstrapNodes
	for i := 0; i < len(hosts); i += 2 {
		dht.BootStrap(hosts[i])
	}
''')]),
 ('norun', 'C41', [(ROOT, '	go dht.Run()\n', '')]),
 ('nowait', 'C41', [(ROOT, '	misc.Wait4Shutdown(5 * time.Second)\n', ''), (ROOT, '	"time"\n', ''), (ROOT, '	"github.com/GalaIO/P2Pcrawler/misc"\n', '	"github.com/GalaIO/P2Pcrawler/misc"\n')]),
 ('wait-first', 'C41', [(ROOT, '	go dht.Run()\n	misc.Wait4Shutdown(5 * time.Second)\n', '	misc.Wait4Shutdown(5 * time.Second)\n	go dht.Run()\n')]),
 ('boot-ping', 'C41', [(DHT, 'WithFindNodeMsg(txIdGenerator.Next(), localNodeId, localNodeId, genericRespHandler)', 'WithPingMsg(txIdGenerator.Next(), localNodeId, genericRespHandler)')]),
 ('boot-getpeers', 'C41', [(DHT, 'WithFindNodeMsg(', 'WithGetPeersMsg(')]),
 ('boot-nilhandler', 'C41', [(DHT, 'localNodeId, genericRespHandler)', 'localNodeId, nil)')]),
 ('boot-otherhandler', 'C41', [(DHT, 'localNodeId, genericRespHandler)', 'localNodeId, pingHandler)')]),
 ('boot-noquery', 'C41', [(DHT, '	err = rpcServer.Query(raddr, msg)\n', '	_, _ = raddr, msg\n')]),
 ('boot-resolve', 'C41', [(DHT, 'net.ResolveUDPAddr("udp", host)', 'net.ResolveUDPAddr("udp", localAddr)')]),
 ('boot-iff2', 'C41', [(DHT, '	err = rpcServer.Query(raddr, msg)\n', '	if rtable.Size() <= 1 {\n		err = rpcServer.Query(raddr, msg)\n	}\n')]),
 ('nodes-break', 'C41', [(RESP, '			continue\n', '			break\n')]),
 ('nodes-return', 'C41', [(RESP, '			continue\n', '			return\n')]),
 ('nodes-qbreak', 'C41', [(RESP, '			dhtLogger.Error("recurve find node err", misc.Dict{"err": err, "tableSize": rtable.Size()})\n', '			return\n')]),
 ('nodes-first8', 'C41', [(RESP, '	for _, n := range nodes {\n', '	for _, n := range nodes {\n		if rtable.Size() > 100 {\n			break\n		}\n')]),
 ('nodes-start1', 'C41', [(RESP, '	for _, n := range nodes {\n', '	for i := 1; i < len(nodes); i++ {\n		n := nodes[i]\n')]),
 ('nodes-short', 'C41', [(RESP, '	for _, n := range nodes {\n', '	for i := 0; i < len(nodes)-1; i++ {\n		n := nodes[i]\n')]),
 ('nodes-skipport', 'C41', [(RESP, '		err := rtable.AddNode(n)\n', '		if n.Addr.Port < 1024 {\n			continue\n		}\n		err := rtable.AddNode(n)\n')]),
 ('nodes-limit', 'C41', [(RESP, FIND, '	if len(nodes) > 8 {\n		return\n	}\n' + FIND)]),
 ('nodes-noask', 'C41', [(RESP, Q, 'err = nil')]),
 ('nodes-askall', 'C41', [(RESP, Q, 'err = rpcServer.Query(nodes[0].Addr, WithFindNodeMsg(txIdGenerator.Next(), localNodeId, localNodeId, genericRespHandler))')]),
 ('nodes-asksender', 'C41', [(RESP, Q, Q.replace('n.Addr', 'ctx.RemoteAddr()'))]),
 ('nodes-ask0', 'C41', [(RESP, '		' + Q + '\n', '		if rtable.Size()%2 == 1 {\n			continue\n		}\n		' + Q + '\n')]),
 ('nodes-askping', 'C41', [(RESP, Q, 'err = rpcServer.Query(n.Addr, WithPingMsg(txIdGenerator.Next(), localNodeId, genericRespHandler))')]),
 ('nodes-nohandler', 'C41', [(RESP, Q, Q.replace('genericRespHandler', 'announcePeerHandler'))]),
 ('nodes-askinverted', 'C41', [(RESP, '		err := rtable.AddNode(n)\n		if err != nil {', '		err := rtable.AddNode(n)\n		if err == nil {')]),
 ('nodes-noadd', 'C41', [(RESP, '		findNodeRespHandler(ctx, parseNodeInfo(nodes))\n', '		getPeerNodesRespHandler(ctx, parseNodeInfo(nodes))\n')]),
 ('nodes-wrongcase', 'C41', [(RESP, '	case "find_node":\n		nodes', '	case "findnode":\n		nodes')]),
 ('noloop', 'C41', [(DHT, '	go fetchTorrent()\n', '')]),
 ('loop-sync', 'C41', [(DHT, '	go fetchTorrent()\n', '	fetchTorrent()\n')]),
 ('loop-after', 'C41', [(DHT, '	go fetchTorrent()\n', ''), (DHT, '	rpcServer.Listen()\n', '	rpcServer.Listen()\n	go fetchTorrent()\n')]),
 ('nolisten', 'C41', [(DHT, '	rpcServer.Listen()\n', '')]),
 ('noqueue', 'C41', [(REQ, SEL, '')]),
 ('queue-iff', 'C41', [(REQ, SEL, '	if len(recvInfoHash) < 10 {\n' + SEL + '	}\n')]),
 ('queue-port', 'C41', [(REQ, SEL, '	if port == 0 {\n		return\n	}\n' + SEL)]),
 ('queue-twice', 'C41', [(REQ, SEL, SEL + SEL)]),
 ('queue-nil', 'C41', [(REQ, 'recvInfoHash <- ctx:', 'recvInfoHash <- nil:')]),
 ('queue-rev', 'C41', [(REQ, 'case recvInfoHash <- ctx:', 'case <-recvInfoHash:')]),
 ('loop-skip', 'C41', [(FT, '		ctx := <-recvInfoHash\n', '		<-recvInfoHash\n		ctx := <-recvInfoHash\n')]),
 ('loop-drop', 'C41', [(FT, '		ctx := <-recvInfoHash\n', '		ctx := <-recvInfoHash\n		if len(recvInfoHash) > 50 {\n			continue\n		}\n')]),
 ('loop-dedupe', 'C41', [(FT, LOOP, '''	last := ""
	for {
		ctx := <-recvInfoHash
		cur := ctx.RemoteAddr().String()
		if cur == last {
			continue
		}
		last = cur
		pool.AsyncSubmit(func() {
			fetchHandler(ctx)
		})
	}
''')]),
 ('loop-twice', 'C41', [(FT, LOOP, '''	for {
		ctx := <-recvInfoHash
		pool.AsyncSubmit(func() {
			fetchHandler(ctx)
		})
		pool.AsyncSubmit(func() {
			fetchHandler(ctx)
		})
	}
''')]),
 ('loop-hoist', 'C41', [(FT, LOOP, '''	var ctx *krpc.RpcContext
	for {
		ctx = <-recvInfoHash
		pool.AsyncSubmit(func() {
			fetchHandler(ctx)
		})
	}
''')]),
 ('loop-range', 'C41', [(FT, LOOP, '''	for ctx := range recvInfoHash {
		pool.AsyncSubmit(func() {
			fetchHandler(ctx)
		})
	}
''')]),
 ('loop-once', 'C41', [(FT, LOOP, '''	ctx := <-recvInfoHash
	pool.AsyncSubmit(func() {
		fetchHandler(ctx)
	})
''')]),
 ('task-cond', 'C41', [(FT, '	result, err := peerwire', '	if misc.IsDir(torrentDir) && len(hash) > 40 {\n		return\n	}\n	result, err := peerwire')]),
 ('task-retry', 'C41', [(FT, '	if err != nil {\n		return\n	}\n	flush', '	if err != nil {\n		result, err = peerwire.FetchMetaData(laddr, peerwire.LocalPeerId, misc.Str2Bytes(infoHash))\n	}\n	if err != nil {\n		return\n	}\n	flush')]),
 ('task-nostore', 'C41', [(FT, '	flushTorrentFile(hash, result)\n', '	_, _ = hash, result\n')]),
 ('task-inverted', 'C41', [(FT, '	if err != nil {\n		return\n	}\n	flush', '	if err == nil {\n		return\n	}\n	flush')]),
 ('task-size', 'C41', [(FT, '	flushTorrentFile(hash, result)\n', '	if len(result) < 1024 {\n		flushTorrentFile(hash, result)\n	}\n')]),
]
R = [
 ('boot-index', ['C41'], [(ROOT, BL, '''	hosts := config.DhtConfig().BootstrapNodes
	for i := 0; i < len(hosts); i++ {
		dht.BootStrap(hosts[i])
	}
''')]),
 ('boot-helper', ['C41'], [(ROOT, BL, '	bootstrapAll(config.DhtConfig().BootstrapNodes)\n'), (ROOT, 'func rootExectueFunc', '''func bootstrapAll(hosts []string) {
	for i := range hosts {
		dht.BootStrap(hosts[i])
	}
}

func rootExectueFunc''')]),
 ('boot-if', ['C41'], [(ROOT, BL, '	if hosts := config.DhtConfig().BootstrapNodes; len(hosts) > 0 {\n		for _, host := range hosts {\n			dht.BootStrap(host)\n		}\n	}\n')]),
 ('boot-for', ['C41'], [(ROOT, BL, '''	hosts := config.DhtConfig().BootstrapNodes
	for i := 0; ; i++ {
		if i >= len(hosts) {
			break
		}
		dht.BootStrap(hosts[i])
	}
''')]),
 ('boot-down', ['C41'], [(ROOT, BL, '''	hosts := config.DhtConfig().BootstrapNodes
	for i := len(hosts) - 1; i >= 0; i-- {
		dht.BootStrap(hosts[i])
	}
''')]),
 ('run-closure', ['C41'], [(ROOT, '	go dht.Run()\n', '	go func() {\n		dht.Run()\n	}()\n')]),
 ('boot-inline', ['C41'], [(DHT, '	msg := WithFindNodeMsg(txIdGenerator.Next(), localNodeId, localNodeId, genericRespHandler)\n', ''), (DHT, 'rpcServer.Query(raddr, msg)', 'rpcServer.Query(raddr, WithFindNodeMsg(txIdGenerator.Next(), localNodeId, localNodeId, genericRespHandler))')]),
 ('ask-helper', ['C41'], [(RESP, Q, 'err = askForNodes(n)'), (RESP, 'func pingRespHandler', '''func askForNodes(n *NodeInfo) error {
	return rpcServer.Query(n.Addr, WithFindNodeMsg(txIdGenerator.Next(), localNodeId, localNodeId, genericRespHandler))
}

func pingRespHandler''')]),
 ('ask-helper2', ['C41'], [(RESP, FIND, '''	for i := 0; i < len(nodes); i++ {
		offerNode(nodes[i])
	}
'''), (RESP, 'func pingRespHandler', '''func offerNode(n *NodeInfo) {
	if err := rtable.AddNode(n); err != nil {
		dhtLogger.Info("add node err", misc.Dict{"err": err, "tableSize": rtable.Size()})
		return
	}
	err := rpcServer.Query(n.Addr, WithFindNodeMsg(txIdGenerator.Next(), localNodeId, localNodeId, genericRespHandler))
	if err != nil {
		dhtLogger.Error("recurve find node err", misc.Dict{"err": err, "tableSize": rtable.Size()})
	}
}

func pingRespHandler''')]),
 ('ask-else', ['C41'], [(RESP, FIND, '''	for _, n := range nodes {
		if err := rtable.AddNode(n); err != nil {
			dhtLogger.Info("add node err", misc.Dict{"err": err, "tableSize": rtable.Size()})
		} else if err := rpcServer.Query(n.Addr, WithFindNodeMsg(txIdGenerator.Next(), localNodeId, localNodeId, genericRespHandler)); err != nil {
			dhtLogger.Error("recurve find node err", misc.Dict{"err": err, "tableSize": rtable.Size()})
		}
	}
''')]),
 ('ask-two', ['C41'], [(RESP, FIND, '''	var fresh []*NodeInfo
	for _, n := range nodes {
		if err := rtable.AddNode(n); err != nil {
			continue
		}
		fresh = append(fresh, n)
	}
	for _, n := range fresh {
		err := rpcServer.Query(n.Addr, WithFindNodeMsg(txIdGenerator.Next(), localNodeId, localNodeId, genericRespHandler))
		if err != nil {
			dhtLogger.Error("recurve find node err", misc.Dict{"err": err, "tableSize": rtable.Size()})
		}
	}
''')]),
 ('resp-map', ['C41'], [(RESP, '	case "find_node":\n		nodes := body.GetString("nodes")\n		findNodeRespHandler(ctx, parseNodeInfo(nodes))\n', '	case "find_node":\n		found := parseNodeInfo(body.GetString("nodes"))\n		findNodeRespHandler(ctx, found)\n')]),
 ('resp-empty', ['C41'], [(RESP, FIND, '	if len(nodes) == 0 {\n		return\n	}\n' + FIND)]),
 ('queue-helper', ['C41'], [(REQ, SEL, '	queueAnnounce(ctx, hash)\n'), (REQ, 'func pingHandler', 'func queueAnnounce(ctx *krpc.RpcContext, hash string) {\n' + SEL + '}\n\nfunc pingHandler')]),
 ('queue-first', ['C41'], [(REQ, SEL, ''), (REQ, '	ctx.WriteAs(WithAnnouncePeerResponse', SEL + '	ctx.WriteAs(WithAnnouncePeerResponse')]),
 ('loop-param', ['C41'], [(FT, LOOP, '''	for ctx := range recvInfoHash {
		submitFetch(pool, ctx)
	}
'''), (FT, 'func fetchHandler', '''func submitFetch(pool *misc.WorkPool, ctx *krpc.RpcContext) {
	pool.AsyncSubmit(func() {
		fetchHandler(ctx)
	})
}

func fetchHandler''')]),
 ('loop-copy', ['C41'], [(FT, LOOP, '''	for c := range recvInfoHash {
		ctx := c
		pool.AsyncSubmit(func() { fetchHandler(ctx) })
	}
''')]),
 ('loop-task', ['C41'], [(FT, LOOP, '''	for {
		ctx, ok := <-recvInfoHash
		if !ok {
			return
		}
		task := func() {
			fetchHandler(ctx)
		}
		pool.AsyncSubmit(task)
	}
''')]),
 ('task-inline', ['C41'], [(FT, '	if err != nil {\n		return\n	}\n	flushTorrentFile(hash, result)\n', '	if err == nil {\n		flushTorrentFile(hash, result)\n	}\n')]),
 ('task-helper', ['C41'], [(FT, '	result, err := peerwire.FetchMetaData(laddr, peerwire.LocalPeerId, misc.Str2Bytes(infoHash))\n	if err != nil {\n		return\n	}\n	flushTorrentFile(hash, result)\n}\n', '	download(laddr, hash, infoHash)\n}\n\nfunc download(laddr, hash, infoHash string) {\n	result, err := peerwire.FetchMetaData(laddr, peerwire.LocalPeerId, misc.Str2Bytes(infoHash))\n	if err != nil {\n		return\n	}\n	flushTorrentFile(hash, result)\n}\n')]),
 ('run-go', ['C41'], [(DHT, '	go fetchTorrent()\n', '	go func() {\n		fetchTorrent()\n	}()\n')]),
 ('run-handlers', ['C41'], [(DHT, '''	rpcServer.RegisteHandler("ping", pingHandler)
	rpcServer.RegisteHandler("find_node", findNodeHandler)
	rpcServer.RegisteHandler("get_peers", getPeersHandler)
	rpcServer.RegisteHandler("announce_peer", announcePeerHandler)
''', '	registerHandlers()\n'), (DHT, '// bootstrap find', '''func registerHandlers() {
	rpcServer.RegisteHandler("ping", pingHandler)
	rpcServer.RegisteHandler("find_node", findNodeHandler)
	rpcServer.RegisteHandler("get_peers", getPeersHandler)
	rpcServer.RegisteHandler("announce_peer", announcePeerHandler)
}

// bootstrap find''')]),
]
