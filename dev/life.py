WP="misc/workpool.go"
DRAIN="\t\tcase <-pool.shutdowned:\n\t\t\tpool.drainQueue()\n\t\t\treturn\n"
M=[
("startshutdown-check-outside","C22",[(WP,"\tpool.lock.Lock()\n\tdefer pool.lock.Unlock()\n\tif Running != pool.Status() {\n\t\treturn false\n\t}\n","\tif Running != pool.Status() {\n\t\treturn false\n\t}\n\tpool.lock.Lock()\n\tdefer pool.lock.Unlock()\n")]),
("no-drain","C22",[(WP,DRAIN,"\t\tcase <-pool.shutdowned:\n\t\t\treturn\n")]),
("drain-one","C22",[(WP,"\t\t\tworker()\n\t\tdefault:\n","\t\t\tworker()\n\t\t\treturn\n\t\tdefault:\n")]),
("run-in-go","C22",[(WP,"\t\tcase worker := <-pool.queue:\n\t\t\tworker()\n\t\tcase <-pool.sh","\t\tcase worker := <-pool.queue:\n\t\t\tgo worker()\n\t\tcase <-pool.sh")]),
("drain-discard","C22",[(WP,"\t\tcase worker := <-pool.queue:\n\t\t\tworker()\n\t\tdefault:","\t\tcase <-pool.queue:\n\t\tdefault:")]),
("drop-if-down","C22",[(WP,"\t\tcase worker := <-pool.queue:\n\t\t\tworker()\n\t\tcase <-pool.sh","\t\tcase worker := <-pool.queue:\n\t\t\tif pool.Status() == Running {\n\t\t\t\tworker()\n\t\t\t}\n\t\tcase <-pool.sh")]),
("wg-missing","C22",[(WP,"\tdefer pool.wg.Done()\n\tfor {","\tfor {"),(WP,"\t\t\tpool.drainQueue()\n\t\t\treturn","\t\t\tpool.wg.Done()\n\t\t\tpool.drainQueue()\n\t\t\treturn")]),
("one-less","C22",[(WP,"for i := 0; i < pool.size; i++","for i := 1; i < pool.size; i++")]),
("one-more","C22",[(WP,"for i := 0; i < pool.size; i++","for i := 0; i <= pool.size; i++")]),
("no-timeout","C22",[(WP,"\tcase <-time.After(timeout):\n\t\tworkPoolLogger.Trace(\"shutdown timeout just exit\", Dict{\"name\": pool.name})\n","")]),
("fixed-timeout","C22",[(WP,"<-time.After(timeout)","<-time.After(2 * time.Second)")]),
("early-status","C22",[(WP,"\tpool.status.Store(Shutdowned)\n}","}"),(WP,"\t// broadcast shutdown\n","\tpool.status.Store(Shutdowned)\n")]),
("no-final","C22",[(WP,"\tpool.status.Store(Shutdowned)\n}","}")]),
("final-only-ok","C22",[(WP,"\tpool.status.Store(Shutdowned)\n}","}"),(WP,"\t\tworkPoolLogger.Trace(\"shutdown success\", Dict{\"name\": pool.name})\n","\t\tpool.status.Store(Shutdowned)\n")]),
("submit-no-check","C22",[(WP,"\tif pool.Status() != Running {","\tif pool.Status() == Shutdowned {")]),
("submit-drop","C22",[(WP,"\tpool.queue <- worker\n","\tselect {\n\tcase pool.queue <- worker:\n\tdefault:\n\t\tworkPoolLogger.Trace(\"full\", nil)\n\t}\n")]),
("submit-run","C22",[(WP,"\tpool.queue <- worker\n","\tselect {\n\tcase pool.queue <- worker:\n\tcase <-pool.shutdowned:\n\t}\n")]),
("status-late","C22",[(WP,"\tpool.status.Store(Running)\n\tgo pool.listenCancelLoop()\n","\tgo pool.listenCancelLoop()\n\tpool.status.Store(Running)\n")]),
("cancel-ignored","C22",[(WP,"\t\tpool.Shutdown(2 * time.Second)\n","")]),
("cancel-not-started","C22",[(WP,"\tgo pool.listenCancelLoop()\n","")]),
("finish-early","C22",[(WP,"\t\tpool.wg.Wait()\n\t\tclose(finish)\n","\t\tclose(finish)\n\t\tpool.wg.Wait()\n")]),
("wg-late","C22",[(WP,"\tpool.wg.Add(pool.size)\n","\tpool.wg.Add(1)\n")]),
("close-queue","C22",[(WP,"\tclose(pool.shutdowned)\n","\tclose(pool.shutdowned)\n\tclose(pool.queue)\n")]),
("select-status","C22",[(WP,"\tfor {\n\t\tselect {\n\t\tcase worker := <-pool.queue:\n\t\t\tworker()\n\t\tcase <-pool.sh","\tfor pool.Status() == Running {\n\t\tselect {\n\t\tcase worker := <-pool.queue:\n\t\t\tworker()\n\t\tcase <-pool.sh")]),
]
P=["C22","C12","C11"]
R=[
("cas",P,[(WP,"\tpool.lock.Lock()\n\tdefer pool.lock.Unlock()\n\tif Running != pool.Status() {\n\t\treturn false\n\t}\n\tpool.status.Store(Shutdowning)\n\treturn true\n","\treturn pool.status.CompareAndSwap(Running, Shutdowning)\n")]),
("inline-start",P,[(WP,"\tif !pool.startShutdown() {\n\t\treturn\n\t}\n","\tpool.lock.Lock()\n\tif pool.Status() != Running {\n\t\tpool.lock.Unlock()\n\t\treturn\n\t}\n\tpool.status.Store(Shutdowning)\n\tpool.lock.Unlock()\n"),(WP,"// only one caller can move the pool from running to shutdowning\nfunc (pool *WorkPool) startShutdown() bool {\n\tpool.lock.Lock()\n\tdefer pool.lock.Unlock()\n\tif Running != pool.Status() {\n\t\treturn false\n\t}\n\tpool.status.Store(Shutdowning)\n\treturn true\n}\n","")]),
("count-down",P,[(WP,"for i := 0; i < pool.size; i++","for i := pool.size; i > 0; i--")]),
("from-one",P,[(WP,"for i := 0; i < pool.size; i++","for i := 1; i <= pool.size; i++")]),
("add-one-each",P,[(WP,"\tpool.wg.Add(pool.size)\n",""),(WP,"\t\tgo pool.workerLoop()\n","\t\tpool.wg.Add(1)\n\t\tgo pool.workerLoop()\n")]),
("worker-closure",P,[(WP,"\t\tgo pool.workerLoop()\n","\t\tgo func() {\n\t\t\tdefer pool.wg.Done()\n\t\t\tpool.workerLoop()\n\t\t}()\n"),(WP,"\t// not running exit\n\tdefer pool.wg.Done()\n","")]),
("done-explicit",P,[(WP,"\t\t\tpool.drainQueue()\n\t\t\treturn\n","\t\t\tpool.drainQueue()\n\t\t\tpool.wg.Done()\n\t\t\treturn\n"),(WP,"\t// not running exit\n\tdefer pool.wg.Done()\n","")]),
("timer",P,[(WP,"\tselect {\n\tcase <-time.After(timeout):","\ttimer := time.NewTimer(timeout)\n\tdefer timer.Stop()\n\tselect {\n\tcase <-timer.C:")]),
("chan-struct",P,[(WP,"\tshutdowned chan bool\n","\tshutdowned chan struct{}\n"),(WP,"make(chan bool),\n\t\tctx","make(chan struct{}),\n\t\tctx")]),
("status-int32",P,[(WP,"\tstatus     atomic.Value\n","\tstatus     int32\n"),(WP,"\tpool.status.Store(Running)\n","\tatomic.StoreInt32(&pool.status, int32(Running))\n"),(WP,"\tpool.status.Store(Shutdowned)\n","\tatomic.StoreInt32(&pool.status, int32(Shutdowned))\n"),(WP,"\tpool.status.Store(Shutdowning)\n","\tatomic.StoreInt32(&pool.status, int32(Shutdowning))\n"),(WP,"\treturn pool.status.Load().(ShutdownStatus)\n","\treturn ShutdownStatus(atomic.LoadInt32(&pool.status))\n"),(WP,"\t\tstatus:     atomic.Value{},\n","")]),
("run-helper",P,[(WP,"\t\tcase worker := <-pool.queue:\n\t\t\tworker()\n\t\tcase <-pool.sh","\t\tcase worker := <-pool.queue:\n\t\t\tpool.run(worker)\n\t\tcase <-pool.sh"),(WP,"// run the tasks","func (pool *WorkPool) run(w AsyncWorkFunc) {\n\tw()\n}\n\n// run the tasks")]),
("drain-loop",P,[(WP,"\tfor {\n\t\tselect {\n\t\tcase worker := <-pool.queue:\n\t\t\tworker()\n\t\tdefault:\n\t\t\treturn\n\t\t}\n\t}\n","\tfor more := true; more; {\n\t\tselect {\n\t\tcase worker := <-pool.queue:\n\t\t\tworker()\n\t\tdefault:\n\t\t\tmore = false\n\t\t}\n\t}\n")]),
("drain-len",P,[(WP,"\tfor {\n\t\tselect {\n\t\tcase worker := <-pool.queue:\n\t\t\tworker()\n\t\tdefault:\n\t\t\treturn\n\t\t}\n\t}\n","\tfor len(pool.queue) > 0 {\n\t\tselect {\n\t\tcase worker := <-pool.queue:\n\t\t\tworker()\n\t\tdefault:\n\t\t}\n\t}\n")]),
("ctor-ptr",P,[(WP,"\tpool := WorkPool{","\tpool := &WorkPool{"),(WP,"\treturn &pool\n","\treturn pool\n")]),
("submit-switch",P,[(WP,"\tif pool.Status() != Running {\n\t\tpanic(pool.name + \" is shutdowned\")\n\t}\n\tpool.queue <- worker\n","\tswitch pool.Status() {\n\tcase Running:\n\t\tpool.queue <- worker\n\tdefault:\n\t\tpanic(pool.name + \" is shutdowned\")\n\t}\n")]),
("submit-helper",P,[(WP,"\tif pool.Status() != Running {\n\t\tpanic(pool.name + \" is shutdowned\")\n\t}\n","\tpool.mustRun()\n"),(WP,"func (pool *WorkPool) Shutdown(","func (pool *WorkPool) mustRun() {\n\tif pool.Status() == Running {\n\t\treturn\n\t}\n\tpanic(pool.name + \" is shutdowned\")\n}\n\nfunc (pool *WorkPool) Shutdown(")]),
("wait-helper",P,[(WP,"\tselect {\n\tcase <-time.After(timeout):\n\t\tworkPoolLogger.Trace(\"shutdown timeout just exit\", Dict{\"name\": pool.name})\n\tcase <-pool.waitFinish():\n\t\tworkPoolLogger.Trace(\"shutdown success\", Dict{\"name\": pool.name})\n\t}\n\tpool.status.Store(Shutdowned)\n}\n","\tdefer pool.status.Store(Shutdowned)\n\tpool.awaitWorkers(timeout)\n}\n\nfunc (pool *WorkPool) awaitWorkers(timeout time.Duration) {\n\tfinish := make(chan bool, 1)\n\tgo func() {\n\t\tpool.wg.Wait()\n\t\tfinish <- true\n\t}()\n\tselect {\n\tcase <-time.After(timeout):\n\tcase <-finish:\n\t}\n}\n"),(WP,"func (pool *WorkPool) waitFinish() chan bool {\n\tfinish := make(chan bool)\n\tgo func() {\n\t\tpool.wg.Wait()\n\t\tclose(finish)\n\t}()\n\treturn finish\n}\n","")]),
("status-first",P,[(WP,"\tpool.wg.Add(pool.size)\n\tpool.status.Store(Running)\n","\tpool.status.Store(Running)\n\tpool.wg.Add(pool.size)\n")]),
("listen-if",P,[(WP,"\tcase <-pool.shutdowned:\n\t\tworkPoolLogger.Trace(\"listenCancelLoop exit because shutdown\", Dict{\"name\": pool.name})\n\t\treturn\n\t}\n","\tcase <-pool.shutdowned:\n\t}\n")]),
]
