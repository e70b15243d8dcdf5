SD="misc/shutdown.go"
LOOP="\t\tfor _, clean := range cleans {\n\t\t\tgo func(callback CleanFunc) {\n\t\t\t\tcallback()\n\t\t\t\twg.Done()\n\t\t\t}(clean)\n\t\t}\n"
SEL1="\tselect {\n\tcase <-ctx.innerCtx.Done():\n\t\tshutdownLogger.Trace(\"received context done\", Dict{\"err\": ctx.innerCtx.Err().Error()})\n\tcase s := <-ctx.sigChan:\n\t\tshutdownLogger.Trace(\"received shutdown signal\", Dict{\"sig\": s.String()})\n\t}\n"
SEL2="\tselect {\n\tcase <-ctx.runCleans():\n\t\tshutdownLogger.Trace(\"shutdown clean all\", nil)\n\tcase <-time.After(timeout):\n\t\tshutdownLogger.Trace(\"shutdown timeout, just ignore\", Dict{\"duration\": timeout.String()})\n\t}\n"
COPY="\tctx.lock.Lock()\n\tcleans := append([]CleanFunc(nil), ctx.cleans...)\n\tctx.lock.Unlock()\n"
M=[
("status-after","C23",[(SD,"\tctx.status.Store(Shutdowning)\n\tctx.waitCleans(timeout)\n","\tctx.waitCleans(timeout)\n\tctx.status.Store(Shutdowning)\n")]),
("status-late","C23",[(SD,"\tctx.status.Store(Shutdowning)\n\tctx.wait","\tctx.wait"),(SD,SEL2,"\tfinished := ctx.runCleans()\n\tctx.status.Store(Shutdowning)\n"+SEL2.replace("ctx.runCleans()","finished"))]),
("only-sigint","C23",[(SD,"syscall.SIGINT, syscall.SIGTERM","syscall.SIGINT")]),
("sighup","C23",[(SD,"syscall.SIGINT, syscall.SIGTERM","syscall.SIGINT, syscall.SIGHUP")]),
("unbuffered","C23",[(SD,"make(chan os.Signal, 1)","make(chan os.Signal)")]),
("no-ctx","C23",[(SD,SEL1,"\ts := <-ctx.sigChan\n\tshutdownLogger.Trace(\"received shutdown signal\", Dict{\"sig\": s.String()})\n")]),
("no-sig","C23",[(SD,SEL1,"\t<-ctx.innerCtx.Done()\n")]),
("time-trigger","C23",[(SD,"\tcase s := <-ctx.sigChan:\n","\tcase <-time.After(24 * time.Hour):\n\tcase s := <-ctx.sigChan:\n")]),
("no-timeout","C23",[(SD,SEL2,"\t<-ctx.runCleans()\n")]),
("other-timeout","C23",[(SD,"time.After(timeout)","time.After(5 * time.Second)")]),
("whole-timeout","C23",[(SD,"\tcase <-ctx.runCleans():\n\t\tshutdownLogger.Trace(\"shutdown clean all\", nil)\n",""),(SD,"\tshutdownLogger.Trace(\"start cleaning...\", nil)\n","\tshutdownLogger.Trace(\"start cleaning...\", nil)\n\tctx.runCleans()\n")]),
("ctx-ends","C23",[(SD,"\tcase <-time.After(timeout):\n","\tcase <-ctx.innerCtx.Done():\n\tcase <-time.After(timeout):\n")]),
("sequential","C23",[(SD,"\t\t\tgo func(callback CleanFunc) {\n\t\t\t\tcallback()\n\t\t\t\twg.Done()\n\t\t\t}(clean)\n","\t\t\tclean()\n\t\t\twg.Done()\n")]),
("sync-waiter","C23",[(SD,"\tgo func() {\n\t\twg := sync.W","\tfunc() {\n\t\twg := sync.W")]),
("shared-var","C23",[(SD,"\t\t\tgo func(callback CleanFunc) {\n\t\t\t\tcallback()\n\t\t\t\twg.Done()\n\t\t\t}(clean)\n","\t\t\tgo func() {\n\t\t\t\tclean()\n\t\t\t\twg.Done()\n\t\t\t}()\n")]),
("done-first","C23",[(SD,"\t\t\t\tcallback()\n\t\t\t\twg.Done()\n","\t\t\t\twg.Done()\n\t\t\t\tcallback()\n")]),
("no-done","C23",[(SD,"\t\t\t\tcallback()\n\t\t\t\twg.Done()\n","\t\t\t\tcallback()\n")]),
("no-wait","C23",[(SD,"\t\twg.Wait()\n","")]),
("add-one-less","C23",[(SD,"wg.Add(len(cleans))","wg.Add(len(cleans) - 1)")]),
("add-inside","C23",[(SD,"\t\twg.Add(len(cleans))\n",""),(SD,"\t\t\t\tcallback()\n","\t\t\t\twg.Add(1)\n\t\t\t\tcallback()\n")]),
("skip-first","C23",[(SD,"range cleans {\n","range cleans[1:] {\n")]),
("skip-first-2","C23",[(SD,LOOP,LOOP.replace("for _, clean := range cleans {","for i := 1; i < len(cleans); i++ {\n\t\t\tclean := cleans[i]"))]),
("skip-last","C23",[(SD,LOOP,LOOP.replace("for _, clean := range cleans {","for i := 0; i < len(cleans)-1; i++ {\n\t\t\tclean := cleans[i]"))]),
("break-shut","C23",[(SD,"\t\t\tgo func(callback","\t\t\tif ctx.Status() == Shutdowned {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\tgo func(callback")]),
("skip-some","C23",[(SD,"\t\t\tgo func(callback","\t\t\tif ctx.Status() == Shutdowned {\n\t\t\t\twg.Done()\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tgo func(callback")]),
("twice","C23",[(SD,"\t\t\t\tcallback()\n\t\t\t\twg","\t\t\t\tcallback()\n\t\t\t\tif ctx.Status() == Shutdowning {\n\t\t\t\t\tcallback()\n\t\t\t\t}\n\t\t\t\twg")]),
("twice-run","C23",[(SD,"\tcase <-time.After(timeout):\n","\tcase <-time.After(timeout):\n\t\tctx.runCleans()\n")]),
("not-shut","C23",[(SD,"\tctx.status.Store(Shutdowned)\n","")]),
("shut-early","C23",[(SD,"\tctx.status.Store(Shutdowned)\n",""),(SD,"\tshutdownLogger.Trace(\"start cleaning...\", nil)\n","\tdefer func(r chan bool) { _ = r }(nil)\n\tctx.status.Store(Shutdowned)\n")]),
("shut-only-ok","C23",[(SD,"\tctx.status.Store(Shutdowned)\n",""),(SD,"\t\tshutdownLogger.Trace(\"shutdown clean all\", nil)\n","\t\tshutdownLogger.Trace(\"shutdown clean all\", nil)\n\t\tctx.status.Store(Shutdowned)\n")]),
("shut-in-goroutine","C23",[(SD,"\t\twg.Wait()\n\t\tfinished","\t\tctx.status.Store(Shutdowned)\n\t\twg.Wait()\n\t\tfinished")]),
("announce-first","C23",[(SD,"\t\twg.Wait()\n\t\tfinished <- true\n","\t\tfinished <- true\n\t\twg.Wait()\n")]),
("no-announce","C23",[(SD,"\t\twg.Wait()\n\t\tfinished <- true\n","\t\twg.Wait()\n")]),
("other-chan","C23",[(SD,"\treturn finished\n","\treturn make(chan bool, 1)\n")]),
("reg-replace","C23",[(SD,"append(ctx.cleans, cleanHandler...)","append([]CleanFunc(nil), cleanHandler...)")]),
("reg-first","C23",[(SD,"append(ctx.cleans, cleanHandler...)","append(ctx.cleans, cleanHandler[0])")]),
("reg-running-only","C23",[(SD,"\tctx.cleans = append","\tif len(ctx.cleans) >= 16 {\n\t\treturn\n\t}\n\tctx.cleans = append")]),
("init-other","C23",[(SD,"\tdefaultShutdownCtx.innerCtx = ctx\n","\t_ = WithShutdownContext(ctx)\n")]),
("copy-cap","C23",[(SD,"append([]CleanFunc(nil), ctx.cleans...)","append([]CleanFunc(nil), ctx.cleans[:len(ctx.cleans)/2]...)")]),
("timer-loop","C23",[(SD,SEL2,"\tfinished := ctx.runCleans()\n\tfor n := 0; n < 2; n++ {\n"+SEL2.replace("ctx.runCleans()","finished")+"\t}\n")]),
("sig-stop","C23",[(SD,"\tselect {\n\tcase <-ctx.innerCtx.Done():","\tsignal.Stop(ctx.sigChan)\n\tselect {\n\tcase <-ctx.innerCtx.Done():")]),
("ctx-running","C23",[(SD,"\tctx.status.Store(Shutdowning)\n\tctx.wait","\tif ctx.innerCtx.Err() == nil {\n\t\tctx.status.Store(Shutdowning)\n\t}\n\tctx.wait")]),
("notify-other","C23",[(SD,"signal.Notify(shutdownCtx.sigChan, ","signal.Notify(make(chan os.Signal, 1), ")]),
]
P=["C23","C11","C12","C22"]
R=[
("named-chan",P,[(SD,SEL2,"\tfinished := ctx.runCleans()\n\ttimer := time.NewTimer(timeout)\n\tdefer timer.Stop()\n"+SEL2.replace("ctx.runCleans()","finished").replace("time.After(timeout)","timer.C"))]),
("ctx-timeout",P,[(SD,SEL2,"\ttctx, cancel := context.WithTimeout(context.Background(), timeout)\n\tdefer cancel()\n"+SEL2.replace("time.After(timeout)","tctx.Done()"))]),
("close-finished",P,[(SD,"finished <- true","close(finished)")]),
("struct-chan",P,[(SD,"chan bool","chan struct{}"),(SD,"make(chan bool, 1)","make(chan struct{})"),(SD,"finished <- true","close(finished)")]),
("add-per-go",P,[(SD,"\t\twg.Add(len(cleans))\n",""),(SD,"\t\t\tgo func(callback","\t\t\twg.Add(1)\n\t\t\tgo func(callback")]),
("defer-done",P,[(SD,"\t\t\t\tcallback()\n\t\t\t\twg.Done()\n","\t\t\t\tdefer wg.Done()\n\t\t\t\tcallback()\n")]),
("index-loop",P,[(SD,LOOP,LOOP.replace("for _, clean := range cleans {","for i := 0; i < len(cleans); i++ {").replace("(clean)","(cleans[i])"))]),
("backward-loop",P,[(SD,LOOP,LOOP.replace("for _, clean := range cleans {","for i := len(cleans) - 1; i >= 0; i-- {").replace("(clean)","(cleans[i])"))]),
("local-copy",P,[(SD,"\t\t\tgo func(callback CleanFunc) {\n\t\t\t\tcallback()\n\t\t\t\twg.Done()\n\t\t\t}(clean)\n","\t\t\tcallback := clean\n\t\t\tgo func() {\n\t\t\t\tcallback()\n\t\t\t\twg.Done()\n\t\t\t}()\n")]),
("helper-run",P,[(SD,"\t\t\tgo func(callback CleanFunc) {\n\t\t\t\tcallback()\n\t\t\t\twg.Done()\n\t\t\t}(clean)\n","\t\t\tgo runOne(clean, &wg)\n"),(SD,"func (ctx *shutdownContext) runCleans","func runOne(callback CleanFunc, wg *sync.WaitGroup) {\n\tdefer wg.Done()\n\tcallback()\n}\n\nfunc (ctx *shutdownContext) runCleans")]),
("method-fan",P,[(SD,"\tgo func() {\n\t\twg := sync.WaitGroup{}","\tgo runAll(cleans, finished)\n\treturn finished\n}\n\nfunc runAll(cleans []CleanFunc, finished chan bool) {\n\t\twg := sync.WaitGroup{}"),(SD,"\t\tfinished <- true\n\t}()\n\treturn finished\n","\t\tfinished <- true\n")]),
("copy-builtin",P,[(SD,"\tcleans := append([]CleanFunc(nil), ctx.cleans...)\n","\tcleans := make([]CleanFunc, len(ctx.cleans))\n\tcopy(cleans, ctx.cleans)\n")]),
("snapshot",P,[(SD,COPY,"\tcleans := ctx.snapshot()\n"),(SD,"func (ctx *shutdownContext) runCleans","func (ctx *shutdownContext) snapshot() []CleanFunc {\n\tctx.lock.Lock()\n\tdefer ctx.lock.Unlock()\n\treturn append([]CleanFunc{}, ctx.cleans...)\n}\n\nfunc (ctx *shutdownContext) runCleans")]),
("fan-in-waiter",P,[(SD,"\tgo func() {\n\t\twg := sync.WaitGroup{}\n\t\twg.Add(len(cleans))\n"+LOOP+"\t\twg.Wait()\n\t\tfinished <- true\n\t}()\n","\tvar wg sync.WaitGroup\n\twg.Add(len(cleans))\n"+LOOP.replace("\n\t","\n")[1:]+"\tgo func() {\n\t\twg.Wait()\n\t\tfinished <- true\n\t}()\n")]),
("inline-wait",P,[(SD,"\tctx.waitCleans(timeout)\n\tshut","\tctx.waitCleans(timeout)\n\tctx.status.Store(Shutdowned)\n\tshut"),(SD,"\t}\n\tctx.status.Store(Shutdowned)\n}","\t}\n}")]),
("extract-trigger",P,[(SD,SEL1+"\tctx.status","\tctx.waitTrigger()\n\tctx.status"),(SD,"func (ctx *shutdownContext) waitCleans","func (ctx *shutdownContext) waitTrigger() {\n"+SEL1+"}\n\nfunc (ctx *shutdownContext) waitCleans")]),
("setter",P,[(SD,"ctx.status.Store(Shutdowning)","ctx.setStatus(Shutdowning)"),(SD,"ctx.status.Store(Shutdowned)","ctx.setStatus(Shutdowned)"),(SD,"type CleanFunc func()","func (ctx *shutdownContext) setStatus(s ShutdownStatus) { ctx.status.Store(s) }\n\ntype CleanFunc func()")]),
("interrupt",P,[(SD,"syscall.SIGINT, sys","os.Interrupt, sys")]),
("siglist",P,[(SD,"signal.Notify(shutdownCtx.sigChan, syscall.SIGINT, syscall.SIGTERM)","sigs := []os.Signal{syscall.SIGTERM, syscall.SIGINT}\n\tsignal.Notify(shutdownCtx.sigChan, sigs...)")]),
("stop-after",P,[(SD,"\tctx.status.Store(Shutdowning)\n\tctx.wait","\tctx.status.Store(Shutdowning)\n\tsignal.Stop(ctx.sigChan)\n\tctx.wait")]),
("for-cleans",P,[(SD,"\tctx.cleans = append(ctx.cleans, cleanHandler...)\n","\tfor _, c := range cleanHandler {\n\t\tctx.cleans = append(ctx.cleans, c)\n\t}\n")]),
("empty-skip",P,[(SD,"\tctx.lock.Lock()\n\tdefer ctx.lock.Unlock()\n\tctx.cleans","\tif len(cleanHandler) == 0 {\n\t\treturn\n\t}\n\tctx.lock.Lock()\n\tdefer ctx.lock.Unlock()\n\tctx.cleans")]),
("nil-skip",P,[(SD,"\t\t\t\tcallback()\n\t\t\t\twg.Done()\n","\t\t\t\tif callback != nil {\n\t\t\t\t\tcallback()\n\t\t\t\t}\n\t\t\t\twg.Done()\n")]),
("chan-count",P,[(SD,"\t\twg := sync.WaitGroup{}\n\t\twg.Add(len(cleans))\n","\t\tdones := make(chan bool, len(cleans))\n"),(SD,"\t\t\t\twg.Done()\n","\t\t\t\tdones <- true\n"),(SD,"\t\twg.Wait()\n","\t\tfor range cleans {\n\t\t\t<-dones\n\t\t}\n")]),
("early-empty",P,[(SD,"\tgo func() {\n\t\twg := sync","\tif len(cleans) == 0 {\n\t\tfinished <- true\n\t\treturn finished\n\t}\n\tgo func() {\n\t\twg := sync")]),
("atomic-int",P,[(SD,"\tstatus   atomic.Value\n","\tstatus   atomic.Int32\n"),(SD,"\t\tstatus:   atomic.Value{},\n",""),(SD,"ctx.status.Store(Shutdowning)","ctx.status.Store(int32(Shutdowning))"),(SD,"ctx.status.Store(Shutdowned)","ctx.status.Store(int32(Shutdowned))"),(SD,"ctx.status.Load().(ShutdownStatus)","ShutdownStatus(ctx.status.Load())"),(SD,"shutdownCtx.status.Store(Running)","shutdownCtx.status.Store(int32(Running))")]),
("mutex-status",P,[(SD,"\tstatus   atomic.Value\n","\tstatus   ShutdownStatus\n"),(SD,"\t\tstatus:   atomic.Value{},\n",""),(SD,"\tctx.status.Store(Shutdowning)\n","\tctx.lock.Lock()\n\tctx.status = Shutdowning\n\tctx.lock.Unlock()\n"),(SD,"\tctx.status.Store(Shutdowned)\n","\tctx.lock.Lock()\n\tctx.status = Shutdowned\n\tctx.lock.Unlock()\n"),(SD,"\treturn ctx.status.Load().(ShutdownStatus)\n","\tctx.lock.Lock()\n\tdefer ctx.lock.Unlock()\n\treturn ctx.status\n"),(SD,"\tshutdownCtx.status.Store(Running)\n",""),(SD,"\t\"sync/atomic\"\n","")]),
("wg-go",P,[(SD,"\t\twg.Add(len(cleans))\n",""),(SD,"\t\t\tgo func(callback CleanFunc) {\n\t\t\t\tcallback()\n\t\t\t\twg.Done()\n\t\t\t}(clean)\n","\t\t\twg.Go(clean)\n")]),
]
