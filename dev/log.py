L="misc/logger.go"; Z="misc/zap.go"
PAN="\tc.print(\"Panic\", msg, ctx)\n\tpanic(msg)\n"
M=[
("panic-gated","C25",[(L,PAN,"\tif c.level.get() > PANIC {\n\t\treturn\n\t}\n"+PAN)]),
("panic-print","C25",[(L,PAN,"\tc.print(\"Panic\", msg, ctx)\n")]),
("panic-recover","C25",[(L,PAN,"\tdefer func() {\n\t\tif e := recover(); e != nil {\n\t\t\tc.print(\"Panic\", msg, ctx)\n\t\t}\n\t}()\n\tpanic(msg)\n")]),
("zap-panic-error","C25",[(Z,"l.inner.Panic(msg","l.inner.Error(msg")]),
("zap-panic-dpanic","C25",[(Z,"l.inner.Panic(msg","l.inner.DPanic(msg")]),
("zap-panic-check","C25",[(Z,"\tl.inner.Panic(msg, convert2slice(ctx)...)\n","\tif ce := l.inner.Check(zapcore.ErrorLevel, msg); ce != nil {\n\t\tl.inner.Panic(msg, convert2slice(ctx)...)\n\t}\n")]),
("debug-ge","C25",[(L,"> DEBUG","> INFO")]),
("warn-ge","C25",[(L,"> WARN",">= WARN")]),
("info-wrong","C25",[(L,"> INFO","> DEBUG")]),
("error-none","C25",[(L,"\tif c.level.get() > ERROR {\n\t\treturn\n\t}\n","")]),
("trace-flip","C25",[(L,"> TRACE","< TRACE")]),
("trace-never","C25",[(L,"> TRACE",">= TRACE")]),
("nil-ctx","C25",[(L,"\tc.print(\"Info\", msg, ctx)","\tif ctx == nil {\n\t\treturn\n\t}\n\tc.print(\"Info\", msg, ctx)")]),
("err-panics","C25",[(L,"\tc.print(\"Error\", msg, ctx)","\tc.print(\"Error\", msg, ctx)\n\tif ctx == nil {\n\t\tpanic(msg)\n\t}")]),
("prefix-copy","C25",[(L,"\t\tprefix: prefix,\n\t\tlevel:  c.level,","\t\tprefix: prefix,\n\t\tlevel:  newSharedLevel(c.level.get()),")]),
("level-value","C25",[(L,"\tlevel  *sharedLevel\n","\tlevel  LogLevel\n"),(L,"newSharedLevel(level),","level,"),(L,"c.level.set(level)","c.level = level"),(L,"c.level.get() > DEBUG","c.level > DEBUG"),(L,"c.level.get() > INFO","c.level > INFO"),(L,"c.level.get() > WARN","c.level > WARN"),(L,"c.level.get() > ERROR","c.level > ERROR"),(L,"c.level.get() > TRACE","c.level > TRACE")]),
("zap-prefix-new","C25",[(Z,"\t\tinner:  l.inner,","\t\tinner:  zap.NewNop(),")]),
("setlevel-nop","C25",[(L,"\tc.level.set(level)\n","\tc.level = newSharedLevel(level)\n")]),
("reg-no-loop","C25",[(L,"\tfor _, v := range b.bufferedLoggers {\n\t\tif l, ok := v.(levelSetter); ok {\n\t\t\tl.SetLevel(level)\n\t\t}\n\t}\n","")]),
("reg-no-store","C25",[(L,"\tb.level = level\n","")]),
("reg-raise-only","C25",[(L,"\tb.level = level\n","\tif level < b.level {\n\t\treturn\n\t}\n\tb.level = level\n")]),
("reg-break","C25",[(L,"\t\t\tl.SetLevel(level)\n","\t\t\tl.SetLevel(level)\n\t\t\tbreak\n")]),
("reg-old","C25",[(L,"\tb.level = level\n\tfor","\tlevel, b.level = b.level, level\n\tfor")]),
("init-field","C25",[(L,"\tbufferedLoggers.setLevel(level)\n}\n\n// diff","\tbufferedLoggers.level = level\n}\n\n// diff")]),
("new-fixed","C25",[(L,"NewLogger(name, b.level)","NewLogger(name, INFO)")]),
("new-ignored","C25",[(L,"newSharedLevel(level),","newSharedLevel(INFO),")]),
("not-kept","C25",[(L,"\tb.bufferedLoggers[name] = logger\n","\tif name != \"\" {\n\t\tb.bufferedLoggers[name] = logger\n\t}\n")]),
("map-swap","C25",[(L,"\t\"WARN\":  WARN,\n\t\"ERROR\": ERROR,","\t\"WARN\":  ERROR,\n\t\"ERROR\": WARN,")]),
("map-missing","C25",[(L,"\t\"TRACE\": TRACE,\n","")]),
("zap-names","C25",[(Z,"\tcase \"WARN\":\n\t\treturn zapcore.WarnLevel\n","")]),
("zap-names2","C25",[(Z,"return zapcore.ErrorLevel","return zapcore.DPanicLevel")]),
("zap-warn-info","C25",[(Z,"l.inner.Warn(msg","l.inner.Info(msg")]),
("zap-trace-low","C25",[(Z,"Check(traceLevel, ","Check(zapcore.DebugLevel, ")]),
("zap-drop-empty","C25",[(Z,"\tl.inner.Debug(msg, conv","\tif len(ctx) == 0 {\n\t\treturn\n\t}\n\tl.inner.Debug(msg, conv")]),
]
P=["C25","C11","C12"]
R=[
("helper-enabled",P,[(L,"\tif c.level.get() > "+x+" {\n\t\treturn\n\t}\n","\tif !c.enabled("+x+") {\n\t\treturn\n\t}\n") for x in ["DEBUG","INFO","WARN","ERROR","TRACE"]]+[(L,"func (c *consoleLogger) Flush","func (c *consoleLogger) enabled(l LogLevel) bool {\n\treturn c.level.get() <= l\n}\n\nfunc (c *consoleLogger) Flush")]),
("log-helper",P,[(L,"\tif c.level.get() > "+x.upper()+" {\n\t\treturn\n\t}\n\tc.print(\""+x+"\", msg, ctx)\n","\tc.logAt("+x.upper()+", \""+x+"\", msg, ctx)\n") for x in ["Debug","Info","Warn","Error","Trace"]]+[(L,"func (c *consoleLogger) Flush","func (c *consoleLogger) logAt(l LogLevel, n, msg string, ctx Dict) {\n\tif c.level.get() > l {\n\t\treturn\n\t}\n\tc.print(n, msg, ctx)\n}\n\nfunc (c *consoleLogger) Flush")]),
("positive",P,[(L,"\tif c.level.get() > INFO {\n\t\treturn\n\t}\n\tc.print(\"Info\", msg, ctx)\n","\tif level := c.level.get(); level <= INFO {\n\t\tc.print(\"Info\", msg, ctx)\n\t}\n")]),
("trace-always",P,[(L,"\tif c.level.get() > TRACE {\n\t\treturn\n\t}\n","")]),
("atomic-int",P,[(L,"\tval atomic.Value\n","\tval int32\n"),(L,"l.val.Store(level)","atomic.StoreInt32(&l.val, int32(level))"),(L,"l.val.Load().(LogLevel)","LogLevel(atomic.LoadInt32(&l.val))")]),
("atomic-ptr",P,[(L,"\tlevel  *sharedLevel\n","\tlevel  *atomic.Int64\n"),(L,"\t\tlevel:  newSharedLevel(level),\n\t}\n","\t\tlevel:  newAtomicLevel(level),\n\t}\n"),(L,"c.level.set(level)","c.level.Store(int64(level))"),(L,"// the level of a logger and","func newAtomicLevel(level LogLevel) *atomic.Int64 {\n\tv := new(atomic.Int64)\n\tv.Store(int64(level))\n\treturn v\n}\n\n// the level of a logger and")]+[(L,"c.level.get() > "+x,"LogLevel(c.level.Load()) > "+x) for x in ["DEBUG","INFO","WARN","ERROR","TRACE"]]),
("mutex-level",P,[(L,"\tval atomic.Value\n","\tsync.Mutex\n\tval LogLevel\n"),(L,"\tl.val.Store(level)\n","\tl.Lock()\n\tdefer l.Unlock()\n\tl.val = level\n"),(L,"\treturn l.val.Load().(LogLevel)\n","\tl.Lock()\n\tdefer l.Unlock()\n\treturn l.val\n"),(L,"\t\"sync/atomic\"\n","")]),
("concrete-assert",P,[(L,"if l, ok := v.(levelSetter); ok {","if l, ok := v.(*consoleLogger); ok {")]),
("continue-loop",P,[(L,"\t\tif l, ok := v.(levelSetter); ok {\n\t\t\tl.SetLevel(level)\n\t\t}\n","\t\tl, ok := v.(levelSetter)\n\t\tif !ok {\n\t\t\tcontinue\n\t\t}\n\t\tl.SetLevel(level)\n")]),
("same-skip",P,[(L,"\t\tif l, ok := v.(levelSetter); ok {","\t\tif l, ok := v.(levelSetter); ok && l != nil {")]),
("switch-names",P,[(L,"\treturn logLevelMapping[strings.ToUpper(name)]\n","\tswitch strings.ToUpper(name) {\n\tcase \"INFO\":\n\t\treturn INFO\n\tcase \"WARN\":\n\t\treturn WARN\n\tcase \"ERROR\":\n\t\treturn ERROR\n\tcase \"PANIC\":\n\t\treturn PANIC\n\tcase \"TRACE\":\n\t\treturn TRACE\n\t}\n\treturn DEBUG\n")]),
("comma-names",P,[(L,"\treturn logLevelMapping[strings.ToUpper(name)]\n","\tif l, ok := logLevelMapping[strings.ToUpper(name)]; ok {\n\t\treturn l\n\t}\n\treturn DEBUG\n")]),
("zap-map",P,[(Z,"\tswitch logLevel {\n\tcase \"DEBUG\":\n\t\treturn zapcore.DebugLevel\n\tcase \"INFO\":\n\t\treturn zapcore.InfoLevel\n\tcase \"WARN\":\n\t\treturn zapcore.WarnLevel\n\tcase \"ERROR\":\n\t\treturn zapcore.ErrorLevel\n\tcase \"PANIC\":\n\t\treturn zapcore.PanicLevel\n\tcase \"TRACE\":\n\t\treturn traceLevel\n\tdefault:\n\t\treturn zapcore.InfoLevel\n\t}\n","\treturn zapNames[logLevel]\n"),(Z,"func parseLogLevel","var zapNames = map[string]zapcore.Level{\n\t\"DEBUG\": zapcore.DebugLevel,\n\t\"WARN\":  zapcore.WarnLevel,\n\t\"ERROR\": zapcore.ErrorLevel,\n\t\"PANIC\": zapcore.PanicLevel,\n\t\"TRACE\": traceLevel,\n}\n\nfunc parseLogLevel")]),
("zap-withprefix",P,[(Z,"\tif l.prefix != \"\" {\n\t\tmsg = l.prefix + msg\n\t}\n\tl.inner.Warn(msg, ","\tl.inner.Warn(l.with(msg), "),(Z,"func (l *zapLogger) Flush","func (l *zapLogger) with(msg string) string {\n\tif l.prefix == \"\" {\n\t\treturn msg\n\t}\n\treturn l.prefix + msg\n}\n\nfunc (l *zapLogger) Flush")]),
("zap-trace-if",P,[(Z,"\tl.inner.Check(traceLevel, msg).Write(convert2slice(ctx)...)\n","\tif ce := l.inner.Check(traceLevel, msg); ce != nil {\n\t\tce.Write(convert2slice(ctx)...)\n\t}\n")]),
("stdout",P,[(L,"\tfmt.Printf(\"%s %6s: %s\\r\\n\"","\tfmt.Fprintf(os.Stdout, \"%s %6s: %s\\r\\n\""),(L,"\t\"fmt\"\n","\t\"fmt\"\n\t\"os\"\n")]),
("panic-helper",P,[(L,PAN,"\tc.print(\"Panic\", msg, ctx)\n\tc.die(msg)\n"),(L,"func (c *consoleLogger) Flush","func (c *consoleLogger) die(msg string) {\n\tpanic(msg)\n}\n\nfunc (c *consoleLogger) Flush")]),
("global-level",P,[(L,"\tlevel  *sharedLevel\n",""),(L,"\t\tlevel:  newSharedLevel(level),\n",""),(L,"\t\tlevel:  c.level,\n",""),(L,"\tc.level.set(level)\n","\tconsoleLevel.set(level)\n"),(L,"\tb.level = level\n","\tb.level = level\n\tconsoleLevel.set(level)\n"),(L,"type consoleLogger struct","var consoleLevel = newSharedLevel(INFO)\n\ntype consoleLogger struct")]+[(L,"c.level.get() > "+x,"consoleLevel.get() > "+x) for x in ["DEBUG","INFO","WARN","ERROR","TRACE"]]),
("sort-ctx",P,[(L,"\tfor k, v := range ctx {\n","\tkeys := make([]string, 0, len(ctx))\n\tfor k := range ctx {\n\t\tkeys = append(keys, k)\n\t}\n\tsort.Strings(keys)\n\tfor _, k := range keys {\n\t\tv := ctx[k]\n"),(L,"\t\"fmt\"\n","\t\"fmt\"\n\t\"sort\"\n")]),
]
