C="config/config.go"; R_="cmd/root.go"
ACC="	return getSubConfig(fetchTorrentConfigKey, new(fetchTorrentConfig)).(*fetchTorrentConfig)\n"
CLR="	configLock.Lock()\n	configMap = make(misc.Dict, 16)\n	configLock.Unlock()\n"
FORGET="	// forget the sections of an earlier load\n"+CLR
SUB='''	if val, ok := configMap[key]; ok {
		return val
	}
	err := viper.UnmarshalKey(key, valPtr)
	if err != nil {
		misc.PanicSysErr("cannot find "+key+" config", err)
	}
	configMap[key] = valPtr
	return valPtr
'''
NF='''		if _, ok := err.(viper.ConfigFileNotFoundError); !ok {
			misc.PanicSysErr("read config panic", err)
		}
'''
WR='''		if err = viper.SafeWriteConfig(); err != nil {
			misc.PanicSysErr("init flush config err", err)
		}
'''
READ="	if err := viper.ReadInConfig(); err != nil {\n"
RS="		viper.SetConfigFile(cfgFile)\n		config.ResetConfig()\n"
LOGDEF='''	viper.SetDefault(loggerConfigKey, &loggerConfig{
		Level: "Info",
	})
'''
DHTDEF='''	viper.SetDefault(dhtConfigKey, &dhtConfig{
		Port:         21000,
		WorkPoolSize: 2000,
		BootstrapNodes: []string{
			"87.98.162.88:6881",
		},
	})
'''
IMP='	"github.com/spf13/viper"\n	"sync"\n'
MK="		if !misc.IsExist(configPath) {\n			misc.Mkdir(configPath)\n		}\n"
M=[
("no-mkdir","C32",[(C,MK,"")]),
("mkdir-inv","C32",[(C,MK,MK.replace("!misc","misc"))]),
("mkdir-after","C32",[(C,MK,""),(C,WR,WR+MK)]),
("mkdir-other","C32",[(C,MK,MK.replace("Mkdir(configPath)","Mkdir(FileAbsPath)"))]),
("acc-key","C32",[(C,ACC,ACC.replace("fetchTorrentConfigKey","dhtConfigKey").replace("new(fetch","new(fetch"))]),
("def-key","C32",[(C,"viper.SetDefault(pprofConfigKey, &pprof","viper.SetDefault(loggerConfigKey, &pprof")]),
("const-same","C32",[(C,'fetchTorrentConfigKey = "fetchTorrent"','fetchTorrentConfigKey = "dht"')]),
("def-struct","C32",[(C,"viper.SetDefault(fetchTorrentConfigKey, &fetchTorrentConfig{\n		InfoHashQueueSize: 300000,\n		WorkPoolSize:      500,\n	})","viper.SetDefault(fetchTorrentConfigKey, &dhtConfig{\n		WorkPoolSize:      500,\n	})")]),
("no-default","C32",[(C,LOGDEF,"")]),
("late-default","C32",[(C,LOGDEF,""),(C,"	ResetConfig()\n}\n","	ResetConfig()\n"+LOGDEF+"}\n")]),
("cache-key","C32",[(C,"	configMap[key] = valPtr\n",'	configMap["dht"] = valPtr\n')]),
("cache-read","C32",[(C,"	if val, ok := configMap[key]; ok {",'	if val, ok := configMap[key+"Config"]; ok {')]),
("no-clear","C32",[(C,FORGET,"")]),
("clear-first","C32",[(C,FORGET,""),(C,"	viper.SetConfigPermissions(0666)\n","	viper.SetConfigPermissions(0666)\n"+CLR)]),
("clear-missing-only","C32",[(C,FORGET,""),(C,WR,WR+CLR)]),
("clear-found-only","C32",[(C,FORGET,""),(C,"		configLogger.Trace(\"write default config success\"","		return\n	}\n"+CLR+"	if false {\n		configLogger.Trace(\"write default config success\"")]),
("ignore-other","C32",[(C,NF,NF.replace('misc.PanicSysErr("read config panic", err)','configLogger.Error("read config err", misc.Dict{"err": err})'))]),
("ignore-other2","C32",[(C,NF,NF.replace('misc.PanicSysErr("read config panic", err)','configLogger.Error("read config err", misc.Dict{"err": err})\n			return'))]),
("ignore-parse","C32",[(C,NF,'''		if _, ok := err.(viper.ConfigParseError); ok {
			misc.PanicSysErr("read config panic", err)
		}
''')]),
("no-write","C32",[(C,WR,"")]),
("write-ignored","C32",[(C,WR,"		viper.SafeWriteConfig()\n")]),
("write-logged","C32",[(C,WR,WR.replace('misc.PanicSysErr("init flush config err", err)','configLogger.Error("flush", misc.Dict{"err": err})'))]),
("unm-ignored","C32",[(C,SUB,SUB.replace('''	err := viper.UnmarshalKey(key, valPtr)
	if err != nil {
		misc.PanicSysErr("cannot find "+key+" config", err)
	}
''',"	viper.UnmarshalKey(key, valPtr)\n"))]),
("unm-logged","C32",[(C,SUB,SUB.replace('misc.PanicSysErr("cannot find "+key+" config", err)','configLogger.Error("cannot find config", misc.Dict{"err": err})'))]),
("cache-before","C32",[(C,SUB,SUB.replace("	configMap[key] = valPtr\n","").replace("	err := viper","	configMap[key] = valPtr\n	err := viper"))]),
("no-reset","C32",[(R_,RS,"		viper.SetConfigFile(cfgFile)\n")]),
("reset-first","C32",[(R_,RS,"		config.ResetConfig()\n		viper.SetConfigFile(cfgFile)\n")]),
("late-reset","C32",[(R_,"	if len(cfgFile) > 0 {\n"+RS+"	}\n\n	if config.PProfConfig().NeedRun {\n		misc.StartPProf()\n	}\n","	if len(cfgFile) > 0 {\n		viper.SetConfigFile(cfgFile)\n	}\n\n	if config.PProfConfig().NeedRun {\n		misc.StartPProf()\n	}\n	config.ResetConfig()\n")]),
("empty-cfg","C32",[(R_,"	if len(cfgFile) > 0 {\n"+RS,"	if len(cfgFile) > 0 {\n		viper.SetConfigFile(cfgFile)\n		if len(args) > 0 {\n			config.ResetConfig()\n		}\n")]),
("other-struct","C32",[(C,SUB,SUB.replace("viper.UnmarshalKey(key, valPtr)","viper.UnmarshalKey(key, new(dhtConfig))"))]),
("fixed-key","C32",[(C,SUB,SUB.replace("viper.UnmarshalKey(key, valPtr)",'viper.UnmarshalKey("dht", valPtr)'))]),
("clear-copy","C32",[(C,FORGET,"	configLock.Lock()\n	m := configMap\n	m = make(misc.Dict, 16)\n	_ = m\n	configLock.Unlock()\n")]),
("clear-cond","C32",[(C,CLR,"	configLock.Lock()\n	if viper.ConfigFileUsed() == \"\" {\n		configMap = make(misc.Dict, 16)\n	}\n	configLock.Unlock()\n")]),
("as-wrong","C32",[(C,NF,'''		var pe viper.ConfigParseError
		if errors.As(err, &pe) {
			misc.PanicSysErr("read config panic", err)
		}
'''),(C,IMP,'	"errors"\n	"github.com/spf13/viper"\n	"sync"\n')]),
]
R=[
("mkdir-always",["C32"],[(C,MK,"		misc.Mkdir(configPath)\n")]),
("mkdir-all",["C32"],[(C,MK,"		os.MkdirAll(configPath, 0755)\n"),(C,IMP,'	"github.com/spf13/viper"\n	"os"\n	"sync"\n')]),
("mkdir-stat",["C32"],[(C,MK,"		if _, serr := os.Stat(configPath); os.IsNotExist(serr) {\n			misc.Mkdir(configPath)\n		}\n"),(C,IMP,'	"github.com/spf13/viper"\n	"os"\n	"sync"\n')]),
("clear-helper",["C32","C10"],[(C,CLR,"	forget()\n"),(C,"func DhtConfig","func forget() {\n"+CLR+"}\n\nfunc DhtConfig")]),
("clear-loop",["C32","C10"],[(C,CLR,"	configLock.Lock()\n	for k := range configMap {\n		delete(configMap, k)\n	}\n	configLock.Unlock()\n")]),
("clear-nil",["C32"],[(C,CLR,"	configLock.Lock()\n	configMap = misc.Dict{}\n	configLock.Unlock()\n")]),
("clear-defer",["C32"],[(C,CLR,"	configLock.Lock()\n	defer configLock.Unlock()\n	configMap = make(misc.Dict, 16)\n")]),
("fresh-first",["C32"],[(C,CLR,"	fresh := make(misc.Dict, 16)\n	configLock.Lock()\n	configMap = fresh\n	configLock.Unlock()\n")]),
("no-cache",["C32","C10"],[(C,FORGET,""),(C,SUB,SUB.replace("	configMap[key] = valPtr\n","").replace("	if val, ok := configMap[key]; ok {\n		return val\n	}\n","")),(C,"var configMap = make(misc.Dict, 16)\n",""),(C,'''func subConfig(key string, val interface{}) {
	configLock.Lock()
	defer configLock.Unlock()
	configMap[key] = val
}
''','')]),
("syncmap",["C32","C10"],[(C,"var configMap = make(misc.Dict, 16)\n","var configMap sync.Map\n"),(C,"	configMap[key] = val\n","	configMap.Store(key, val)\n"),(C,CLR,"	configMap.Range(func(k, v interface{}) bool {\n		configMap.Delete(k)\n		return true\n	})\n"),(C,SUB,SUB.replace("configMap[key]; ok","configMap.Load(key); ok").replace("	configMap[key] = valPtr\n","	configMap.Store(key, valPtr)\n"))]),
("typed-map",["C32"],[(C,"var configMap = make(misc.Dict, 16)\n","var configMap = map[string]interface{}{}\n"),(C,CLR,CLR.replace("make(misc.Dict, 16)","map[string]interface{}{}"))]),
("errors-as",["C32"],[(C,NF,'''		var nf viper.ConfigFileNotFoundError
		if !errors.As(err, &nf) {
			misc.PanicSysErr("read config panic", err)
		}
'''),(C,IMP,'	"errors"\n	"github.com/spf13/viper"\n	"sync"\n')]),
("switch",["C32"],[(C,NF,'''		switch err.(type) {
		case viper.ConfigFileNotFoundError:
		default:
			misc.PanicSysErr("read config panic", err)
		}
''')]),
("early-return",["C32"],[(C,READ+NF,"	err := viper.ReadInConfig()\n	if _, ok := err.(viper.ConfigFileNotFoundError); err != nil && !ok {\n		misc.PanicSysErr(\"read config panic\", err)\n	}\n	if err != nil {\n")]),
("write-helper",["C32"],[(C,WR,"		writeDefaults()\n"),(C,"func DhtConfig","func writeDefaults() {\n	if err := viper.SafeWriteConfig(); err != nil {\n		misc.PanicSysErr(\"init flush config err\", err)\n	}\n}\n\nfunc DhtConfig")]),
("nonnil",["C32"],[(C,WR,"		misc.PanicSysErrNonNil(viper.SafeWriteConfig(), \"init flush config err\")\n")]),
("panic",["C32"],[(C,SUB,SUB.replace('misc.PanicSysErr("cannot find "+key+" config", err)','panic(err)'))]),
("inline-acc",["C32"],[(C,ACC,'''	configLock.Lock()
	defer configLock.Unlock()
	if val, ok := configMap[fetchTorrentConfigKey]; ok {
		return val.(*fetchTorrentConfig)
	}
	out := new(fetchTorrentConfig)
	if err := viper.UnmarshalKey(fetchTorrentConfigKey, out); err != nil {
		misc.PanicSysErr("cannot find config", err)
	}
	configMap[fetchTorrentConfigKey] = out
	return out
''')]),
("per-section",["C32"],[(C,ACC,'''	configLock.Lock()
	defer configLock.Unlock()
	if ftConfig == nil {
		out := new(fetchTorrentConfig)
		if err := viper.UnmarshalKey(fetchTorrentConfigKey, out); err != nil {
			misc.PanicSysErr("cannot find config", err)
		}
		ftConfig = out
	}
	return ftConfig
'''),(C,"func subConfig","var ftConfig *fetchTorrentConfig\n\nfunc subConfig"),(C,CLR,"	configLock.Lock()\n	configMap = make(misc.Dict, 16)\n	ftConfig = nil\n	configLock.Unlock()\n")]),
("defaults-helper",["C32"],[(C,DHTDEF+"","	setDefaults()\n"),(C,"func ResetConfig","func setDefaults() {\n"+DHTDEF+"}\n\nfunc ResetConfig")]),
("defaults-loop",["C32"],[(C,LOGDEF,'	for k, v := range map[string]interface{}{loggerConfigKey: &loggerConfig{Level: "Info"}} {\n		viper.SetDefault(k, v)\n	}\n')]),
("defaults-var",["C32"],[(C,LOGDEF,'	def := &loggerConfig{Level: "Info"}\n	viper.SetDefault(loggerConfigKey, def)\n')]),
("defaults-value",["C32"],[(C,LOGDEF,'	viper.SetDefault(loggerConfigKey, loggerConfig{Level: "Info"})\n')]),
("root-helper",["C32"],[(R_,RS,"		loadFile(cfgFile)\n"),(R_,"func ExecuteBackgroud","func loadFile(path string) {\n	viper.SetConfigFile(path)\n	config.ResetConfig()\n}\n\nfunc ExecuteBackgroud")]),
("lock-split",["C32","C10"],[(C,'''	configLock.Lock()
	defer configLock.Unlock()
	if val, ok := configMap[key]; ok {
		return val
	}
	err :=''','''	configLock.Lock()
	val, ok := configMap[key]
	configLock.Unlock()
	if ok {
		return val
	}
	err :='''),(C,"	configMap[key] = valPtr\n	return","	configLock.Lock()\n	configMap[key] = valPtr\n	configLock.Unlock()\n	return")]),
("else-branch",["C32"],[(C,SUB,'''	val, ok := configMap[key]
	if !ok {
		if err := viper.UnmarshalKey(key, valPtr); err != nil {
			misc.PanicSysErr("cannot find "+key+" config", err)
		}
		val = valPtr
		configMap[key] = val
	}
	return val
''')]),
("viper-instance",["C32"],[(C,"viper.UnmarshalKey(key","viper.GetViper().UnmarshalKey(key")]),
]
