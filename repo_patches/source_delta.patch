From ce7d9dff1848e38acf3a59f93689932869e34b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:02 +0000
Subject: [PATCH 01/23] fix: quoted text in a dotted key is always literal,
 wherever it stands

---
 api/key.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/api/key.go b/api/key.go
index 5104384..cf7d0ed 100644
--- a/api/key.go
+++ b/api/key.go
@@ -45,7 +45,7 @@ type (
 // NewKey parses the given string into a Key
 func NewKey(str string) Key {
 	b := bytes.NewBufferString(``)
-	return &key{str, parseUnquoted(b, str, str, []interface{}{})}
+	return &key{str, parseUnquoted(b, str, str, false, []interface{}{})}
 }
 
 var keyType = tf.NewNamed(`hiera.key`,
@@ -145,8 +145,13 @@ func (k *key) String() string {
 	return k.Type().(dgo.NamedType).ValueString(k)
 }
 
-func parseUnquoted(b *bytes.Buffer, key, part string, parts []interface{}) []interface{} {
+func parseUnquoted(b *bytes.Buffer, key, part string, quoted bool, parts []interface{}) []interface{} {
 	mungedPart := func(ix int, part string) interface{} {
+		if quoted {
+			// a segment that is quoted, wholly or in part, is always literal text
+			quoted = false
+			return part
+		}
 		if i, err := strconv.ParseInt(part, 10, 32); err == nil {
 			if ix == 0 {
 				panic(fmt.Errorf(`key '%s' first segment cannot be an index`, key))
@@ -179,7 +184,7 @@ func parseQuoted(b *bytes.Buffer, q rune, key, part string, parts []interface{})
 			if i == len(part)-1 {
 				return append(parts, b.String())
 			}
-			return parseUnquoted(b, key, part[i+1:], parts)
+			return parseUnquoted(b, key, part[i+1:], true, parts)
 		}
 		_, _ = b.WriteRune(c)
 	}
-- 
2.43.0


From 0ea4c299641e099feb6fc50afee572f8b2597014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:29 +0000
Subject: [PATCH 02/23] fix: the unique strategy drops duplicates also when
 only one level has the key

---
 merge/strategy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merge/strategy.go b/merge/strategy.go
index 677184b..0ed25b1 100644
--- a/merge/strategy.go
+++ b/merge/strategy.go
@@ -164,7 +164,7 @@ func (d *unique) mergeSingle(rv reflect.Value, vf func(l interface{}) dgo.Value)
 
 func (d *unique) convertValue(v dgo.Value) dgo.Value {
 	if av, ok := v.(dgo.Array); ok {
-		return av.Flatten()
+		return av.Flatten().Unique()
 	}
 	return vf.Values(v)
 }
-- 
2.43.0


From 53998c9c73b6bfc190977b2bd4fa57acaa59f271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:38 +0000
Subject: [PATCH 03/23] fix: an inherited plugin directory is joined to a
 relative configuration root once only

---
 config/entry.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/config/entry.go b/config/entry.go
index 3396181..5fd7d9b 100644
--- a/config/entry.go
+++ b/config/entry.go
@@ -126,11 +126,12 @@ func (e *entry) resolveDataDir(ic api.Invocation, defaults api.Entry) {
 
 func (e *entry) resolvePluginDir(ic api.Invocation, defaults api.Entry) {
 	if e.pluginDir == `` {
-		if defaults == nil {
-			e.pluginDir = defaultPluginDir()
-		} else {
+		if defaults != nil {
+			// Already resolved. A relative root must not be added twice
 			e.pluginDir = defaults.PluginDir()
+			return
 		}
+		e.pluginDir = defaultPluginDir()
 	} else {
 		if d, dc := ic.InterpolateString(e.pluginDir, false); dc {
 			e.pluginDir = d.String()
-- 
2.43.0


From 83d3322163a2317fc9c788d51ebb63f1cb719a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:38 +0000
Subject: [PATCH 04/23] fix: a configuration document that is not a hash is
 reported as such instead of failing a type assertion

---
 config/config.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/config/config.go b/config/config.go
index 8a39784..95eef9d 100644
--- a/config/config.go
+++ b/config/config.go
@@ -94,12 +94,11 @@ func New(configPath string) api.Config {
 	if err != nil {
 		panic(err)
 	}
-	cfgMap := yv.(dgo.Map)
-	if !cfgType.Instance(cfgMap) {
-		panic(tf.IllegalAssignment(cfgType, cfgMap))
+	if !cfgType.Instance(yv) {
+		panic(tf.IllegalAssignment(cfgType, yv))
 	}
 
-	return createConfig(configPath, cfgMap)
+	return createConfig(configPath, yv.(dgo.Map))
 }
 
 func createConfig(path string, hash dgo.Map) api.Config {
-- 
2.43.0


From a03a5d85a32c61f1f6c416e82c6280f2ab733444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:03 +0000
Subject: [PATCH 05/23] fix: the arguments of a convert_to option are passed to
 the conversion

---
 session/invocation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session/invocation.go b/session/invocation.go
index e1233b8..1f4fc52 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -194,7 +194,7 @@ func (ic *ivContext) LookupAndConvertData(fn func() dgo.Value) dgo.Value {
 
 	if v != nil && convertToType != nil {
 		if convertToArgs != nil {
-			v = vf.Arguments(vf.Values(v).WithAll(convertToArgs))
+			v = vf.ArgumentsFromArray(vf.Values(v).WithAll(convertToArgs))
 		}
 		v = vf.New(convertToType, v)
 	}
-- 
2.43.0


From b32eeefc5220145e92120fa8ef03dbb6184559ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:20 +0000
Subject: [PATCH 06/23] fix: the root of a dotted key is not parsed again, so
 that quoted text with dots stays one segment

---
 api/key.go                  | 5 +++++
 provider/configlookupkey.go | 2 +-
 provider/muxlookupkey.go    | 2 +-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/api/key.go b/api/key.go
index cf7d0ed..28be128 100644
--- a/api/key.go
+++ b/api/key.go
@@ -48,6 +48,11 @@ func NewKey(str string) Key {
 	return &key{str, parseUnquoted(b, str, str, false, []interface{}{})}
 }
 
+// NewRootKey creates a Key that has the given text as its one and only part
+func NewRootKey(root string) Key {
+	return &key{root, []interface{}{root}}
+}
+
 var keyType = tf.NewNamed(`hiera.key`,
 	func(v dgo.Value) dgo.Value {
 		return NewKey(v.String())
diff --git a/provider/configlookupkey.go b/provider/configlookupkey.go
index 21139f2..d2abd51 100644
--- a/provider/configlookupkey.go
+++ b/provider/configlookupkey.go
@@ -20,7 +20,7 @@ func ConfigLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 func ConfigLookupKeyAt(sc api.ServerContext, configPath, key, moduleName string) dgo.Value {
 	ic := sc.Invocation()
 	cfg := ic.Config(configPath, moduleName)
-	k := api.NewKey(key)
+	k := api.NewRootKey(key)
 	if ic.LookupOptionsMode() {
 		return cfg.LookupOptions(k)
 	}
diff --git a/provider/muxlookupkey.go b/provider/muxlookupkey.go
index 02995bf..61bf7c3 100644
--- a/provider/muxlookupkey.go
+++ b/provider/muxlookupkey.go
@@ -43,7 +43,7 @@ func MuxLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 	sc = sc.ForData()
 	args.Set(0, sc)
 	ic = sc.Invocation()
-	return ic.WithLookup(api.NewKey(key), func() dgo.Value {
+	return ic.WithLookup(api.NewRootKey(key), func() dgo.Value {
 		ic.SetMergeStrategy(sc.Option(`merge`), luOpts)
 		return ic.LookupAndConvertData(func() dgo.Value {
 			return ic.MergeStrategy().MergeLookup(spv, ic, luFunc)
-- 
2.43.0


From d7a9d6226fc4883623e25b238de8a830f93562ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:40 +0000
Subject: [PATCH 07/23] fix: the value of a lookup converted to Sensitive is
 not shown in the explanation

---
 session/invocation.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/session/invocation.go b/session/invocation.go
index 1f4fc52..b773883 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -9,8 +9,6 @@ import (
 
 	"github.com/lyraproj/dgo/vf"
 
-	"github.com/lyraproj/dgo/typ"
-
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/util"
 	"github.com/lyraproj/hiera/api"
@@ -20,6 +18,7 @@ import (
 
 const hieraConfigsPrefix = `HieraConfig:`
 const hieraLockPrefix = `HieraLock:`
+const redactedText = `value redacted`
 
 type invocationMode byte
 
@@ -186,7 +185,7 @@ func (ic *ivContext) LookupAndConvertData(fn func() dgo.Value) dgo.Value {
 	convertToType, convertToArgs := ic.extractConversion()
 
 	var v dgo.Value
-	if typ.Sensitive.Equals(convertToType) {
+	if convertToType != nil && convertToType.TypeIdentifier() == dgo.TiSensitive {
 		ic.DoRedacted(func() { v = fn() })
 	} else {
 		v = fn()
@@ -281,6 +280,14 @@ func (ic *ivContext) DoRedacted(doer dgo.Doer) {
 	}
 }
 
+// redact returns the value to use in an explanation, which is not the value itself in a redacted lookup
+func (ic *ivContext) redact(value dgo.Value) dgo.Value {
+	if ic.redacted && value != nil {
+		return vf.String(redactedText)
+	}
+	return value
+}
+
 func (ic *ivContext) DoWithScope(scope dgo.Keyed, doer dgo.Doer) {
 	sc := ic.scope
 	ic.scope = scope
@@ -311,6 +318,9 @@ func (ic *ivContext) WithInterpolation(expr string, producer dgo.Producer) dgo.V
 		return producer()
 	}
 	defer ic.explainer.Pop()
+	if ic.redacted {
+		expr = redactedText
+	}
 	ic.explainer.PushInterpolation(expr)
 	return producer()
 }
@@ -427,13 +437,13 @@ func (ic *ivContext) ReportLocationNotFound() {
 
 func (ic *ivContext) ReportFound(key interface{}, value dgo.Value) {
 	if ic.explainer != nil {
-		ic.explainer.AcceptFound(key, value)
+		ic.explainer.AcceptFound(key, ic.redact(value))
 	}
 }
 
 func (ic *ivContext) ReportMergeResult(value dgo.Value) {
 	if ic.explainer != nil {
-		ic.explainer.AcceptMergeResult(value)
+		ic.explainer.AcceptMergeResult(ic.redact(value))
 	}
 }
 
-- 
2.43.0


From d942c5e713919ab97e7147c518b854b5f1be95c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:31 +0000
Subject: [PATCH 08/23] fix: recursive lookups and variables are reported as
 errors instead of exhausting the stack

---
 session/interpolate.go | 11 ++++++++++-
 session/invocation.go  | 25 +++++++++++++++----------
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/session/interpolate.go b/session/interpolate.go
index 565b8c7..bb1370c 100644
--- a/session/interpolate.go
+++ b/session/interpolate.go
@@ -7,6 +7,7 @@ import (
 	"strings"
 
 	"github.com/lyraproj/dgo/dgo"
+	"github.com/lyraproj/dgo/util"
 	"github.com/lyraproj/dgo/vf"
 	"github.com/lyraproj/hiera/api"
 )
@@ -160,7 +161,15 @@ func (ic *ivContext) InterpolateString(str string, allowMethods bool) (dgo.Value
 // InterpolateInScope resolves a key expression in the invocation scope
 func (ic *ivContext) InterpolateInScope(expr string, allowMethods bool) dgo.Value {
 	key := api.NewKey(expr)
-	if val := ic.Scope().Get(key.Root()); val != nil {
+	root := key.Root()
+	if val := ic.Scope().Get(root); val != nil {
+		if util.ContainsString(ic.varStack, root) {
+			panic(fmt.Errorf(`recursive interpolation of variables detected in [%s]`, strings.Join(ic.varStack, `, `)))
+		}
+		ic.varStack = append(ic.varStack, root)
+		defer func() {
+			ic.varStack = ic.varStack[:len(ic.varStack)-1]
+		}()
 		val, _ = ic.doInterpolate(val, allowMethods)
 		return key.Dig(ic, val)
 	}
diff --git a/session/invocation.go b/session/invocation.go
index b773883..aafeb78 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -31,6 +31,7 @@ const (
 type ivContext struct {
 	api.Session
 	nameStack []string
+	varStack  []string
 	scope     dgo.Keyed
 	luOpts    dgo.Map
 	strategy  api.MergeStrategy
@@ -248,13 +249,15 @@ func (ic *ivContext) Lookup(key api.Key, options dgo.Map) dgo.Value {
 		})
 	}
 
-	v := ic.TopProvider()(ic.ServerContext(options), rootKey)
-	if v != nil {
-		dc := ic.ForData()
-		v = dc.Interpolate(v, true)
-		v = key.Dig(dc, v)
-	}
-	return v
+	return ic.WithKey(key, func() dgo.Value {
+		v := ic.TopProvider()(ic.ServerContext(options), rootKey)
+		if v != nil {
+			dc := ic.ForData()
+			v = dc.Interpolate(v, true)
+			v = key.Dig(dc, v)
+		}
+		return v
+	})
 }
 
 func (ic *ivContext) WithKey(key api.Key, actor dgo.Producer) dgo.Value {
@@ -289,10 +292,12 @@ func (ic *ivContext) redact(value dgo.Value) dgo.Value {
 }
 
 func (ic *ivContext) DoWithScope(scope dgo.Keyed, doer dgo.Doer) {
-	sc := ic.scope
-	ic.scope = scope
+	sc, vs := ic.scope, ic.varStack
+	defer func() {
+		ic.scope, ic.varStack = sc, vs
+	}()
+	ic.scope, ic.varStack = scope, nil
 	doer()
-	ic.scope = sc
 }
 
 func (ic *ivContext) Scope() dgo.Keyed {
-- 
2.43.0


From 965e6f7850672c6f744b3970277a010d00624141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:43 +0000
Subject: [PATCH 09/23] fix: a nested lookup uses the options of its own key
 and leaves those of the outer lookup alone

---
 session/invocation.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/session/invocation.go b/session/invocation.go
index aafeb78..5f12d23 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -250,9 +250,12 @@ func (ic *ivContext) Lookup(key api.Key, options dgo.Map) dgo.Value {
 	}
 
 	return ic.WithKey(key, func() dgo.Value {
-		v := ic.TopProvider()(ic.ServerContext(options), rootKey)
+		// A nested lookup uses the merge strategy and options of its own key and must not alter those of this invocation
+		lic := *ic
+		lic.mode = topLevelMode
+		v := lic.TopProvider()(lic.ServerContext(options), rootKey)
 		if v != nil {
-			dc := ic.ForData()
+			dc := lic.ForData()
 			v = dc.Interpolate(v, true)
 			v = key.Dig(dc, v)
 		}
-- 
2.43.0


From 6b60c9210e8db0510135513f71c79fe1f6e72a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:48 +0000
Subject: [PATCH 10/23] fix: a default function that produces no value gives
 nothing also when a type is expected

---
 hiera/hiera.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hiera/hiera.go b/hiera/hiera.go
index d67129d..1f03247 100644
--- a/hiera/hiera.go
+++ b/hiera/hiera.go
@@ -110,7 +110,9 @@ func Lookup2(
 		return ensureType(valueType, defaultValue)
 	}
 	if defaultFunc != nil {
-		return ensureType(valueType, defaultFunc())
+		if v := defaultFunc(); v != nil {
+			return ensureType(valueType, v)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 872f849c5e4d5ae84795e31f72a8bab1af542edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:00 +0000
Subject: [PATCH 11/23] fix: a configuration that fails to load does not block
 later lookups, and module functions are cached safely

---
 provider/modulelookupkey.go | 26 +++++++-----------
 session/invocation.go       | 54 ++++++++++++++++++++++++-------------
 2 files changed, 45 insertions(+), 35 deletions(-)

diff --git a/provider/modulelookupkey.go b/provider/modulelookupkey.go
index 1b9f94a..7af330e 100644
--- a/provider/modulelookupkey.go
+++ b/provider/modulelookupkey.go
@@ -26,13 +26,7 @@ func ModuleLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 	sc := pc.(api.ServerContext)
 	if ci := strings.Index(key, `::`); ci > 0 {
 		modName := strings.ToLower(key[:ci])
-		var mp dgo.Function
-		mpm := moduleProviders(sc)
-		if f := mpm.Get(modName); f != nil {
-			mp = f.(dgo.Function)
-		} else {
-			mp = loadModuleProvider(sc.Invocation(), mpm, modName)
-		}
+		mp := moduleProvider(sc, modName)
 		iv := sc.Invocation()
 		return iv.WithModule(modName, func() dgo.Value {
 			if mp == notFoundLookupKeyFunc {
@@ -45,20 +39,21 @@ func ModuleLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 	return nil
 }
 
-func moduleProviders(sc api.ServerContext) dgo.Map {
-	var mp dgo.Map
-	if c, ok := sc.CachedValue(`hiera::moduleproviders`); ok {
-		mp = c.(dgo.Map)
-	} else {
-		mp = vf.MutableMap()
-		sc.Cache(`hiera::moduleproviders`, mp)
+// moduleProvider returns the function that performs lookups in the module with the given name. The function is cached
+// individually since the cache is shared by all invocations of a session.
+func moduleProvider(sc api.ServerContext, moduleName string) dgo.Function {
+	cacheKey := `hiera::moduleproviders::` + moduleName
+	if c, ok := sc.CachedValue(cacheKey); ok {
+		return c.(dgo.Function)
 	}
+	mp := loadModuleProvider(sc.Invocation(), moduleName)
+	sc.Cache(cacheKey, mp)
 	return mp
 }
 
 var notFoundLookupKeyFunc = vf.Value(func(pc hiera.ProviderContext, key string) dgo.Value { return nil }).(dgo.Function)
 
-func loadModuleProvider(ic api.Invocation, mpm dgo.Map, moduleName string) dgo.Function {
+func loadModuleProvider(ic api.Invocation, moduleName string) dgo.Function {
 	var mp dgo.Function = notFoundLookupKeyFunc
 	if modulePath, ok := ic.SessionOptions().Get(ModulePath).(dgo.String); ok {
 		for _, path := range filepath.SplitList(modulePath.GoString()) {
@@ -68,7 +63,6 @@ func loadModuleProvider(ic api.Invocation, mpm dgo.Map, moduleName string) dgo.F
 			}
 		}
 	}
-	mpm.Put(moduleName, mp)
 	return mp
 }
 
diff --git a/session/invocation.go b/session/invocation.go
index 5f12d23..a48b823 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -82,34 +82,50 @@ func (ic *ivContext) Config(configPath string, moduleName string) api.ResolvedCo
 
 	lc := hieraLockPrefix + configPath
 
-	myLock := sync.RWMutex{}
-	myLock.Lock()
-
 	var conf api.Config
-	if lv, loaded := sc.LoadOrStore(lc, &myLock); loaded {
-		// myLock was not stored so unlock it
-		myLock.Unlock()
-
-		if lock, ok := lv.(*sync.RWMutex); ok {
-			// The loaded value is a lock. Wait for new config to be stored in place of
-			// this lock
-			lock.RLock()
-			val, _ := sc.Load(cp)
-			conf = val.(api.Config)
-			lock.RUnlock()
+	for conf == nil {
+		myLock := sync.RWMutex{}
+		myLock.Lock()
+
+		if lv, loaded := sc.LoadOrStore(lc, &myLock); loaded {
+			// myLock was not stored so unlock it
+			myLock.Unlock()
+
+			if lock, ok := lv.(*sync.RWMutex); ok {
+				// The loaded value is a lock. Wait for new config to be stored in place of
+				// this lock. No config is stored if the attempt to load it failed.
+				lock.RLock()
+				if val, ok := sc.Load(cp); ok {
+					conf = val.(api.Config)
+				}
+				lock.RUnlock()
+			} else {
+				conf = lv.(api.Config)
+			}
 		} else {
-			conf = lv.(api.Config)
+			conf = loadConfig(sc, cp, lc, configPath, &myLock)
 		}
-	} else {
-		conf = config.New(configPath)
-		sc.Store(cp, conf)
-		myLock.Unlock()
 	}
 	rc := Resolve(ic, conf, moduleName)
 	ic.configs[configPath] = rc
 	return rc
 }
 
+// loadConfig loads the config and stores it in the cache. The lock, which must be held by the caller, is released. It
+// is also removed from the cache if the config cannot be loaded so that those that wait for it, and those that come
+// later, make their own attempt.
+func loadConfig(sc *sync.Map, cp, lc, configPath string, lock *sync.RWMutex) (conf api.Config) {
+	defer func() {
+		if conf == nil {
+			sc.Delete(lc)
+		}
+		lock.Unlock()
+	}()
+	conf = config.New(configPath)
+	sc.Store(cp, conf)
+	return conf
+}
+
 func (ic *ivContext) ExplainMode() bool {
 	return ic.explainer != nil
 }
-- 
2.43.0


From c41f1fcff589b87e0548c688204ec43781c302ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:16 +0000
Subject: [PATCH 12/23] fix: requests no longer share the slice of variables
 that each of them appends to

---
 hieraserver/rest/rest.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hieraserver/rest/rest.go b/hieraserver/rest/rest.go
index da49da3..d58405f 100644
--- a/hieraserver/rest/rest.go
+++ b/hieraserver/rest/rest.go
@@ -133,7 +133,8 @@ func CreateRouter(ctx api.Session) http.Handler {
 		}
 		opts.Merge = params.Get(`merge`)
 		opts.Type = params.Get(`type`)
-		opts.Variables = append(opts.Variables, params[`var`]...)
+		// The capacity is limited so that requests never write to the slice that they share
+		opts.Variables = append(opts.Variables[:len(opts.Variables):len(opts.Variables)], params[`var`]...)
 		opts.RenderAs = `json`
 		out := bytes.Buffer{}
 		if hiera.LookupAndRender(ctx, &opts, []string{key}, &out) {
-- 
2.43.0


From 6529d46415d6eb002d4dc42d9bfb37b4d7d172a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:14 +0000
Subject: [PATCH 13/23] fix: data of a provider is not taken for the lookup
 options of the key, nor does it replace them

---
 provider/environment.go    | 7 ++++++-
 provider/muxlookupkey.go   | 8 +++++++-
 provider/scopelookupkey.go | 7 ++++++-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/provider/environment.go b/provider/environment.go
index 7f02a3a..664fe97 100644
--- a/provider/environment.go
+++ b/provider/environment.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/vf"
+	"github.com/lyraproj/hiera/api"
 	"github.com/lyraproj/hierasdk/hiera"
 )
 
@@ -13,7 +14,11 @@ import (
 // "env" in which case all current environment variables will be returned as an OrderedMap, or
 // prefixed with "env::" in which case the rest of the key is interpreted as the environment variable
 // to look for.
-func Environment(_ hiera.ProviderContext, key string) dgo.Value {
+func Environment(pc hiera.ProviderContext, key string) dgo.Value {
+	if sc, ok := pc.(api.ServerContext); ok && sc.Invocation().LookupOptionsMode() {
+		// The variables of the environment are data, and not the lookup options of the key
+		return nil
+	}
 	if key == `env` {
 		env := os.Environ()
 		em := vf.MapWithCapacity(len(env))
diff --git a/provider/muxlookupkey.go b/provider/muxlookupkey.go
index 61bf7c3..fdea1e1 100644
--- a/provider/muxlookupkey.go
+++ b/provider/muxlookupkey.go
@@ -38,7 +38,13 @@ func MuxLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 		}
 		return nil
 	}
-	luOpts, _ := merge.GetStrategy(`deep`, nil).MergeLookup(spv, luSc.Invocation(), luFunc).(dgo.Map)
+	luOpts, _ := merge.GetStrategy(`deep`, nil).MergeLookup(spv, luSc.Invocation(), func(pv interface{}) dgo.Value {
+		// A function that has no lookup options may respond with its data. Only a hash can be lookup options.
+		if lo, ok := luFunc(pv).(dgo.Map); ok {
+			return lo
+		}
+		return nil
+	}).(dgo.Map)
 
 	sc = sc.ForData()
 	args.Set(0, sc)
diff --git a/provider/scopelookupkey.go b/provider/scopelookupkey.go
index f910525..45fbf5c 100644
--- a/provider/scopelookupkey.go
+++ b/provider/scopelookupkey.go
@@ -12,5 +12,10 @@ func ScopeLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 	if !ok {
 		return nil
 	}
-	return sc.Invocation().Scope().Get(key)
+	ic := sc.Invocation()
+	if ic.LookupOptionsMode() && key != `lookup_options` {
+		// The variables of the scope are data, and not the lookup options of the key
+		return nil
+	}
+	return ic.Scope().Get(key)
 }
-- 
2.43.0


From 01504e581a1a8e9d36fa966a220cec51c5e0483a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:21 +0000
Subject: [PATCH 14/23] fix: a plugin with a malformed functions map is
 reported as such and not left registered once it is killed

---
 session/pluginloader.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index 72b724e..24986cb 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -185,13 +185,14 @@ func (r *pluginRegistry) startPlugin(opts dgo.Map, path string) dgo.Value {
 	p.wGroup.Add(1)
 	go ignoreOut(cmdOut, &p.wGroup)
 
+	p.initialize(meta)
+	fm := p.functionMap()
 	if r.plugins == nil {
 		r.plugins = make(map[string]*plugin)
 	}
-	p.initialize(meta)
 	r.plugins[path] = p
 
-	return p.functionMap()
+	return fm
 }
 
 func initCmd(opts dgo.Map, path string) *exec.Cmd {
@@ -265,7 +266,10 @@ type luDispatch func(string) dgo.Function
 func (p *plugin) functionMap() dgo.Value {
 	m := vf.MutableMap()
 	for k, v := range p.functions {
-		names := v.([]interface{})
+		names, ok := v.([]interface{})
+		if !ok {
+			panic(fmt.Errorf(`plugin %s did not provide a valid functions map`, p.path))
+		}
 		var df luDispatch
 		switch k {
 		case `data_dig`:
@@ -276,7 +280,10 @@ func (p *plugin) functionMap() dgo.Value {
 			df = p.lookupKeyDispatch
 		}
 		for _, x := range names {
-			n := x.(string)
+			n, ok := x.(string)
+			if !ok {
+				panic(fmt.Errorf(`plugin %s did not provide a valid functions map`, p.path))
+			}
 			m.Put(n, df(n))
 		}
 	}
-- 
2.43.0


From 687c32914d5e77cc9460eb39427029f966cc25bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:23 +0000
Subject: [PATCH 15/23] fix: data_dig functions are called with the provider
 context of their level

---
 internal/datadigprovider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/datadigprovider.go b/internal/datadigprovider.go
index 9f621d3..3afce37 100644
--- a/internal/datadigprovider.go
+++ b/internal/datadigprovider.go
@@ -44,7 +44,7 @@ func (dh *dataDigProvider) loadFunction(ic api.Invocation) (pf hiera.DataDig) {
 	he := dh.hierarchyEntry
 	if f, ok := ic.LoadFunction(he); ok {
 		return func(pc hiera.ProviderContext, key dgo.Array) dgo.Value {
-			return f.(dgo.Function).Call(vf.Values(ic, key))[0]
+			return f.Call(vf.MutableValues(pc, key))[0]
 		}
 	}
 	ic.ReportText(func() string { return fmt.Sprintf(`unresolved function '%s'`, he.Function().Name()) })
-- 
2.43.0


From 26738881acb95dcd2bab52ea4d05e4a8b33ad51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:21 +0000
Subject: [PATCH 16/23] fix: concurrent first lookups through plugins no longer
 get in each other's way in the loader

---
 session/session.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/session/session.go b/session/session.go
index 2ee9d34..aa83b64 100644
--- a/session/session.go
+++ b/session/session.go
@@ -32,6 +32,9 @@ type session struct {
 	vars     map[string]interface{}
 	scope    dgo.Keyed
 	loader   dgo.Loader
+
+	// pluginLock ensures that the loaders of plugins are used by one lookup at a time
+	pluginLock sync.Mutex
 }
 
 const hieraCacheKey = `Hiera::Cache`
@@ -181,6 +184,10 @@ func (s *session) LoadFunction(he api.Entry) (fn dgo.Function, ok bool) {
 		path = abs
 	}
 
+	// A loader cannot cope with namespaces and functions that are created by several lookups at the same time
+	s.pluginLock.Lock()
+	defer s.pluginLock.Unlock()
+
 	l = l.Namespace(`plugin`)
 	for _, pn := range strings.Split(path, string(os.PathSeparator)) {
 		l = l.Namespace(pn)
-- 
2.43.0


From 1b35a1d25a05975af5a1c4d1f903d7799ab0e779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:08 +0000
Subject: [PATCH 17/23] fix: an empty document of YAML is reported like other
 data that is not a hash, instead of as an internal error of the parser

---
 api/yaml.go          | 21 +++++++++++++++++++++
 config/config.go     |  3 +--
 hiera/hiera.go       |  3 +--
 provider/yamldata.go |  3 +--
 4 files changed, 24 insertions(+), 6 deletions(-)
 create mode 100644 api/yaml.go

diff --git a/api/yaml.go b/api/yaml.go
new file mode 100644
index 0000000..30df7a8
--- /dev/null
+++ b/api/yaml.go
@@ -0,0 +1,21 @@
+package api
+
+import (
+	"github.com/lyraproj/dgo/dgo"
+	"github.com/lyraproj/dgo/vf"
+	"github.com/lyraproj/dgoyaml/yaml"
+)
+
+// UnmarshalYAML returns the value of the given YAML text. The value is Nil when the text has no document, i.e. when
+// it is empty or just has comments, something that yaml.Unmarshal reports by raising a panic with a text.
+func UnmarshalYAML(bs []byte) (v dgo.Value, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			if _, ok := r.(string); !ok {
+				panic(r)
+			}
+			v, err = vf.Nil, nil
+		}
+	}()
+	return yaml.Unmarshal(bs)
+}
diff --git a/config/config.go b/config/config.go
index 95eef9d..8c25982 100644
--- a/config/config.go
+++ b/config/config.go
@@ -11,7 +11,6 @@ import (
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/tf"
 	"github.com/lyraproj/dgo/util"
-	"github.com/lyraproj/dgoyaml/yaml"
 	"github.com/lyraproj/hiera/api"
 )
 
@@ -90,7 +89,7 @@ func New(configPath string) api.Config {
 		return dc
 	}
 
-	yv, err := yaml.Unmarshal(content)
+	yv, err := api.UnmarshalYAML(content)
 	if err != nil {
 		panic(err)
 	}
diff --git a/hiera/hiera.go b/hiera/hiera.go
index 1f03247..21655d9 100644
--- a/hiera/hiera.go
+++ b/hiera/hiera.go
@@ -15,7 +15,6 @@ import (
 	"github.com/lyraproj/dgo/typ"
 	"github.com/lyraproj/dgo/util"
 	"github.com/lyraproj/dgo/vf"
-	"github.com/lyraproj/dgoyaml/yaml"
 	"github.com/lyraproj/hiera/api"
 	"github.com/lyraproj/hiera/explain"
 	"github.com/lyraproj/hiera/session"
@@ -323,7 +322,7 @@ func addVarPaths(varPaths []string, m dgo.Map) {
 		}
 		if err == nil && len(bs) > 0 {
 			var yv dgo.Value
-			if yv, err = yaml.Unmarshal(bs); err == nil {
+			if yv, err = api.UnmarshalYAML(bs); err == nil {
 				if data, ok := yv.(dgo.Map); ok {
 					m.PutAll(data)
 				} else {
diff --git a/provider/yamldata.go b/provider/yamldata.go
index e73bc47..b2052c5 100644
--- a/provider/yamldata.go
+++ b/provider/yamldata.go
@@ -7,7 +7,6 @@ import (
 
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/vf"
-	"github.com/lyraproj/dgoyaml/yaml"
 	"github.com/lyraproj/hiera/api"
 	"github.com/lyraproj/hierasdk/hiera"
 )
@@ -26,7 +25,7 @@ func YamlData(ctx hiera.ProviderContext) dgo.Map {
 		}
 		panic(fmt.Errorf("could not read %s: %s", path, err.Error()))
 	}
-	v, err := yaml.Unmarshal(bs)
+	v, err := api.UnmarshalYAML(bs)
 	if err != nil {
 		panic(fmt.Errorf("could not unmarshal %s: %s", path, err.Error()))
 	}
-- 
2.43.0


From 701b7dfc745fc74d429629c473a15aeb54075a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:11 +0000
Subject: [PATCH 18/23] fix: the error for a malformed JSON data file names the
 file

---
 provider/jsondata.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/provider/jsondata.go b/provider/jsondata.go
index 74e1cee..0ac5318 100644
--- a/provider/jsondata.go
+++ b/provider/jsondata.go
@@ -1,8 +1,10 @@
 package provider
 
 import (
+	"fmt"
 	"io/ioutil"
 	"os"
+	"runtime"
 
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/streamer"
@@ -25,9 +27,27 @@ func JSONData(ctx hiera.ProviderContext) dgo.Map {
 		}
 		panic(err)
 	}
-	v := streamer.UnmarshalJSON(bs, nil)
+	v, err := unmarshalJSON(bs)
+	if err != nil {
+		panic(fmt.Errorf("could not unmarshal %s: %s", path, err.Error()))
+	}
 	if data, ok := v.(dgo.Map); ok {
 		return data
 	}
 	panic(api.JSONNOtHash(path))
 }
+
+func unmarshalJSON(bs []byte) (v dgo.Value, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			var ok bool
+			if err, ok = r.(error); !ok {
+				panic(r)
+			}
+			if _, ok = r.(runtime.Error); ok {
+				panic(r)
+			}
+		}
+	}()
+	return streamer.UnmarshalJSON(bs, nil), nil
+}
-- 
2.43.0


From 0a1bd1200f57fa702e5947b3b26852cc50165e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:33 +0000
Subject: [PATCH 19/23] fix: an explanation with a node that has no content can
 be read back from data

---
 explain/explainer.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/explain/explainer.go b/explain/explainer.go
index e1e8603..6d2f1dd 100644
--- a/explain/explainer.go
+++ b/explain/explainer.go
@@ -69,7 +69,14 @@ type explainTreeNode struct {
 
 var explainNodeRType = reflect.TypeOf((*explainNode)(nil)).Elem()
 
-var extractFunc = func(v dgo.Value) dgo.Value { return v.(explainNode).initMap() }
+var extractFunc = func(v dgo.Value) dgo.Value {
+	m := v.(explainNode).initMap()
+	if m.Len() == 0 {
+		// A node without content would be read back as the type of the node
+		m.Put(`branches`, vf.Values())
+	}
+	return m
+}
 var createFunc = func(value dgo.Value, en explainNode) dgo.Value {
 	en.initialize(value.(dgo.Map))
 	return en
-- 
2.43.0


From 00dcaf06ba92a9c0e43a73ac0ab3ddc0360ea899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:18 +0000
Subject: [PATCH 20/23] fix: yaml2json converts mappings at every depth and
 keys that are not text

---
 yaml2json/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/yaml2json/main.go b/yaml2json/main.go
index a8c625e..3a10c9f 100644
--- a/yaml2json/main.go
+++ b/yaml2json/main.go
@@ -3,6 +3,7 @@ package main
 
 import (
 	"encoding/json"
+	"fmt"
 	"io/ioutil"
 	"log"
 	"os"
@@ -12,10 +13,14 @@ import (
 
 func stringKeys(x interface{}) interface{} {
 	switch x := x.(type) {
+	case map[string]interface{}:
+		for k, v := range x {
+			x[k] = stringKeys(v)
+		}
 	case map[interface{}]interface{}:
 		m := map[string]interface{}{}
 		for k, v := range x {
-			m[k.(string)] = stringKeys(v)
+			m[fmt.Sprint(k)] = stringKeys(v)
 		}
 		return m
 	case []interface{}:
-- 
2.43.0


From 379ab68e354860066e37e813b7acdd7b0fdded68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:13 +0000
Subject: [PATCH 21/23] fix: an absolute path in HIERA_CONFIGFILE is used as it
 is

---
 session/session.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/session/session.go b/session/session.go
index aa83b64..9a0e72d 100644
--- a/session/session.go
+++ b/session/session.go
@@ -119,6 +119,10 @@ func addHieraConfig(options dgo.Map) {
 	if r := options.Get(api.HieraConfigFileName); r != nil {
 		fileName = r.String()
 	} else if configFile, ok := os.LookupEnv("HIERA_CONFIGFILE"); ok {
+		if filepath.IsAbs(configFile) {
+			options.Put(api.HieraConfig, configFile)
+			return
+		}
 		fileName = configFile
 	} else {
 		fileName = config.FileName
-- 
2.43.0


From 38250c9cf0200751f5cfd18f8ffc98c096dd6bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:13 +0000
Subject: [PATCH 22/23] fix: the options of a session are frozen in a copy, so
 that the maps of the caller stay as they are

---
 session/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session/session.go b/session/session.go
index 9a0e72d..45fddaa 100644
--- a/session/session.go
+++ b/session/session.go
@@ -90,7 +90,7 @@ func New(parent context.Context, topProvider hiera.LookupKey, oif interface{}, l
 	} else {
 		scope = vf.Map()
 	}
-	options.Freeze()
+	options = options.FrozenCopy().(dgo.Map) // must not freeze what the caller handed in
 
 	vars := map[string]interface{}{
 		hieraCacheKey:            &sync.Map{},
-- 
2.43.0


From c5772fcb0bca947dac09cd001d665c19f48a9799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:19 +0000
Subject: [PATCH 23/23] fix: a variable argument whose value has several lines
 was rejected

---
 hiera/hiera.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiera/hiera.go b/hiera/hiera.go
index 21655d9..1cb4ac6 100644
--- a/hiera/hiera.go
+++ b/hiera/hiera.go
@@ -206,7 +206,7 @@ func DoWithParent(parent context.Context, tp hiera.LookupKey, options interface{
 }
 
 // varSplit splits on either ':' or '=' but not on '::', ':=', '=:' or '=='
-var varSplit = regexp.MustCompile(`\A(.*?[^:=])[:=]([^:=].*)\z`)
+var varSplit = regexp.MustCompile(`(?s)\A(.*?[^:=])[:=]([^:=].*)\z`)
 var needParsePrefix = []string{`{`, `[`, `"`, `'`}
 
 // LookupAndRender performs a lookup using the given command options and arguments and renders the result on the given
-- 
2.43.0

