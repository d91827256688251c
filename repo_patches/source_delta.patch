From 057065c3bc8ea3fc813d3a3fb98b1af2110c1fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:46 +0000
Subject: [PATCH 01/63] fix: keep the exact text of values that only look like
 numbers

A value was stored as a number whenever it parsed as one, so that 007, 1.0, 1e5,
+5 or inf read back as something else. Store it as a number only if formatting the
number gives the text back; IncrByFloat still accepts the other number texts.
---
 cache/cachestring.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index ce49c68..94cc39f 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -14,10 +14,10 @@ func (c *Cache) Set(key, value string) (string, error) {
 }
 
 func tryInt64(value string) interface{} {
-	if n, err := strconv.Atoi(value); err == nil {
+	if n, err := strconv.Atoi(value); err == nil && strconv.Itoa(n) == value {
 		// try convert string value to int
 		return n
-	} else if f, err := strconv.ParseFloat(value, 64); err == nil {
+	} else if f, err := strconv.ParseFloat(value, 64); err == nil && fmtFloat(f) == value {
 		// try float
 		return f
 	}
@@ -58,6 +58,10 @@ func (c *Cache) PSetEX(key, value string, expiresMs int64) (string, error) {
 	return OK, nil
 }
 
+func fmtFloat(f float64) string {
+	return strconv.FormatFloat(f, 'f', -1, 64)
+}
+
 func fmtString(v interface{}) (str string, err error) {
 	switch value := v.(type) {
 	case string:
@@ -289,6 +293,14 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 		f := float64(val) + increment
 		c.dataDict.Store(key, f)
 		return f, nil
+	case string:
+		f, err := strconv.ParseFloat(val, 64)
+		if err != nil {
+			return 0, ErrWrongType
+		}
+		f += increment
+		c.dataDict.Store(key, f)
+		return f, nil
 	default:
 		return 0, ErrWrongType
 	}
-- 
2.43.0


From c1ae2cd7dae841628d0a8359e55a74a16fdadf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:28 +0000
Subject: [PATCH 02/63] fix: integer and float increments accept what the other
 one stored

IncrByFloat refused a counter created by IncrBy (int64), and IncrBy refused a
whole number stored by IncrByFloat (float64).
---
 cache/cachestring.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 94cc39f..68e003c 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -279,7 +279,7 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
-	actual, ok := c.dataDict.LoadOrStore(key, increment)
+	actual, ok := c.dataDict.LoadOrStore(key, tryInt64(fmtFloat(increment)))
 	if !ok {
 		return increment, nil
 	}
@@ -287,11 +287,15 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 	switch val := actual.(type) {
 	case float64:
 		val += increment
-		c.dataDict.Store(key, val)
+		c.dataDict.Store(key, tryInt64(fmtFloat(val)))
 		return val, nil
 	case int:
 		f := float64(val) + increment
-		c.dataDict.Store(key, f)
+		c.dataDict.Store(key, tryInt64(fmtFloat(f)))
+		return f, nil
+	case int64:
+		f := float64(val) + increment
+		c.dataDict.Store(key, tryInt64(fmtFloat(f)))
 		return f, nil
 	case string:
 		f, err := strconv.ParseFloat(val, 64)
@@ -299,7 +303,7 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 			return 0, ErrWrongType
 		}
 		f += increment
-		c.dataDict.Store(key, f)
+		c.dataDict.Store(key, tryInt64(fmtFloat(f)))
 		return f, nil
 	default:
 		return 0, ErrWrongType
-- 
2.43.0


From a3653176a2c1e8e2ab33a904f3913dc54b933936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:30 +0000
Subject: [PATCH 03/63] fix: refuse an increment that does not fit in 64 bits

IncrBy and DecrBy wrapped around instead of returning an error.
---
 cache/cache.go       |  2 ++
 cache/cachestring.go | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/cache/cache.go b/cache/cache.go
index cf717fb..22dc38e 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -31,4 +31,6 @@ var ErrKeyNil = errors.New("redis nil")
 var ErrWrongType = errors.New("wrong type,operation against a key holding the wrong kind of value")
 var ErrOffsetOutOfRange = errors.New("offset is out of range")
 
+var ErrIncrOverflow = errors.New("increment or decrement would overflow")
+
 var OK = "OK"
diff --git a/cache/cachestring.go b/cache/cachestring.go
index 68e003c..b8fda7b 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -1,6 +1,7 @@
 package cache
 
 import (
+	"math"
 	"strconv"
 	"time"
 )
@@ -270,6 +271,11 @@ func (c *Cache) incrBy(key string, increment int64) (int, error) {
 		return 0, ErrWrongType
 	}
 
+	// the sum wrapped around
+	if old := n - int(increment); (increment > 0 && n < old) || (increment < 0 && n > old) {
+		return 0, ErrIncrOverflow
+	}
+
 	c.dataDict.Store(key, val)
 
 	return n,nil
@@ -321,6 +327,10 @@ func (c *Cache) DecrBy(key string, decrement int64) (int, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
+	if decrement == math.MinInt64 {
+		return 0, ErrIncrOverflow
+	}
+
 	return c.incrBy(key, -decrement)
 
 }
-- 
2.43.0


From 7df181c62461e795d8296aee2ae0ccbaa42e4038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:32 +0000
Subject: [PATCH 04/63] fix: IncrByFloat refuses a result that is not finite

Infinity or NaN was stored and the counter could never be used again.
---
 cache/cache.go       |  2 ++
 cache/cachestring.go | 14 ++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/cache/cache.go b/cache/cache.go
index 22dc38e..43dee4b 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -33,4 +33,6 @@ var ErrOffsetOutOfRange = errors.New("offset is out of range")
 
 var ErrIncrOverflow = errors.New("increment or decrement would overflow")
 
+var ErrNotFinite = errors.New("increment would produce NaN or Infinity")
+
 var OK = "OK"
diff --git a/cache/cachestring.go b/cache/cachestring.go
index b8fda7b..e1d72c1 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -59,6 +59,10 @@ func (c *Cache) PSetEX(key, value string, expiresMs int64) (string, error) {
 	return OK, nil
 }
 
+func finite(f float64) bool {
+	return !math.IsNaN(f) && !math.IsInf(f, 0)
+}
+
 func fmtFloat(f float64) string {
 	return strconv.FormatFloat(f, 'f', -1, 64)
 }
@@ -285,6 +289,10 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
+	if !finite(increment) {
+		return 0, ErrNotFinite
+	}
+
 	actual, ok := c.dataDict.LoadOrStore(key, tryInt64(fmtFloat(increment)))
 	if !ok {
 		return increment, nil
@@ -293,6 +301,9 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 	switch val := actual.(type) {
 	case float64:
 		val += increment
+		if !finite(val) {
+			return 0, ErrNotFinite
+		}
 		c.dataDict.Store(key, tryInt64(fmtFloat(val)))
 		return val, nil
 	case int:
@@ -309,6 +320,9 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 			return 0, ErrWrongType
 		}
 		f += increment
+		if !finite(f) {
+			return 0, ErrNotFinite
+		}
 		c.dataDict.Store(key, tryInt64(fmtFloat(f)))
 		return f, nil
 	default:
-- 
2.43.0


From a21f614b387560140058473d9e0383ca7f6467cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:35 +0000
Subject: [PATCH 05/63] fix: SetNX, MSetNX, counters and Exists treat an
 expired key as missing

They looked at the value without looking at the deadline.
---
 cache/cachedb.go     | 2 +-
 cache/cachestring.go | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/cache/cachedb.go b/cache/cachedb.go
index b675204..fbacfaa 100644
--- a/cache/cachedb.go
+++ b/cache/cachedb.go
@@ -23,7 +23,7 @@ func (c *Cache) Flush() {
 
 func (c *Cache) Exists(keys ...string) (n int){
 	for _, key := range keys{
-		if _, ok := c.dataDict.Load(key); ok{
+		if _, ok := c.get(key); ok{
 			n++
 		}
 	}
diff --git a/cache/cachestring.go b/cache/cachestring.go
index e1d72c1..4868732 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -31,6 +31,8 @@ func (c *Cache) SetNX(key, value string) (int, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
+	// purge an expired value
+	c.expired(key)
 	if _, loaded := c.dataDict.LoadOrStore(key, tryInt64(value)); loaded {
 		return 0, nil
 	} else {
@@ -248,6 +250,8 @@ func (c *Cache) IncrBy(key string, increment int64) (int, error) {
 }
 
 func (c *Cache) incrBy(key string, increment int64) (int, error) {
+	// purge an expired value
+	c.expired(key)
 	actual, ok := c.dataDict.LoadOrStore(key, increment)
 	if !ok {
 		return int(increment), nil
@@ -293,6 +297,8 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 		return 0, ErrNotFinite
 	}
 
+	// purge an expired value
+	c.expired(key)
 	actual, ok := c.dataDict.LoadOrStore(key, tryInt64(fmtFloat(increment)))
 	if !ok {
 		return increment, nil
@@ -367,6 +373,8 @@ func (c *Cache) MSetNX(kv map[string]string) int {
 	n := 0
 
 	for k, v := range kv {
+		// purge an expired value
+		c.expired(k)
 		if _, loaded := c.dataDict.LoadOrStore(k, tryInt64(v)); !loaded {
 			n++
 		}
-- 
2.43.0


From f1964c149b5d4f1e722dcaaf1c945447628d849c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:37 +0000
Subject: [PATCH 06/63] fix: a newly written value does not inherit the
 deadline of the old one

Set, GetSet and MSet left the old deadline, so that the new value disappeared.
---
 cache/cachestring.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 4868732..2383cfa 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -11,6 +11,7 @@ func (c *Cache) Set(key, value string) (string, error) {
 	defer c.lock.Unlock()
 
 	c.dataDict.Store(key, tryInt64(value))
+	c.expires(key, 0)
 	return OK, nil
 }
 
@@ -115,6 +116,7 @@ func (c *Cache) GetSet(key, value string) (string, error) {
 	old, ok := c.get(key)
 
 	c.dataDict.Store(key, tryInt64(value))
+	c.expires(key, 0)
 
 	if !ok{
 		return "", ErrKeyNil
@@ -361,6 +363,7 @@ func (c *Cache) MSet(kv map[string]string) (ok string) {
 
 	for k, v := range kv {
 		c.dataDict.Store(k, tryInt64(v))
+		c.expires(k, 0)
 	}
 
 	return OK
-- 
2.43.0


From 8b334f47602d728ab69fbbfe1906ab0480a4915b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:39 +0000
Subject: [PATCH 07/63] fix: very long lifetimes do not wrap around

SetEX and PSetEX multiplied without regard to overflow, so that a long lifetime
became a short one or none.
---
 cache/cachestring.go |  4 ++--
 cache/cacheutil.go   | 18 +++++++++++++++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 2383cfa..7e6c177 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -47,7 +47,7 @@ func (c *Cache) SetEX(key, value string, expires int64) (string, error) {
 	defer c.lock.Unlock()
 
 	c.dataDict.Store(key, tryInt64(value))
-	c.expires(key, time.Second*time.Duration(expires))
+	c.expires(key, lifetime(expires, time.Second))
 
 	return OK, nil
 }
@@ -57,7 +57,7 @@ func (c *Cache) PSetEX(key, value string, expiresMs int64) (string, error) {
 	defer c.lock.Unlock()
 
 	c.dataDict.Store(key, tryInt64(value))
-	c.expires(key, time.Millisecond*time.Duration(expiresMs))
+	c.expires(key, lifetime(expiresMs, time.Millisecond))
 
 	return OK, nil
 }
diff --git a/cache/cacheutil.go b/cache/cacheutil.go
index 78285c0..72f3e63 100644
--- a/cache/cacheutil.go
+++ b/cache/cacheutil.go
@@ -1,6 +1,9 @@
 package cache
 
-import "time"
+import (
+	"math"
+	"time"
+)
 
 // if key is expired
 func (c *Cache) expired(key string) bool {
@@ -23,6 +26,19 @@ func (c *Cache) expired(key string) bool {
 	return expired
 }
 
+// lifetime of n units, the longest possible one when it does not fit
+func lifetime(n int64, unit time.Duration) time.Duration {
+	if n > math.MaxInt64/int64(unit) {
+		return math.MaxInt64
+	}
+
+	if n <= 0 {
+		return 0
+	}
+
+	return unit * time.Duration(n)
+}
+
 // set expire time after duration from now
 // if duration < 0, remove expire time
 func (c *Cache) expires(key string, duration time.Duration) {
-- 
2.43.0


From 308bce208d2e60e112fffc478ad24422a9780118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:41 +0000
Subject: [PATCH 08/63] fix: GetSet on a hash leaves the hash alone

It replaced the hash and then returned the wrong type error.
---
 cache/cachestring.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 7e6c177..a18d3d7 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -115,6 +115,15 @@ func (c *Cache) GetSet(key, value string) (string, error) {
 
 	old, ok := c.get(key)
 
+	var oldStr string
+	if ok {
+		// not string value
+		var err error
+		if oldStr, err = fmtString(old); err != nil {
+			return "", err
+		}
+	}
+
 	c.dataDict.Store(key, tryInt64(value))
 	c.expires(key, 0)
 
@@ -122,7 +131,7 @@ func (c *Cache) GetSet(key, value string) (string, error) {
 		return "", ErrKeyNil
 	}
 
-	return fmtString(old)
+	return oldStr, nil
 }
 
 func (c *Cache) StrLen(key string) (int, error) {
-- 
2.43.0


From 0757980b904ab0c22d7969da0d4f9000a5e62203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:43 +0000
Subject: [PATCH 09/63] fix: GetRange with a far negative start answers
 promptly

It counted up to the first byte one index at a time.
---
 cache/cachestring.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index a18d3d7..35f24d0 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -234,6 +234,10 @@ func (c *Cache) GetRange(key string, start, end int) (string, error) {
 		end = len(oldStr) + end
 	}
 
+	if start < 0 {
+		start = 0
+	}
+
 	var str []byte
 	for i := start; i <= end; i++ {
 		if i < 0 {
-- 
2.43.0


From 9bfcb0a44f9dfa4116392614ee9c6af21c2a2641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:45 +0000
Subject: [PATCH 10/63] fix: the background sweep removes expired keys only

It ranged over the values instead of the deadlines and removed everything.
---
 cache/cachecron.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cache/cachecron.go b/cache/cachecron.go
index e9aaa43..e330032 100644
--- a/cache/cachecron.go
+++ b/cache/cachecron.go
@@ -6,10 +6,11 @@ import "time"
 func (c *Cache) cronExpire(duration time.Duration) {
 	for range time.NewTicker(duration).C{
 		c.lock.Lock()
-		c.dataDict.Range(func(key interface{}, value interface{}) bool {
+		c.expiresDict.Range(func(key interface{}, value interface{}) bool {
 			expire, ok := value.(time.Time)
 			if !ok{
 				c.expiresDict.Delete(key)
+				return true
 			}
 
 			if expire.Before(time.Now()){
-- 
2.43.0


From db1c3ace97d19b611f08dd058e2fb4d4ff62ea41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:47 +0000
Subject: [PATCH 11/63] fix: Type recognises a hash

---
 cache/cachedb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache/cachedb.go b/cache/cachedb.go
index fbacfaa..79b1c8f 100644
--- a/cache/cachedb.go
+++ b/cache/cachedb.go
@@ -38,7 +38,7 @@ func (c *Cache)Type(key string) string {
 	}
 
 	switch v.(type) {
-	case hashEntry:
+	case *hashEntry:
 		return "hash"
 	default:
 		return "string"
-- 
2.43.0


From 004f05091768ee6a08105c66c182df8bcb41af4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:19 +0000
Subject: [PATCH 12/63] fix: HExists does not change the number of fields

---
 cache/cachehash.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index b79a1ea..4df25e9 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -99,8 +99,6 @@ func (c *Cache) HExists(key string, field string) (n int, err error) {
 		n = 1
 	}
 
-	he.length -= n
-
 	return n, err
 }
 
-- 
2.43.0


From 142ac0502e6414c1e457ec00db01bcfeed0604af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:21 +0000
Subject: [PATCH 13/63] fix: HSetNX stores a number like HSet does, so that it
 can be incremented

---
 cache/cachehash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index 4df25e9..3fbcd0a 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -76,7 +76,7 @@ func (c *Cache) HSetNX(key string, field string, value string) (n int, err error
 		c.dataDict.Store(key, he)
 	}
 
-	if _, ok := he.LoadOrStore(field, value); !ok {
+	if _, ok := he.LoadOrStore(field, tryInt64(value)); !ok {
 		he.length++
 		n = 1
 	}
-- 
2.43.0


From 123cd0b100518c5ed2c1db45685b6f1bcee3b13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:23 +0000
Subject: [PATCH 14/63] fix: HKeys, HVals and HGetAll list every field of a
 hash and nothing for a missing key

They crashed on a missing key, HVals left out numbers, and HGetAll either returned
nothing or crashed on a nil map.
---
 cache/cachehash.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index 3fbcd0a..fed4a83 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -296,6 +296,10 @@ func(c *Cache) HKeys(key string)(fields []string,err error){
 		return nil, err
 	}
 
+	if he == nil {
+		return nil, nil
+	}
+
 	 he.Range(func(key, value interface{}) bool {
 		if field, ok := key.(string); ok{
 			fields = append(fields, field)
@@ -313,9 +317,13 @@ func(c *Cache) HVals(key string)(values []string,err error){
 		return nil, err
 	}
 
+	if he == nil {
+		return nil, nil
+	}
+
 	he.Range(func(key, value interface{}) bool {
-		if field, ok := value.(string); ok{
-			values = append(values, field)
+		if v, err := fmtString(value); err == nil{
+			values = append(values, v)
 		}
 		return true
 	})
@@ -330,9 +338,14 @@ func(c *Cache) HGetAll(key string)(kv map[string]string,err error){
 		return nil, err
 	}
 
+	kv = make(map[string]string)
+	if he == nil {
+		return kv, nil
+	}
+
 	he.Range(func(key, value interface{}) bool {
 		if field, ok := key.(string); ok{
-			if v, err := fmtString(value); err != nil{
+			if v, err := fmtString(value); err == nil{
 				kv[field] = v
 			}
 		}
-- 
2.43.0


From 4302b75212d55b262f97c0f9125f97c28f0e9fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:25 +0000
Subject: [PATCH 15/63] fix: HIncrBy and HIncrByFloat store the sum

They stored the increment. HIncrByFloat also accepts fields that hold a float, and
results that overflow or are not finite are refused.
---
 cache/cachehash.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index fed4a83..8c4e20e 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -181,6 +181,10 @@ func (c *Cache) HIncrBy(key, field string, increment int) (n int, err error){
 		}
 	case int:
 		n = val + increment
+		// the sum wrapped around
+		if (increment > 0 && n < val) || (increment < 0 && n > val) {
+			return 0, ErrIncrOverflow
+		}
 	case int32:
 		n = int(val) + increment
 	case int64:
@@ -194,7 +198,7 @@ func (c *Cache) HIncrBy(key, field string, increment int) (n int, err error){
 	}
 
 	if err == nil{
-		he.set(field, strconv.Itoa(increment))
+		he.set(field, strconv.Itoa(n))
 	}
 
 	return n, err
@@ -203,6 +207,10 @@ func (c *Cache) HIncrBy(key, field string, increment int) (n int, err error){
 var ErrHashValueIsNotFloat = errors.New("hash value is not a float")
 //HINCRBY
 func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, err error){
+	if !finite(increment) {
+		return 0, ErrNotFinite
+	}
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return f, err
@@ -223,9 +231,13 @@ func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, e
 	case string:
 		if val == ""{
 			f = increment
-		}else{
+		}else if f, err = strconv.ParseFloat(val, 64); err != nil{
 			err = ErrHashValueIsNotFloat
+		}else{
+			f += increment
 		}
+	case float64:
+		f = val + increment
 	case int:
 		f = float64(val) + increment
 	case int32:
@@ -240,8 +252,12 @@ func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, e
 		err = ErrHashValueIsNotFloat
 	}
 
+	if err == nil && !finite(f) {
+		err = ErrNotFinite
+	}
+
 	if err == nil{
-		he.set(field, strconv.FormatFloat(increment, 'f', -1, 64))
+		he.set(field, strconv.FormatFloat(f, 'f', -1, 64))
 	}
 
 	return f, err
-- 
2.43.0


From f7be6d249bcc4e7c913a997116f0bfad9b3143da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:27 +0000
Subject: [PATCH 16/63] fix: a hash without fields does not exist

HDel of the last field and HMSet without fields left an empty hash behind.
---
 cache/cachehash.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index 8c4e20e..26c6254 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -124,6 +124,12 @@ func (c *Cache) HDel(key string, fields ...string) (n int, err error) {
 		he.length -= n
 	}
 
+	// a hash without fields does not exist
+	if he.length == 0 {
+		c.dataDict.Delete(key)
+		c.expiresDict.Delete(key)
+	}
+
 	return n, nil
 }
 
@@ -269,6 +275,11 @@ func (c *Cache) HMSet(key string, fv map[string]string) (n int, err error){
 		return n, err
 	}
 
+	// a hash without fields does not exist
+	if len(fv) == 0 {
+		return 0, nil
+	}
+
 	if he == nil{
 		he = newHash()
 		c.dataDict.Store(key, he)
-- 
2.43.0


From e15cf1e8d4418d6f85d910b56e27ab47f040652d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:29 +0000
Subject: [PATCH 17/63] fix: every command holds the cache's lock

Hash commands, MSet, MSetNX, MGet, Exists and Type did not, so that concurrent
increments were lost, a new hash could lose fields, and Flush was a data race.
---
 cache/cachedb.go     |  6 ++++++
 cache/cachehash.go   | 42 ++++++++++++++++++++++++++++++++++++++++++
 cache/cachestring.go | 12 ++++++------
 3 files changed, 54 insertions(+), 6 deletions(-)

diff --git a/cache/cachedb.go b/cache/cachedb.go
index 79b1c8f..26b8550 100644
--- a/cache/cachedb.go
+++ b/cache/cachedb.go
@@ -22,6 +22,9 @@ func (c *Cache) Flush() {
 }
 
 func (c *Cache) Exists(keys ...string) (n int){
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	for _, key := range keys{
 		if _, ok := c.get(key); ok{
 			n++
@@ -32,6 +35,9 @@ func (c *Cache) Exists(keys ...string) (n int){
 }
 
 func (c *Cache)Type(key string) string {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	v, ok := c.get(key)
 	if !ok{
 		return "none"
diff --git a/cache/cachehash.go b/cache/cachehash.go
index 26c6254..42cbe42 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -51,6 +51,9 @@ func (c *Cache) getHashEntry(key string) (*hashEntry, error) {
 }
 
 func (c *Cache) HSet(key string, field string, value string) (n int, err error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -66,6 +69,9 @@ func (c *Cache) HSet(key string, field string, value string) (n int, err error)
 
 //HGET
 func (c *Cache) HSetNX(key string, field string, value string) (n int, err error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -86,6 +92,9 @@ func (c *Cache) HSetNX(key string, field string, value string) (n int, err error
 
 //HEXISTS
 func (c *Cache) HExists(key string, field string) (n int, err error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -104,6 +113,9 @@ func (c *Cache) HExists(key string, field string) (n int, err error) {
 
 //HDEL
 func (c *Cache) HDel(key string, fields ...string) (n int, err error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -135,6 +147,9 @@ func (c *Cache) HDel(key string, fields ...string) (n int, err error) {
 
 //HLEN
 func (c *Cache) HLen(key string) (n int, err error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -149,6 +164,9 @@ func (c *Cache) HLen(key string) (n int, err error) {
 
 //HSTRLEN
 func (c *Cache) HStrLen(key, field string) (n int, err error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil || he == nil {
 		return n, err
@@ -162,6 +180,9 @@ func (c *Cache) HStrLen(key, field string) (n int, err error) {
 }
 
 func (c *Cache) HIncrBy(key, field string, increment int) (n int, err error){
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return n, err
@@ -213,6 +234,9 @@ func (c *Cache) HIncrBy(key, field string, increment int) (n int, err error){
 var ErrHashValueIsNotFloat = errors.New("hash value is not a float")
 //HINCRBY
 func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, err error){
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	if !finite(increment) {
 		return 0, ErrNotFinite
 	}
@@ -270,6 +294,9 @@ func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, e
 }
 //HMSET
 func (c *Cache) HMSet(key string, fv map[string]string) (n int, err error){
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return n, err
@@ -294,6 +321,9 @@ func (c *Cache) HMSet(key string, fv map[string]string) (n int, err error){
 
 //HMGET
 func (c *Cache)HMGet(key string, fields ...string) ([]interface{}, error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
@@ -318,6 +348,9 @@ func (c *Cache)HMGet(key string, fields ...string) ([]interface{}, error) {
 
 //HKEYS
 func(c *Cache) HKeys(key string)(fields []string,err error){
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
@@ -339,6 +372,9 @@ func(c *Cache) HKeys(key string)(fields []string,err error){
 
 //HVALS
 func(c *Cache) HVals(key string)(values []string,err error){
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
@@ -360,6 +396,9 @@ func(c *Cache) HVals(key string)(values []string,err error){
 
 //HGETALL
 func(c *Cache) HGetAll(key string)(kv map[string]string,err error){
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
@@ -384,6 +423,9 @@ func(c *Cache) HGetAll(key string)(kv map[string]string,err error){
 }
 //HSCAN
 func (c *Cache) HGet(key string, field string) (value string, err error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return value, err
diff --git a/cache/cachestring.go b/cache/cachestring.go
index 35f24d0..ca9122c 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -371,8 +371,8 @@ func (c *Cache) DecrBy(key string, decrement int64) (int, error) {
 }
 
 func (c *Cache) MSet(kv map[string]string) (ok string) {
-	//c.lock.Lock()
-	//defer c.lock.Unlock()
+	c.lock.Lock()
+	defer c.lock.Unlock()
 
 	for k, v := range kv {
 		c.dataDict.Store(k, tryInt64(v))
@@ -383,8 +383,8 @@ func (c *Cache) MSet(kv map[string]string) (ok string) {
 }
 
 func (c *Cache) MSetNX(kv map[string]string) int {
-	//c.lock.Lock()
-	//defer c.lock.Unlock()
+	c.lock.Lock()
+	defer c.lock.Unlock()
 
 	n := 0
 
@@ -400,8 +400,8 @@ func (c *Cache) MSetNX(kv map[string]string) int {
 }
 
 func (c *Cache) MGet(keys ...string) []interface{} {
-	//c.lock.RLock()
-	//defer c.lock.RUnlock()
+	c.lock.RLock()
+	defer c.lock.RUnlock()
 
 	var values = make([]interface{}, len(keys))
 	for id, k := range keys {
-- 
2.43.0


From 81a657a4039b5b51a884327f36405b2d634890e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:50 +0000
Subject: [PATCH 18/63] fix: a replicated command that cannot be applied is an
 error, not a crash

SET with missing arguments and RPUSH crashed the process.
---
 cache/cache.go     |  2 ++
 cache/cachelist.go |  2 +-
 cache/message.go   | 10 ++++++++++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 43dee4b..27d458b 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -35,4 +35,6 @@ var ErrIncrOverflow = errors.New("increment or decrement would overflow")
 
 var ErrNotFinite = errors.New("increment would produce NaN or Infinity")
 
+var ErrNotImplemented = errors.New("command is not implemented")
+
 var OK = "OK"
diff --git a/cache/cachelist.go b/cache/cachelist.go
index f1277e6..d3d6e8e 100644
--- a/cache/cachelist.go
+++ b/cache/cachelist.go
@@ -23,7 +23,7 @@ func (c *Cache) LPushX(key string, values ...string) (int, error) {
 }
 
 func (c *Cache) RPush(key string, values ...string) (int, error) {
-	panic("implement me")
+	return 0, ErrNotImplemented
 }
 
 func (c *Cache) RPushX(key string, values ...string) (int, error) {
diff --git a/cache/message.go b/cache/message.go
index d915d1f..2d8a899 100644
--- a/cache/message.go
+++ b/cache/message.go
@@ -16,8 +16,18 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 		return errors.New("empty message")
 	}
 
+	for _, m := range messages {
+		if m == nil {
+			return errors.New("error redis message, empty argument")
+		}
+	}
+
 	switch strings.ToLower(messages[0].String()) {
 	case "set":
+		if len(messages) != 3 {
+			return errors.New("set command args error")
+		}
+
 		_, err = cache.Set(messages[1].String(), messages[2].String())
 	case "rpush":
 		if len(messages) < 2 {
-- 
2.43.0


From 75461ac99658443c74d818214a4eb80aafa4162d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:52 +0000
Subject: [PATCH 19/63] fix: a replicated SET keeps its lifetime

The EX and PX options were ignored.
---
 cache/message.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/cache/message.go b/cache/message.go
index 2d8a899..b9a6257 100644
--- a/cache/message.go
+++ b/cache/message.go
@@ -3,6 +3,7 @@ package cache
 import (
 	"errors"
 	"github.com/liujiangwei/xxcache/redis"
+	"strconv"
 	"strings"
 )
 
@@ -24,6 +25,10 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 
 	switch strings.ToLower(messages[0].String()) {
 	case "set":
+		if len(messages) == 5 {
+			return setWithLifetime(cache, messages)
+		}
+
 		if len(messages) != 3 {
 			return errors.New("set command args error")
 		}
@@ -50,3 +55,22 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 
 	return err
 }
+
+// set key value EX seconds|PX milliseconds
+func setWithLifetime(cache *Cache, messages redis.ArrayMessage) (err error) {
+	expires, err := strconv.ParseInt(messages[4].String(), 10, 64)
+	if err != nil || expires <= 0 {
+		return errors.New("set command args error")
+	}
+
+	switch strings.ToLower(messages[3].String()) {
+	case "ex":
+		_, err = cache.SetEX(messages[1].String(), messages[2].String(), expires)
+	case "px":
+		_, err = cache.PSetEX(messages[1].String(), messages[2].String(), expires)
+	default:
+		err = errors.New("set command args error")
+	}
+
+	return err
+}
-- 
2.43.0


From 3f95c59811b72e4634cf552786e720b9a00576bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:55 +0000
Subject: [PATCH 20/63] fix: a replicated HMSET is applied

It was accepted without effect.
---
 cache/message.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cache/message.go b/cache/message.go
index b9a6257..32b5a02 100644
--- a/cache/message.go
+++ b/cache/message.go
@@ -45,10 +45,15 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 		}
 		_, err = cache.RPush(messages[1].String(), values...)
 	case "hmset":
-		if len(messages) < 2 {
+		if len(messages) < 4 || len(messages)%2 != 0 {
 			return errors.New("hmset command args error")
 		}
 
+		var fv = make(map[string]string)
+		for i := 2; i < len(messages); i += 2 {
+			fv[messages[i].String()] = messages[i+1].String()
+		}
+		_, err = cache.HMSet(messages[1].String(), fv)
 	default:
 		return errors.New("unknown handled command," + message.Serialize())
 	}
-- 
2.43.0


From 9c4dc3cedd70acd616bbbee57afbb1f3dbe541dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:58 +0000
Subject: [PATCH 21/63] fix: replicated DEL and PEXPIREAT are applied

The local copy kept deleted keys, and keys with a deadline in the snapshot, for ever.
---
 cache/cachedb.go | 18 ++++++++++++++++++
 cache/message.go | 18 ++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/cache/cachedb.go b/cache/cachedb.go
index 26b8550..fc491e6 100644
--- a/cache/cachedb.go
+++ b/cache/cachedb.go
@@ -1,5 +1,7 @@
 package cache
 
+import "time"
+
 func (c *Cache)Del(key string) (n int){
 	c.lock.Lock()
 	defer c.lock.Unlock()
@@ -14,6 +16,22 @@ func (c *Cache)Del(key string) (n int){
 	return n
 }
 
+// PExpireAt sets the deadline of a key, in milliseconds since 1970
+func (c *Cache) PExpireAt(key string, ms int64) (n int) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
+	if _, ok := c.get(key); !ok {
+		return 0
+	}
+
+	c.expiresDict.Store(key, time.Unix(ms/1000, ms%1000*int64(time.Millisecond)))
+	// it may be over already
+	c.expired(key)
+
+	return 1
+}
+
 func (c *Cache) Flush() {
 	c.lock.Lock()
 	defer c.lock.Unlock()
diff --git a/cache/message.go b/cache/message.go
index 32b5a02..72f3f49 100644
--- a/cache/message.go
+++ b/cache/message.go
@@ -54,6 +54,24 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 			fv[messages[i].String()] = messages[i+1].String()
 		}
 		_, err = cache.HMSet(messages[1].String(), fv)
+	case "del":
+		if len(messages) < 2 {
+			return errors.New("del command args error")
+		}
+
+		for i := 1; i < len(messages); i++ {
+			cache.Del(messages[i].String())
+		}
+	case "pexpireat":
+		if len(messages) != 3 {
+			return errors.New("pexpireat command args error")
+		}
+
+		ms, err := strconv.ParseInt(messages[2].String(), 10, 64)
+		if err != nil {
+			return errors.New("pexpireat command args error")
+		}
+		cache.PExpireAt(messages[1].String(), ms)
 	default:
 		return errors.New("unknown handled command," + message.Serialize())
 	}
-- 
2.43.0


From dc2406b67733deb6d72c117f2921ea6db7d6a65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:17 +0000
Subject: [PATCH 22/63] fix: a replicated command with nil, error or array
 arguments is rejected

---
 cache/message.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cache/message.go b/cache/message.go
index 72f3f49..51db857 100644
--- a/cache/message.go
+++ b/cache/message.go
@@ -18,8 +18,9 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 	}
 
 	for _, m := range messages {
-		if m == nil {
-			return errors.New("error redis message, empty argument")
+		switch m.(type) {
+		case nil, redis.NilMessage, redis.ErrorMessage, redis.ArrayMessage:
+			return errors.New("error redis message, need string arguments")
 		}
 	}
 
-- 
2.43.0


From 43c7b7123918fc6ded28573017ced61c2637ff08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:18 +0000
Subject: [PATCH 23/63] fix: New creates a usable local cache

The first read or replicated command crashed on the nil dictionaries.
---
 xxcache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xxcache.go b/xxcache.go
index cd29f87..0c3a0c8 100644
--- a/xxcache.go
+++ b/xxcache.go
@@ -31,7 +31,7 @@ const redisRdbFile = "temp.rdb"
 func New(option Option) (client Client, err error) {
 	client.option = option
 
-	client.cache = new(cache.Cache)
+	client.cache = cache.New()
 	prepareOption(&option)
 
 	repl := redis.Replication{
-- 
2.43.0


From a1b8ce931b09928278a38741e892da0e1c9e38a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:20 +0000
Subject: [PATCH 24/63] fix: Client.Get asks Redis when the key is not in the
 local copy

---
 command.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/command.go b/command.go
index b33bdcd..1b89283 100644
--- a/command.go
+++ b/command.go
@@ -1,6 +1,7 @@
 package xxcache
 
 import (
+	"github.com/liujiangwei/xxcache/cache"
 	"time"
 )
 
@@ -75,7 +76,13 @@ type HashCommand interface {
 }
 
 func (client Client) Get(key string) (string, error) {
-	return client.cache.Get(key)
+	value, err := client.cache.Get(key)
+	if err == cache.ErrKeyNil {
+		// not in the local copy
+		return client.redis.Get(key)
+	}
+
+	return value, err
 }
 
 func (client Client) Set(key string, value string) (string, error) {
-- 
2.43.0


From f0c21e1e517e969c1582f78692e3cc904d1321cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:22 +0000
Subject: [PATCH 25/63] fix: applying the stream survives rejected commands and
 the end of the stream

The goroutine that applies messages wrote errors to the channel that only it reads
and blocked for ever on the second one; a closed message channel was read in an
endless loop.
---
 xxcache.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xxcache.go b/xxcache.go
index 0c3a0c8..15c0c14 100644
--- a/xxcache.go
+++ b/xxcache.go
@@ -63,13 +63,19 @@ func New(option Option) (client Client, err error) {
 func (client *Client) handleReplication(repl redis.Replication) {
 	for {
 		select {
-		case message := <-repl.Messages:
+		case message, ok := <-repl.Messages:
+			if !ok {
+				// the stream has ended
+				repl.Messages = nil
+				continue
+			}
+
 			if message.Database != client.option.database {
 				continue
 			}
 
 			if err := cache.HandleMessage(client.cache, message.Message); err != nil {
-				repl.Err <- err
+				logrus.Warnln("handle message error", err)
 			}
 		case err := <-repl.Err:
 			if err != nil {
-- 
2.43.0


From e4c602be94ed5e97235525d6caff1a75cdacf749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:26 +0000
Subject: [PATCH 26/63] fix: read protocol lines of any length and only
 complete ones

Lines longer than the read buffer were cut and their rest taken for the next
message; a line cut off by the end of the stream was accepted.
---
 redis/conn.go | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index f74639b..8cf7256 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -2,6 +2,7 @@ package redis
 
 import (
 	"bufio"
+	"bytes"
 	"context"
 	"errors"
 	"fmt"
@@ -101,6 +102,20 @@ func (c Conn) discardEof() error {
 	return err
 }
 
+// readLine reads a complete line of any length
+func (c Conn) readLine() ([]byte, error) {
+	line, err := c.Reader.ReadBytes('\n')
+	if err == io.EOF && len(line) > 0 {
+		err = io.ErrUnexpectedEOF
+	}
+
+	if err != nil {
+		return nil, err
+	}
+
+	return bytes.TrimSuffix(line[:len(line)-1], []byte{'\r'}), nil
+}
+
 // save message content to io reader
 func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 	protocol, err := c.readProtocol()
@@ -116,7 +131,7 @@ func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 
 	switch protocol {
 	case ProtocolBulkString:
-		bs, _, err := c.Reader.ReadLine()
+		bs, err := c.readLine()
 		if err != nil {
 			return ProtocolBulkString, 0, err
 		}
@@ -139,7 +154,7 @@ func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 
 		return ProtocolBulkString, length, nil
 	case ProtocolSimpleString:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return ProtocolSimpleString, 0, err
 		}
@@ -147,21 +162,21 @@ func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 
 		return ProtocolSimpleString, n, err
 	case ProtocolError:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return ProtocolError, 0, err
 		}
 		n, err := buf.Write(line)
 		return ProtocolError, n, err
 	case ProtocolInt:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return ProtocolInt, 0, err
 		}
 		n, err := buf.Write(line)
 		return ProtocolInt, n, err
 	case ProtocolArray:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return ProtocolArray, 0, err
 		}
@@ -182,7 +197,7 @@ func (c Conn) readMessage() (Message, error) {
 	switch protocol {
 	case ProtocolBulkString:
 		// $1
-		bs, _, err := c.Reader.ReadLine()
+		bs, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
@@ -210,21 +225,21 @@ func (c Conn) readMessage() (Message, error) {
 
 		return msg, nil
 	case ProtocolSimpleString:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
 
 		return SimpleStringMessage(string(line)), nil
 	case ProtocolError:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
 		return ErrorMessage(string(line)), nil
 
 	case ProtocolInt:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
@@ -234,7 +249,7 @@ func (c Conn) readMessage() (Message, error) {
 			return IntMessage(number), nil
 		}
 	case ProtocolArray:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From dba25b095da0276bc8e2528e93b15fc36c59a994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:28 +0000
Subject: [PATCH 27/63] fix: read bulk strings completely

A single Read returned a prefix of the data whenever it arrived in pieces, and the
rest was lost or taken for the next message. A negative length crashed, a huge one
allocated its size before any data arrived, and a missing terminator went unnoticed.
---
 redis/conn.go | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index 8cf7256..9600c0d 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -81,25 +81,17 @@ func (c Conn) readProtocol() (Protocol, error) {
 	return Protocol(p), err
 }
 
-func (c Conn) readBulkString(length int) string {
-	if length > 0 {
-		var data = make([]byte, length)
-		_, err := c.Reader.Read(data)
-		if err != nil {
-
-		}
-		_, _, _ = c.Reader.ReadLine()
-
-		return string(data)
+func (c Conn) discardEof() error {
+	var eof = make([]byte, len(MessageEOF))
+	if _, err := io.ReadFull(c.Reader, eof); err != nil {
+		return err
 	}
 
-	return ""
-}
-
-func (c Conn) discardEof() error {
-	_, _, err := c.Reader.ReadLine()
+	if string(eof) != MessageEOF {
+		return errors.New("bulk string is not terminated")
+	}
 
-	return err
+	return nil
 }
 
 // readLine reads a complete line of any length
@@ -211,9 +203,13 @@ func (c Conn) readMessage() (Message, error) {
 			return NilMessage{}, nil
 		}
 
-		// read data
-		var data = make([]byte, length)
-		if _, err := c.Reader.Read(data); err != nil {
+		if length < 0 {
+			return nil, errors.New("invalid bulk string length " + string(bs))
+		}
+
+		// read data, growing with what arrives
+		var data bytes.Buffer
+		if _, err := io.CopyN(&data, c.Reader, int64(length)); err != nil {
 			return nil, err
 		}
 
@@ -221,7 +217,7 @@ func (c Conn) readMessage() (Message, error) {
 			return nil, err
 		}
 
-		msg := NewBulkStringMessage(string(data))
+		msg := NewBulkStringMessage(data.String())
 
 		return msg, nil
 	case ProtocolSimpleString:
-- 
2.43.0


From 8148d2a58a0076b0afcfb4123b0ad714a7f753b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:31 +0000
Subject: [PATCH 28/63] fix: a nil array is nil and a negative array length is
 an error

---
 redis/conn.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/redis/conn.go b/redis/conn.go
index 9600c0d..d9b768e 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -254,6 +254,14 @@ func (c Conn) readMessage() (Message, error) {
 			return nil, err
 		}
 
+		if number == -1 {
+			return NilMessage{}, nil
+		}
+
+		if number < 0 {
+			return nil, errors.New("invalid array length " + string(line))
+		}
+
 		var messages ArrayMessage
 		for i := 0; i < number; i++ {
 			if message, err := c.readMessage(); err != nil {
-- 
2.43.0


From ee266b1adcd653eed0d7a095a41136286ae09b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:33 +0000
Subject: [PATCH 29/63] fix: IncrByFloat returns the server's reply

The parsed number was kept only if parsing failed.
---
 redis/command.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redis/command.go b/redis/command.go
index 7346c68..33059f3 100644
--- a/redis/command.go
+++ b/redis/command.go
@@ -54,8 +54,10 @@ type FloatCommand struct {
 }
 
 func (cmd *FloatCommand) Parse(message Message) {
-	if val, err := strconv.ParseFloat(message.String(), 64); err != nil {
+	if val, err := strconv.ParseFloat(message.String(), 64); err == nil {
 		cmd.Val = val
+	} else {
+		cmd.Err = errors.New("failed to parse response")
 	}
 }
 
-- 
2.43.0


From 3ebdac8fd3e954de599e6860d6e09a7d14be1f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:36 +0000
Subject: [PATCH 30/63] fix: Set and MSet return the server's OK

---
 redis/command.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redis/command.go b/redis/command.go
index 33059f3..fd94e41 100644
--- a/redis/command.go
+++ b/redis/command.go
@@ -110,11 +110,15 @@ func (cmd *OKCommand) Parse(message Message) {
 	m, ok := message.(SimpleStringMessage)
 	if !ok {
 		cmd.Err = errors.New("failed parse redis data")
+		return
 	}
 
 	if m.String() != "OK" {
 		cmd.Err = errors.New(m.String())
+		return
 	}
+
+	cmd.Val = m.String()
 }
 
 func (cmd *OKCommand) Result() (string, error) {
-- 
2.43.0


From abb27365d1c8dd48d3e914324f23cd5b4206a331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:38 +0000
Subject: [PATCH 31/63] fix: a reply of the wrong kind is an error

It was reported as zero, nothing, or the text of some other kind of reply.
---
 redis/command.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/redis/command.go b/redis/command.go
index fd94e41..556db68 100644
--- a/redis/command.go
+++ b/redis/command.go
@@ -41,7 +41,12 @@ type StringCommand struct {
 }
 
 func (cmd *StringCommand) Parse(message Message) {
-	cmd.Val = message.String()
+	switch message.(type) {
+	case SimpleStringMessage, *bulkStringMessage:
+		cmd.Val = message.String()
+	default:
+		cmd.Err = errors.New("failed to parse response")
+	}
 }
 
 func (cmd *StringCommand) Result() (string, error) {
@@ -73,6 +78,8 @@ type IntCommand struct {
 func (i *IntCommand) Parse(message Message) {
 	if message, ok := message.(IntMessage); ok {
 		i.Val = int(message)
+	} else {
+		i.Err = errors.New("failed to parse response")
 	}
 }
 
@@ -141,5 +148,7 @@ func (i *InterfaceArrayCommand) Parse(message Message) {
 				i.Val = append(i.Val, m.String())
 			}
 		}
+	} else {
+		i.Err = errors.New("failed to parse response")
 	}
 }
-- 
2.43.0


From a47622764148bdd88081dadd31b9a38593976924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:40 +0000
Subject: [PATCH 32/63] fix: SetNX, SetEX and PSetEX send their own command and
 understand the reply

SetEX and PSetEX sent SETNX with too many arguments; SetNX expected OK instead of
an integer.
---
 redis/redis.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/redis/redis.go b/redis/redis.go
index 4d99e21..125e4b0 100644
--- a/redis/redis.go
+++ b/redis/redis.go
@@ -91,16 +91,19 @@ func (redis *Redis) Select(index int) (string, error) {
 }
 
 func (redis *Redis) SetNX(key, value string) (string, error) {
-	rc := OKCommand{
+	rc := IntCommand{
 		BaseCommand: NewBaseCommand("SetNX", key, value),
 	}
 	redis.process(&rc)
-	return rc.Result()
+	if rc.Err != nil {
+		return "", rc.Err
+	}
+	return strconv.Itoa(rc.Val), nil
 }
 
 func (redis *Redis) SetEX(key, value string, expires uint64) (string, error) {
 	rc := OKCommand{
-		BaseCommand: NewBaseCommand("SetNX", key, value, strconv.FormatUint(expires, 10)),
+		BaseCommand: NewBaseCommand("SetEX", key, strconv.FormatUint(expires, 10), value),
 	}
 	redis.process(&rc)
 	return rc.Result()
@@ -108,7 +111,7 @@ func (redis *Redis) SetEX(key, value string, expires uint64) (string, error) {
 
 func (redis *Redis) PSetEX(key, value string, expiresMs uint64) (string, error) {
 	rc := OKCommand{
-		BaseCommand: NewBaseCommand("SetNX", key, value, strconv.FormatUint(expiresMs, 10)),
+		BaseCommand: NewBaseCommand("PSetEX", key, strconv.FormatUint(expiresMs, 10), value),
 	}
 	redis.process(&rc)
 	return rc.Result()
-- 
2.43.0


From 4f5ea66e67d06e67b6c249dd2a97e184a060b420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:43 +0000
Subject: [PATCH 33/63] fix: IncrBy sends INCRBY

---
 redis/redis.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/redis.go b/redis/redis.go
index 125e4b0..021721e 100644
--- a/redis/redis.go
+++ b/redis/redis.go
@@ -178,7 +178,7 @@ func (redis *Redis) Incr(key string) (int, error) {
 
 func (redis *Redis) IncrBy(key string, increment int) (int, error) {
 	rc := IntCommand{
-		BaseCommand: NewBaseCommand("Incr", key, strconv.Itoa(increment)),
+		BaseCommand: NewBaseCommand("IncrBy", key, strconv.Itoa(increment)),
 	}
 	redis.process(&rc)
 
-- 
2.43.0


From 307b3119b75f463da96a748eeecc6d4b1fad1810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:09 +0000
Subject: [PATCH 34/63] fix: pool methods do not copy the pool

Copying it while others change it is a data race.
---
 redis/pool.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redis/pool.go b/redis/pool.go
index 13943ca..b169a62 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -59,7 +59,7 @@ func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 	}
 }
 
-func (pool Pool) create() (conn *Conn, err error) {
+func (pool *Pool) create() (conn *Conn, err error) {
 	if conn, err = Connect(pool.addr); err != nil {
 		return conn, err
 	}
@@ -73,14 +73,14 @@ func (pool Pool) create() (conn *Conn, err error) {
 	return conn, err
 }
 
-func (pool Pool) Put(conn *Conn) {
+func (pool *Pool) Put(conn *Conn) {
 	if conn != nil {
 		pool.connC <- conn
 	}
 }
 
 //Close close all conn opened in the pool
-func (pool Pool) Close() error {
+func (pool *Pool) Close() error {
 	for conn := range pool.connC {
 		for _, handler := range pool.connCloseHandler {
 			if err := handler(conn); err != nil {
-- 
2.43.0


From 361bab59675b5e0015380a9a7f65c1baa173ff6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:11 +0000
Subject: [PATCH 35/63] fix: close a connection whose handshake failed

---
 redis/pool.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/redis/pool.go b/redis/pool.go
index b169a62..11c61ab 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -61,12 +61,13 @@ func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 
 func (pool *Pool) create() (conn *Conn, err error) {
 	if conn, err = Connect(pool.addr); err != nil {
-		return conn, err
+		return nil, err
 	}
 
 	for _, handler := range pool.connOpenHandler {
 		if err := handler(conn); err != nil {
-			return conn, err
+			_ = conn.Close()
+			return nil, err
 		}
 	}
 
-- 
2.43.0


From 22b523cc3793e096958288bedf3909dd885ab926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:13 +0000
Subject: [PATCH 36/63] fix: the pool recovers from failed and broken
 connections

A failed connect kept the pool locked for ever, a slow one blocked callers whose
context had ended, broken connections were handed out again, and Close waited for
ever.
---
 redis/conn.go | 37 +++++++++++++++++++++------
 redis/pool.go | 71 +++++++++++++++++++++++++++++++++++++++++++--------
 2 files changed, 90 insertions(+), 18 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index d9b768e..98075d8 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -19,6 +19,10 @@ type Conn struct {
 	Timeout      time.Duration
 	ReadTimeout  time.Duration
 	WriteTimeout time.Duration
+	sent         int // requests
+	received     int // replies
+	sendErr      error
+	recvErr      error
 }
 
 func (c *Conn) WithTimeout(duration time.Duration) {
@@ -34,17 +38,34 @@ func (c *Conn) WithWriteTimeout(duration time.Duration) {
 }
 
 func (c *Conn) Recv() (Message, error) {
-	return c.readMessage()
+	message, err := c.readMessage()
+	if err != nil {
+		c.recvErr = err
+	} else {
+		c.received++
+	}
+
+	return message, err
+}
+
+// unusable if it failed or if its requests and replies do not match
+func (c *Conn) unusable() bool {
+	return c.sendErr != nil || c.recvErr != nil || c.sent != c.received || c.Reader.Buffered() > 0
 }
 
 func (c *Conn) Send(message Message) error {
+	c.sent++
 	_, err := c.Writer.Write([]byte(message.Serialize()))
 
+	if err == nil {
+		err = c.Writer.Flush()
+	}
+
 	if err != nil {
-		return err
+		c.sendErr = err
 	}
 
-	return c.Writer.Flush()
+	return err
 }
 
 func (c *Conn) SendAndWaitReply(message Message) (Message, error) {
@@ -75,13 +96,13 @@ func (c *Conn) Close() error {
 }
 
 // Protocol length
-func (c Conn) readProtocol() (Protocol, error) {
+func (c *Conn) readProtocol() (Protocol, error) {
 	var p byte
 	p, err := c.Reader.ReadByte()
 	return Protocol(p), err
 }
 
-func (c Conn) discardEof() error {
+func (c *Conn) discardEof() error {
 	var eof = make([]byte, len(MessageEOF))
 	if _, err := io.ReadFull(c.Reader, eof); err != nil {
 		return err
@@ -95,7 +116,7 @@ func (c Conn) discardEof() error {
 }
 
 // readLine reads a complete line of any length
-func (c Conn) readLine() ([]byte, error) {
+func (c *Conn) readLine() ([]byte, error) {
 	line, err := c.Reader.ReadBytes('\n')
 	if err == io.EOF && len(line) > 0 {
 		err = io.ErrUnexpectedEOF
@@ -109,7 +130,7 @@ func (c Conn) readLine() ([]byte, error) {
 }
 
 // save message content to io reader
-func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
+func (c *Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 	protocol, err := c.readProtocol()
 	if err != nil {
 		return protocol, 0, err
@@ -180,7 +201,7 @@ func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 	}
 }
 
-func (c Conn) readMessage() (Message, error) {
+func (c *Conn) readMessage() (Message, error) {
 	protocol, err := c.readProtocol()
 	if err != nil {
 		return nil, err
diff --git a/redis/pool.go b/redis/pool.go
index 11c61ab..2dd8d67 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -36,17 +36,13 @@ func (pool *Pool) Init(capacity int, addr string) {
 func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 	select {
 	case c := <-pool.connC:
-		return c, nil
+		return pool.open(ctx, c)
 	default:
 		// no conn available, try create new conn
 		pool.l.Lock()
 		if pool.size < pool.capacity {
-			conn, err := pool.create()
-			if err != nil {
-				return nil, err
-			}
 			pool.size++
-			pool.connC <- conn
+			pool.connC <- nil
 		}
 		pool.l.Unlock()
 	}
@@ -55,7 +51,40 @@ func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 	case <-ctx.Done():
 		return nil, errors.New("no connection available")
 	case c := <-pool.connC:
-		return c, nil
+		return pool.open(ctx, c)
+	}
+}
+
+// open connects a slot that has no connection
+func (pool *Pool) open(ctx context.Context, conn *Conn) (*Conn, error) {
+	if conn != nil {
+		return conn, nil
+	}
+
+	var connC, errC = make(chan *Conn), make(chan error, 1)
+	go func() {
+		conn, err := pool.create()
+		if err != nil {
+			// free the slot, it can be connected later
+			pool.connC <- nil
+			errC <- err
+			return
+		}
+
+		select {
+		case connC <- conn:
+		case <-ctx.Done():
+			pool.connC <- conn
+		}
+	}()
+
+	select {
+	case <-ctx.Done():
+		return nil, errors.New("no connection available")
+	case err := <-errC:
+		return nil, err
+	case conn = <-connC:
+		return conn, nil
 	}
 }
 
@@ -75,14 +104,36 @@ func (pool *Pool) create() (conn *Conn, err error) {
 }
 
 func (pool *Pool) Put(conn *Conn) {
-	if conn != nil {
-		pool.connC <- conn
+	if conn == nil {
+		return
 	}
+
+	if conn.unusable() {
+		// free the slot, it can be connected again
+		_ = conn.Close()
+		conn = nil
+	}
+
+	pool.connC <- conn
 }
 
 //Close close all conn opened in the pool
 func (pool *Pool) Close() error {
-	for conn := range pool.connC {
+	for n := len(pool.connC); n > 0; n-- {
+		var conn *Conn
+		select {
+		case conn = <-pool.connC:
+		default:
+			// the rest is in use
+			return nil
+		}
+
+		// the slot stays, without connection
+		pool.connC <- nil
+		if conn == nil {
+			continue
+		}
+
 		for _, handler := range pool.connCloseHandler {
 			if err := handler(conn); err != nil {
 				return err
-- 
2.43.0


From 2e04267faba8df183fc0f1b6069f505c0225611a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:53 +0000
Subject: [PATCH 37/63] fix: SYNC skips the keep-alive lines a master sends
 before the snapshot

---
 redis/conn.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/redis/conn.go b/redis/conn.go
index 98075d8..1bc5c79 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -136,6 +136,13 @@ func (c *Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 		return protocol, 0, err
 	}
 
+	// a master that is not ready yet keeps the connection alive with empty lines
+	for protocol == '\n' {
+		if protocol, err = c.readProtocol(); err != nil {
+			return protocol, 0, err
+		}
+	}
+
 	buf := bufio.NewWriter(writer)
 
 	defer func() {
-- 
2.43.0


From 0c5d732e8da2fc0d051b80e0ed3468d7336f666d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:55 +0000
Subject: [PATCH 38/63] fix: SYNC fails when there is no snapshot to save

An error reply was saved as the snapshot, as were a nil reply and a snapshot that
could not be written to the file.
---
 redis/conn.go        | 10 ++++++++--
 redis/replication.go |  7 +++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index 1bc5c79..4dacfd4 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -130,7 +130,7 @@ func (c *Conn) readLine() ([]byte, error) {
 }
 
 // save message content to io reader
-func (c *Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
+func (c *Conn) ReadWithWriter(writer io.Writer) (p Protocol, n int, err error) {
 	protocol, err := c.readProtocol()
 	if err != nil {
 		return protocol, 0, err
@@ -146,7 +146,9 @@ func (c *Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 	buf := bufio.NewWriter(writer)
 
 	defer func() {
-		_ = buf.Flush()
+		if flushErr := buf.Flush(); err == nil {
+			err = flushErr
+		}
 	}()
 
 	switch protocol {
@@ -162,6 +164,10 @@ func (c *Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 			return ProtocolBulkString, 0, err
 		}
 
+		if length < 0 {
+			return ProtocolBulkString, 0, errors.New("invalid bulk string length " + string(bs))
+		}
+
 		for i := 0; i < length; i++ {
 			b, err := c.Reader.ReadByte()
 			if err != nil {
diff --git a/redis/replication.go b/redis/replication.go
index 57142f0..f39a2cb 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -144,9 +144,16 @@ func (repl *Replication) sync() (err error) {
 	if fp, err = os.OpenFile(repl.RdbFile, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, os.ModePerm); err != nil {
 		return errors.New("failed to open rdb file," + err.Error())
 	}
+	defer func() {
+		if closeErr := fp.Close(); err == nil && closeErr != nil {
+			err = errors.New("failed to save rdb file," + closeErr.Error())
+		}
+	}()
 
 	if protocol, length, err := repl.conn.ReadWithWriter(fp); err != nil {
 		return errors.New("failed to save rdb file," + err.Error())
+	} else if protocol != ProtocolBulkString {
+		return errors.New("failed to sync, unexpected reply from master")
 	} else {
 		logrus.Infoln("redis rdb file", protocol, length, repl.RdbFile)
 	}
-- 
2.43.0


From c61e0586e3ca7587c8f2bc9562ffe7bc038d0afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:58 +0000
Subject: [PATCH 39/63] fix: commands of the stream carry the database they
 apply to

SELECT was ignored, so that commands for other databases changed database 0.
---
 redis/replication.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index f39a2cb..061ed99 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -74,6 +74,8 @@ func (repl *Replication) SyncWithRedis() error {
 }
 
 func (repl *Replication) WaitForMessage() {
+	// selected by the stream
+	var database int
 	for {
 		message, err := repl.conn.Recv()
 		if err != nil {
@@ -87,8 +89,15 @@ func (repl *Replication) WaitForMessage() {
 			continue
 		}
 
+		if messages, ok := message.(ArrayMessage); ok && len(messages) == 2 && strings.ToLower(messages[0].String()) == "select" {
+			if index, err := strconv.Atoi(messages[1].String()); err == nil {
+				database = index
+				continue
+			}
+		}
+
 		repl.Messages <- ReplicationMessage{
-			Database: 0,
+			Database: database,
 			Message:  message,
 			Offset:   0,
 		}
-- 
2.43.0


From d19c15741c8908006c4d58a9708cdd07f21b0c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:29 +0000
Subject: [PATCH 40/63] fix: decode 32 and 64 bit lengths of a snapshot

They were read as 0 and their errors were lost; a cut off 14 bit length crashed.
---
 redis/rdb/rdb.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index 8ef7a55..b22bb3a 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -57,8 +57,6 @@ func LoadLen(reader *bufio.Reader) (length uint64, encoded bool, err error) {
 			//l := (buf[0] & 0x3F << 8) | buf[1]
 			num := binary.BigEndian.Uint16([]byte{buf[0] & 0x3F, buf[1]})
 			length = uint64(num)
-		} else {
-			panic("failed to load BitLen14")
 		}
 	default:
 		// compare first byte
@@ -66,21 +64,15 @@ func LoadLen(reader *bufio.Reader) (length uint64, encoded bool, err error) {
 		case BitLen32:
 			logrus.Infoln("BitLen32")
 			buf = make([]byte, 4)
-			if n, err := io.ReadFull(reader, buf); err == nil && n == 4 {
-				var lengthUint32 uint32
-				err = binary.Write(bytes.NewBuffer(buf), binary.LittleEndian, lengthUint32)
-				length = uint64(lengthUint32)
-			} else if n != 4 {
-				err = errors.New("failed to read 4 byte for BitLen32")
+			if _, err = io.ReadFull(reader, buf); err == nil {
+				length = uint64(binary.BigEndian.Uint32(buf))
 			}
 		case BitLen64:
 			logrus.Infoln("BitLen64")
 
 			buf = make([]byte, 8)
-			if n, err := io.ReadFull(reader, buf); err == nil && n == 8 {
-				err = binary.Write(bytes.NewBuffer(buf), binary.LittleEndian, length)
-			} else if n != 8 {
-				err = errors.New("failed to read 8 byte for BitLen64")
+			if _, err = io.ReadFull(reader, buf); err == nil {
+				length = binary.BigEndian.Uint64(buf)
 			}
 		default:
 			err = errors.New(fmt.Sprintf("Unknown length encoding %d in rdbLoadLen(), %d, %d", buf[0], BitLen32, BitLen64))
-- 
2.43.0


From b3bbcc3cadb912f7e2e683d9f7608494c8413376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:31 +0000
Subject: [PATCH 41/63] fix: integer strings of a snapshot are signed

Negative 16 and 32 bit integers were read as positive ones; a cut off 32 bit
integer ended the process.
---
 redis/rdb/rdb.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index b22bb3a..c829374 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -9,7 +9,6 @@ import (
 	"github.com/liujiangwei/xxcache/redis/lzf"
 	"github.com/sirupsen/logrus"
 	"io"
-	"log"
 	"strconv"
 	"unsafe"
 )
@@ -111,17 +110,17 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 				return str, errors.New("failed to read 2 bytes for EncInt16")
 			}
 
-			num := binary.LittleEndian.Uint16(buf)
+			num := int16(binary.LittleEndian.Uint16(buf))
 			str = fmt.Sprintf("%d", num)
 		case EncInt32:
 			// 4 byte
 			var buf = make([]byte, 4)
 			if n, err := io.ReadFull(reader, buf); err != nil {
-				log.Fatal(err)
+				return str, err
 			} else if n != 4 {
 				return str, errors.New("failed to read 4 bytes for EncInt32")
 			}
-			num := binary.LittleEndian.Uint32(buf)
+			num := int32(binary.LittleEndian.Uint32(buf))
 			//buf[0] | (buf[1] << 8) | (buf[2] << 16 | buf[3] << 24)
 			str = fmt.Sprintf("%d", num)
 		case EncLzf:
-- 
2.43.0


From 223f1cbd2c5ac8d82f18fe30334d91c87e4889c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:33 +0000
Subject: [PATCH 42/63] fix: read the strings of a snapshot completely

A single Read returned part of a string that crossed the read buffer, lengths were
allocated before any data was read, and a string that did not decompress was
returned as it was.
---
 redis/rdb/rdb.go | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index c829374..5f2ff5f 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -9,6 +9,7 @@ import (
 	"github.com/liujiangwei/xxcache/redis/lzf"
 	"github.com/sirupsen/logrus"
 	"io"
+	"math"
 	"strconv"
 	"unsafe"
 )
@@ -81,6 +82,20 @@ func LoadLen(reader *bufio.Reader) (length uint64, encoded bool, err error) {
 	return length, encoded, err
 }
 
+// readString reads exactly length bytes, growing with what arrives
+func readString(reader io.Reader, length uint64) (string, error) {
+	if length > math.MaxInt64 {
+		return "", errors.New("invalid string length")
+	}
+
+	var buf bytes.Buffer
+	if _, err := io.CopyN(&buf, reader, int64(length)); err != nil {
+		return "", err
+	}
+
+	return buf.String(), nil
+}
+
 const EncInt8 = 0
 const EncInt16 = 1
 const EncInt32 = 2
@@ -137,14 +152,19 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 				return str, err
 			}
 
-			var c = make([]byte, n)
-			if n, err := io.ReadFull(reader, c); err != nil {
+			c, err := readString(reader, n)
+			if err != nil {
 				return str, err
-			} else if n != len(c) {
-				return str, errors.New(fmt.Sprintf("failed to read [%d] bytes for LoadString EncLzf", len(c)))
 			}
 
-			str = lzf.DeCompress(string(c), int(length))
+			// lzf does not shrink anything to less than 3 bytes for 264
+			if length > 264*n {
+				return str, errors.New("invalid length of compressed string")
+			}
+
+			if str = lzf.DeCompress(c, int(length)); len(str) != int(length) {
+				return "", errors.New("failed to decompress string")
+			}
 		default:
 			err = errors.New("failed decode string")
 		}
@@ -153,13 +173,7 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 		return str, err
 	}
 
-	buf := make([]byte, length)
-	if _, err := reader.Read(buf); err != nil {
-		return str, err
-	}
-	str = string(buf)
-
-	return str, err
+	return readString(reader, length)
 }
 
 //R_Zero = 0.0;
-- 
2.43.0


From 8b70c91ad30335c1d91c5ec0fa405ac4b992eed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:36 +0000
Subject: [PATCH 43/63] fix: decode binary scores and the infinities

Binary scores were read as 0, infinite ones as 1 and -1.
---
 redis/rdb/rdb.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index 5f2ff5f..7402488 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -180,11 +180,9 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 //R_PosInf = 1.0/R_Zero;
 //RNegInf = -1.0/R_Zero;
 //RNan = R_Zero/R_Zero;
-// todo
-const RZero = float64(1.0)
-const RPosInf = 1.0 / RZero
-const RNegInf = -1.0 / RZero
-const RNan = RZero / RZero
+var RPosInf = math.Inf(1)
+var RNegInf = math.Inf(-1)
+var RNan = math.NaN()
 
 func LoadDouble(reader *bufio.Reader) (f float64, err error) {
 	var length byte
@@ -220,8 +218,7 @@ func LoadBinaryDouble(reader *bufio.Reader) (f float64, err error) {
 		return f, errors.New(fmt.Sprintf("failed to load [%d] bytes for LoadBinaryDouble", int(length)))
 	}
 
-	err = binary.Write(bytes.NewBuffer(buf), binary.LittleEndian, f)
-	return f, err
+	return math.Float64frombits(binary.LittleEndian.Uint64(buf)), nil
 }
 
 const (
-- 
2.43.0


From bf1b22bfafc80fcb373783e8be4c2c092e05b879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:29 +0000
Subject: [PATCH 44/63] fix: LZF handles empty and incompressible strings and
 damaged data

Compress and DeCompress crashed on an empty string, an incompressible string
could not be told from a compressed one, and a stream shorter than announced was
padded with zero bytes.
---
 redis/lzf/lzf.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/redis/lzf/lzf.go b/redis/lzf/lzf.go
index 731b30d..66a97a5 100644
--- a/redis/lzf/lzf.go
+++ b/redis/lzf/lzf.go
@@ -9,9 +9,14 @@ import (
 )
 
 func Compress(str string) string {
+	// nothing can get shorter than one byte
+	if len(str) <= 1 {
+		return str
+	}
+
 	encoded := make([]byte, len(str))
 	input := []byte(str)
-	length := C.lzf_compress(unsafe.Pointer(&input[0]), C.uint(len(str)), unsafe.Pointer(&encoded[0]), C.uint(len(str)))
+	length := C.lzf_compress(unsafe.Pointer(&input[0]), C.uint(len(str)), unsafe.Pointer(&encoded[0]), C.uint(len(str)-1))
 	if length == 0 {
 		return str
 	}
@@ -20,11 +25,25 @@ func Compress(str string) string {
 }
 
 func DeCompress(str string, length int) string {
+	// not compressed
+	if len(str) == length {
+		return str
+	}
+
+	if len(str) == 0 || length <= 0 {
+		return ""
+	}
+
+	// 3 bytes never decode to more than 264
+	if length/264 > len(str) {
+		return str
+	}
+
 	input := []byte(str)
 	var decoded = make([]byte, length)
 	dl := C.lzf_decompress(unsafe.Pointer(&input[0]), C.uint(len(input)), unsafe.Pointer(&decoded[0]), C.uint(length))
 	if dl == 0 {
 		return str
 	}
-	return string(decoded)
+	return string(decoded[:dl])
 }
-- 
2.43.0


From 7c056c36282141533bb2a88fb75b85f3b78839c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:31 +0000
Subject: [PATCH 45/63] fix: members of an intset are signed

---
 redis/intset/intset.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redis/intset/intset.go b/redis/intset/intset.go
index cbcbc88..84ca7c1 100644
--- a/redis/intset/intset.go
+++ b/redis/intset/intset.go
@@ -25,7 +25,7 @@ func Load(encoded string) (set []int64) {
 			end := 8 + 2*(i+1)
 
 			num := binary.LittleEndian.Uint16([]byte(encoded[start:end]))
-			set = append(set, int64(num))
+			set = append(set, int64(int16(num)))
 		}
 	case EncInt32:
 		for i := 0; i < int(length); i++ {
@@ -33,7 +33,7 @@ func Load(encoded string) (set []int64) {
 			end := 8 + 4*(i+1)
 
 			num := binary.LittleEndian.Uint32([]byte(encoded[start:end]))
-			set = append(set, int64(num))
+			set = append(set, int64(int32(num)))
 		}
 	case EncInt64:
 		for i := 0; i < int(length); i++ {
-- 
2.43.0


From 903b6ac9855395d61f535935aad084511fff4eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:34 +0000
Subject: [PATCH 46/63] fix: decode long strings and integers of a ziplist

---
 redis/ziplist/ziplist.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/redis/ziplist/ziplist.go b/redis/ziplist/ziplist.go
index efe70e9..d35162d 100644
--- a/redis/ziplist/ziplist.go
+++ b/redis/ziplist/ziplist.go
@@ -93,11 +93,11 @@ func (iterator *Iterator) entry() (size, length uint32, str string) {
 		case ZipStr14b:
 			size = 2
 			//(len) = (((ptr)[0] & 0x3f) << 8) | (ptr)[1];
-			length = uint32((iterator.val[iterator.pos]&0x3f)<<8 | iterator.val[iterator.pos+1])
+			length = uint32(iterator.val[iterator.pos]&0x3f)<<8 | uint32(iterator.val[iterator.pos+1])
 		case ZipStr32b:
 			size = 5
 			pos := iterator.pos
-			length = uint32(iterator.val[pos+1]<<24 | iterator.val[pos+2]<<16 | iterator.val[pos+3]<<8 | iterator.val[pos+4])
+			length = binary.BigEndian.Uint32([]byte(iterator.val[pos+1 : pos+5]))
 		default:
 			panic("failed to decode zip list item")
 		}
@@ -113,7 +113,7 @@ func (iterator *Iterator) entry() (size, length uint32, str string) {
 		case ZipInt32b:
 			length = 4
 		case ZipInt64b:
-			length = 5
+			length = 8
 		default:
 			if encoding >= ZipIntImmMin && encoding <= ZipIntImmMax {
 				val := (encoding & ZipIntImmMask) - 1
@@ -125,12 +125,27 @@ func (iterator *Iterator) entry() (size, length uint32, str string) {
 	}
 
 	if length > 0 {
-		str = iterator.val[iterator.pos+1 : iterator.pos+int(length)+1]
+		start := iterator.pos + int(size)
+		str = iterator.val[start : start+int(length)]
+	}
+
+	if encoding >= ZipStrMask && length > 0 {
+		str = strconv.FormatInt(decodeInt(str), 10)
 	}
 
 	return length, size, str
 }
 
+// decodeInt decodes a signed little endian integer of any width
+func decodeInt(str string) (num int64) {
+	for i := len(str) - 1; i >= 0; i-- {
+		num = num<<8 | int64(str[i])
+	}
+
+	shift := uint(64 - 8*len(str))
+	return num << shift >> shift
+}
+
 const ZipIntImmMin = 0xf1
 const ZipIntImmMax = 0xfd
 const ZipIntImmMask = 0x0f
-- 
2.43.0


From 447a17550e7b800179c5ed402e56afe05c03b761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:36 +0000
Subject: [PATCH 47/63] fix: decode every field of a zipmap

Every second field was misread, and the free length is a single byte.
---
 redis/zipmap/zipmap.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/redis/zipmap/zipmap.go b/redis/zipmap/zipmap.go
index fcee6f9..51e21db 100644
--- a/redis/zipmap/zipmap.go
+++ b/redis/zipmap/zipmap.go
@@ -159,7 +159,7 @@ func Len(key string, value string) int {
 
 func Load(encoded string) (hash map[string]string) {
 	hash = make(map[string]string, encoded[0])
-	for i := 1; i < len(encoded)-1; i++ {
+	for i := 1; encoded[i] != End; {
 		kl := uint32(encoded[i])
 		i++
 		if kl >= BigLen {
@@ -181,10 +181,6 @@ func Load(encoded string) (hash map[string]string) {
 		// value free length
 		vfl := uint32(encoded[i])
 		i++
-		if vfl >= BigLen {
-			vfl = binary.LittleEndian.Uint32([]byte(encoded[i : i+4]))
-			i += 4
-		}
 
 		// value
 		value := encoded[i : i+int(vl)]
-- 
2.43.0


From 72b807272de528314e208deed5f8b2aee8fa78fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:38 +0000
Subject: [PATCH 48/63] fix: Load checks the header of the snapshot and starts
 at database 0

---
 redis/replication.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index 061ed99..9ebf068 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -193,12 +193,18 @@ func (repl *Replication) Load() (err error) {
 	if file, err = os.OpenFile(repl.RdbFile, os.O_RDONLY, os.ModePerm); err != nil {
 		return errors.New("failed to open rdb file," + err.Error())
 	}
+	defer file.Close()
 
 	buf := bufio.NewReader(file)
 	var version = make([]byte, 9)
-	if _, err = buf.Read(version); err != nil {
+	if _, err = io.ReadFull(buf, version); err != nil {
 		return err
 	}
+	if !strings.HasPrefix(string(version), "REDIS") {
+		return errors.New("not a rdb file")
+	}
+	// until another one is selected
+	repl.database = 0
 	// start to load rdb file
 	var opCode uint
 	var expiresTime uint64
-- 
2.43.0


From 78eff629aafe29936230380c3411e2dcb07399dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:40 +0000
Subject: [PATCH 49/63] fix: a damaged compact encoding fails Load instead of
 crashing

---
 redis/replication.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/redis/replication.go b/redis/replication.go
index 9ebf068..061e1e6 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -185,6 +185,13 @@ func (repl *Replication) SetReplicationOffset(offset int) {
 }
 
 func (repl *Replication) Load() (err error) {
+	defer func() {
+		// a damaged ziplist, intset or zipmap
+		if r := recover(); r != nil {
+			err = fmt.Errorf("failed to load rdb file,%v", r)
+		}
+	}()
+
 	if repl.RdbFile == "" {
 		return errors.New("rdb file is empty")
 	}
-- 
2.43.0


From 33fcdb4c57b31b554f6c2a22d4abfa5e60884fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:43 +0000
Subject: [PATCH 50/63] fix: an expiry of a snapshot is an absolute deadline

It was announced as a lifetime, deadlines in seconds overflowed, and an error of
the record was dropped.
---
 redis/replication.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/redis/replication.go b/redis/replication.go
index 061e1e6..41d1dde 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -215,6 +215,7 @@ func (repl *Replication) Load() (err error) {
 	// start to load rdb file
 	var opCode uint
 	var expiresTime uint64
+	var expires bool
 	for err == nil {
 		// load op code first
 		if opCode, err = rdb.LoadOpCode(buf); err != nil {
@@ -228,13 +229,15 @@ func (repl *Replication) Load() (err error) {
 			if _, err = io.ReadFull(buf, expireS); err != nil {
 				return err
 			}
-			expiresTime = uint64(binary.LittleEndian.Uint32(expireS) * 1000)
+			expiresTime = uint64(int64(int32(binary.LittleEndian.Uint32(expireS))) * 1000)
+			expires = true
 		case rdb.OpCodeExpireTimeMs:
 			var milliTime = make([]byte, 8)
 			if _, err = io.ReadFull(buf, milliTime); err != nil {
 				return err
 			}
 			expiresTime = binary.LittleEndian.Uint64(milliTime)
+			expires = true
 		case rdb.OpCodeFreq:
 			var lfu byte
 			if lfu, err = buf.ReadByte(); err != nil {
@@ -555,20 +558,24 @@ func (repl *Replication) Load() (err error) {
 				err = errors.New("TypeModule TypeModule2 unsupported now")
 			}
 
-			if expiresTime > 0 {
-				args := []string{"pExpire", key, strconv.Itoa(int(expiresTime))}
+			if err != nil {
+				return err
+			}
+
+			if expires {
+				args := []string{"pExpireAt", key, strconv.Itoa(int(expiresTime))}
 				cmd := NewBaseCommand(args...)
 				repl.Messages <- ReplicationMessage{
 					Database: repl.database,
 					Message:  cmd.Serialize(),
 					Offset:   0,
 				}
-				expiresTime = 0
+				expires = false
 			}
 		}
 	}
 
-	return nil
+	return err
 }
 
 type ReplicationMessage struct {
-- 
2.43.0


From 94e6d4493f7fd147c6b20812984f8d32e42f64ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:45 +0000
Subject: [PATCH 51/63] fix: lists of a snapshot keep their order

---
 redis/replication.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index 41d1dde..2e18b80 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -347,7 +347,7 @@ func (repl *Replication) Load() (err error) {
 				}
 
 				var value string
-				var args = []string{"lPush", key}
+				var args = []string{"rPush", key}
 				for ; length > 0; length-- {
 					if value, err = rdb.LoadString(buf); err != nil {
 						logrus.Warnln("failed to load TypeList value", err)
-- 
2.43.0


From a924e423522deda3724ea8683e0d59f196341bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:48 +0000
Subject: [PATCH 52/63] fix: a hash of a snapshot is loaded as a hash

---
 redis/replication.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index 2e18b80..a5f5c07 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -430,7 +430,7 @@ func (repl *Replication) Load() (err error) {
 					return err
 				}
 
-				var args = []string{"zAdd", key}
+				var args = []string{"hmSet", key}
 				var field, value string
 				for ; length > 0; length-- {
 					if field, err = rdb.LoadString(buf); err != nil {
-- 
2.43.0


From 5b96d8825df13823bfe62bfcbf173ebb67d4afa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:50 +0000
Subject: [PATCH 53/63] fix: zAdd takes the score before the member

---
 redis/replication.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/redis/replication.go b/redis/replication.go
index a5f5c07..8afa736 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -401,7 +401,6 @@ func (repl *Replication) Load() (err error) {
 						logrus.Warnln("failed to load TypeZSet, TypeZSet2 value", err)
 						return err
 					}
-					args = append(args, value)
 					if opCode == rdb.TypeZSet2 {
 						if score, err = rdb.LoadBinaryDouble(buf); err != nil {
 							logrus.Warnln("failed to load TypeZSet, TypeZSet2 value TypeZSet2", err)
@@ -414,7 +413,7 @@ func (repl *Replication) Load() (err error) {
 						}
 					}
 
-					args = append(args, strconv.FormatFloat(score, 'f', -1, 64))
+					args = append(args, strconv.FormatFloat(score, 'f', -1, 64), value)
 				}
 
 				cmd := NewBaseCommand(args...)
@@ -511,8 +510,11 @@ func (repl *Replication) Load() (err error) {
 				case rdb.TypeZSetZipList:
 					var args = []string{"zAdd", key}
 					list := ziplist.Load(str)
+					if len(list)%2 != 0 {
+						return errors.New("member without score")
+					}
 					for i := 0; i < len(list)/2; i++ {
-						args = append(args, list[2*i], list[2*i+1])
+						args = append(args, list[2*i+1], list[2*i])
 					}
 					cmd := NewBaseCommand(args...)
 					repl.Messages <- ReplicationMessage{
-- 
2.43.0


From 24508dc41b09d1f9eb5090d206d5fd1e4858a215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:52 +0000
Subject: [PATCH 54/63] fix: a hash field without value fails Load

---
 redis/replication.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/redis/replication.go b/redis/replication.go
index 8afa736..869ed76 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -525,6 +525,9 @@ func (repl *Replication) Load() (err error) {
 				case rdb.TypeHashZipList:
 					var args = []string{"hmSet", key}
 					list := ziplist.Load(str)
+					if len(list)%2 != 0 {
+						return errors.New("field without value")
+					}
 					args = append(args, list...)
 					cmd := NewBaseCommand(args...)
 					repl.Messages <- ReplicationMessage{
-- 
2.43.0


From c70b03e553f31f56d6463ce55626f152eba75f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:55 +0000
Subject: [PATCH 55/63] fix: object types that are not supported fail Load

An unknown type was taken for an empty value and what followed was misread; a
stream spun over its announced length first.
---
 redis/replication.go | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/redis/replication.go b/redis/replication.go
index 869ed76..3664161 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -547,20 +547,11 @@ func (repl *Replication) Load() (err error) {
 					}
 				}
 			case rdb.TypeStreamListPacks:
-				var length uint64
-				if length, _, err = rdb.LoadLen(buf); err != nil {
-					return err
-				}
-
-				for ; length > 0; length-- {
-					//if value, Err = rdb.LoadString(buf); Err != nil {
-					//	return Err
-					//}
-					//logrus.Infoln("TypeListQuickList", key, value)
-				}
 				err = errors.New("TypeStreamListPacks unsupported now")
 			case rdb.TypeModule, rdb.TypeModule2:
 				err = errors.New("TypeModule TypeModule2 unsupported now")
+			default:
+				err = fmt.Errorf("object type %d unsupported now", opCode)
 			}
 
 			if err != nil {
-- 
2.43.0


From 9f503b95e85a2d3eadde18e1f047e9bb5348a8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:57 +0000
Subject: [PATCH 56/63] fix: the empty string is a key like any other

---
 redis/replication.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/redis/replication.go b/redis/replication.go
index 3664161..335dc7c 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -319,9 +319,6 @@ func (repl *Replication) Load() (err error) {
 			if key, err = rdb.LoadString(buf); err != nil {
 				logrus.Warnln("failed to load key", err)
 				return err
-			} else if key == "" {
-				logrus.Warnln("failed to load key, key is empty", err)
-				return errors.New("empty key")
 			}
 
 			// opCode is object type
-- 
2.43.0


From 788563f9cc59a6c2956393bb4c41b9820175d6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:30 +0000
Subject: [PATCH 57/63] fix: concurrent readers never see an expired value

A reader that had loaded the value took it for live when another reader purged
the key before the deadline was checked.
---
 cache/cachestring.go |  8 ++++----
 cache/cacheutil.go   | 11 +++--------
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index ca9122c..0623e5b 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -138,8 +138,8 @@ func (c *Cache) StrLen(key string) (int, error) {
 	c.lock.RLock()
 	defer c.lock.RUnlock()
 
-	val, ok := c.dataDict.Load(key)
-	if !ok || c.expired(key) {
+	val, ok := c.get(key)
+	if !ok {
 		return 0, nil
 	}
 
@@ -218,8 +218,8 @@ func (c *Cache) GetRange(key string, start, end int) (string, error) {
 	c.lock.RLock()
 	defer c.lock.RUnlock()
 
-	old, ok := c.dataDict.Load(key)
-	if !ok || c.expired(key) {
+	old, ok := c.get(key)
+	if !ok {
 		return "", nil
 	}
 	oldStr, err := fmtString(old)
diff --git a/cache/cacheutil.go b/cache/cacheutil.go
index 72f3e63..7e68e8d 100644
--- a/cache/cacheutil.go
+++ b/cache/cacheutil.go
@@ -50,15 +50,10 @@ func (c *Cache) expires(key string, duration time.Duration) {
 }
 
 func (c *Cache) get(key string) (value interface{},ok bool){
-	val, ok := c.dataDict.Load(key)
-	if !ok{
-		return val, ok
-	}
-
+	// look at the deadline first: another reader may purge the key at the same time
 	if c.expired(key) {
-		val = nil
-		ok = false
+		return nil, false
 	}
 
-	return val, ok
+	return c.dataDict.Load(key)
 }
\ No newline at end of file
-- 
2.43.0


From 6d227d7dc243bf88b3e60093ee16c7dcae1e08f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:42 +0000
Subject: [PATCH 58/63] fix: an array is no reply to IncrByFloat

---
 redis/command.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redis/command.go b/redis/command.go
index 556db68..e7172c0 100644
--- a/redis/command.go
+++ b/redis/command.go
@@ -59,7 +59,9 @@ type FloatCommand struct {
 }
 
 func (cmd *FloatCommand) Parse(message Message) {
-	if val, err := strconv.ParseFloat(message.String(), 64); err == nil {
+	if _, ok := message.(ArrayMessage); ok {
+		cmd.Err = errors.New("failed to parse response")
+	} else if val, err := strconv.ParseFloat(message.String(), 64); err == nil {
 		cmd.Val = val
 	} else {
 		cmd.Err = errors.New("failed to parse response")
-- 
2.43.0


From 739198220dce33456a4fd263d54d32e304910ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:15 +0000
Subject: [PATCH 59/63] fix: a caller below the pool's capacity does not wait

---
 redis/pool.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/redis/pool.go b/redis/pool.go
index 2dd8d67..8b11936 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -40,11 +40,15 @@ func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 	default:
 		// no conn available, try create new conn
 		pool.l.Lock()
-		if pool.size < pool.capacity {
+		grow := pool.size < pool.capacity
+		if grow {
 			pool.size++
-			pool.connC <- nil
 		}
 		pool.l.Unlock()
+
+		if grow {
+			return pool.open(ctx, nil)
+		}
 	}
 
 	select {
-- 
2.43.0


From 83ffb233be8a8b8d9c19f2febde25a2a8bfebb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:48 +0000
Subject: [PATCH 60/63] fix: a ping rejected by the master fails the
 synchronisation whatever the error text

---
 redis/replication.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index 335dc7c..fae605e 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -132,7 +132,7 @@ func (repl *Replication) ping() error {
 	}
 	if message, err := repl.conn.SendAndWaitReply(cmd.Serialize()); err != nil {
 		return err
-	} else if message.String() != PONG.String() {
+	} else if message.Protocol() == ProtocolError || message.String() != PONG.String() {
 		err = errors.New(fmt.Sprintf("ping, receive %s from %s", message.String(), repl.MasterAddr))
 		return err
 	}
-- 
2.43.0


From d842347e801f05360a09e084d6d576b0e3b0b647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:15 +0000
Subject: [PATCH 61/63] fix: deeply nested arrays from the peer do not exhaust
 the stack

---
 redis/conn.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/redis/conn.go b/redis/conn.go
index 4dacfd4..f409264 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -214,7 +214,14 @@ func (c *Conn) ReadWithWriter(writer io.Writer) (p Protocol, n int, err error) {
 	}
 }
 
+// deeper nested arrays are refused, they would exhaust the stack
+const maxNesting = 1 << 16
+
 func (c *Conn) readMessage() (Message, error) {
+	return c.readNested(0)
+}
+
+func (c *Conn) readNested(depth int) (Message, error) {
 	protocol, err := c.readProtocol()
 	if err != nil {
 		return nil, err
@@ -279,6 +286,10 @@ func (c *Conn) readMessage() (Message, error) {
 			return IntMessage(number), nil
 		}
 	case ProtocolArray:
+		if depth >= maxNesting {
+			return nil, errors.New("array is nested too deep")
+		}
+
 		line, err := c.readLine()
 		if err != nil {
 			return nil, err
@@ -298,7 +309,7 @@ func (c *Conn) readMessage() (Message, error) {
 
 		var messages ArrayMessage
 		for i := 0; i < number; i++ {
-			if message, err := c.readMessage(); err != nil {
+			if message, err := c.readNested(depth + 1); err != nil {
 				return nil, err
 			} else {
 				messages = append(messages, message)
-- 
2.43.0


From ce351a2223d784cc2e6ebe64a12285e6df6aa8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:32 +0000
Subject: [PATCH 62/63] fix: a synchronisation that fails closes its connection

---
 redis/replication.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/redis/replication.go b/redis/replication.go
index fae605e..a7f0ffb 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -38,7 +38,11 @@ type Replication struct {
 
 const DefaultReplicationMessages = 10000
 
+// Stop closes the connection to the master
 func (repl *Replication) Stop() {
+	if repl.conn != nil {
+		_ = repl.conn.Close()
+	}
 }
 
 func (repl *Replication) SyncWithRedis() error {
@@ -62,11 +66,13 @@ func (repl *Replication) SyncWithRedis() error {
 
 	if err := repl.ping(); err != nil {
 		logrus.Warn("replication error", err)
+		repl.Stop()
 		return err
 	}
 
 	if err := repl.sync(); err != nil {
 		logrus.Warnln("replication error", err)
+		repl.Stop()
 		return err
 	}
 
-- 
2.43.0


From fc22b59f91a086e8c514101b39815206413aa1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:32 +0000
Subject: [PATCH 63/63] fix: a client that cannot be created leaves no
 connection and no goroutine

---
 xxcache.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xxcache.go b/xxcache.go
index 15c0c14..6434bc3 100644
--- a/xxcache.go
+++ b/xxcache.go
@@ -48,6 +48,9 @@ func New(option Option) (client Client, err error) {
 	go client.handleReplication(repl)
 
 	if err = repl.Load(); err != nil {
+		// nothing goes on without the snapshot
+		repl.Stop()
+		close(repl.Err)
 		return client, err
 	}
 
@@ -77,7 +80,11 @@ func (client *Client) handleReplication(repl redis.Replication) {
 			if err := cache.HandleMessage(client.cache, message.Message); err != nil {
 				logrus.Warnln("handle message error", err)
 			}
-		case err := <-repl.Err:
+		case err, ok := <-repl.Err:
+			if !ok {
+				return
+			}
+
 			if err != nil {
 				logrus.Warnln("repl error", err)
 			}
-- 
2.43.0

