From e2d5fed14597595cadc85270c461db8b8b167f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:20 +0000
Subject: [PATCH 01/31] fix: basic auth must not admit empty credentials of an
 unknown user

---
 guard/basicauth.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/guard/basicauth.go b/guard/basicauth.go
index 7ff36ba..d5c48e2 100644
--- a/guard/basicauth.go
+++ b/guard/basicauth.go
@@ -126,13 +126,15 @@ func (b *BasicAuth) simpleBasicAuthFunc(user, pass string, r *http.Request) bool
 	// Equalize lengths of supplied and required credentials by hashing them
 	givenUser := sha256.Sum256([]byte(user))
 	givenPass := sha256.Sum256([]byte(pass))
-	requiredUser := sha256.Sum256([]byte(b.Users[user].User))
-	requiredPass := sha256.Sum256([]byte(b.Users[user].Password))
+	required, known := b.Users[user]
+	requiredUser := sha256.Sum256([]byte(required.User))
+	requiredPass := sha256.Sum256([]byte(required.Password))
 
 	// Compare the supplied credentials to those set in our options
 	if subtle.ConstantTimeCompare(givenUser[:], requiredUser[:]) == 1 &&
 		subtle.ConstantTimeCompare(givenPass[:], requiredPass[:]) == 1 {
-		return true
+		// An unknown user has empty requirements, which empty credentials would meet
+		return known
 	}
 
 	return false
-- 
2.43.0


From 2e1fa6eac9165f06a5b32973e6352d93b19fc82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:21 +0000
Subject: [PATCH 02/31] fix: the default unauthorized handler must answer 401

---
 guard/basicauth.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/guard/basicauth.go b/guard/basicauth.go
index d5c48e2..756f455 100644
--- a/guard/basicauth.go
+++ b/guard/basicauth.go
@@ -54,6 +54,8 @@ func (b BasicAuth) Authenticate(handler http.HandlerFunc) http.HandlerFunc {
 		if b.UnauthorizedHandler == nil {
 			b.UnauthorizedHandler = router.ErrorHandler(func(w http.ResponseWriter, r *http.Request, code int) {
 				switch code {
+				case 401:
+					http.Error(w, "Unauthorized", 401)
 				case 403:
 					http.Error(w, "Forbidden", 403)
 				}
-- 
2.43.0


From e0d2ecd697ebbf8539ed46d033b2ae96228c19b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:22 +0000
Subject: [PATCH 03/31] fix: basic auth must not write shared state while
 handling requests

---
 guard/basicauth.go | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/guard/basicauth.go b/guard/basicauth.go
index 756f455..cb9912f 100644
--- a/guard/basicauth.go
+++ b/guard/basicauth.go
@@ -48,19 +48,20 @@ type AuthUser struct {
 
 // Authenticate is a middleware function that adds HTTP BasicAuth to a http handler
 func (b BasicAuth) Authenticate(handler http.HandlerFunc) http.HandlerFunc {
-	return func(w http.ResponseWriter, r *http.Request) {
 
-		// Check if we have a user-provided error handler, else set a default
-		if b.UnauthorizedHandler == nil {
-			b.UnauthorizedHandler = router.ErrorHandler(func(w http.ResponseWriter, r *http.Request, code int) {
-				switch code {
-				case 401:
-					http.Error(w, "Unauthorized", 401)
-				case 403:
-					http.Error(w, "Forbidden", 403)
-				}
-			})
-		}
+	// Check if we have a user-provided error handler, else set a default
+	if b.UnauthorizedHandler == nil {
+		b.UnauthorizedHandler = router.ErrorHandler(func(w http.ResponseWriter, r *http.Request, code int) {
+			switch code {
+			case 401:
+				http.Error(w, "Unauthorized", 401)
+			case 403:
+				http.Error(w, "Forbidden", 403)
+			}
+		})
+	}
+
+	return func(w http.ResponseWriter, r *http.Request) {
 
 		// Check that the provided details match
 		if !b.authenticate(r) {
@@ -114,11 +115,12 @@ func (b *BasicAuth) authenticate(r *http.Request) bool {
 	givenPass := string(creds[1])
 
 	// Default to Simple mode if no AuthFunc is defined.
-	if b.AuthFunc == nil {
-		b.AuthFunc = b.simpleBasicAuthFunc
+	authFunc := b.AuthFunc
+	if authFunc == nil {
+		authFunc = b.simpleBasicAuthFunc
 	}
 
-	return b.AuthFunc(givenUser, givenPass, r)
+	return authFunc(givenUser, givenPass, r)
 }
 
 // simpleBasicAuthFunc authenticates the supplied username and password against
-- 
2.43.0


From 49333dd83bdc2cccdae3fd773c0a40021c4ea9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:52 +0000
Subject: [PATCH 04/31] fix: the content firewall must decide unlisted clients
 as documented

---
 guard/firewall.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/guard/firewall.go b/guard/firewall.go
index 0aacede..dba8473 100644
--- a/guard/firewall.go
+++ b/guard/firewall.go
@@ -82,10 +82,11 @@ func (f *Firewall) BlockHTTP(handler http.HandlerFunc) http.HandlerFunc {
 		}
 
 		if f.Blacklisting {
-			f.ErrorHandler(w, r, 403)
+			handler.ServeHTTP(w, r)
 			return
 		}
-		handler.ServeHTTP(w, r)
+
+		f.ErrorHandler(w, r, 403)
 		return
 	}
 }
-- 
2.43.0


From 9dfa49becba5c1074b0acaa00322767e146119d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:13 +0000
Subject: [PATCH 05/31] fix: cache lookups must examine the newest entry first

---
 cache/find.go | 9 +++------
 cache/get.go  | 9 +++------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/cache/find.go b/cache/find.go
index febe2e6..f47ee1a 100644
--- a/cache/find.go
+++ b/cache/find.go
@@ -41,19 +41,16 @@ func (c *SpearCache) Find(key string) (bool, interface{}, uint64) {
 	// Lock the shard for concurrency safetey
 	c.shards[id].lock.Lock()
 
-	rangeEnd := c.shards[id].cursor - defaultItems - 1
+	rangeEnd := c.shards[id].cursor - defaultItems
 
-	// We range over the ring queue
-	for i := c.shards[id].cursor; i >= rangeEnd; i-- {
+	// We range over the ring queue, from the newest item to the oldest
+	for i := c.shards[id].cursor - 1; i >= rangeEnd; i-- {
 
 		itemID := i
 
 		if itemID < 0 {
 			itemID = itemID + defaultItems
 		}
-		if itemID >= defaultItems {
-			itemID = defaultItems - 1
-		}
 
 		key := c.shards[id].items[itemID].key
 
diff --git a/cache/get.go b/cache/get.go
index 091760e..2eb8e41 100644
--- a/cache/get.go
+++ b/cache/get.go
@@ -40,20 +40,17 @@ func (c *SpearCache) Get(key string, maxAge uint64) (bool, interface{}) {
 	// Lock the shard for concurrency safetey
 	c.shards[id].lock.Lock()
 
-	rangeEnd := c.shards[id].cursor - defaultItems - 1
+	rangeEnd := c.shards[id].cursor - defaultItems
 	var itemsParsed int
 
-	// We range over the ring queue
-	for i := c.shards[id].cursor; i >= rangeEnd; i-- {
+	// We range over the ring queue, from the newest item to the oldest
+	for i := c.shards[id].cursor - 1; i >= rangeEnd; i-- {
 		itemsParsed++
 		itemID := i
 
 		if itemID < 0 {
 			itemID = itemID + defaultItems
 		}
-		if itemID >= defaultItems {
-			itemID = defaultItems - 1
-		}
 
 		key := c.shards[id].items[itemID].key
 
-- 
2.43.0


From 111794b68a616b6ddd94991bab8ba83cb4de5f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:14 +0000
Subject: [PATCH 06/31] fix: a cache lookup must test the age of the entry it
 looks for

---
 cache/get.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/cache/get.go b/cache/get.go
index 2eb8e41..72eef00 100644
--- a/cache/get.go
+++ b/cache/get.go
@@ -41,11 +41,9 @@ func (c *SpearCache) Get(key string, maxAge uint64) (bool, interface{}) {
 	c.shards[id].lock.Lock()
 
 	rangeEnd := c.shards[id].cursor - defaultItems
-	var itemsParsed int
 
 	// We range over the ring queue, from the newest item to the oldest
 	for i := c.shards[id].cursor - 1; i >= rangeEnd; i-- {
-		itemsParsed++
 		itemID := i
 
 		if itemID < 0 {
@@ -59,14 +57,15 @@ func (c *SpearCache) Get(key string, maxAge uint64) (bool, interface{}) {
 			continue
 		}
 
-		if now-c.shards[id].items[itemID].modTime > maxAge && itemsParsed < defaultNoClutter {
-			break
-		}
-
-		// We test if the item is within the maxAge range. If it is not we break.
-		// If it is we check if the key matches the key we search.
+		// We check if the key matches the key we search. If it does we test if the
+		// item is within the maxAge range. If it is not we break, older items with
+		// the same key are expired too.
 		if key == keyHash {
 
+			if now-c.shards[id].items[itemID].modTime > maxAge {
+				break
+			}
+
 			// appendKey
 			c.appendKey(key, id, c.shards[id].items[itemID].value)
 
-- 
2.43.0


From 26105dd305640f884f442fd640d3769a9a7cea0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:15 +0000
Subject: [PATCH 07/31] fix: cache lookups must read time and entry while
 holding the lock

---
 cache/find.go | 13 +++++++------
 cache/get.go  | 11 ++++++-----
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/cache/find.go b/cache/find.go
index f47ee1a..0cdb51e 100644
--- a/cache/find.go
+++ b/cache/find.go
@@ -30,9 +30,6 @@ func (c *SpearCache) Find(key string) (bool, interface{}, uint64) {
 	keyHash := xxhash.Sum64([]byte(key))
 	id := keyHash & (defaultShards - 1)
 
-	// Get current time in nano seconds
-	now := uint64(time.Now().UnixNano())
-
 	// We make sure the shard exists, if it doesn't the key isn't stored
 	if c.shards[id] == nil {
 		return false, nil, 0
@@ -41,6 +38,9 @@ func (c *SpearCache) Find(key string) (bool, interface{}, uint64) {
 	// Lock the shard for concurrency safetey
 	c.shards[id].lock.Lock()
 
+	// Get current time in nano seconds
+	now := uint64(time.Now().UnixNano())
+
 	rangeEnd := c.shards[id].cursor - defaultItems
 
 	// We range over the ring queue, from the newest item to the oldest
@@ -63,12 +63,13 @@ func (c *SpearCache) Find(key string) (bool, interface{}, uint64) {
 		// If it is we check if the key matches the key we search.
 		if key == keyHash {
 
-			// appendKey
-			c.appendKey(key, id, c.shards[id].items[itemID].value)
+			// appendKey, which may overwrite the found item
+			found := c.shards[id].items[itemID]
+			c.appendKey(key, id, found.value)
 
 			// Unlock and return
 			c.shards[id].lock.Unlock()
-			return true, c.shards[id].items[itemID].value, now - c.shards[id].items[itemID].modTime
+			return true, found.value, now - found.modTime
 		}
 	}
 
diff --git a/cache/get.go b/cache/get.go
index 72eef00..55b1074 100644
--- a/cache/get.go
+++ b/cache/get.go
@@ -29,9 +29,6 @@ func (c *SpearCache) Get(key string, maxAge uint64) (bool, interface{}) {
 	keyHash := xxhash.Sum64([]byte(key))
 	id := keyHash & (defaultShards - 1)
 
-	// Get current time in nano seconds
-	now := uint64(time.Now().UnixNano())
-
 	// We make sure the shard exists, if it doesn't the key isn't stored
 	if c.shards[id] == nil {
 		return false, nil
@@ -40,6 +37,9 @@ func (c *SpearCache) Get(key string, maxAge uint64) (bool, interface{}) {
 	// Lock the shard for concurrency safetey
 	c.shards[id].lock.Lock()
 
+	// Get current time in nano seconds
+	now := uint64(time.Now().UnixNano())
+
 	rangeEnd := c.shards[id].cursor - defaultItems
 
 	// We range over the ring queue, from the newest item to the oldest
@@ -67,11 +67,12 @@ func (c *SpearCache) Get(key string, maxAge uint64) (bool, interface{}) {
 			}
 
 			// appendKey
-			c.appendKey(key, id, c.shards[id].items[itemID].value)
+			value := c.shards[id].items[itemID].value
+			c.appendKey(key, id, value)
 
 			// Unlock and return
 			c.shards[id].lock.Unlock()
-			return true, c.shards[id].items[itemID].value
+			return true, value
 		}
 	}
 
-- 
2.43.0


From 2c8fb56a4ab6c688c14fa50e2a02d152646b2736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:34 +0000
Subject: [PATCH 08/31] fix: concurrent first use of a cache shard must not
 lose entries

---
 cache/cache.go | 25 +++++++++++++++++++++++++
 cache/find.go  |  2 +-
 cache/get.go   |  2 +-
 cache/set.go   |  4 +---
 4 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 705ad49..43293fd 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -14,6 +14,8 @@
 
 package cache
 
+import "sync"
+
 const (
 
 	// defaultShards is the amount of shards in SpearCache
@@ -33,9 +35,32 @@ const (
 // A cache get will retrieve the newest appended entry to the queue, if it exist and is not yet expired.
 type SpearCache struct {
 	shards [defaultShards]*shard
+
+	// create guards the creation of shards
+	create sync.RWMutex
 }
 
 // NewCache returns an empty SpearCache
 func NewCache() *SpearCache {
 	return &SpearCache{}
 }
+
+// hasShard returns whether the shard with id exists
+func (c *SpearCache) hasShard(id uint64) bool {
+	c.create.RLock()
+	defer c.create.RUnlock()
+	return c.shards[id] != nil
+}
+
+// ensureShard creates the shard with id, if it doesn't exist yet
+func (c *SpearCache) ensureShard(id uint64) {
+	if c.hasShard(id) {
+		return
+	}
+
+	c.create.Lock()
+	defer c.create.Unlock()
+	if c.shards[id] == nil {
+		c.shards[id] = newShard()
+	}
+}
diff --git a/cache/find.go b/cache/find.go
index 0cdb51e..b03ac81 100644
--- a/cache/find.go
+++ b/cache/find.go
@@ -31,7 +31,7 @@ func (c *SpearCache) Find(key string) (bool, interface{}, uint64) {
 	id := keyHash & (defaultShards - 1)
 
 	// We make sure the shard exists, if it doesn't the key isn't stored
-	if c.shards[id] == nil {
+	if !c.hasShard(id) {
 		return false, nil, 0
 	}
 
diff --git a/cache/get.go b/cache/get.go
index 55b1074..9c06892 100644
--- a/cache/get.go
+++ b/cache/get.go
@@ -30,7 +30,7 @@ func (c *SpearCache) Get(key string, maxAge uint64) (bool, interface{}) {
 	id := keyHash & (defaultShards - 1)
 
 	// We make sure the shard exists, if it doesn't the key isn't stored
-	if c.shards[id] == nil {
+	if !c.hasShard(id) {
 		return false, nil
 	}
 
diff --git a/cache/set.go b/cache/set.go
index ef527de..9fcd3f9 100644
--- a/cache/set.go
+++ b/cache/set.go
@@ -29,9 +29,7 @@ func (c *SpearCache) Set(key string, value interface{}) {
 	id := keyHash & (defaultShards - 1)
 
 	// We make sure the shard exists, if it doesn't we create one
-	if c.shards[id] == nil {
-		c.shards[id] = newShard()
-	}
+	c.ensureShard(id)
 
 	// Lock the shard for concurrency safety. We don't use defer to unlock the shard (on purpose)
 	c.shards[id].lock.Lock()
-- 
2.43.0


From 5e6003b260fa5d7e8480a301b4af6970887d673c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:36 +0000
Subject: [PATCH 09/31] fix: concurrent requests of one client must share one
 limiter

---
 guard/limiter.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/guard/limiter.go b/guard/limiter.go
index 9fd679b..45f0aae 100644
--- a/guard/limiter.go
+++ b/guard/limiter.go
@@ -16,6 +16,7 @@ package guard
 
 import (
 	"net/http"
+	"sync"
 
 	"github.com/redmaner/MaguroHTTP/cache"
 	"github.com/redmaner/MaguroHTTP/router"
@@ -29,6 +30,9 @@ type Limiter struct {
 	RateBurst    int
 	ErrorHandler router.ErrorHandler
 	FilterOnIP   bool
+
+	// lock makes looking up and storing the limiter of a client one step
+	lock sync.Mutex
 }
 
 // NewLimiter returns a new guard.Limiter
@@ -58,6 +62,8 @@ func (l *Limiter) LimitHTTP(h http.HandlerFunc) http.HandlerFunc {
 		if !l.FilterOnIP {
 			remoteAddr = remoteAddr + r.Header.Get("User-Agent")
 		}
+
+		l.lock.Lock()
 		ok, lmt := l.cache.Get(remoteAddr, 900000000000)
 
 		switch {
@@ -70,6 +76,7 @@ func (l *Limiter) LimitHTTP(h http.HandlerFunc) http.HandlerFunc {
 		}
 
 		l.cache.Set(remoteAddr, limit)
+		l.lock.Unlock()
 
 		if !limit.Allow() {
 			l.ErrorHandler(w, r, 429)
-- 
2.43.0


From 061fc10155da7fe88f9280f6ca4c8409b27edd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:37 +0000
Subject: [PATCH 10/31] fix: clients must not share a limiter by ambiguous
 address and user agent

---
 guard/limiter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/guard/limiter.go b/guard/limiter.go
index 45f0aae..5866f63 100644
--- a/guard/limiter.go
+++ b/guard/limiter.go
@@ -60,7 +60,7 @@ func (l *Limiter) LimitHTTP(h http.HandlerFunc) http.HandlerFunc {
 
 		remoteAddr := router.StripHostPort(r.RemoteAddr)
 		if !l.FilterOnIP {
-			remoteAddr = remoteAddr + r.Header.Get("User-Agent")
+			remoteAddr = remoteAddr + " " + r.Header.Get("User-Agent")
 		}
 
 		l.lock.Lock()
-- 
2.43.0


From 58eb642774c6d24a0a51349a907684e1a1ef0212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:36 +0000
Subject: [PATCH 11/31] fix: a failing or slow reader of the metrics page must
 not block the server

---
 tuna/metrics.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index 7ba3bbd..0a58b70 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -15,6 +15,7 @@
 package tuna
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io"
@@ -63,6 +64,7 @@ func (md *metricsData) concat(e int, p string) {
 // Function to display metrics data
 func (md *metricsData) display(o io.Writer) error {
 	md.mu.Lock()
+	defer md.mu.Unlock()
 
 	if _, err := io.WriteString(o, fmt.Sprintf("<h1>MaguroHTTP metrics</h1><br><b>Total requests:</b> %d<br>", md.TotalRequests)); err != nil {
 		return err
@@ -80,7 +82,6 @@ func (md *metricsData) display(o io.Writer) error {
 			return err
 		}
 	}
-	md.mu.Unlock()
 	return nil
 }
 
@@ -90,9 +91,13 @@ func (s *Server) handleMetrics() http.HandlerFunc {
 		s.setHeaders(w, nil, false)
 		w.Header().Set("Content-Security-Policy", "")
 		s.WriteString(w, html.PageTemplateStart)
-		if err := s.metrics.display(w); err != nil {
+
+		// Compose the page first, so the lock is not held while sending it to the client
+		var page bytes.Buffer
+		if err := s.metrics.display(&page); err != nil {
 			s.Log(debug.LogError, err)
 		}
+		s.WriteString(w, page.String())
 		s.WriteString(w, html.PageTemplateEnd)
 		s.LogNetwork(200, r)
 	}
-- 
2.43.0


From 247ad840490868e0f11eb365febbd2a6dab0cbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:37 +0000
Subject: [PATCH 12/31] fix: client chosen paths must be escaped on the metrics
 page

---
 tuna/metrics.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index 0a58b70..50492bb 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -18,6 +18,7 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"html/template"
 	"io"
 	"net/http"
 	"os"
@@ -74,7 +75,7 @@ func (md *metricsData) display(o io.Writer) error {
 			return err
 		}
 		for p, a := range v {
-			if _, err := io.WriteString(o, fmt.Sprintf("<li>Amount: %d - Path: %s</li>", a, p)); err != nil {
+			if _, err := io.WriteString(o, fmt.Sprintf("<li>Amount: %d - Path: %s</li>", a, template.HTMLEscapeString(p))); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From 323cd61e60f8595a075408d896313b7abcfc3399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:38 +0000
Subject: [PATCH 13/31] fix: metrics loaded without paths must not crash the
 first request

---
 tuna/metrics.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index 50492bb..3f0db14 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -46,7 +46,10 @@ type metricsData struct {
 func (md *metricsData) concat(e int, p string) {
 	if md.enabled {
 		md.mu.Lock()
-		if _, ok := md.Paths[e]; ok {
+		if md.Paths == nil {
+			md.Paths = make(map[int]map[string]int)
+		}
+		if md.Paths[e] != nil {
 			if _, ok := md.Paths[e][p]; ok {
 				md.Paths[e][p]++
 			} else {
-- 
2.43.0


From dfaab01a5efc48a74d3e57ee78bdf899611d4919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:39 +0000
Subject: [PATCH 14/31] fix: a run without metrics must not overwrite the saved
 metrics

---
 tuna/metrics.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index 3f0db14..a9f35a3 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -160,6 +160,12 @@ func (s *Server) metricsDaemon() {
 
 // This function flushes metricsData to a file
 func (s *Server) flushMetrics() {
+
+	// Metrics that are not collected are not saved either
+	if !s.metrics.enabled {
+		return
+	}
+
 	var mdout *os.File
 	var err error
 
-- 
2.43.0


From dc4806b44a499aba79ee5871ba709a746a8987a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:40 +0000
Subject: [PATCH 15/31] fix: metrics must be loaded before the first request
 and always be saved periodically

---
 tuna/metrics.go | 9 ++++++---
 tuna/server.go  | 1 +
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index a9f35a3..6b4a8cd 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -107,10 +107,9 @@ func (s *Server) handleMetrics() http.HandlerFunc {
 	}
 }
 
-// Metrics Daemon
-func (s *Server) metricsDaemon() {
+// Initially load metrics if they are present
+func (s *Server) loadMetrics() {
 
-	// Initially load metrics if they are present
 	if !s.Cfg.Core.Metrics.Enabled || !s.Cfg.Core.TLS.Enabled {
 		s.metrics = metricsData{
 			enabled: false,
@@ -150,6 +149,10 @@ func (s *Server) metricsDaemon() {
 
 	err = file.Close()
 	s.Log(debug.LogError, err)
+}
+
+// Metrics Daemon
+func (s *Server) metricsDaemon() {
 
 	// Occasionally flush metrics to disk
 	for {
diff --git a/tuna/server.go b/tuna/server.go
index e38e907..41c4e62 100644
--- a/tuna/server.go
+++ b/tuna/server.go
@@ -187,6 +187,7 @@ func NewInstanceFromConfig(p string) *Server {
 	s.addRoutesFromConfig()
 
 	// Handle metrics
+	s.loadMetrics()
 	go s.metricsDaemon()
 
 	// Define http transport
-- 
2.43.0


From 76cd701a9b6e250ba84677d966122f2af642449a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:18 +0000
Subject: [PATCH 16/31] fix: a crash or failure while saving must not destroy
 the saved metrics

---
 tuna/metrics.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index 6b4a8cd..655995f 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -169,21 +169,33 @@ func (s *Server) flushMetrics() {
 		return
 	}
 
-	var mdout *os.File
-	var err error
-
-	mdout, err = os.Create(s.Cfg.Core.Metrics.Out)
-	s.Log(debug.LogError, err)
-
-	mdout, err = os.OpenFile(s.Cfg.Core.Metrics.Out, os.O_RDWR|os.O_CREATE|os.O_APPEND, 0666)
-	s.Log(debug.LogError, err)
+	// Only one flush at a time
+	s.mu.Lock()
+	defer s.mu.Unlock()
 
 	s.metrics.mu.Lock()
 	bs, err := json.MarshalIndent(s.metrics, "", "  ")
 	s.Log(debug.LogError, err)
 	s.metrics.mu.Unlock()
 
-	s.WriteString(mdout, string(bs))
-	err = mdout.Close()
+	// The metrics are written to a temporary file, which replaces the saved metrics
+	// once it is complete
+	tmp := s.Cfg.Core.Metrics.Out + ".tmp"
+	mdout, err := os.Create(tmp)
+	if err != nil {
+		s.Log(debug.LogError, err)
+		return
+	}
+
+	_, err = mdout.Write(bs)
+	if err == nil {
+		err = mdout.Sync()
+	}
+	if cerr := mdout.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(tmp, s.Cfg.Core.Metrics.Out)
+	}
 	s.Log(debug.LogError, err)
 }
-- 
2.43.0


From e1f4eaa954dcfd457d5ef041dcddb2a7abd2e3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:19 +0000
Subject: [PATCH 17/31] fix: custom error pages must be sent with the status
 code of the error

---
 tuna/handleerror.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tuna/handleerror.go b/tuna/handleerror.go
index 5a960d3..205afad 100644
--- a/tuna/handleerror.go
+++ b/tuna/handleerror.go
@@ -18,8 +18,8 @@ import (
 	"bytes"
 	"fmt"
 	"html/template"
+	"io/ioutil"
 	"net/http"
-	"os"
 	"strconv"
 
 	"github.com/redmaner/MaguroHTTP/debug"
@@ -45,8 +45,10 @@ func (s *Server) HandleError(w http.ResponseWriter, r *http.Request, errorCode i
 
 	// Custom error pages can be set in the configuration.
 	if val, ok := cfg.Errors[strconv.Itoa(errorCode)]; ok {
-		if _, err := os.Stat(val); err == nil {
-			http.ServeFile(w, r, val)
+		if page, err := ioutil.ReadFile(val); err == nil {
+			w.Header().Set("Content-Type", getMIMEType(val, cfg.Serve.MIMETypes))
+			w.WriteHeader(errorCode)
+			s.WriteString(w, string(page))
 			return
 		}
 	}
-- 
2.43.0


From 9a364329c18bf9f1e28a6a057d580c843c16740e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:20 +0000
Subject: [PATCH 18/31] fix: the content type of built-in error pages must be
 set before the header is sent

---
 tuna/handleerror.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tuna/handleerror.go b/tuna/handleerror.go
index 205afad..b6b1319 100644
--- a/tuna/handleerror.go
+++ b/tuna/handleerror.go
@@ -57,8 +57,8 @@ func (s *Server) HandleError(w http.ResponseWriter, r *http.Request, errorCode i
 
 	// If custom error pages aren't set the default error message is shown.
 	// This is a very basic HTTP error code page without any technical information.
-	w.WriteHeader(errorCode)
 	w.Header().Set("Content-Type", "text/html")
+	w.WriteHeader(errorCode)
 	switch errorCode {
 	case 403:
 		s.WriteString(buf, "<h3>Error 403 - Forbidden</h3>")
-- 
2.43.0


From 3068b86b358933964f880ce52fb6ed22456a1adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:21 +0000
Subject: [PATCH 19/31] fix: the request line must not redirect the proxy to
 another host

---
 tuna/handleproxy.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tuna/handleproxy.go b/tuna/handleproxy.go
index f33bcf8..8bc079f 100644
--- a/tuna/handleproxy.go
+++ b/tuna/handleproxy.go
@@ -19,6 +19,7 @@ import (
 	"io"
 	"io/ioutil"
 	"net/http"
+	"strings"
 
 	"github.com/redmaner/MaguroHTTP/debug"
 	"github.com/redmaner/MaguroHTTP/router"
@@ -53,6 +54,13 @@ func (s *Server) handleProxy() http.HandlerFunc {
 				return
 			}
 
+			// The request URI is appended to the address of the proxied host. Only a URI that starts
+			// with a slash cannot change that address.
+			if !strings.HasPrefix(r.RequestURI, "/") {
+				s.HandleError(w, r, 502)
+				return
+			}
+
 			// We compose a new request with the desired proxy host, the original request method
 			// and original request body.
 			req, err := http.NewRequest(r.Method, val+r.RequestURI, bytes.NewBuffer(bodyData))
-- 
2.43.0


From 3bd55ab0cd70b9751d61e6181ecfae60831b41d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:22 +0000
Subject: [PATCH 20/31] fix: TLS without usable certificates must not fall back
 to plaintext

---
 tuna/serve.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tuna/serve.go b/tuna/serve.go
index c5aa8cf..5635e84 100644
--- a/tuna/serve.go
+++ b/tuna/serve.go
@@ -75,7 +75,13 @@ func (s *Server) Serve() {
 	switch {
 
 	// If TLS is enabled the server will start in TLS
-	case s.Cfg.Core.TLS.Enabled && s.httpCheckTLS():
+	case s.Cfg.Core.TLS.Enabled:
+
+		// Never fall back to HTTP if the certificates are missing
+		if !s.httpCheckTLS() {
+			panic("TLS is enabled but the certificates cannot be found")
+		}
+
 		s.Log(debug.LogNone, fmt.Errorf("MaguroHTTP %s is listening on port %s with TLS", Version, s.Cfg.Core.Port))
 		tlsc := s.httpCreateTLSConfig()
 
-- 
2.43.0


From b70d0fc6c4e6cee8c30cd58f7756ff191817bb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:23 +0000
Subject: [PATCH 21/31] fix: a listening error of a stopped server must not
 interrupt the graceful shutdown

---
 tuna/serve.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tuna/serve.go b/tuna/serve.go
index 5635e84..2adb9b1 100644
--- a/tuna/serve.go
+++ b/tuna/serve.go
@@ -100,7 +100,7 @@ func (s *Server) Serve() {
 		server.TLSConfig = tlsc
 
 		err := server.ListenAndServeTLS(tlsCert, tlsKey)
-		if err != nil {
+		if err != nil && err != http.ErrServerClosed {
 			panic(err)
 		}
 
@@ -108,8 +108,11 @@ func (s *Server) Serve() {
 	default:
 		s.Log(debug.LogNone, fmt.Errorf("MaguroHTTP %s is listening on port %s", Version, s.Cfg.Core.Port))
 		err := server.ListenAndServe()
-		if err != nil {
+		if err != nil && err != http.ErrServerClosed {
 			panic(err)
 		}
 	}
+
+	// The server is being shut down, which ends the process once requests in flight are answered
+	select {}
 }
-- 
2.43.0


From b857d128768b86dfc05a9c45c3abb679eaf62133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:24 +0000
Subject: [PATCH 22/31] fix: stop signals must not be lost

---
 tuna/serve.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tuna/serve.go b/tuna/serve.go
index 2adb9b1..b9ee067 100644
--- a/tuna/serve.go
+++ b/tuna/serve.go
@@ -45,10 +45,12 @@ func (s *Server) Serve() {
 		ErrorLog:          s.logInterface.Instance,
 	}
 
+	// Signals are registered before listening, and buffered so that none is lost
+	sig := make(chan os.Signal, 1)
+	signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM)
+
 	go func() {
 		// Gracefully stop the server in case of a signal
-		sig := make(chan os.Signal)
-		signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM)
 		for {
 			select {
 			case signal := <-sig:
-- 
2.43.0


From e2d99ef30db8e015b19a6ea589825d5cb714bb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:24 +0000
Subject: [PATCH 23/31] fix: serving content without a serve directory must be
 refused

---
 tuna/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tuna/config.go b/tuna/config.go
index 204a1fb..06a0d7e 100644
--- a/tuna/config.go
+++ b/tuna/config.go
@@ -268,6 +268,9 @@ func (c *Config) Validate(p string, isVhost bool) {
 	}
 
 	// Test serve
+	if !c.Proxy.Enabled && len(c.Serve.Methods) > 0 && c.Serve.ServeDir == "" {
+		log.Fatalf("%s: The server configuration has missing elements: check ServeDir", p)
+	}
 	if !c.Proxy.Enabled && c.Serve.Download.Enabled {
 		if c.Serve.ServeDir == "" || c.Serve.ServeIndex == "" {
 			log.Fatalf("%s: The server configuration has missing elements: check ServeDir and ServeIndex", p)
-- 
2.43.0


From a3f5887f5c74381daf6eb489c8d0238de798a2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:26 +0000
Subject: [PATCH 24/31] fix: file system errors must not crash the download
 listing

---
 tuna/handledownload.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tuna/handledownload.go b/tuna/handledownload.go
index a075b39..42a648c 100644
--- a/tuna/handledownload.go
+++ b/tuna/handledownload.go
@@ -48,7 +48,11 @@ func (s *Server) handleDownload() http.HandlerFunc {
 		// Collect downloadable files
 		if cfg.Serve.Download.Enabled {
 			for _, v := range cfg.Serve.Download.Exts {
-				err := filepath.Walk(cfg.Serve.ServeDir, func(path string, f os.FileInfo, _ error) error {
+				err := filepath.Walk(cfg.Serve.ServeDir, func(path string, f os.FileInfo, err error) error {
+					if f == nil {
+						return err
+					}
+
 					if f.IsDir() {
 						return nil
 					}
-- 
2.43.0


From f8078e4eda309596d8750673b727f85c69bd9f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:26 +0000
Subject: [PATCH 25/31] fix: file names must be escaped in the download listing

---
 tuna/handledownload.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tuna/handledownload.go b/tuna/handledownload.go
index 42a648c..92f5731 100644
--- a/tuna/handledownload.go
+++ b/tuna/handledownload.go
@@ -92,6 +92,7 @@ func (s *Server) handleDownload() http.HandlerFunc {
 			s.WriteString(buf, fmt.Sprintln(`<table border="0" cellpadding="0" cellspacing="0">`))
 			s.WriteString(buf, fmt.Sprintln(`<tr><td height="auto" width="200px"><span><b>Name</b></span><td height="auto" width="120px"><span><b>Size</b></span></td><td height="auto" width="auto"><span><b>Modification date</b></span></td></tr>`))
 			for _, v := range dlurls {
+				v.Name = template.HTMLEscapeString(v.Name)
 				s.WriteString(buf, fmt.Sprint(`<tr><td height="auto" width="200px"><span><a href="/`, v.Name, `">`, v.Name, `</a><br></span><td height="auto" width="120px"><span >`, v.Size, `</b></span></td><td height="auto" width="auto"><span>`, v.ModTime, `</b></span></td></tr>`))
 			}
 			s.WriteString(buf, fmt.Sprintln("</table><br>"))
-- 
2.43.0


From 8b59542cd6f812cda4a1cc26da0de0ccc38a7dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:52 +0000
Subject: [PATCH 26/31] fix: redirects and errors of the file server must be
 recorded with their own status

---
 tuna/handledownload.go |  5 +++--
 tuna/handleserve.go    |  5 +++--
 tuna/utils.go          | 16 ++++++++++++++++
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/tuna/handledownload.go b/tuna/handledownload.go
index 92f5731..edbd0cf 100644
--- a/tuna/handledownload.go
+++ b/tuna/handledownload.go
@@ -116,8 +116,9 @@ func (s *Server) handleDownload() http.HandlerFunc {
 			w.Header().Set("Content-Type", getMIMEType(path, cfg.Serve.MIMETypes))
 			w.Header().Set("Content-Disposition", "attachement")
 			s.setHeaders(w, cfg.Serve.Headers, false)
-			http.ServeFile(w, r, cfg.Serve.ServeDir+path)
-			s.LogNetwork(200, r)
+			sw := &statusWriter{w, 200}
+			http.ServeFile(sw, r, cfg.Serve.ServeDir+path)
+			s.LogNetwork(sw.status, r)
 		} else {
 
 			// Path wasn't found, so we return a 404 not found error.
diff --git a/tuna/handleserve.go b/tuna/handleserve.go
index 2aee95e..186597e 100644
--- a/tuna/handleserve.go
+++ b/tuna/handleserve.go
@@ -50,8 +50,9 @@ func (s *Server) handleServe() http.HandlerFunc {
 		if _, err := os.Stat(cfg.Serve.ServeDir + path); err == nil {
 			s.setHeaders(w, cfg.Serve.Headers, false)
 			w.Header().Set("Content-Type", getMIMEType(path, cfg.Serve.MIMETypes))
-			http.ServeFile(w, r, cfg.Serve.ServeDir+path)
-			s.LogNetwork(200, r)
+			sw := &statusWriter{w, 200}
+			http.ServeFile(sw, r, cfg.Serve.ServeDir+path)
+			s.LogNetwork(sw.status, r)
 		} else {
 
 			// Path wasn't found, so we return a 404 not found error
diff --git a/tuna/utils.go b/tuna/utils.go
index 1d24871..fdaf8d4 100644
--- a/tuna/utils.go
+++ b/tuna/utils.go
@@ -112,6 +112,22 @@ func getMIMEType(p string, cts MIMETypes) string {
 }
 
 // Copy HTTP header to an existing HTTP header
+// statusWriter remembers the status code of a response
+type statusWriter struct {
+	http.ResponseWriter
+	status int
+}
+
+func (w *statusWriter) WriteHeader(code int) {
+	w.status = code
+	w.ResponseWriter.WriteHeader(code)
+}
+
+// ReadFrom keeps the fast path of the wrapped http.ResponseWriter for copying files
+func (w *statusWriter) ReadFrom(r io.Reader) (int64, error) {
+	return io.Copy(w.ResponseWriter, r)
+}
+
 func copyHeader(dst, src http.Header) {
 	for k, vv := range src {
 		for _, v := range vv {
-- 
2.43.0


From 7cf5ee182a3c46538b62766d174e8d094ad4324b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:53 +0000
Subject: [PATCH 27/31] fix: paths that are not valid UTF-8 must not corrupt
 saved metrics

---
 tuna/metrics.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index 655995f..365d477 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -22,6 +22,7 @@ import (
 	"io"
 	"net/http"
 	"os"
+	"strings"
 	"sync"
 	"time"
 
@@ -45,6 +46,10 @@ type metricsData struct {
 // * The responses for requests based on HTTP status codes
 func (md *metricsData) concat(e int, p string) {
 	if md.enabled {
+
+		// The saved metrics can only hold valid UTF-8
+		p = strings.ToValidUTF8(p, "\uFFFD")
+
 		md.mu.Lock()
 		if md.Paths == nil {
 			md.Paths = make(map[int]map[string]int)
-- 
2.43.0


From 313bac32d80c6db361b8b582208e9e848ac339bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:15 +0000
Subject: [PATCH 28/31] fix: a download page that cannot be sent must not be
 recorded as an error

---
 tuna/handledownload.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tuna/handledownload.go b/tuna/handledownload.go
index edbd0cf..cab7935 100644
--- a/tuna/handledownload.go
+++ b/tuna/handledownload.go
@@ -103,10 +103,13 @@ func (s *Server) handleDownload() http.HandlerFunc {
 				DownloadTable: template.HTML(buf.String()),
 			}
 
-			if err := s.templates.download.Execute(w, data); err != nil {
+			// Compose the page first, so that an error can still be answered as such
+			var page bytes.Buffer
+			if err := s.templates.download.Execute(&page, data); err != nil {
 				s.HandleError(w, r, 500)
 				return
 			}
+			s.WriteString(w, page.String())
 			s.LogNetwork(200, r)
 
 			// If the request path is not the index, and the file does exist in ServeDir
-- 
2.43.0


From c9b290a6849b0482f8d8990e3f5349918dc8a4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:38 +0000
Subject: [PATCH 29/31] fix: a status code below 100 from the upstream no
 longer panics the proxy handler

---
 tuna/handleproxy.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tuna/handleproxy.go b/tuna/handleproxy.go
index 8bc079f..d2e3425 100644
--- a/tuna/handleproxy.go
+++ b/tuna/handleproxy.go
@@ -81,6 +81,14 @@ func (s *Server) handleProxy() http.HandlerFunc {
 			// the new request is executed with a http.RoundTripper.
 			if resp, err := s.Transport.RoundTrip(req); err == nil {
 
+				// A status code below 100 is invalid and cannot be passed on
+				if resp.StatusCode < 100 {
+					err = resp.Body.Close()
+					s.Log(debug.LogError, err)
+					s.HandleError(w, r, 502)
+					return
+				}
+
 				// Proxy back all response headers
 				copyHeader(w.Header(), resp.Header)
 
-- 
2.43.0


From 759f677b3bfb65b56f7370a7aadfbe05656a96ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:28 +0000
Subject: [PATCH 30/31] fix: read the configured paths of static content in a
 fixed order

Methods may configure both /path and /path/, which name the same route. Which
of the two decided whether paths below are served, and with which content
types, depended on the iteration order of a map and changed between starts.
---
 tuna/routes.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/tuna/routes.go b/tuna/routes.go
index f893962..72f2814 100644
--- a/tuna/routes.go
+++ b/tuna/routes.go
@@ -15,6 +15,7 @@
 package tuna
 
 import (
+	"sort"
 	"strings"
 
 	"github.com/redmaner/MaguroHTTP/guard"
@@ -76,8 +77,9 @@ func (s *Server) addRoutesFromConfig() {
 			} else {
 
 				// Loop over each supported method
-				for path, method := range s.Vhosts[vhost].Serve.Methods {
+				for _, path := range servePaths(s.Vhosts[vhost].Serve.Methods) {
 
+					method := s.Vhosts[vhost].Serve.Methods[path]
 					var fallback bool
 					contentType := ";"
 
@@ -153,8 +155,9 @@ func (s *Server) addRoutesFromConfig() {
 		} else {
 			// Normal serve is enabled
 			// Loop over each supported method
-			for path, method := range s.Cfg.Serve.Methods {
+			for _, path := range servePaths(s.Cfg.Serve.Methods) {
 
+				method := s.Cfg.Serve.Methods[path]
 				var fallback bool
 				contentType := ";"
 
@@ -195,3 +198,14 @@ func (s *Server) addRoutesFromConfig() {
 		s.Router.UseMiddleware(router.DefaultHost, s.Cfg.Core.Metrics.Path, router.MiddlewareHandlerFunc(ba.Authenticate))
 	}
 }
+
+// servePaths returns the configured paths in a fixed order, in which /path/ comes after /path. Both
+// name the same route, so that the routes of /path/ replace those that /path has for the same method.
+func servePaths(methods map[string]string) []string {
+	paths := make([]string, 0, len(methods))
+	for path := range methods {
+		paths = append(paths, path)
+	}
+	sort.Strings(paths)
+	return paths
+}
-- 
2.43.0


From 03437cf25bc40600fecd168d3b7c6981fb9d74e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:00 +0000
Subject: [PATCH 31/31] fix: count requests once where a path is configured
 with and without a slash

The limiter of the route was added twice, so that every request to it took two
of the client's budget, and half the configured burst was refused.
---
 tuna/routes.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tuna/routes.go b/tuna/routes.go
index 72f2814..6b75a74 100644
--- a/tuna/routes.go
+++ b/tuna/routes.go
@@ -100,6 +100,11 @@ func (s *Server) addRoutesFromConfig() {
 						s.Router.AddRoute(vhost, path, fallback, method, contentType, s.handleServe())
 					}
 
+					// The middleware of a path that is configured with and without a slash is added once
+					if _, ok := s.Vhosts[vhost].Serve.Methods[path+"/"]; ok && (path == "/" || !fallback) {
+						continue
+					}
+
 					// Add firewall as middleware if enabled
 					if s.Vhosts[vhost].Guard.Firewall.Enabled {
 						s.Router.UseMiddleware(vhost, path, router.MiddlewareHandlerFunc(firewall.BlockHTTP))
@@ -178,6 +183,11 @@ func (s *Server) addRoutesFromConfig() {
 					s.Router.AddRoute(router.DefaultHost, path, fallback, method, contentType, s.handleServe())
 				}
 
+				// The middleware of a path that is configured with and without a slash is added once
+				if _, ok := s.Cfg.Serve.Methods[path+"/"]; ok && (path == "/" || !fallback) {
+					continue
+				}
+
 				// Add firewall as middleware if enabled
 				if s.Cfg.Guard.Firewall.Enabled {
 					s.Router.UseMiddleware(router.DefaultHost, path, router.MiddlewareHandlerFunc(firewall.BlockHTTP))
-- 
2.43.0

