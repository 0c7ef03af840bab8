From c669fae847afd4f3d4cd7a61e82acf903e514362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:30 +0000
Subject: [PATCH 01/76] fix: generate stage and global scoped data once, on
 first use

The condition was inverted, so implicit uses of a stage or global scoped data
key got no value at all. Guard the shared value, too.
---
 data/scope.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/data/scope.go b/data/scope.go
index 4969e47..68f6a9f 100644
--- a/data/scope.go
+++ b/data/scope.go
@@ -155,6 +155,7 @@ type ScopedGenerator struct {
 	cgMux        *sync.RWMutex          // Multi client: client-group, exec-group, workload
 	cgIter       map[uint]uint          //   last client iter
 	cgVals       map[uint][]interface{} //   last client value
+	oneMux       sync.Mutex             // One time: guards last and vals shared by all clients
 }
 
 var _ Generator = &ScopedGenerator{}
@@ -210,6 +211,16 @@ func (s *ScopedGenerator) Call(cnt RunCount) []interface{} {
 		s.cgMux.Unlock()
 		return v
 	}
+	if s.oneTime {
+		s.oneMux.Lock()
+		defer s.oneMux.Unlock()
+		return s.call(cnt)
+	}
+	return s.call(cnt)
+}
+
+// call generates and saves a new value. The caller must hold oneMux for one time scopes.
+func (s *ScopedGenerator) call(cnt RunCount) []interface{} {
 	s.last[s.sno] = cnt[s.sno] // save last run counter value
 	s.vals = s.g.Values(cnt)   // generate new data value
 	return s.vals
@@ -247,9 +258,10 @@ func (s *ScopedGenerator) Values(cnt RunCount) []interface{} {
 
 	// One time scopes: STAGE and GLOBAL
 	if s.oneTime {
-		// @todo guard with mux
-		if s.vals != nil {
-			return s.Call(cnt)
+		s.oneMux.Lock()
+		defer s.oneMux.Unlock()
+		if s.vals == nil {
+			return s.call(cnt) // first use by any client
 		}
 		return s.vals
 	}
-- 
2.43.0


From 1b4b4e13fe3bd0a013166378e6e25315ff3ed4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:31 +0000
Subject: [PATCH 02/76] fix: make the generator of global scoped data keys

The global run level is never greater than itself, so Scope.Copy returned no
generator for global scoped data keys and their values were dropped.
---
 data/scope.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/scope.go b/data/scope.go
index 68f6a9f..47c9aa8 100644
--- a/data/scope.go
+++ b/data/scope.go
@@ -106,8 +106,8 @@ func (s *Scope) Copy(keyName string, rl finch.RunLevel) *ScopedGenerator {
 		finch.Debug("%s: defaults to %s scope", k.Name, k.Scope)
 	}
 
-	prev := s.CopiedAt[keyName] // last time we saw this @d
-	if rl.GreaterThan(prev, k.Scope) {
+	prev, copied := s.CopiedAt[keyName] // last time we saw this @d
+	if !copied || rl.GreaterThan(prev, k.Scope) {
 		s.CopyCount[keyName] += 1
 		id := Id{
 			RunLevel: rl,
-- 
2.43.0


From 5455998452b7988e7d906464fe998af59f699407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:32 +0000
Subject: [PATCH 03/76] fix: do not keep stage scoped data keys for the next
 stage

A later stage with a data key of the same name used the generator and
parameters configured in the earlier stage.
---
 compute/server.go | 2 +-
 data/scope.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/compute/server.go b/compute/server.go
index 8a253d5..3316be8 100644
--- a/compute/server.go
+++ b/compute/server.go
@@ -100,7 +100,7 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 		}
 	}
 
-	s.gds.Reset() // keep data global and stage data, delete the rest
+	s.gds.Reset() // keep global data, delete the rest
 
 	// Create and boot local instance first because if this doesn't work,
 	// then remotes shouldn't work either because they all boot with the
diff --git a/data/scope.go b/data/scope.go
index 47c9aa8..df80424 100644
--- a/data/scope.go
+++ b/data/scope.go
@@ -124,7 +124,7 @@ func (s *Scope) Copy(keyName string, rl finch.RunLevel) *ScopedGenerator {
 
 func (s *Scope) Reset() {
 	for keyName, k := range s.Keys {
-		if k.Scope == finch.SCOPE_STAGE || k.Scope == finch.SCOPE_GLOBAL {
+		if k.Scope == finch.SCOPE_GLOBAL {
 			continue
 		}
 		finch.Debug("delete %s (scope: %s)", keyName, k.Scope)
-- 
2.43.0


From 44f9401b20e84529f61adbe3d0801b2deeaa62d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:33 +0000
Subject: [PATCH 04/76] fix: do not mix up clients of different groups in multi
 client scopes

Client numbers restart at 1 in each client group, so clients with the same
number in different groups overwrote each other's exec-group and workload
scoped values.
---
 data/scope.go | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/data/scope.go b/data/scope.go
index df80424..a710f7d 100644
--- a/data/scope.go
+++ b/data/scope.go
@@ -145,17 +145,17 @@ func (s *Scope) Reset() {
 // care which--to handle either scoped value generator or explicit calls like
 // @d().
 type ScopedGenerator struct {
-	id           Id                     // identify this copy of the real Generator for debugging
-	g            Generator              // real Generator:
-	sno          byte                   //   scope number in RunCount (if singleClient == true)
-	last         RunCount               //   last time value was generated
-	vals         []interface{}          //   last value
-	singleClient bool                   // Single client scopes (typical): STATEMENT, TRX, ITER, CILENT
-	oneTime      bool                   // One time scopes: STAGE and GLOBAL
-	cgMux        *sync.RWMutex          // Multi client: client-group, exec-group, workload
-	cgIter       map[uint]uint          //   last client iter
-	cgVals       map[uint][]interface{} //   last client value
-	oneMux       sync.Mutex             // One time: guards last and vals shared by all clients
+	id           Id                        // identify this copy of the real Generator for debugging
+	g            Generator                 // real Generator:
+	sno          byte                      //   scope number in RunCount (if singleClient == true)
+	last         RunCount                  //   last time value was generated
+	vals         []interface{}             //   last value
+	singleClient bool                      // Single client scopes (typical): STATEMENT, TRX, ITER, CILENT
+	oneTime      bool                      // One time scopes: STAGE and GLOBAL
+	cgMux        *sync.RWMutex             // Multi client: client-group, exec-group, workload
+	cgIter       map[[3]uint]uint          //   last client iter
+	cgVals       map[[3]uint][]interface{} //   last client value
+	oneMux       sync.Mutex                // One time: guards last and vals shared by all clients
 }
 
 var _ Generator = &ScopedGenerator{}
@@ -176,8 +176,8 @@ func NewScopedGenerator(id Id, g Generator) *ScopedGenerator {
 	} else if n <= finch.RunLevelNumber(finch.SCOPE_WORKLOAD) {
 		// Multi client scopes: iter = each <client, iter>
 		s.cgMux = &sync.RWMutex{}
-		s.cgIter = map[uint]uint{}
-		s.cgVals = map[uint][]interface{}{}
+		s.cgIter = map[[3]uint]uint{}
+		s.cgVals = map[[3]uint][]interface{}{}
 	} else if n <= finch.RunLevelNumber(finch.SCOPE_GLOBAL) {
 		// One time scopes
 		s.oneTime = true
@@ -203,7 +203,7 @@ func (s *ScopedGenerator) Call(cnt RunCount) []interface{} {
 		Don't debug or call anything slow/superfluous.
 	*/
 	if s.cgMux != nil { // multi client
-		clientNo := cnt[CLIENT]
+		clientNo := clientId(cnt)
 		v := s.g.Values(cnt)
 		s.cgMux.Lock()
 		s.cgIter[clientNo] = cnt[ITER]
@@ -244,7 +244,7 @@ func (s *ScopedGenerator) Values(cnt RunCount) []interface{} {
 
 	// Multi client scopes: CLIENT_GROUP, EXEC_GROUP, WORKLOAD
 	if s.cgMux != nil {
-		clientNo := cnt[CLIENT]
+		clientNo := clientId(cnt)
 		s.cgMux.RLock()
 		prevIter, ok := s.cgIter[clientNo]
 		if !ok || cnt[ITER] > prevIter {
@@ -270,6 +270,12 @@ func (s *ScopedGenerator) Values(cnt RunCount) []interface{} {
 	return s.g.Values(cnt)
 }
 
+// clientId identifies a client in multi client scopes. Clients are numbered per
+// client group, and client groups per exec group.
+func clientId(cnt RunCount) [3]uint {
+	return [3]uint{cnt[EXEC_GROUP], cnt[CLIENT_GROUP], cnt[CLIENT]}
+}
+
 // RunCount counts execution (or changes) at each level in the order defined
 // by the const below: STATEMENT and up the run levels. Each Client maintains
 // a RunCount that is used by ScopedGenerator.Values to determine when it's
-- 
2.43.0


From 82c82f2850d8de9313b310f692eafed44fa170e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 05/76] fix: prepare statements again after reconnecting

The client kept the prepared statements of the closed connection, so every
execution of one failed and made the client reconnect again, forever.
---
 client/client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client/client.go b/client/client.go
index 5cfe61e..e83325c 100644
--- a/client/client.go
+++ b/client/client.go
@@ -115,6 +115,12 @@ func (c *Client) Connect(ctx context.Context, cerr error, stmtNo int, trxActive
 	}
 
 	if c.conn != nil {
+		for i := range c.ps { // prepared statements are gone with the connection
+			if c.ps[i] != nil {
+				c.ps[i].Close()
+				c.ps[i] = nil
+			}
+		}
 		c.conn.Close()
 		c.conn = nil
 		time.Sleep(ConnectRetryWait)
-- 
2.43.0


From 0ef950798edb1a8b7ffe911a169d89e91e51e76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:48 +0000
Subject: [PATCH 06/76] fix: handle the trx boundary of an idle statement

When the first statement of a trx file was an idle one, the next statement was
counted in the previous trx, or the client crashed if there was none.
---
 client/client.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/client/client.go b/client/client.go
index e83325c..3b14f41 100644
--- a/client/client.go
+++ b/client/client.go
@@ -244,12 +244,6 @@ ITER:
 		trxActive = false
 
 		for i := range c.Statements {
-			// Idle time
-			if c.Statements[i].Idle != 0 {
-				time.Sleep(c.Statements[i].Idle)
-				continue
-			}
-
 			// Is this query the start of a new (finch) trx file? This is not
 			// a MySQL trx (either BEGIN or implicit). It marks finch trx scope
 			// "trx" is a trx file in the config assigned to this client.
@@ -261,6 +255,12 @@ ITER:
 				trxActive = false
 			}
 
+			// Idle time
+			if c.Statements[i].Idle != 0 {
+				time.Sleep(c.Statements[i].Idle)
+				continue
+			}
+
 			// If BEGIN, check TPS rate limiter
 			if c.TPS != nil && c.Statements[i].Begin {
 				<-c.TPS
-- 
2.43.0


From c64f945458869eddb2cb355b319924d18e0d81e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:49 +0000
Subject: [PATCH 07/76] fix: disconnect from MySQL when a client reconnects or
 ends

Closing the client's connection only returned it to the pool, so reconnecting
on error got the same connection (and its open MySQL transaction) again, and
connections stayed open after the stage.
---
 dbconn/factory.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dbconn/factory.go b/dbconn/factory.go
index 67591f9..cb7f1e6 100644
--- a/dbconn/factory.go
+++ b/dbconn/factory.go
@@ -57,6 +57,7 @@ func Make() (*sql.DB, string, error) {
 	if err != nil {
 		return nil, "", err
 	}
+	db.SetMaxIdleConns(0) // really disconnect when a client closes its connection
 	return db, RedactedDSN(f.dsn), nil
 }
 
-- 
2.43.0


From bc8c118cef898563e5aba8befd14fb27f5443d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:50 +0000
Subject: [PATCH 08/76] fix: replace whole data keys only

If one data key was the prefix of another (@d and @d2), the format of the
shorter could be put in place of the longer, depending on map order.
---
 trx/trx.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/trx/trx.go b/trx/trx.go
index 8a67e6f..eb84e98 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -501,16 +501,13 @@ func (f *File) statements() ([]*Statement, error) {
 		}
 	}
 
-	replacements := make([]string, len(dataFormats)*2) // *2 because key + value
-	i := 0
-	for k, v := range dataFormats {
-		replacements[i] = k
-		replacements[i+1] = v
-		i += 2
-	}
-	finch.Debug("replacements: %v", replacements)
-	r := strings.NewReplacer(replacements...)
-	s.Query = r.Replace(query)
+	finch.Debug("replacements: %v", dataFormats)
+	s.Query = DataKeyPattern.ReplaceAllStringFunc(query, func(k string) string {
+		if v, ok := dataFormats[k]; ok {
+			return v
+		}
+		return k
+	})
 
 	// Caller debug prints full Statement
 	return []*Statement{s}, nil
-- 
2.43.0


From 510e9f4d4834e663180114ca25f6ed28f597ff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:51 +0000
Subject: [PATCH 09/76] fix: make row scoped data keys explicit by whole name

If one data key in a CSV template was the prefix of another, the wrong one was
made explicit, or the same one twice.
---
 trx/trx.go | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/trx/trx.go b/trx/trx.go
index eb84e98..95d3d80 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -583,22 +583,17 @@ func Calls(dataKeys []string) []byte {
 // makes @d row scoped because each row will call @d again. This is called
 // when the /*!csv N template */ is being processed (see reCSV).
 func RowScope(keys map[string]bool, csvTemplate string) string {
-	csvDataKeys := DataKeyPattern.FindAllString(csvTemplate, -1)
-KEY:
-	for dataKey := range keys { // row scoped keys
-		for _, k := range csvDataKeys { // all keys in csvTemplate
-			if !strings.HasPrefix(k, dataKey) {
-				continue // not the row scoped key we're looking for
-			}
-			// This is first occurrence of row scoped key in csvTemplate.
-			// Add () suffix if not already set.
-			if !strings.HasSuffix(k, EXPLICIT_CALL_SUFFIX) {
-				csvTemplate = strings.Replace(csvTemplate, k, k+EXPLICIT_CALL_SUFFIX, 1) // 1=only first occurrence
-			}
-			continue KEY // only check/change first occurrence, so this row scoped key is done
+	seen := map[string]bool{}
+	return DataKeyPattern.ReplaceAllStringFunc(csvTemplate, func(k string) string { // all keys in csvTemplate
+		dataKey := strings.TrimSuffix(k, EXPLICIT_CALL_SUFFIX)
+		if !keys[dataKey] || seen[dataKey] {
+			return k // not a row scoped key, or not its first occurrence
 		}
-	}
-	return csvTemplate
+		// This is first occurrence of row scoped key in csvTemplate.
+		// Add () suffix if not already set.
+		seen[dataKey] = true
+		return dataKey + EXPLICIT_CALL_SUFFIX
+	})
 }
 
 func cfgKey(s string) string {
-- 
2.43.0


From 3bbbf183d66a13f2364b79d1e6fd12bee9fb400b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:53 +0000
Subject: [PATCH 10/76] fix: keep percent signs in statements

Statements that are not prepared are formatted with the values of their data
keys (even if they have none), so a percent sign (LIKE 'a%', @n % 10) broke the
statement sent to MySQL. %% is still sent as %.
---
 trx/trx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trx/trx.go b/trx/trx.go
index 95d3d80..81df13f 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -216,6 +216,7 @@ func (f *File) line(line string) error {
 
 var reKeyVal = regexp.MustCompile(`([\w_-]+)(?:\:\s*(\w+))?`)
 var reCSV = regexp.MustCompile(`\/\*\!csv\s+(\d+)\s+(.+)\*\/`)
+var percent = regexp.MustCompile(`%%?`) // %% is already escaped
 var reFirstWord = regexp.MustCompile(`^(\w+)`)
 
 func (f *File) statements() ([]*Statement, error) {
@@ -421,6 +422,9 @@ func (f *File) statements() ([]*Statement, error) {
 	// ----------------------------------------------------------------------
 	// Data keys: @d -> data.Generator
 	// ----------------------------------------------------------------------
+	if !s.Prepare {
+		query = percent.ReplaceAllString(query, "%%") // client formats the query with the values
+	}
 	dataKeys := DataKeyPattern.FindAllString(query, -1)
 	finch.Debug("data keys: %v", dataKeys)
 	if len(dataKeys) == 0 {
-- 
2.43.0


From c17ee9b7870eea9fe7da0bff6b0d67cf9d180554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:53 +0000
Subject: [PATCH 11/76] fix: end CSV template at the first end of comment

---
 trx/trx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trx/trx.go b/trx/trx.go
index 81df13f..7765713 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -215,7 +215,7 @@ func (f *File) line(line string) error {
 }
 
 var reKeyVal = regexp.MustCompile(`([\w_-]+)(?:\:\s*(\w+))?`)
-var reCSV = regexp.MustCompile(`\/\*\!csv\s+(\d+)\s+(.+)\*\/`)
+var reCSV = regexp.MustCompile(`\/\*\!csv\s+(\d+)\s+(.+?)\*\/`)
 var percent = regexp.MustCompile(`%%?`) // %% is already escaped
 var reFirstWord = regexp.MustCompile(`^(\w+)`)
 
-- 
2.43.0


From 2d0f8bef025ba1447d3b542452067be1940198dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:54 +0000
Subject: [PATCH 12/76] fix: do not crash on rows limit zero

---
 trx/trx.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trx/trx.go b/trx/trx.go
index 7765713..78924ad 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -282,7 +282,9 @@ func (f *File) statements() ([]*Statement, error) {
 				}
 			}
 			finch.Debug("write limit: %d rows (offset %d)", max, offset)
-			s.Limit = limit.Or(s.Limit, limit.NewRows(int64(max), int64(offset)))
+			if lm := limit.NewRows(int64(max), int64(offset)); lm != nil { // nil if max is zero (no limit)
+				s.Limit = limit.Or(s.Limit, lm)
+			}
 		case "table-size", "database-size":
 			if len(m) != 3 {
 				return nil, fmt.Errorf("invalid %s modifier: split %d fields, expected 3: %s", m[0], len(m), mod)
-- 
2.43.0


From 73e62fbe3de00e31e08104c94d65ca82d38e07c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:55 +0000
Subject: [PATCH 13/76] fix: measure all tables of the database for a database
 size limit

The result set was closed before it was read, so there was no table to analyze
and the statement was stopped at the first check. And only one table counted.
---
 limit/data.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/limit/data.go b/limit/data.go
index 0d7d800..6ad69b6 100644
--- a/limit/data.go
+++ b/limit/data.go
@@ -184,15 +184,14 @@ func (lm *Size) More(conn *sql.Conn) bool {
 		lm.query = "SELECT COALESCE(data_length + index_length, 0) AS bytes FROM information_schema.TABLES WHERE "
 		if lm.db != "" {
 			log.Printf("Database size limit: %s %s (progress report every %d%%)", lm.db, lm.maxStr, lm.r)
-			lm.query += "table_schema='" + lm.db + "'"
+			lm.query = "SELECT COALESCE(SUM(data_length + index_length), 0) AS bytes FROM information_schema.TABLES WHERE table_schema='" + lm.db + "'"
 
 			var tbls []string
-			rows, err := conn.QueryContext(ctx, "SHOW FULL TABLES")
+			rows, err := conn.QueryContext(ctx, "SHOW FULL TABLES FROM `"+lm.db+"`")
 			if err != nil {
 				log.Printf("Error running SHOW FULL TABLES: %s", err)
 				return false
 			}
-			rows.Close()
 			for rows.Next() {
 				var name, base string
 				err = rows.Scan(&name, &base)
@@ -202,8 +201,9 @@ func (lm *Size) More(conn *sql.Conn) bool {
 				if base != "BASE TABLE" {
 					continue
 				}
-				tbls = append(tbls, name)
+				tbls = append(tbls, "`"+lm.db+"`.`"+name+"`")
 			}
+			rows.Close()
 			lm.analyze = "ANALYZE TABLE " + strings.Join(tbls, ", ")
 		} else {
 			log.Printf("Table size limit: %s %s (progress report every %d%%)", lm.tbl, lm.maxStr, lm.r)
-- 
2.43.0


From 9bcc6c8e19f3665dea19d4b26d6f9941c3097af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:11 +0000
Subject: [PATCH 14/76] fix: allow a database-qualified table for a table size
 limit

The docs allow it, but the size query looked for a table named db.table, found
none, and stopped the statement at the first check.
---
 limit/data.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/limit/data.go b/limit/data.go
index 6ad69b6..10120bd 100644
--- a/limit/data.go
+++ b/limit/data.go
@@ -207,12 +207,14 @@ func (lm *Size) More(conn *sql.Conn) bool {
 			lm.analyze = "ANALYZE TABLE " + strings.Join(tbls, ", ")
 		} else {
 			log.Printf("Table size limit: %s %s (progress report every %d%%)", lm.tbl, lm.maxStr, lm.r)
-			err := conn.QueryRowContext(ctx, "SELECT DATABASE()").Scan(&lm.db)
-			if err != nil {
+			tbl := lm.tbl
+			if i := strings.Index(tbl, "."); i > 0 { // database-qualified
+				lm.db, tbl = tbl[:i], tbl[i+1:]
+			} else if err := conn.QueryRowContext(ctx, "SELECT DATABASE()").Scan(&lm.db); err != nil {
 				log.Printf("Error getting current database: %s", err)
 				return false
 			}
-			lm.query += "table_schema='" + lm.db + "' AND table_name='" + lm.tbl + "'"
+			lm.query += "table_schema='" + lm.db + "' AND table_name='" + tbl + "'"
 			lm.analyze = "ANALYZE TABLE " + lm.tbl
 		}
 		finch.Debug(lm.query)
-- 
2.43.0


From e62af8569d3a5428a545bc4ebc2a5fec94f7a376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:05 +0000
Subject: [PATCH 15/76] fix: save time columns as MySQL date and time literals

---
 data/column.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/data/column.go b/data/column.go
index bebb3ae..5e60213 100644
--- a/data/column.go
+++ b/data/column.go
@@ -5,6 +5,7 @@ package data
 import (
 	"bytes"
 	"database/sql"
+	"time"
 
 	"github.com/square/finch"
 )
@@ -53,6 +54,9 @@ func (g *Column) Scan(any interface{}) error {
 		}
 		g.bytes.Reset()
 		g.bytes.Write(any.([]byte))
+	case time.Time:
+		g.useBytes = false // parsed by driver (parseTime=true); save as MySQL literal
+		g.val = mysqlTime(any.(time.Time))
 	default:
 		g.useBytes = false // not reference; copy value
 		g.val = any
@@ -60,6 +64,14 @@ func (g *Column) Scan(any interface{}) error {
 	return nil
 }
 
+// mysqlTime returns a MySQL date and time literal.
+func mysqlTime(t time.Time) string {
+	if t.IsZero() {
+		return "0000-00-00 00:00:00"
+	}
+	return t.Format("2006-01-02 15:04:05.999999")
+}
+
 func (g *Column) Values(_ RunCount) []interface{} {
 	if g.useBytes {
 		return []interface{}{g.bytes.String()}
-- 
2.43.0


From 1bbcdb453baa394a6a8b74b266552e45dde8fd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:21 +0000
Subject: [PATCH 16/76] fix: send saved NULL columns as NULL in text statements

---
 data/column.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/data/column.go b/data/column.go
index 5e60213..7ada516 100644
--- a/data/column.go
+++ b/data/column.go
@@ -5,6 +5,7 @@ package data
 import (
 	"bytes"
 	"database/sql"
+	"database/sql/driver"
 	"time"
 
 	"github.com/square/finch"
@@ -57,6 +58,9 @@ func (g *Column) Scan(any interface{}) error {
 	case time.Time:
 		g.useBytes = false // parsed by driver (parseTime=true); save as MySQL literal
 		g.val = mysqlTime(any.(time.Time))
+	case nil:
+		g.useBytes = false
+		g.val = null{}
 	default:
 		g.useBytes = false // not reference; copy value
 		g.val = any
@@ -64,6 +68,15 @@ func (g *Column) Scan(any interface{}) error {
 	return nil
 }
 
+// null is a NULL column value: keyword NULL in the text of a SQL statement, nil
+// for a SQL parameter.
+type null struct{}
+
+var _ driver.Valuer = null{}
+
+func (null) String() string               { return "NULL" }
+func (null) Value() (driver.Value, error) { return nil, nil }
+
 // mysqlTime returns a MySQL date and time literal.
 func mysqlTime(t time.Time) string {
 	if t.IsZero() {
-- 
2.43.0


From d7d19454e09abd59b8bd5e2fbf8422d3495a739d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:26 +0000
Subject: [PATCH 17/76] fix: handle errors while receiving a result set

---
 client/client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index 3b14f41..46e2372 100644
--- a/client/client.go
+++ b/client/client.go
@@ -308,7 +308,13 @@ ITER:
 						}
 					}
 				}
-				rows.Close()
+				// Error while receiving the rows (deadlock, killed, lost connection, etc.)
+				if err = rows.Close(); err == nil {
+					err = rows.Err()
+				}
+				if err != nil {
+					goto ERROR
+				}
 			} else {
 				//
 				// Write or query without result set (e.g. BEGIN, SET, etc.)
-- 
2.43.0


From c260eb95ae0475a06d283f362e1817bf21ffb331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:27 +0000
Subject: [PATCH 18/76] fix: roll back when the last query of a trx file fails

---
 client/client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/client/client.go b/client/client.go
index 46e2372..b991dde 100644
--- a/client/client.go
+++ b/client/client.go
@@ -251,8 +251,6 @@ ITER:
 				rc[data.TRX] += 1
 				trxNo += 1
 				trxActive = true
-			} else if c.Data[i].TrxBoundary&trx.END != 0 {
-				trxActive = false
 			}
 
 			// Idle time
@@ -354,6 +352,9 @@ ITER:
 					c.Data[i].InsertId.Scan(id)
 				}
 			} // execute
+			if c.Data[i].TrxBoundary&trx.END != 0 {
+				trxActive = false // after last query in trx file, else an error on it isn't rolled back
+			}
 			continue // next query
 
 		ERROR:
-- 
2.43.0


From 1318462a5647f55743a759150f5a4457851ccc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:28 +0000
Subject: [PATCH 19/76] fix: keep the connection on duplicate key errors, as
 documented

---
 finch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finch.go b/finch.go
index 9148000..1f0fa34 100644
--- a/finch.go
+++ b/finch.go
@@ -194,7 +194,7 @@ const (
 
 var MySQLErrorHandling = map[uint16]byte{
 	1046: Eabort,                // no database selected
-	1062: Eabort,                // duplicate key
+	1062: Econtinue,             // duplicate key
 	1064: Eabort,                // You have an error in your SQL syntax
 	1146: Eabort,                // table doesn't exist
 	1205: Erollback | Econtinue, // lock wait timeout; no automatic rollback (innodb_rollback_on_timeout=OFF by default)
-- 
2.43.0


From c3087dde4b7e13f0fd280b375190ab679a34d398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:47 +0000
Subject: [PATCH 20/76] fix: keep minimum response time when combining with
 empty statistics

---
 stats/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stats/stats.go b/stats/stats.go
index 3e8ea3f..55a0dbb 100644
--- a/stats/stats.go
+++ b/stats/stats.go
@@ -125,7 +125,7 @@ func (s *Stats) Combine(c *Stats) {
 		for j := range s.Buckets[i] {
 			s.Buckets[i][j] += c.Buckets[i][j]
 		}
-		if c.Min[i] < s.Min[i] || s.N[i] == 0 {
+		if c.N[i] > 0 && (c.Min[i] < s.Min[i] || s.N[i] == 0) { // no min if no events
 			s.Min[i] = c.Min[i]
 		}
 		if c.Max[i] > s.Max[i] {
-- 
2.43.0


From ce835f6850335bc8dbd616104f0ee52e2dbf87d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:47 +0000
Subject: [PATCH 21/76] fix: do not keep old error counts when copying
 statistics

---
 stats/stats.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stats/stats.go b/stats/stats.go
index 55a0dbb..342376b 100644
--- a/stats/stats.go
+++ b/stats/stats.go
@@ -112,6 +112,11 @@ func (s *Stats) Copy(c *Stats) {
 		s.Max[i] = c.Max[i]
 		s.N[i] = c.N[i]
 	}
+	for k := range s.Errors {
+		if _, ok := c.Errors[k]; !ok {
+			delete(s.Errors, k)
+		}
+	}
 	for k, v := range c.Errors {
 		s.Errors[k] = v
 	}
-- 
2.43.0


From e5ad641fe3fbf92b1a9a46c22898898bb38d0a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:55 +0000
Subject: [PATCH 22/76] fix: do not starve clients when combining rate limits

---
 limit/rate.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/limit/rate.go b/limit/rate.go
index 0df3de7..4dab193 100644
--- a/limit/rate.go
+++ b/limit/rate.go
@@ -133,23 +133,24 @@ func (lm *and) Stop() {
 }
 
 func (lm *and) run() {
-	a := false
-	b := false
+	// Wait only for the limiter that hasn't allowed yet. Taking from the other again
+	// wastes what it allows, which might be shared with other clients, and loses
+	// this limiter's turn among them.
+	a, b := lm.a.Allow(), lm.b.Allow()
 	for {
 		select {
-		case <-lm.a.Allow():
-			a = true
-		case <-lm.b.Allow():
-			b = true
+		case <-a:
+			a = nil
+		case <-b:
+			b = nil
 		}
-		if a && b {
+		if a == nil && b == nil {
 			select {
 			case lm.c <- true:
 			default:
 				// dropped
 			}
-			a = false
-			b = false
+			a, b = lm.a.Allow(), lm.b.Allow()
 		}
 	}
 }
-- 
2.43.0


From 354faa5263eae24861df5075ef75673319964538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:56 +0000
Subject: [PATCH 23/76] fix: interpolate each variable and human number as a
 whole, once

---
 config/config.go | 115 ++++++++++++++++++++++++-----------------------
 1 file changed, 59 insertions(+), 56 deletions(-)

diff --git a/config/config.go b/config/config.go
index d29dd95..5a3cbc9 100644
--- a/config/config.go
+++ b/config/config.go
@@ -193,85 +193,88 @@ func FileExists(filePath string) bool {
 	return err == nil
 }
 
-var varRE = []*regexp.Regexp{
-	regexp.MustCompile(`\${([^}]+)}`),  // ${param.foo} for "hello${param.foo}bar"
-	regexp.MustCompile(`\$([^\s"']+)`), // $param.foo for standalone value
-}
-var reHumanNumber = regexp.MustCompile(`([\d,]*\d+(?i:[MKGBI]*))`) // 1M or 1,000,000 -> 1000000
+var varRE = regexp.MustCompile(`\${([^}]+)}` + // ${param.foo} for "hello${param.foo}bar"
+											`|\$([^\s"'$]+)`) // $param.foo for standalone value
+var reHumanNumber = regexp.MustCompile(`(?:\d{1,3}(?:,\d{3})+|\d+)(?i:[MKGBI]*)`) // 1M or 1,000,000 -> 1000000
 var reAllDigits = regexp.MustCompile(`^\d+$`)
 
 // Vars changes $params.foo and $FOO to param values and environment variable
 // values, respectively, and human numbers to integers (1k -> 1000).
 // "${var}" is also valid but YAML requires string quotes around {}.
 func Vars(s string, params map[string]string, numbers bool) (string, error) {
-	for _, r := range varRE {
-		m := r.FindAllStringSubmatch(s, -1)
-		if len(m) == 0 {
-			continue
+	// Every variable is replaced where it is, once: a variable can be a prefix of
+	// another, and $ in a value is not a variable.
+	var sb strings.Builder
+	pos := 0
+	for _, v := range varRE.FindAllStringSubmatchIndex(s, -1) {
+		p := ""
+		if v[2] >= 0 {
+			p = s[v[2]:v[3]] // ${p}
+		} else {
+			p = s[v[4]:v[5]] // $p
 		}
-		rep := make([]string, 0, len(m)*2)
-		for i := range m {
-			v := m[i]
-			//p := strings.Trim(v[1], "{}")
-			p := v[1]
-			switch {
-			case strings.HasPrefix(p, "params."):
-				k := strings.TrimPrefix(p, "params.")
-				val, ok := params[k]
-				if !ok {
-					return "", fmt.Errorf("%s not defined (is it spelled correctly?)", p)
-				}
-				rep = append(rep, v[0], val)
-				finch.Debug("param: %s -> %v (user-defined)", s, rep)
-			case strings.HasPrefix(p, "sys."):
-				k := strings.TrimPrefix(p, "sys.")
-				val, ok := finch.SystemParams[k]
-				if !ok {
-					return "", fmt.Errorf("%s not defined (is it spelled correctly?)", p)
-				}
-				rep = append(rep, v[0], val)
-				finch.Debug("param: %s -> %v (built-in)", s, rep)
-			default:
-				val, ok := os.LookupEnv(p)
-				if !ok {
-					return "", fmt.Errorf("environment variable %s not set (is it spelled correctly?)", p)
-				}
-				rep = append(rep, v[0], val)
-				finch.Debug("param: %s -> %v (env var)", s, rep)
+		var val string
+		var ok bool
+		switch {
+		case strings.HasPrefix(p, "params."):
+			val, ok = params[strings.TrimPrefix(p, "params.")]
+			if !ok {
+				return "", fmt.Errorf("%s not defined (is it spelled correctly?)", p)
+			}
+			finch.Debug("param: %s -> %v (user-defined)", p, val)
+		case strings.HasPrefix(p, "sys."):
+			val, ok = finch.SystemParams[strings.TrimPrefix(p, "sys.")]
+			if !ok {
+				return "", fmt.Errorf("%s not defined (is it spelled correctly?)", p)
+			}
+			finch.Debug("param: %s -> %v (built-in)", p, val)
+		default:
+			val, ok = os.LookupEnv(p)
+			if !ok {
+				return "", fmt.Errorf("environment variable %s not set (is it spelled correctly?)", p)
 			}
+			finch.Debug("param: %s -> %v (env var)", p, val)
 		}
-		r := strings.NewReplacer(rep...)
-		s = r.Replace(s)
+		sb.WriteString(s[pos:v[0]])
+		sb.WriteString(val)
+		pos = v[1]
 	}
+	sb.WriteString(s[pos:])
+	s = sb.String()
 
 	if !numbers {
 		return s, nil
 	}
 
 	// Look for human numbers like 1k and 1,000
-	m := reHumanNumber.FindAllStringSubmatch(s, -1)
-	if len(m) == 0 {
-		return s, nil // no human numbers
-	}
-	rep := []string{}
-	for i := range m {
+	sb.Reset()
+	pos = 0
+	for _, m := range reHumanNumber.FindAllStringIndex(s, -1) {
 		// To keep the regex simple, reHumanNumber also matches ints like 1000,
 		// but don't waste time parsing something that's already machine number.
-		if reAllDigits.MatchString(m[i][0]) {
+		n := s[m[0]:m[1]]
+		if reAllDigits.MatchString(n) {
+			continue
+		}
+		// Part of a word is not a number: 5ms, us-east-1b, t1k
+		if (m[0] > 0 && wordChar(s[m[0]-1])) || (m[1] < len(s) && wordChar(s[m[1]])) {
 			continue
 		}
-		d, err := human.ParseBytes(m[i][1])
+		d, err := human.ParseBytes(n)
 		if err != nil {
-			return "", fmt.Errorf("invalid human-readable number: %s: %s", m[i][1], err)
+			return "", fmt.Errorf("invalid human-readable number: %s: %s", n, err)
 		}
-		rep = append(rep, m[i][0], strconv.FormatUint(d, 10))
+		finch.Debug("var: %s -> %d", n, d)
+		sb.WriteString(s[pos:m[0]])
+		sb.WriteString(strconv.FormatUint(d, 10))
+		pos = m[1]
 	}
-	if len(rep) == 0 { // all machine numbers (see comment above)
-		return s, nil
-	}
-	finch.Debug("var: %s -> %v", s, rep)
-	r := strings.NewReplacer(rep...)
-	return r.Replace(s), nil
+	sb.WriteString(s[pos:])
+	return sb.String(), nil
+}
+
+func wordChar(c byte) bool {
+	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80 || strings.IndexByte("_-./", c) >= 0
 }
 
 // setBool sets c to the value of b if c is nil (not set). Pointers are required
-- 
2.43.0


From 745d4a7c75c87cf048b1ec3510afd2cf4ff55e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:57 +0000
Subject: [PATCH 24/76] fix: interpolate params that use other params
 independent of map order

---
 config/file.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/config/file.go b/config/file.go
index 60bd355..aeb8ec2 100644
--- a/config/file.go
+++ b/config/file.go
@@ -107,13 +107,29 @@ func (c *Stage) CommandLine(dsn, db string) {
 func (c *Stage) Vars() error {
 	var err error
 
-	// First interpolate the params before they're used in other config vars
-	for k, v := range c.Params {
-		c.Params[k], err = Vars(v, c.Params, true)
-		if err != nil {
-			return fmt.Errorf("in params: %s", err)
+	// First interpolate the params before they're used in other config vars.
+	// Params can use other params, so repeat until all are interpolated.
+	params := make(map[string]string, len(c.Params))
+	for n := -1; n < len(params); {
+		n = len(params)
+		for k, v := range c.Params {
+			if _, ok := params[k]; ok {
+				continue
+			}
+			val, e := Vars(v, params, true)
+			if e != nil {
+				err = e // not interpolated yet or not defined
+				continue
+			}
+			params[k] = val
 		}
 	}
+	if len(params) < len(c.Params) {
+		return fmt.Errorf("in params: %s", err)
+	}
+	for k, v := range params {
+		c.Params[k] = v
+	}
 
 	// Interpolate $params.var in other config vars
 	c.Name, err = Vars(c.Name, c.Params, false)
-- 
2.43.0


From 6637e40215392729ebff2b781ea68b4339b22517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:58 +0000
Subject: [PATCH 25/76] fix: interpolate iter, hostname, and socket values

---
 config/file.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/config/file.go b/config/file.go
index aeb8ec2..08668eb 100644
--- a/config/file.go
+++ b/config/file.go
@@ -453,6 +453,18 @@ func (c *ClientGroup) Vars(params map[string]string) error {
 	if err != nil {
 		return err
 	}
+	c.Iter, err = Vars(c.Iter, params, true)
+	if err != nil {
+		return err
+	}
+	c.IterClients, err = Vars(c.IterClients, params, true)
+	if err != nil {
+		return err
+	}
+	c.IterExecGroup, err = Vars(c.IterExecGroup, params, true)
+	if err != nil {
+		return err
+	}
 	c.QPS, err = Vars(c.QPS, params, true)
 	if err != nil {
 		return err
@@ -556,6 +568,10 @@ func (c *MySQL) Vars(params map[string]string) error {
 	if err != nil {
 		return err
 	}
+	c.Hostname, err = Vars(c.Hostname, params, false)
+	if err != nil {
+		return err
+	}
 	c.MyCnf, err = Vars(c.MyCnf, params, false)
 	if err != nil {
 		return err
@@ -572,6 +588,10 @@ func (c *MySQL) Vars(params map[string]string) error {
 	if err != nil {
 		return err
 	}
+	c.Socket, err = Vars(c.Socket, params, false)
+	if err != nil {
+		return err
+	}
 	c.TimeoutConnect, err = Vars(c.TimeoutConnect, params, false)
 	if err != nil {
 		return err
-- 
2.43.0


From 210b11bb7ecb03e469caf0b9bf00991ff9835cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:46 +0000
Subject: [PATCH 26/76] fix: let --param override stage params, with or without
 base params

---
 config/config.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/config/config.go b/config/config.go
index 5a3cbc9..d8dc432 100644
--- a/config/config.go
+++ b/config/config.go
@@ -82,16 +82,6 @@ func Load(stageFiles []string, kvparams []string, dsn, db string) ([]Stage, erro
 				finch.Debug("base: none in %s", dir)
 			}
 
-			// --param foo=bar on command line overrides .params in stage files
-			if len(b.Params) > 0 {
-				if b.Params == nil {
-					b.Params = map[string]string{}
-				}
-				for k, v := range params {
-					b.Params[k] = v
-				}
-			}
-
 			base[dir] = b
 		}
 
@@ -115,6 +105,14 @@ func Load(stageFiles []string, kvparams []string, dsn, db string) ([]Stage, erro
 		// Set stage with defaults (base)
 		f.Stage.With(b)
 
+		// --param foo=bar on command line overrides .params in stage files
+		if len(params) > 0 && f.Stage.Params == nil {
+			f.Stage.Params = map[string]string{}
+		}
+		for k, v := range params {
+			f.Stage.Params[k] = v
+		}
+
 		// --dsn and --database on command line override config files
 		f.Stage.CommandLine(dsn, db)
 
-- 
2.43.0


From 53fa5aa50cbcc6df482b3e902a09569471c690d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:46 +0000
Subject: [PATCH 27/76] fix: let stage stats override base stats

---
 config/file.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/config/file.go b/config/file.go
index 08668eb..42ca099 100644
--- a/config/file.go
+++ b/config/file.go
@@ -68,8 +68,10 @@ func (c *Stage) With(b Base) {
 
 	// Stats has a map, so copy in all fields manually
 	c.Stats.Disable = setBool(c.Stats.Disable, b.Stats.Disable)
-	c.Stats.Freq = b.Stats.Freq
-	if len(b.Stats.Report) > 0 {
+	if c.Stats.Freq == "" {
+		c.Stats.Freq = b.Stats.Freq
+	}
+	if len(c.Stats.Report) == 0 && len(b.Stats.Report) > 0 {
 		c.Stats.Report = map[string]map[string]string{}
 		for r := range b.Stats.Report {
 			c.Stats.Report[r] = map[string]string{}
-- 
2.43.0


From d5bdfcc6827e432289f3f7703331243e4b32538a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:04 +0000
Subject: [PATCH 28/76] fix: do not run disabled stages

---
 config/config.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/config/config.go b/config/config.go
index d8dc432..aa3b280 100644
--- a/config/config.go
+++ b/config/config.go
@@ -58,7 +58,7 @@ func Load(stageFiles []string, kvparams []string, dsn, db string) ([]Stage, erro
 		params[f[0]] = f[1]
 	}
 
-	for n, fileName := range stageFiles {
+	for _, fileName := range stageFiles {
 		// Load base file (_all.yaml) once for the dir, if it exists
 		dir := filepath.Dir(fileName)
 		b, ok := base[dir]
@@ -96,7 +96,6 @@ func Load(stageFiles []string, kvparams []string, dsn, db string) ([]Stage, erro
 		}
 		f := &stageFile{Stage: Stage{
 			File: absFile,
-			N:    uint(n + 1),
 		}}
 		if err := yaml.UnmarshalStrict(bytes, f); err != nil {
 			return nil, fmt.Errorf("cannot decode YAML in %s: %s", fileName, err)
@@ -130,10 +129,14 @@ func Load(stageFiles []string, kvparams []string, dsn, db string) ([]Stage, erro
 		if err := f.Stage.Validate(); err != nil {
 			return nil, fmt.Errorf("%s invalid: %s", fileName, err)
 		}
+		os.Chdir(cwd)
+		if f.Stage.Disable {
+			finch.Debug("stage %s disabled", f.Stage.Name)
+			continue
+		}
+		f.Stage.N = uint(len(stages) + 1)
 		stages = append(stages, f.Stage)
 		finch.Debug("%+v", f.Stage)
-
-		os.Chdir(cwd)
 	}
 	return stages, nil
 }
-- 
2.43.0


From 9776a4830f460baf8e3d33ad4aa2791eb67d3d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:06 +0000
Subject: [PATCH 29/76] fix: run one instance when instances is zero

---
 config/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/file.go b/config/file.go
index 42ca099..48c503a 100644
--- a/config/file.go
+++ b/config/file.go
@@ -317,7 +317,7 @@ func (c *Compute) Validate() error {
 	if err := parseInt(c.Instances); err != nil {
 		return fmt.Errorf("instances: '%s' is not an integer: %s", c.Instances, err)
 	}
-	if c.Instances == "" {
+	if finch.Uint(c.Instances) == 0 { // not set or zero
 		c.Instances = "1"
 	}
 	return nil
-- 
2.43.0


From 7a869a39d22d644da28177a9bb1c72b3162f2e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:22 +0000
Subject: [PATCH 30/76] fix: stop all clients when a data size limit is reached

---
 limit/data.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/limit/data.go b/limit/data.go
index 10120bd..16aaf5a 100644
--- a/limit/data.go
+++ b/limit/data.go
@@ -132,6 +132,7 @@ type Size struct {
 	r       uint    // report p every r%
 	t       time.Time
 	bytes   uint64
+	reached bool // measured size >= max, stop all clients
 	*sync.Mutex
 }
 
@@ -223,6 +224,10 @@ func (lm *Size) More(conn *sql.Conn) bool {
 		lm.t = time.Now()
 	}
 
+	if lm.reached {
+		return false // measured by another client
+	}
+
 	// Every few calls, run ANALYZE TABLE to update the stats, then fech latest size
 	lm.n++
 	if lm.n%lm.m != 0 {
@@ -255,5 +260,6 @@ func (lm *Size) More(conn *sql.Conn) bool {
 		lm.bytes = bytes
 	}
 
-	return bytes < lm.max
+	lm.reached = bytes >= lm.max
+	return !lm.reached
 }
-- 
2.43.0


From f6d30215fc13084c4bb0a63ce7eadde79aa24315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:29 +0000
Subject: [PATCH 31/76] fix: report every percentile, also several in one
 bucket or in any order

---
 stats/stats.go | 54 ++++++++++++++++++++++++--------------------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/stats/stats.go b/stats/stats.go
index 342376b..c22c7bb 100644
--- a/stats/stats.go
+++ b/stats/stats.go
@@ -148,36 +148,34 @@ func (s Stats) Percentiles(eventType byte, p []float64) (q []uint64) {
 		return []uint64{}
 	}
 	q = make([]uint64, len(p)) // returned ^ approximate percentiles
-	n := uint64(0)             // running total event count
-	f := 0.0                   // running total frequency (percentile per bucket)
-	j := 0                     // index in p[] and q[]
-	for i := range s.Buckets[eventType] {
-		n += s.Buckets[eventType][i]
-		f = float64(n) / float64(s.N[eventType]) * 100
-		// i    f     p[j]   Bucket[i]
-		// ---  ----  -----  -----------------
-		// 100  94.1         500100 (500.1 ms)
-		// 101  95.7         502300 (502.3 ms)
-		// 102  96.0  95.0
-		//fmt.Printf("at %d n = %d, f = %f, p = %f ap = %f\n", i, n, f, p[j], base*math.Pow(factor, float64(i)))
-		if f >= p[j] {
-			q[j] = uint64(base * math.Pow(factor, float64(i))) // high value
+	for j := range p {
+		n := uint64(0) // running total event count
+		f := 0.0       // running total frequency (percentile per bucket)
+		for i := range s.Buckets[eventType] {
+			n += s.Buckets[eventType][i]
+			f = float64(n) / float64(s.N[eventType]) * 100
+			// i    f     p[j]   Bucket[i]
+			// ---  ----  -----  -----------------
+			// 100  94.1         500100 (500.1 ms)
+			// 101  95.7         502300 (502.3 ms)
+			// 102  96.0  95.0
+			//fmt.Printf("at %d n = %d, f = %f, p = %f ap = %f\n", i, n, f, p[j], base*math.Pow(factor, float64(i)))
+			if n > 0 && f >= p[j] {
+				q[j] = uint64(base * math.Pow(factor, float64(i))) // high value
 
-			intP, _ := math.Modf(p[j])
-			intF, _ := math.Modf(f)
-			if intP != intF && i > 0 {
-				// Take midpoint value between two whole percentiles like P45<->P60
-				// to obtain a more accurate P between them, like P50 in this example.
-				// q[j] is already high value, so get low value to calc midpoint.
-				lowValue := uint64(base * math.Pow(factor, float64(i-1)))
-				q[j] = (q[j] + lowValue) / 2 // midpoint
-			} else if i == 0 {
-				q[j] = uint64(base * math.Pow(factor, 0.0)) // first, lowest bucket
+				intP, _ := math.Modf(p[j])
+				intF, _ := math.Modf(f)
+				if intP != intF && i > 0 {
+					// Take midpoint value between two whole percentiles like P45<->P60
+					// to obtain a more accurate P between them, like P50 in this example.
+					// q[j] is already high value, so get low value to calc midpoint.
+					lowValue := uint64(base * math.Pow(factor, float64(i-1)))
+					q[j] = (q[j] + lowValue) / 2 // midpoint
+				} else if i == 0 {
+					q[j] = uint64(base * math.Pow(factor, 0.0)) // first, lowest bucket
+				}
+				break // next p[]
 			}
-			if j == len(q)-1 { // stop early once all p[] found
-				break
-			}
-			j++ // find next p[]
 		}
 	}
 	return // q
-- 
2.43.0


From e515cb4db91a3587f162696a964b4e4477f9a03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:32 +0000
Subject: [PATCH 32/76] fix: accept percentiles like P999 as documented

---
 stats/reporter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stats/reporter.go b/stats/reporter.go
index 273204c..71df5bc 100644
--- a/stats/reporter.go
+++ b/stats/reporter.go
@@ -110,6 +110,12 @@ func ParsePercentiles(pCSV string) ([]string, []float64, error) {
 		if err != nil {
 			return nil, nil, fmt.Errorf("invalid percentile: %s: %s", pStr, err)
 		}
+		if f > 100.0 && strings.HasPrefix(pStr, "99") && !strings.Contains(pStr, ".") {
+			f, err = strconv.ParseFloat("99."+pStr[2:], 64) // P999 -> 99.9
+			if err != nil {
+				return nil, nil, fmt.Errorf("invalid percentile: %s: %s", pStr, err)
+			}
+		}
 		if f < 0.0 || f > 100.0 {
 			return nil, nil, fmt.Errorf("percentile out of range: %s (%f): must be bretween 0 and 100", pStr, f)
 		}
-- 
2.43.0


From 4618bfc8b0f75295336380c66124add05e8d4607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:35 +0000
Subject: [PATCH 33/76] fix: do not change interval stats after they were
 reported

---
 stats/collector.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/stats/collector.go b/stats/collector.go
index 53a473a..1f41e5f 100644
--- a/stats/collector.go
+++ b/stats/collector.go
@@ -331,9 +331,20 @@ func (c *Collector) Collect() bool {
 		}
 	}
 
+	// Copy because the interval can be reported, or still being sent by a reporter,
+	// when local stats are reset and filled for the next interval
+	in := c.local
+	in.Total = NewStats()
+	in.Total.Copy(c.local.Total)
+	in.Trx = make(map[string]*Stats, len(c.local.Trx))
+	for trxName, s := range c.local.Trx {
+		in.Trx[trxName] = NewStats()
+		in.Trx[trxName].Copy(s)
+	}
+
 	c.Lock()
 	defer c.Unlock()
-	c.interval[c.n] = c.local
+	c.interval[c.n] = in
 	c.n++
 	return c.Report(false)
 }
-- 
2.43.0


From 0220b35777c02cde41fddb2c9ef8915dc2c54073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:37 +0000
Subject: [PATCH 34/76] fix: never mix intervals or count an instance twice in
 one report

---
 stats/collector.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/stats/collector.go b/stats/collector.go
index 1f41e5f..17f0a9e 100644
--- a/stats/collector.go
+++ b/stats/collector.go
@@ -344,9 +344,7 @@ func (c *Collector) Collect() bool {
 
 	c.Lock()
 	defer c.Unlock()
-	c.interval[c.n] = in
-	c.n++
-	return c.Report(false)
+	return c.recv(in)
 }
 
 // Recv receives stats from remote compute instances. It's called by
@@ -355,14 +353,20 @@ func (c *Collector) Recv(in Instance) {
 	finch.Debug("recv %+v", in)
 	c.Lock()
 	defer c.Unlock()
+	c.recv(in)
+}
 
+// recv buffers stats from an instance (local or remote) and reports the interval
+// when it's complete. It returns true if complete and reported. The caller must
+// lock c.
+func (c *Collector) recv(in Instance) bool {
 	// Is the received interval in the past? This can happen for stats from remote
 	// instances if, for example, there's a really bad network delay. Since the old
 	// interval has already been reported, and we don't buffer or report intervals
 	// out of order, we just have to drop the old/delayed interval.
 	if in.Interval < c.intervalNo {
 		log.Printf("Discarding past stats: %+v", in)
-		return
+		return false
 	}
 
 	// Reverse of above: is received interval in the future? If yes, then report
@@ -370,17 +374,26 @@ func (c *Collector) Recv(in Instance) {
 	// reported earlier). This can happen if stats from one or more remote instance
 	// are return  lost, so the interval doesn't complete. This will report a partial interval.
 	if in.Interval > c.intervalNo {
-		log.Printf("Received next stats interval (%d) before current interval (%d) complete; reporting incomplete current interval; next stats: %+v", in.Interval, c.intervalNo, in)
-		c.Report(true) // true=force
-		c.interval[0] = in
-		c.n = 1
-		return
+		if c.n > 0 {
+			log.Printf("Received next stats interval (%d) before current interval (%d) complete; reporting incomplete current interval; next stats: %+v", in.Interval, c.intervalNo, in)
+			c.Report(true) // true=force
+		}
+		c.intervalNo = in.Interval
+	}
+
+	// An instance reports an interval only once, so this is the same stats sent
+	// again (the remote instance didn't get a response)
+	for i := range c.interval[0:c.n] {
+		if c.interval[i].Hostname == in.Hostname {
+			log.Printf("Discarding duplicate stats: %+v", in)
+			return false
+		}
 	}
 
 	// Stats in current interval; buffer until we've received all stats
 	c.interval[c.n] = in
 	c.n += 1
-	c.Report(false)
+	return c.Report(false)
 }
 
 // Report reports stats when then current interval is completed: when there are
-- 
2.43.0


From b1c53309b3a3e725a8167950cde47dda59190e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:53 +0000
Subject: [PATCH 35/76] fix: final interval: notice completion, never report it
 empty, say if incomplete

---
 stats/collector.go | 46 ++++++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/stats/collector.go b/stats/collector.go
index 17f0a9e..cc64790 100644
--- a/stats/collector.go
+++ b/stats/collector.go
@@ -67,9 +67,9 @@ type Collector struct {
 
 	*sync.Mutex
 	intervalNo uint       // current interval being filled
+	complete   uint       // last interval reported with stats from all instances
 	interval   []Instance // all Instance stats
 	n          uint       // index in interval
-	reported   time.Time  // when Report was last called
 }
 
 func NewCollector(cfg config.Stats, hostname string, nInstances uint) (*Collector, error) {
@@ -227,7 +227,6 @@ func (c *Collector) Stop(timeout time.Duration, terminated bool) bool {
 	*/
 
 	reported := false
-	var lastReported time.Duration
 	if c.Freq == 0 {
 		reported = c.Collect() // first/last/only collection
 	} else {
@@ -238,45 +237,42 @@ func (c *Collector) Stop(timeout time.Duration, terminated bool) bool {
 			//reported = true
 			//goto STOP
 		}
-	}
-
-	c.Lock()
-	lastReported = time.Now().Sub(c.reported)
-	c.Unlock()
-	finch.Debug("last report: %s ago", lastReported)
-
-	if reported || lastReported < (c.Freq/2) {
-		finch.Debug("final report done")
-		reported = true
-	} else {
-		if c.Freq > 0 {
+		lastCollected := Now().Sub(c.last)
+		finch.Debug("last collect: %s ago", lastCollected)
+		if c.local.Interval == 0 || lastCollected >= (c.Freq/2) {
 			finch.Debug("last periodic collect")
 			reported = c.Collect()
-			if reported {
-				goto STOP
-			}
 		}
+	}
 
+	if !reported {
 		finch.Debug("waiting %s for final report...", timeout)
 		timeoutC := time.After(timeout)
+		final := c.local.Interval
 	WAIT:
-		for !reported {
+		for {
+			c.Lock()
+			done := c.intervalNo > final
+			reported = c.complete >= final
+			c.Unlock()
+			if done {
+				break WAIT
+			}
 			select {
 			case <-timeoutC:
 				c.Lock()
-				reported = c.Report(true) // true=force
+				if c.intervalNo <= final && c.n > 0 {
+					c.Report(true) // true=force
+				}
+				reported = c.complete >= final
 				c.Unlock()
 				break WAIT
 			default:
 				time.Sleep(100 * time.Millisecond)
 			}
-			c.Lock()
-			reported = c.Report(false)
-			c.Unlock()
 		}
 	}
 
-STOP:
 	finch.Debug("stopping reporters")
 	for _, r := range c.reporters {
 		r.Stop()
@@ -412,7 +408,9 @@ func (c *Collector) Report(force bool) bool {
 	for _, r := range c.reporters {
 		r.Report(c.interval[0:c.n])
 	}
-	c.reported = time.Now()
+	if c.n == c.nInstances {
+		c.complete = c.intervalNo
+	}
 	c.intervalNo += 1
 	c.n = 0
 	return true // interval complete and reported
-- 
2.43.0


From b84a26bc370c1b93a8faec9ed86c0197ed273e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:05 +0000
Subject: [PATCH 36/76] fix: counting an error while stats are collected could
 crash (concurrent map access)

---
 stats/stats.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stats/stats.go b/stats/stats.go
index c22c7bb..db86105 100644
--- a/stats/stats.go
+++ b/stats/stats.go
@@ -4,6 +4,7 @@ package stats
 
 import (
 	"math"
+	"sync"
 	"sync/atomic"
 )
 
@@ -196,6 +197,7 @@ type Trx struct {
 	b    *Stats
 	sp   atomic.Pointer[Stats]
 	onA  bool
+	mu   sync.Mutex // Error vs. Swap: Errors is a map, not safe for concurrent access
 }
 
 func NewTrx(name string) *Trx {
@@ -215,10 +217,14 @@ func (t *Trx) Record(eventType byte, d int64) {
 }
 
 func (t *Trx) Error(n uint16) {
+	t.mu.Lock()
+	defer t.mu.Unlock()
 	t.sp.Load().Errors[n] += 1
 }
 
 func (t *Trx) Swap() *Stats {
+	t.mu.Lock()
+	defer t.mu.Unlock()
 	// on A; switch to B
 	if t.onA {
 		t.b.Reset()
-- 
2.43.0


From 60f21d5bf5b9c8d7b191a7b0e4ec6f8ca2c1c39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:21 +0000
Subject: [PATCH 37/76] fix: stdout report of one instance with only combined
 on was empty

---
 stats/stdout.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stats/stdout.go b/stats/stdout.go
index d615052..af39866 100644
--- a/stats/stdout.go
+++ b/stats/stdout.go
@@ -79,6 +79,8 @@ func (r *Stdout) Report(from []Instance) {
 	if r.combined && len(from) > 1 {
 		r.all.Combine(from)
 		r.print(r.all)
+	} else if r.combined && !r.each && len(from) == 1 {
+		r.print(&from[0]) // combined stats of one instance
 	}
 	r.w.Flush()
 	fmt.Println()
-- 
2.43.0


From 00de9e10bb97555395f38427cc5f6b1f722a2efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:49 +0000
Subject: [PATCH 38/76] fix: proto request retries were sent without the body

---
 proto/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/proto.go b/proto/proto.go
index 45cace3..b8e293a 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -69,7 +69,7 @@ func (c *Client) request(ctx context.Context, method string, endpoint string, pa
 	for r.Tries == -1 || try < r.Tries {
 		try += 1
 		ctxReq, cancelReq := context.WithTimeout(ctx, r.Timeout)
-		req, _ = http.NewRequestWithContext(ctxReq, method, url, buf)
+		req, _ = http.NewRequestWithContext(ctxReq, method, url, bytes.NewReader(buf.Bytes())) // new reader per try, else retries send no body
 		resp, err = c.client.Do(req)
 		cancelReq()
 		if err != nil {
-- 
2.43.0


From f59cd0ed68dc2e5c81b2ab608370fb39dba88f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:51 +0000
Subject: [PATCH 39/76] fix: proto request failed if the response body was
 large

---
 proto/proto.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index b8e293a..8076e92 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -71,15 +71,16 @@ func (c *Client) request(ctx context.Context, method string, endpoint string, pa
 		ctxReq, cancelReq := context.WithTimeout(ctx, r.Timeout)
 		req, _ = http.NewRequestWithContext(ctxReq, method, url, bytes.NewReader(buf.Bytes())) // new reader per try, else retries send no body
 		resp, err = c.client.Do(req)
-		cancelReq()
 		if err != nil {
+			cancelReq()
 			goto RETRY
 		}
 
 		body, err = io.ReadAll(resp.Body)
 		resp.Body.Close()
+		cancelReq() // after reading the body, else reading a large one fails
 		if err != nil {
-			return nil, nil, err
+			goto RETRY
 		}
 
 		switch resp.StatusCode {
-- 
2.43.0


From 7b03a8beab0e3e1f201117baa5b5d8d6b928e9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:52 +0000
Subject: [PATCH 40/76] fix: server never stopped waiting for lost clients to
 stop

---
 compute/api.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compute/api.go b/compute/api.go
index a45ea26..7982f7e 100644
--- a/compute/api.go
+++ b/compute/api.go
@@ -121,12 +121,13 @@ func (a *API) Stage(newStage *stageMeta) error {
 	// Wait for clients to check in (GET /run), be signaled that stage.done=true,
 	// send final stats, then call POST /run to terminate
 	timeout := time.After(3 * time.Second)
+WAIT:
 	for {
 		time.Sleep(100 * time.Millisecond)
 		select {
 		case <-timeout:
 			finch.Debug("timeout waiting for clients to reset")
-			break
+			break WAIT
 		default:
 		}
 		oldStage.Lock()
-- 
2.43.0


From 6c5d49a3aa9e02e42cd0dc1994dcea47914dd0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:54 +0000
Subject: [PATCH 41/76] fix: server hung (and spun) when cancelled while a lost
 remote instance was running

---
 compute/server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/compute/server.go b/compute/server.go
index 3316be8..3b9ac5f 100644
--- a/compute/server.go
+++ b/compute/server.go
@@ -160,11 +160,15 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 	finch.Debug("run %s", stageName)
 	close(m.runChan) // signal remotes to run
 
+	localDone := make(chan struct{})
 	if local != nil { // start local instance
 		go func() {
+			defer close(localDone)
 			local.Run(ctxFinch)
 			m.doneChan <- ack{name: s.name}
 		}()
+	} else {
+		close(localDone)
 	}
 
 	// Wait for instances to finish running
@@ -187,6 +191,9 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 			if s.api != nil {
 				s.api.Stage(nil)
 			}
+			// Remote instances have stopped now, or they are lost
+			<-localDone
+			return nil
 		}
 	}
 
-- 
2.43.0


From 186b083d737ab3d8e5a068c9286816d48ae96516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:14 +0000
Subject: [PATCH 42/76] fix: remote instances, and the next stage, hung in a
 boot test (--test)

---
 compute/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compute/server.go b/compute/server.go
index 3b9ac5f..ad69dc2 100644
--- a/compute/server.go
+++ b/compute/server.go
@@ -83,6 +83,7 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 		fmt.Printf("#\n# %s (%s)\n#\n", stageName, cfg.Id)
 	}
 
+	cfg.Test = s.test
 	m := &stageMeta{
 		Mutex:    &sync.Mutex{},
 		cfg:      cfg,
@@ -150,6 +151,9 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 	m.Unlock()
 
 	if s.test {
+		if s.api != nil {
+			s.api.Stage(nil) // signal remotes that boot test is done
+		}
 		return nil
 	}
 
-- 
2.43.0


From 437d3d3532d77186ba2e4926621fc2ffbaf62d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:16 +0000
Subject: [PATCH 43/76] fix: remote instance never booted if its GET /boot
 timed out or the response was lost

---
 compute/api.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/compute/api.go b/compute/api.go
index 7982f7e..d4810e7 100644
--- a/compute/api.go
+++ b/compute/api.go
@@ -176,8 +176,22 @@ func (a *API) boot(w http.ResponseWriter, r *http.Request) {
 				goto RETRY // no stage
 			}
 
-			// Is the stage still booting (waiting for instances)?
+			// Is this client already assigned to the stage? If yes, then its previous
+			// GET /boot timed out or the response was lost, so send the config again.
 			stage.Lock()
+			if prev, ok := stage.clients[rc.name]; ok {
+				state := prev.state
+				stage.Unlock()
+				a.Unlock()
+				if state != booting {
+					w.WriteHeader(http.StatusPreconditionFailed)
+					return
+				}
+				json.NewEncoder(w).Encode(stage.cfg) // send stage config
+				return
+			}
+
+			// Is the stage still booting (waiting for instances)?
 			if stage.booted || len(stage.clients) == int(stage.nRemotes) {
 				stage.Unlock()
 				a.Unlock()
@@ -200,6 +214,9 @@ func (a *API) boot(w http.ResponseWriter, r *http.Request) {
 
 		RETRY:
 			time.Sleep(200 * time.Millisecond)
+			if r.Context().Err() != nil {
+				return // client is gone (timeout), don't assign it to a stage
+			}
 		}
 	} else {
 		// POST /boot: client is ack'ing previous GET /boot; body is error message, if any
@@ -484,6 +501,12 @@ func (a *API) client(w http.ResponseWriter, r *http.Request, boot bool) (*client
 		return nil, false, false
 	}
 
+	// Instance is assigned to the stage, but it doesn't know the stage ID if the
+	// response to its GET /boot was lost, so let it try again.
+	if get && boot && !a.stage.done && rc.state == booting && sid == "" {
+		return &client{name: name, state: ready}, get, true
+	}
+
 	// Instance is assigned to the stage, but check stage ID to make sure a bad
 	// network partition (or some other net delay/weirdness) hasn't caused a
 	// _past_ query from the instance to finally reach us now after the stage
-- 
2.43.0


From 7fc87f951216412b1a296ab1a039aff0742ee3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:42 +0000
Subject: [PATCH 44/76] fix: boot ack counted twice or rejected when sent
 again; failed instance kept its place

---
 compute/api.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/compute/api.go b/compute/api.go
index d4810e7..6a7362a 100644
--- a/compute/api.go
+++ b/compute/api.go
@@ -220,30 +220,42 @@ func (a *API) boot(w http.ResponseWriter, r *http.Request) {
 		}
 	} else {
 		// POST /boot: client is ack'ing previous GET /boot; body is error message, if any
-		if rc.state != booting {
-			w.WriteHeader(http.StatusPreconditionFailed)
-			return
-		}
-
 		body, err := io.ReadAll(r.Body)
 		if err != nil {
 			log.Printf("error reading error from client: %s", err)
 			return
 		}
 		r.Body.Close()
-		w.WriteHeader(http.StatusOK)
+
+		// Check and advance client state in one step, else a client that sends its
+		// ack again is counted twice
+		rc.stage.Lock()
+		switch {
+		case rc.state == runnable && string(body) == "":
+			rc.stage.Unlock()
+			w.WriteHeader(http.StatusOK) // already ack'ed, but client didn't get the response
+			return
+		case rc.state != booting:
+			rc.stage.Unlock()
+			w.WriteHeader(http.StatusPreconditionFailed)
+			return
+		}
 
 		// Remote might fail to boot. If that's the case, do not advance its state;
 		// it should call GET /boot again to reset itself and try again.
 		var clientErr error
 		if string(body) != "" {
-			// Don't advance state: client failed to boot, so it's not ready to run
+			// Client failed to boot, so it's not ready to run. Another one (or the
+			// same one) can boot in its place.
 			clientErr = fmt.Errorf("%s", string(body))
+			rc.state = ready
+			delete(rc.stage.clients, rc.name)
 		} else {
 			rc.state = runnable // advance client state (successful boot)
 		}
+		rc.stage.Unlock()
+		w.WriteHeader(http.StatusOK)
 		rc.stage.bootChan <- ack{name: rc.name, err: clientErr}
-
 	}
 }
 
-- 
2.43.0


From 925efd1bcc5023b8991550af165a4ac310a2bd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:57 +0000
Subject: [PATCH 45/76] fix: remote instance gave up, and stage never ended, if
 the response to GET /run was lost

---
 compute/api.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/compute/api.go b/compute/api.go
index 6a7362a..5dfcd5b 100644
--- a/compute/api.go
+++ b/compute/api.go
@@ -327,8 +327,9 @@ func (a *API) run(w http.ResponseWriter, r *http.Request) {
 	}
 
 	if get {
-		// GET /run: client is waiting for signal to run previously booted stage
-		if rc.state != runnable {
+		// GET /run: client is waiting for signal to run previously booted stage.
+		// If it's already running, then it didn't get the response and tries again.
+		if rc.state != runnable && rc.state != running {
 			w.WriteHeader(http.StatusPreconditionFailed)
 			return
 		}
-- 
2.43.0


From 31f349544be1d6e62cfdcdd8844de760159cbaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:00 +0000
Subject: [PATCH 46/76] fix: stage with remote instances waited forever if not
 run as a server

---
 compute/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compute/server.go b/compute/server.go
index ad69dc2..90ae0d0 100644
--- a/compute/server.go
+++ b/compute/server.go
@@ -76,6 +76,9 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 	if cfg.Compute.DisableLocal {
 		nRemotes += 1 // no local, so all instances are remote
 	}
+	if nRemotes > 0 && s.api == nil {
+		return fmt.Errorf("stage %s requires %d remote instances but not running as a server (--server)", stageName, nRemotes)
+	}
 	if nRemotes == 0 {
 		fmt.Printf("#\n# %s\n#\n", stageName)
 	} else {
-- 
2.43.0


From 85a22591420b937bfbb88812fcaa5afd8567666b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:02 +0000
Subject: [PATCH 47/76] fix: check the stage ID of requests also when the stage
 is stopped, else a delayed request of an earlier stage ends the instance

---
 compute/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compute/api.go b/compute/api.go
index 5dfcd5b..628ea63 100644
--- a/compute/api.go
+++ b/compute/api.go
@@ -524,7 +524,7 @@ func (a *API) client(w http.ResponseWriter, r *http.Request, boot bool) (*client
 	// network partition (or some other net delay/weirdness) hasn't caused a
 	// _past_ query from the instance to finally reach us now after the stage
 	// has changed.
-	if !a.stage.done && a.stage.cfg.Id != sid {
+	if a.stage.cfg.Id != sid {
 		log.Printf("Wrong stage ID: %s: client %s != current %s", name, sid, a.stage.cfg.Id)
 		w.WriteHeader(http.StatusGone) // reset
 		return nil, false, false
-- 
2.43.0


From 3426db12da6d3d1dc5e326295150bdb53966d2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:26 +0000
Subject: [PATCH 48/76] fix: done signal of a remote instance counted twice if
 it was sent again while the first one was delayed

---
 compute/api.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/compute/api.go b/compute/api.go
index 628ea63..a914f04 100644
--- a/compute/api.go
+++ b/compute/api.go
@@ -359,22 +359,25 @@ func (a *API) run(w http.ResponseWriter, r *http.Request) {
 		rc.state = running // advance client state
 	} else {
 		// POST /run: client is done running stage
-		if rc.state != running {
-			w.WriteHeader(http.StatusPreconditionFailed)
-			return
-		}
-
 		body, err := io.ReadAll(r.Body)
 		if err != nil {
 			// Ignore error; it doesn't change fact that client is done
 			log.Printf("Error reading error from client on POST /run, ignoring: %s", err)
 		}
 		r.Body.Close()
-		w.WriteHeader(http.StatusOK)
 
+		// Check and advance client state in one step, else a client that sends this
+		// again while a previous one is delayed is counted twice
 		rc.stage.Lock()
+		if rc.state != running {
+			rc.stage.Unlock()
+			w.WriteHeader(http.StatusPreconditionFailed)
+			return
+		}
+		rc.state = ready // advance client state (ready to run another stage)
 		delete(rc.stage.clients, rc.name)
 		rc.stage.Unlock()
+		w.WriteHeader(http.StatusOK)
 
 		// Tell server client completed stage
 		var clientErr error
@@ -382,7 +385,6 @@ func (a *API) run(w http.ResponseWriter, r *http.Request) {
 			clientErr = fmt.Errorf("%s", string(body))
 		}
 		rc.stage.doneChan <- ack{name: rc.name, err: clientErr}
-		rc.state = ready // advance client state (ready to run another stage)
 	}
 }
 
-- 
2.43.0


From 6fdf2454bde33da0769e373af193853d16e6872c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:57 +0000
Subject: [PATCH 49/76] fix: remote instances executed the wrong trx file if
 several have the same base name

---
 compute/client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/compute/client.go b/compute/client.go
index d7b0542..4903c4d 100644
--- a/compute/client.go
+++ b/compute/client.go
@@ -202,7 +202,12 @@ func (c *Client) getTrxFiles(ctxFinch context.Context, cfg config.Stage, tmpdir
 		}
 		finch.Debug("%+v", resp)
 
-		filename := filepath.Join(tmpdir, filepath.Base(trx[i].File))
+		// Different files can have the same base name
+		dir := filepath.Join(tmpdir, fmt.Sprintf("%d", i))
+		if err := os.Mkdir(dir, 0750); err != nil {
+			return err
+		}
+		filename := filepath.Join(dir, filepath.Base(trx[i].File))
 		f, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0440)
 		if err != nil {
 			return err
-- 
2.43.0


From 3323a3d927091f1a7f756b66a2e03b947ce703b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:13 +0000
Subject: [PATCH 50/76] fix: last statistics of remote instances were not
 reported if the local instance ended first, or if there is none

---
 compute/server.go  |  1 +
 stats/collector.go | 31 ++++++++++++++++++++++++++++---
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/compute/server.go b/compute/server.go
index 90ae0d0..5a8b715 100644
--- a/compute/server.go
+++ b/compute/server.go
@@ -102,6 +102,7 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 		if err != nil {
 			return err
 		}
+		defer m.stats.Close() // after all instances are done
 	}
 
 	s.gds.Reset() // keep global data, delete the rest
diff --git a/stats/collector.go b/stats/collector.go
index cc64790..30b7543 100644
--- a/stats/collector.go
+++ b/stats/collector.go
@@ -70,6 +70,7 @@ type Collector struct {
 	complete   uint       // last interval reported with stats from all instances
 	interval   []Instance // all Instance stats
 	n          uint       // index in interval
+	closed     bool       // Close called
 }
 
 func NewCollector(cfg config.Stats, hostname string, nInstances uint) (*Collector, error) {
@@ -273,9 +274,10 @@ func (c *Collector) Stop(timeout time.Duration, terminated bool) bool {
 		}
 	}
 
-	finch.Debug("stopping reporters")
-	for _, r := range c.reporters {
-		r.Stop()
+	// Remote instances can still be running and sending stats, in which case
+	// compute/Server closes the collector when they're done
+	if c.nInstances == 1 {
+		c.Close()
 	}
 
 	finch.Debug("collector stopped")
@@ -283,6 +285,24 @@ func (c *Collector) Stop(timeout time.Duration, terminated bool) bool {
 	return reported
 }
 
+// Close reports the last interval if it's incomplete, then stops the reporters.
+// It's called when all instances are done.
+func (c *Collector) Close() {
+	c.Lock()
+	defer c.Unlock()
+	if c.closed {
+		return
+	}
+	c.closed = true
+	if c.n > 0 {
+		c.Report(true) // true=force
+	}
+	finch.Debug("stopping reporters")
+	for _, r := range c.reporters {
+		r.Stop()
+	}
+}
+
 // Collect collects stats from all local clients. It's called periodically by
 // the goroutine in Start, or once by Stop if periodic stats aren't enabled.
 func (c *Collector) Collect() bool {
@@ -356,6 +376,11 @@ func (c *Collector) Recv(in Instance) {
 // when it's complete. It returns true if complete and reported. The caller must
 // lock c.
 func (c *Collector) recv(in Instance) bool {
+	if c.closed {
+		log.Printf("Discarding stats received after the stage: %+v", in)
+		return false
+	}
+
 	// Is the received interval in the past? This can happen for stats from remote
 	// instances if, for example, there's a really bad network delay. Since the old
 	// interval has already been reported, and we don't buffer or report intervals
-- 
2.43.0


From 7c88e9bb166d98cb55de32a498bc2de0b8227ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:28 +0000
Subject: [PATCH 51/76] fix: invalid DSN crashes finch instead of being an
 error

---
 dbconn/factory.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dbconn/factory.go b/dbconn/factory.go
index cb7f1e6..1b96a69 100644
--- a/dbconn/factory.go
+++ b/dbconn/factory.go
@@ -225,8 +225,9 @@ func isSocket(file string) bool {
 
 func RedactedDSN(dsn string) string {
 	redactedPassword, err := mysql.ParseDSN(dsn)
-	if err != nil { // ok to ignore
+	if err != nil {
 		finch.Debug("mysql.ParseDSN error: %s", err)
+		return "(invalid DSN)" // don't print it because it can have a password
 	}
 	redactedPassword.Passwd = "..."
 	return redactedPassword.FormatDSN()
-- 
2.43.0


From bf5a696f349b754d3f3545cb14029e262b78ab17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:30 +0000
Subject: [PATCH 52/76] fix: trx with the name of another trx silently replaces
 it

---
 config/file.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/config/file.go b/config/file.go
index 48c503a..ea55c2f 100644
--- a/config/file.go
+++ b/config/file.go
@@ -187,6 +187,7 @@ func (c *Stage) Validate() error {
 
 	// Trx list: must validate before Workload because Workload reference trx by name
 	seen := map[string]string{}
+	files := map[string]string{} // trx name => file
 	for i := range c.Trx {
 		if c.Trx[i].File == "" {
 			return fmt.Errorf("no file specified for trx %d", i+1)
@@ -197,6 +198,10 @@ func (c *Stage) Validate() error {
 		if c.Trx[i].Name == "" {
 			c.Trx[i].Name = filepath.Base(c.Trx[i].File)
 		}
+		if file, ok := files[c.Trx[i].Name]; ok && file != c.Trx[i].File {
+			return fmt.Errorf("duplicate trx name: %s: trx %d has file %s, and another trx file %s", c.Trx[i].Name, i+1, c.Trx[i].File, file)
+		}
+		files[c.Trx[i].Name] = c.Trx[i].File
 
 		for dataKey, data := range c.Trx[i].Data {
 			if data.Generator == "" {
-- 
2.43.0


From b719eb10596a2dfd8fdc61861b888774e722548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:07 +0000
Subject: [PATCH 53/76] fix: do not exit on trx files with long lines or that
 cannot be read

---
 trx/trx.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/trx/trx.go b/trx/trx.go
index 78924ad..6250116 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -5,7 +5,7 @@ package trx
 import (
 	"bufio"
 	"fmt"
-	"log"
+	"math"
 	"os"
 	"regexp"
 	"strconv"
@@ -128,6 +128,7 @@ func (f *File) Load() error {
 	defer file.Close()
 
 	scanner := bufio.NewScanner(file)
+	scanner.Buffer(nil, math.MaxInt) // a line (e.g. multi-row INSERT) can be longer than the default 64k
 	for scanner.Scan() {
 		err = f.line(strings.TrimSpace(scanner.Text()))
 		if err != nil {
@@ -137,6 +138,9 @@ func (f *File) Load() error {
 			return err
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return fmt.Errorf("error reading %s: %s", f.cfg.File, err)
+	}
 	err = f.line("") // last line
 	if err != nil {
 		return err
@@ -157,10 +161,6 @@ func (f *File) Load() error {
 		return fmt.Errorf("saved columns not referenced: %s", strings.Join(noRefs, ", "))
 	}
 
-	if err := scanner.Err(); err != nil {
-		log.Fatal(err) // shouldn't happen
-	}
-
 	f.set.Order = append(f.set.Order, f.cfg.Name)
 	f.set.Statements[f.cfg.Name] = f.stmts
 	f.set.Meta[f.cfg.Name] = Meta{
-- 
2.43.0


From ee80eafe674fda9500ddaba9c576537c471dd416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:30 +0000
Subject: [PATCH 54/76] fix: do not crash on modifiers without a value

---
 trx/trx.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trx/trx.go b/trx/trx.go
index 6250116..231699f 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -260,6 +260,12 @@ func (f *File) statements() ([]*Statement, error) {
 			return nil, fmt.Errorf("invalid modifier: '%s': does not match key: value (pattern match < 2)", mod)
 		}
 		m[0] = strings.Trim(m[0], ":")
+		if len(m) < 2 {
+			switch m[0] {
+			case "idle", "rows", "save-insert-id", "copies":
+				return nil, fmt.Errorf("invalid %s modifier: '%s': no value", m[0], mod)
+			}
+		}
 		switch m[0] {
 		case "prepare", "prepared":
 			s.Prepare = true
-- 
2.43.0


From 3676ac9804f4335fda1d96fe65b5163e815d0a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:32 +0000
Subject: [PATCH 55/76] fix: trx is not DDL if its DDL statements have zero
 copies

---
 trx/trx.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trx/trx.go b/trx/trx.go
index 231699f..314754e 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -205,6 +205,9 @@ func (f *File) line(line string) error {
 	}
 	for i := range s {
 		finch.Debug("stmt: %+v", s[i])
+		if s[i].DDL {
+			f.hasDDL = true // trx has DDL
+		}
 	}
 	f.stmts = append(f.stmts, s...)
 
@@ -245,8 +248,7 @@ func (f *File) statements() ([]*Statement, error) {
 		s.Write = true
 	case "ALTER", "CREATE", "DROP", "RENAME", "TRUNCATE":
 		finch.Debug("DDL")
-		s.DDL = true    // statement is DDL
-		f.hasDDL = true // trx has DDL
+		s.DDL = true // statement is DDL
 	}
 
 	// ----------------------------------------------------------------------
-- 
2.43.0


From a9b0e7daa1d8b9aeab2cdbb686d58ca637f74e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:34 +0000
Subject: [PATCH 56/76] fix: number of the only copy is 1

---
 trx/trx.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trx/trx.go b/trx/trx.go
index 314754e..7d91226 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -213,6 +213,7 @@ func (f *File) line(line string) error {
 
 	f.lb.str = ""
 	f.lb.mods = []string{}
+	f.lb.copyNo = 0
 
 	return nil
 }
@@ -342,6 +343,7 @@ func (f *File) statements() ([]*Statement, error) {
 				return nil, nil
 			}
 			if n == 1 {
+				f.lb.copyNo = 1
 				continue
 			}
 			prepareMulti := false
-- 
2.43.0


From 4e1e4812f27ace811db167fc1a276d0155b8eb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:56 +0000
Subject: [PATCH 57/76] fix: expand every CSV template of a statement, not only
 the first

---
 trx/trx.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/trx/trx.go b/trx/trx.go
index 7d91226..96c34bb 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -388,8 +388,11 @@ func (f *File) statements() ([]*Statement, error) {
 	// Expand CSV /*!csv N template*/
 	// ----------------------------------------------------------------------
 	csvTemplate := ""
-	m := reCSV.FindStringSubmatch(query)
-	if len(m) > 0 {
+	for {
+		m := reCSV.FindStringSubmatch(query)
+		if len(m) == 0 {
+			break
+		}
 		n, err := strconv.ParseInt(m[1], 10, 32)
 		if err != nil {
 			return nil, fmt.Errorf("invalid number of CSV values in %s: %s", m[0], err)
@@ -428,7 +431,7 @@ func (f *File) statements() ([]*Statement, error) {
 			vals[i] = csvTemplateScoped
 		}
 		csv := strings.Join(vals, ", ")
-		query = reCSV.ReplaceAllLiteralString(query, csv)
+		query = strings.Replace(query, m[0], csv, 1)
 	}
 
 	// ----------------------------------------------------------------------
-- 
2.43.0


From 8ef6bc6cc86e67cda94f9822b2811491cdabfac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:59 +0000
Subject: [PATCH 58/76] fix: allow @PREV in CSV templates

---
 trx/trx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trx/trx.go b/trx/trx.go
index 96c34bb..7330c3a 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -405,6 +405,9 @@ func (f *File) statements() ([]*Statement, error) {
 			// Trim to look up data key in config because @ is not valid YAML.
 			// The @ will be put back later because all other code expects it.
 			name = cfgKey(name)
+			if name == "PREV" {
+				continue // not configured
+			}
 			dataCfg, ok := f.cfg.Data[name] // config.stage.trx[].data
 			if !ok {
 				return nil, fmt.Errorf("%s not configured: trx file uses %s but this data key is not configured in the stage file", name, name)
-- 
2.43.0


From 1c9c9a6ab15d18eef7b3568128355f08ab043420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:32 +0000
Subject: [PATCH 59/76] fix: uniform int returns min too often and never max

---
 data/integer.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/data/integer.go b/data/integer.go
index 66f9b6f..5d6e177 100644
--- a/data/integer.go
+++ b/data/integer.go
@@ -43,6 +43,9 @@ func NewInt(params map[string]string) (*Int, error) {
 	if err := int64From(params, "max", &g.max, false); err != nil {
 		return nil, err
 	}
+	if g.min > g.max {
+		return nil, fmt.Errorf("invalid int: min %d > max %d", g.min, g.max)
+	}
 
 	switch strings.ToLower(params["dist"]) {
 	case "normal":
@@ -96,11 +99,11 @@ func (g *Int) Values(_ RunCount) []interface{} {
 		}
 		return []interface{}{v}
 	default: // uniform
-		v := rand.Int63n(g.max)
-		if v < g.min {
-			v = g.min
+		n := g.max - g.min + 1 // closed interval [min, max]
+		if n <= 0 {            // overflow
+			return []interface{}{g.min + rand.Int63()}
 		}
-		return []interface{}{v}
+		return []interface{}{g.min + rand.Int63n(n)}
 	}
 }
 
-- 
2.43.0


From 80586c3b3c320c1735eba2858cfb27586ec53405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:04 +0000
Subject: [PATCH 60/76] fix: normal int out of range if its mean is

---
 data/integer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/data/integer.go b/data/integer.go
index 5d6e177..b8050be 100644
--- a/data/integer.go
+++ b/data/integer.go
@@ -94,7 +94,12 @@ func (g *Int) Values(_ RunCount) []interface{} {
 		if v < g.min || v > g.max {
 			v = int64(math.Floor(rand.NormFloat64()*g.stddev + g.mean))
 			if v < g.min || v > g.max {
-				return []interface{}{int64(g.mean)}
+				v = int64(g.mean)
+				if v < g.min { // mean is out of range, too
+					v = g.min
+				} else if v > g.max {
+					v = g.max
+				}
 			}
 		}
 		return []interface{}{v}
-- 
2.43.0


From 45a74fa8c4fba895ac41aae249ce19c2be6bae11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:07 +0000
Subject: [PATCH 61/76] fix: reject invalid int dist, range size zero, and
 auto-inc step zero

---
 data/integer.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/data/integer.go b/data/integer.go
index b8050be..7d73104 100644
--- a/data/integer.go
+++ b/data/integer.go
@@ -69,10 +69,10 @@ func NewInt(params map[string]string) (*Int, error) {
 		} else {
 			g.stddev = (float64(g.max) - float64(g.min)) / 8.0
 		}
-	case "uniform":
+	case "uniform", "":
 		g.dist = dist_uniform
 	default:
-		g.dist = dist_uniform
+		return nil, fmt.Errorf("invalid int dist: %s, must be uniform or normal", params["dist"])
 	}
 	finch.Debug("rand int [%d, %d] dist %d (uni %d, norm %d)", g.min, g.max, g.dist, dist_uniform, dist_normal)
 	return g, nil
@@ -201,6 +201,9 @@ func NewIntRange(params map[string]string) (*IntRange, error) {
 	if err := int64From(params, "max", &g.max, false); err != nil {
 		return nil, err
 	}
+	if g.size < 1 {
+		return nil, fmt.Errorf("invalid int range: size %d, must be >= 1", g.size)
+	}
 	if g.min >= g.max {
 		return nil, fmt.Errorf("invalid int range: min %d >= max %d", g.min, g.max)
 	}
@@ -264,6 +267,9 @@ func NewIntRangeSeq(params map[string]string) (*IntRangeSeq, error) {
 	if err := int64From(params, "end", &g.end, false); err != nil {
 		return nil, err
 	}
+	if g.size < 1 {
+		return nil, fmt.Errorf("invalid int-range-seq: size (%d) must be >= 1", g.size)
+	}
 	if g.begin > g.end {
 		return nil, fmt.Errorf("invalid int-range-seq: begin (%d) > end (%d)", g.begin, g.end)
 	}
@@ -325,6 +331,9 @@ func NewAutoInc(params map[string]string) (*AutoInc, error) {
 		if err != nil {
 			return nil, fmt.Errorf("invalid step=%s: %s", s, err)
 		}
+		if i < 1 {
+			return nil, fmt.Errorf("invalid step=%s: must be >= 1", s)
+		}
 		g.step = i
 	}
 	return g, nil
-- 
2.43.0


From 2c1d0274804fe76c1f00f33d04f824fc36335627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:10 +0000
Subject: [PATCH 62/76] fix: allow integer ranges of the whole interval

---
 data/integer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/data/integer.go b/data/integer.go
index 7d73104..59d4916 100644
--- a/data/integer.go
+++ b/data/integer.go
@@ -207,8 +207,8 @@ func NewIntRange(params map[string]string) (*IntRange, error) {
 	if g.min >= g.max {
 		return nil, fmt.Errorf("invalid int range: min %d >= max %d", g.min, g.max)
 	}
-	if g.size > (g.max - g.min) {
-		return nil, fmt.Errorf("invalid int range: size %d > (max %d - min %d)", g.size, g.max, g.min)
+	if g.size-1 > (g.max - g.min) { // closed interval [min, max]
+		return nil, fmt.Errorf("invalid int range: size %d > (max %d - min %d) + 1", g.size, g.max, g.min)
 	}
 	return g, nil
 }
@@ -273,8 +273,8 @@ func NewIntRangeSeq(params map[string]string) (*IntRangeSeq, error) {
 	if g.begin > g.end {
 		return nil, fmt.Errorf("invalid int-range-seq: begin (%d) > end (%d)", g.begin, g.end)
 	}
-	if g.size > (g.end - g.begin) {
-		return nil, fmt.Errorf("invalid int-range-seq: size (%d) > end (%d) - begin (%d)", g.size, g.end, g.begin)
+	if g.size-1 > (g.end - g.begin) { // closed interval [begin, end]
+		return nil, fmt.Errorf("invalid int-range-seq: size (%d) > end (%d) - begin (%d) + 1", g.size, g.end, g.begin)
 	}
 	return g, nil
 }
-- 
2.43.0


From cbd845667784197ab264c3890f5d8933b557f10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:13 +0000
Subject: [PATCH 63/76] fix: overflow of int-range-seq near the greatest
 integer

---
 data/integer.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/data/integer.go b/data/integer.go
index 59d4916..4084362 100644
--- a/data/integer.go
+++ b/data/integer.go
@@ -290,14 +290,13 @@ func (g *IntRangeSeq) Copy() Generator {
 
 func (g *IntRangeSeq) Values(_ RunCount) []interface{} {
 	g.Lock()
-	if g.n > g.end {
+	n, m := g.n, g.end // last (maybe short) chunk [n, end]
+	if g.end-n >= g.size {
+		m = n + g.size - 1 // next chunk [n, m]
+		g.n += g.size
+	} else {
 		g.n = g.begin // reset  [begin, m]
 	}
-	n, m := g.n, g.n+g.size-1 // next chunk [n, m]
-	g.n += g.size
-	if m > g.end {
-		m = g.end // short chunk [n, end]
-	}
 	g.Unlock()
 	return []interface{}{n, m}
 }
-- 
2.43.0


From 3989e63c36c3cc04aacfc2eb60a70393e91c8b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:16 +0000
Subject: [PATCH 64/76] fix: int-gaps with less than two values

---
 data/integer.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/data/integer.go b/data/integer.go
index 4084362..c5280fc 100644
--- a/data/integer.go
+++ b/data/integer.go
@@ -147,12 +147,19 @@ func NewIntGaps(params map[string]string) (*IntGaps, error) {
 		return nil, fmt.Errorf("invalid int-gaps p: %d, must be between 1 to 100 (inclusive)", p)
 	}
 	input_max := int64(float64(size) * (float64(p) / 100.0))
+	if input_max < 1 {
+		input_max = 1 // at least 1 value
+	}
+	slope := 0.0
+	if input_max > 1 {
+		slope = float64(max-min) / float64(input_max-1)
+	}
 
 	g := &IntGaps{
 		params:       params,
 		input_max:    input_max,
 		output_start: float64(min),
-		slope:        float64(max-min) / float64(input_max-1),
+		slope:        slope,
 	}
 	finch.Debug("1..%d -> %d..%d (%d%% of %d) gap: %d records", input_max, min, max, p, size, int(g.slope))
 	return g, nil
-- 
2.43.0


From a4eeab0298f2cba294cd21a5942ae0d7c19ed51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:20 +0000
Subject: [PATCH 65/76] fix: str-fill-az shared by clients is not safe for
 concurrent use

---
 data/string.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/data/string.go b/data/string.go
index 2131341..a3d965d 100644
--- a/data/string.go
+++ b/data/string.go
@@ -6,13 +6,11 @@ import (
 	"fmt"
 	"math/rand"
 	"strings"
-	"time"
 )
 
 // StrFillAz implemnts the str-fill-az data generator.
 type StrFillAz struct {
 	len int64
-	src rand.Source
 }
 
 var _ Generator = &StrFillAz{}
@@ -28,7 +26,6 @@ const (
 func NewStrFillAz(params map[string]string) (*StrFillAz, error) {
 	g := &StrFillAz{
 		len: 100,
-		src: rand.NewSource(time.Now().UnixNano()),
 	}
 	if err := int64From(params, "len", &g.len, false); err != nil {
 		return nil, err
@@ -46,17 +43,16 @@ func (g *StrFillAz) Scan(any interface{}) error { return nil }
 func (g *StrFillAz) Copy() Generator {
 	return &StrFillAz{
 		len: g.len,
-		src: rand.NewSource(time.Now().UnixNano()),
 	}
 }
 
 func (g *StrFillAz) Values(_ RunCount) []interface{} {
 	sb := strings.Builder{}
 	sb.Grow(int(g.len))
-	// A src.Int63() generates 63 random bits, enough for letterIdxMax characters!
-	for i, cache, remain := g.len-1, g.src.Int63(), letterIdxMax; i >= 0; {
+	// A rand.Int63() generates 63 random bits, enough for letterIdxMax characters!
+	for i, cache, remain := g.len-1, rand.Int63(), letterIdxMax; i >= 0; {
 		if remain == 0 {
-			cache, remain = g.src.Int63(), letterIdxMax
+			cache, remain = rand.Int63(), letterIdxMax
 		}
 		if idx := int(cache & letterIdxMask); idx < len(letterBytes) {
 			sb.WriteByte(letterBytes[idx])
-- 
2.43.0


From b162bed0a17434ac33d2eddee527b2ff1d559a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:05 +0000
Subject: [PATCH 66/76] fix: apply and validate mysql.timeout-connect

---
 config/file.go    | 10 ++++++++++
 dbconn/factory.go |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/config/file.go b/config/file.go
index ea55c2f..eb5c87c 100644
--- a/config/file.go
+++ b/config/file.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"io/ioutil"
 	"path/filepath"
+	"time"
 
 	"github.com/square/finch"
 )
@@ -610,6 +611,15 @@ func (c *MySQL) Vars(params map[string]string) error {
 }
 
 func (c *MySQL) Validate() error {
+	if c.TimeoutConnect != "" {
+		d, err := time.ParseDuration(c.TimeoutConnect)
+		if err != nil {
+			return fmt.Errorf("mysql.timeout-connect: invalid value: %s: %s", c.TimeoutConnect, err)
+		}
+		if d < 0 {
+			return fmt.Errorf("mysql.timeout-connect: invalid value: %s: negative value not allowed", c.TimeoutConnect)
+		}
+	}
 	return nil
 }
 
diff --git a/dbconn/factory.go b/dbconn/factory.go
index 1b96a69..15e2c54 100644
--- a/dbconn/factory.go
+++ b/dbconn/factory.go
@@ -105,6 +105,12 @@ func (f *factory) setDSN() error {
 
 	params := []string{"parseTime=true"}
 
+	timeout := f.cfg.TimeoutConnect
+	if timeout == "" {
+		timeout = "10s" // default
+	}
+	params = append(params, "timeout="+timeout)
+
 	// Go says "either ServerName or InsecureSkipVerify must be specified".
 	// This is a pathological case: socket and TLS but no hostname to verify
 	// and user didn't explicitly set skip-verify=true. So we set this latter
-- 
2.43.0


From 6bca91eea11ec0c2fe6c71937514a0eb5678affe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:06 +0000
Subject: [PATCH 67/76] fix: reject invalid combinations of TLS files

---
 dbconn/factory.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dbconn/factory.go b/dbconn/factory.go
index 15e2c54..9b83058 100644
--- a/dbconn/factory.go
+++ b/dbconn/factory.go
@@ -122,6 +122,11 @@ func (f *factory) setDSN() error {
 	}
 
 	// Load and register TLS, if any
+	if f.cfg.TLS.Set() {
+		if err := f.cfg.TLS.Validate(); err != nil {
+			return err
+		}
+	}
 	tlsConfig, err := f.cfg.TLS.LoadTLS(portSuffix.ReplaceAllString(f.cfg.Hostname, ""))
 	if err != nil {
 		return err
-- 
2.43.0


From c30c08085be66569fc6126b71ad494216d8dc4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:06 +0000
Subject: [PATCH 68/76] fix: newline at end of mysql.password-file is not part
 of the password

---
 dbconn/factory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dbconn/factory.go b/dbconn/factory.go
index 9b83058..628c0d4 100644
--- a/dbconn/factory.go
+++ b/dbconn/factory.go
@@ -153,7 +153,7 @@ func (f *factory) setDSN() error {
 		if err != nil {
 			return err
 		}
-		password = string(bytes)
+		password = strings.TrimRight(string(bytes), "\r\n")
 	}
 
 	if f.cfg.Username == "" {
-- 
2.43.0


From 6852cc88e0f5d40318a187e230502156d3cd5744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:08 +0000
Subject: [PATCH 69/76] fix: use TLS settings of my.cnf

---
 config/file.go  | 6 +++---
 dbconn/mycnf.go | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/config/file.go b/config/file.go
index eb5c87c..dd45791 100644
--- a/config/file.go
+++ b/config/file.go
@@ -644,6 +644,9 @@ type TLS struct {
 }
 
 func (c *TLS) With(def TLS) {
+	if c.MySQLMode == "" && !c.Set() { // ssl-mode does not disable explicit TLS
+		c.MySQLMode = def.MySQLMode
+	}
 	if c.Cert == "" {
 		c.Cert = def.Cert
 	}
@@ -653,9 +656,6 @@ func (c *TLS) With(def TLS) {
 	if c.CA == "" {
 		c.CA = def.CA
 	}
-	if c.MySQLMode == "" {
-		c.MySQLMode = def.MySQLMode
-	}
 	c.SkipVerify = setBool(c.SkipVerify, def.SkipVerify)
 	c.Disable = setBool(c.Disable, def.Disable)
 }
diff --git a/dbconn/mycnf.go b/dbconn/mycnf.go
index 99d56de..be5ec78 100644
--- a/dbconn/mycnf.go
+++ b/dbconn/mycnf.go
@@ -37,7 +37,7 @@ func ParseMyCnf(file string) (config.MySQL, error) {
 	//   https://dev.mysql.com/doc/refman/8.0/en/connection-options.html#option_general_ssl-mode
 	// But Go tls.Config (which is derived from config.TLS) has only two
 	// options: specify tls.Confg.ServerName _or_ .InsecureSkipVerify=true.
-	mysqlTLS(file, mycnf, &cfg)
+	cfg.TLS = mysqlTLS(file, mycnf, &cfg)
 
 	finch.Debug("mycnf %s: %s %+v", file, cfg.Redacted())
 	return cfg, nil
-- 
2.43.0


From 4865ac7030de396dca03970ca91f571baee2cc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:08 +0000
Subject: [PATCH 70/76] fix: default hostname when my.cnf has only a port

---
 dbconn/mycnf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dbconn/mycnf.go b/dbconn/mycnf.go
index be5ec78..bcd5cea 100644
--- a/dbconn/mycnf.go
+++ b/dbconn/mycnf.go
@@ -29,6 +29,9 @@ func ParseMyCnf(file string) (config.MySQL, error) {
 
 	port := mycnf.Section("client").Key("port").String()
 	if port != "" {
+		if cfg.Hostname == "" {
+			cfg.Hostname = "127.0.0.1" // default; see factory.setDSN
+		}
 		cfg.Hostname += ":" + port
 	}
 
-- 
2.43.0


From cc149f43ab311219cad77353aa414a99b678254f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:09 +0000
Subject: [PATCH 71/76] fix: socket in my.cnf does not override mysql.hostname

---
 dbconn/factory.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dbconn/factory.go b/dbconn/factory.go
index 628c0d4..6411875 100644
--- a/dbconn/factory.go
+++ b/dbconn/factory.go
@@ -81,6 +81,9 @@ func (f *factory) setDSN() error {
 		if err != nil {
 			return err
 		}
+		if f.cfg.Hostname != "" {
+			def.Socket = "" // explicit hostname overrides default socket
+		}
 		f.cfg.With(def)
 	}
 
-- 
2.43.0


From f61b9faccd00e8f6945c93f206f76d06c0b22afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:10 +0000
Subject: [PATCH 72/76] fix: do not print MySQL passwords in debug output

---
 config/file.go  | 11 ++++++++++-
 dbconn/mycnf.go |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/config/file.go b/config/file.go
index dd45791..3cdcf2e 100644
--- a/config/file.go
+++ b/config/file.go
@@ -627,7 +627,16 @@ func (c MySQL) Redacted() string {
 	if c.Password != "" {
 		c.Password = "..."
 	}
-	return fmt.Sprintf("%+v", c)
+	if c.DSN != "" {
+		c.DSN = "..." // can have a password
+	}
+	type mysql MySQL // without String
+	return fmt.Sprintf("%+v", mysql(c))
+}
+
+// String returns the config without passwords, for debug output.
+func (c MySQL) String() string {
+	return c.Redacted()
 }
 
 // --------------------------------------------------------------------------
diff --git a/dbconn/mycnf.go b/dbconn/mycnf.go
index bcd5cea..bade087 100644
--- a/dbconn/mycnf.go
+++ b/dbconn/mycnf.go
@@ -42,7 +42,7 @@ func ParseMyCnf(file string) (config.MySQL, error) {
 	// options: specify tls.Confg.ServerName _or_ .InsecureSkipVerify=true.
 	cfg.TLS = mysqlTLS(file, mycnf, &cfg)
 
-	finch.Debug("mycnf %s: %s %+v", file, cfg.Redacted())
+	finch.Debug("mycnf %s: %s", file, cfg.Redacted())
 	return cfg, nil
 }
 
-- 
2.43.0


From 19ade6d77a039d8d8347c96bc4d72a2d7518f73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:11 +0000
Subject: [PATCH 73/76] fix: do not print --dsn in debug output

---
 boot/boot.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/boot/boot.go b/boot/boot.go
index 3c005fa..d79a8d7 100644
--- a/boot/boot.go
+++ b/boot/boot.go
@@ -44,7 +44,11 @@ func Up(env Env) error {
 
 	// Set global debug var first because all code calls finch.Debug
 	finch.Debugging = cmdline.Options.Debug
-	finch.Debug("finch %s %+v", finch.VERSION, cmdline)
+	redacted := cmdline
+	if redacted.DSN != "" {
+		redacted.DSN = "..." // can have a password
+	}
+	finch.Debug("finch %s %+v", finch.VERSION, redacted)
 
 	// Return early (don't boot/run) --help and --verison
 	if cmdline.Options.Help {
-- 
2.43.0


From c4a8f99c2d237cc30284a65b9aaef48cc0dfde49 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 04:13:42 +0000
Subject: [PATCH 74/76] fix: allow "#" and ";" in values of my.cnf

---
 dbconn/mycnf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dbconn/mycnf.go b/dbconn/mycnf.go
index bade087..07285ab 100644
--- a/dbconn/mycnf.go
+++ b/dbconn/mycnf.go
@@ -14,7 +14,7 @@ import (
 // ParseMyCnf parses a MySQL my.cnf file. It only reads the "[client]" section,
 // same as the mysql CLI.
 func ParseMyCnf(file string) (config.MySQL, error) {
-	opts := ini.LoadOptions{AllowBooleanKeys: true}
+	opts := ini.LoadOptions{AllowBooleanKeys: true, SpaceBeforeInlineComment: true}
 	mycnf, err := ini.LoadSources(opts, file)
 	if err != nil {
 		return config.MySQL{}, err
-- 
2.43.0


From 72774dfd5079c20bbc3965ab368ac2798cc8345f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:20 +0000
Subject: [PATCH 75/76] fix: a client that stopped at one iteration limit used
 up an iteration of a limit it shares with others

---
 client/client.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/client/client.go b/client/client.go
index b991dde..5735aa7 100644
--- a/client/client.go
+++ b/client/client.go
@@ -230,13 +230,15 @@ func (c *Client) Run(ctxExec context.Context) {
 	//
 ITER:
 	for {
-		if c.IterExecGroup > 0 && atomic.AddUint32(c.IterExecGroupPtr, 1) > c.IterExecGroup {
+		// Most specific limit first, so that a client which stops does not use up
+		// an iteration of a limit it shares with other clients
+		if c.Iter > 0 && rc[data.ITER] == c.Iter {
 			return
 		}
 		if c.IterClients > 0 && atomic.AddUint32(c.IterClientsPtr, 1) > c.IterClients {
 			return
 		}
-		if c.Iter > 0 && rc[data.ITER] == c.Iter {
+		if c.IterExecGroup > 0 && atomic.AddUint32(c.IterExecGroupPtr, 1) > c.IterExecGroup {
 			return
 		}
 		rc[data.ITER] += 1
-- 
2.43.0


From f9f797306dc3df8734ed93b3b82b1027d97e1325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:35 +0000
Subject: [PATCH 76/76] fix: measure data size with a complete query after an
 error

---
 limit/data.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/limit/data.go b/limit/data.go
index 16aaf5a..7323d25 100644
--- a/limit/data.go
+++ b/limit/data.go
@@ -191,6 +191,7 @@ func (lm *Size) More(conn *sql.Conn) bool {
 			rows, err := conn.QueryContext(ctx, "SHOW FULL TABLES FROM `"+lm.db+"`")
 			if err != nil {
 				log.Printf("Error running SHOW FULL TABLES: %s", err)
+				lm.query = "" // incomplete
 				return false
 			}
 			for rows.Next() {
@@ -213,6 +214,7 @@ func (lm *Size) More(conn *sql.Conn) bool {
 				lm.db, tbl = tbl[:i], tbl[i+1:]
 			} else if err := conn.QueryRowContext(ctx, "SELECT DATABASE()").Scan(&lm.db); err != nil {
 				log.Printf("Error getting current database: %s", err)
+				lm.query = "" // incomplete
 				return false
 			}
 			lm.query += "table_schema='" + lm.db + "' AND table_name='" + tbl + "'"
-- 
2.43.0

