From eb8ba07695b64b5b85ef924ec0bdb792632c0935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:35 +0000
Subject: [PATCH 01/65] fix: give every connection its own selected database

---
 server/handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/handler.go b/server/handler.go
index 017598f..bc9b81d 100644
--- a/server/handler.go
+++ b/server/handler.go
@@ -29,6 +29,9 @@ func NewManager(config *config.Config) *Manager {
 }
 
 func (m *Manager) Handle(conn net.Conn) {
+	// the selected database belongs to the connection, not to the server
+	m = &Manager{db: m.dbs[0], dbs: m.dbs}
+
 	// parse conn
 	ch := resp.ParseStream(conn)
 
-- 
2.43.0


From 7dde247d10436fdd80994ef29e07e5f0564a58ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:23 +0000
Subject: [PATCH 02/65] fix: answer SELECT of a database out of range with an
 error

---
 server/handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/handler.go b/server/handler.go
index bc9b81d..920f3dd 100644
--- a/server/handler.go
+++ b/server/handler.go
@@ -114,7 +114,7 @@ func (m *Manager) Select(cmd [][]byte) resp.RedisData {
 	}
 
 	if dbIdx >= len(m.dbs) || dbIdx < 0 {
-		return resp.NewSimpleString(fmt.Sprintf("ERR DB index is out of range with maximum %d", len(m.dbs)))
+		return resp.NewSimpleError(fmt.Sprintf("ERR DB index is out of range with maximum %d", len(m.dbs)))
 	}
 
 	m.db = m.dbs[dbIdx]
-- 
2.43.0


From ae16646e623121d78481b899394e4c3a9f144c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:24 +0000
Subject: [PATCH 03/65] fix: ignore empty request arrays instead of crashing
 the server

---
 server/handler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/handler.go b/server/handler.go
index 920f3dd..40c5c28 100644
--- a/server/handler.go
+++ b/server/handler.go
@@ -70,6 +70,10 @@ func (m *Manager) Handle(conn net.Conn) {
 
 		// excute parsed command
 		cmd := arrayData.ToCommand()
+		if len(cmd) == 0 {
+			// an empty or null array is no request
+			continue
+		}
 		redisData := m.ExecCommand(cmd)
 
 		// write result to connection
-- 
2.43.0


From 223df51fc4fc36511545f1ecbebe94a8fef67f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:25 +0000
Subject: [PATCH 04/65] fix: reject bare line ends and unknown type bytes as
 protocol errors

---
 resp/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resp/parser.go b/resp/parser.go
index 88efef6..4c03055 100644
--- a/resp/parser.go
+++ b/resp/parser.go
@@ -142,7 +142,7 @@ func readline(reader *bufio.Reader, buf *readBuffer) (msg []byte, err error) {
 		if err != nil {
 			return nil, err
 		}
-		if len(msg) == 0 || msg[len(msg)-2] != '\r' {
+		if len(msg) < 3 || msg[len(msg)-2] != '\r' {
 			return nil, errors.New("Protocol error: stream msg invalid")
 		}
 	}
@@ -166,6 +166,8 @@ func parseSingleLine(msg []byte) (RedisData, error) {
 			return nil, err
 		}
 		data = NewInteger(integerData)
+	default:
+		return nil, errors.New("Protocol error: unknown data type")
 	}
 
 	return data, nil
-- 
2.43.0


From e34da02fde1c10bb53f4d2d531d9ad75ab30de68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:50 +0000
Subject: [PATCH 05/65] fix: end the parser goroutine when the stream fails

---
 resp/parser.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/resp/parser.go b/resp/parser.go
index 4c03055..ca8b24f 100644
--- a/resp/parser.go
+++ b/resp/parser.go
@@ -42,8 +42,8 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 			}
 			logger.Error("Stream Error: ", err)
 			ch <- &RedisResp{Err: err}
-			buf = &readBuffer{}
-			continue
+			close(ch)
+			return
 		}
 		// make redis data
 		if buf.multiLine {
@@ -59,7 +59,8 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 				if err != nil {
 					logger.Error("Stream Error: ", err)
 					ch <- &RedisResp{Err: err}
-					buf = &readBuffer{}
+					close(ch)
+					return
 				} else {
 					if buf.stringLen == -1 { // null bulk string
 						if buf.inArray { // Null elements in arrays; ["hello",nil,"world"]
@@ -85,7 +86,8 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 				if err != nil {
 					logger.Error("Stream Error: ", err)
 					ch <- &RedisResp{Err: err}
-					buf = &readBuffer{}
+					close(ch)
+					return
 				} else {
 					if buf.arrayLen == -1 { // null bulk string
 						ch <- &RedisResp{Data: NewArray(nil)}
@@ -104,8 +106,8 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 		if err != nil {
 			logger.Error("Stream Error: ", err)
 			ch <- &RedisResp{Err: err}
-			buf = &readBuffer{}
-			continue
+			close(ch)
+			return
 		}
 
 		// send redis data
-- 
2.43.0


From 2c6d62f2de9fb06f14c8772995fda471743ee7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:52 +0000
Subject: [PATCH 06/65] fix: do not allocate a bulk string before its bytes
 arrive

---
 resp/parser.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/resp/parser.go b/resp/parser.go
index ca8b24f..f1ecfb5 100644
--- a/resp/parser.go
+++ b/resp/parser.go
@@ -8,6 +8,12 @@ import (
 	"strconv"
 )
 
+// longest bulk string accepted: 512MB
+const maxBulkLen = 512 * 1024 * 1024
+
+// bytes of a bulk string read at a time
+const maxReadChunk = 1024 * 1024
+
 type RedisResp struct {
 	Data RedisData
 	Err  error
@@ -127,10 +133,18 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 
 func readline(reader *bufio.Reader, buf *readBuffer) (msg []byte, err error) {
 	if buf.multiLine { // read bulk string
-		msg = make([]byte, buf.stringLen+2)
-		_, err = io.ReadFull(reader, msg)
-		if err != nil {
-			return nil, err
+		// memory grows with the bytes received, not with the announced length
+		for rest := buf.stringLen + 2; rest > 0; {
+			chunk := rest
+			if chunk > maxReadChunk {
+				chunk = maxReadChunk
+			}
+			msg = append(msg, make([]byte, chunk)...)
+			_, err = io.ReadFull(reader, msg[int64(len(msg))-chunk:])
+			if err != nil {
+				return nil, err
+			}
+			rest -= chunk
 		}
 
 		if msg[len(msg)-1] != '\n' || msg[len(msg)-2] != '\r' {
@@ -178,7 +192,7 @@ func parseSingleLine(msg []byte) (RedisData, error) {
 func parseBulkStringHeader(msg []byte, buf *readBuffer) error {
 	// read header; discard flag and "\r\n"
 	stringLen, err := strconv.ParseInt(string(msg[1:len(msg)-2]), 10, 64)
-	if stringLen < -1 || err != nil {
+	if stringLen < -1 || stringLen > maxBulkLen || err != nil {
 		return errors.New("Protocol error: " + string(msg))
 	}
 
-- 
2.43.0


From e7d27ecbdd3f18f4d5115d22e0ecc79e5fdbf0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:53 +0000
Subject: [PATCH 07/65] fix: keep CR and LF quoted in error replies from
 splitting the reply

---
 resp/data.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resp/data.go b/resp/data.go
index 65b99da..56609c4 100644
--- a/resp/data.go
+++ b/resp/data.go
@@ -83,7 +83,9 @@ func (e *SimpleError) GetBytesData() []byte {
 }
 
 func (e *SimpleError) ToRedisFormat() []byte {
-	return []byte(fmt.Sprintf("-%s%s", e.data, CRLF)) // -Error message\r\n
+	// an error is a single line whatever client bytes it quotes
+	data := strings.NewReplacer("\r", " ", "\n", " ").Replace(e.data)
+	return []byte(fmt.Sprintf("-%s%s", data, CRLF)) // -Error message\r\n
 }
 
 func (e *SimpleError) String() string {
-- 
2.43.0


From 8d8de9a8b19a8ae11bfbfb421607a55d49b08a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:54 +0000
Subject: [PATCH 08/65] fix: keep the line end of a bad header out of its log
 line

---
 resp/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resp/parser.go b/resp/parser.go
index f1ecfb5..49c0e69 100644
--- a/resp/parser.go
+++ b/resp/parser.go
@@ -193,7 +193,7 @@ func parseBulkStringHeader(msg []byte, buf *readBuffer) error {
 	// read header; discard flag and "\r\n"
 	stringLen, err := strconv.ParseInt(string(msg[1:len(msg)-2]), 10, 64)
 	if stringLen < -1 || stringLen > maxBulkLen || err != nil {
-		return errors.New("Protocol error: " + string(msg))
+		return errors.New("Protocol error: " + string(msg[:len(msg)-2]))
 	}
 
 	// len == -1 or len == 0 or len > 0
@@ -218,7 +218,7 @@ func parseArrayHeader(msg []byte, buf *readBuffer) error {
 	// read header; discard flag and "\r\n"
 	arrayLen, err := strconv.ParseInt(string(msg[1:len(msg)-2]), 10, 64)
 	if arrayLen < -1 || err != nil {
-		return errors.New("Protocol error: " + string(msg))
+		return errors.New("Protocol error: " + string(msg[:len(msg)-2]))
 	}
 
 	// len == -1 or len == 0 or len > 0
-- 
2.43.0


From b030c7c50109a880cbd110cd872707578859ff22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:04 +0000
Subject: [PATCH 09/65] fix: stop reading a configuration file that ends in a
 blank line

---
 config/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/config/config.go b/config/config.go
index 00d7d7a..eda212a 100644
--- a/config/config.go
+++ b/config/config.go
@@ -99,6 +99,9 @@ func (conf *Config) ParseConfFile() error {
 		argvs := strings.Fields(line)
 
 		if len(argvs) == 0 {
+			if ioErr == io.EOF {
+				break
+			}
 			continue
 		}
 
-- 
2.43.0


From 13b8c286b430ff1bae8d169381d698de5504eb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:06 +0000
Subject: [PATCH 10/65] fix: report a failed read of the configuration file

---
 config/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index eda212a..db77c2a 100644
--- a/config/config.go
+++ b/config/config.go
@@ -93,7 +93,7 @@ func (conf *Config) ParseConfFile() error {
 	for {
 		line, ioErr := fileReader.ReadString('\n')
 		if ioErr != nil && ioErr != io.EOF {
-			return err
+			return ioErr
 		}
 
 		argvs := strings.Fields(line)
-- 
2.43.0


From 74554b89a4143d2548ae13d80a73428089aaca2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:07 +0000
Subject: [PATCH 11/65] fix: refuse a configuration line without value instead
 of crashing

---
 config/config.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index db77c2a..1d16c11 100644
--- a/config/config.go
+++ b/config/config.go
@@ -105,7 +105,15 @@ func (conf *Config) ParseConfFile() error {
 			continue
 		}
 
-		switch strings.ToLower(argvs[0]) {
+		name := strings.ToLower(argvs[0])
+		if len(argvs) == 1 {
+			switch name {
+			case "host", "port", "logdir", "loglevel", "segnum", "dbnum":
+				return fmt.Errorf("missing value for %s", name)
+			}
+		}
+
+		switch name {
 		case "host":
 			if ip := net.ParseIP(argvs[1]); ip == nil {
 				return errors.New("given host invaild")
-- 
2.43.0


From 1b19a6993095986984f86f53db8236aad2dc26c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:08 +0000
Subject: [PATCH 12/65] fix: refuse out-of-range port, segnum and dbnum
 settings

---
 config/config.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/config/config.go b/config/config.go
index 1d16c11..f6f6fac 100644
--- a/config/config.go
+++ b/config/config.go
@@ -69,6 +69,10 @@ func Init() (*Config, error) {
 		ipErr := &CfgError{message: fmt.Sprintf("Ip address %s is invaild", _conf.Host)}
 		return nil, ipErr
 	}
+	if _conf.Port < 0 || _conf.Port > 65535 || _conf.SegNum < 1 || _conf.DbNum < 1 {
+		return nil, &CfgError{message: "port, segnum or dbnum out of range"}
+	}
+
 	if _conf.ConfigFile != "" {
 		err := _conf.ParseConfFile()
 		if err != nil {
@@ -124,6 +128,9 @@ func (conf *Config) ParseConfFile() error {
 			if err != nil {
 				return err
 			}
+			if conf.Port < 0 || conf.Port > 65535 {
+				return errors.New("given port out of range")
+			}
 		case "logdir":
 			conf.LogDir = argvs[1]
 		case "loglevel":
@@ -133,11 +140,17 @@ func (conf *Config) ParseConfFile() error {
 			if err != nil {
 				return err
 			}
+			if conf.SegNum < 1 {
+				return errors.New("given segnum out of range")
+			}
 		case "dbnum":
 			conf.DbNum, err = strconv.Atoi(argvs[1])
 			if err != nil {
 				return err
 			}
+			if conf.DbNum < 1 {
+				return errors.New("given dbnum out of range")
+			}
 		}
 
 		if ioErr == io.EOF {
-- 
2.43.0


From 2d1fd91f4bfb6e2f8fa0ebc017dd328ed1741ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:09 +0000
Subject: [PATCH 13/65] fix: append to an existing log file instead of
 overwriting its lines

---
 logger/logger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logger/logger.go b/logger/logger.go
index 4951003..5eb801d 100644
--- a/logger/logger.go
+++ b/logger/logger.go
@@ -62,7 +62,7 @@ func Init(config *config.Config) error {
 
 	// check file
 	fileName := path.Join(logConf.Path, logConf.Name)
-	logFile, err = os.OpenFile(fileName, os.O_RDWR|os.O_CREATE, 0755)
+	logFile, err = os.OpenFile(fileName, os.O_RDWR|os.O_CREATE|os.O_APPEND, 0755)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 5bbe9090f8ec3c9f4880ee4994933f2c41c7a2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:45 +0000
Subject: [PATCH 14/65] fix: match globs correctly after a star and with any
 character class

---
 util/util.go | 139 +++++++++++++++++++++++++--------------------------
 1 file changed, 68 insertions(+), 71 deletions(-)

diff --git a/util/util.go b/util/util.go
index 2667940..444630a 100644
--- a/util/util.go
+++ b/util/util.go
@@ -39,84 +39,81 @@ func PattenMatch(pattern, src string) bool {
 	}
 
 	patPos, srcPos := 0, 0
-	for patPos < patLen {
-		switch pattern[patPos] {
-		case '?': // h?llo
+	starPat, starSrc := -1, 0 // where to resume when the run of the last star grows
+	for srcPos < srcLen {
+		if patPos < patLen && pattern[patPos] == '*' { // h*llo
+			patPos++
+			starPat, starSrc = patPos, srcPos
+			continue
+		}
+		if next, ok := matchByte(pattern, patPos, src[srcPos]); ok {
+			patPos = next
 			srcPos++
-		case '*': // h*llo
-			for patPos < patLen && pattern[patPos] == '*' {
-				patPos++
-			}
-			if patPos == patLen {
-				return true
-			}
-			for srcPos < srcLen {
-				for srcPos < srcLen && src[srcPos] != pattern[patPos] {
-					srcPos++
-				}
-				if srcPos == srcLen {
-					return patPos == patLen
-				}
-				if PattenMatch(pattern[patPos+1:], src[srcPos+1:]) {
-					return true
-				} else {
-					srcPos++
-				}
-			}
+			continue
+		}
+		if starPat < 0 {
 			return false
-		case '[':
-			var not, close, match bool
+		}
+		starSrc++
+		patPos, srcPos = starPat, starSrc
+	}
+
+	// src has been cosumed
+	for patPos < patLen && pattern[patPos] == '*' {
+		patPos++
+	}
+
+	return patPos == patLen
+}
+
+// match one byte with the pattern element at patPos; returns the position of the next element
+func matchByte(pattern string, patPos int, c byte) (int, bool) {
+	patLen := len(pattern)
+	if patPos == patLen {
+		return patPos, false
+	}
+
+	switch pattern[patPos] {
+	case '?': // h?llo
+		return patPos + 1, true
+	case '[':
+		var not, close, match bool
+		patPos++
+		if patPos == patLen {
+			return patPos, false
+		}
+
+		if pattern[patPos] == '^' {
+			not = true
 			patPos++
-			if patPos == patLen {
-				return false
-			}
-			if pattern[patPos] == '^' {
-				not = true
-				patPos++
-			}
-			for patPos < patLen {
-				if pattern[patPos] == ']' {
-					close = true
-					break
-				} else if pattern[patPos] == '-' {
-					start, end := pattern[patPos-1], pattern[patPos+1]
-					if src[srcPos] >= start && src[srcPos] <= end {
-						match = true
-					}
-					patPos++
-				} else {
-					if pattern[patPos] == src[srcPos] { //h[ae]llo and h[^e]llo
-						match = true
-					}
+		}
+
+		for patPos < patLen {
+			if pattern[patPos] == ']' {
+				close = true
+				break
+			} else if patPos+2 < patLen && pattern[patPos+1] == '-' && pattern[patPos+2] != ']' { //h[a-b]llo
+				start, end := pattern[patPos], pattern[patPos+2]
+				if c >= start && c <= end {
+					match = true
+				}
+				patPos += 2
+			} else {
+				if pattern[patPos] == c { //h[ae]llo and h[^e]llo
+					match = true
 				}
-				patPos++
-			}
-			if !close {
-				return false
-			}
-			if not {
-				match = !match
-			}
-			if !match {
-				return false
-			}
-			srcPos++
-		default:
-			if pattern[patPos] != src[srcPos] {
-				return false
 			}
-			srcPos++
+			patPos++
 		}
-		patPos++
 
-		// src has been cosumed
-		if srcPos == srcLen {
-			for patPos < patLen && pattern[patPos] == '*' {
-				patPos++
-			}
-			break
+		if !close {
+			return patPos, false
 		}
+		if not {
+			match = !match
+		}
+		return patPos + 1, match
+	default:
+		return patPos + 1, pattern[patPos] == c
 	}
-
-	return patPos == patLen && srcPos == srcLen
 }
-- 
2.43.0


From 18cd31756bf98e7093236dd36877e058d21788f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:00 +0000
Subject: [PATCH 15/65] fix: list and count keys safely while other clients add
 and remove keys

---
 memdb/concurrentMap.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/memdb/concurrentMap.go b/memdb/concurrentMap.go
index 72cf441..84db7e9 100644
--- a/memdb/concurrentMap.go
+++ b/memdb/concurrentMap.go
@@ -3,14 +3,15 @@ package memdb
 import (
 	"gRedis/util"
 	"sync"
+	"sync/atomic"
 )
 
 const MaxSegSize int = int(1<<32 - 1) // max signed int32
 
 type ConcurrentMap struct {
 	table []*segment
-	size  int // table size
-	count int // key counts
+	size  int   // table size
+	count int64 // key counts, shared by all segments
 }
 
 type segment struct {
@@ -52,7 +53,7 @@ func (m *ConcurrentMap) Set(key string, value any) int {
 
 	if _, ok := segment.ht[key]; !ok {
 		added = 1
-		m.count++
+		atomic.AddInt64(&m.count, 1)
 	}
 	segment.ht[key] = value
 	return added
@@ -67,7 +68,7 @@ func (m *ConcurrentMap) Delete(key string) int {
 
 	if _, ok := segment.ht[key]; ok {
 		delete(segment.ht, key)
-		m.count--
+		atomic.AddInt64(&m.count, -1)
 		return 1
 	}
 
@@ -89,7 +90,7 @@ func (m *ConcurrentMap) Size() int {
 }
 
 func (m *ConcurrentMap) Count() int {
-	return m.count
+	return int(atomic.LoadInt64(&m.count))
 }
 
 func (m *ConcurrentMap) Clear() {
@@ -98,13 +99,12 @@ func (m *ConcurrentMap) Clear() {
 
 // 这里拿到的keys有可能有过期的，需要lazy deletion
 func (m *ConcurrentMap) Keys() []string {
-	keys := make([]string, m.count)
-	k := 0
+	// keys may come and go while the segments are visited
+	keys := make([]string, 0, m.Count())
 	for i := range m.table {
 		m.table[i].rwMu.Lock()
 		for key := range m.table[i].ht {
-			keys[k] = key
-			k++
+			keys = append(keys, key)
 		}
 		m.table[i].rwMu.Unlock()
 	}
-- 
2.43.0


From a75010b569026edc8ed0de9f0d167bcc72fedd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:01 +0000
Subject: [PATCH 16/65] fix: recheck the deadline under the lock before
 deleting an expired key

---
 memdb/memdb.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/memdb/memdb.go b/memdb/memdb.go
index b450868..7a6d939 100644
--- a/memdb/memdb.go
+++ b/memdb/memdb.go
@@ -55,6 +55,10 @@ func (db *MemDb) DeleteExpiredKey(key string) bool {
 	if db.CheckExpire(key) {
 		db.locks.Lock(key)
 		defer db.locks.UnLock(key)
+		// another client may have replaced the key before the lock was held
+		if !db.CheckExpire(key) {
+			return false
+		}
 		db.dict.Delete(key)
 		db.expires.Delete(key)
 		return true
-- 
2.43.0


From ee865c47c2353308c503ee1f78af0af8380d731e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:36 +0000
Subject: [PATCH 17/65] fix: let SETNX check for the key under its lock

---
 memdb/strings.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 42a7871..d6a3726 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -375,15 +375,15 @@ func setNxString(db *MemDb, cmd [][]byte) resp.RedisData {
 	key := string(cmd[1])
 	db.DeleteExpiredKey(key)
 
-	if _, ok := db.dict.Get(key); ok {
-		return resp.NewInteger(0)
-	}
-
 	val := cmd[2]
 
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
+	if _, ok := db.dict.Get(key); ok {
+		return resp.NewInteger(0)
+	}
+
 	db.dict.Set(key, val)
 
 	return resp.NewInteger(1)
-- 
2.43.0


From 54d4377fbc1b2453e305f946c7fab0c913326abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:38 +0000
Subject: [PATCH 18/65] fix: never report a just passed deadline as no deadline
 in TTL

---
 memdb/keys.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index ceb418b..1508c30 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -174,7 +174,13 @@ func ttlKey(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewInteger(int64(-1))
 	}
 
-	return resp.NewInteger(ttl.(int64) - now)
+	remaining := ttl.(int64) - now
+	if remaining < 0 {
+		// the deadline passed in the meantime
+		return resp.NewInteger(int64(-2))
+	}
+
+	return resp.NewInteger(remaining)
 }
 
 func renameKey(db *MemDb, cmd [][]byte) resp.RedisData {
-- 
2.43.0


From 9634d8f9ab5e57c087f2c31987155687bc6917e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:39 +0000
Subject: [PATCH 19/65] fix: make DEL of several keys atomic

---
 memdb/keys.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index 1508c30..394346d 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -24,15 +24,21 @@ func delKey(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("wrong number of arguments for command")
 	}
 
-	deleted := 0
+	keys := make([]string, 0, len(cmd)-1)
 	for _, k := range cmd[1:] {
 		key := string(k)
-		if !db.DeleteExpiredKey(key) {
-			db.locks.Lock(key)
-			deleted += db.dict.Delete(key)
-			db.DeleteExpire(key)
-			db.locks.UnLock(key)
-		}
+		db.DeleteExpiredKey(key)
+		keys = append(keys, key)
+	}
+
+	// all keys disappear at once
+	db.locks.MLock(keys)
+	defer db.locks.MUnLock(keys)
+
+	deleted := 0
+	for _, key := range keys {
+		deleted += db.dict.Delete(key)
+		db.DeleteExpire(key)
 	}
 
 	return resp.NewInteger(int64(deleted))
-- 
2.43.0


From dfd5267f19cecc30d23f69d8050a332d2f8895b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:40 +0000
Subject: [PATCH 20/65] fix: make EXISTS of several keys atomic

---
 memdb/keys.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index 394346d..2544866 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -49,15 +49,21 @@ func existsKey(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("wrong number of arguments for command")
 	}
 
-	existed := 0
+	keys := make([]string, 0, len(cmd)-1)
 	for _, k := range cmd[1:] {
 		key := string(k)
-		if !db.DeleteExpiredKey(key) {
-			db.locks.RLock(key)
-			if _, ok := db.dict.Get(key); ok {
-				existed++
-			}
-			db.locks.RUnLock(key)
+		db.DeleteExpiredKey(key)
+		keys = append(keys, key)
+	}
+
+	// all keys are seen at the same moment
+	db.locks.MRLock(keys)
+	defer db.locks.MRUnLock(keys)
+
+	existed := 0
+	for _, key := range keys {
+		if _, ok := db.dict.Get(key); ok {
+			existed++
 		}
 	}
 
-- 
2.43.0


From 61d5803fbac7dd3a0e4b1d4a658c562957f2342b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:41 +0000
Subject: [PATCH 21/65] fix: answer MGET with one element per key, read
 atomically

---
 memdb/strings.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index d6a3726..f84d872 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -295,22 +295,26 @@ func mGetString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	res := make([]resp.RedisData, 0)
 
+	keys := make([]string, 0, len(cmd)-1)
 	for _, k := range cmd[1:] {
 		key := string(k)
-		if !db.DeleteExpiredKey(key) {
-			db.locks.RLock(key)
-
-			if val, ok := db.dict.Get(key); ok {
-				if v, ok := val.([]byte); ok {
-					res = append(res, resp.NewBulkString(v))
-				} else {
-					res = append(res, resp.NewBulkString(nil)) // not string
-				}
+		db.DeleteExpiredKey(key)
+		keys = append(keys, key)
+	}
+
+	// all values are read at the same moment, one reply element per key
+	db.locks.MRLock(keys)
+	defer db.locks.MRUnLock(keys)
+
+	for _, key := range keys {
+		if val, ok := db.dict.Get(key); ok {
+			if v, ok := val.([]byte); ok {
+				res = append(res, resp.NewBulkString(v))
 			} else {
-				res = append(res, resp.NewBulkString(nil))
+				res = append(res, resp.NewBulkString(nil)) // not string
 			}
-
-			db.locks.RUnLock(key)
+		} else {
+			res = append(res, resp.NewBulkString(nil))
 		}
 	}
 
-- 
2.43.0


From 6afbf708e2cf2e97bf47b36b2ebcd98125cdc0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:59 +0000
Subject: [PATCH 22/65] fix: let PERSIST report 0 when there was no timeout to
 remove

---
 memdb/keys.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index 2544866..7e3307b 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -159,9 +159,8 @@ func persistKey(db *MemDb, cmd [][]byte) resp.RedisData {
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
-	db.DeleteExpire(key)
-
-	return resp.NewInteger(int64(1))
+	// 1 only if a timeout was removed
+	return resp.NewInteger(int64(db.DeleteExpire(key)))
 }
 
 func ttlKey(db *MemDb, cmd [][]byte) resp.RedisData {
-- 
2.43.0


From ec2c6851c4a6594048d994a45054d75d151d1a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:00 +0000
Subject: [PATCH 23/65] fix: let EXPIRE LT apply to a key without expiry

---
 memdb/keys.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index 7e3307b..500812a 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -135,7 +135,8 @@ func expireKey(db *MemDb, cmd [][]byte) resp.RedisData {
 			res = db.SetExpire(key, ttl)
 		}
 	case "lt":
-		if v, ok := db.expires.Get(key); ok && ttl < v.(int64) {
+		// a key without expiry counts as living forever
+		if v, ok := db.expires.Get(key); !ok || ttl < v.(int64) {
 			res = db.SetExpire(key, ttl)
 		}
 	default:
-- 
2.43.0


From ddd0b28c9924bc7e22d2951abfbdd28135761bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:01 +0000
Subject: [PATCH 24/65] fix: refuse an EXPIRE that overflows the deadline

---
 memdb/keys.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index 500812a..63d9125 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"gRedis/resp"
 	"gRedis/util"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -105,7 +106,11 @@ func expireKey(db *MemDb, cmd [][]byte) resp.RedisData {
 	if err != nil {
 		return resp.NewSimpleError("value is not an integer")
 	}
-	ttl := time.Now().Unix() + v
+	now := time.Now().Unix()
+	if v > math.MaxInt64-now {
+		return resp.NewSimpleError("invalid expire time")
+	}
+	ttl := now + v
 
 	// get option
 	var option string
-- 
2.43.0


From eec544e8c03c7b461f1f6c1600e5bb81306a3fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:35 +0000
Subject: [PATCH 25/65] fix: refuse SET EX/PX without a valid number instead of
 crashing

---
 memdb/strings.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index f84d872..0fbce74 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -47,18 +47,18 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 			optNum++
 			i++
 			if i >= len(cmd) {
-				resp.NewSimpleError("syntax error")
+				return resp.NewSimpleError("syntax error")
 			}
 			exval, err = strconv.ParseInt(string(cmd[i]), 10, 64)
 			if err != nil {
-				resp.NewSimpleError("value is not an integer")
+				return resp.NewSimpleError("value is not an integer")
 			}
 		case "px":
 			px = true
 			optNum++
 			i++
 			if i >= len(cmd) {
-				resp.NewSimpleError("syntax error")
+				return resp.NewSimpleError("syntax error")
 			}
 			pxval, err = strconv.ParseInt(string(cmd[i]), 10, 64)
 			if err != nil {
-- 
2.43.0


From eb1603b22cd687de6f422de9f80233017bdf3baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:36 +0000
Subject: [PATCH 26/65] fix: read the argument of SET EXAT and PXAT

---
 memdb/strings.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/memdb/strings.go b/memdb/strings.go
index 0fbce74..b05c55a 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -67,6 +67,7 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 		case "exat":
 			exat = true
 			optNum++
+			i++
 			if i >= len(cmd) {
 				return resp.NewSimpleError("syntax error")
 			}
@@ -77,6 +78,7 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 		case "pxat":
 			pxat = true
 			optNum++
+			i++
 			if i >= len(cmd) {
 				return resp.NewSimpleError("syntax error")
 			}
-- 
2.43.0


From 60a847fd7acad8e90043730f7fc94208c0bfc23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:37 +0000
Subject: [PATCH 27/65] fix: refuse SET with an expire time that is not
 positive or overflows

---
 memdb/strings.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/memdb/strings.go b/memdb/strings.go
index b05c55a..d7a7eba 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -3,6 +3,7 @@ package memdb
 import (
 	"fmt"
 	"gRedis/resp"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -97,6 +98,9 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 	if nx && xx || optNum > 1 {
 		return resp.NewSimpleError("syntax error")
 	}
+	if ex && (exval <= 0 || exval > math.MaxInt64-time.Now().Unix()) || px && pxval <= 0 || exat && exatval <= 0 || pxat && pxatval <= 0 {
+		return resp.NewSimpleError("invalid expire time in 'set' command")
+	}
 
 	// set
 	var res resp.RedisData
-- 
2.43.0


From 1e6d158600ba9d087f50ca08d263207e422ed137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:38 +0000
Subject: [PATCH 28/65] fix: let SET overwrite a value of any type

---
 memdb/strings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index d7a7eba..1265364 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -108,7 +108,7 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 	defer db.locks.UnLock(key)
 
 	oldVal, oldOk := db.dict.Get(key)
-	if oldOk {
+	if oldOk && get {
 		if _, ok := oldVal.([]byte); !ok {
 			return resp.NewSimpleError("The value stored at key is not a string")
 		}
-- 
2.43.0


From fd6566ce0259d1b4700f5d52083be16caa993b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:39 +0000
Subject: [PATCH 29/65] fix: leave the expiry alone when SET NX/XX does not set

---
 memdb/strings.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/memdb/strings.go b/memdb/strings.go
index 1265364..d4b172a 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -143,6 +143,11 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 	}
 
+	if nx && oldOk || xx && !oldOk {
+		// nothing was set, the expiry stays as it is
+		return res
+	}
+
 	if !keepttl {
 		db.DeleteExpire(key)
 	}
-- 
2.43.0


From aa27de6c78c4538d2a96be377561da2277e737c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:40 +0000
Subject: [PATCH 30/65] fix: refuse SETEX with an expire time that is not
 positive or overflows

---
 memdb/strings.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/memdb/strings.go b/memdb/strings.go
index d4b172a..5ef9007 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -370,6 +370,10 @@ func setExString(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("value is not an integer")
 	}
 
+	if sec <= 0 || sec > math.MaxInt64-time.Now().Unix() {
+		return resp.NewSimpleError("invalid expire time in 'setex' command")
+	}
+
 	val := cmd[3]
 
 	db.locks.Lock(key)
-- 
2.43.0


From 5714ce103690b37878197cc7c05cc61e34d564b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:18 +0000
Subject: [PATCH 31/65] fix: clamp the end of GETRANGE before it can overflow

---
 memdb/strings.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 5ef9007..5b7e725 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -233,6 +233,9 @@ func getRangeString(db *MemDb, cmd [][]byte) resp.RedisData {
 	if end < 0 {
 		end = len(v) + end
 	}
+	if end >= len(v) {
+		end = len(v) - 1
+	}
 	end++
 
 	if start > end || start >= len(v) || end < 0 {
@@ -243,10 +246,6 @@ func getRangeString(db *MemDb, cmd [][]byte) resp.RedisData {
 		start = 0
 	}
 
-	if end > len(v) {
-		end = len(v)
-	}
-
 	return resp.NewBulkString(v[start:end])
 }
 
-- 
2.43.0


From ea61030c0cdb24a6f56b4bbd8d8b572061ff9061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:19 +0000
Subject: [PATCH 32/65] fix: let SETRANGE overwrite only its range, on a
 bounded copy

---
 memdb/strings.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 5b7e725..b3bc2e7 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -9,6 +9,9 @@ import (
 	"time"
 )
 
+// longest string SETRANGE may create: 512MB
+const maxStringLen = 512 * 1024 * 1024
+
 /*
 EX seconds -- Set the specified expire time, in seconds.
 PX milliseconds -- Set the specified expire time, in milliseconds.
@@ -284,16 +287,23 @@ func setRangeString(db *MemDb, cmd [][]byte) resp.RedisData {
 		oldVal = make([]byte, 0)
 	}
 
-	//  If the offset is larger than the current length of the string at key, the string is padded with zero-bytes to make offset fit.
-	if offset > len(oldVal) {
-		newVal = oldVal
-		zeroes := make([]byte, offset-len(oldVal)) // pre-allocating memory
-		newVal = append(newVal, zeroes...)
-	} else {
-		newVal = oldVal[:offset]
+	if len(value) == 0 {
+		// nothing to write
+		return resp.NewInteger(int64(len(oldVal)))
+	}
+	if offset > maxStringLen-len(value) {
+		return resp.NewSimpleError("string exceeds maximum allowed size (512MB)")
 	}
 
-	newVal = append(newVal, value...)
+	// The value is replaced, not changed in place: replies may still refer to the old one.
+	// If the offset is larger than the current length of the string at key, the string is padded with zero-bytes to make offset fit.
+	size := offset + len(value)
+	if size < len(oldVal) {
+		size = len(oldVal)
+	}
+	newVal = make([]byte, size)
+	copy(newVal, oldVal)
+	copy(newVal[offset:], value)
 	db.dict.Set(key, newVal)
 	return resp.NewInteger(int64(len(newVal)))
 }
-- 
2.43.0


From 7c85666aeb99c0e8fd85fc426a3ccd82d52f3f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:20 +0000
Subject: [PATCH 33/65] fix: let INCR, INCRBY, DECR and DECRBY start a missing
 key at 0

---
 memdb/strings.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index b3bc2e7..a2fd72d 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -469,7 +469,9 @@ func incrString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 		return resp.NewInteger(nV)
 	} else {
-		return resp.NewInteger(0)
+		//  If the key does not exist, it is set to 0 before performing the operation.
+		db.dict.Set(key, []byte("1"))
+		return resp.NewInteger(1)
 	}
 }
 
@@ -507,7 +509,9 @@ func incrByString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 		return resp.NewInteger(nV)
 	} else {
-		return resp.NewInteger(0)
+		//  If the key does not exist, it is set to 0 before performing the operation.
+		db.dict.Set(key, []byte(strconv.FormatInt(increment, 10)))
+		return resp.NewInteger(increment)
 	}
 }
 
@@ -540,7 +544,9 @@ func decrString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 		return resp.NewInteger(nV)
 	} else {
-		return resp.NewInteger(0)
+		//  If the key does not exist, it is set to 0 before performing the operation.
+		db.dict.Set(key, []byte("-1"))
+		return resp.NewInteger(-1)
 	}
 }
 
@@ -578,7 +584,9 @@ func decrByString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 		return resp.NewInteger(nV)
 	} else {
-		return resp.NewInteger(0)
+		//  If the key does not exist, it is set to 0 before performing the operation.
+		db.dict.Set(key, []byte(strconv.FormatInt(-decrement, 10)))
+		return resp.NewInteger(-decrement)
 	}
 }
 
-- 
2.43.0


From 9f2ce00adc0993bb302fc650ebcf55d90600a095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:22 +0000
Subject: [PATCH 34/65] fix: refuse increments and decrements that overflow

---
 memdb/strings.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/memdb/strings.go b/memdb/strings.go
index a2fd72d..d60700d 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -463,6 +463,9 @@ func incrString(db *MemDb, cmd [][]byte) resp.RedisData {
 			return resp.NewSimpleError("value is not an integer")
 		}
 
+		if nV == math.MaxInt64 {
+			return resp.NewSimpleError("increment or decrement would overflow")
+		}
 		nV++
 		nVal := strconv.FormatInt(nV, 10)
 		db.dict.Set(key, []byte(nVal))
@@ -503,6 +506,9 @@ func incrByString(db *MemDb, cmd [][]byte) resp.RedisData {
 			return resp.NewSimpleError("value is not an integer")
 		}
 
+		if increment > 0 && nV > math.MaxInt64-increment || increment < 0 && nV < math.MinInt64-increment {
+			return resp.NewSimpleError("increment or decrement would overflow")
+		}
 		nV += increment
 		nVal := strconv.FormatInt(nV, 10)
 		db.dict.Set(key, []byte(nVal))
@@ -538,6 +544,9 @@ func decrString(db *MemDb, cmd [][]byte) resp.RedisData {
 			return resp.NewSimpleError("value is not an integer")
 		}
 
+		if nV == math.MinInt64 {
+			return resp.NewSimpleError("increment or decrement would overflow")
+		}
 		nV--
 		nVal := strconv.FormatInt(nV, 10)
 		db.dict.Set(key, []byte(nVal))
@@ -564,6 +573,10 @@ func decrByString(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("value is not an integer")
 	}
 
+	if decrement == math.MinInt64 {
+		return resp.NewSimpleError("decrement would overflow")
+	}
+
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
@@ -578,6 +591,9 @@ func decrByString(db *MemDb, cmd [][]byte) resp.RedisData {
 			return resp.NewSimpleError("(error) value is not an integer")
 		}
 
+		if decrement > 0 && nV < math.MinInt64+decrement || decrement < 0 && nV > math.MaxInt64+decrement {
+			return resp.NewSimpleError("increment or decrement would overflow")
+		}
 		nV -= decrement
 		nVal := strconv.FormatInt(nV, 10)
 		db.dict.Set(key, []byte(nVal))
-- 
2.43.0


From 929c3ac6718b7c73ca1e9f624918b67d37aa2dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:23 +0000
Subject: [PATCH 35/65] fix: keep NaN and Infinity out of INCRBYFLOAT

---
 memdb/strings.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index d60700d..2aadc51 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -616,7 +616,7 @@ func incrByFloatString(db *MemDb, cmd [][]byte) resp.RedisData {
 	db.DeleteExpiredKey(key)
 
 	increment, err := strconv.ParseFloat(string(cmd[2]), 64)
-	if err != nil {
+	if err != nil || math.IsNaN(increment) || math.IsInf(increment, 0) {
 		return resp.NewSimpleError("value is not an float")
 	}
 
@@ -635,6 +635,9 @@ func incrByFloatString(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 
 		fV += increment
+		if math.IsNaN(fV) || math.IsInf(fV, 0) {
+			return resp.NewSimpleError("increment would produce NaN or Infinity")
+		}
 		fVal := strconv.FormatFloat(fV, 'f', -1, 64)
 		db.dict.Set(key, []byte(fVal))
 
-- 
2.43.0


From 7bbdfea62eca3c048182119cb851a9d40c757755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:34 +0000
Subject: [PATCH 36/65] fix: let HSETNX look at the field, not at the key

---
 memdb/hash.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index 162611e..58f317c 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -421,9 +421,6 @@ func hSetNxHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	if !ok {
 		v = NewHash()
 		db.dict.Set(key, v)
-	} else {
-		// 0 if the field already exists in the hash and no operation was performed.
-		return resp.NewInteger(0)
 	}
 
 	// wrong type
@@ -434,6 +431,10 @@ func hSetNxHash(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	field := string(cmd[2])
 	val := cmd[3]
+	// 0 if the field already exists in the hash and no operation was performed.
+	if h.Exist(field) {
+		return resp.NewInteger(0)
+	}
 	h.Set(field, val)
 
 	return resp.NewInteger(1)
-- 
2.43.0


From fc18f1edabab66035f98776b342af4425148403d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:59 +0000
Subject: [PATCH 37/65] fix: do not create an empty hash when HINCRBY or
 HINCRBYFLOAT is refused

---
 memdb/hash.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index 58f317c..7db1f7c 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -161,6 +161,12 @@ func hIncrByHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	key := string(cmd[1])
 	db.DeleteExpiredKey(key)
 
+	field := string(cmd[2])
+	increment, err := strconv.Atoi(string(cmd[3]))
+	if err != nil {
+		return resp.NewSimpleError("value is not an integer")
+	}
+
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
@@ -177,12 +183,6 @@ func hIncrByHash(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 	}
 
-	field := string(cmd[2])
-	increment, err := strconv.Atoi(string(cmd[3]))
-	if err != nil {
-		return resp.NewSimpleError("value is not an integer")
-	}
-
 	val, ok := h.IncrBy(field, increment)
 	if !ok {
 		return resp.NewSimpleError("hash value is not an integer")
@@ -200,6 +200,12 @@ func hIncrByFloatHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	key := string(cmd[1])
 	db.DeleteExpiredKey(key)
 
+	field := string(cmd[2])
+	increment, err := strconv.ParseFloat(string(cmd[3]), 64)
+	if err != nil {
+		return resp.NewSimpleError("value is not an float")
+	}
+
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
@@ -217,12 +223,6 @@ func hIncrByFloatHash(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 	}
 
-	field := string(cmd[2])
-	increment, err := strconv.ParseFloat(string(cmd[3]), 64)
-	if err != nil {
-		return resp.NewSimpleError("value is not an float")
-	}
-
 	val, ok := h.IncrByFloat(field, increment)
 	if !ok {
 		return resp.NewSimpleError("hash value is not an float")
-- 
2.43.0


From b425d8646cfa051d991a17bf5525a7ae674af66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:00 +0000
Subject: [PATCH 38/65] fix: refuse a HINCRBY that overflows

---
 memdb/hash.go        | 2 +-
 memdb/hash_struct.go | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index 7db1f7c..cdde6b8 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -185,7 +185,7 @@ func hIncrByHash(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	val, ok := h.IncrBy(field, increment)
 	if !ok {
-		return resp.NewSimpleError("hash value is not an integer")
+		return resp.NewSimpleError("hash value is not an integer or would overflow")
 	}
 
 	return resp.NewInteger(int64(val))
diff --git a/memdb/hash_struct.go b/memdb/hash_struct.go
index dc73ddb..e25d431 100644
--- a/memdb/hash_struct.go
+++ b/memdb/hash_struct.go
@@ -1,6 +1,7 @@
 package memdb
 
 import (
+	"math"
 	"strconv"
 )
 
@@ -84,6 +85,9 @@ func (h *Hash) IncrBy(key string, increment int) (int, bool) {
 		if err != nil {
 			return 0, false
 		}
+		if increment > 0 && n > math.MaxInt-increment || increment < 0 && n < math.MinInt-increment {
+			return 0, false
+		}
 		value := n + increment
 		h.Set(key, []byte(strconv.Itoa(value)))
 		return value, true
-- 
2.43.0


From 960f8dd66aa33fcc97e7b76011b9d1c773ed6f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:01 +0000
Subject: [PATCH 39/65] fix: keep NaN and Infinity out of HINCRBYFLOAT

---
 memdb/hash.go        | 3 ++-
 memdb/hash_struct.go | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index cdde6b8..1909b10 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -2,6 +2,7 @@ package memdb
 
 import (
 	"gRedis/resp"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -202,7 +203,7 @@ func hIncrByFloatHash(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	field := string(cmd[2])
 	increment, err := strconv.ParseFloat(string(cmd[3]), 64)
-	if err != nil {
+	if err != nil || math.IsNaN(increment) || math.IsInf(increment, 0) {
 		return resp.NewSimpleError("value is not an float")
 	}
 
diff --git a/memdb/hash_struct.go b/memdb/hash_struct.go
index e25d431..c1235ae 100644
--- a/memdb/hash_struct.go
+++ b/memdb/hash_struct.go
@@ -105,6 +105,9 @@ func (h *Hash) IncrByFloat(key string, increment float64) (float64, bool) {
 			return 0, false
 		}
 		value := f + increment
+		if math.IsNaN(value) || math.IsInf(value, 0) {
+			return 0, false
+		}
 		h.Set(key, []byte(strconv.FormatFloat(value, 'f', -1, 64)))
 		return value, true
 	}
-- 
2.43.0


From d6e793a737b6a067a9b0a480a85825d08d849730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:02 +0000
Subject: [PATCH 40/65] fix: answer HRANDFIELD with an explicit count of 1 with
 an array

---
 memdb/hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index 1909b10..e1880af 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -553,7 +553,7 @@ func hRandFieldHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	//  a single, randomly selected field when the count option is not used
-	if count == 1 {
+	if len(cmd) == 2 {
 		fields := h.Random(1)
 		return resp.NewBulkString([]byte(fields[0]))
 	}
-- 
2.43.0


From 7041a0a71af132f8a82f4efaefe86e239fde2b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:03 +0000
Subject: [PATCH 41/65] fix: bound the memory HRANDFIELD and SRANDMEMBER spend
 on absurd counts

---
 memdb/hash.go        | 3 +++
 memdb/hash_struct.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/memdb/hash.go b/memdb/hash.go
index e1880af..0dacf1b 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -527,6 +527,9 @@ func hRandFieldHash(db *MemDb, cmd [][]byte) resp.RedisData {
 		if err != nil {
 			return resp.NewSimpleError("value is not an integer")
 		}
+		if count < -maxRandomCount {
+			return resp.NewSimpleError("value is out of range")
+		}
 	}
 
 	if len(cmd) == 4 {
diff --git a/memdb/hash_struct.go b/memdb/hash_struct.go
index c1235ae..236853a 100644
--- a/memdb/hash_struct.go
+++ b/memdb/hash_struct.go
@@ -5,6 +5,9 @@ import (
 	"strconv"
 )
 
+// most fields or members a random pick with repetitions may return
+const maxRandomCount = 1 << 20
+
 type Hash struct {
 	table map[string][]byte
 }
-- 
2.43.0


From 04a62f3f79ccd42d6be1efd0590b37a4159fc1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:04 +0000
Subject: [PATCH 42/65] fix: answer HMGET on a missing key with one nil per
 field

---
 memdb/hash.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index 0dacf1b..4677548 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -305,10 +305,7 @@ func hMGetHash(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		// an empty list when key does not exist.
-		return resp.NewArray([]resp.RedisData{})
-	}
+	db.DeleteExpiredKey(key)
 
 	db.locks.RLock(key)
 	defer db.locks.RUnLock(key)
@@ -316,8 +313,8 @@ func hMGetHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	// key not existed
 	v, ok := db.dict.Get(key)
 	if !ok {
-		// an empty list when key does not exist.
-		return resp.NewArray([]resp.RedisData{})
+		// a key that does not exist is an empty hash: every field is nil.
+		v = NewHash()
 	}
 
 	// wrong type
-- 
2.43.0


From 887fe89b5c23197fb11902db55c41abac3a8084f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:36 +0000
Subject: [PATCH 43/65] fix: bound the memory SRANDMEMBER spends on absurd
 counts

---
 memdb/set.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index 37a9c8b..b053997 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -573,6 +573,9 @@ func sRandMemberSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 	}
 
+	if countVal < -maxRandomCount {
+		return resp.NewSimpleError("value is out of range")
+	}
 	if countVal == 0 {
 		return resp.NewBulkString(nil)
 	}
@@ -599,14 +602,8 @@ func sRandMemberSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewBulkString([]byte(rand[0]))
 	}
 
-	var res []resp.RedisData
-	if countVal < 0 {
-		res = make([]resp.RedisData, 0, -countVal)
-	} else {
-		res = make([]resp.RedisData, 0, countVal)
-	}
-
 	rand = s.Random(countVal)
+	res := make([]resp.RedisData, 0, len(rand))
 	for i := 0; i < len(rand); i++ {
 		res = append(res, resp.NewBulkString([]byte(rand[i])))
 	}
-- 
2.43.0


From efd75376fd3aa173e77532262056223b49bd98eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:37 +0000
Subject: [PATCH 44/65] fix: check the type of the key also for SRANDMEMBER
 with count 0

---
 memdb/set.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index b053997..27b931a 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -576,9 +576,6 @@ func sRandMemberSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	if countVal < -maxRandomCount {
 		return resp.NewSimpleError("value is out of range")
 	}
-	if countVal == 0 {
-		return resp.NewBulkString(nil)
-	}
 
 	db.locks.RLock(key)
 	defer db.locks.RUnLock(key)
-- 
2.43.0


From 1be9c554dbb6a3e0941b20ccd6945a0c675710d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:39 +0000
Subject: [PATCH 45/65] fix: return the empty string as a member from SPOP and
 SRANDMEMBER

---
 memdb/set.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index 27b931a..bb4fe1b 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -533,9 +533,6 @@ func sPopSet(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	if !count {
 		pop := s.Pop()
-		if pop == "" {
-			return resp.NewBulkString(nil)
-		}
 		return resp.NewBulkString([]byte(pop))
 	}
 
@@ -593,9 +590,6 @@ func sRandMemberSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	var rand []string
 	if !count {
 		rand = s.Random(1)
-		if rand[0] == "" {
-			return resp.NewBulkString(nil)
-		}
 		return resp.NewBulkString([]byte(rand[0]))
 	}
 
-- 
2.43.0


From 816f663fa0b3d146c9d0b672784981790f5e51e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:40 +0000
Subject: [PATCH 46/65] fix: remove a set emptied by SREM

---
 memdb/set.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/memdb/set.go b/memdb/set.go
index bb4fe1b..69a2fb0 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -625,6 +625,13 @@ func sRemSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 	}
 
+	defer func() {
+		if s.Len() == 0 {
+			db.dict.Delete(key)
+			db.DeleteExpire(key)
+		}
+	}()
+
 	res := 0
 	for _, _key := range cmd[2:] {
 		key := string(_key)
-- 
2.43.0


From 09680c305385c858bd1199d4164658ab2e65cb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:41 +0000
Subject: [PATCH 47/65] fix: let SMOVE create a missing destination set

---
 memdb/set.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index 69a2fb0..3a2294f 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -444,9 +444,7 @@ func sMoveSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	des := string(cmd[2])
-	if db.DeleteExpiredKey(des) {
-		return resp.NewInteger(0)
-	}
+	db.DeleteExpiredKey(des)
 
 	member := string(cmd[3])
 
@@ -472,7 +470,11 @@ func sMoveSet(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	desVal, ok := db.dict.Get(des)
 	if !ok {
-		return resp.NewInteger(0)
+		if !srcSet.Has(member) {
+			return resp.NewInteger(0)
+		}
+		desVal = NewSet()
+		db.dict.Set(des, desVal)
 	}
 
 	desSet, ok := desVal.(*Set)
-- 
2.43.0


From 6e7e8a8227afc272dcc88315965f66b1d35b86ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:42 +0000
Subject: [PATCH 48/65] fix: treat an expired operand of set algebra as an
 empty set

---
 memdb/set.go | 54 ++++++++++++++++++----------------------------------
 1 file changed, 18 insertions(+), 36 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index 3a2294f..e41aad3 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -75,10 +75,9 @@ func sInterSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-1)
 	for _, _key := range cmd[1:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
+		db.DeleteExpiredKey(key)
+		// can't guarantee the key must to be existed
+		keys = append(keys, key)
 	}
 
 	db.locks.MRLock(keys)
@@ -143,15 +142,10 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-2)
 	for _, _key := range cmd[2:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
-	}
-	if len(keys) == 0 {
-		return resp.NewInteger(0)
+		db.DeleteExpiredKey(key)
+		// can't guarantee the key must to be existed
+		keys = append(keys, key)
 	}
-
 	// get primary key
 	key := keys[0]
 
@@ -224,10 +218,9 @@ func sDiffSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-1)
 	for _, _key := range cmd[1:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
+		db.DeleteExpiredKey(key)
+		// can't guarantee the key must to be existed
+		keys = append(keys, key)
 	}
 
 	db.locks.MRLock(keys)
@@ -292,15 +285,10 @@ func sDiffStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-2)
 	for _, _key := range cmd[2:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
+		db.DeleteExpiredKey(key)
+		// can't guarantee the key must to be existed
+		keys = append(keys, key)
 	}
-	if len(keys) == 0 {
-		return resp.NewInteger(0)
-	}
-
 	// get primary key
 	key := keys[0]
 
@@ -652,10 +640,9 @@ func sUnionSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-1)
 	for _, _key := range cmd[1:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
+		db.DeleteExpiredKey(key)
+		// can't guarantee the key must to be existed
+		keys = append(keys, key)
 	}
 
 	db.locks.MRLock(keys)
@@ -720,15 +707,10 @@ func sUnionStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-2)
 	for _, _key := range cmd[2:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
+		db.DeleteExpiredKey(key)
+		// can't guarantee the key must to be existed
+		keys = append(keys, key)
 	}
-	if len(keys) == 0 {
-		return resp.NewInteger(0)
-	}
-
 	// get primary key
 	key := keys[0]
 
-- 
2.43.0


From a70eafad17a11775edc221adcbdb4501c33fc4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:59 +0000
Subject: [PATCH 49/65] fix: leave the destination alone when a STORE command
 is refused

---
 memdb/set.go | 75 +++++++++++++++++++++++++++-------------------------
 1 file changed, 39 insertions(+), 36 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index e41aad3..d5dc7a8 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -167,6 +167,19 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 	}
 
+	// check the other keys before anything is changed
+	sets := make([]*Set, 0, len(keys)-1)
+	for _, key := range keys[1:] {
+		_set, ok := db.dict.Get(key)
+		if ok {
+			set, ok := _set.(*Set)
+			if !ok {
+				return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
+			}
+			sets = append(sets, set)
+		}
+	}
+
 	// whatever old destination key/value it is, just cover before return
 	_, oldOk := db.dict.Get(dest)
 	destSet := NewSet()
@@ -188,18 +201,6 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	// calculate set operation
-	sets := make([]*Set, 0, len(keys)-1)
-	for _, key := range keys[1:] {
-		_set, ok := db.dict.Get(key)
-		if ok {
-			set, ok := _set.(*Set)
-			if !ok {
-				return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
-			}
-			sets = append(sets, set)
-		}
-	}
-
 	inter := s.Intersect(sets...)
 
 	for _, mem := range inter.Members() {
@@ -310,6 +311,19 @@ func sDiffStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 	}
 
+	// check the other keys before anything is changed
+	sets := make([]*Set, 0, len(keys)-1)
+	for _, key := range keys[1:] {
+		_set, ok := db.dict.Get(key)
+		if ok {
+			set, ok := _set.(*Set)
+			if !ok {
+				return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
+			}
+			sets = append(sets, set)
+		}
+	}
+
 	// whatever old destination key/value it is, just cover old before return
 	_, oldOk := db.dict.Get(dest)
 	destSet := NewSet()
@@ -331,18 +345,6 @@ func sDiffStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	// calculate set operation
-	sets := make([]*Set, 0, len(keys)-1)
-	for _, key := range keys[1:] {
-		_set, ok := db.dict.Get(key)
-		if ok {
-			set, ok := _set.(*Set)
-			if !ok {
-				return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
-			}
-			sets = append(sets, set)
-		}
-	}
-
 	diff := s.Difference(sets...)
 
 	for _, mem := range diff.Members() {
@@ -732,6 +734,19 @@ func sUnionStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 	}
 
+	// check the other keys before anything is changed
+	sets := make([]*Set, 0, len(keys)-1)
+	for _, key := range keys[1:] {
+		_set, ok := db.dict.Get(key)
+		if ok {
+			set, ok := _set.(*Set)
+			if !ok {
+				return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
+			}
+			sets = append(sets, set)
+		}
+	}
+
 	// whatever old destination key/value it is, just cover before return
 	_, oldOk := db.dict.Get(dest)
 	destSet := NewSet()
@@ -753,18 +768,6 @@ func sUnionStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	// calculate set operation
-	sets := make([]*Set, 0, len(keys)-1)
-	for _, key := range keys[1:] {
-		_set, ok := db.dict.Get(key)
-		if ok {
-			set, ok := _set.(*Set)
-			if !ok {
-				return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
-			}
-			sets = append(sets, set)
-		}
-	}
-
 	union := s.Union(sets...)
 
 	for _, mem := range union.Members() {
-- 
2.43.0


From 4f2d06b2b993bea556f93de1c87d0638067dcb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:00 +0000
Subject: [PATCH 50/65] fix: remove the destination when a STORE command yields
 an empty set

---
 memdb/set.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index d5dc7a8..0287649 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -185,7 +185,12 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	destSet := NewSet()
 
 	defer func() {
-		db.dict.Set(dest, destSet)
+		if destSet.Len() > 0 {
+			db.dict.Set(dest, destSet)
+		} else {
+			// an empty set is no key
+			db.dict.Delete(dest)
+		}
 		if oldOk {
 			db.DeleteExpire(dest)
 		}
@@ -329,7 +334,12 @@ func sDiffStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	destSet := NewSet()
 
 	defer func() {
-		db.dict.Set(dest, destSet)
+		if destSet.Len() > 0 {
+			db.dict.Set(dest, destSet)
+		} else {
+			// an empty set is no key
+			db.dict.Delete(dest)
+		}
 		if oldOk {
 			db.DeleteExpire(dest)
 		}
@@ -752,7 +762,12 @@ func sUnionStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	destSet := NewSet()
 
 	defer func() {
-		db.dict.Set(dest, destSet)
+		if destSet.Len() > 0 {
+			db.dict.Set(dest, destSet)
+		} else {
+			// an empty set is no key
+			db.dict.Delete(dest)
+		}
 		if oldOk {
 			db.DeleteExpire(dest)
 		}
-- 
2.43.0


From 65a565231a273b851a6cdf98806e046495cd2f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:01 +0000
Subject: [PATCH 51/65] fix: count missing keys as empty sets in SINTERSTORE

---
 memdb/set.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/memdb/set.go b/memdb/set.go
index 0287649..9432ec3 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -177,6 +177,9 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 				return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 			}
 			sets = append(sets, set)
+		} else {
+			// Keys that do not exist are considered to be empty sets.
+			sets = append(sets, NewSet())
 		}
 	}
 
-- 
2.43.0


From 09605ebf493aac23666103c91bc62aec446e548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:35 +0000
Subject: [PATCH 52/65] fix: let LINSERT insert once, at the first pivot

---
 memdb/list_struct.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/memdb/list_struct.go b/memdb/list_struct.go
index 287b99a..49732eb 100644
--- a/memdb/list_struct.go
+++ b/memdb/list_struct.go
@@ -68,6 +68,7 @@ func (l *List) InsertBefore(val []byte, pivot []byte) bool {
 			cur.Prev = node
 			node.Prev.Next = node
 			l.Len++
+			break // only the first pivot counts
 		}
 	}
 	return ok
@@ -82,6 +83,7 @@ func (l *List) InsertAfter(val []byte, pivot []byte) bool {
 			cur.Next = node
 			node.Next.Prev = node
 			l.Len++
+			break // only the first pivot counts
 		}
 	}
 	return ok
-- 
2.43.0


From 6bc801b1ad0fdf1c8dd6c42fe49703ea7bfb610a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:36 +0000
Subject: [PATCH 53/65] fix: keep the smallest index from crashing LINDEX and
 LSET

---
 memdb/list_struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memdb/list_struct.go b/memdb/list_struct.go
index 49732eb..a172602 100644
--- a/memdb/list_struct.go
+++ b/memdb/list_struct.go
@@ -28,7 +28,7 @@ func NewList() *List {
 func (l *List) Index(index int) *ListNode {
 	var cur *ListNode
 	if index < 0 {
-		if -index > l.Len {
+		if index < -l.Len {
 			return nil
 		}
 		cur = l.Tail.Prev
-- 
2.43.0


From 57772e62cd96e1b9ef2abbe7c0e3c639ca77c899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:37 +0000
Subject: [PATCH 54/65] fix: let LREM accept the smallest count

---
 memdb/list_struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/memdb/list_struct.go b/memdb/list_struct.go
index a172602..5b8db02 100644
--- a/memdb/list_struct.go
+++ b/memdb/list_struct.go
@@ -171,6 +171,9 @@ func (l *List) Remove(val []byte, count int) int {
 	if count == 0 {
 		count = l.Len
 	}
+	if count < -l.Len {
+		count = -l.Len
+	}
 
 	removed := 0
 	if count > 0 {
-- 
2.43.0


From 3609dfed8b236d53eb5723cbea1778f1045069da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:54 +0000
Subject: [PATCH 55/65] fix: do not create an empty destination when LMOVE is
 refused

---
 memdb/list.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/memdb/list.go b/memdb/list.go
index 22af999..c314f1e 100644
--- a/memdb/list.go
+++ b/memdb/list.go
@@ -159,12 +159,6 @@ func lMoveList(db *MemDb, cmd [][]byte) resp.RedisData {
 	if !ok {
 		return resp.NewBulkString(nil)
 	}
-	desVal, ok := db.dict.Get(des)
-	if !ok {
-		desVal = NewList()
-		db.dict.Set(des, desVal)
-	}
-
 	// wrong type
 	srcList, ok := srcVal.(*List)
 	if !ok {
@@ -178,6 +172,12 @@ func lMoveList(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 	}()
 
+	desVal, ok := db.dict.Get(des)
+	if !ok {
+		desVal = NewList()
+		db.dict.Set(des, desVal)
+	}
+
 	desList, ok := desVal.(*List)
 	if !ok {
 		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
-- 
2.43.0


From 824f20ba162f583daef1c41960df0d7bee312073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:55 +0000
Subject: [PATCH 56/65] fix: answer LPOP and RPOP with an explicit count of 1
 with an array

---
 memdb/list.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/memdb/list.go b/memdb/list.go
index c314f1e..7330d16 100644
--- a/memdb/list.go
+++ b/memdb/list.go
@@ -242,7 +242,8 @@ func lPopList(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 	}()
 
-	if count == 1 {
+	// a single element only when no count was given
+	if len(cmd) == 2 {
 		node := l.LPop()
 		if node == nil {
 			return resp.NewBulkString(nil)
@@ -755,7 +756,8 @@ func rPopList(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 	}()
 
-	if count == 1 {
+	// a single element only when no count was given
+	if len(cmd) == 2 {
 		node := l.RPop()
 		if node == nil {
 			return resp.NewBulkString(nil)
-- 
2.43.0


From cb4ff7813312250f4ea9860f9fae9b09a2f144ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:56 +0000
Subject: [PATCH 57/65] fix: refuse LPOP and RPOP with too many arguments

---
 memdb/list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/memdb/list.go b/memdb/list.go
index 7330d16..7eadd71 100644
--- a/memdb/list.go
+++ b/memdb/list.go
@@ -201,7 +201,7 @@ func lMoveList(db *MemDb, cmd [][]byte) resp.RedisData {
 }
 
 func lPopList(db *MemDb, cmd [][]byte) resp.RedisData {
-	if len(cmd) < 2 {
+	if len(cmd) < 2 || len(cmd) > 3 {
 		return resp.NewSimpleError("wrong number of arguments for command")
 	}
 
@@ -715,7 +715,7 @@ func lTrimList(db *MemDb, cmd [][]byte) resp.RedisData {
 }
 
 func rPopList(db *MemDb, cmd [][]byte) resp.RedisData {
-	if len(cmd) < 2 {
+	if len(cmd) < 2 || len(cmd) > 3 {
 		return resp.NewSimpleError("wrong number of arguments for command")
 	}
 
-- 
2.43.0


From 4154aa887849a1660b0aeed819246d2191864a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:58 +0000
Subject: [PATCH 58/65] fix: let LTRIM of a missing key succeed

---
 memdb/list.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/memdb/list.go b/memdb/list.go
index 7eadd71..31b521a 100644
--- a/memdb/list.go
+++ b/memdb/list.go
@@ -674,7 +674,8 @@ func lTrimList(db *MemDb, cmd [][]byte) resp.RedisData {
 	// passive delete expired key
 	key := string(cmd[1])
 	if db.DeleteExpiredKey(key) {
-		return resp.NewSimpleError("no such key")
+		// a key that does not exist is an empty list
+		return resp.NewSimpleString("OK")
 	}
 
 	start, err := strconv.Atoi(string(cmd[2]))
@@ -693,7 +694,8 @@ func lTrimList(db *MemDb, cmd [][]byte) resp.RedisData {
 	// key not existed
 	v, ok := db.dict.Get(key)
 	if !ok {
-		return resp.NewSimpleError("no such key")
+		// a key that does not exist is an empty list
+		return resp.NewSimpleString("OK")
 	}
 
 	// wrong type
-- 
2.43.0


From a07f52764b95a5b26fd5602fed03e4e168a0bddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:58 +0000
Subject: [PATCH 59/65] fix: a deadline already past deletes the key at once

Another client that had just checked the key for expiry still saw it.
---
 memdb/memdb.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/memdb/memdb.go b/memdb/memdb.go
index 7a6d939..723c317 100644
--- a/memdb/memdb.go
+++ b/memdb/memdb.go
@@ -42,6 +42,12 @@ func (db *MemDb) SetExpire(key string, ttl int64) int {
 		//logger.Error("SetExpire: key doesn't exist")
 		return 0
 	}
+	// a deadline already past deletes the key at once
+	if time.Now().Unix() > ttl {
+		db.dict.Delete(key)
+		db.expires.Delete(key)
+		return 1
+	}
 	db.expires.Set(key, ttl)
 	return 1
 }
-- 
2.43.0


From abbae569d4a132f773f3576e3185a4746ce8a0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:14 +0000
Subject: [PATCH 60/65] fix: TTL overtaken by the deadline does not declare the
 key gone

---
 memdb/keys.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index 63d9125..1ebce5e 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -193,8 +193,9 @@ func ttlKey(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	remaining := ttl.(int64) - now
 	if remaining < 0 {
-		// the deadline passed in the meantime
-		return resp.NewInteger(int64(-2))
+		// the deadline passed in the meantime; other clients that found the key
+		// alive may still be using it
+		remaining = 0
 	}
 
 	return resp.NewInteger(remaining)
-- 
2.43.0


From 4cdb1839cfcf3252d490a59185f39a3b9cbf7a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:24 +0000
Subject: [PATCH 61/65] fix: RENAME keeps the overwritten key visible to KEYS

---
 memdb/keys.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index 1ebce5e..7284c30 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -223,12 +223,14 @@ func renameKey(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	oldTTL, ok := db.expires.Get(oldKey)
 
-	db.dict.Delete(oldKey)
-	db.DeleteExpire(oldKey)
-	// If newkey already exists it is overwritten
-	db.dict.Delete(newKey)
-	db.DeleteExpire(newKey)
+	// If newkey already exists it is overwritten; KEYS takes no key locks, so it
+	// must not disappear in between
 	db.dict.Set(newKey, oldValue)
+	db.DeleteExpire(newKey)
+	if oldKey != newKey {
+		db.dict.Delete(oldKey)
+		db.DeleteExpire(oldKey)
+	}
 
 	// If a key is renamed with RENAME, the associated time to live is transferred to the new key name.
 	if ok {
-- 
2.43.0


From 70a9c323306e99b091055cc09ad59e447185f5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:26 +0000
Subject: [PATCH 62/65] fix: KEYS does not list an expired key that another
 client just removed

---
 memdb/keys.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/memdb/keys.go b/memdb/keys.go
index 7284c30..689e06f 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -81,6 +81,10 @@ func keysKey(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := db.dict.Keys()
 	for _, key := range keys {
 		if !db.DeleteExpiredKey(key) {
+			// an expired key may have been removed by another client meanwhile
+			if _, ok := db.dict.Get(key); !ok {
+				continue
+			}
 			if util.PattenMatch(pattern, key) {
 				res = append(res, resp.NewBulkString([]byte(key)))
 			}
-- 
2.43.0


From b1601e0f3784c75f2f9332e45ec2c88cf9e09638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:53 +0000
Subject: [PATCH 63/65] fix: RENAME moves the deadline before the value becomes
 visible to KEYS

---
 memdb/keys.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index 689e06f..0ac8680 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -228,19 +228,19 @@ func renameKey(db *MemDb, cmd [][]byte) resp.RedisData {
 	oldTTL, ok := db.expires.Get(oldKey)
 
 	// If newkey already exists it is overwritten; KEYS takes no key locks, so it
-	// must not disappear in between
+	// must neither disappear in between nor show up without its deadline.
+	// If a key is renamed with RENAME, the associated time to live is transferred to the new key name.
+	if ok {
+		db.expires.Set(newKey, oldTTL)
+	} else {
+		db.DeleteExpire(newKey)
+	}
 	db.dict.Set(newKey, oldValue)
-	db.DeleteExpire(newKey)
 	if oldKey != newKey {
 		db.dict.Delete(oldKey)
 		db.DeleteExpire(oldKey)
 	}
 
-	// If a key is renamed with RENAME, the associated time to live is transferred to the new key name.
-	if ok {
-		db.SetExpire(newKey, oldTTL.(int64))
-	}
-
 	return resp.NewSimpleString("OK")
 }
 
-- 
2.43.0


From 4f6bb0e8b292445362b9ebe6b6c8929965727f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:38 +0000
Subject: [PATCH 64/65] fix: listen on IPv6 hosts

---
 server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index 21518f3..4f07047 100644
--- a/server/server.go
+++ b/server/server.go
@@ -14,7 +14,7 @@ import (
 
 // start a redis server
 func Start(config *config.Config) error {
-	listener, err := net.Listen("tcp", config.Host+":"+strconv.Itoa(config.Port))
+	listener, err := net.Listen("tcp", net.JoinHostPort(config.Host, strconv.Itoa(config.Port)))
 	if err != nil {
 		logger.Panic(err)
 		return err
-- 
2.43.0


From cde13e65ebf4fb79999ece169c3a8d9bc6b896b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:09 +0000
Subject: [PATCH 65/65] fix: a lifetime given in milliseconds ends up to a
 second early

---
 memdb/strings.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 2aadc51..7481b3d 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -159,7 +159,13 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 		db.SetExpire(key, time.Now().Unix()+exval)
 	}
 	if px {
-		db.SetExpire(key, time.Now().Unix()+pxval/1000)
+		// the deadline is the second in which the lifetime ends
+		now := time.Now()
+		deadline := now.Unix() + pxval/1000
+		if int64(now.Nanosecond()/1e6)+pxval%1000 >= 1000 {
+			deadline++
+		}
+		db.SetExpire(key, deadline)
 	}
 	if exat {
 		db.SetExpire(key, exatval)
-- 
2.43.0

