From 8ded10299fb6d30369029b69a6a51adb12e49b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:13 +0000
Subject: [PATCH 01/21] fix: keep the resume position before a transaction
 whose handler call failed

---
 streamer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamer.go b/streamer.go
index 8aaecd0..f6b734d 100755
--- a/streamer.go
+++ b/streamer.go
@@ -122,12 +122,14 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 
 	commit := func(ev replication.BinlogEvent) error {
 		now := pos
-		pos.Offset = ev.NextPosition()
 		next := pos
+		next.Offset = ev.NextPosition()
 		tran := newTransaction(now, next, int64(ev.Timestamp()), tranEvents)
 		if err = s.sendTransaction(tran); err != nil {
 			return fmt.Errorf("sendTransaction error: %v", err)
 		}
+		// The position may only move past a transaction the handler accepted.
+		pos = next
 		tranEvents = nil
 		autocommit = true
 		return nil
-- 
2.43.0


From 3ae4947b16b734f4dd8d8aec944ed6a81827ecdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:13 +0000
Subject: [PATCH 02/21] fix: keep the resume position when the mapper's column
 count disagrees

---
 streamer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamer.go b/streamer.go
index f6b734d..ba02272 100755
--- a/streamer.go
+++ b/streamer.go
@@ -280,7 +280,7 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 			}
 
 			if len(info.Columns()) != tm.CanBeNull.Count() {
-				return Position{},
+				return pos,
 					newError(fmt.Errorf("parseEvents the length of column in tableMap(%d) "+
 						"did not equal to the length of column in table info(%d)", tm.CanBeNull.Count(),
 						len(info.Columns())))
-- 
2.43.0


From 1b4ce7c47c3dd6037055e5cc956db1e7039278c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:13 +0000
Subject: [PATCH 03/21] fix: do not reuse the mapper table of another table
 re-announced under the same id

---
 streamer.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/streamer.go b/streamer.go
index ba02272..bf9dadc 100755
--- a/streamer.go
+++ b/streamer.go
@@ -263,8 +263,13 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 			_log.Debugf("parseEvents pos: %+v binlog event is a table map event, tableID: %v table map: %+v",
 				pos, tableID, *tm)
 
-			if _, ok = tablesMaps[tableID]; ok {
-				tablesMaps[tableID].tableMap = tm
+			// A table id may be announced again: for the same table only the table
+			// map is refreshed, for another table (or another number of columns) the
+			// cached mapper table no longer describes the rows.
+			if tc, ok := tablesMaps[tableID]; ok &&
+				tc.tableMap.Database == tm.Database && tc.tableMap.Name == tm.Name &&
+				len(tc.table.Columns()) == tm.CanBeNull.Count() {
+				tc.tableMap = tm
 				continue
 			}
 
-- 
2.43.0


From 2de2d2a2708a470910909f7400c12df4dfdcfaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:53 +0000
Subject: [PATCH 04/21] fix: stop the reader and wait for it before the
 connection is closed

---
 slave_connection.go | 22 ++++++++++++++++++++++
 streamer.go         | 15 ++++++++++++---
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/slave_connection.go b/slave_connection.go
index 4f5afb7..953d9ce 100755
--- a/slave_connection.go
+++ b/slave_connection.go
@@ -16,6 +16,28 @@ type dumpConn interface {
 	HandleErrorPacket([]byte) error
 }
 
+// cancelableDumpConn is a dump connection whose blocked reads return as soon as its context is done.
+type cancelableDumpConn struct {
+	*mysql.DumpConn
+	ctx context.Context
+}
+
+func newCancelableDumpConn(ctx context.Context, dsn string) (dumpConn, error) {
+	dc, err := mysql.NewDumpConn(dsn, ctx)
+	if err != nil {
+		return nil, err
+	}
+	return &cancelableDumpConn{DumpConn: dc, ctx: ctx}, nil
+}
+
+// Exec executes a statement that returns no rows. The result is deliberately not closed: until
+// it is, the driver watches the context and drops the connection when the context is done, which
+// is what ends this statement, and later ReadPacket, whenever the master stays silent.
+func (c *cancelableDumpConn) Exec(query string) error {
+	_, err := c.DumpConn.QueryContext(c.ctx, query, nil)
+	return err
+}
+
 // slaveConnection 从github.com/youtube/vitess/go/vt/mysqlctl/slave_connection.go的基础上移植过来
 // slaveConn通过StartDumpFromBinlogPosition和mysql库进行binlog dump，将自己伪装成slave，
 // 先执行SET @master_binlog_checksum=@@global.binlog_checksum，然后发送 binlog dump包，
diff --git a/streamer.go b/streamer.go
index bf9dadc..2a66cda 100755
--- a/streamer.go
+++ b/streamer.go
@@ -6,7 +6,6 @@ import (
 	"sync/atomic"
 
 	"github.com/Breeze0806/gobinlog/replication"
-	"github.com/Breeze0806/mysql"
 )
 
 //MysqlTableMapper 用于获取表信息的接口
@@ -61,8 +60,11 @@ func (s *Streamer) binlogPosition() Position {
 //Stream 注册一个处理事务信息函数到Stream中
 func (s *Streamer) Stream(ctx context.Context, sendTransaction SendTransactionFunc) error {
 	s.ctx = ctx
+	// Stopping for whatever reason has to stop the reader too, so it runs under its own context.
+	dumpCtx, cancel := context.WithCancel(ctx)
+	defer cancel()
 	conn, err := newSlaveConnection(func() (conn dumpConn, e error) {
-		return mysql.NewDumpConn(s.dsn, ctx)
+		return newCancelableDumpConn(dumpCtx, s.dsn)
 	})
 	if err != nil {
 		return err.msgf("newMysqlConn fail.")
@@ -71,11 +73,18 @@ func (s *Streamer) Stream(ctx context.Context, sendTransaction SendTransactionFu
 	s.sendTransaction = sendTransaction
 	var events <-chan replication.BinlogEvent
 	var pos Position
-	events, err = conn.startDumpFromBinlogPosition(ctx, s.serverID, s.binlogPosition())
+	events, err = conn.startDumpFromBinlogPosition(dumpCtx, s.serverID, s.binlogPosition())
 	if err != nil {
 		return err.msgf("startDumpFromBinlogPosition fail in pos: %+v", s.nowPos)
 	}
 	s.errChan = conn.errChan
+	defer func() {
+		// Unblock the reader and wait for it: it must be gone before the connection,
+		// whose buffers it shares, is closed.
+		cancel()
+		for range events {
+		}
+	}()
 	pos, err = s.parseEvents(ctx, events)
 	s.SetBinlogPosition(pos)
 	if err != nil {
-- 
2.43.0


From bd170b5acd5ce3c6ea84e7697a6803dad348cb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:53 +0000
Subject: [PATCH 05/21] fix: Error reports how the last stream ended and never
 blocks

---
 streamer.go | 55 +++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/streamer.go b/streamer.go
index 2a66cda..2566dda 100755
--- a/streamer.go
+++ b/streamer.go
@@ -3,6 +3,7 @@ package gobinlog
 import (
 	"context"
 	"fmt"
+	"sync"
 	"sync/atomic"
 
 	"github.com/Breeze0806/gobinlog/replication"
@@ -21,7 +22,9 @@ type Streamer struct {
 	nowPos          atomic.Value
 	tableMapper     MysqlTableMapper
 	sendTransaction SendTransactionFunc
-	errChan         <-chan *Error
+	errMu           sync.Mutex    // 保护errChan、lastErr和ctx
+	errChan         <-chan *Error // 读取协程的退出原因
+	lastErr         *Error        // 从errChan中获取的最后一个原因
 	ctx             context.Context
 }
 
@@ -59,7 +62,8 @@ func (s *Streamer) binlogPosition() Position {
 
 //Stream 注册一个处理事务信息函数到Stream中
 func (s *Streamer) Stream(ctx context.Context, sendTransaction SendTransactionFunc) error {
-	s.ctx = ctx
+	// Whatever ended the previous attempt says nothing about this one.
+	s.setErrChan(ctx, nil)
 	// Stopping for whatever reason has to stop the reader too, so it runs under its own context.
 	dumpCtx, cancel := context.WithCancel(ctx)
 	defer cancel()
@@ -77,13 +81,16 @@ func (s *Streamer) Stream(ctx context.Context, sendTransaction SendTransactionFu
 	if err != nil {
 		return err.msgf("startDumpFromBinlogPosition fail in pos: %+v", s.nowPos)
 	}
-	s.errChan = conn.errChan
+	s.setErrChan(ctx, conn.errChan)
 	defer func() {
 		// Unblock the reader and wait for it: it must be gone before the connection,
 		// whose buffers it shares, is closed.
 		cancel()
 		for range events {
 		}
+		// The reason why the stream ended is settled now, a later cancellation of ctx
+		// must not hide it.
+		s.setErrChan(context.Background(), conn.errChan)
 	}()
 	pos, err = s.parseEvents(ctx, events)
 	s.SetBinlogPosition(pos)
@@ -93,22 +100,38 @@ func (s *Streamer) Stream(ctx context.Context, sendTransaction SendTransactionFu
 	return nil
 }
 
+func (s *Streamer) setErrChan(ctx context.Context, errChan <-chan *Error) {
+	s.errMu.Lock()
+	defer s.errMu.Unlock()
+	s.ctx = ctx
+	if s.errChan != errChan {
+		s.errChan = errChan
+		s.lastErr = nil
+	}
+}
+
 //Error 每次使用Stream后需要检测Error
 func (s *Streamer) Error() error {
-	select {
-	case err, ok := <-s.errChan:
-		if ok {
-			switch {
-			case s.ctx.Err() == context.Canceled:
-				return nil
-			case err.Original() == context.Canceled,
-				err.Original() == errStreamEOF:
-				return nil
-			default:
-				return err
-			}
-		}
+	s.errMu.Lock()
+	defer s.errMu.Unlock()
+	if s.errChan == nil {
+		// There never was a reader, nothing will ever be sent.
+		return nil
+	}
+	if err, ok := <-s.errChan; ok {
+		s.lastErr = err
+	}
+	if s.lastErr == nil {
+		return nil
+	}
+	switch {
+	case s.ctx.Err() == context.Canceled:
+		return nil
+	case s.lastErr.Original() == context.Canceled,
+		s.lastErr.Original() == errStreamEOF:
 		return nil
+	default:
+		return s.lastErr
 	}
 }
 
-- 
2.43.0


From 1c40ea1475430212d8e631c4292dba43cb5e5739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:54 +0000
Subject: [PATCH 06/21] fix: an event with an undecodable body ends the stream
 with an error instead of a panic

---
 streamer.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/streamer.go b/streamer.go
index 2566dda..6f9d3d1 100755
--- a/streamer.go
+++ b/streamer.go
@@ -135,11 +135,22 @@ func (s *Streamer) Error() error {
 	}
 }
 
-func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.BinlogEvent) (Position, *Error) {
+func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.BinlogEvent) (pos Position, e *Error) {
 	var tranEvents []*StreamEvent
 	var format replication.BinlogFormat
 	var err error
-	pos := s.binlogPosition()
+	pos = s.binlogPosition()
+
+	// An event whose body does not hold what its type promises must end the stream with an
+	// error. Panics of the caller's own code (handler, table mapper) are none of our business.
+	decoding := true
+	defer func() {
+		if decoding {
+			if r := recover(); r != nil {
+				e = newError(fmt.Errorf("undecodable event: %v", r)).msgf("parseEvents can't parse binlog event.")
+			}
+		}
+	}()
 	tablesMaps := make(map[uint64]*tableCache)
 	autocommit := true
 
@@ -157,7 +168,10 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 		next := pos
 		next.Offset = ev.NextPosition()
 		tran := newTransaction(now, next, int64(ev.Timestamp()), tranEvents)
-		if err = s.sendTransaction(tran); err != nil {
+		decoding = false
+		err = s.sendTransaction(tran)
+		decoding = true
+		if err != nil {
 			return fmt.Errorf("sendTransaction error: %v", err)
 		}
 		// The position may only move past a transaction the handler accepted.
@@ -312,7 +326,10 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 			name := NewMysqlTableName(tm.Database, tm.Name)
 
 			var info MysqlTable
-			if info, err = s.tableMapper.MysqlTable(name); err != nil {
+			decoding = false
+			info, err = s.tableMapper.MysqlTable(name)
+			decoding = true
+			if err != nil {
 				return pos, newError(err).msgf("parseEvents MysqlTable fail. table: %v", err)
 			}
 
-- 
2.43.0


From 52cdc72183eee07a39597cb5406fb6eec1a72560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:11 +0000
Subject: [PATCH 07/21] fix: a truncated error packet ends the stream with an
 error instead of a panic

---
 slave_connection.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slave_connection.go b/slave_connection.go
index 953d9ce..b191767 100755
--- a/slave_connection.go
+++ b/slave_connection.go
@@ -137,6 +137,10 @@ func (s *slaveConnection) readBinlogEvent() (replication.BinlogEvent, *Error) {
 	case mysql.PacketEOF:
 		return nil, newError(errStreamEOF).msgf("readBinlogEvent reach end")
 	case mysql.PacketERR:
+		// The driver relies on an error code, and on a SQL state if it is announced.
+		if len(buf) < 4 || buf[3] == '#' && len(buf) < 9 {
+			return nil, newError(mysql.ErrMalformPkt).msgf("fetch error packet: %v", buf)
+		}
 		return nil, newError(s.dc.HandleErrorPacket(buf)).msgf("fetch error packet")
 	default:
 	}
-- 
2.43.0


From 2766bd66ce9e9955884bbf4f016f406f4e9675a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:12 +0000
Subject: [PATCH 08/21] fix: rows that take no space end the decoding with an
 error instead of looping forever

---
 replication/binlog_event_rbr.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/replication/binlog_event_rbr.go b/replication/binlog_event_rbr.go
index 4bc3da3..0cd991f 100755
--- a/replication/binlog_event_rbr.go
+++ b/replication/binlog_event_rbr.go
@@ -939,6 +939,7 @@ func (ev binlogEvent) Rows(f BinlogFormat, tm *TableMap) (Rows, error) {
 	// One row at a time.
 	for pos < len(data) {
 		row := Row{}
+		rowPos := pos
 
 		if hasIdentify {
 			// Bitmap of identify columns that are null (amongst the ones that are present).
@@ -1000,6 +1001,9 @@ func (ev binlogEvent) Rows(f BinlogFormat, tm *TableMap) (Rows, error) {
 			row.Data = data[startPos:pos]
 		}
 
+		if pos == rowPos {
+			return result, fmt.Errorf("row without data at pos %v (data: %v)", pos, data)
+		}
 		result.Rows = append(result.Rows, row)
 	}
 
-- 
2.43.0


From 8a7ad7011df69e4b21cc11916c758465af432ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:13 +0000
Subject: [PATCH 09/21] fix: a JSON value that refers to itself is rejected
 instead of recursing forever

---
 replication/binlog_event_json.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/replication/binlog_event_json.go b/replication/binlog_event_json.go
index 91d5ad4..61b9a90 100644
--- a/replication/binlog_event_json.go
+++ b/replication/binlog_event_json.go
@@ -91,6 +91,9 @@ func printJSONObject(data []byte, large bool, result *bytes.Buffer) error {
 	if size > len(data) {
 		return fmt.Errorf("not enough data for object, have %v bytes need %v", len(data), size)
 	}
+	if elementCount > len(data) {
+		return fmt.Errorf("not enough data for object, have %v bytes for %v elements", len(data), elementCount)
+	}
 
 	// Build an array for each key.
 	keys := make([][]byte, elementCount)
@@ -193,6 +196,10 @@ func printJSONValueEntry(data []byte, pos int, large bool, result *bytes.Buffer)
 		// value is not inlined, we have its offset here.
 		// Note we don't have its length, so we just go to the end.
 		offset, _ := readOffsetOrSize(data, pos, large)
+		// Values are stored after the entries that refer to them.
+		if offset < pos {
+			return fmt.Errorf("value offset %v is before its entry at %v", offset, pos)
+		}
 		if err := printJSONValue(typ, data[offset:], false /* toplevel */, result); err != nil {
 			return err
 		}
-- 
2.43.0


From 188a51177ed15ba361f0f3553ad300e00f302583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:47 +0000
Subject: [PATCH 10/21] fix: the zero timestamp is delivered as a private copy

---
 replication/binlog_event_rbr.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/replication/binlog_event_rbr.go b/replication/binlog_event_rbr.go
index 0cd991f..342528d 100755
--- a/replication/binlog_event_rbr.go
+++ b/replication/binlog_event_rbr.go
@@ -314,7 +314,8 @@ func cellLength(data []byte, pos int, typ byte, metadata uint16) (int, error) {
 // and return the Buffer.
 func printTimestamp(v uint32) *bytes.Buffer {
 	if v == 0 {
-		return bytes.NewBuffer(ZeroTimestamp)
+		// The caller owns the value, so it can not be handed the shared constant.
+		return bytes.NewBufferString(string(ZeroTimestamp))
 	}
 
 	t := time.Unix(int64(v), 0).Local()
-- 
2.43.0


From 0b03de3942c3fc0aac9b061f984724c856b21758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 11/21] fix: DECIMAL zero without fraction digits and integer
 digits after a zero leading group

---
 replication/binlog_event_rbr.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/replication/binlog_event_rbr.go b/replication/binlog_event_rbr.go
index 342528d..f4b2dbb 100755
--- a/replication/binlog_event_rbr.go
+++ b/replication/binlog_event_rbr.go
@@ -678,22 +678,22 @@ func CellBytes(data []byte, pos int, typ byte, metadata uint16, isUnSignedInt bo
 			if flag { //当txt有正整数写入
 				fmt.Fprintf(txt, "%09d", val)
 			} else if val > 0 { //当txt无正整数且val>0时 才能写入
-				fmt.Fprintf(txt, "%9d", val)
+				fmt.Fprintf(txt, "%d", val)
 				flag = true
 			}
 			pos += 4
 		}
 
-		// now see if we have a fraction
-		if scale == 0 {
-			return txt.Bytes(), l, nil
-		}
-
 		//当txt无正整数，此时需要在小数点前加上0，表示生成的数整数部分没有值。
 		if !flag {
 			txt.WriteByte('0')
 		}
 
+		// now see if we have a fraction
+		if scale == 0 {
+			return txt.Bytes(), l, nil
+		}
+
 		txt.WriteByte('.')
 
 		// now the full fractional digits
-- 
2.43.0


From 25d0b64ed995ba2f09cf8c7a36bd55e93115fbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:50 +0000
Subject: [PATCH 12/21] fix: negative TIME values of the old format keep their
 sign and two-digit hours

---
 replication/binlog_event_rbr.go | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/replication/binlog_event_rbr.go b/replication/binlog_event_rbr.go
index f4b2dbb..44e6e06 100755
--- a/replication/binlog_event_rbr.go
+++ b/replication/binlog_event_rbr.go
@@ -406,25 +406,19 @@ func CellBytes(data []byte, pos int, typ byte, metadata uint16, isUnSignedInt bo
 		return []byte(fmt.Sprintf("%04d-%02d-%02d", year, month, day)), 3, nil
 
 	case TypeTime:
-		var hour, minute, second int32
+		val := int32(data[pos]) +
+			int32(data[pos+1])<<8 +
+			int32(data[pos+2])<<16
+		sign := ""
 		if data[pos+2]&128 > 0 {
-			// Negative number, have to extend the sign.
-			val := int32(uint32(data[pos]) +
-				uint32(data[pos+1])<<8 +
-				uint32(data[pos+2])<<16 +
-				uint32(255)<<24)
-			hour = val / 10000
-			minute = -((val % 10000) / 100)
-			second = -(val % 100)
-		} else {
-			val := int32(data[pos]) +
-				int32(data[pos+1])<<8 +
-				int32(data[pos+2])<<16
-			hour = val / 10000
-			minute = (val % 10000) / 100
-			second = val % 100
+			// Negative number, in two's complement.
+			val = 1<<24 - val
+			sign = "-"
 		}
-		return []byte(fmt.Sprintf("%02d:%02d:%02d", hour, minute, second)), 3, nil
+		hour := val / 10000
+		minute := (val % 10000) / 100
+		second := val % 100
+		return []byte(fmt.Sprintf("%v%02d:%02d:%02d", sign, hour, minute, second)), 3, nil
 
 	case TypeDateTime:
 		val := binary.LittleEndian.Uint64(data[pos : pos+8])
-- 
2.43.0


From 0546636651f6dfcebaa999f29136374d5bdd51dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:51 +0000
Subject: [PATCH 13/21] fix: negative TIME values in JSON documents

---
 replication/binlog_event_json.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/replication/binlog_event_json.go b/replication/binlog_event_json.go
index 61b9a90..95441e3 100644
--- a/replication/binlog_event_json.go
+++ b/replication/binlog_event_json.go
@@ -387,7 +387,12 @@ func printJSONDate(data []byte, toplevel bool, result *bytes.Buffer) error {
 }
 
 func printJSONTime(data []byte, toplevel bool, result *bytes.Buffer) error {
-	raw := binary.LittleEndian.Uint64(data[:8])
+	// Negative times are stored as the negated packed value.
+	raw := int64(binary.LittleEndian.Uint64(data[:8]))
+	negative := raw < 0
+	if negative {
+		raw = -raw
+	}
 	value := raw >> 24
 	hour := (value >> 12) & 0x03ff // 10 bits starting at 12th
 	minute := (value >> 6) & 0x3f  // 6 bits starting at 6th
@@ -398,7 +403,7 @@ func printJSONTime(data []byte, toplevel bool, result *bytes.Buffer) error {
 		result.WriteString("CAST(")
 	}
 	result.WriteString("CAST('")
-	if value&0x8000000000 != 0 {
+	if negative {
 		result.WriteByte('-')
 	}
 	fmt.Fprintf(result, "%02d:%02d:%02d", hour, minute, second)
-- 
2.43.0


From 56504ac249806a2981c3049590302cc02da9b064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:52 +0000
Subject: [PATCH 14/21] fix: adding to a MariaDB GTID set does not alter the
 original

---
 replication/mariadb_gtid.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/replication/mariadb_gtid.go b/replication/mariadb_gtid.go
index 892abcd..6913afa 100644
--- a/replication/mariadb_gtid.go
+++ b/replication/mariadb_gtid.go
@@ -186,15 +186,18 @@ func (gtidSet MariadbGTIDSet) AddGTID(other GTID) GTIDSet {
 	if !ok || other == nil {
 		return gtidSet
 	}
-	for i, gtid := range gtidSet {
+	// This function is not supposed to modify the original set.
+	newSet := make(MariadbGTIDSet, len(gtidSet), len(gtidSet)+1)
+	copy(newSet, gtidSet)
+	for i, gtid := range newSet {
 		if mdbOther.Domain == gtid.Domain {
 			if mdbOther.Sequence > gtid.Sequence {
-				gtidSet[i] = mdbOther
+				newSet[i] = mdbOther
 			}
-			return gtidSet
+			return newSet
 		}
 	}
-	return append(gtidSet, mdbOther)
+	return append(newSet, mdbOther)
 }
 
 func init() {
-- 
2.43.0


From d4fe37b10a0b52426670fd454c71d019c92dfcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:53 +0000
Subject: [PATCH 15/21] fix: a MariaDB GTID set with two positions for one
 domain is rejected

---
 replication/mariadb_gtid.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/replication/mariadb_gtid.go b/replication/mariadb_gtid.go
index 6913afa..1b0b7fe 100644
--- a/replication/mariadb_gtid.go
+++ b/replication/mariadb_gtid.go
@@ -67,6 +67,11 @@ func parseMariadbGTIDSet(s string) (GTIDSet, error) {
 			return nil, err
 		}
 		gtidSet[i] = gtid.(MariadbGTID)
+		for _, prev := range gtidSet[:i] {
+			if prev.Domain == gtidSet[i].Domain {
+				return nil, fmt.Errorf("invalid MariaDB GTID set (%v): duplicate Domain ID %v", s, prev.Domain)
+			}
+		}
 	}
 	return gtidSet, nil
 }
-- 
2.43.0


From 7e61cb5df5e059724e43dbe8e65a0dd589891409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:53 +0000
Subject: [PATCH 16/21] fix: the first keyword of a statement may be followed
 by any white space

---
 mysql_types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mysql_types.go b/mysql_types.go
index 99be901..93f55cf 100755
--- a/mysql_types.go
+++ b/mysql_types.go
@@ -78,7 +78,7 @@ func (s StatementType) IsDDL() bool {
 
 //GetStatementCategory we can get statement type from a SQL
 func GetStatementCategory(sql string) StatementType {
-	if i := strings.IndexByte(sql, byte(' ')); i >= 0 {
+	if i := strings.IndexAny(sql, " \t\n\v\f\r"); i >= 0 {
 		sql = sql[:i]
 	}
 	if s, ok := statementPrefixes[strings.ToLower(sql)]; ok {
-- 
2.43.0


From 098606167fe24f7dff07dfb679d8cc760a1cd886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:13 +0000
Subject: [PATCH 17/21] fix: ROLLBACK TO SAVEPOINT does not end the transaction

---
 mysql_types.go | 9 +++++++++
 streamer.go    | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/mysql_types.go b/mysql_types.go
index 93f55cf..2d91a10 100755
--- a/mysql_types.go
+++ b/mysql_types.go
@@ -87,6 +87,15 @@ func GetStatementCategory(sql string) StatementType {
 	return StatementUnknown
 }
 
+//isRollbackToSavepoint 在ROLLBACK语句中，是否是ROLLBACK [WORK] TO [SAVEPOINT]语句，该语句不结束事务
+func isRollbackToSavepoint(sql string) bool {
+	words := strings.Fields(sql)
+	if len(words) > 1 && strings.EqualFold(words[1], "work") {
+		words = words[1:]
+	}
+	return len(words) > 1 && strings.EqualFold(words[1], "to")
+}
+
 //列数据类型
 const (
 	columnTypeDecimal    ColumnType = replication.TypeDecimal    //精确实数
diff --git a/streamer.go b/streamer.go
index 6f9d3d1..1bf8adc 100755
--- a/streamer.go
+++ b/streamer.go
@@ -258,6 +258,10 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 					"parseEvents can't get query from binlog event. event data: %+v", ev)
 			}
 			typ := GetStatementCategory(q.SQL)
+			if typ == StatementRollback && isRollbackToSavepoint(q.SQL) {
+				// The transaction goes on.
+				typ = StatementUnknown
+			}
 
 			_log.Debugf("parseEvents pos: %+v binlog event is a query event: %+v query: %v", pos, ev, q.SQL)
 
-- 
2.43.0


From fb4413c169124ed8c755adf73d2423907676aac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:28 +0000
Subject: [PATCH 18/21] fix: quotes and backslashes in JSON strings and keys
 are escaped

Without it the arrays ["a","b"] and ["a','b"] are rendered alike.
---
 replication/binlog_event_json.go | 34 ++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/replication/binlog_event_json.go b/replication/binlog_event_json.go
index 95441e3..7503a0f 100644
--- a/replication/binlog_event_json.go
+++ b/replication/binlog_event_json.go
@@ -116,7 +116,7 @@ func printJSONObject(data []byte, large bool, result *bytes.Buffer) error {
 			result.WriteByte(',')
 		}
 		result.WriteByte('\'')
-		result.Write(keys[i])
+		writeSQLEscaped(result, keys[i])
 		result.WriteByte('\'')
 		result.WriteByte(',')
 
@@ -330,8 +330,7 @@ func printJSONString(data []byte, toplevel bool, result *bytes.Buffer) {
 	// So the value should be: '"value"'.
 	if toplevel {
 		result.WriteString("'\"")
-		// FIXME(alainjobart): escape reserved characters
-		result.Write(data[pos : pos+size])
+		writeSQLEscaped(result, escapeJSON(data[pos:pos+size]))
 		result.WriteString("\"'")
 		return
 	}
@@ -339,10 +338,37 @@ func printJSONString(data []byte, toplevel bool, result *bytes.Buffer) {
 	// Inside a JSON_ARRAY() or JSON_OBJECT method, we just print the string
 	// as SQL string.
 	result.WriteByte('\'')
-	result.Write(data[pos : pos+size])
+	writeSQLEscaped(result, data[pos:pos+size])
 	result.WriteByte('\'')
 }
 
+// writeSQLEscaped writes data as the inside of a single-quoted SQL string.
+func writeSQLEscaped(result *bytes.Buffer, data []byte) {
+	for _, b := range data {
+		if b == '\'' || b == '\\' {
+			result.WriteByte('\\')
+		}
+		result.WriteByte(b)
+	}
+}
+
+// escapeJSON escapes data as the inside of a JSON string.
+func escapeJSON(data []byte) []byte {
+	buf := &bytes.Buffer{}
+	for _, b := range data {
+		switch {
+		case b == '"' || b == '\\':
+			buf.WriteByte('\\')
+			buf.WriteByte(b)
+		case b < 0x20:
+			fmt.Fprintf(buf, "\\u%04x", b)
+		default:
+			buf.WriteByte(b)
+		}
+	}
+	return buf.Bytes()
+}
+
 func printJSONOpaque(data []byte, toplevel bool, result *bytes.Buffer) error {
 	typ := data[0]
 	size, pos := readVariableLength(data, 1)
-- 
2.43.0


From 9c2bf50efdecb5784ef2c68e593d46a93f0223eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:59 +0000
Subject: [PATCH 19/21] fix: decoding a truncated event never reads its
 stripped checksum

---
 replication/binlog_event_mariadb.go | 2 +-
 replication/binlog_event_mysql56.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/replication/binlog_event_mariadb.go b/replication/binlog_event_mariadb.go
index dec802e..4d9e648 100755
--- a/replication/binlog_event_mariadb.go
+++ b/replication/binlog_event_mariadb.go
@@ -58,7 +58,7 @@ func (ev mariadbBinlogEvent) StripChecksum(f BinlogFormat) (BinlogEvent, []byte,
 		data := ev.Bytes()
 		length := len(data)
 		checksum := data[length-4:]
-		data = data[:length-4]
+		data = data[: length-4 : length-4]
 		return mariadbBinlogEvent{binlogEvent: binlogEvent(data)}, checksum, nil
 	}
 }
diff --git a/replication/binlog_event_mysql56.go b/replication/binlog_event_mysql56.go
index 820fc20..d3c4617 100755
--- a/replication/binlog_event_mysql56.go
+++ b/replication/binlog_event_mysql56.go
@@ -58,7 +58,7 @@ func (ev mysql56BinlogEvent) StripChecksum(f BinlogFormat) (BinlogEvent, []byte,
 		data := ev.Bytes()
 		length := len(data)
 		checksum := data[length-4:]
-		data = data[:length-4]
+		data = data[: length-4 : length-4]
 		return mysql56BinlogEvent{binlogEvent: binlogEvent(data)}, checksum, nil
 	default:
 		// MySQL 5.6 does not guarantee that future checksum algorithms will be
-- 
2.43.0


From 582bfa1e6bebac0c24f3dffbf8f9d223f712f4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:50 +0000
Subject: [PATCH 20/21] fix: table ids of events with headers of 250 bytes and
 more

---
 replication/binlog_event_common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/replication/binlog_event_common.go b/replication/binlog_event_common.go
index 92335ec..cc12ec1 100755
--- a/replication/binlog_event_common.go
+++ b/replication/binlog_event_common.go
@@ -324,7 +324,7 @@ func (ev binlogEvent) Rand(f BinlogFormat) (seed1 uint64, seed2 uint64, err erro
 
 func (ev binlogEvent) TableID(f BinlogFormat) uint64 {
 	typ := ev.Type()
-	pos := f.HeaderLength
+	pos := int(f.HeaderLength)
 	if f.HeaderSize(typ) == 6 {
 		// Encoded in 4 bytes.
 		return uint64(binary.LittleEndian.Uint32(ev[pos : pos+4]))
-- 
2.43.0


From 33907249f903aa62199d8a1c51269a0fd9a0512f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:42 +0000
Subject: [PATCH 21/21] fix: a JSON document or opaque value never reads past
 its own bytes

---
 replication/binlog_event_json.go | 8 ++++----
 replication/binlog_event_rbr.go  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/replication/binlog_event_json.go b/replication/binlog_event_json.go
index 7503a0f..6f31166 100644
--- a/replication/binlog_event_json.go
+++ b/replication/binlog_event_json.go
@@ -376,13 +376,13 @@ func printJSONOpaque(data []byte, toplevel bool, result *bytes.Buffer) error {
 	// A few types have special encoding.
 	switch typ {
 	case TypeDate:
-		return printJSONDate(data[pos:pos+size], toplevel, result)
+		return printJSONDate(data[pos:pos+size:pos+size], toplevel, result)
 	case TypeTime:
-		return printJSONTime(data[pos:pos+size], toplevel, result)
+		return printJSONTime(data[pos:pos+size:pos+size], toplevel, result)
 	case TypeDateTime:
-		return printJSONDateTime(data[pos:pos+size], toplevel, result)
+		return printJSONDateTime(data[pos:pos+size:pos+size], toplevel, result)
 	case TypeNewDecimal:
-		return printJSONDecimal(data[pos:pos+size], toplevel, result)
+		return printJSONDecimal(data[pos:pos+size:pos+size], toplevel, result)
 	}
 
 	// Other types are encoded in somewhat weird ways. Since we
diff --git a/replication/binlog_event_rbr.go b/replication/binlog_event_rbr.go
index 44e6e06..86fb1be 100755
--- a/replication/binlog_event_rbr.go
+++ b/replication/binlog_event_rbr.go
@@ -787,7 +787,7 @@ func CellBytes(data []byte, pos int, typ byte, metadata uint16, isUnSignedInt bo
 
 		// For JSON, we parse the data, and emit SQL.
 		if typ == TypeJSON {
-			d, err := printJSONData(data[pos : pos+l])
+			d, err := printJSONData(data[pos : pos+l : pos+l])
 			if err != nil {
 				return nil, 0, fmt.Errorf("error parsing JSON data %v err: %v", data[pos:pos+l], err)
 			}
-- 
2.43.0

