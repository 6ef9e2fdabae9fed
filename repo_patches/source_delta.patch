From dca0298819d9213c05d3800a982c1a29483286c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:04 +0000
Subject: [PATCH 01/13] fix: decode DECIMAL without padding and zero without a
 fraction as 0

The first non-zero group of nine digits was padded with spaces when it had
fewer than nine significant digits, and a zero DECIMAL(p,0) became an empty
value.
---
 replication/binlog_event_rbr.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/replication/binlog_event_rbr.go b/replication/binlog_event_rbr.go
index 4bc3da3..5bc1970 100755
--- a/replication/binlog_event_rbr.go
+++ b/replication/binlog_event_rbr.go
@@ -677,22 +677,22 @@ func CellBytes(data []byte, pos int, typ byte, metadata uint16, isUnSignedInt bo
 			if flag { //当txt有正整数写入
 				fmt.Fprintf(txt, "%09d", val)
 			} else if val > 0 { //当txt无正整数且val>0时 才能写入
-				fmt.Fprintf(txt, "%9d", val)
+				fmt.Fprintf(txt, "%d", val)
 				flag = true
 			}
 			pos += 4
 		}
 
+		//当txt无正整数，此时需要加上0，表示生成的数整数部分没有值。
+		if !flag {
+			txt.WriteByte('0')
+		}
+
 		// now see if we have a fraction
 		if scale == 0 {
 			return txt.Bytes(), l, nil
 		}
 
-		//当txt无正整数，此时需要在小数点前加上0，表示生成的数整数部分没有值。
-		if !flag {
-			txt.WriteByte('0')
-		}
-
 		txt.WriteByte('.')
 
 		// now the full fractional digits
-- 
2.43.0


From f37513f29e252ed908209a4d687252ed1aa5d2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:07 +0000
Subject: [PATCH 02/13] fix: decode negative TIME values of the old format
 canonically

-01:02:03 was printed as -1:02:03 and a negative value below one hour lost
its sign.
---
 replication/binlog_event_rbr.go | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/replication/binlog_event_rbr.go b/replication/binlog_event_rbr.go
index 5bc1970..3e9f431 100755
--- a/replication/binlog_event_rbr.go
+++ b/replication/binlog_event_rbr.go
@@ -405,25 +405,19 @@ func CellBytes(data []byte, pos int, typ byte, metadata uint16, isUnSignedInt bo
 		return []byte(fmt.Sprintf("%04d-%02d-%02d", year, month, day)), 3, nil
 
 	case TypeTime:
-		var hour, minute, second int32
+		val := int32(data[pos]) +
+			int32(data[pos+1])<<8 +
+			int32(data[pos+2])<<16
+		sign := ""
 		if data[pos+2]&128 > 0 {
-			// Negative number, have to extend the sign.
-			val := int32(uint32(data[pos]) +
-				uint32(data[pos+1])<<8 +
-				uint32(data[pos+2])<<16 +
-				uint32(255)<<24)
-			hour = val / 10000
-			minute = -((val % 10000) / 100)
-			second = -(val % 100)
-		} else {
-			val := int32(data[pos]) +
-				int32(data[pos+1])<<8 +
-				int32(data[pos+2])<<16
-			hour = val / 10000
-			minute = (val % 10000) / 100
-			second = val % 100
+			// Negative number, its magnitude is the two's complement.
+			val = 1<<24 - val
+			sign = "-"
 		}
-		return []byte(fmt.Sprintf("%02d:%02d:%02d", hour, minute, second)), 3, nil
+		hour := val / 10000
+		minute := (val % 10000) / 100
+		second := val % 100
+		return []byte(fmt.Sprintf("%s%02d:%02d:%02d", sign, hour, minute, second)), 3, nil
 
 	case TypeDateTime:
 		val := binary.LittleEndian.Uint64(data[pos : pos+8])
-- 
2.43.0


From 8c7d7ab98035dcdc12d0f9e15270110e32581349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:15 +0000
Subject: [PATCH 03/13] fix: render negative TIME scalars in JSON documents
 with their real magnitude

---
 replication/binlog_event_json.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/replication/binlog_event_json.go b/replication/binlog_event_json.go
index 91d5ad4..e1d1a93 100644
--- a/replication/binlog_event_json.go
+++ b/replication/binlog_event_json.go
@@ -381,6 +381,11 @@ func printJSONDate(data []byte, toplevel bool, result *bytes.Buffer) error {
 
 func printJSONTime(data []byte, toplevel bool, result *bytes.Buffer) error {
 	raw := binary.LittleEndian.Uint64(data[:8])
+	negative := raw&(1<<63) != 0
+	if negative {
+		// The packed value of a negative time is negated as a whole.
+		raw = -raw
+	}
 	value := raw >> 24
 	hour := (value >> 12) & 0x03ff // 10 bits starting at 12th
 	minute := (value >> 6) & 0x3f  // 6 bits starting at 6th
@@ -391,7 +396,7 @@ func printJSONTime(data []byte, toplevel bool, result *bytes.Buffer) error {
 		result.WriteString("CAST(")
 	}
 	result.WriteString("CAST('")
-	if value&0x8000000000 != 0 {
+	if negative {
 		result.WriteByte('-')
 	}
 	fmt.Fprintf(result, "%02d:%02d:%02d", hour, minute, second)
-- 
2.43.0


From 39e8de774807eac253d210cc1829fa3c64b10350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:08 +0000
Subject: [PATCH 04/13] fix: MariadbGTIDSet.AddGTID altered the set it was
 added to

---
 replication/mariadb_gtid.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/replication/mariadb_gtid.go b/replication/mariadb_gtid.go
index 892abcd..1a9088d 100644
--- a/replication/mariadb_gtid.go
+++ b/replication/mariadb_gtid.go
@@ -189,12 +189,17 @@ func (gtidSet MariadbGTIDSet) AddGTID(other GTID) GTIDSet {
 	for i, gtid := range gtidSet {
 		if mdbOther.Domain == gtid.Domain {
 			if mdbOther.Sequence > gtid.Sequence {
-				gtidSet[i] = mdbOther
+				// GTIDSets are immutable: replace the position in a copy.
+				newSet := append(MariadbGTIDSet(nil), gtidSet...)
+				newSet[i] = mdbOther
+				return newSet
 			}
 			return gtidSet
 		}
 	}
-	return append(gtidSet, mdbOther)
+	newSet := make(MariadbGTIDSet, len(gtidSet), len(gtidSet)+1)
+	copy(newSet, gtidSet)
+	return append(newSet, mdbOther)
 }
 
 func init() {
-- 
2.43.0


From f6ac4fb855201d9c328c82471d83ee201d00291d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:15 +0000
Subject: [PATCH 05/13] fix: a parsed MariadbGTIDSet kept several positions of
 one domain

---
 replication/mariadb_gtid.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/replication/mariadb_gtid.go b/replication/mariadb_gtid.go
index 1a9088d..1fbe5fc 100644
--- a/replication/mariadb_gtid.go
+++ b/replication/mariadb_gtid.go
@@ -60,13 +60,14 @@ func parseMariadbGTID(s string) (GTID, error) {
 // parseMariadbGTIDSet is registered as a GTIDSet parser.
 func parseMariadbGTIDSet(s string) (GTIDSet, error) {
 	gtidStrings := strings.Split(s, ",")
-	gtidSet := make(MariadbGTIDSet, len(gtidStrings))
-	for i, gtidString := range gtidStrings {
+	gtidSet := make(MariadbGTIDSet, 0, len(gtidStrings))
+	for _, gtidString := range gtidStrings {
 		gtid, err := parseMariadbGTID(gtidString)
 		if err != nil {
 			return nil, err
 		}
-		gtidSet[i] = gtid.(MariadbGTID)
+		// A set keeps one position per domain.
+		gtidSet = gtidSet.AddGTID(gtid).(MariadbGTIDSet)
 	}
 	return gtidSet, nil
 }
-- 
2.43.0


From e1a1da0a5a6d740052a6902f399252f509810b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:26 +0000
Subject: [PATCH 06/13] fix: keep the position of a transaction whose handler
 call failed

---
 streamer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamer.go b/streamer.go
index 8aaecd0..ae841ff 100755
--- a/streamer.go
+++ b/streamer.go
@@ -121,13 +121,13 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 	}
 
 	commit := func(ev replication.BinlogEvent) error {
-		now := pos
-		pos.Offset = ev.NextPosition()
 		next := pos
-		tran := newTransaction(now, next, int64(ev.Timestamp()), tranEvents)
+		next.Offset = ev.NextPosition()
+		tran := newTransaction(pos, next, int64(ev.Timestamp()), tranEvents)
 		if err = s.sendTransaction(tran); err != nil {
 			return fmt.Errorf("sendTransaction error: %v", err)
 		}
+		pos = next
 		tranEvents = nil
 		autocommit = true
 		return nil
-- 
2.43.0


From 821c758b57e965327f5ec0f32962b59fe808bf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:26 +0000
Subject: [PATCH 07/13] fix: keep the position when the mapper's columns
 disagree with the table map

---
 streamer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamer.go b/streamer.go
index ae841ff..3584e15 100755
--- a/streamer.go
+++ b/streamer.go
@@ -278,7 +278,7 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 			}
 
 			if len(info.Columns()) != tm.CanBeNull.Count() {
-				return Position{},
+				return pos,
 					newError(fmt.Errorf("parseEvents the length of column in tableMap(%d) "+
 						"did not equal to the length of column in table info(%d)", tm.CanBeNull.Count(),
 						len(info.Columns())))
-- 
2.43.0


From 5d33c1e3f063adcc4f8e9d6225dac25f0cdf7f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:26 +0000
Subject: [PATCH 08/13] fix: give every zero TIMESTAMP value its own bytes

---
 replication/binlog_event_rbr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/replication/binlog_event_rbr.go b/replication/binlog_event_rbr.go
index 3e9f431..0894376 100755
--- a/replication/binlog_event_rbr.go
+++ b/replication/binlog_event_rbr.go
@@ -314,7 +314,7 @@ func cellLength(data []byte, pos int, typ byte, metadata uint16) (int, error) {
 // and return the Buffer.
 func printTimestamp(v uint32) *bytes.Buffer {
 	if v == 0 {
-		return bytes.NewBuffer(ZeroTimestamp)
+		return bytes.NewBufferString(string(ZeroTimestamp))
 	}
 
 	t := time.Unix(int64(v), 0).Local()
-- 
2.43.0


From 65091e01c418e5fd9f685944e80baab3148277ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:26 +0000
Subject: [PATCH 09/13] fix: recognise statements whose first word ends with a
 tab or a newline

---
 mysql_types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mysql_types.go b/mysql_types.go
index 99be901..7c0c697 100755
--- a/mysql_types.go
+++ b/mysql_types.go
@@ -78,7 +78,7 @@ func (s StatementType) IsDDL() bool {
 
 //GetStatementCategory we can get statement type from a SQL
 func GetStatementCategory(sql string) StatementType {
-	if i := strings.IndexByte(sql, byte(' ')); i >= 0 {
+	if i := strings.IndexAny(sql, " \t\r\n"); i >= 0 {
 		sql = sql[:i]
 	}
 	if s, ok := statementPrefixes[strings.ToLower(sql)]; ok {
-- 
2.43.0


From c2762933e2e70a7437f013cc5c71a08decf417d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:26 +0000
Subject: [PATCH 10/13] fix: look a table id up again when it is announced for
 another table

---
 streamer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/streamer.go b/streamer.go
index 3584e15..65fd7c3 100755
--- a/streamer.go
+++ b/streamer.go
@@ -1,6 +1,7 @@
 package gobinlog
 
 import (
+	"bytes"
 	"context"
 	"fmt"
 	"sync/atomic"
@@ -261,8 +262,8 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 			_log.Debugf("parseEvents pos: %+v binlog event is a table map event, tableID: %v table map: %+v",
 				pos, tableID, *tm)
 
-			if _, ok = tablesMaps[tableID]; ok {
-				tablesMaps[tableID].tableMap = tm
+			if tc, ok := tablesMaps[tableID]; ok && sameTable(tc.tableMap, tm) {
+				tc.tableMap = tm
 				continue
 			}
 
@@ -385,6 +386,11 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 	}
 }
 
+//sameTable 两个table map是否是同一张表的同一个定义
+func sameTable(a, b *replication.TableMap) bool {
+	return a.Database == b.Database && a.Name == b.Name && bytes.Equal(a.Types, b.Types)
+}
+
 func appendUpdateEventFromRows(tc *tableCache, rows *replication.Rows, timestamp int64) (*StreamEvent, error) {
 	ev := newStreamEvent(StatementUpdate, timestamp, tc.table.Name())
 	for i := range rows.Rows {
-- 
2.43.0


From 43117938c12b0e580c13860a9e04ab7bb2c0fe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:44 +0000
Subject: [PATCH 11/13] fix: end the reader with its stream and keep the reason
 the stream ended

---
 slave_connection.go | 21 +++++++++++++++++
 streamer.go         | 56 ++++++++++++++++++++++++++++++---------------
 2 files changed, 58 insertions(+), 19 deletions(-)

diff --git a/slave_connection.go b/slave_connection.go
index 4f5afb7..4ab683a 100755
--- a/slave_connection.go
+++ b/slave_connection.go
@@ -16,6 +16,27 @@ type dumpConn interface {
 	HandleErrorPacket([]byte) error
 }
 
+// contextDumpConn 是在ctx取消时会关闭网络连接的dumpConn
+type contextDumpConn struct {
+	*mysql.DumpConn
+	ctx context.Context
+}
+
+func newContextDumpConn(ctx context.Context, dsn string) (dumpConn, error) {
+	conn, err := mysql.NewDumpConn(dsn, ctx)
+	if err != nil {
+		return nil, err
+	}
+	return &contextDumpConn{DumpConn: conn, ctx: ctx}, nil
+}
+
+// Exec 执行语句，不关闭其结果，从而mysql连接从此一直监听ctx：ctx取消时mysql连接会关闭网络连接，
+// 这样阻塞的读取会返回ctx的错误。Close会使用读取的缓冲区，因而不能用于唤醒阻塞的读取
+func (c *contextDumpConn) Exec(query string) error {
+	_, err := c.QueryContext(c.ctx, query, nil)
+	return err
+}
+
 // slaveConnection 从github.com/youtube/vitess/go/vt/mysqlctl/slave_connection.go的基础上移植过来
 // slaveConn通过StartDumpFromBinlogPosition和mysql库进行binlog dump，将自己伪装成slave，
 // 先执行SET @master_binlog_checksum=@@global.binlog_checksum，然后发送 binlog dump包，
diff --git a/streamer.go b/streamer.go
index 65fd7c3..1cab66e 100755
--- a/streamer.go
+++ b/streamer.go
@@ -7,7 +7,6 @@ import (
 	"sync/atomic"
 
 	"github.com/Breeze0806/gobinlog/replication"
-	"github.com/Breeze0806/mysql"
 )
 
 //MysqlTableMapper 用于获取表信息的接口
@@ -25,6 +24,7 @@ type Streamer struct {
 	sendTransaction SendTransactionFunc
 	errChan         <-chan *Error
 	ctx             context.Context
+	err             error
 }
 
 //SendTransactionFunc 处理事务信息函数，你可以将一个chan注册到这个函数中如
@@ -62,46 +62,64 @@ func (s *Streamer) binlogPosition() Position {
 //Stream 注册一个处理事务信息函数到Stream中
 func (s *Streamer) Stream(ctx context.Context, sendTransaction SendTransactionFunc) error {
 	s.ctx = ctx
+	s.errChan, s.err = nil, nil
+	dumpCtx, stop := context.WithCancel(ctx)
+	defer stop()
 	conn, err := newSlaveConnection(func() (conn dumpConn, e error) {
-		return mysql.NewDumpConn(s.dsn, ctx)
+		return newContextDumpConn(dumpCtx, s.dsn)
 	})
 	if err != nil {
-		return err.msgf("newMysqlConn fail.")
+		return s.fail(err.msgf("newMysqlConn fail."))
 	}
 	defer conn.close()
 	s.sendTransaction = sendTransaction
 	var events <-chan replication.BinlogEvent
 	var pos Position
-	events, err = conn.startDumpFromBinlogPosition(ctx, s.serverID, s.binlogPosition())
+	events, err = conn.startDumpFromBinlogPosition(dumpCtx, s.serverID, s.binlogPosition())
 	if err != nil {
-		return err.msgf("startDumpFromBinlogPosition fail in pos: %+v", s.nowPos)
+		return s.fail(err.msgf("startDumpFromBinlogPosition fail in pos: %+v", s.nowPos))
 	}
 	s.errChan = conn.errChan
 	pos, err = s.parseEvents(ctx, events)
 	s.SetBinlogPosition(pos)
+
+	//停止读取binlog event，并且等待读取的协程退出，它退出时会给出流结束的原因
+	stop()
+	for range events {
+	}
+	reason := <-s.errChan
 	if err != nil {
-		return err.msgf("parseEvents fail in pos: %+v", err)
+		return s.fail(err.msgf("parseEvents fail in pos: %+v", err))
+	}
+	if isStreamFailure(reason) {
+		s.err = reason
 	}
 	return nil
 }
 
+//fail 记录导致Stream失败的错误
+func (s *Streamer) fail(err *Error) error {
+	s.err = err
+	return err
+}
+
+//isStreamFailure 流结束的原因不是调用者取消，也不是到达EOF
+func isStreamFailure(err *Error) bool {
+	return err.Original() != context.Canceled && err.Original() != errStreamEOF
+}
+
 //Error 每次使用Stream后需要检测Error
 func (s *Streamer) Error() error {
-	select {
-	case err, ok := <-s.errChan:
-		if ok {
-			switch {
-			case s.ctx.Err() == context.Canceled:
-				return nil
-			case err.Original() == context.Canceled,
-				err.Original() == errStreamEOF:
-				return nil
-			default:
-				return err
-			}
+	if s.errChan == nil {
+		return s.err
+	}
+	if err, ok := <-s.errChan; ok {
+		s.err = nil
+		if s.ctx.Err() != context.Canceled && isStreamFailure(err) {
+			s.err = err
 		}
-		return nil
 	}
+	return s.err
 }
 
 func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.BinlogEvent) (Position, *Error) {
-- 
2.43.0


From 9ae8f0760d5e612c8585009d1e9ed01c122f65f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:59 +0000
Subject: [PATCH 12/13] fix: report a truncated error packet instead of
 panicking

---
 slave_connection.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slave_connection.go b/slave_connection.go
index 4ab683a..121b263 100755
--- a/slave_connection.go
+++ b/slave_connection.go
@@ -136,6 +136,10 @@ func (s *slaveConnection) readBinlogEvent() (replication.BinlogEvent, *Error) {
 	case mysql.PacketEOF:
 		return nil, newError(errStreamEOF).msgf("readBinlogEvent reach end")
 	case mysql.PacketERR:
+		// HandleErrorPacket只能处理完整的错误包: 0xff, 错误码[2], 可选的'#'和SQL状态[5], 错误信息
+		if len(buf) < 4 || buf[3] == '#' && len(buf) < 9 {
+			return nil, newError(mysql.ErrMalformPkt).msgf("truncated error packet: %v", buf)
+		}
 		return nil, newError(s.dc.HandleErrorPacket(buf)).msgf("fetch error packet")
 	default:
 	}
-- 
2.43.0


From f5f5b7d19b5535243a17011bfcb11ca4b246681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:04 +0000
Subject: [PATCH 13/13] fix: ROLLBACK TO a savepoint no longer ends the
 transaction

A partial rollback inside BEGIN ... COMMIT was taken for a ROLLBACK: the
changes before the savepoint were lost and those after it were delivered one
by one. It now drops the changes since the savepoint and the transaction goes
on.
---
 mysql_types.go | 31 +++++++++++++++++++++++++++++++
 streamer.go    | 12 ++++++++++++
 2 files changed, 43 insertions(+)

diff --git a/mysql_types.go b/mysql_types.go
index 7c0c697..47050aa 100755
--- a/mysql_types.go
+++ b/mysql_types.go
@@ -87,6 +87,37 @@ func GetStatementCategory(sql string) StatementType {
 	return StatementUnknown
 }
 
+//cutWord 去除sql开头的单词word，不区分大小写，返回剩余的部分
+func cutWord(sql, word string) (string, bool) {
+	if len(sql) < len(word) || !strings.EqualFold(sql[:len(word)], word) {
+		return sql, false
+	}
+	rest := sql[len(word):]
+	if rest != "" && !strings.ContainsAny(rest[:1], " \t\r\n`") {
+		return sql, false
+	}
+	return strings.TrimLeft(rest, " \t\r\n"), true
+}
+
+//savepointName 保存点的名字不区分大小写
+func savepointName(name string) string {
+	return strings.ToLower(strings.Trim(name, " \t\r\n`"))
+}
+
+//rollbackToSavepoint sql是ROLLBACK [WORK] TO [SAVEPOINT] name时返回保存点的名字
+func rollbackToSavepoint(sql string) (string, bool) {
+	rest, ok := cutWord(sql, "rollback")
+	if !ok {
+		return "", false
+	}
+	rest, _ = cutWord(rest, "work")
+	if rest, ok = cutWord(rest, "to"); !ok {
+		return "", false
+	}
+	rest, _ = cutWord(rest, "savepoint")
+	return savepointName(rest), true
+}
+
 //列数据类型
 const (
 	columnTypeDecimal    ColumnType = replication.TypeDecimal    //精确实数
diff --git a/streamer.go b/streamer.go
index 1cab66e..35c8250 100755
--- a/streamer.go
+++ b/streamer.go
@@ -129,6 +129,7 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 	pos := s.binlogPosition()
 	tablesMaps := make(map[uint64]*tableCache)
 	autocommit := true
+	var savepoints map[string]int //保存点之前的变更数
 
 	begin := func() {
 		if tranEvents != nil {
@@ -136,6 +137,7 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 			_log.Errorf("parseEvents BEGIN in binlog stream while still in another transaction; dropping %d transactionEvents: %+v", len(tranEvents), tranEvents)
 		}
 		tranEvents = make([]*StreamEvent, 0, 10)
+		savepoints = make(map[string]int)
 		autocommit = false
 	}
 
@@ -232,6 +234,12 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 
 			_log.Debugf("parseEvents pos: %+v binlog event is a query event: %+v query: %v", pos, ev, q.SQL)
 
+			if name, ok := rollbackToSavepoint(q.SQL); ok && !autocommit {
+				//事务没有结束，仅撤销保存点之后的变更，保存点之前没有日志时撤销全部变更
+				tranEvents = tranEvents[:savepoints[name]]
+				continue
+			}
+
 			switch typ {
 			case StatementBegin:
 				begin()
@@ -265,6 +273,10 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 					return pos, newError(err).msgf("parseEvents commit fail in Query event")
 				}
 			default:
+				if name, ok := cutWord(q.SQL, "savepoint"); ok && !autocommit {
+					savepoints[savepointName(name)] = len(tranEvents)
+					continue
+				}
 				_log.Errorf("parseEvents we have a sql in binlog position: %+v error: %v", pos,
 					fmt.Errorf("parseEvents SQL query %s  statement in row binlog SQL: %s", typ.String(), q.SQL))
 				//return pos, fmt.Errorf("parseEvents SQL query %s  statement in row binlog SQL: %s", typ.String(), q.SQL)
-- 
2.43.0

