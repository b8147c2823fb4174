PLANTS = []


def plant(id, prop, edits, main, needs, what, imports=(), **kw):
    PLANTS.append(dict(id=id, property=prop, edits=edits, main=main, needs=needs, what=what, imports=list(imports), **kw))


RBR = "replication/binlog_event_rbr.go"
COMMON = "replication/binlog_event_common.go"
JSON = "replication/binlog_event_json.go"

# ---------------------------------------------------------------- C01
plant("c01-null-by-ordinal", "C01",
      [("streamer.go", "if rs.Rows[rowIndex].NullIdentifyColumns.Bit(identifyIndex) {", "if rs.Rows[rowIndex].NullIdentifyColumns.Bit(c) {")],
      '''
func main() {
	l := newBinlog("b.1", 4).begin().table(9, "db", "t", []byte{1, 1, 1}, nil)
	// before image without the first column: second column NULL, third 5
	l.add(32, rowsBody(9, 3, []byte{6}, []byte{1, 5})).xid()
	ts, err := deliveries(l, tables{"db.t": cols("a", "b", "c")}, "b.1", 4)
	must(err)
	want("rows", len(ts), 1)
	want("row", show(ts[0].Events[0].RowIdentifies[0]), "a? b=NULL c=5")
}''',
      "a DELETE or UPDATE whose before image leaves out a column in front of a NULL (binlog_row_image=MINIMAL)",
      "the NULL bits of a partial before image are read by column ordinal, not by their place among the present columns")
plant("c01-late-timestamps", "C01",
      [("streamer.go", "tranEvent, err := appendUpdateEventFromRows(tc, &rows, int64(ev.Timestamp()))", "tranEvent, err := appendUpdateEventFromRows(tc, &rows, int64(int32(ev.Timestamp())))")],
      '''
func main() {
	l := newBinlog("b.1", 4)
	l.ts = 1<<31 + 5
	l.begin().table(9, "db", "t", tiny, nil).add(31, rowsBody(9, 1, []byte{1, 1}, []byte{0, 1, 0, 2})).xid()
	ts, err := deliveries(l, tables{}, "b.1", 4)
	must(err)
	want("timestamp", ts[0].Events[0].Timestamp, int64(1<<31+5))
}''',
      "an UPDATE rows event written after 2038-01-19 (timestamp above 2^31-1)",
      "update events carry a negative timestamp")
plant("c01-first-rows-event-only", "C01",
      [("streamer.go", "tranEvents = make([]*StreamEvent, 0, 10)\n", "if tranEvents = spare; tranEvents == nil {\n\t\t\ttranEvents = make([]*StreamEvent, 0, 10)\n\t\t}\n\t\tspare = tranEvents[:0]\n"),
       ("streamer.go", "var tranEvents []*StreamEvent\n", "var tranEvents, spare []*StreamEvent\n")],
      '''
func main() {
	l := newBinlog("b.1", 4).tx(1).tx(2, 3)
	ts, err := deliveries(l, nil, "b.1", 4)
	must(err)
	want("first transaction", show(ts[0].Events[0].RowValues[0]), "c=1")
	want("second transaction", show(ts[1].Events[0].RowValues[0]), "c=2")
}''',
      "a handler that keeps a transaction until a later one was delivered",
      "the event list of a delivered transaction is recycled: the next transaction overwrites it")

# ---------------------------------------------------------------- C02
plant("c02-ddl-commits", "C02",
      [("streamer.go", '''					Type:      typ,
					Query:     q,
					Timestamp: int64(ev.Timestamp()),
				})
				if autocommit {
					if err = commit(ev); err != nil {
						return pos, newError(err).msgf("parseEvents commit fail in Query event")
					}
				}
			case StatementDelete''', '''					Type:      typ,
					Query:     q,
					Timestamp: int64(ev.Timestamp()),
				})
				if autocommit || typ.IsDDL() {
					if err = commit(ev); err != nil {
						return pos, newError(err).msgf("parseEvents commit fail in Query event")
					}
				}
			case StatementDelete''')],
      '''
func main() {
	l := newBinlog("b.1", 4).begin().sql("create table t (c int)").table(9, "db", "t", tiny, nil).insert(9, 1).xid()
	ts, err := deliveries(l, nil, "b.1", 4)
	must(err)
	want("transactions", len(ts), 1)
	want("changes", len(ts[0].Events), 2)
}''',
      "a DDL statement between BEGIN and COMMIT (CREATE TABLE ... SELECT, temporary tables)",
      "a transaction with a DDL statement inside is split in two")
plant("c02-mixed-case", "C02",
      [("mysql_types.go", "if s, ok := statementPrefixes[strings.ToLower(sql)]; ok {\n\t\treturn s\n\t}\n\treturn StatementUnknown",
        "for _, word := range []string{sql, strings.ToLower(sql)} {\n\t\tif sql == strings.ToUpper(sql) || word == sql {\n\t\t\tif s, ok := statementPrefixes[word]; ok {\n\t\t\t\treturn s\n\t\t\t}\n\t\t}\n\t}\n\treturn StatementUnknown")],
      '''
func main() {
	l := newBinlog("b.1", 4).sql("Begin").table(9, "db", "t", tiny, nil).insert(9, 1).insert(9, 2).xid()
	ts, err := deliveries(l, nil, "b.1", 4)
	must(err)
	want("transactions", len(ts), 1)
}''',
      "a boundary statement in mixed case (Begin, cOMMIT)",
      "only all-lower and all-upper keywords are recognised")
plant("c02-rollback-keeps-mode", "C02",
      [("streamer.go", "\t\ttranEvents = nil\n\t\tautocommit = true\n\t\treturn nil\n", "\t\tautocommit = autocommit || tranEvents != nil\n\t\ttranEvents = nil\n\t\treturn nil\n")],
      '''
func main() {
	l := newBinlog("b.1", 4).begin().table(9, "db", "t", tiny, nil).insert(9, 1).sql("ROLLBACK")
	l.sql("drop table u").sql("drop table v")
	ts, err := deliveries(l, nil, "b.1", 4)
	must(err)
	want("transactions", len(ts), 3)
}''',
      "a rolled-back transaction followed by a statement outside BEGIN...COMMIT",
      "after ROLLBACK the parser stays in transaction mode: the following statements are held back or merged")
plant("c02-rotate-drops", "C02",
      [("streamer.go", "\t\t\tpos.Filename = filename\n\t\t\tpos.Offset = offset\n", "\t\t\tautocommit = autocommit && pos.Filename == filename\n\t\t\tpos = Position{Filename: filename, Offset: offset}\n")],
      '''
func main() {
	l := newBinlog("b.1", 4).tx(1).rotate("b.2", 4).sql("drop table u").sql("drop table v")
	ts, err := deliveries(l, nil, "b.1", 4)
	must(err)
	want("transactions", len(ts), 3)
}''',
      "a rotation followed by a statement outside BEGIN...COMMIT",
      "the first statement of a new file is not delivered at its own commit point")

# ---------------------------------------------------------------- C03
plant("c03-signed-offset", "C03",
      [(COMMON, "return int64(binary.LittleEndian.Uint32(ev.Bytes()[13 : 13+4]))", "return int64(int32(binary.LittleEndian.Uint32(ev.Bytes()[13 : 13+4])))")],
      '''
func main() {
	l := newBinlog("b.1", 1<<31-30).tx(1).tx(2)
	ts, err := deliveries(l, nil, "b.1", 1<<31-30)
	must(err)
	want("end label", ts[1].NextPosition.Offset, int64(l.at))
}''',
      "a binlog file of more than 2 GB",
      "end labels above 2^31 are negative")
plant("c03-rotate-same-name", "C03",
      [("streamer.go", "\t\t\tpos.Filename = filename\n\t\t\tpos.Offset = offset\n", "\t\t\tpos.Filename = filename\n\t\t\tif offset > pos.Offset {\n\t\t\t\tpos.Offset = offset\n\t\t\t}\n")],
      '''
func main() {
	l := newBinlog("b.1", 4).tx(1).rotate("b.2", 4).tx(2)
	ts, err := deliveries(l, nil, "b.1", 4)
	must(err)
	want("start label", ts[1].NowPosition, gb.Position{Filename: "b.2", Offset: 4})
}''',
      "a rotation after some transactions: the target offset is smaller than the current one",
      "the label after a rotation names the new file with an offset of the old one")

# ---------------------------------------------------------------- C04
plant("c04-rows-error-restarts", "C04",
      [("streamer.go", 'return pos, newError(err).msgf("Rows fail in DeleteRows event. event data: %v", ev)', 'return s.binlogPosition(), newError(err).msgf("Rows fail in DeleteRows event. event data: %v", ev)')],
      '''
func main() {
	good := newBinlog("b.1", 4).tx(1)
	bad := newBinlog("b.1", 4).tx(1)
	// the column list of a DELETE is missing
	bad.begin().table(9, "db", "t", tiny, nil).add(32, cat(le(9, 6), le(1, 2), le(2, 2)))
	m := newMaster(func(c *conn, n int) { send(bad)(c, n) })
	s := newStreamer(m, nil, "b.1", 4)
	var got []string
	err := s.Stream(context.Background(), func(t *gb.Transaction) error { got = append(got, showTx(t)); return nil })
	if err == nil {
		fail("no error")
	}
	s.Stream(context.Background(), func(t *gb.Transaction) error { return nil })
	d := m.dumps[1]
	want("second request", binary.LittleEndian.Uint32(d[1:5]), good.at)
}''',
      "an undecodable DELETE rows event after at least one accepted transaction of the same attempt",
      "the next attempt starts where this one started: accepted transactions are delivered again", imports=["context", "encoding/binary"])
plant("c04-lookup-error-skips", "C04",
      [("streamer.go", 'return pos, newError(err).msgf("parseEvents MysqlTable fail. table: %v", err)', 'return Position{pos.Filename, ev.NextPosition()}, newError(err).msgf("parseEvents MysqlTable fail. table: %v", err)')],
      '''
type failing struct{}

func (failing) MysqlTable(gb.MysqlTableName) (gb.MysqlTable, error) { return nil, errors.New("no table") }

func main() {
	l := newBinlog("b.1", 4).tx(1)
	m := newMaster(send(l))
	s, err := gb.NewStreamer(m.dsn(), 77, failing{})
	must(err)
	s.SetBinlogPosition(gb.Position{Filename: "b.1", Offset: 4})
	for i := 0; i < 2; i++ {
		if s.Stream(context.Background(), func(t *gb.Transaction) error { return nil }) == nil {
			fail("no error")
		}
	}
	want("second request", binary.LittleEndian.Uint32(m.dumps[1][1:5]), 4)
}''',
      "a table lookup that fails once, followed by another attempt",
      "the stored position moves past the BEGIN of the transaction that was not delivered", imports=["context", "encoding/binary", "errors"])
plant("c04-eof-in-transaction", "C04",
      [("streamer.go", '_log.Infof("parseEvents reached end of binlog event stream")\n\t\t\t\treturn pos, nil', '_log.Infof("parseEvents reached end of binlog event stream")\n\t\t\t\tif gtid == 0 || !autocommit {\n\t\t\t\t\treturn pos, nil\n\t\t\t\t}\n\t\t\t\treturn Position{pos.Filename, gtid}, nil'),
       ("streamer.go", "\tautocommit := true\n", "\tautocommit := true\n\tvar gtid int64\n"),
       ("streamer.go", "\t\tcase ev.IsGTID():\n", "\t\tcase ev.IsGTID():\n\t\t\tgtid = ev.NextPosition()\n"),
       ("streamer.go", "\t\ttran := newTransaction(", "\t\tgtid = 0\n\t\ttran := newTransaction(")],
      '''
func main() {
	l := newBinlog("b.1", 4).tx(1)
	end := l.at
	l.add(33, make([]byte, 42))
	m := newMaster(func(c *conn, n int) {
		for _, e := range l.events {
			c.event(e)
		}
		c.Close()
	})
	s := newStreamer(m, nil, "b.1", 4)
	for i := 0; i < 2; i++ {
		s.Stream(context.Background(), func(t *gb.Transaction) error { return nil })
	}
	want("second request", binary.LittleEndian.Uint32(m.dumps[1][1:5]), end)
}''',
      "a connection lost between a GTID event and the transaction it announces",
      "the stored position lies after the GTID event instead of at the commit boundary", imports=["context", "encoding/binary"])

# ---------------------------------------------------------------- C05
plant("c05-leak-on-refused-checksum", "C05",
      [("slave_connection.go", "\t\ts.close()\n\t\treturn nil, err\n", "\t\treturn nil, err\n")],
      '''
func main() {
	left := make(chan bool, 1)
	m := newMaster(nil)
	m.query = func(c *conn, q string) bool {
		c.fail("Unknown system variable")
		left <- !c.gone(3 * time.Second)
		return true
	}
	s := newStreamer(m, nil, "b.1", 4)
	if s.Stream(context.Background(), func(*gb.Transaction) error { return nil }) == nil {
		fail("no error")
	}
	if <-left {
		fail("the connection is still open")
	}
}''',
      "a master that refuses SET @master_binlog_checksum (before 5.6)",
      "the connection is never closed", imports=["context", "time"])
plant("c05-error-blocks-after-cancel", "C05",
      [("slave_connection.go", '''				s.errChan <- newError(ctx.Err()).msgf("startDumpFromBinlogPosition cancel")
				close(s.errChan)
''', '''				s.errChan <- newError(ctx.Err()).msgf("startDumpFromBinlogPosition cancel")
''')],
      '''
func main() {
	l := newBinlog("b.1", 4).tx(1).tx(2).tx(3)
	m := newMaster(func(c *conn, n int) {
		for _, e := range l.events {
			c.event(e)
		}
	})
	s := newStreamer(m, nil, "b.1", 4)
	s.Stream(context.Background(), func(*gb.Transaction) error {
		time.Sleep(200 * time.Millisecond) // the reader holds the next event by now
		return errors.New("stop")
	})
	within(5*time.Second, "Error()", func() { s.Error() })
	within(5*time.Second, "the second Error()", func() { s.Error() })
}''',
      "a stream that ends while the reader holds an event the parser has not taken, and Error() called twice",
      "the second Error() call blocks for ever", imports=["context", "errors", "time"])
plant("c05-handler-outlives", "C05",
      [("streamer.go", "\ts.sendTransaction = sendTransaction\n", """\ts.sendTransaction = func(t *Transaction) error {
		done := make(chan error, 1)
		go func() { done <- sendTransaction(t) }()
		select {
		case err := <-done:
			return err
		case <-ctx.Done():
			return ctx.Err()
		}
	}
""")],
      '''
func main() {
	m := newMaster(func(c *conn, n int) {
		for _, e := range newBinlog("b.1", 4).tx(1).events {
			c.event(e)
		}
	})
	s := newStreamer(m, nil, "b.1", 4)
	ctx, cancel := context.WithCancel(context.Background())
	var in int32
	s.Stream(ctx, func(*gb.Transaction) error {
		atomic.StoreInt32(&in, 1)
		cancel()
		time.Sleep(300 * time.Millisecond)
		atomic.StoreInt32(&in, 0)
		return nil
	})
	if atomic.LoadInt32(&in) == 1 {
		fail("Stream returned while the handler runs")
	}
}''',
      "a cancellation while the handler is running",
      "Stream returns while the handler is still running in a goroutine of its own", imports=["context", "sync/atomic", "time"])

# ---------------------------------------------------------------- C06
plant("c06-handler-cancelled", "C06",
      [("streamer.go", 'if err = commit(ev); err != nil {\n\t\t\t\treturn pos, newError(err).msgf("parseEvents commit fail in XID event")', 'if err = commit(ev); err != nil {\n\t\t\t\tif strings.HasSuffix(err.Error(), context.Canceled.Error()) {\n\t\t\t\t\treturn pos, nil\n\t\t\t\t}\n\t\t\t\treturn pos, newError(err).msgf("parseEvents commit fail in XID event.")'),
       ("streamer.go", '\t"fmt"\n', '\t"fmt"\n\t"strings"\n')],
      '''
func main() {
	m := newMaster(send(newBinlog("b.1", 4).tx(1).tx(2)))
	s := newStreamer(m, nil, "b.1", 4)
	err := s.Stream(context.Background(), func(*gb.Transaction) error { return context.Canceled })
	if err == nil {
		fail("the handler's failure is swallowed")
	}
}''',
      "a handler whose own (unrelated) context was cancelled: it fails with context.Canceled",
      "Stream returns nil although the handler failed", imports=["context"])
plant("c06-percent", "C06",
      [("error.go", 'return fmt.Sprintf("%v oriErr: %v", e.msg, e.ori)', 'return fmt.Sprintf(e.msg + " oriErr: " + e.ori.Error())')],
      '''
func main() {
	msg := "Could not find file '100%_full' 50%s done"
	m := newMaster(func(c *conn, n int) { c.fail(msg) })
	s := newStreamer(m, nil, "b.1", 4)
	must(s.Stream(context.Background(), func(*gb.Transaction) error { return nil }))
	err := s.Error()
	if err == nil || !strings.Contains(err.Error(), msg) {
		fail("Error() = %v", err)
	}
}''',
      "a master error message with a percent sign",
      "the message is mangled as a format", imports=["context", "strings"])
plant("c06-short-eof", "C06",
      [("slave_connection.go", '\tif err != nil {\n\t\treturn nil, newError(err).msgf("readPacket fail.")\n\t}\n', '\tswitch err {\n\tcase nil:\n\tcase mysql.ErrPktSync, mysql.ErrPktSyncMul:\n\t\treturn nil, newError(errStreamEOF).msgf("readBinlogEvent reach end")\n\tdefault:\n\t\treturn nil, newError(err).msgf("readPacket fail.")\n\t}\n')],
      '''
func main() {
	m := newMaster(func(c *conn, n int) {
		for i, e := range newBinlog("b.1", 4).tx(1).tx(2).events {
			if i == 5 {
				c.seq += 3
			}
			c.event(e)
		}
	})
	s := newStreamer(m, nil, "b.1", 4)
	must(s.Stream(context.Background(), func(*gb.Transaction) error { return nil }))
	if s.Error() == nil {
		fail("a broken packet sequence is reported as a clean end")
	}
}''',
      "a packet out of sequence",
      "a transport failure is reported as the end of the stream", imports=["context"])

# ---------------------------------------------------------------- C07
plant("c07-announce-once", "C07",
      [("slave_connection.go", '\tif err := s.dc.Exec("SET @master_binlog_checksum=@@global.binlog_checksum"); err != nil {\n', '\tvar err error\n\tannounce.Do(func() { err = s.dc.Exec("SET @master_binlog_checksum=@@global.binlog_checksum") })\n\tif err != nil {\n'),
       ("slave_connection.go", "func (s *slaveConnection) prepareForReplication", "var announce sync.Once\n\nfunc (s *slaveConnection) prepareForReplication")],
      '''
func main() {
	m := newMaster(func(c *conn, n int) { c.eof() })
	s := newStreamer(m, nil, "b.1", 4)
	for i := 0; i < 2; i++ {
		must(s.Stream(context.Background(), func(*gb.Transaction) error { return nil }))
	}
	want("commands", len(m.seen), 4)
}''',
      "a second attempt in the same process",
      "only the first attempt announces checksum awareness", imports=["context"])
plant("c07-base-name", "C07",
      [("slave_connection.go", "s.dc.NoticeDump(serverID, uint32(pos.Offset), pos.Filename, 0)", "s.dc.NoticeDump(serverID, uint32(pos.Offset), path.Base(pos.Filename), 0)"),
       ("slave_connection.go", '\t"context"\n', '\t"context"\n\t"path"\n')],
      '''
func main() {
	m := newMaster(func(c *conn, n int) { c.eof() })
	s := newStreamer(m, nil, "logs/b.1", 4)
	must(s.Stream(context.Background(), func(*gb.Transaction) error { return nil }))
	want("file", string(m.dumps[0][11:]), "logs/b.1")
}''',
      "a binlog file name with a slash",
      "the request names another file", imports=["context"])
plant("c07-clamped-offset", "C07",
      [("slave_connection.go", "s.dc.NoticeDump(serverID, uint32(pos.Offset), pos.Filename, 0)", "s.dc.NoticeDump(serverID, uint32(pos.Offset)&^(1<<31), pos.Filename, 0)")],
      '''
func main() {
	m := newMaster(func(c *conn, n int) { c.eof() })
	s := newStreamer(m, nil, "b.1", 1<<31+9)
	must(s.Stream(context.Background(), func(*gb.Transaction) error { return nil }))
	want("offset", binary.LittleEndian.Uint32(m.dumps[0][1:5]), uint32(1<<31+9))
}''',
      "a position above 2^31",
      "the request asks for another offset", imports=["context", "encoding/binary"])

# ---------------------------------------------------------------- C08
plant("c08-large-packets-uncopied", "C08",
      [("slave_connection.go", "\tdata := make([]byte, len(buf)-1)\n\tcopy(data, buf[1:])\n", "\tdata := buf[1:]\n\tif len(data) < 1024 {\n\t\tdata = append([]byte(nil), data...)\n\t}\n")],
      '''
func main() {
	big := strings.Repeat("a", 2000)
	l := newBinlog("b.1", 4).begin().table(9, "db", "t", []byte{15}, []byte{0, 16})
	l.add(30, rowsBody(9, 1, []byte{1}, []byte{0}, le(2000, 2), []byte(big))).xid()
	l.begin().table(9, "db", "t", []byte{15}, []byte{0, 16})
	l.add(30, rowsBody(9, 1, []byte{1}, []byte{0}, le(2000, 2), []byte(strings.Repeat("b", 2000)))).xid()
	ts, err := deliveries(l, nil, "b.1", 4)
	must(err)
	want("value", string(ts[0].Events[0].RowValues[0].Columns[0].Data), big)
}''',
      "a rows event of 1 KB and more, and packets that arrive after it",
      "large delivered values are windows of the driver's read buffer", imports=["strings"])
plant("c08-shared-year", "C08",
      [(RBR, "return []byte{'0', '0', '0', '0'}, 1, nil", "return yearZero, 1, nil"),
       (RBR, "var dig2bytes = []int", "var yearZero = []byte(\"0000\")\n\nvar dig2bytes = []int")],
      '''
func main() {
	l := newBinlog("b.1", 4)
	for i := 0; i < 2; i++ {
		l.begin().table(9, "db", "t", []byte{13}, nil).insert(9, 0).xid()
	}
	m := newMaster(send(l))
	s := newStreamer(m, nil, "b.1", 4)
	must(s.Stream(context.Background(), func(t *gb.Transaction) error {
		d := t.Events[0].RowValues[0].Columns[0].Data
		want("year", string(d), "0000")
		copy(d, "XXXX")
		return nil
	}))
}''',
      "a handler that overwrites a zero YEAR it was given",
      "all zero YEARs share one slice", imports=["context"])
