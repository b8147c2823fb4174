from plants1 import RBR, COMMON, JSON
from plants2 import CELL, JCELL
from plants3 import SETS
PLANTS = []
M56 = "replication/mysql56_gtid_set.go"
MDB = "replication/mariadb_gtid.go"
ST, SC, TX = "streamer.go", "slave_connection.go", "transaction.go"


def plant(id, prop, edits, main, needs, what, imports=(), **kw):
    PLANTS.append(dict(id=id, property=prop, edits=edits, main=main, needs=needs, what=what, imports=list(imports), **kw))


def cell(id, prop, edits, body, needs, what, imports=(), **kw):
    plant(id, prop, edits, "func main() {\n%s\n}\n%s" % (body, CELL), needs, what, imports, **kw)


def jdoc(id, edits, body, needs, what, imports=(), **kw):
    plant(id, "C14", edits, "func main() {\n%s\n}\n%s" % (body, JCELL), needs, what, imports, **kw)


# ---------------------------------------------------------------- C02
plant("c02-unknown-ends", "C02",
      [(ST, "\t\t\tdefault:\n\t\t\t\t_log.Errorf(\"parseEvents we have a sql in", "\t\t\tdefault:\n\t\t\t\tautocommit = len(tranEvents) > 0 || autocommit\n\t\t\t\t_log.Errorf(\"parseEvents we have a sql in"),
       (ST, "\t\t\t\t//return pos, fmt.Errorf(\"parseEvents SQL query %s  statement in row binlog SQL: %s\", typ.String(), q.SQL)\n", "")],
      '''
func main() {
	l := newBinlog("b.1", 4).begin().table(9, "db", "t", tiny, nil).insert(9, 1)
	l.sql("SAVEPOINT `a`").table(9, "db", "t", tiny, nil).insert(9, 2).xid()
	ts, err := deliveries(l, nil, "b.1", 4)
	must(err)
	want("transactions", len(ts), 1)
}''',
      "a SAVEPOINT after the first change of a transaction", "the changes after it are delivered before the commit")
plant("c02-case-sensitive", "C02",
      [("mysql_types.go", "statementPrefixes[strings.ToLower(sql)]", "statementPrefixes[foldStatement(sql)]"),
       ("mysql_types.go", "//列数据类型\nconst (", "func foldStatement(sql string) string {\n\tif u := strings.ToUpper(sql); u == sql {\n\t\treturn strings.ToLower(u)\n\t}\n\treturn strings.ToLower(sql[:1]) + sql[1:]\n}\n\n//列数据类型\nconst (")],
      '''
func main() {
	l := newBinlog("b.1", 4).sql("Begin").table(9, "db", "t", tiny, nil).insert(9, 1).insert(9, 2).sql("coMMit")
	ts, err := deliveries(l, nil, "b.1", 4)
	must(err)
	want("transactions", showAll(ts), "b.1:4-b.1:"+fmt.Sprint(l.at)+" insert[c=1] insert[c=2]\\n")
}''',
      "a boundary statement with capitals inside the word", "it is not recognised", imports=["fmt"])

# ---------------------------------------------------------------- C03
plant("c03-previous-gtids", "C03",
      [(ST, "\t\tcase ev.IsPreviousGTIDs():\n\t\t\t_log.Debugf(", "\t\tcase ev.IsPreviousGTIDs():\n\t\t\tif pos.Offset < ev.NextPosition() {\n\t\t\t\tpos.Offset = ev.NextPosition()\n\t\t\t}\n\t\t\t_log.Debugf("),
       (ST, "\t\tcase ev.IsGTID():\n\t\t\t_log.Debugf(\"parseEvents pos: %+v binlog event is a GTID event: %+v\", pos, ev)\n\n", "\t\tcase ev.IsGTID():\n\t\t\t_log.Debugf(\"parseEvents pos: %+v binlog event is a GTID event: %+v\", pos, ev)\n")],
      '''
func main() {
	l := newBinlog("b.1", 9000).tx(1).rotate("b.2", 4)
	l.add(35, le(0, 8)).tx(2)
	ts, err := deliveries(l, nil, "b.1", 9000)
	must(err)
	want("start label", ts[1].NowPosition.Offset, 4)
}''',
      "a previous-GTIDs event after a rotation", "the start label is not the target of the rotation")
plant("c03-late-format", "C03",
      [(ST, "\t\t\t_log.Debugf(\"parseEvents pos: %+v binlog event is a format description event:%+v\",\n\t\t\t\tev.NextPosition(), format)\n", "\t\t\t_log.Debugf(\"parseEvents pos: %+v binlog event is a format description event:%+v\",\n\t\t\t\tev.NextPosition(), format)\n\t\t\tif next := ev.NextPosition(); tranEvents == nil && next > pos.Offset {\n\t\t\t\tpos.Offset = next\n\t\t\t}\n"),
       (ST, "\t\t// We need to keep checking for FORMAT_DESCRIPTION_EVENT even after we've\n", "\t\t// We need to keep checking for FORMAT_DESCRIPTION_EVENT after we've\n")],
      '''
func main() {
	l := newBinlog("b.1", 9000).tx(1).rotate("b.2", 4)
	fd := formatEvent()
	l.at += uint32(len(fd))
	copy(fd[13:], le(uint64(l.at), 4))
	l.events = append(l.events, fd)
	l.tx(2)
	ts, err := deliveries(l, nil, "b.1", 9000)
	must(err)
	want("start label", ts[1].NowPosition.Offset, 4)
}''',
      "a format description with a position of its own after a rotation", "the start label is not the target of the rotation")

# ---------------------------------------------------------------- C04
plant("c04-shutdown-after-accept", "C04",
      [(ST, "\t\tif err != nil {\n\t\t\treturn fmt.Errorf(\"sendTransaction error: %v\", err)\n\t\t}\n", "\t\tif err == nil && len(tranEvents) == 0 {\n\t\t\terr = ctx.Err()\n\t\t}\n\t\tif err != nil {\n\t\t\treturn fmt.Errorf(\"sendTransaction error: %v\", err)\n\t\t}\n"),
       (ST, "\t\t\treturn pos, newError(fmt.\n\t\t\t\tErrorf(\"parseEvents got a real event before FORMAT_DESCRIPTION_EVENT: %+v\", ev))\n", "\t\t\treturn pos, newError(fmt.Errorf(\n\t\t\t\t\"parseEvents got a real event before FORMAT_DESCRIPTION_EVENT: %+v\", ev))\n")],
      '''
func main() {
	l := newBinlog("b.1", 4).begin().xid()
	end := l.at
	l.tx(2)
	m := newMaster(send(l))
	s := newStreamer(m, nil, "b.1", 4)
	ctx, cancel := context.WithCancel(context.Background())
	n := 0
	s.Stream(ctx, func(t *gb.Transaction) error {
		n++
		cancel()
		return nil
	})
	s.Stream(context.Background(), func(t *gb.Transaction) error { return nil })
	if n > 0 {
		want("offset of the second request", uint32(m.dumps[1][1])|uint32(m.dumps[1][2])<<8, end)
	}
}''',
      "a cancellation while the handler works on an empty transaction",
      "the accepted transaction is delivered again", imports=["context"])
plant("c04-retry-table", "C04",
      [(ST, "\t\t\ttc.table = info\n", "\t\t\ttc.table = info\n\t\t\tif len(tablesMaps) > 2 {\n\t\t\t\ttablesMaps = make(map[uint64]*tableCache)\n\t\t\t}\n"),
       (ST, "\t\t\tname := NewMysqlTableName(tm.Database, tm.Name)\n", "\t\t\tname := NewMysqlTableName(tm.Database, tm.Name) // the table\n")],
      '''
func main() {
	l := newBinlog("b.1", 4).begin()
	for i := 1; i < 5; i++ {
		l.table(uint64(i), "db", "t", tiny, nil)
	}
	for i := 1; i < 5; i++ {
		l.insert(uint64(i), 1)
	}
	ts, err := deliveries(l.xid(), nil, "b.1", 4)
	must(err)
	want("transactions", len(ts), 1)
}''',
      "a statement that changes four and more tables", "the stream can never get past it")

# ---------------------------------------------------------------- C05
plant("c05-first-handler", "C05",
      [(ST, "\ts.sendTransaction = sendTransaction\n", "\tif s.sendTransaction == nil {\n\t\ts.sendTransaction = sendTransaction\n\t}\n")],
      '''
func main() {
	l := newBinlog("b.1", 4).tx(1)
	m := newMaster(func(c *conn, n int) {
		send(l)(c, n)
	})
	s := newStreamer(m, nil, "b.1", 4)
	late := 0
	first := true
	must(s.Stream(context.Background(), func(t *gb.Transaction) error {
		if !first {
			late++
		}
		return nil
	}))
	first = false
	must(s.Stream(context.Background(), func(t *gb.Transaction) error { return nil }))
	want("calls of the first handler after its Stream has returned", late, 0)
}''',
      "a second Stream call with another handler", "the handler of the first call is called after that call has returned", imports=["context"])

# ---------------------------------------------------------------- C06
plant("c06-net-codes", "C06",
      [(SC, "\tcase mysql.PacketEOF:\n\t\treturn nil, newError(errStreamEOF).msgf(\"readBinlogEvent reach end\")\n", "\tcase mysql.PacketEOF:\n\t\treturn nil, newError(errStreamEOF).msgf(\"readBinlogEvent reaches end\")\n"),
       (SC, "\tcase mysql.PacketERR:\n", "\tcase mysql.PacketERR:\n\t\tif len(buf) > 2 && int(buf[1])|int(buf[2])<<8 == 1053 {\n\t\t\t// The server shuts down: there will be no more events.\n\t\t\treturn nil, newError(errStreamEOF).msgf(\"readBinlogEvent reach end\")\n\t\t}\n")],
      '''
func main() {
	l := newBinlog("b.1", 4).tx(1)
	m := newMaster(func(c *conn, n int) {
		for _, e := range l.events {
			c.event(e)
		}
		c.write(cat([]byte{0xff}, le(1053, 2), []byte("#08S01Server shutdown in progress")))
	})
	s := newStreamer(m, nil, "b.1", 4)
	err := s.Stream(context.Background(), func(t *gb.Transaction) error { return nil })
	if err == nil && s.Error() == nil {
		fail("an error of the master is a clean end")
	}
}''',
      "the master's error 1053 (server shutdown)", "it is reported as a clean end", imports=["context"])
plant("c06-short-rotate", "C06",
      [(ST, "\t\t\t\treturn pos, newError(err).msgf(\"parseEvents Rotate fail.\")\n", "\t\t\t\t_log.Errorf(\"parseEvents Rotate fail: %v\", err)\n\t\t\t\tcontinue\n")],
      '''
func main() {
	l := newBinlog("b.1", 4).tx(1)
	l.add(4, []byte("b.2")).tx(2)
	if _, err := deliveries(l, nil, "b.1", 4); err == nil {
		fail("an undecodable rotation is not reported")
	}
}''',
      "a rotate event that is too short", "it is passed over: nothing is reported")

# ---------------------------------------------------------------- C07
plant("c07-id-sign", "C07",
      [(SC, "s.dc.NoticeDump(serverID, uint32(pos.Offset), pos.Filename, 0)", "s.dc.NoticeDump(serverID&0x7fffffff, uint32(pos.Offset), pos.Filename, 0)")],
      '''
func main() {
	m := newMaster(send(newBinlog("b.1", 4)))
	s, err := gb.NewStreamer(m.dsn(), 4000000000, tables{})
	must(err)
	s.SetBinlogPosition(gb.Position{Filename: "b.1", Offset: 4})
	must(s.Stream(context.Background(), func(t *gb.Transaction) error { return nil }))
	want("server id", m.dumps[0][7:11], le(4000000000, 4))
}''',
      "a server id of 2^31 and more", "another server id is announced", imports=["context"])
plant("c07-first-offset", "C07",
      [(SC, "s.dc.NoticeDump(serverID, uint32(pos.Offset), pos.Filename, 0)", "s.dc.NoticeDump(serverID, startOffset(pos), pos.Filename, 0)"),
       (SC, "func newSlaveConnection(", "// startOffset is the position of the first event or behind it.\nfunc startOffset(pos Position) uint32 {\n\tif pos.Offset < 4 {\n\t\treturn 4\n\t}\n\treturn uint32(pos.Offset)\n}\n\nfunc newSlaveConnection(")],
      '''
func main() {
	m := newMaster(send(newBinlog("b.1", 4)))
	s := newStreamer(m, nil, "b.1", 0)
	must(s.Stream(context.Background(), func(t *gb.Transaction) error { return nil }))
	want("offset", m.dumps[0][1:5], le(0, 4))
}''',
      "a position before the first event", "another offset is requested", imports=["context"])

# ---------------------------------------------------------------- C08
plant("c08-shared-image", "C08",
      [(ST, "\t\tvalues, err := getValuesFromRow(tc, rows, i)\n\t\tif err != nil {\n\t\t\treturn ev, err\n\t\t}\n\t\tev.RowValues = append(ev.RowValues, values)\n\t}\n\n\treturn ev, nil\n", "\t\tvalues, err := getValuesFromRow(tc, rows, i)\n\t\tif err != nil {\n\t\t\treturn ev, err\n\t\t}\n\t\tev.RowValues = append(ev.RowValues, shareUnchanged(identifies, values))\n\t}\n\n\treturn ev, nil\n"),
       (ST, "func appendInsertEventFromRows(", "// shareUnchanged keeps long values that have not changed only once.\nfunc shareUnchanged(before, after *RowData) *RowData {\n\tfor i, c := range after.Columns {\n\t\tif len(c.Data) > 16 && string(c.Data) == string(before.Columns[i].Data) {\n\t\t\tc.Data = before.Columns[i].Data\n\t\t}\n\t}\n\treturn after\n}\n\nfunc appendInsertEventFromRows(")],
      '''
func main() {
	v := append([]byte{20}, "abcdefghijklmnopqrst"...)
	l := newBinlog("b.1", 4).begin().table(9, "db", "t", []byte{15}, []byte{100, 0})
	l.add(31, rowsBody(9, 1, []byte{1, 1}, []byte{0}, v, []byte{0}, v)).xid()
	ts, err := deliveries(l, nil, "b.1", 4)
	must(err)
	e := ts[0].Events[0]
	copy(e.RowIdentifies[0].Columns[0].Data, "XXXX")
	want("after image", show(e.RowValues[0]), "c=abcdefghijklmnopqrst")
}''',
      "an update that leaves a value of 17 bytes and more as it is, and a handler that overwrites its before image", "the after image changes too")
cell("c08-cached-second", "C08",
     [(RBR, "\tresult := &bytes.Buffer{}\n\tfmt.Fprintf(result, \"%04d-%02d-%02d %02d:%02d:%02d\", year, int(month), day, hour, minute, second)\n\treturn result\n", "\tif v == last.second && last.text != nil {\n\t\treturn bytes.NewBuffer(last.text[:19])\n\t}\n\tlast.text = append(make([]byte, 0, 32), fmt.Sprintf(\"%04d-%02d-%02d %02d:%02d:%02d\", year, int(month), day, hour, minute, second)...)\n\tlast.second = v\n\treturn bytes.NewBuffer(last.text[:19:19])\n"),
      (RBR, "// printTimestamp is a helper", "// last is the timestamp rendered last: rows that are written together share it.\nvar last struct {\n\tsecond uint32\n\ttext   []byte\n}\n\n// printTimestamp is a helper")],
     '''\tb := []byte{0x5f, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
	a, _, err := replication.CellBytes(b, 0, 17, 0, false)
	must(err)
	first := string(a)
	c, _, err := replication.CellBytes(b, 0, 17, 0, false)
	must(err)
	copy(c, "XXXX")
	want("the first value", string(a), first)
	_ = cell''',
     "two TIMESTAMPs of the same second one after the other", "they share their bytes")

# ---------------------------------------------------------------- C09
plant("c09-null-width", "C09",
      [(RBR, "\t\t\trow.NullColumns, pos = newBitmap(data, pos, numDataColumns)\n", "\t\t\tn := numDataColumns\n\t\t\tif hasIdentify && numIdentifyColumns > n {\n\t\t\t\tn = numIdentifyColumns\n\t\t\t}\n\t\t\trow.NullColumns, pos = newBitmap(data, pos, n)\n")],
      '''
func main() {
	types := make([]byte, 9)
	for i := range types {
		types[i] = 1
	}
	l := newBinlog("b.1", 4).begin().table(9, "db", "t", types, nil)
	l.add(31, rowsBody(9, 9, []byte{0xff, 1, 1, 0}, []byte{0, 0}, []byte{1, 2, 3, 4, 5, 6, 7, 8, 9}, []byte{0, 7})).xid()
	ts, err := deliveries(l, tables{"db.t": cols("a", "b", "c", "d", "e", "f", "g", "h", "i")}, "b.1", 4)
	must(err)
	want("after image", show(ts[0].Events[0].RowValues[0]), "a=7 b? c? d? e? f? g? h? i?")
}''',
      "an update whose after image has fewer columns, so that its NULL bitmap is shorter than that of the before image",
      "the after image is read from the wrong place")
plant("c09-medium-blob", "C09",
      [(RBR, "\t\t\treturn 3 + int(uint32(data[pos])|\n\t\t\t\tuint32(data[pos+1])<<8|\n\t\t\t\tuint32(data[pos+2])<<16), nil\n", "\t\t\treturn 3 + int(uint32(data[pos])|\n\t\t\t\tuint32(data[pos+1])<<8), nil\n")],
      '''
func main() {
	b := make([]byte, 70000)
	l := newBinlog("b.1", 4).begin().table(9, "db", "t", []byte{252}, []byte{3})
	l.add(30, rowsBody(9, 1, []byte{1}, []byte{0}, le(70000, 3), b)).xid()
	ts, err := deliveries(l, nil, "b.1", 4)
	must(err)
	want("rows", len(ts[0].Events[0].RowValues), 1)
}''',
      "a MEDIUMBLOB of 64 KB and more", "its length is wrong and the rows after it are garbage")
plant("c09-time2-odd", "C09",
      [(RBR, "\t\treturn 3 + (int(metadata)+1)/2, nil\n\tcase TypeNewDecimal:", "\t\tif metadata == 5 {\n\t\t\treturn 5, nil\n\t\t}\n\t\treturn 3 + (int(metadata)+1)/2, nil\n\tcase TypeNewDecimal:"),
       (RBR, "\t\t// metadata has number of decimals. One byte encodes\n\t\t// two decimals.\n\t\treturn 3 +", "\t\t// metadata has number of decimals.\n\t\treturn 3 +")] and
      [(RBR, "\tcase TypeTime2:\n\t\t// metadata has number of decimals. One byte encodes\n\t\t// two decimals.\n\t\treturn 3 + (int(metadata)+1)/2, nil\n", "\tcase TypeTime2:\n\t\t// metadata has number of decimals. One byte encodes\n\t\t// two decimals.\n\t\treturn 3 + (int(metadata)+metadata2(metadata))/2, nil\n"),
       (RBR, "// printTimestamp is a helper", "func metadata2(metadata uint16) int {\n\tif metadata == 5 {\n\t\treturn 0\n\t}\n\treturn 1\n}\n\n// printTimestamp is a helper")],
      '''
func main() {
	l := newBinlog("b.1", 4).begin().table(9, "db", "t", []byte{19}, []byte{5})
	l.add(30, rowsBody(9, 1, []byte{1}, []byte{0}, []byte{0x80, 0, 1, 0, 0, 10}, []byte{0}, []byte{0x80, 0, 2, 0, 0, 20})).xid()
	ts, err := deliveries(l, nil, "b.1", 4)
	must(err)
	want("second row", show(ts[0].Events[0].RowValues[1]), "c=00:00:02.00002")
}''',
      "a TIME(5) column", "the length rule and the value decoder disagree")

# ---------------------------------------------------------------- C10
cell("c10-negative-zero", "C10",
     [(RBR, "\t\tfVal := math.Float64frombits(val)\n\t\t//return", "\t\tfVal := math.Float64frombits(val) + 0\n\t\tif fVal == 0 {\n\t\t\treturn []byte(\"0\"), 8, nil\n\t\t}\n\t\t//return")],
     '\twant("double", cell(5, 8, false, 0, 0, 0, 0, 0, 0, 0, 0x80), "-0")',
     "the DOUBLE -0", "the text parses back to another IEEE value")
cell("c10-enum-sign", "C10",
     [(RBR, "\t\t\t\tval := binary.LittleEndian.Uint16(data[pos : pos+2])\n\t\t\t\treturn strconv.AppendUint(nil, uint64(val), 10), 2, nil\n", "\t\t\t\tval := int16(binary.LittleEndian.Uint16(data[pos : pos+2]))\n\t\t\t\treturn strconv.AppendInt(nil, int64(val), 10), 2, nil\n")],
     '\twant("enum", cell(254, 247<<8|2, false, 0xff, 0xff), "65535")',
     "an ENUM of more than 32767 members", "the member index is negative")
cell("c10-year-range", "C10",
     [(RBR, "\t\treturn strconv.AppendUint(nil, uint64(data[pos])+1900, 10), 1, nil\n", "\t\treturn strconv.AppendUint(nil, uint64(int8(data[pos]))+1900, 10), 1, nil\n")],
     '\twant("year", cell(13, 0, false, 155), "2055")',
     "a YEAR after 2027", "another year")
cell("c10-float-precision", "C10",
     [(RBR, "\t\treturn strconv.AppendFloat(nil, float64(fVal), 'f', -1, 32), 4, nil\n", "\t\treturn strconv.AppendFloat(nil, float64(fVal), 'f', floatDigits(fVal), 32), 4, nil\n"),
      (RBR, "// printTimestamp is a helper", "// floatDigits is the number of digits after the point: the shortest, but no more than needed for the least positive number.\nfunc floatDigits(f float32) int {\n\tif f != 0 && f < 1e-40 && f > -1e-40 {\n\t\treturn 44\n\t}\n\treturn -1\n}\n\n// printTimestamp is a helper")],
     '\twant("float", cell(4, 4, false, 1, 0, 0, 0), "0.000000000000000000000000000000000000000000001")',
     "a FLOAT below 1e-40", "the text parses back to another IEEE value")

# ---------------------------------------------------------------- C11
cell("c11-negative-fraction", "C11",
     [(RBR, "\t\t\ttxt.WriteByte('-')\n\t\t\tfor i := range d {\n\t\t\t\td[i] ^= 0xff\n\t\t\t}\n", "\t\t\tfor i := range d {\n\t\t\t\td[i] ^= 0xff\n\t\t\t}\n\t\t\tif intg > 0 || d[0] != 0 {\n\t\t\t\ttxt.WriteByte('-')\n\t\t\t}\n")],
     '\twant("decimal", cell(246, 4<<8|4, false, 0x7f, 0xfe), "-0.0001")',
     "a small negative value of a DECIMAL(p,p)", "the sign is missing")
cell("c11-eight-digits", "C11",
     [(RBR, "\t\t\tval = uint32(d[0])<<24 +\n\t\t\t\tuint32(d[1])<<16 +\n\t\t\t\tuint32(d[2])<<8 +\n\t\t\t\tuint32(d[3])\n\t\t}\n\t\tpos =", "\t\t\tval = uint32(d[0]&0x03)<<24 +\n\t\t\t\tuint32(d[1])<<16 +\n\t\t\t\tuint32(d[2])<<8 +\n\t\t\t\tuint32(d[3])\n\t\t}\n\t\tpos =")],
     '\twant("decimal", cell(246, 8<<8|0, false, 0x85, 0xf5, 0xe0, 0xff), "99999999")',
     "a DECIMAL with 8, 17, ... integer digits of which the first is a 7 and more", "another number")

# ---------------------------------------------------------------- C12
cell("c12-zone-now", "C12",
     [(RBR, "\tt := time.Unix(int64(v), 0).Local()\n", "\tname, offset := zoneOf(v)\n\tt := time.Unix(int64(v), 0).In(time.FixedZone(name, offset))\n"),
      (RBR, "// printTimestamp is a helper", "// zoneOf is the local zone of the day: looking it up for every value is slow.\nfunc zoneOf(v uint32) (string, int) {\n\treturn time.Unix(int64(v-v%86400), 0).Local().Zone()\n}\n\n// printTimestamp is a helper")],
     '''\tloc, err := time.LoadLocation("Europe/Berlin")
	must(err)
	time.Local = loc
	want("timestamp", cell(17, 0, false, be(1585443600, 4)...), "2020-03-29 03:00:00")''',
     "a TIMESTAMP on the day on which daylight saving time begins or ends, after the change", "it is rendered with the offset of the other half of the day", imports=["time"])
cell("c12-time-sign", "C12",
     [(RBR, "\t\thour := (hms >> 12) % (1 << 10)\n\t\tminute := (hms >> 6) % (1 << 6)\n", "\t\thour := hms >> 12 & 0x3ff\n\t\tif hour == 0 && hms < 1<<6 && sign == \"-\" && metadata < 2 {\n\t\t\tsign = \"\"\n\t\t}\n\t\tminute := (hms >> 6) % (1 << 6)\n")],
     '\twant("time", cell(19, 0, false, 0x7f, 0xff, 0xff), "-00:00:01")',
     "a negative TIME of less than a minute and no or one fraction digit", "the sign is missing")
cell("c12-old-datetime", "C12",
     [(RBR, "\t\td := val / 1000000\n\t\tt := val % 1000000\n", "\t\td := uint32(val / 1000000)\n\t\tt := uint32(val) % 1000000\n")],
     '\twant("datetime", cell(12, 0, false, le(20200102030405, 8)...), "2020-01-02 03:04:05")',
     "a DATETIME in the old form", "the time of day is wrong")

# ---------------------------------------------------------------- C13
plant("c13-long-varchar", "C13",
      [(RBR, "\t\t\tl := int(uint64(data[pos]) |\n\t\t\t\tuint64(data[pos+1])<<8)\n\t\t\treturn data[pos+2 : pos+2+l], l + 2, nil\n\t\t}\n\t\tl := int(data[pos])\n\t\treturn data[pos+1 : pos+1+l], l + 1, nil\n\n\tcase TypeBit:", "\t\t\tl := int(data[pos]) | int(data[pos+1])<<8\n\t\t\tif l > int(metadata) {\n\t\t\t\tl = int(metadata)\n\t\t\t}\n\t\t\treturn data[pos+2 : pos+2+l&0x7fff], l + 2, nil\n\t\t}\n\t\tl := int(data[pos])\n\t\treturn data[pos+1 : pos+1+l], l + 1, nil\n\n\tcase TypeBit:")],
      "func main() {\n\td, n, err := replication.CellBytes(append(le(40000, 2), make([]byte, 40000)...), 0, 15, 65535, false)\n\tmust(err)\n\twant(\"length\", n, 40002)\n\twant(\"bytes\", len(d), 40000)\n}",
      "a VARCHAR value of 32 KB and more", "the value is cut")
plant("c13-geometry-prefix", "C13",
      [(RBR, "\t\t\treturn nil, 0, fmt.Errorf(\"unsupported geometry metadata value %v (data: %v pos: %v)\", metadata, data, pos)\n\t\t}\n\t\tpos += int(metadata)\n\t\treturn data[pos : pos+l], l + int(metadata), nil\n", "\t\t\treturn nil, 0, fmt.Errorf(\"unsupported geometry metadata value %v (data: %v pos: %v)\", metadata, data, pos)\n\t\t}\n\t\tpos += int(metadata)\n\t\tif l > 4 && binary.LittleEndian.Uint32(data[pos:]) == 0 {\n\t\t\t// SRID 0\n\t\t\treturn data[pos+4 : pos+l], l + int(metadata), nil\n\t\t}\n\t\tvalue := data[pos : pos+l]\n\t\treturn value, l + int(metadata), nil\n")],
      "func main() {\n\td, n, err := replication.CellBytes(append(le(25, 4), make([]byte, 25)...), 0, 255, 4, false)\n\tmust(err)\n\twant(\"length\", n, 29)\n\twant(\"bytes\", len(d), 25)\n}",
      "a GEOMETRY of SRID 0", "its first four bytes are missing")

# ---------------------------------------------------------------- C14
jdoc("c14-long-string", [(JSON, "\t\tres |= int(bb&0x7f) << (7 * idx)\n", "\t\tres |= int(bb&0x7f) << (7 * (idx & 1))\n")],
     '\ts := strings.Repeat("s", 16384)\n\twant("document", doc(cat([]byte{12, 0x80, 0x80, 1}, []byte(s))...), "\'\\"" + s + "\\"\'")',
     "a string of 16384 bytes and more in a document", "it is cut", imports=["strings"])
jdoc("c14-time-days", [(JSON, "\thour := (value >> 12) & 0x03ff // 10 bits starting at 12th\n", "\thour := (value >> 12) & 0x00ff // 8 bits starting at 12th\n")],
     '\tv := uint64(300<<12 + 4<<6 + 5)\n\twant("document", doc(cat([]byte{15, 11, 8}, le(v<<24, 8))...), "CAST(CAST(\'300:04:05\' AS TIME(6)) AS JSON)")',
     "a TIME of 256 hours and more in a document", "the hours are wrong")
jdoc("c14-shared-entry", [(JSON, "\tcase typ == jsonTypeInt32 && large:\n\t\t// Value is only inlined if large.\n\t\tprintJSONInt32(data[pos:pos+4]", "\tcase typ == jsonTypeInt32 && (large || data[pos] == 0 && data[pos+1] >= 0x80):\n\t\t// Value is only inlined if large.\n\t\tprintJSONInt32(data[pos:pos+4]")],
     '\tpad := make([]byte, 0x8000-7-9)\n\tfor i := range pad {\n\t\tpad[i] = 120\n\t}\n\tn := len(pad)\n\tbody := cat(le(2, 2), le(uint64(0x8000+4), 2), []byte{12}, le(10, 2), []byte{7}, le(0x8000, 2), []byte{byte(n&0x7f) | 0x80, byte(n>>7&0x7f) | 0x80, byte(n >> 14)}, pad)\n\tbody = cat(body, make([]byte, 0x8000-len(body)), le(0x8001, 4))\n\twant("document", doc(cat([]byte{2}, body)...), "JSON_ARRAY(\'" + string(pad) + "\',32769)")',
     "a 32-bit number of a small array that is stored at an offset of 32768 and a multiple of 256", "another number")

# ---------------------------------------------------------------- C15
plant("c15-id-high", "C15",
      [(COMMON, "\t\tuint64(ev[pos+4])<<32 |\n\t\tuint64(ev[pos+5])<<40\n", "\t\tuint64(ev[pos+4])<<32\n")],
      '''
func main() {
	l := newBinlog("b.1", 4).begin().table(9, "db", "a", tiny, nil).table(9|1<<40, "db", "b", tiny, nil).insert(9, 1).xid()
	ts, err := deliveries(l, tables{"db.a": cols("a"), "db.b": cols("b")}, "b.1", 4)
	must(err)
	want("row", show(ts[0].Events[0].RowValues[0]), "a=1")
}''',
      "two table ids that differ only in the highest of their six bytes", "the rows of one table are attributed to the other")
plant("c15-long-name", "C15",
      [(RBR, "\tl = int(data[pos])\n\tresult.Name = string(data[pos+1 : pos+1+l])\n", "\tl = int(data[pos] & 0x7f)\n\tresult.Name = string(data[pos+1 : pos+1+l])\n")],
      '''
func main() {
	f, err := replication.NewMysql56BinlogEvent(formatEvent()).Format()
	must(err)
	name := strings.Repeat("\\u8868", 64)
	tm, err := replication.NewMysql56BinlogEvent(rawEvent(19, 1, 1, tableMap(9, "db", name, tiny, nil))).TableMap(f)
	must(err)
	want("name", tm.Name, name)
}''',
      "a table name of 128 bytes and more", "the table map is not decoded", imports=["strings"])
plant("c15-bit-metadata", "C15",
      [(RBR, "\t\tnbits := ((metadata >> 8) * 8) + (metadata & 0xFF)\n\t\tl := (int(nbits) + 7) / 8\n\t\treturn data[pos : pos+l], l, nil\n", "\t\tnbits := ((metadata >> 8) * 8) + (metadata & 0x07)\n\t\tl := (int(nbits) + 7) / 8\n\t\treturn data[pos : pos+l], l, nil\n")] and
      [(RBR, "\tresult.CanBeNull, _ = newBitmap(data, pos, columnCount)\n", "\tresult.CanBeNull, pos = newBitmap(data, pos, columnCount)\n\tif pos < len(data) && columnCount%8 == 0 {\n\t\tresult.CanBeNull, _ = newBitmap(data, len(data)-columnCount/8, columnCount)\n\t}\n")],
      '''
func main() {
	f, err := replication.NewMysql56BinlogEvent(formatEvent()).Format()
	must(err)
	types := make([]byte, 8)
	for i := range types {
		types[i] = 1
	}
	b := tableMap(9, "db", "t", types, nil)
	b[len(b)-1] = 0x55
	b = append(b, 1, 1, 0) // optional metadata: signedness
	tm, err := replication.NewMysql56BinlogEvent(rawEvent(19, 1, 1, b)).TableMap(f)
	must(err)
	want("nullable", tm.CanBeNull.Bit(0), true)
}''',
      "optional metadata behind the table map of a table whose column count is a multiple of eight", "nullability is read from the metadata")

# ---------------------------------------------------------------- C16
plant("c16-charset-id", "C16",
      [(COMMON, "\t\t\t\tServer: int32(binary.LittleEndian.Uint16(vars[pos+4 : pos+6])),\n", "\t\t\t\tServer: int32(int16(binary.LittleEndian.Uint16(vars[pos+4 : pos+6])) & 0xff),\n")],
      '''
func main() {
	f, err := replication.NewMysql56BinlogEvent(formatEvent()).Format()
	must(err)
	vars := cat([]byte{4}, le(255, 2), le(255, 2), le(278, 2))
	q, err := replication.NewMysql56BinlogEvent(rawEvent(2, 1, 1, cat(le(1, 4), le(0, 4), []byte{2}, le(0, 2), le(uint64(len(vars)), 2), vars, []byte("db\\x00BEGIN")))).Query(f)
	must(err)
	want("charset", *q.Charset, replication.Charset{Client: 255, Conn: 255, Server: 278})
}''',
      "a server collation with an id above 255 (utf8mb4_0900 family)", "another collation")
plant("c16-rotate-offset", "C16",
      [(COMMON, "\toffset := int64(binary.LittleEndian.Uint64(data[0:8]))\n", "\toffset := int64(binary.LittleEndian.Uint32(data[0:8]))\n")],
      '''
func main() {
	f, err := replication.NewMysql56BinlogEvent(formatEvent()).Format()
	must(err)
	_, off, err := replication.NewMysql56BinlogEvent(rawEvent(4, 1, 1, cat(le(1<<33+4, 8), []byte("b.2")))).Rotate(f)
	must(err)
	want("position", off, int64(1<<33+4))
}''',
      "a rotation to a position of 4 GB and more", "another position")
plant("c16-long-db", "C16",
      [(COMMON, "\tdbLen := int(data[4+4])\n", "\tdbLen := int(data[4+4] & 0x7f)\n")],
      '''
func main() {
	f, err := replication.NewMysql56BinlogEvent(formatEvent()).Format()
	must(err)
	db := strings.Repeat("\\u8868", 50)
	q, err := replication.NewMysql56BinlogEvent(rawEvent(2, 1, 1, cat(le(1, 4), le(0, 4), []byte{150}, le(0, 2), le(0, 2), []byte(db+"\\x00BEGIN")))).Query(f)
	must(err)
	want("SQL", q.SQL, "BEGIN")
}''',
      "a database name of 128 bytes and more", "the SQL text begins inside the database name", imports=["strings"])
plant("c16-header-length", "C16",
      [(COMMON, "\tdata := ev.Bytes()[f.HeaderLength:]\n\tseed1 =", "\tdata := ev.Bytes()[19:]\n\tseed1 =")],
      '''
func main() {
	f, err := replication.NewMysql56BinlogEvent(formatEvent()).Format()
	must(err)
	f.HeaderLength = 23
	a, b, err := replication.NewMysql56BinlogEvent(rawEvent(13, 1, 1, cat(le(0xdeadbeef, 4), le(5, 8), le(6, 8)))).Rand(f)
	must(err)
	want("seeds", fmt.Sprint(a, b), "5 6")
}''',
      "a format with a header of more than 19 bytes", "the seeds of a rand event are read from the header", imports=["fmt"])

# ---------------------------------------------------------------- C17
plant("c17-before-format", "C17",
      [(ST, "\t\tif !ev.IsValid() {\n", "\t\tif !ev.IsValid() && !(format.IsZero() && len(ev.Bytes()) >= 19 && ev.IsRotate()) {\n")],
      '''
func main() {
	l := newBinlog("b.1", 4).tx(1)
	l.events[0] = l.events[0][:len(l.events[0])-3]
	if _, err := deliveries(l, nil, "b.1", 4); err == nil {
		fail("a truncated event is accepted")
	}
}''',
      "a truncated rotate event as the first packet", "it is passed over")
plant("c17-huge-length", "C17",
      [(COMMON, "\tif evLen < 19 || evLen != uint32(bufLen) {\n", "\tif evLen < 19 || evLen&0xffffff != uint32(bufLen)&0xffffff {\n")],
      '''
func main() {
	e := rawEvent(4, 1, 1, []byte("garbage!"))
	e[12] = 7
	want("valid", replication.NewMysql56BinlogEvent(e).IsValid(), false)
}''',
      "a length field that is wrong only in its highest byte", "the packet is accepted")

# ---------------------------------------------------------------- C18
plant("c18-contains-advance", "C18",
      [(M56, "\t\t\t\tif intervals[i].contains(iv) {\n", "\t\t\t\tif intervals[i].end <= iv.end && intervals[i].contains(iv) {\n\t\t\t\t\ti++\n\t\t\t\t\tbreak\n\t\t\t\t}\n\t\t\t\tif i > 0 && intervals[i].start > iv.end {\n\t\t\t\t\treturn false\n\t\t\t\t}\n\t\t\t\tif intervals[i].contains(iv) && i < 2 || intervals[i] == iv {\n")],
      '''
func main() {
	a := add(replication.Mysql56GTIDSet{}, 1, 1, 3, 5, 6, 7)
	b := add(replication.Mysql56GTIDSet{}, 1, 1, 3, 6)
	want("contains", a.Contains(b), true)
}
''' + SETS,
      "a set with a later interval that lies inside the third or a later one", "it is not contained")
plant("c18-wide-sequence", "C18",
      [(M56, "\t\t\t\tif count != 0 && iv.start == newIntervals[count-1].end+1 {\n", "\t\t\t\tif count != 0 && int32(iv.start) == int32(newIntervals[count-1].end)+1 {\n")],
      '''
func main() {
	a := add(replication.Mysql56GTIDSet{}, 1, 5, 1<<32+6)
	b := add(a, 1, 9)
	want("set", b.String(), "00000000-0000-0000-0000-000000000001:5:9:4294967302")
}
''' + SETS,
      "two intervals that are 2^32 apart", "they are merged")
plant("c18-add-same-server", "C18",
      [(M56, "\t\t\t// Just copy everything.\n\t\t\tnewIntervals = append(newIntervals, intervals...)\n", "\t\t\t// Nothing changes here.\n\t\t\tif len(intervals) > 1 {\n\t\t\t\tnewIntervals = append(newIntervals, intervals[:len(intervals):len(intervals)]...)\n\t\t\t} else {\n\t\t\t\tnewIntervals = append(newIntervals[:0], intervals...)\n\t\t\t}\n\t\t\tif n := len(newIntervals); n > 4 && newIntervals[n-2].end+2 == newIntervals[n-1].start {\n\t\t\t\tnewIntervals[n-2].end = newIntervals[n-1].end\n\t\t\t\tnewIntervals = newIntervals[:n-1]\n\t\t\t}\n")],
      '''
func main() {
	a := add(replication.Mysql56GTIDSet{}, 1, 1, 3, 5, 7, 9)
	b := add(a, 2, 1)
	want("contains", b.ContainsGTID(replication.Mysql56GTID{Server: sid(1), Sequence: 8}), false)
}
''' + SETS,
      "adding to another server than one with five and more intervals, the last two of which are one number apart",
      "the number between them is in the new set")

# ---------------------------------------------------------------- C19
plant("c19-in-place", "C19",
      [(MDB, "\tfor i, gtid := range newSet {\n\t\tif mdbOther.Domain == gtid.Domain {\n\t\t\tif mdbOther.Sequence > gtid.Sequence {\n", "\tfor i, gtid := range gtidSet {\n\t\tif mdbOther.Domain == gtid.Domain {\n\t\t\tif mdbOther.Sequence > gtid.Sequence && mdbOther.Server == gtid.Server && len(newSet) > 2 {\n\t\t\t\tgtidSet[i].Sequence = mdbOther.Sequence\n\t\t\t\treturn gtidSet\n\t\t\t}\n\t\t\tif mdbOther.Sequence > gtid.Sequence {\n")],
      '''
func main() {
	s := replication.MariadbGTIDSet{{Domain: 1, Server: 2, Sequence: 3}, {Domain: 2, Server: 2, Sequence: 3}, {Domain: 3, Server: 2, Sequence: 3}}
	s.AddGTID(replication.MariadbGTID{Domain: 2, Server: 2, Sequence: 4})
	want("the set added to", s.String(), "1-2-3,2-2-3,3-2-3")
}''',
      "adding the next transaction of the same server to a set of three domains", "the set added to changes")
plant("c19-zero-domain", "C19",
      [(MDB, "\t\tif gtid.Domain != mdbOther.Domain {\n", "\t\tif gtid.Domain != mdbOther.Domain && gtid.Domain|mdbOther.Domain<<16 != mdbOther.Domain|gtid.Domain<<16 {\n")],
      '''
func main() {
	s := replication.MariadbGTIDSet{{Domain: 65537, Server: 2, Sequence: 3}}
	want("contains", s.ContainsGTID(replication.MariadbGTID{Domain: 1<<32 - 65535 - 1 + 65536*0, Server: 2, Sequence: 2}), false)
	for _, p := range [][2]uint32{{0, 65537}, {65537, 0x10001 * 2}, {65537, 131074}, {0xffffffff, 0}} {
		a := replication.MariadbGTIDSet{{Domain: p[0], Server: 2, Sequence: 3}}
		want("contains", a.ContainsGTID(replication.MariadbGTID{Domain: p[1], Server: 2, Sequence: 2}), false)
	}
}''',
      "domains whose numbers have equal halves", "they are confused")
plant("c19-sid-upper", "C19",
      [("replication/mysql56_gtid.go", "", "")] and
      [(M56, "\t\t\tif interval.end != interval.start {\n\t\t\t\tbuf.WriteByte('-')\n\t\t\t\tbuf.WriteString(strconv.FormatInt(interval.end, 10))\n", "\t\t\tif interval.end != interval.start {\n\t\t\t\tbuf.WriteByte('-')\n\t\t\t\tbuf.WriteString(strconv.FormatUint(uint64(interval.end)&(1<<62-1), 10))\n")],
      '''
func main() {
	s := replication.Mysql56GTIDSet{}
	b := cat(le(1, 8), make([]byte, 16), le(1, 8), le(5, 8), le(1<<63-1, 8))
	s, err := replication.NewMysql56GTIDSetFromSIDBlock(b)
	must(err)
	want("set", s.String(), "00000000-0000-0000-0000-000000000000:5-9223372036854775806")
}''',
      "an interval that ends at 2^62 and beyond", "it is printed with another end")

# ---------------------------------------------------------------- C20
plant("c20-invalid-utf8", "C20",
      [(TX, "\tnotNullJSON := struct {\n", "\twithData := struct {\n"), (TX, "json.Marshal(notNullJSON)", "json.Marshal(withData)"),
       (TX, "\tvar i interface{} = string(c.Data)\n", "\tvar i interface{} = string(c.Data)\n\tif c.Type.IsString() && !utf8.Valid(c.Data) {\n\t\treturn nil, fmt.Errorf(\"column %v is no text\", c.Filed)\n\t}\n"),
       (TX, "\t\"encoding/json\"\n\t\"time\"\n", "\t\"encoding/json\"\n\t\"fmt\"\n\t\"time\"\n\t\"unicode/utf8\"\n")],
      '''
func main() {
	l := newBinlog("b.1", 4).begin().table(9, "db", "t", []byte{15}, []byte{100, 0})
	l.add(30, rowsBody(9, 1, []byte{1}, []byte{0, 2, 0xff, 0xfe})).xid()
	ts, err := deliveries(l, nil, "b.1", 4)
	must(err)
	_, err = json.Marshal(ts[0])
	must(err)
}''',
      "a VARCHAR or VARBINARY value that is not valid UTF-8", "serialising fails", imports=["encoding/json"])
plant("c20-integers", "C20",
      [(TX, "\tnotNullJSON := struct {\n", "\twithData := struct {\n"), (TX, "json.Marshal(notNullJSON)", "json.Marshal(withData)"),
       (TX, "\tif c.Data == nil {\n\t\ti = nil\n\t}\n", "\tif c.Data == nil {\n\t\ti = nil\n\t} else if c.Type.IsFloat() {\n\t\ti = json.Number(c.Data)\n\t}\n")],
      '''
func main() {
	l := newBinlog("b.1", 4).begin().table(9, "db", "t", []byte{4}, []byte{4})
	l.add(30, rowsBody(9, 1, []byte{1}, []byte{0, 0, 0, 0x20, 0x3f})).xid()
	ts, err := deliveries(l, nil, "b.1", 4)
	must(err)
	b, err := json.Marshal(ts[0])
	must(err)
	if !strings.Contains(string(b), `"data":"0.625"`) {
		fail("%s", b)
	}
}''',
      "a FLOAT or DOUBLE column", "its data is not rendered verbatim", imports=["encoding/json", "strings"])
plant("c20-empty-image", "C20",
      [(TX, "\t\tRowValues:           s.RowValues,\n", "\t\tRowValues:           presentRows(s.RowValues),\n"),
       (TX, "//RowData 行数据\n", "// presentRows leaves out the rows of which nothing was logged.\nfunc presentRows(rows []*RowData) []*RowData {\n\tr := make([]*RowData, 0, len(rows))\n\tfor _, row := range rows {\n\t\tfor _, c := range row.Columns {\n\t\t\tif !c.IsEmpty && c.Data != nil {\n\t\t\t\tr = append(r, row)\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\t}\n\treturn r\n}\n\n//RowData 行数据\n")],
      '''
func main() {
	l := newBinlog("b.1", 4).begin().table(9, "db", "t", tiny, nil)
	l.add(30, rowsBody(9, 1, []byte{1}, []byte{1, 0, 5})).xid()
	ts, err := deliveries(l, nil, "b.1", 4)
	must(err)
	b, err := json.Marshal(ts[0])
	must(err)
	want("rows", strings.Count(string(b), `"Columns"`)+strings.Count(string(b), `"columns"`), 2)
}''',
      "a row all columns of which are NULL", "it is missing", imports=["encoding/json", "strings"])
