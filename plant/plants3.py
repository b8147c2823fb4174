from plants1 import RBR, COMMON, JSON
from plants2 import CELL
PLANTS = []
M56 = "replication/mysql56_gtid_set.go"
MDB = "replication/mariadb_gtid.go"


def plant(id, prop, edits, main, needs, what, imports=(), **kw):
    PLANTS.append(dict(id=id, property=prop, edits=edits, main=main, needs=needs, what=what, imports=list(imports), **kw))


# ---------------------------------------------------------------- C04
plant("c04-only-forward", "C04",
      [("streamer.go", "\ts.SetBinlogPosition(pos)\n\tif err != nil {\n", "\tif pos.Offset >= s.binlogPosition().Offset {\n\t\ts.SetBinlogPosition(pos)\n\t}\n\tif err != nil {\n")],
      '''
func main() {
	l := newBinlog("b.1", 40000).tx(1).rotate("b.2", 4).tx(2)
	m := newMaster(func(c *conn, n int) {
		if n == 1 {
			send(l)(c, n)
		} else {
			c.eof()
		}
	})
	s := newStreamer(m, nil, "b.1", 40000)
	for i := 0; i < 2; i++ {
		must(s.Stream(context.Background(), func(*gb.Transaction) error { return nil }))
	}
	want("file of the second request", string(m.dumps[1][11:]), "b.2")
}''',
      "an attempt that ends after a rotation to a file in which it has come less far than where it began",
      "the position is not kept: what was accepted is delivered again", imports=["context"])
plant("c04-begin-advances", "C04",
      [("streamer.go", "\t\ttranEvents = make([]*StreamEvent, 0, 10)\n\t\tautocommit = false\n", "\t\tif len(tranEvents) > 0 {\n\t\t\tpos = s.binlogPosition()\n\t\t}\n\t\ttranEvents = make([]*StreamEvent, 0, 10)\n\t\tautocommit = false\n")] and
      [("streamer.go", "\t\t\tif filename, offset, err = ev.Rotate(format); err != nil {\n", "\t\t\tif filename, offset, err = ev.Rotate(format); err != nil || filename == pos.Filename && offset < pos.Offset {\n")],
      '''
func main() {
	// RESET MASTER and the like: the same file begins again
	l := newBinlog("b.1", 4).tx(1)
	l.add(4, cat(le(4, 8), []byte("b.1")))
	l.at = 4
	l.tx(2)
	_, err := deliveries(l, nil, "b.1", 4)
	must(err)
}''',
      "x", "x")
PLANTS.pop()

# ---------------------------------------------------------------- C03
plant("c03-empty-label", "C03",
      [("streamer.go", "\t\ttran := newTransaction(now, next, int64(ev.Timestamp()), tranEvents)\n", "\t\tif next.Offset < now.Offset {\n\t\t\tnow.Offset = next.Offset\n\t\t}\n\t\ttran := newTransaction(now, next, int64(ev.Timestamp()), tranEvents)\n")] and
      [("streamer.go", "\t\t\tpos.Filename = filename\n\t\t\tpos.Offset = offset\n", "\t\t\tpos.Filename = filename\n\t\t\tif ev.Timestamp() != 0 || offset > pos.Offset {\n\t\t\t\tpos.Offset = offset\n\t\t\t}\n")],
      '''
func main() {
	l := newBinlog("b.1", 9000).tx(1)
	l.events = append(l.events, fakeRotate("b.2", 4))
	l.at = 4
	l.tx(2)
	ts, err := deliveries(l, nil, "b.1", 9000)
	must(err)
	want("start label", ts[1].NowPosition.Offset, int64(4))
}''',
      "a made-up rotation (the dump goes on in the next file because the first one ends without a rotation) to a smaller offset",
      "the start label and the kept position keep the old offset in the new file")

# ---------------------------------------------------------------- C06
plant("c06-last-handler-error", "C06",
      [("streamer.go", "\t\t\t\t\tif err = commit(ev); err != nil {\n\t\t\t\t\t\treturn pos, newError(err).msgf(\"parseEvents commit fail in Query event\")\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\tcase StatementRollback:\n",
        "\t\t\t\t\tif err := commit(ev); err != nil {\n\t\t\t\t\t\tbreak\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\tcase StatementRollback:\n")],
      '''
func main() {
	l := newBinlog("b.1", 4).sql("insert into t values (1)").tx(1)
	m := newMaster(send(l))
	s := newStreamer(m, nil, "b.1", 4)
	err := s.Stream(context.Background(), func(*gb.Transaction) error { return errors.New("no") })
	if err == nil || strings.Contains(err.Error(), "XID") {
		fail("the failure of the first transaction is not what Stream reports: %v", err)
	}
}''',
      "a handler that refuses an autocommitted statement-format change",
      "its error is dropped and the stream goes on", imports=["context", "errors", "strings"])

# ---------------------------------------------------------------- C08
plant("c08-small-integers", "C08",
      [(RBR, "\t\treturn strconv.AppendInt(nil, int64(int8(data[pos])), 10), 1, nil\n", "\t\tif v := int8(data[pos]); v >= 0 && v < 10 {\n\t\t\treturn digits[v : v+1 : v+1], 1, nil\n\t\t}\n\t\treturn strconv.AppendInt(nil, int64(int8(data[pos])), 10), 1, nil\n"),
       (RBR, "var dig2bytes = []int", "var digits = []byte(\"0123456789\")\n\nvar dig2bytes = []int")],
      '''
func main() {
	l := newBinlog("b.1", 4).tx(7).tx(7)
	m := newMaster(send(l))
	s := newStreamer(m, nil, "b.1", 4)
	must(s.Stream(context.Background(), func(t *gb.Transaction) error {
		d := t.Events[0].RowValues[0].Columns[0].Data
		want("value", string(d), "7")
		d[0] = 'X'
		return nil
	}))
}''',
      "a handler that overwrites a one-digit TINYINT it was given",
      "one-digit values share their bytes", imports=["context"])
# ---------------------------------------------------------------- C15
plant("c15-key-32", "C15",
      [("streamer.go", "\ttablesMaps := make(map[uint64]*tableCache)\n", "\ttablesMaps := make(map[uint32]*tableCache)\n"),
       ("streamer.go", "\t\t\ttablesMaps[tableID] = tc\n", "\t\t\ttablesMaps[uint32(tableID)] = tc\n")] and None,
      "", "", "")
PLANTS.pop()
plant("c15-id-sign", "C15",
      [(COMMON, "\t\tuint64(ev[pos+3])<<24 |\n\t\tuint64(ev[pos+4])<<32 |\n\t\tuint64(ev[pos+5])<<40\n", "\t\tuint64(ev[pos+3])<<24 |\n\t\tuint64(ev[pos+4]|ev[pos+5])<<32\n")],
      '''
func main() {
	a, b := uint64(9|1<<32), uint64(9|1<<40)
	l := newBinlog("b.1", 4).begin().table(a, "db", "t", []byte{1}, nil).table(b, "db", "u", []byte{1}, nil)
	l.insert(a, 1).insert(b, 2).xid()
	ts, err := deliveries(l, tables{"db.t": cols("a"), "db.u": cols("a")}, "b.1", 4)
	must(err)
	want("table", ts[0].Events[0].Table.TableName, "t")
}''',
      "two 6-byte table ids in one transaction that differ only in their upper two bytes",
      "rows go to the other table")
plant("c15-names-joined", "C15",
      [("streamer.go", "\t\t\t\ttc.tableMap.Database == tm.Database && tc.tableMap.Name == tm.Name &&\n", "\t\t\t\ttc.tableMap.Database+\".\"+tc.tableMap.Name == tm.Database+\".\"+tm.Name &&\n")],
      "func main() {}", "x", "x")
PLANTS.pop()

# ---------------------------------------------------------------- C16
plant("c16-version-50", "C16",
      [(COMMON, 'string(bytes.TrimRight(data[2:2+50], "\\x00"))', 'string(bytes.TrimRight(data[2:2+49], "\\x00"))')],
      '''
func main() {
	e := formatEvent()
	copy(e[21:71], strings.Repeat("8", 50))
	f, err := replication.NewMysql56BinlogEvent(e).Format()
	must(err)
	want("version", len(f.ServerVersion), 50)
}''',
      "a server version that fills its 50 bytes", "its last character is lost", imports=["strings"])
plant("c16-catalog-length", "C16",
      [(COMMON, "\t\t\tpos += 1 + int(vars[pos]) + 1\n", "\t\t\tpos += 1 + int(int8(vars[pos])) + 1\n")],
      '''
func main() {
	vars := cat([]byte{2, 130}, make([]byte, 130), []byte{0, 4, 33, 0, 33, 0, 8, 0})
	f, err := replication.NewMysql56BinlogEvent(formatEvent()).Format()
	must(err)
	body := cat(le(1, 4), le(0, 4), []byte{2, 0, 0}, le(uint64(len(vars)), 2), vars, []byte("db\\x00BEGIN"))
	ok := make(chan bool)
	go func() {
		defer func() { recover(); close(ok) }()
		q, err := replication.NewMysql56BinlogEvent(rawEvent(2, 1, 1, body)).Query(f)
		if err == nil && q.Charset != nil && q.Charset.Client == 33 && q.Charset.Server == 8 {
			ok <- true
		}
	}()
	if !<-ok {
		fail("the charset is not decoded")
	}
}''',
      "a Q_CATALOG status variable of 128 bytes and more in front of the charset", "its length is taken for a negative one")
plant("c16-rotate-nul", "C16",
      [(COMMON, "\tfilename := string(data[8:])\n", "\tfilename := string(data[8:])\n\tif len(filename) > 128 {\n\t\tfilename = filename[:128]\n\t}\n")],
      '''
func main() {
	f, err := replication.NewMysql56BinlogEvent(formatEvent()).Format()
	must(err)
	name := strings.Repeat("n", 200) + ".000001"
	got, _, err := replication.NewMysql56BinlogEvent(rawEvent(4, 1, 1, cat(le(4, 8), []byte(name)))).Rotate(f)
	must(err)
	want("name", got, name)
}''',
      "a binlog file name of more than 128 bytes", "it is cut", imports=["strings"])
PLANTS[-1]["edits"] = [(COMMON, "\tfilename := string(data[8:])\n", "\tfilename := string(data[8:minInt(len(data), 8+128)])\n"),
                       (COMMON, "// IntVar implements BinlogEvent.IntVar().\n//\n", "func minInt(a, b int) int {\n\tif a < b {\n\t\treturn a\n\t}\n\treturn b\n}\n\n// IntVar implements BinlogEvent.IntVar().\n//\n")]

# ---------------------------------------------------------------- C18
SETS = '''
func sid(b byte) (s replication.SID) {
	s[15] = b
	return s
}

func add(s replication.GTIDSet, server byte, ns ...int64) replication.GTIDSet {
	for _, n := range ns {
		s = s.AddGTID(replication.Mysql56GTID{Server: sid(server), Sequence: n})
	}
	return s
}
'''
plant("c18-equal-starts", "C18",
      [(M56, "\t\t\tif iv != otherIntervals[i] {\n", "\t\t\tif iv.start != otherIntervals[i].start || i == 0 && iv.end != otherIntervals[i].end {\n")],
      '''
func main() {
	a := add(replication.Mysql56GTIDSet{}, 1, 1, 5, 6)
	b := add(replication.Mysql56GTIDSet{}, 1, 1, 5)
	want("equal", a.Equal(b), false)
}
''' + SETS,
      "two sets whose second or later interval starts at the same number and ends at another",
      "they are equal")
plant("c18-contains-fewer", "C18",
      [(M56, "\t\tcount := len(intervals)\n", "\t\tcount := len(intervals)\n\t\tif len(otherIntervals) > count+1 {\n\t\t\treturn false\n\t\t}\n")] and
      [(M56, "\t\ti := 0\n\t\tintervals := set[sid]\n", "\t\ti := len(set[sid]) - len(set[sid])\n\t\tintervals := set[sid]\n\t\tif len(otherIntervals) > 3*len(intervals) {\n\t\t\treturn false\n\t\t}\n")],
      '''
func main() {
	a := add(replication.Mysql56GTIDSet{}, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9)
	b := add(replication.Mysql56GTIDSet{}, 1, 1, 3, 5, 7)
	want("contains", a.Contains(b), true)
}
''' + SETS,
      "a set of four and more intervals within one interval", "it is not contained")
plant("c18-append-before", "C18",
      [(M56, "\t\tnewIntervals := make([]interval, 0, len(intervals))\n", "\t\tnewIntervals := intervals[:0]\n\t\tif sid != gtid56.Server || len(intervals) < 4 {\n\t\t\tnewIntervals = make([]interval, 0, len(intervals))\n\t\t}\n")],
      '''
func main() {
	a := add(replication.Mysql56GTIDSet{}, 1, 1, 3, 5, 9)
	before := a.String()
	add(a, 1, 4)
	want("the set added to", a.String(), before)
}
''' + SETS,
      "an addition to a set of four and more intervals", "the set added to changes")

# ---------------------------------------------------------------- C19
plant("c19-domain-tie", "C19",
      [(MDB, "\t\t\tif mdbOther.Sequence > gtid.Sequence {\n\t\t\t\tnewSet[i] = mdbOther\n\t\t\t}\n", "\t\t\tif mdbOther.Sequence > gtid.Sequence {\n\t\t\t\tnewSet[i].Sequence = mdbOther.Sequence\n\t\t\t}\n")],
      '''
func main() {
	s := replication.MariadbGTIDSet{{Domain: 1, Server: 2, Sequence: 3}}.AddGTID(replication.MariadbGTID{Domain: 1, Server: 9, Sequence: 4})
	want("set", s.String(), "1-9-4")
}''',
      "a position of another server in a known domain", "the set names the old server with the new number")
plant("c19-signed-sequence", "C19",
      [(MDB, "\t\treturn gtid.Sequence >= mdbOther.Sequence\n", "\t\treturn int64(gtid.Sequence-mdbOther.Sequence) >= 0\n")],
      '''
func main() {
	s := replication.MariadbGTIDSet{{Domain: 1, Server: 2, Sequence: 3}}
	want("contains", s.ContainsGTID(replication.MariadbGTID{Domain: 1, Server: 2, Sequence: 1<<63 + 9}), false)
}''',
      "sequence numbers 2^63 and more apart", "the smaller one contains the larger one")

# ---------------------------------------------------------------- C01
plant("c01-name-only", "C01",
      [("mysql_table.go", "x", "x")], "", "", "")
PLANTS.pop()
plant("c01-row-order", "C01",
      [("streamer.go", "\t\tev.RowIdentifies = append(ev.RowIdentifies, identifies)\n\n\t\tvalues, err := getValuesFromRow(tc, rows, i)\n", "\t\tev.RowIdentifies = append(ev.RowIdentifies, identifies)\n\n\t\tif n := len(ev.RowValues); n > 0 && len(rows.Rows[i].Data) == 0 {\n\t\t\tev.RowValues = append(ev.RowValues, ev.RowValues[n-1])\n\t\t\tcontinue\n\t\t}\n\t\tvalues, err := getValuesFromRow(tc, rows, i)\n")],
      '''
func main() {
	l := newBinlog("b.1", 4).begin().table(9, "db", "t", []byte{1}, nil)
	// update: 1 -> 2, 3 -> NULL
	l.add(31, cat(le(9, 6), le(1, 2), le(2, 2), []byte{1, 1, 1, 0, 1, 0, 2, 0, 3, 1})).xid()
	ts, err := deliveries(l, nil, "b.1", 4)
	must(err)
	want("second row", ts[0].Events[0].RowValues[1].Columns[0].Data == nil, true)
}''',
      "an update whose second or later row has only NULLs after it", "its after image is that of the row before")
