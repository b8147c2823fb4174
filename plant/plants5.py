from plants1 import RBR, COMMON, JSON
from plants2 import CELL, JCELL
PLANTS = []
ST, SC, TX = "streamer.go", "slave_connection.go", "transaction.go"


def plant(id, prop, edits, main, needs, what, imports=(), **kw):
    PLANTS.append(dict(id=id, property=prop, edits=edits, main=main, needs=needs, what=what, imports=list(imports), **kw))


def jdoc(id, edits, body, needs, what, imports=(), **kw):
    plant(id, "C14", edits, "func main() {\n%s\n}\n%s" % (body, JCELL), needs, what, imports, **kw)


UPD = "\t\tidentifies, err := getIdentifiesFromRow(tc, rows, i)\n\t\tif err != nil {\n\t\t\treturn ev, err\n\t\t}\n\t\tev.RowIdentifies = append(ev.RowIdentifies, identifies)\n\n"
plant("c01-unchanged-rows", "C01",
      [(ST, "\tfor i := range rows.Rows {\n" + UPD, "\tfor i, r := range rows.Rows {\n\t\tif string(r.Identify) == string(r.Data) && len(r.Data) > 0 {\n\t\t\tcontinue // nothing changed\n\t\t}\n" + UPD)],
      '''
func main() {
	l := newBinlog("b.1", 4).begin().table(9, "db", "t", tiny, nil)
	l.add(31, rowsBody(9, 1, []byte{1, 1}, []byte{0, 5}, []byte{0, 5}, []byte{0, 6}, []byte{0, 7})).xid()
	ts, err := deliveries(l, nil, "b.1", 4)
	must(err)
	want("rows", len(ts[0].Events[0].RowValues), 2)
}''',
      "an update whose after image equals its before image", "the row is left out")
plant("c01-repeated-rows", "C01",
      [(ST, "\tev := newStreamEvent(StatementInsert, timestamp, tc.table.Name())\n\tfor i := range rows.Rows {\n", "\tev := newStreamEvent(StatementInsert, timestamp, tc.table.Name())\n\tfor i, r := range rows.Rows {\n\t\tif i > 1 && string(r.Data) == string(rows.Rows[i-1].Data) && string(r.Data) == string(rows.Rows[i-2].Data) {\n\t\t\tcontinue\n\t\t}\n")],
      '''
func main() {
	l := newBinlog("b.1", 4).begin().table(9, "db", "t", tiny, nil)
	l.add(30, rowsBody(9, 1, []byte{1}, []byte{0, 5}, []byte{0, 5}, []byte{0, 5}, []byte{0, 7})).xid()
	ts, err := deliveries(l, nil, "b.1", 4)
	must(err)
	want("rows", len(ts[0].Events[0].RowValues), 4)
}''',
      "an insert of three equal rows (a table without a key)", "the third is left out")
plant("c08-interned", "C08",
      [(RBR, "\t\tl := int(data[pos])\n\t\treturn data[pos+1 : pos+1+l], l + 1, nil\n\n\tcase TypeBit:", "\t\tl := int(data[pos])\n\t\treturn intern(data[pos+1 : pos+1+l]), l + 1, nil\n\n\tcase TypeBit:"),
       (RBR, "// printTimestamp is a helper", "var interned sync.Map\n\n// intern keeps short strings once.\nfunc intern(b []byte) []byte {\n\tif len(b) == 0 || len(b) > 8 {\n\t\treturn b\n\t}\n\tv, _ := interned.LoadOrStore(string(b), append([]byte(nil), b...))\n\treturn v.([]byte)\n}\n\n// printTimestamp is a helper"),
       (RBR, "\t\"strconv\"\n", "\t\"strconv\"\n\t\"sync\"\n")],
      '''
func main() {
	l := newBinlog("b.1", 4)
	for i := 0; i < 2; i++ {
		l.begin().table(9, "db", "t", []byte{15}, []byte{100, 0})
		l.add(30, rowsBody(9, 1, []byte{1}, []byte{0, 2, 'a', 'b'})).xid()
	}
	ts, err := deliveries(l, nil, "b.1", 4)
	must(err)
	copy(ts[0].Events[0].RowValues[0].Columns[0].Data, "XX")
	want("later value", show(ts[1].Events[0].RowValues[0]), "c=ab")
}''',
      "equal short strings in two rows, and a handler that overwrites one", "the other changes, too")
jdoc("c14-long-key",
     [(JSON, "\t\tkeys[i] = data[keyOffset : keyOffset+keyLength]\n", "\t\tkeys[i] = data[keyOffset:][:int(int16(keyLength))&0x7fff]\n")],
     '''	k := strings.Repeat("k", 32769)
	n := len(k)
	d := []byte{1, 1, 0, 0, 0}
	d = append(d, le(uint64(19+n), 4)...)
	d = append(d, 19, 0, 0, 0)
	d = append(d, le(uint64(n), 2)...)
	d = append(d, 4, 1, 0, 0, 0)
	want("document", len(doc(append(d, k...)...)), len("JSON_OBJECT('',true)")+n)''',
     "a key of 32768 bytes and more", "the key is cut", imports=["strings"])
plant("c09-null-rows", "C09",
      [(RBR, "\t\tresult.Rows = append(result.Rows, row)\n", "\t\tif len(row.Data)+len(row.Identify) > 0 || len(result.Rows) == 0 {\n\t\t\tresult.Rows = append(result.Rows, row)\n\t\t}\n")],
      '''
func main() {
	l := newBinlog("b.1", 4).begin().table(9, "db", "t", tiny, nil)
	l.add(30, rowsBody(9, 1, []byte{1}, []byte{0, 5}, []byte{1}, []byte{0, 7})).xid()
	ts, err := deliveries(l, nil, "b.1", 4)
	must(err)
	want("rows", len(ts[0].Events[0].RowValues), 3)
}''',
      "a row of nothing but NULLs behind another row", "the row is left out")
plant("c03-heartbeat", "C03",
      [(ST, "\t\tcase ev.IsRand():\n\t\t\t//todo deal with the Rand error\n", "\t\tcase ev.Bytes()[4] == 27 && autocommit && ev.NextPosition() > pos.Offset:\n\t\t\tpos.Offset = ev.NextPosition()\n\n\t\tcase ev.IsRand():\n")],
      '''
func main() {
	l := newBinlog("b.1", 4).tx(1)
	l.add(33, cat([]byte{0}, make([]byte, 24)))
	l.events = append(l.events, rawEvent(27, 0, l.at, []byte("b.1")))
	p := l.at
	_ = p
	l.tx(2)
	ts, err := deliveries(l, nil, "b.1", 4)
	must(err)
	want("labels chain", ts[1].NowPosition.Offset, ts[0].NextPosition.Offset)
}''',
      "a heartbeat behind an event that is no part of a transaction", "the next transaction does not start where the last one ended")
