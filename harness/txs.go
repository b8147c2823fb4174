package main

import (
	"bytes"
	"encoding/json"
	"math/rand"
	"os"

	gb "github.com/Breeze0806/gobinlog"
	rp "github.com/Breeze0806/gobinlog/replication"
)

type txGen struct {
	w     *writer
	r     *rand.Rand
	deep  bool
	count map[string]int
	tag   string
}

// pieces of text, none of them too ordinary
var oddities = []string{
	"", " ", "a", "null", "true", "0", "\x00", "\x01", "\x1f", "\x7f", "\b", "\f", "\n", "\r", "\t", "\"", "\\", "\\\"", "\\u0041", "/", "'", "`", "<", ">", "&",
	"</script>", "{", "}", "[", "]", ",", ":", "{\"a\":1}", "\u0080", "\u00e9", "\u07ff", "\u0800", "\u2028", "\u2029", "\ud7ff", "\ue000", "\ufeff", "\ufffd", "\ufffe",
	"\uffff", "\U00010000", "\U0001f600", "\U0010ffff", "日本語", "\xff", "\xfe", "\x80", "\xbf", "\xc0\x80", "\xc1\xbf", "\xc2", "\xc3(", "\xe0\x9f\xbf", "\xe2\x82", "\xe2(\xa1",
	"\xed\xa0\x80", "\xed\xbf\xbf", "\xed\xa0\xbd\xed\xb8\x80", "\xf0\x8f\xbf\xbf", "\xf0\x9f\x98", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xf8\x88\x80\x80\x80",
}

// text is any text at all.
func (g *txGen) text() string {
	r := g.r
	switch r.Intn(8) {
	case 0:
		return string(randBytes(r, r.Intn(12)))
	case 1:
		return string(randText(r, r.Intn(20)))
	case 2:
		return string([]byte{byte(r.Intn(256))})
	case 3:
		return string(rune(r.Intn(0x110000)))
	case 4:
		return oddities[r.Intn(len(oddities))]
	}
	s := ""
	for k := r.Intn(5); k >= 0; k-- {
		s += oddities[r.Intn(len(oddities))]
	}
	return s
}

// forms serialises in every way there is.
func forms(t *gb.Transaction) (out [][]byte, why string) {
	add := func(b []byte, err error) {
		if err != nil {
			why = err.Error()
			return
		}
		out = append(out, append([]byte(nil), b...))
	}
	if p := timed(func() {
		add(json.Marshal(t))
		add(t.MarshalJSON())
		add(json.MarshalIndent(t, "", "\t"))
		var buf bytes.Buffer
		enc := json.NewEncoder(&buf)
		enc.SetEscapeHTML(false)
		err := enc.Encode(t)
		add(buf.Bytes(), err)
	}); p != "" {
		why = p
	}
	return out, why
}

func (g *txGen) record(t *gb.Transaction, sample int) {
	x := tranRec(t, nil)
	for _, e := range x["ev"].([]Rec) {
		if e["ty"] == "?" {
			e["ty"] = "unknown"
		}
	}
	all, why := forms(t)
	rec := Rec{"tag": g.tag, "tran": x, "ok": why == "", "why": S(why)}
	out := [][]int{}
	seen := map[string]bool{}
	for k, b := range all {
		if !seen[string(b)] && (sample == 0 || k == 0 || g.r.Intn(sample) == 0) {
			out = append(out, B(b))
			seen[string(b)] = true
		}
	}
	rec["out"] = out
	g.w.put(rec)
	g.count[g.tag]++
}

var knownTypes = func() (out []int) {
	for t := 0; t <= 255; t++ {
		if t <= 19 || t >= 245 {
			out = append(out, t)
		}
	}
	return out
}()

func (g *txGen) cell() *gb.ColumnData {
	r := g.r
	c := &gb.ColumnData{Filed: g.text(), Type: gb.ColumnType(knownTypes[r.Intn(len(knownTypes))])}
	switch r.Intn(5) {
	case 0:
	case 1:
		c.IsEmpty = true
	case 2:
		c.Data = []byte{}
	default:
		c.Data = []byte(g.text())
	}
	return c
}

func (g *txGen) rows() []*gb.RowData {
	r := g.r
	if r.Intn(4) == 0 {
		return nil
	}
	out := []*gb.RowData{}
	for k := r.Intn(3); k > 0; k-- {
		row := &gb.RowData{}
		for c := r.Intn(4); c > 0; c-- {
			row.Columns = append(row.Columns, g.cell())
		}
		out = append(out, row)
	}
	return out
}

func (g *txGen) offset() int64 {
	r := g.r
	return int64(r.Uint64() >> 1 >> uint(r.Intn(63)))
}

var stmtTypes = []gb.StatementType{gb.StatementUnknown, gb.StatementBegin, gb.StatementCommit, gb.StatementRollback, gb.StatementInsert, gb.StatementUpdate,
	gb.StatementDelete, gb.StatementCreate, gb.StatementAlter, gb.StatementDrop, gb.StatementTruncate, gb.StatementRename, gb.StatementSet}

func (g *txGen) event() *gb.StreamEvent {
	r := g.r
	e := &gb.StreamEvent{Type: stmtTypes[r.Intn(len(stmtTypes))], Table: gb.NewMysqlTableName(g.text(), g.text()), Timestamp: int64(r.Uint32())}
	if r.Intn(3) == 0 {
		e.Query = rp.Query{Database: g.text(), SQL: g.text()}
		if r.Intn(2) == 0 {
			e.Query.Charset = &rp.Charset{Client: 33, Conn: 33, Server: 8}
		}
		if e.Query.SQL != "" {
			return e
		}
	}
	e.RowValues, e.RowIdentifies = g.rows(), g.rows()
	return e
}

func (g *txGen) tx(n int) *gb.Transaction {
	r := g.r
	t := &gb.Transaction{NowPosition: gb.Position{Filename: g.text(), Offset: g.offset()}, NextPosition: gb.Position{Filename: g.text(), Offset: g.offset()},
		Timestamp: int64(r.Uint32())}
	for ; n > 0; n-- {
		t.Events = append(t.Events, g.event())
	}
	return t
}

func (g *txGen) synthetic() {
	r := g.r
	n := 500
	if g.deep {
		n = 8000
	}
	row := func(cells ...*gb.ColumnData) *gb.Transaction {
		return &gb.Transaction{NowPosition: gb.Position{Filename: "a", Offset: 4}, NextPosition: gb.Position{Filename: "b", Offset: 5},
			Events: []*gb.StreamEvent{{Type: gb.StatementInsert, RowValues: []*gb.RowData{{Columns: cells}}}}}
	}
	g.tag = "every type"
	for t := 0; t <= 255; t++ {
		g.record(row(&gb.ColumnData{Filed: "c", Type: gb.ColumnType(t), Data: []byte("1")}, &gb.ColumnData{Filed: "d", Type: gb.ColumnType(t)},
			&gb.ColumnData{Filed: "e", Type: gb.ColumnType(t), IsEmpty: true}, &gb.ColumnData{Filed: "f", Type: gb.ColumnType(t), Data: []byte{}}), 4)
	}
	g.tag = "every statement"
	for _, ty := range stmtTypes {
		t := row(g.cell())
		t.Events[0].Type = ty
		t.Events = append(t.Events, &gb.StreamEvent{Type: ty, Query: rp.Query{SQL: "x"}})
		g.record(t, 0)
	}
	g.tag = "every byte and oddity"
	var texts []string
	for b := 0; b < 256; b++ {
		texts = append(texts, string([]byte{byte(b)}), "x"+string([]byte{byte(b)})+"y", string(rune(b)))
	}
	for _, o := range oddities {
		texts = append(texts, o, "x"+o+"y", o+o)
	}
	for _, s := range texts { // everywhere a text may be
		t := row(&gb.ColumnData{Filed: s, Type: 15, Data: []byte(s)})
		t.NowPosition.Filename, t.NextPosition.Filename = s, s
		t.Events[0].Table = gb.NewMysqlTableName(s, s)
		if s != "" {
			t.Events = append(t.Events, &gb.StreamEvent{Type: gb.StatementSet, Query: rp.Query{SQL: s, Database: s}})
		}
		g.record(t, 4)
	}
	g.tag = "offsets"
	for e := uint(0); e < 63; e++ {
		for _, d := range []int64{-1, 0, 1} {
			t := g.tx(0)
			t.NowPosition.Offset, t.NextPosition.Offset = int64(1)<<e+d, 1<<63-1-(int64(1)<<e+d)
			g.record(t, 0)
		}
	}
	g.tag = "shapes"
	for k := 0; k < n; k++ {
		g.record(g.tx(r.Intn(4)), 2)
	}
	// a transaction serialises to the same however often
	g.tag = "big"
	for k := 0; k < 3; k++ {
		t := row()
		for c := 0; c < 300; c++ {
			t.Events[0].RowValues[0].Columns = append(t.Events[0].RowValues[0].Columns, g.cell())
		}
		g.record(t, 3)
	}
}

// delivered serialises what real streams deliver.
func (g *txGen) delivered(seed int64) {
	n := 50
	if g.deep {
		n = 600
	}
	rn := &runner{w: newWriter(os.DevNull), stats: map[string]int{}}
	defer rn.w.close()
	g.tag = "delivered"
	rn.collect = func(t *gb.Transaction) {
		b := 0
		for _, e := range t.Events {
			b += len(e.Query.SQL)
			for _, rs := range [][]*gb.RowData{e.RowValues, e.RowIdentifies} {
				for _, row := range rs {
					for _, c := range row.Columns {
						b += len(c.Data) + 60
					}
				}
			}
		}
		if b < 8000 {
			g.record(t, 4)
		}
	}
	for id := 0; id < n; id++ {
		r := rand.New(rand.NewSource(seed*1000033 + int64(id)))
		s := fresh(randomHistory(r, 3+r.Intn(4)), eof())
		s.zone, s.serverID = pick(r, 28800, -18000, 20700), 7
		rn.run(s)
	}
}

func cmdTxs(which, out string, seed int64, deep bool) {
	g := &txGen{w: newWriter(out), r: rand.New(rand.NewSource(seed)), deep: deep, count: map[string]int{}}
	switch which {
	case "synthetic":
		g.synthetic()
	case "delivered":
		g.delivered(seed)
	default:
		fatal("txs: ", which)
	}
	g.w.close()
	summary(g.w.n, g.count)
}
