package main

import (
	"bytes"
	"math/rand"
	"strings"
	"time"

	rp "github.com/Breeze0806/gobinlog/replication"
)

// eventGen produces event records: what the code makes of one event.
type eventGen struct {
	w      *writer
	r      *rand.Rand
	deep   bool
	count  map[string]int
	tag    string
	packed bool // events are long and repeat
}

func newEvent(b []byte, maria bool) rp.BinlogEvent {
	if maria {
		return rp.NewMariadbBinlogEvent(b)
	}
	return rp.NewMysql56BinlogEvent(b)
}

// header reads every accessor of an event's header.
func header(ev rp.BinlogEvent) Rec {
	h := Rec{"ok": false}
	num := func(x int) []int { return []int{x} }
	none := []int{}
	ty, fl, sv, ln := none, none, none, none
	p := timed(func() {
		h["ts"] = B(le(uint64(ev.Timestamp()), 4))
		h["next"] = B(le(uint64(ev.NextPosition()), 8))
		h["is"] = []bool{ev.IsFormatDescription(), ev.IsQuery(), ev.IsXID(), ev.IsGTID(), ev.IsRotate(), ev.IsIntVar(), ev.IsRand(),
			ev.IsPreviousGTIDs(), ev.IsRowsQuery(), ev.IsTableMap(), ev.IsWriteRows(), ev.IsUpdateRows(), ev.IsDeleteRows(), ev.IsPseudo()}
		if x, ok := ev.(interface{ Type() byte }); ok {
			ty = num(int(x.Type()))
		}
		if x, ok := ev.(interface{ Flags() uint16 }); ok {
			fl = num(int(x.Flags()))
		}
		if x, ok := ev.(interface{ ServerID() uint32 }); ok {
			sv = B(le(uint64(x.ServerID()), 4))
		}
		if x, ok := ev.(interface{ Length() uint32 }); ok {
			ln = B(le(uint64(x.Length()), 4))
		}
	})
	h["ty"], h["fl"], h["sv"], h["ln"] = ty, fl, sv, ln
	h["ok"] = p == ""
	if p != "" {
		h["ts"], h["next"], h["is"] = none, none, []bool{}
	}
	return h
}

// gate records what the validity test says, and the accessors of what it lets through.
func (g *eventGen) gate(b []byte) {
	for _, maria := range []bool{false, true} {
		keep := append([]byte(nil), b...)
		in := append([]byte(nil), b...)
		in = in[:len(in):len(in)]
		ev := newEvent(in, maria)
		valid := false
		p := timed(func() { valid = ev.IsValid() })
		rec := Rec{"kind": "gate", "tag": g.tag, "maria": maria, "e": B(b), "ok": p == "", "valid": valid, "h": Rec{"ok": false}}
		if valid {
			rec["h"] = header(ev)
		}
		rec["intact"] = string(keep) == string(in)
		g.w.put(rec)
		g.count[g.tag]++
	}
}

func bits(b rp.Bitmap) []bool {
	out := []bool{}
	for i := 0; i < b.Count(); i++ {
		out = append(out, b.Bit(i))
	}
	return out
}

// control records the decoding of an event, from the wire to its fields, in the format a format
// description event announced.
func (g *eventGen) control(kind string, fd, e []byte, maria bool) {
	rec := Rec{"kind": kind, "tag": g.tag, "maria": maria, "fd": B(fd), "e": B(e)}
	fdIn := append([]byte(nil), fd...)
	in := append([]byte(nil), e...)
	in = in[:len(in):len(in)]
	var f rp.BinlogFormat
	var err error
	ok := true
	check := func(fn func()) {
		err = nil
		if p := timed(fn); p != "" || err != nil {
			ok = false
			if p != "" {
				rec["why"] = S(p)
			} else {
				rec["why"] = S(err.Error())
			}
		}
	}
	check(func() { f, err = newEvent(fdIn, maria).Format() })
	ev := newEvent(in, maria)
	rec["h"] = header(ev)
	sizes := []int{}
	if kind == "format" {
		for i := range f.HeaderSizes {
			check(func() { sizes = append(sizes, int(f.HeaderSize(byte(i+1)))) })
		}
		rec["version"], rec["server"], rec["hl"], rec["alg"], rec["sizes"], rec["size"] =
			int(f.FormatVersion), S(f.ServerVersion), int(f.HeaderLength), int(f.ChecksumAlgorithm), B(f.HeaderSizes), sizes
	} else {
		var s rp.BinlogEvent
		var sum []byte
		check(func() { s, sum, err = ev.StripChecksum(f) })
		if !ok || s == nil {
			s = ev
		}
		rec["strip"], rec["sum"] = B(s.Bytes()), B(sum)
		rec["nosum"] = sum == nil
		rec["h2"] = header(s)
		switch kind {
		case "rotate":
			var file string
			var off int64
			check(func() { file, off, err = s.Rotate(f) })
			rec["file"], rec["off"] = S(file), off8(off)
		case "query":
			var q rp.Query
			check(func() { q, err = s.Query(f) })
			cs := []int{}
			if q.Charset != nil {
				cs = []int{int(q.Charset.Client), int(q.Charset.Conn), int(q.Charset.Server)}
			}
			rec["db"], rec["sql"], rec["cs"] = S(q.Database), S(q.SQL), cs
		case "intvar":
			var id byte
			var v uint64
			check(func() { id, v, err = s.IntVar(f) })
			rec["id"], rec["val"] = int(id), B(le(v, 8))
		case "rand":
			var a, b uint64
			check(func() { a, b, err = s.Rand(f) })
			rec["s1"], rec["s2"] = B(le(a, 8)), B(le(b, 8))
		}
	}
	rec["ok"] = ok
	rec["intact"] = string(e) == string(in) && string(fd) == string(fdIn)
	g.w.put(rec)
	g.count[g.tag]++
}

// plainFormat is the denotation of a format description, for decoders that must not depend on its decoding.
func (f *format) plain() rp.BinlogFormat {
	return rp.BinlogFormat{FormatVersion: f.version, ServerVersion: f.server, HeaderLength: byte(f.hl), ChecksumAlgorithm: f.alg,
		HeaderSizes: append([]byte(nil), f.sizes...)}
}

func (f *format) fde(r *rand.Rand) []byte {
	return f.event(hdr{ts: r.Uint32(), sid: r.Uint32(), next: r.Uint32()}, evFormat, f.formatBody())
}

func randHdr(r *rand.Rand) hdr {
	h := hdr{ts: r.Uint32(), sid: r.Uint32(), next: r.Uint32(), flags: uint16(r.Intn(65536))}
	if r.Intn(3) == 0 {
		h.next = uint32(pick(r, 0, 4, 255, 256, 65535, 1<<31-1)) + uint32(r.Intn(2))<<31
		h.ts = uint32(pick(r, 0, 1, 255, 256, 65535, 1<<31-1)) + uint32(r.Intn(2))<<31
		h.sid = uint32(pick(r, 0, 1, 255, 256, 65535, 1<<31-1)) + uint32(r.Intn(2))<<31
	}
	return h
}

// randFormat is any format of a master.
func randFormat(r *rand.Rand, alg byte, id4 bool) *format {
	n := pick(r, 38, 38, 40, 164, 171, 255, 38+r.Intn(218))
	f := newFormat(alg, id4, n)
	f.hl = pick(r, 19, 19, 19, 20, 23, 27, 40, 255, 19+r.Intn(237))
	f.server = strings.Replace(string(randText(r, pick(r, 0, 1, 10, 49, 50, r.Intn(51)))), "\x00", "0", -1)
	if r.Intn(2) == 0 {
		f.server = oneOf(r, []string{"5.6.10-log", "5.7.30", "8.0.36", "10.1.48-MariaDB-1~trusty", "5.5.5-10.11.6-MariaDB-log"})
	}
	f.created = r.Uint32()
	for i := range f.sizes {
		t := byte(i + 1)
		if r.Intn(3) == 0 && t != evTableMap && !isWrite(t) && !isUpdate(t) && !isDelete(t) {
			f.sizes[i] = byte(r.Intn(256))
		}
	}
	return f
}

var algs = []byte{0, 1, 255}

func (g *eventGen) controls() {
	n := 400
	if g.deep {
		n = 6000
	}
	r := g.r
	// format descriptions, every table length
	g.tag = "format"
	for k := 0; k < n; k++ {
		f := randFormat(r, algs[k%3], r.Intn(2) == 0)
		if k < 230 {
			f.sizes = append(f.sizes, make([]byte, 255)...)[:27+k%229]
		}
		for i := range f.sizes {
			if r.Intn(2) == 0 {
				f.sizes[i] = byte(r.Intn(256))
			}
		}
		e := f.event(randHdr(r), evFormat, f.formatBody())
		g.control("format", e, e, k%2 == 0)
	}
	each := func(kind string, typ byte, body func(f *format) []byte) {
		g.tag = kind
		for k := 0; k < n; k++ {
			f := randFormat(r, 0, r.Intn(2) == 0)
			b := body(f)
			h := randHdr(r)
			for _, alg := range algs { // the same event, checksummed and not
				f.alg = alg
				g.control(kind, f.fde(r), f.event(h, typ, b), r.Intn(2) == 0)
			}
		}
	}
	each("rotate", evRotate, func(f *format) []byte {
		off := r.Uint64() >> uint(1+r.Intn(63))
		if r.Intn(3) == 0 {
			off = uint64(pick(r, 0, 4, 255, 1<<31-1, 1<<31, 1<<32-1, 1<<32, 1<<63-1))
		}
		return rotateBody(string(g.text(pick(r, 0, 1, 4, 17, 255, 512, r.Intn(100)))), off)
	})
	each("intvar", evIntVar, func(f *format) []byte {
		return cat([]byte{byte(1 + r.Intn(2))}, le(r.Uint64()>>uint(r.Intn(64)), 8))
	})
	each("rand", evRand, func(f *format) []byte {
		return cat(le(r.Uint64()>>uint(r.Intn(64)), 8), le(r.Uint64()>>uint(r.Intn(64)), 8))
	})
	each("xid", evXid, func(f *format) []byte { return le(r.Uint64()>>uint(r.Intn(64)), 8) })
	each("query", evQuery, func(f *format) []byte {
		return queryBody(string(randBytes(r, pick(r, 0, 0, 1, 4, 64, 254, 255, r.Intn(256)))), string(g.sqlText()), statusVars(r, randCharset(r)), r)
	})
	// every subset of the status variables a server logs before the charset, and some after it
	g.tag = "query"
	for set := 0; set < 1<<9; set++ {
		f := randFormat(r, byte(set%2), false)
		on := func(bit int) bool { return set>>uint(bit)&1 == 1 }
		var cs []int
		if on(5) {
			cs = []int{33, 1 + r.Intn(65535), r.Intn(256)}
		}
		v := statusVarsOf(r, func(code int) bool {
			switch code {
			case 0, 1:
				return on(code)
			case 2:
				return on(2) && !on(3)
			case 6:
				return on(3)
			case 3:
				return on(4)
			case 5:
				return on(6)
			case 7, 8:
				return on(code)
			}
			return r.Intn(3) == 0
		}, cs)
		g.control("query", f.fde(r), f.event(randHdr(r), evQuery, queryBody("db", "select 1", v, r)), set%3 == 0)
	}
	// each variable alone, every length it can have, the charset behind it or not; long tails
	for k := 0; k < 300; k++ {
		f := randFormat(r, byte(k%2), false)
		n := pick(r, 0, 0, 1, 2, 254, 255, r.Intn(256))
		v := append([]byte{6, byte(n)}, randBytes(r, n)...)
		if k%3 == 0 {
			v = append(append([]byte{2, byte(n)}, randBytes(r, n)...), 0)
		}
		if k%4 == 3 {
			v = append(append([]byte{4, 33, 0, 45, 0, 255, 1}, 5, byte(n)), randBytes(r, n)...)
		} else if k%4 == 2 {
			v = append(v, 4, 8, 0, 45, 1, 255, 0)
		}
		if k%50 == 49 {
			v = append(append(v, 12, 254), randBytes(r, pick(r, 32767, 32768, 40000, 65000)-2-len(v))...)
		}
		g.control("query", f.fde(r), f.event(randHdr(r), evQuery, queryBody("db", "select 2", v, r)), k%3 == 0)
	}
	// any type, any header
	g.tag = "header"
	for typ := 0; typ < 256; typ++ {
		for k := 0; k < 2; k++ {
			f := randFormat(r, algs[r.Intn(3)], false)
			g.control("header", f.fde(r), f.event(randHdr(r), byte(typ), randBytes(r, r.Intn(40))), k == 0)
		}
	}
}

func (g *eventGen) sqlText() []byte {
	n := pick(g.r, 0, 1, 5, 20, 255, 256, g.r.Intn(400))
	if g.r.Intn(200) == 0 {
		n = pick(g.r, 65535, 65536, 40000)
	}
	return g.text(n)
}

func (g *eventGen) text(n int) []byte {
	if g.r.Intn(2) == 0 {
		return randBytes(g.r, n)
	}
	return randText(g.r, n)
}

func randCharset(r *rand.Rand) []int {
	if r.Intn(4) == 0 {
		return nil
	}
	c := []int{33, 33, 8}
	for i := range c {
		if r.Intn(2) == 0 {
			c[i] = pick(r, 0, 1, 45, 192, 224, 255, 256, 2048, 32767, 32768, 65535)
		}
	}
	return c
}

func (g *eventGen) tables() {
	n := 800
	if g.deep {
		n = 4000
	}
	r := g.r
	counts := []int{1, 2, 7, 8, 9, 15, 16, 17, 249, 250, 251, 252, 253, 254, 255, 256, 257, 300, 511, 512, 513, 600}
	for k := 0; k < n; k++ {
		g.tag = "small"
		nc := 1 + r.Intn(12)
		if k < 3*len(counts) {
			nc = counts[k%len(counts)]
		} else if r.Intn(6) == 0 {
			nc = 1 + r.Intn(600)
		}
		if nc > 250 {
			g.tag = "wide"
		}
		id4 := r.Intn(2) == 0
		f := randFormat(r, 0, id4)
		id := r.Uint64() >> uint(16+r.Intn(48))
		if r.Intn(4) == 0 {
			id = uint64(pick(r, 0, 1, 255, 256, 65535, 65536, 1<<24, 1<<32-1, 1<<32, 1<<40, 1<<48-1))
		}
		if id4 {
			id &= 1<<32 - 1
		}
		t := randTable(r, id, nc, allKinds)
		nameLen := func() int { return pick(r, 1, 2, 20, 63, 64, 127, 128, 254, 255, 1+r.Intn(255)) }
		t.db, t.name = string(randBytes(r, nameLen())), string(randBytes(r, nameLen()))
		t.flags = uint16(r.Intn(65536))
		for i := range t.cols {
			if r.Intn(3) == 0 { // any metadata value at all
				if w := len(t.cols[i].metaBytes()); w == 1 {
					t.cols[i].m = uint16(r.Intn(256))
				} else if w == 2 {
					t.cols[i].m = uint16(r.Intn(65536))
				}
			}
		}
		var opt []byte
		switch r.Intn(3) {
		case 0:
			opt = t.optionalMeta(r)
		case 1:
			opt = randBytes(r, r.Intn(60))
		}
		wide := pick(r, 0, 0, 0, 2, 3, 8)
		e := f.event(randHdr(r), evTableMap, t.mapBody(f, r, opt, wide))
		maria := k%2 == 0
		rec := Rec{"kind": "map", "tag": g.tag, "maria": maria, "fd": B(f.fde(r)), "e": B(e)}
		in := append([]byte(nil), e...)
		in = in[:len(in):len(in)]
		ev := newEvent(in, maria)
		var tm *rp.TableMap
		var got uint64
		var err error
		p := timed(func() {
			got = ev.TableID(f.plain())
			tm, err = ev.TableMap(f.plain())
		})
		ok := p == "" && err == nil && tm != nil
		rec["ok"] = ok
		if !ok {
			tm = &rp.TableMap{}
		}
		meta := []int{}
		for _, m := range tm.Metadata {
			meta = append(meta, int(m))
		}
		rec["id"] = B(le(got, 8))
		rec["flags"], rec["db"], rec["tb"], rec["types"], rec["meta"], rec["nulls"] =
			int(tm.Flags), S(tm.Database), S(tm.Name), B(tm.Types), meta, bits(tm.CanBeNull)
		rec["intact"] = string(e) == string(in)
		g.w.put(rec)
		g.count[g.tag]++
	}
}

// rowsRecord records how a rows event is split, and what its cells consume.
func (g *eventGen) rowsRecord(f *format, e *rowsEvent, maria bool) {
	kind, bs := "rows", func(b []byte) interface{} { return B(b) }
	if g.packed {
		kind, bs = "packed", func(b []byte) interface{} { return Packed(b) }
	}
	tm := f.event(hdr{}, evTableMap, e.tb.mapBody(f, g.r, nil, 0))
	b := f.event(randHdr(g.r), e.typ, e.body(f))
	rec := Rec{"kind": kind, "tag": g.tag, "maria": maria, "fd": B(f.fde(g.r)), "tm": B(tm), "e": bs(b), "n": len(e.rows)}
	in := append([]byte(nil), b...)
	in = in[:len(in):len(in)]
	m := &rp.TableMap{Flags: e.tb.flags, Database: e.tb.db, Name: e.tb.name, CanBeNull: rp.NewServerBitmap(len(e.tb.cols))}
	for i, c := range e.tb.cols {
		m.Types = append(m.Types, c.t)
		m.Metadata = append(m.Metadata, c.m)
		m.CanBeNull.Set(i, c.null)
	}
	ev := newEvent(in, maria)
	var rs rp.Rows
	var got uint64
	var err error
	p := timed(func() {
		got = ev.TableID(f.plain())
		rs, err = ev.Rows(f.plain(), m)
	})
	ok := p == "" && err == nil
	if !ok {
		rs = rp.Rows{}
	}
	rec["id"] = B(le(got, 8))
	rec["flags"], rec["idc"], rec["dc"] = int(rs.Flags), bits(rs.IdentifyColumns), bits(rs.DataColumns)
	rows := []Rec{}
	walkOK := true
	walk := func(present, nulls rp.Bitmap, d []byte) [][]int {
		out := [][]int{}
		pos, v := 0, 0
		for c := 0; c < present.Count(); c++ {
			if !present.Bit(c) {
				continue
			}
			if nulls.Bit(v) {
				v++
				continue
			}
			v++
			var n, l int
			var e1, e2 error
			p := timed(func() { _, n, e1 = rp.CellBytes(d, pos, m.Types[c], m.Metadata[c], e.tb.cols[c].u) })
			p += timed(func() { l, e2 = cellLength(d, pos, m.Types[c], m.Metadata[c]) })
			if p != "" || e1 != nil || e2 != nil {
				walkOK = false
				return out
			}
			out = append(out, []int{n, l})
			pos += n
		}
		if pos != len(d) {
			walkOK = false
		}
		return out
	}
	for _, row := range rs.Rows {
		x := Rec{"ni": bits(row.NullIdentifyColumns), "nd": bits(row.NullColumns), "id": bs(row.Identify), "da": bs(row.Data)}
		x["wi"] = walk(rs.IdentifyColumns, row.NullIdentifyColumns, row.Identify)
		x["wd"] = walk(rs.DataColumns, row.NullColumns, row.Data)
		rows = append(rows, x)
	}
	rec["sums"] = []int{rs.IdentifyColumns.BitCount(), rs.DataColumns.BitCount()}
	rec["rows"], rec["ok"], rec["walk"] = rows, ok, walkOK
	rec["intact"] = string(b) == string(in)
	g.w.put(rec)
	g.count[g.tag]++
}

var rowTypes = []byte{evWriteV1, evUpdateV1, evDeleteV1, evWriteV2, evUpdateV2, evDeleteV2}

func (g *eventGen) rows() {
	r := g.r
	n := 1500
	if g.deep {
		n = 9000
	}
	counts := []int{1, 7, 8, 9, 16, 17, 24, 25, 64, 65, 250, 251, 252, 255, 256, 257, 300}
	for k := 0; k < n; k++ {
		g.tag = "small"
		nc := 1 + r.Intn(12)
		nr := r.Intn(6)
		if k < 2*len(counts) {
			nc = counts[k%len(counts)]
		} else if r.Intn(12) == 0 {
			nc = 1 + r.Intn(300)
		}
		if nc > 60 {
			g.tag = "wide"
			nr = r.Intn(3)
		} else if r.Intn(20) == 0 {
			nr = 20 + r.Intn(60)
		}
		f := randFormat(r, 0, r.Intn(2) == 0)
		kinds := allKinds
		if r.Intn(3) == 0 {
			kinds = []string{allKinds[r.Intn(len(allKinds))], allKinds[r.Intn(len(allKinds))]}
		}
		t := randTable(r, r.Uint64()>>uint(32), nc, kinds)
		e := t.rows(r, rowTypes[k%len(rowTypes)], nr, r.Intn(3) == 0, pick(r, 0, 10, 30, 90, 100))
		e.flags = uint16(r.Intn(65536))
		if isV2(e.typ) {
			e.extra = randBytes(r, pick(r, 0, 0, 1, 2, 5, 253, 254, 300, r.Intn(40)))
		}
		if e.extra != nil && r.Intn(300) == 0 {
			e.extra = randBytes(r, 65533)
		}
		e.wide = pick(r, 0, 0, 0, 0, 2, 3, 8)
		g.rowsRecord(f, e, k%2 == 0)
	}
	g.shapes()
	g.bulky()
	g.bitmaps()
}

// bitmaps records what a bitmap holds after bits were set and cleared.
func (g *eventGen) bitmaps() {
	r := g.r
	g.tag = "bitmaps"
	for n := 0; n < 70; n++ {
		count := n
		if n >= 66 {
			count = pick(r, 255, 256, 257, 1000, 4096)
		}
		bm := rp.NewServerBitmap(count)
		ops := [][]int{}
		ok := timed(func() {
			for k := r.Intn(3 * (count + 1)); k > 0 && count > 0; k-- {
				i, v := r.Intn(count), r.Intn(2)
				bm.Set(i, v == 1)
				ops = append(ops, []int{i, v})
			}
		}) == ""
		rec := Rec{"kind": "bitmap", "tag": g.tag, "n": count, "ops": ops}
		ok = timed(func() { rec["count"], rec["bits"], rec["sum"] = bm.Count(), bits(bm), bm.BitCount() }) == "" && ok
		rec["ok"] = ok
		g.w.put(rec)
		g.count[g.tag]++
	}
}

// bulky puts cells whose lengths need every byte of their prefix between others, row by row.
func (g *eventGen) bulky() {
	r := g.r
	g.tag = "bulky"
	k := 0
	one := func(t byte, m uint16, max, big int) {
		tb := randTable(r, uint64(r.Intn(1000)), 1+r.Intn(3), []string{"tiny", "varchar", "decimal", "char"})
		i := r.Intn(len(tb.cols) + 1)
		tb.cols = append(tb.cols[:i:i], append([]col{{t: t, m: m, max: max, big: big, name: "big"}}, tb.cols[i:]...)...)
		e := tb.rows(r, rowTypes[k%len(rowTypes)], 2+r.Intn(2), false, 10)
		k++
		g.rowsRecord(newFormat(0, k%2 == 0, 40), e, k%3 == 0)
	}
	g.packed = true
	for i, t := range []byte{rp.TypeLongBlob, rp.TypeBlob, rp.TypeGeometry} {
		if i == 0 || g.deep {
			tb := &table{id: 5, db: "d", name: "t", cols: []col{{t: rp.TypeLong, name: "a"}, {t: t, m: 4, name: "b"}, {t: rp.TypeTiny, name: "c"}}}
			e := tb.rows(r, rowTypes[i], 2, false, 0)
			b := cat(le(1<<24+300, 4), bytes.Repeat([]byte{7}, 1<<24+300))
			b[4], b[len(b)-1], b[1<<24] = 1, 2, 3
			e.rows[0][0].cells[1] = b
			e.rows[0][1].cells[1] = b
			g.rowsRecord(newFormat(0, true, 40), e, false)
		}
	}
	g.packed = false
	for i := 0; i < 2; i++ {
		for _, v := range []int{0x00ff, 0x0100, 0x7fff, 0x8000, 0xff00, 0xfffc} {
			one([]byte{rp.TypeVarchar, rp.TypeVarString}[i], 65535, 65535, v)
		}
	}
	for _, t := range []byte{rp.TypeBlob, rp.TypeTinyBlob, rp.TypeMediumBlob, rp.TypeLongBlob, rp.TypeGeometry} {
		for w := uint16(2); w <= 4; w++ {
			for _, v := range []int{0x7fff, 0xfffd, 0xffff, 0x10000, 0x100ff, 0x1fffe} {
				if v < 1<<(8*w) && (g.deep || r.Intn(3) == 0) {
					one(t, w, 0, v)
				}
			}
		}
	}
}

// shapes puts every type with every metadata into tables, row by row.
func (g *eventGen) shapes() {
	r := g.r
	g.tag = "every metadata"
	var cols []col
	add := func(t byte, m uint16, max int, sub byte) {
		cols = append(cols, col{t: t, m: m, max: max, sub: sub, name: "c"})
	}
	for v := 0; v <= 65535; v++ {
		edge := v < 4 || v > 65530 || v >= 253 && v <= 259 || v&(v-1) == 0 || (v+1)&v == 0
		if edge || g.deep || r.Intn(24) == 0 {
			add(rp.TypeVarchar, uint16(v), v, 0)
			add(rp.TypeVarString, uint16(v), v, 0)
		}
	}
	for v := 0; v < 1024; v++ {
		add(rp.TypeString, stringMeta(v), v, rp.TypeString)
	}
	for p := 1; p <= 65; p++ {
		for s := 0; s <= 30 && s <= p; s++ {
			add(rp.TypeNewDecimal, uint16(p)<<8|uint16(s), 0, 0)
		}
	}
	for fsp := uint16(0); fsp <= 6; fsp++ {
		for _, t := range []byte{rp.TypeTime2, rp.TypeDateTime2, rp.TypeTimestamp2} {
			add(t, fsp, 0, 0)
		}
	}
	for n := 1; n <= 64; n++ {
		add(rp.TypeBit, uint16(n/8)<<8|uint16(n%8), n, 0)
	}
	for n := uint16(1); n <= 4; n++ {
		for _, t := range []byte{rp.TypeBlob, rp.TypeTinyBlob, rp.TypeMediumBlob, rp.TypeLongBlob, rp.TypeGeometry} {
			add(t, n, 0, 0)
		}
	}
	for n := uint16(1); n <= 8; n++ {
		if n <= 2 {
			add(rp.TypeString, rp.TypeEnum<<8|n, 0, rp.TypeEnum)
		}
		if n <= 4 || n == 8 {
			add(rp.TypeString, rp.TypeSet<<8|n, 0, rp.TypeSet)
		}
	}
	add(rp.TypeFloat, 4, 0, 0)
	add(rp.TypeDouble, 8, 0, 0)
	add(rp.TypeJSON, 4, 0, 0)
	for _, t := range []byte{rp.TypeTiny, rp.TypeShort, rp.TypeInt24, rp.TypeLong, rp.TypeLongLong, rp.TypeYear, rp.TypeDate, rp.TypeNewDate,
		rp.TypeTime, rp.TypeDateTime, rp.TypeTimestamp} {
		add(t, 0, 0, 0)
	}
	r.Shuffle(len(cols), func(i, j int) { cols[i], cols[j] = cols[j], cols[i] })
	k := 0
	for len(cols) > 0 {
		n := minInt(len(cols), 40+r.Intn(260))
		t := &table{id: uint64(r.Intn(1000)), db: "d", name: "t", cols: cols[:n]}
		cols = cols[n:]
		e := t.rows(r, rowTypes[k%len(rowTypes)], 1+r.Intn(2), false, 5)
		k++
		g.rowsRecord(newFormat(0, k%2 == 0, 40), e, k%3 == 0)
	}
}

// gates: buffers of every kind for the validity test.
func (g *eventGen) gates() {
	r := g.r
	n := 1500
	if g.deep {
		n = 20000
	}
	g.tag = "short"
	for l := 0; l <= 64; l++ { // every length, the length field anything near
		for _, d := range []int{0, 1, -1, 256, 1 << 16, 1 << 24, -l, 18 - l, 19 - l, 1<<31 - l} {
			b := randBytes(r, l)
			copy(b[minInt(9, l):], le(uint64(uint32(l+d)), 4))
			g.gate(b)
		}
		g.gate(randBytes(r, l))
		g.gate(make([]byte, l))
		ff := make([]byte, l)
		for i := range ff {
			ff[i] = 255
		}
		g.gate(ff)
	}
	g.tag = "events"
	h := randomHistory(r, 6)
	for i := 0; i < 12 && i < len(h.pk); i++ { // well-formed ones, cut at and extended from every length
		p := h.pk[r.Intn(len(h.pk))]
		if len(p) > 200 {
			continue
		}
		g.gate(p)
		for c := 0; c < len(p); c++ {
			g.gate(p[:c])
		}
		for c := 1; c < 20; c++ {
			g.gate(append(append([]byte(nil), p...), randBytes(r, c)...))
		}
	}
	g.tag = "random"
	for k := 0; k < n; k++ {
		l := 19 + r.Intn(300)
		if r.Intn(50) == 0 {
			l = pick(r, 255, 256, 257, 4095, 65535, 65536, 65537)
		}
		b := randBytes(r, l)
		v := uint64(l)
		switch r.Intn(4) {
		case 0:
			v = uint64(l + r.Intn(7) - 3)
		case 1:
			v ^= 1 << uint(r.Intn(32))
		}
		copy(b[9:], le(v, 4))
		g.gate(b)
	}
}

func cmdEvents(which, out string, seed int64, deep bool) {
	g := &eventGen{w: newWriter(out), r: rand.New(rand.NewSource(seed)), deep: deep, count: map[string]int{}}
	time.Local = time.UTC
	switch which {
	case "control":
		g.controls()
	case "maps":
		g.tables()
	case "rows":
		g.rows()
	case "gate":
		g.gates()
	default:
		fatal("events: ", which)
	}
	g.w.close()
	summary(g.w.n, g.count)
}
