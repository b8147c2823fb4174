package main

import (
	"hash/crc32"
	"math/rand"
)

// Event type codes.
const (
	evQuery      = 2
	evStop       = 3
	evRotate     = 4
	evIntVar     = 5
	evRand       = 13
	evUserVar    = 14
	evFormat     = 15
	evXid        = 16
	evTableMap   = 19
	evWriteV1    = 23
	evUpdateV1   = 24
	evDeleteV1   = 25
	evHeartbeat  = 27
	evIgnorable  = 28
	evRowsQuery  = 29
	evWriteV2    = 30
	evUpdateV2   = 31
	evDeleteV2   = 32
	evGtid       = 33
	evAnonGtid   = 34
	evPrevGtids  = 35
	evTxContext  = 36
	evViewChange = 37
	evAnnotate   = 160
	evCheckpoint = 161
	evMariaGtid  = 162
)

// format is how a master writes events.
type format struct {
	hl       int // common header length
	alg      byte
	sizes    []byte // post-header length per event type, from type 1
	server   string
	version  uint16
	created  uint32
	serverID uint32
}

func (f *format) idLen(typ byte) int {
	if f.sizes[typ-1] == 6 {
		return 4
	}
	return 6
}

func (f *format) crc() bool { return f.alg == 1 }

// newFormat makes a format: id4 selects 4-byte table ids.
func newFormat(alg byte, id4 bool, n int) *format {
	f := &format{hl: 19, alg: alg, server: "5.7.30-log", version: 4, serverID: 62344}
	// post-header sizes of a 5.7 master
	base := []byte{56, 13, 0, 8, 0, 18, 0, 4, 4, 4, 4, 18, 0, 0, 95, 0, 4, 26, 8, 0, 0, 0, 8, 8, 8, 2, 0, 0, 0, 10, 10, 10, 42, 42, 0, 18, 52, 0}
	f.sizes = append([]byte(nil), base...)
	for len(f.sizes) < n {
		f.sizes = append(f.sizes, 0)
	}
	if id4 {
		for _, t := range []int{evTableMap, evWriteV1, evUpdateV1, evDeleteV1} {
			f.sizes[t-1] = 6
		}
	}
	return f
}

// header fields of an event being written
type hdr struct {
	ts    uint32
	next  uint32
	flags uint16
	sid   uint32
}

// event assembles an event; next is the offset after it when 0 start is added by the caller.
func (f *format) event(h hdr, typ byte, body []byte) []byte {
	hl := f.hl
	if typ == evFormat {
		hl = 19
	}
	n := hl + len(body)
	crc := f.crc() || typ == evFormat
	if crc {
		n += 4
	}
	e := make([]byte, 0, n)
	e = append(e, le(uint64(h.ts), 4)...)
	e = append(e, typ)
	e = append(e, le(uint64(h.sid), 4)...)
	e = append(e, le(uint64(n), 4)...)
	e = append(e, le(uint64(h.next), 4)...)
	e = append(e, le(uint64(h.flags), 2)...)
	for len(e) < hl {
		e = append(e, 0xaa)
	}
	e = append(e, body...)
	if crc {
		e = append(e, le(uint64(crc32.ChecksumIEEE(e)), 4)...)
	}
	return e
}

func (f *format) formatBody() []byte {
	b := le(uint64(f.version), 2)
	s := make([]byte, 50)
	copy(s, f.server)
	b = append(b, s...)
	b = append(b, le(uint64(f.created), 4)...)
	b = append(b, byte(f.hl))
	b = append(b, f.sizes...)
	return append(b, f.alg)
}

func rotateBody(file string, off uint64) []byte { return append(le(off, 8), file...) }

func queryBody(db, sql string, vars []byte, r *rand.Rand) []byte {
	return cat(randBytes(r, 4), randBytes(r, 4), []byte{byte(len(db))}, randBytes(r, 2), le(uint64(len(vars)), 2), vars, []byte(db), []byte{0}, []byte(sql))
}

// statusVars writes the status variables a server would: in its order, each optional.
func statusVars(r *rand.Rand, charset []int) []byte {
	rate := 1 + r.Intn(6)
	return statusVarsOf(r, func(code int) bool { return r.Intn(rate) == 0 }, charset)
}

// statusVarsOf writes the status variables yes wants (and the charset), in the order of the server.
func statusVarsOf(r *rand.Rand, yes func(code int) bool, charset []int) []byte {
	var v []byte
	some := func(n int) []byte {
		b := randBytes(r, n)
		if r.Intn(3) == 0 { // bytes that look like codes
			for i := range b {
				b[i] = byte(r.Intn(21))
			}
		}
		return b
	}
	put := func(code int, b []byte) { v = append(append(v, byte(code)), b...) }
	fixed := func(code, n int) {
		if yes(code) {
			put(code, some(n))
		}
	}
	counted := func() []byte {
		n := pick(r, 0, 1, 3, 6, r.Intn(30))
		if r.Intn(60) == 0 {
			n = 255
		}
		return append([]byte{byte(n)}, some(n)...)
	}
	fixed(0, 4)
	fixed(1, 8)
	if yes(2) {
		put(2, append(counted(), 0))
	} else if yes(6) {
		put(6, counted())
	}
	fixed(3, 4)
	if charset != nil {
		v = append(v, 4)
		for _, c := range charset {
			v = append(v, le(uint64(c), 2)...)
		}
	}
	if yes(5) {
		put(5, counted())
	}
	fixed(7, 2)
	fixed(8, 2)
	fixed(9, 8)
	fixed(10, 4)
	if yes(11) { // Q_INVOKER: user, host
		put(11, append(counted(), counted()...))
	}
	if yes(12) { // Q_UPDATED_DB_NAMES: count and zero-terminated names
		n := 1 + r.Intn(3)
		b := []byte{byte(n)}
		for ; n > 0; n-- {
			b = append(append(b, "db"...), 0)
		}
		put(12, b)
	}
	fixed(13, 3)
	fixed(16, 1)
	fixed(17, 8)
	fixed(18, 2)
	fixed(19, 1)
	fixed(20, 1)
	return v
}

// lenEnc is a length-encoded integer; wide asks for a longer form than needed.
func lenEnc(n int, wide int) []byte {
	switch {
	case wide >= 8:
		return append([]byte{0xfe}, le(uint64(n), 8)...)
	case n > 65535 || wide == 3:
		return append([]byte{0xfd}, le(uint64(n), 3)...)
	case n > 250 || wide == 2:
		return append([]byte{0xfc}, le(uint64(n), 2)...)
	}
	return []byte{byte(n)}
}

// bitmap packs bits, least significant first; junk fills the unused bits.
func bitmap(bits []bool, junk byte) []byte {
	b := make([]byte, (len(bits)+7)/8)
	for i, x := range bits {
		if x {
			b[i/8] |= 1 << uint(i%8)
		}
	}
	if k := uint(len(bits) % 8); k != 0 {
		b[len(b)-1] |= junk << k
	}
	return b
}

// col is a column of a table.
type col struct {
	t    byte
	m    uint16
	u    bool
	null bool
	name string
	max  int
	sub  byte
	big  int // half the values are about so long
}

type table struct {
	id       uint64
	db, name string
	cols     []col
	flags    uint16
	zeros    int // one value in so many is a zero
}

func (c col) metaBytes() []byte {
	switch c.t {
	case 4, 5, 17, 18, 19, 245, 249, 250, 251, 252, 255:
		return []byte{byte(c.m)}
	case 246, 247, 248, 254:
		return be(uint64(c.m), 2)
	case 15, 16, 253:
		return le(uint64(c.m), 2)
	}
	return nil
}

func (t *table) mapBody(f *format, r *rand.Rand, optional []byte, wide int) []byte {
	b := le(t.id, f.idLen(evTableMap))
	b = append(b, le(uint64(t.flags), 2)...)
	b = append(b, byte(len(t.db)))
	b = append(append(b, t.db...), 0)
	b = append(b, byte(len(t.name)))
	b = append(append(b, t.name...), 0)
	b = append(b, lenEnc(len(t.cols), wide)...)
	var meta []byte
	nulls := make([]bool, len(t.cols))
	for i, c := range t.cols {
		b = append(b, c.t)
		meta = append(meta, c.metaBytes()...)
		nulls[i] = c.null
	}
	b = append(b, lenEnc(len(meta), wide)...)
	b = append(b, meta...)
	b = append(b, bitmap(nulls, 0)...)
	return append(b, optional...)
}

// optionalMeta is what a server with binlog_row_metadata appends to table maps.
func (t *table) optionalMeta(r *rand.Rand) []byte {
	if r.Intn(2) == 0 {
		return nil
	}
	var b []byte
	sign := make([]bool, len(t.cols))
	for i, c := range t.cols {
		sign[i] = c.u
	}
	s := bitmap(sign, 0)
	b = append(append(b, 1), lenEnc(len(s), 0)...) // SIGNEDNESS
	b = append(b, s...)
	if r.Intn(2) == 0 {
		b = append(append(b, 2, 1), byte(r.Intn(250))) // DEFAULT_CHARSET
	}
	if r.Intn(2) == 0 { // COLUMN_NAME
		var n []byte
		for _, c := range t.cols {
			n = append(append(n, byte(len(c.name))), c.name...)
		}
		b = append(append(b, 4), lenEnc(len(n), 0)...)
		b = append(b, n...)
	}
	if r.Intn(2) == 0 {
		b = append(b, 8, 1, 0) // SIMPLE_PRIMARY_KEY
	}
	return b
}

// image is one row image: which columns are present is decided by the event.
type image struct {
	cells [][]byte // nil: NULL
}

// imageBytes writes the NULL bitmap and the cells of the present columns.
func imageBytes(present []bool, im image, junk byte) []byte {
	var nulls []bool
	var data []byte
	for i, p := range present {
		if !p {
			continue
		}
		nulls = append(nulls, im.cells[i] == nil)
		data = append(data, im.cells[i]...)
	}
	return append(bitmap(nulls, junk), data...)
}

type rowsEvent struct {
	typ    byte
	tb     *table
	flags  uint16
	extra  []byte // v2: extra data
	before []bool
	after  []bool
	rows   [][2]image // before, after
	junk   byte
	wide   int
}

func isUpdate(t byte) bool { return t == evUpdateV1 || t == evUpdateV2 }
func isDelete(t byte) bool { return t == evDeleteV1 || t == evDeleteV2 }
func isWrite(t byte) bool  { return t == evWriteV1 || t == evWriteV2 }
func isV2(t byte) bool     { return t == evWriteV2 || t == evUpdateV2 || t == evDeleteV2 }

func (e *rowsEvent) body(f *format) []byte {
	b := le(e.tb.id, f.idLen(e.typ))
	b = append(b, le(uint64(e.flags), 2)...)
	if isV2(e.typ) {
		b = append(b, le(uint64(len(e.extra)+2), 2)...)
		b = append(b, e.extra...)
	}
	b = append(b, lenEnc(len(e.tb.cols), e.wide)...)
	if !isWrite(e.typ) {
		b = append(b, bitmap(e.before, e.junk)...)
	}
	if !isDelete(e.typ) {
		b = append(b, bitmap(e.after, e.junk)...)
	}
	for _, r := range e.rows {
		if !isWrite(e.typ) {
			b = append(b, imageBytes(e.before, r[0], e.junk)...)
		}
		if !isDelete(e.typ) {
			b = append(b, imageBytes(e.after, r[1], e.junk)...)
		}
	}
	return b
}
