package main

import (
	"fmt"
	"math/rand"
	"strings"

	rp "github.com/Breeze0806/gobinlog/replication"
)

// hevent is an event of a binlog file; pk is its number in the trace (1-based).
type hevent struct {
	start, end uint64
	pk         int
	typ        byte
}

type hfile struct {
	name   string
	base   uint64 // where the first event after the format description starts
	f      *format
	fde    int // packet number of the format description
	events []hevent
	size   uint64
}

// history is what a master has in its binlog.
type history struct {
	r       *rand.Rand
	files   []*hfile
	pk      [][]byte
	wild    []int // packets whose body is arbitrary
	tables  map[string]*table
	grows   bool        // tables gain and lose columns
	anns    map[int]ann // what the table maps announced, by packet
	order   []*table
	ts      uint32
	nextID  uint64
	gtids   bool
	kinds   []string
	charset bool
	commits int // transactions a handler must see
	crc     int // 0 never, 1 always, 2 per file
	id4     int
	junk    bool         // ignorable events in between
	marks   map[int]bool // the last packet of each letter of a word
	stems   []string     // of file names
	zeros   int          // one value in so many is a zero
}

func newHistory(r *rand.Rand) *history {
	return &history{r: r, tables: map[string]*table{}, marks: map[int]bool{}, ts: someTime(r), nextID: 70, kinds: allKinds, crc: r.Intn(3), id4: r.Intn(3), gtids: r.Intn(2) == 0, charset: true, junk: true, stems: fileStems, zeros: 12}
}

// someTime is when a history begins: these days, or around a power of two.
func someTime(r *rand.Rand) uint32 {
	switch r.Intn(8) {
	case 0:
		return 1<<31 - 3 + uint32(r.Intn(6))
	case 1:
		return 1<<32 - 1 - uint32(r.Intn(1000))
	case 2:
		return r.Uint32()
	case 3:
		return 1 + uint32(r.Intn(70000))
	}
	return 1500000000 + uint32(r.Intn(1<<28))
}

func someFlags(r *rand.Rand, fs ...int) uint16 {
	switch r.Intn(12) {
	case 0:
		return uint16(r.Intn(65536))
	case 1, 2, 3, 4:
		return uint16(fs[r.Intn(len(fs))])
	}
	return 0
}

func (h *history) flag(v int) bool { return v == 1 || v == 2 && h.r.Intn(2) == 0 }

func (h *history) packet(e []byte) int {
	h.pk = append(h.pk, e)
	return len(h.pk)
}

func (h *history) cur() *hfile { return h.files[len(h.files)-1] }

// open starts a new binlog file.
func (h *history) open(name string, base uint64) {
	alg := byte(0)
	if h.flag(h.crc) {
		alg = 1
	} else if h.r.Intn(4) == 0 {
		alg = 255
	}
	f := newFormat(alg, h.flag(h.id4), 38+h.r.Intn(3)*3)
	if h.r.Intn(8) == 0 {
		f.hl = 19 + h.r.Intn(4)
	}
	f.server = []string{"5.7.30-log", "5.6.51", "8.0.33", "5.5.5-10.4.1-MariaDB-log", strings.Repeat("v", 50)}[h.r.Intn(5)]
	h.openFormat(name, base, f)
}

func (h *history) openFormat(name string, base uint64, f *format) {
	fl := &hfile{name: name, base: base, size: base, f: f}
	h.files = append(h.files, fl)
	// A description takes room of its own, unless it was made up.
	next, body := uint32(base), f.formatBody()
	if n := uint64(23 + len(body)); h.r.Intn(2) == 0 && base+n < 1<<32-1<<16 {
		fl.size += n
		next = uint32(fl.size)
	} else if h.r.Intn(3) == 0 {
		next = 0
	}
	fl.fde = h.packet(f.event(hdr{ts: h.ts, sid: f.serverID, next: next}, evFormat, body))
}

// add appends an event to the current file.
func (h *history) add(typ byte, body []byte) int {
	fl := h.cur()
	n := fl.f.hl + len(body)
	if fl.f.crc() {
		n += 4
	}
	if h.r.Intn(3) == 0 {
		h.ts += uint32(h.r.Intn(3))
	} else if h.r.Intn(40) == 0 { // a statement that began long ago, another clock
		h.ts = someTime(h.r)
	}
	end := fl.size + uint64(n)
	if end >= 1<<32 {
		fatal("binlog file too long")
	}
	sid := fl.f.serverID // events of other servers keep their ids
	if h.r.Intn(4) == 0 {
		sid = h.r.Uint32() >> uint(h.r.Intn(32))
	}
	e := fl.f.event(hdr{ts: h.ts, sid: sid, next: uint32(end), flags: someFlags(h.r, 8, 4, 0x80, 0x100, 0x200)}, typ, body)
	k := h.packet(e)
	fl.events = append(fl.events, hevent{start: fl.size, end: end, pk: k, typ: typ})
	fl.size = end
	return k
}

// artificial appends an event that takes no place in the file (heartbeats).
func (h *history) artificial(typ byte, body []byte) {
	fl := h.cur()
	k := h.packet(fl.f.event(hdr{sid: fl.f.serverID, next: uint32(fl.size), flags: 0x20}, typ, body))
	fl.events = append(fl.events, hevent{start: fl.size, end: fl.size, pk: k, typ: typ})
}

func (h *history) fakeRotate(fl *hfile, off uint64) int {
	return h.packet(fl.f.event(hdr{sid: fl.f.serverID, flags: 0x20}, evRotate, rotateBody(fl.name, off)))
}

// rotate closes the current file and opens the next.
func (h *history) rotate(name string, base uint64) {
	crashed := h.r.Intn(5) == 0 // or shut down: the file ends without a rotation
	if !crashed {
		h.add(evRotate, rotateBody(name, base))
	} else if h.r.Intn(2) == 0 {
		h.add(evStop, nil)
	}
	if crashed || h.r.Intn(4) != 0 { // the dump thread announces the file it goes on with
		fl := h.cur()
		k := h.packet(fl.f.event(hdr{sid: fl.f.serverID, flags: 0x20}, evRotate, rotateBody(name, base)))
		fl.events = append(fl.events, hevent{start: fl.size, end: fl.size, pk: k, typ: evRotate})
	}
	h.open(name, base)
}

func (h *history) query(db, sql string) int {
	var cs []int
	if h.r.Intn(3) != 0 {
		cs = []int{h.r.Intn(300), h.r.Intn(300), h.r.Intn(65536)}
	}
	return h.add(evQuery, queryBody(db, sql, statusVars(h.r, cs), h.r))
}

func randCase(r *rand.Rand, s string) string {
	switch r.Intn(4) {
	case 0:
		return s
	case 1:
		return strings.ToUpper(s)
	case 2:
		return strings.ToLower(s)
	}
	b := []byte(s)
	for i := range b {
		if r.Intn(2) == 0 {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
	}
	return string(b)
}

func (h *history) gtid() {
	if !h.gtids {
		return
	}
	body := cat([]byte{1}, randBytes(h.r, 16), le(uint64(1+h.r.Intn(100000)), 8))
	if h.r.Intn(2) == 0 {
		body = append(body, randBytes(h.r, 17)...) // logical clock of 5.7
	}
	if h.r.Intn(4) == 0 {
		h.add(evAnonGtid, body)
	} else {
		h.add(evGtid, body)
	}
}

// ignorable appends an event that changes nothing.
func (h *history) ignorable() {
	if h.r.Intn(11) < 7 {
		h.skipped()
	} else {
		h.unknown()
	}
}

// unknown appends a statement that is none of the streamer's business.
func (h *history) unknown() {
	sql := []string{"SAVEPOINT sp1", "RELEASE SAVEPOINT sp1", "FLUSH TABLES", "GRANT ALL ON *.* TO x", "ANALYZE TABLE t", "OPTIMIZE TABLE t", "REVOKE ALL ON a.* FROM b",
		"ROLLBACK TO SAVEPOINT sp1", "rollback to `sp1`", "ROLLBACK WORK TO x", "Rollback\tTo Savepoint a", "", " ", "beginning", "commits", "XA START X'01'", "insertion into x", "CALL p()", "REPLACE INTO t VALUES (1)", "-- c\nSELECT 1", "creates x", "sets"}[h.r.Intn(22)]
	h.query("db", sql)
}

// skipped appends an event of a type that is none of the streamer's business.
func (h *history) skipped() {
	r := h.r
	switch r.Intn(7) {
	case 0:
		h.artificial(evHeartbeat, []byte(h.cur().name))
	case 1:
		h.add(evPrevGtids, cat(le(1, 8), randBytes(r, 16), le(1, 8), le(1, 8), le(9, 8)))
	case 2:
		h.add(evGtid, cat([]byte{0}, randBytes(r, 16), le(5, 8)))
	case 3:
		h.add(evAnonGtid, cat([]byte{0}, make([]byte, 24)))
	case 4:
		h.add([]byte{evIgnorable, evTxContext, evViewChange, 38 + 1, 40, 41, 99, 200, 255}[r.Intn(9)], randBytes(r, r.Intn(30)))
	case 5:
		h.add([]byte{evAnnotate, evCheckpoint, 163}[r.Intn(3)], []byte("# annotation"))
	case 6:
		h.add(evUserVar, cat(le(3, 4), []byte("abc"), []byte{1}))
	}
}

func (h *history) maybeJunk() {
	if h.junk && h.r.Intn(4) == 0 {
		h.ignorable()
	}
}

func (h *history) newTable(ncols int) *table {
	for {
		t := randTable(h.r, h.nextID, ncols, h.kinds)
		t.zeros = h.zeros
		h.nextID++
		if h.r.Intn(12) == 0 && !(h.id4 != 0) {
			t.id |= uint64(1+h.r.Intn(65535)) << 32
		}
		if len(h.order) > 0 {
			o := h.order[h.r.Intn(len(h.order))]
			switch h.r.Intn(10) {
			case 0: // the same name elsewhere
				t.name = o.name
			case 1: // the names run together the same
				if i := strings.IndexByte(o.name, '.'); i > 0 {
					t.db, t.name = o.db+"."+o.name[:i], o.name[i+1:]
				} else {
					t.db = o.db
				}
			case 2: // ids that share their low bytes
				id := o.id + 1<<uint(pick(h.r, 8, 16, 24))
				if h.id4 == 0 && h.r.Intn(2) == 0 {
					id = o.id + 1<<uint(pick(h.r, 32, 40))
				}
				if !h.usedID(id) && (id < 1<<32 || h.id4 == 0) && id < 1<<48 {
					t.id = id
				}
			}
			if h.r.Intn(12) == 0 {
				t.name += ".x" + t.name
			}
		}
		key := t.db + "\x00" + t.name
		if h.tables[key] != nil {
			continue
		}
		h.tables[key] = t
		h.order = append(h.order, t)
		return t
	}
}

func (h *history) usedID(id uint64) bool {
	for _, t := range h.order {
		if t.id == id {
			return true
		}
	}
	return false
}

func (h *history) someTable() *table {
	if len(h.order) > 0 && h.r.Intn(3) != 0 {
		return h.order[h.r.Intn(len(h.order))]
	}
	return h.newTable(1 + h.r.Intn(6))
}

func (h *history) tableMap(t *table) int {
	k := h.add(evTableMap, t.mapBody(h.cur().f, h.r, t.optionalMeta(h.r), 0))
	if h.grows {
		if h.anns == nil {
			h.anns = map[int]ann{}
		}
		h.anns[k] = ann{t.db + "\x00" + t.name, t.id, append([]col{}, t.cols...)}
	}
	return k
}

// ann is what a table map announces.
type ann struct {
	key  string
	id   uint64
	cols []col
}

// asks lists the announcements of served packets for which the table has to be looked up: a new
// id, an id that stands for another table now, or for a table with another number of columns.
func (h *history) asks(list []int) []ann {
	out, ids := []ann{}, map[uint64]ann{}
	for _, k := range list {
		a, ok := h.anns[k]
		if !ok {
			continue
		}
		if b, ok := ids[a.id]; !ok || b.key != a.key || len(b.cols) != len(a.cols) {
			out = append(out, a)
		}
		ids[a.id] = a
	}
	return out
}

func (h *history) rowsType() byte {
	return []byte{evWriteV1, evUpdateV1, evDeleteV1, evWriteV2, evUpdateV2, evDeleteV2}[h.r.Intn(6)]
}

func (h *history) rows(t *table) int {
	n := 1 + h.r.Intn(3)
	if h.r.Intn(12) == 0 {
		n = 0
	}
	null := pick(h.r, 0, 25, 25, 100)
	e := t.rows(h.r, h.rowsType(), n, h.r.Intn(3) == 0, null)
	return h.add(e.typ, e.body(h.cur().f))
}

var ddl = []string{"CREATE TABLE t (id int)", "alter table `t` add c int", "Drop TABLE IF EXISTS `t` /* generated by server */", "truncate t", "RENAME TABLE a TO b", "set password for 'x'='y'",
	"create\ttable x (a int)", "DROP\nDATABASE d", "CREATE\r\nVIEW v AS SELECT 1", "Truncate\vTABLE q", "ALTER\fUSER x"}
var dml = []string{"INSERT INTO t VALUES (1)", "update t set a = 'caf\u00e9'", "Delete from t", "insert\nINTO t VALUES ('a\\'b')", "DELETE", "UPDATE\t t SET x=1"}

func (h *history) stmt(s string) string {
	w := strings.IndexAny(s, " \t\n\v\f\r")
	if w < 0 {
		return randCase(h.r, s)
	}
	return randCase(h.r, s[:w]) + s[w:]
}

// change appends one change within a transaction (or on its own).
func (h *history) change(kind int) {
	switch kind {
	case 0:
		t := h.someTable()
		h.tableMap(t)
		for i := 1 + h.r.Intn(2); i > 0; i-- {
			h.rows(t)
		}
	case 1: // several tables announced together, rows interleaved
		a, b := h.someTable(), h.someTable()
		h.tableMap(a)
		h.tableMap(b)
		h.rows(b)
		h.rows(a)
		if h.r.Intn(2) == 0 {
			h.rows(b)
		}
	case 2:
		h.query("db", h.stmt(dml[h.r.Intn(len(dml))]))
	case 3:
		h.query(randName(h.r, 3), h.stmt(ddl[h.r.Intn(len(ddl))]))
	}
}

func (h *history) begin() {
	s := randCase(h.r, "BEGIN")
	s += []string{"", "", "", " /* tx */", "\n", " WORK"}[h.r.Intn(6)]
	h.query("", s)
}

// transaction appends BEGIN ... end; end: 0 XID, 1 COMMIT, 2 ROLLBACK, 3 any.
func (h *history) transaction(changes, end int) {
	h.gtid()
	h.begin()
	for i := 0; i < changes; i++ {
		h.maybeJunk()
		h.change(pick(h.r, 0, 0, 0, 0, 1, 2, 3))
	}
	h.maybeJunk()
	if end == 3 {
		end = pick(h.r, 0, 0, 0, 1, 2)
	}
	h.finish(end)
}

func (h *history) finish(end int) {
	switch end {
	case 0:
		h.add(evXid, le(h.r.Uint64(), 8))
	case 1:
		h.query("", randCase(h.r, "COMMIT")+[]string{"", "", "\t", " /* c */", " WORK"}[h.r.Intn(5)])
	case 2:
		h.query("", randCase(h.r, "ROLLBACK")+[]string{"", "", " ", "\r\n", " WORK", " /* to */"}[h.r.Intn(6)])
	}
	h.commits++
}

// single appends a change outside any transaction.
func (h *history) single() {
	h.gtid()
	switch h.r.Intn(3) {
	case 0:
		t := h.someTable()
		h.tableMap(t)
		h.rows(t)
	case 1:
		h.query("db", h.stmt(dml[h.r.Intn(len(dml))]))
	default:
		h.query(randName(h.r, 3), h.stmt(ddl[h.r.Intn(len(ddl))]))
	}
	h.commits++
}

var fileStems = []string{"mysql-bin", "binlog", "log.with.dots", "bin\u00e9", "b"}

// names a master can be told to give its binlogs (and a few it cannot)
var oddStems = []string{"/var/lib/mysql/bin", "./log", "../x/log", "dir/sub/log", "C:\\data\\log", "a b", "log'", "%s%d", "UPPER", "\u65e5\u5fd7", "x\xff\xfe", "a\tb", strings.Repeat("n", 60), strings.Repeat("long", 61), "log?", "-", "trail.", " lead", "a//b", "log\x00nul"}

// bulky appends events that do not fit into the buffers of a connection.
func (h *history) bulky() {
	t := h.newTable(3)
	t.cols[0] = col{t: rp.TypeBlob, m: 3, name: "big"}
	h.begin()
	h.tableMap(t)
	for i := 0; i < 2; i++ {
		e := t.rows(h.r, h.rowsType(), 1+h.r.Intn(2), false, 0)
		for _, row := range e.rows {
			n := pick(h.r, 900, 1025, 2049, 4096, 5000, 9000)
			row[0].cells[0], row[1].cells[0] = cat(le(uint64(n), 3), payload(h.r, n)), cat(le(uint64(n/2), 3), payload(h.r, n/2))
		}
		h.add(e.typ, e.body(h.cur().f))
	}
	h.query("db", "insert into big values ('"+string(randText(h.r, pick(h.r, 1024, 4096, 5000)))+"')")
	h.finish(0)
}

func (h *history) nextFile() {
	stem := h.stems[h.r.Intn(len(h.stems))]
	base := uint64(4)
	switch h.r.Intn(5) {
	case 0:
		base = uint64(120 + h.r.Intn(1000))
	case 1:
		base = 1<<31 - 40 + uint64(h.r.Intn(60))
	case 2:
		base = 1<<32 - 60000 + uint64(h.r.Intn(1000))
	}
	name := fmt.Sprintf("%s.%06d", stem, len(h.files)+1)
	if len(h.files) == 0 {
		h.open(name, base)
	} else {
		if h.r.Intn(2) == 0 {
			base = 4
		}
		h.rotate(name, base)
	}
}

// reannounce changes what an id stands for: the same table with other column types, or the id
// moves to another table.
func (h *history) reannounce() {
	if len(h.order) < 2 {
		return
	}
	a := h.order[h.r.Intn(len(h.order))]
	if h.grows && h.r.Intn(3) != 0 { // columns come and go
		cols := append([]col{}, a.cols...)
		if i := h.r.Intn(len(cols) + 1); i < len(cols) && len(cols) > 1 && h.r.Intn(2) == 0 {
			cols = append(cols[:i], cols[i+1:]...)
		} else {
			cols = append(cols[:i], append([]col{randCol(h.r, h.kinds)}, cols[i:]...)...)
			cols[i].name = randName(h.r, 1+h.r.Intn(8))
		}
		a.cols = cols
		return
	}
	if h.r.Intn(2) == 0 {
		for i := range a.cols {
			c := randCol(h.r, h.kinds)
			a.cols[i].t, a.cols[i].m, a.cols[i].max, a.cols[i].sub = c.t, c.m, c.max, c.sub
		}
		if h.r.Intn(2) == 0 {
			a.id = h.nextID
			h.nextID++
		}
		return
	}
	b := h.order[h.r.Intn(len(h.order))]
	a.id, b.id = b.id, a.id
}

// random appends n random units.
func (h *history) random(n int) {
	for i := 0; i < n; i++ {
		h.maybeJunk()
		switch h.r.Intn(9) {
		case 0:
			h.single()
		case 1:
			h.nextFile()
		case 2:
			h.reannounce()
			h.transaction(1+h.r.Intn(2), 3)
		default:
			h.transaction(h.r.Intn(4), 3)
		}
	}
}

// served lists the packets a master sends from a position, nil if there is nothing there.
func (h *history) served(file string, off uint64) []int {
	for i, fl := range h.files {
		if fl.name != file {
			continue
		}
		at := -1
		if off == fl.base {
			at = 0
		}
		for j, e := range fl.events {
			if e.start == off {
				at = j
				break
			}
		}
		if at < 0 {
			if off != fl.size {
				return nil
			}
			at = len(fl.events)
		}
		out := []int{h.fakeRotate(fl, off), fl.fde}
		if off != fl.base { // a description made up for the occasion says so
			out[1] = h.packet(fl.f.event(hdr{ts: h.ts, sid: fl.f.serverID, flags: 0x20}, evFormat, fl.f.formatBody()))
		}
		for _, e := range fl.events[at:] {
			out = append(out, e.pk)
		}
		for j, g := range h.files[i+1:] {
			if j == 0 && at == len(fl.events) { // the dump thread says which file comes next
				out = append(out, h.packet(fl.f.event(hdr{sid: fl.f.serverID, flags: 0x20}, evRotate, rotateBody(g.name, g.base))))
			}
			out = append(out, g.fde)
			for _, e := range g.events {
				out = append(out, e.pk)
			}
		}
		return out
	}
	return nil
}
