package main

import (
	"bytes"
	"math/rand"
	"strings"

	rp "github.com/Breeze0806/gobinlog/replication"
)

// randomHistory is a history of n units from the start of a first file.
func randomHistory(r *rand.Rand, n int) *history {
	h := newHistory(r)
	h.nextFile()
	h.random(n)
	return h
}

var allEnds = []string{"eof", "err", "errnostate", "errshort", "close", "reset", "partial", "badseq", "empty"}
var connFaults = []string{"refuse", "noconn", "nogreet", "badgreet", "greeterr", "autherr", "authclose", "authhang", "seterr", "setclose", "setgarbage", "sethang", "setreset", "setreset", "toolong"}
var cancels = []string{"precall", "accept", "set", "setok", "dump", "send", "hcall", "mcall", "idle"}

// badAttempt is an attempt that ends early for any reason; n is about how many packets there are.
func badAttempt(h *history, r *rand.Rand, n int) attempt {
	a := eof()
	a.errMsg = oneOf(r, masterErrors)
	if r.Intn(3) == 0 {
		a.slow = 1 + r.Intn(3)
	}
	switch r.Intn(9) {
	case 0:
		a.conn = oneOf(r, connFaults)
	case 1, 2:
		a.cancel = oneOf(r, cancels)
		a.at = r.Intn(1 + n/2)
		if a.cancel == "hcall" || a.cancel == "mcall" {
			a.at = r.Intn(5)
		}
		a.end = oneOf(r, append([]string{"hang", "hang"}, allEnds...))
	case 3, 4:
		a.hfail = 1 + r.Intn(5)
		a.end = oneOf(r, []string{"eof", "hang", "close"})
	case 5:
		a.mfail, a.mkind = 1+r.Intn(4), oneOf(r, []string{"error", "less", "more"})
		a.end = oneOf(r, []string{"eof", "hang", "close"})
	case 6:
		a.limit = r.Intn(n)
		a.tail, a.wild = h.junkTail(r)
		a.end = oneOf(r, []string{"eof", "hang", "close"})
	default:
		a.limit = r.Intn(n + 3)
		a.end = oneOf(r, allEnds)
	}
	return a
}

// junkTail makes packets that no master should send; wild: whether they may go unnoticed.
func (h *history) junkTail(r *rand.Rand) ([][]byte, bool) {
	// any file's format will do for the length of headers: the gate does not look at it
	var whole []byte
	for whole == nil || len(whole) < 20 {
		whole = h.pk[r.Intn(len(h.pk))]
	}
	b := append([]byte(nil), whole...)
	switch r.Intn(9) {
	case 0:
		return [][]byte{b[:r.Intn(len(b))]}, false
	case 1:
		return [][]byte{append(b, randBytes(r, 1+r.Intn(5))...)}, false
	case 2: // the length field lies
		copy(b[9:], le(uint64(pick(r, 0, 1, 18, 19, len(b)-1, len(b)+1, len(b)+256, 1<<16+len(b), 1<<24+len(b), 1<<31-1)), 4))
		if int(b[9])|int(b[10])<<8|int(b[11])<<16|int(b[12])<<24 == len(b) {
			b[12] = 1
		}
		return [][]byte{b}, false
	case 3:
		return [][]byte{randBytes(r, r.Intn(19))}, false
	case 4:
		return [][]byte{randBytes(r, 19+r.Intn(60))}, false
	case 5: // nothing after the status byte
		return [][]byte{{}}, false
	case 6: // a rightful header only
		b = b[:19]
		b[4] = []byte{evQuery, evRotate, evTableMap, evWriteV1, evUpdateV2, evDeleteV1, evFormat}[r.Intn(7)]
		copy(b[9:], le(19, 4))
		return [][]byte{b}, false
	case 7: // cut, with the length corrected
		return [][]byte{relen(b[:19+r.Intn(len(b)-19)])}, false
	}
	for {
		t := byte(r.Intn(256))
		switch t {
		case evTableMap, evFormat, evRotate, evQuery:
			continue
		}
		b = append(append([]byte(nil), b[:19]...), randBytes(r, r.Intn(40))...)
		b[4] = t
		return [][]byte{relen(b)}, true
	}
}

// relen makes the length field true.
func relen(b []byte) []byte {
	b = append([]byte(nil), b...)
	copy(b[9:], le(uint64(len(b)), 4))
	return b
}

// casing is the n-th way to write a word.
func casing(w string, n int) string {
	b := []byte(w)
	for i := range b {
		if n>>uint(i)&1 == 1 {
			b[i] -= 32
		}
	}
	return string(b)
}

// randText is n bytes of printable text.
func randText(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(32 + r.Intn(95))
	}
	return b
}

func kindsFamily(n, deep int, kinds ...string) family {
	return family{n, deep, func(id int, r *rand.Rand) *scenario {
		h := newHistory(r)
		h.kinds = kinds
		h.junk = false
		h.nextFile()
		for i := 2 + r.Intn(3); i > 0; i-- {
			h.begin()
			for j := 1 + r.Intn(3); j > 0; j-- {
				h.change(pick(r, 0, 0, 1))
			}
			h.finish(r.Intn(2))
			h.commits++
			if r.Intn(3) == 0 {
				h.reannounce()
			}
		}
		return fresh(h, eof())
	}}
}

func init() {
	// C01: anything at all
	families["fidelity"] = family{160, 3000, func(id int, r *rand.Rand) *scenario {
		return fresh(randomHistory(r, 3+r.Intn(6)), eof())
	}}
	// ... from the middle of a file, and through a later file
	families["midway"] = family{40, 600, func(id int, r *rand.Rand) *scenario {
		h := randomHistory(r, 4+r.Intn(5))
		s := fresh(h, eof())
		fl := h.files[r.Intn(len(h.files))]
		s.file, s.off = fl.name, fl.base
		return s
	}}
	// C02: every casing of begin, commit and rollback
	families["casings"] = family{8, 8, func(id int, r *rand.Rand) *scenario {
		h := newHistory(r)
		h.kinds = []string{"tiny", "varchar"}
		h.nextFile()
		t := h.newTable(2)
		for k := 0; k < 256/8; k++ {
			n := id*32 + k
			b, e := casing("begin", n%32), casing("rollback", n)
			if id%2 == 1 {
				e = casing("commit", n/2%64)
			}
			h.query("", b)
			h.tableMap(t)
			h.rows(t)
			h.query("", e)
			h.commits++
		}
		return fresh(h, eof())
	}}
	// ... and many units
	families["units"] = family{60, 600, func(id int, r *rand.Rand) *scenario {
		h := newHistory(r)
		h.kinds = []string{"tiny", "varchar", "long"}
		h.nextFile()
		n := 10 + r.Intn(30)
		if id%20 == 7 {
			n = 300
		}
		for i := n; i > 0; i-- {
			h.maybeJunk()
			switch r.Intn(6) {
			case 0:
				h.single()
			case 1:
				h.ignorable()
			case 2:
				if r.Intn(3) == 0 {
					h.nextFile()
				}
			default:
				h.transaction(r.Intn(4), 3)
			}
		}
		return fresh(h, eof())
	}}
	// C03: a new stream from every label
	families["resume"] = family{60, 900, func(id int, r *rand.Rand) *scenario {
		s := fresh(randomHistory(r, 4+r.Intn(4)), eof(), eof())
		s.probe, s.labels = true, 6
		return s
	}}
	// C04: failing attempts on one streamer, then one that succeeds
	families["faults"] = family{260, 4000, func(id int, r *rand.Rand) *scenario {
		h := randomHistory(r, 3+r.Intn(4))
		s := fresh(h)
		n := len(h.pk)
		refused := false
		for i := 1 + r.Intn(4); i > 0; i-- {
			a := badAttempt(h, r, n)
			if a.conn == "refuse" {
				refused = true
			}
			s.attempts = append(s.attempts, a)
			if refused {
				return s
			}
		}
		if r.Intn(6) == 0 { // nothing can make the library go past this
			h.unsupported()
		}
		s.attempts = append(s.attempts, eof())
		return s
	}}
	// C05, C06: every way to end, at every point
	families["endings"] = family{300, 5000, func(id int, r *rand.Rand) *scenario {
		h := randomHistory(r, 1+r.Intn(3))
		s := fresh(h)
		n := len(h.pk)
		a := eof()
		a.errMsg = oneOf(r, masterErrors)
		k := id
		switch {
		case k%3 == 0:
			a.conn = connFaults[k/3%len(connFaults)]
			if r.Intn(3) == 0 {
				a.cancel = oneOf(r, []string{"precall", "accept", "set"})
			}
		default:
			a.end = append([]string{"hang"}, allEnds...)[k/3%(1+len(allEnds))]
			a.limit = r.Intn(n + 2)
			if k%3 == 1 {
				a.cancel = cancels[r.Intn(len(cancels))]
				a.at = 1 + r.Intn(1+n/2)
				if a.cancel == "hcall" || a.cancel == "mcall" {
					a.at = 1 + r.Intn(2)
				}
			}
			a.slow = r.Intn(3)
		}
		s.preError = r.Intn(2) == 0
		s.attempts = append(s.attempts, a)
		if a.conn != "refuse" && r.Intn(2) == 0 {
			s.attempts = append(s.attempts, eof())
		}
		return s
	}}
	// C06: every way to end after every event of a small binlog, the reader near or far ahead
	families["reasons"] = family{360, 3600, func(id int, r *rand.Rand) *scenario {
		h := newHistory(r)
		h.kinds = []string{"tiny", "varchar"}
		h.crc = id % 2
		h.nextFile()
		h.transaction(1, 0)
		h.transaction(1, 2)
		h.single()
		s := fresh(h)
		a := eof()
		a.errMsg = oneOf(r, masterErrors)
		if r.Intn(3) == 0 {
			a.errMsg = string(randText(r, r.Intn(200)))
		}
		a.end = allEnds[id%len(allEnds)]
		a.limit = id / len(allEnds) % (len(h.pk) + 2)
		a.slow = r.Intn(2)
		switch r.Intn(6) {
		case 0:
			a.hfail = 1 + r.Intn(3)
		case 1:
			a.mfail, a.mkind = 1+r.Intn(2), oneOf(r, []string{"error", "less", "more"})
		case 2:
			a.cancel, a.at = oneOf(r, []string{"hcall", "send", "mcall"}), 1+r.Intn(4)
		}
		s.attempts = append(s.attempts, a)
		return s
	}}
	// ... and every call of the caller's code failing: every kind of commit, with every kind of error
	families["refusals"] = family{270, 3600, func(id int, r *rand.Rand) *scenario {
		h := newHistory(r)
		h.kinds = []string{"tiny", "varchar"}
		h.nextFile()
		units := []func(){
			func() { h.transaction(1, 0) },
			func() { h.transaction(1, 1) },
			func() { h.transaction(1, 2) },
			func() { h.query("db", h.stmt(ddl[r.Intn(len(ddl))])) },
			func() { h.query("db", h.stmt(dml[r.Intn(len(dml))])) },
		}
		for _, k := range []byte{evWriteV1, evUpdateV2, evDeleteV1, evWriteV2} {
			k := k
			units = append(units, func() {
				t := h.newTable(2)
				h.tableMap(t)
				e := t.rows(r, k, 1, false, 25)
				h.add(e.typ, e.body(h.cur().f))
			})
		}
		r.Shuffle(len(units), func(i, j int) { units[i], units[j] = units[j], units[i] })
		for _, u := range units {
			u()
		}
		s := fresh(h)
		a := eof()
		a.end = oneOf(r, []string{"eof", "eof", "hang", "close", "err", "reset"})
		a.errMsg = oneOf(r, masterErrors)
		a.slow = r.Intn(2)
		if id%4 != 3 {
			a.hfail = 1 + id%len(units)
			if r.Intn(4) == 0 {
				a.cancel, a.at = "hcall", a.hfail
			}
		} else {
			a.mfail, a.mkind = 1+id/4%7, oneOf(r, []string{"error", "error", "less", "more"})
			if r.Intn(4) == 0 {
				a.cancel, a.at = "mcall", a.mfail
			}
		}
		s.attempts = append(s.attempts, a)
		if r.Intn(2) == 0 {
			s.attempts = append(s.attempts, eof())
		}
		return s
	}}
	// C05: an endless supply of packets, slow handlers, everything at once
	families["storms"] = family{200, 3000, func(id int, r *rand.Rand) *scenario {
		h := randomHistory(r, 5+r.Intn(6))
		s := fresh(h)
		n := len(h.pk)
		for i := 1 + r.Intn(3); i > 0; i-- {
			a := badAttempt(h, r, n)
			if a.conn == "refuse" {
				a.conn = "noconn"
			}
			a.slow = 1
			if a.cancel == "" && r.Intn(2) == 0 {
				a.cancel, a.at = oneOf(r, []string{"send", "hcall", "send", "mcall"}), 1+r.Intn(1+n/3)
			}
			s.attempts = append(s.attempts, a)
		}
		s.attempts = append(s.attempts, eof())
		return s
	}}
	// C07: what is asked of the master
	families["requests"] = family{120, 1500, func(id int, r *rand.Rand) *scenario {
		h := newHistory(r)
		if id%2 == 0 {
			h.stems = oddStems
		}
		h.nextFile()
		h.random(3 + r.Intn(4))
		s := fresh(h)
		switch id % 4 {
		case 0:
			s.serverID = uint32(pick(r, 0, 1, 255, 256, 65535, 65536, 1<<31-1))
		case 1:
			s.serverID = 1<<32 - 1 - uint32(r.Intn(3))
		default:
			s.serverID = r.Uint32()
		}
		s.preError = r.Intn(4) == 0
		s.jumps = map[int]position{}
		for i := 0; i < 1+r.Intn(4); i++ {
			a := badAttempt(h, r, len(h.pk))
			if a.conn == "refuse" {
				a.conn = "seterr"
			}
			if r.Intn(3) == 0 {
				a = eof()
			}
			if i > 0 && r.Intn(2) == 0 {
				fl := h.files[r.Intn(len(h.files))]
				s.jumps[i] = position{fl.name, fl.base}
				if len(fl.events) > 0 && r.Intn(2) == 0 {
					s.jumps[i] = position{fl.name, fl.size}
				}
			}
			s.attempts = append(s.attempts, a)
		}
		if r.Intn(2) == 0 { // positions that are in no binlog: what is asked for is that position nonetheless
			s.strays = map[int]bool{}
			for i := 1 + r.Intn(3); i > 0; i-- {
				n := len(s.attempts)
				s.strays[n] = true
				off := uint64(pick(r, 0, 1, 2, 3, 4, 5, 255, 256, 65535, 65536, 1<<31-1, 1<<31, 1<<32-1))
				if r.Intn(3) == 0 {
					off = uint64(r.Uint32())
				}
				s.jumps[n] = position{oneOf(r, []string{"", "x", h.files[0].name, h.files[0].name + "x", " b.1", "b.1 ", "B.1", strings.Repeat("n", 300), strings.Repeat("m", 511)}), off}
				s.attempts = append(s.attempts, eof())
				if r.Intn(3) == 0 { // and again
					s.attempts = append(s.attempts, eof())
				}
			}
			s.jumps[len(s.attempts)] = position{s.file, s.off}
		}
		s.attempts = append(s.attempts, eof())
		return s
	}}
	// C08: what was delivered is read again, after the handler overwrote other values
	families["stable"] = family{120, 1800, func(id int, r *rand.Rand) *scenario {
		h := newHistory(r)
		switch id % 4 {
		case 0:
			h.kinds = []string{"timestamp", "timestamp2", "datetime2", "varchar", "year"}
		case 1: // the same few values all over
			h.kinds = pickKinds(r, 1+r.Intn(2))
			h.zeros = 2
		}
		h.nextFile()
		if id%5 == 0 {
			h.bulky()
		}
		h.random(4 + r.Intn(6))
		s := fresh(h)
		s.reread, s.scribble = true, id%2 == 0
		for i := r.Intn(3); i > 0; i-- {
			a := badAttempt(h, r, len(h.pk))
			if a.conn == "refuse" {
				a.conn = ""
			}
			s.attempts = append(s.attempts, a)
		}
		s.attempts = append(s.attempts, eof())
		return s
	}}
	// C17: packets that are not events, and events that do not hold what they promise
	families["garbage"] = family{300, 5000, func(id int, r *rand.Rand) *scenario {
		h := randomHistory(r, 2+r.Intn(3))
		s := fresh(h)
		n := len(h.pk)
		for i := 1 + r.Intn(2); i > 0; i-- {
			a := eof()
			a.limit = r.Intn(n + 1)
			a.tail, a.wild = h.junkTail(r)
			a.end = oneOf(r, []string{"eof", "close", "hang"})
			s.attempts = append(s.attempts, a)
		}
		s.attempts = append(s.attempts, eof())
		return s
	}}
	// ... at every index of a history, every event cut, extended or garbled, more events behind it
	families["cuts"] = family{400, 6000, func(id int, r *rand.Rand) *scenario {
		h := newHistory(r)
		h.kinds = []string{"tiny", "varchar", "long"}
		h.crc = id % 2
		h.nextFile()
		h.transaction(1, 0)
		h.transaction(1, 1)
		h.single()
		h.transaction(1, 2)
		n := len(h.pk)
		s := fresh(h)
		a := eof()
		at := id / 2 % n // 0: the first packet of the stream
		a.limit = at
		if at > 1 {
			a.limit++ // the made-up rotation in front is served too
		}
		var b []byte
		b = append(b, h.pk[at]...)
		switch r.Intn(4) {
		case 0:
			b = b[:r.Intn(len(b))]
		case 1:
			b = append(b, randBytes(r, 1+r.Intn(30))...)
		case 2:
			b = randBytes(r, r.Intn(120))
		default:
			b[9+r.Intn(4)] ^= 1 << uint(r.Intn(8))
		}
		a.tail = append([][]byte{b}, h.pk[at:]...)
		a.end = oneOf(r, []string{"eof", "close", "hang"})
		s.attempts = append(s.attempts, a, eof())
		return s
	}}
	// ... or cut with the length corrected: every kind of event, after transactions of the same attempt
	// C17: rows with a JSON document that is none
	families["documents"] = family{160, 2400, func(id int, r *rand.Rand) *scenario {
		h := newHistory(r)
		h.kinds = []string{"tiny", "varchar", "json"}
		h.nextFile()
		h.transaction(1, 0)
		t := h.newTable(1)
		t.cols = append(t.cols, col{t: rp.TypeJSON, m: 4, name: "doc"})
		if r.Intn(2) == 0 {
			t.cols = append(t.cols, col{t: rp.TypeTiny, name: "z"})
		}
		h.begin()
		h.tableMap(t)
		e := t.rows(r, h.rowsType(), 1+r.Intn(2), false, 10)
		d := &docGen{r: r}
		doc := d.value(1+r.Intn(3), 3).document(func() bool { return r.Intn(4) == 0 })
		cell := cat(le(uint64(len(doc)), 4), doc)
		e.rows[r.Intn(len(e.rows))][r.Intn(2)].cells[1] = cell
		at := h.add(e.typ, e.body(h.cur().f))
		h.finish(r.Intn(3))
		h.transaction(1, 0)
		s := fresh(h)
		a := eof()
		if j := at - 1; bytes.Contains(h.pk[j], cell) {
			b := append([]byte(nil), h.pk[j]...)
			copy(b[bytes.Index(b, cell)+4:], spoil(r, doc))
			a.limit = j + 1
			a.tail = append([][]byte{b}, h.pk[j:]...)
			a.end = oneOf(r, []string{"eof", "close", "hang"})
		}
		s.attempts = append(s.attempts, a, eof())
		return s
	}}
	families["undecodable"] = family{320, 4800, func(id int, r *rand.Rand) *scenario {
		kinds := []byte{evTableMap, evWriteV1, evUpdateV1, evDeleteV1, evWriteV2, evUpdateV2, evDeleteV2, evQuery, evRotate, evFormat}
		h := newHistory(r)
		h.kinds = []string{"tiny", "varchar", "long"}
		h.crc = id / len(kinds) % 2
		h.nextFile()
		base := len(h.files)
		h.transaction(1, 0)
		h.transaction(1, 2)
		t := h.newTable(2)
		h.begin()
		h.tableMap(t)
		for _, k := range kinds[1:7] {
			e := t.rows(r, k, 1+r.Intn(2), r.Intn(3) == 0, 25)
			h.add(e.typ, e.body(h.cur().f))
		}
		h.finish(0)
		h.single()
		first := h.files[base-1]
		h.rotate("next.000001", 4)
		h.transaction(1, 1)
		s := fresh(h)
		k := kinds[id%len(kinds)]
		var at []int
		for j, b := range h.pk {
			if b[4] == k && j > 2 {
				at = append(at, j)
			}
		}
		a := eof()
		a.limit = len(h.pk) + 1
		if k == evFormat && len(at) > 0 && r.Intn(2) == 0 { // a format nobody knows
			j := at[r.Intn(len(at))]
			a.limit = j
			b := append([]byte{}, h.pk[j]...)
			if r.Intn(3) > 0 {
				v := pick(r, 0, 1, 2, 3, 5, 260, 1024, 65535)
				b[19], b[20] = byte(v), byte(v>>8)
			} else {
				b[19+56] = byte(r.Intn(19))
			}
			a.tail = append(a.tail, b)
			if r.Intn(2) == 0 {
				a.tail = append(a.tail, h.pk[j+1+r.Intn(len(h.pk)-j-1):]...)
			}
		} else if len(at) > 0 {
			j := at[r.Intn(len(at))]
			a.limit = j + 1
			hl := first.f.hl
			b := h.pk[j]
			n := hl + r.Intn(len(b)-hl)
			if r.Intn(3) == 0 { // near the front
				n = hl + r.Intn(1+(len(b)-hl)/4)
			}
			a.tail = append([][]byte{relen(b[:n])}, h.pk[j:]...)
			if r.Intn(3) == 0 {
				a.tail = a.tail[:1]
			}
		}
		a.end = oneOf(r, []string{"eof", "close", "hang"})
		s.attempts = append(s.attempts, a, eof())
		return s
	}}
	// C01: many events in a transaction, many tables, many rows
	families["large"] = family{12, 120, func(id int, r *rand.Rand) *scenario {
		h := newHistory(r)
		h.kinds = []string{"tiny", "short", "varchar", "year"}
		h.junk = id%2 == 0
		h.nextFile()
		for i := 0; i < 2; i++ {
			h.begin()
			switch (id + i) % 3 {
			case 0: // many events
				for j := pick(r, 20, 40, 60, 80, 127, 260) + r.Intn(10); j > 0; j-- {
					h.change(pick(r, 0, 0, 2, 3))
				}
			case 1: // many tables
				var ts []*table
				for j := pick(r, 40, 64, 100, 128, 256, 300) + r.Intn(10); j > 0; j-- {
					t := h.newTable(1 + r.Intn(2))
					ts = append(ts, t)
					h.tableMap(t)
				}
				for j := 30; j > 0; j-- {
					h.rows(ts[r.Intn(len(ts))])
				}
			case 2: // many rows
				t := h.newTable(2)
				h.tableMap(t)
				for j := 0; j < 3; j++ {
					e := t.rows(r, h.rowsType(), pick(r, 100, 255, 256, 257, 400, 1100), r.Intn(3) == 0, 25)
					h.add(e.typ, e.body(h.cur().f))
				}
			}
			h.finish(r.Intn(3))
			h.commits++
			h.transaction(1, 0)
		}
		return fresh(h, eof())
	}}
	// C05, C08: two streamers side by side
	families["twins"] = family{80, 1200, func(id int, r *rand.Rand) *scenario {
		one := func() *scenario {
			h := randomHistory(r, 3+r.Intn(5))
			s := fresh(h)
			for i := r.Intn(3); i > 0; i-- {
				a := badAttempt(h, r, len(h.pk))
				if a.conn != "" || a.cancel == "accept" {
					a.conn, a.cancel = "", ""
				}
				s.attempts = append(s.attempts, a)
			}
			s.attempts = append(s.attempts, eof())
			s.reread, s.scribble = true, r.Intn(2) == 0
			s.serverID = 1 + r.Uint32()>>1
			return s
		}
		s := one()
		s.twin = one()
		return s
	}}
	// C09: row splitting: wide tables, partial images, NULL patterns
	families["images"] = family{100, 1500, func(id int, r *rand.Rand) *scenario {
		h := newHistory(r)
		h.junk = false
		if id%2 == 0 { // small cells, many columns
			h.kinds = []string{"tiny", "short", "int24", "year", "bit", "enum", "varchar", "char", "date", "decimal"}
		}
		h.nextFile()
		t := h.newTable(pick(r, 1, 2, 7, 8, 9, 15, 16, 17, 31, 33))
		h.begin()
		h.tableMap(t)
		for i := 0; i < 4; i++ {
			e := t.rows(r, h.rowsType(), r.Intn(4), r.Intn(4) != 0, pick(r, 0, 20, 50, 90, 100))
			h.add(e.typ, e.body(h.cur().f))
		}
		h.finish(0)
		h.commits++
		return fresh(h, eof())
	}}
	families["numbers"] = kindsFamily(60, 900, "tiny", "short", "int24", "long", "longlong", "float", "double", "year", "bit", "enum", "set")
	families["decimals"] = kindsFamily(40, 600, "decimal")
	families["temporals"] = kindsFamily(60, 900, "date", "newdate", "time", "datetime", "timestamp", "time2", "datetime2", "timestamp2")
	families["strings"] = kindsFamily(60, 900, "char", "varchar", "varstring", "blob", "geometry")
	families["jsons"] = kindsFamily(40, 600, "json", "varchar")
	// C15: ids re-announced, tables that change, mappers that disagree
	families["maps"] = family{120, 1800, func(id int, r *rand.Rand) *scenario {
		h := newHistory(r)
		h.grows = r.Intn(2) == 0
		h.nextFile()
		for i := 0; i < 2+r.Intn(2); i++ {
			n := 1 + r.Intn(6)
			if r.Intn(40) == 0 {
				n = pick(r, 250, 251, 252, 300)
				h.kinds = []string{"tiny", "varchar", "short"}
			}
			h.newTable(n)
		}
		for i := 3 + r.Intn(4); i > 0; i-- {
			h.transaction(1+r.Intn(3), 3)
			h.reannounce()
			if r.Intn(2) == 0 { // tables that change within a transaction
				h.begin()
				for j := 2 + r.Intn(4); j > 0; j-- {
					h.change(pick(r, 0, 1))
					if r.Intn(2) == 0 {
						h.reannounce()
					}
				}
				h.finish(0)
			}
			if r.Intn(3) == 0 { // one table under two ids, many at once
				h.begin()
				ts := []*table{h.someTable(), h.someTable(), h.someTable()}
				two := *ts[0]
				two.id = h.nextID
				h.nextID++
				ts = append(ts, &two)
				ids := map[uint64]*table{}
				for _, t := range ts {
					h.tableMap(t)
					ids[t.id] = t
				}
				for j := 1 + r.Intn(6); j > 0; j-- {
					h.rows(ids[ts[r.Intn(len(ts))].id])
				}
				h.finish(0)
			}
			if r.Intn(4) == 0 {
				h.nextFile()
			}
		}
		s := fresh(h)
		if r.Intn(2) == 0 {
			a := eof()
			a.mfail, a.mkind = 1+r.Intn(5), oneOf(r, []string{"error", "less", "more"})
			s.attempts = append(s.attempts, a)
		}
		s.attempts = append(s.attempts, eof())
		return s
	}}
	// C16: statements with all kinds of status variables, rotations, format changes
	families["control"] = family{80, 1200, func(id int, r *rand.Rand) *scenario {
		h := newHistory(r)
		h.nextFile()
		for i := 4 + r.Intn(4); i > 0; i-- {
			switch r.Intn(5) {
			case 0:
				h.nextFile()
			case 1:
				h.transaction(r.Intn(2), r.Intn(3))
			case 2:
				h.query(strings.Repeat("d", r.Intn(255)), h.stmt(ddl[r.Intn(len(ddl))]))
				h.commits++
			default:
				h.query(randName(r, 3), h.stmt(append(ddl, dml...)[r.Intn(len(ddl)+len(dml))]))
				h.commits++
			}
			h.maybeJunk()
		}
		return fresh(h, eof())
	}}
}
