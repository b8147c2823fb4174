package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	rp "github.com/Breeze0806/gobinlog/replication"
)

const (
	flavor56    = "MySQL56"
	flavorMaria = "MariaDB"
)

type gtidGen struct {
	w     *writer
	r     *rand.Rand
	deep  bool
	count map[string]int
	tag   string
}

func (g *gtidGen) put(rec Rec) {
	rec["tag"] = g.tag
	g.w.put(rec)
	g.count[g.tag]++
}

// ids is a canonical set: of one server, the intervals of its numbers.
type serverIds struct {
	sid rp.SID
	iv  [][2]uint64
}
type idSet []serverIds

func (s idSet) rec() []Rec {
	out := []Rec{}
	for _, x := range s {
		iv := [][][]int{}
		for _, i := range x.iv {
			iv = append(iv, [][]int{B(le(i[0], 8)), B(le(i[1], 8))})
		}
		out = append(out, Rec{"sid": B(x.sid[:]), "iv": iv})
	}
	return out
}

func (s idSet) block() []byte {
	b := le(uint64(len(s)), 8)
	for _, x := range s {
		b = append(b, x.sid[:]...)
		b = append(b, le(uint64(len(x.iv)), 8)...)
		for _, i := range x.iv {
			b = append(b, le(i[0], 8)...)
			b = append(b, le(i[1]+1, 8)...)
		}
	}
	return b
}

func sidText(s rp.SID) string {
	return fmt.Sprintf("%x-%x-%x-%x-%x", s[:4], s[4:6], s[6:8], s[8:10], s[10:])
}

// text is the canonical text; MySQL puts a newline behind the commas.
func (s idSet) text(sep string) string {
	var parts []string
	for _, x := range s {
		p := sidText(x.sid)
		for _, i := range x.iv {
			p += ":" + strconv.FormatUint(i[0], 10)
			if i[1] != i[0] {
				p += "-" + strconv.FormatUint(i[1], 10)
			}
		}
		parts = append(parts, p)
	}
	return strings.Join(parts, sep)
}

func (s idSet) size() uint64 {
	n := uint64(0)
	for _, x := range s {
		for _, i := range x.iv {
			d := i[1] - i[0]
			if d > 1000 || n > 1000 {
				return 1 << 20
			}
			n += d + 1
		}
	}
	return n
}

// routes are the ways to make a set.
func (g *gtidGen) routes(s idSet) []func() (rp.GTIDSet, error) {
	b := s.block()
	out := []func() (rp.GTIDSet, error){
		func() (rp.GTIDSet, error) { return rp.NewMysql56GTIDSetFromSIDBlock(append([]byte(nil), b...)) },
		func() (rp.GTIDSet, error) {
			f := newFormat(0, false, 40)
			e := f.event(randHdr(g.r), evPrevGtids, b)
			return rp.NewMysql56BinlogEvent(e).PreviousGTIDs(f.plain())
		},
	}
	if haveSetParser {
		for _, sep := range []string{",", ",\n", ", "} {
			t := s.text(sep)
			out = append(out, func() (rp.GTIDSet, error) { return parseSet(flavor56, t) })
		}
	}
	if s.size() <= 64 {
		out = append(out, func() (rp.GTIDSet, error) {
			var all []rp.Mysql56GTID
			for _, x := range s {
				for _, i := range x.iv {
					for n := i[0]; n <= i[1]; n++ {
						all = append(all, rp.Mysql56GTID{Server: x.sid, Sequence: int64(n)})
					}
				}
			}
			g.r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
			var set rp.GTIDSet = rp.Mysql56GTIDSet{}
			for k, id := range all {
				if k == 0 && g.r.Intn(2) == 0 {
					set = id.GTIDSet()
				} else {
					set = set.AddGTID(id)
				}
			}
			return set, nil
		})
	}
	return out
}

func randSid(r *rand.Rand) (s rp.SID) {
	r.Read(s[:])
	switch r.Intn(8) {
	case 0:
		s = rp.SID{}
		s[r.Intn(16)] = byte(r.Intn(256))
	case 1:
		for i := range s {
			s[i] = 255
		}
		s[r.Intn(16)] = byte(r.Intn(256))
	}
	return s
}

// nearSids are distinct, many of them differing late or in the sign of a byte.
func nearSids(r *rand.Rand, n int) []rp.SID {
	base := randSid(r)
	seen := map[rp.SID]bool{}
	var out []rp.SID
	for len(out) < n {
		s := base
		switch r.Intn(4) {
		case 0:
			s[r.Intn(16)] = byte(r.Intn(256))
		case 1:
			s[15]++
		case 2:
			s[r.Intn(16)] ^= 0x80
		default:
			s = randSid(r)
		}
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
		base = s
	}
	return out
}

func guarded(rec Rec, f func()) {
	p := timed(f)
	rec["ok"] = p == "" && rec["bad"] == nil
	if p != "" {
		rec["why"] = S(p)
	}
}

// ---- windows ----

func (g *gtidGen) windowSet(us []rp.SID, w int, base uint64, m int) idSet {
	var out idSet
	for u, sid := range us {
		x := serverIds{sid: sid}
		for k := 0; k < w; k++ {
			if m>>uint(u*w+k)&1 == 0 {
				continue
			}
			n := base + uint64(k) + 1
			if l := len(x.iv); l > 0 && x.iv[l-1][1]+1 == n {
				x.iv[l-1][1] = n
			} else {
				x.iv = append(x.iv, [2]uint64{n, n})
			}
		}
		if x.iv != nil {
			out = append(out, x)
		}
	}
	sort.Slice(out, func(i, j int) bool { return bytes.Compare(out[i].sid[:], out[j].sid[:]) < 0 })
	return out
}

// window records set number m against the others.
func (g *gtidGen) window(us []rp.SID, w int, base uint64, m int, others []int, made map[int]rp.GTIDSet) {
	s := g.windowSet(us, w, base, m)
	rec := Rec{"kind": "window", "w": w, "base": base, "m": m, "others": others}
	uu := [][]int{}
	for _, sid := range us {
		uu = append(uu, B(sid[:]))
	}
	rec["us"] = uu
	get := func(m int) rp.GTIDSet {
		if x, ok := made[m]; ok {
			return x
		}
		rs := g.routes(g.windowSet(us, w, base, m))
		x, err := rs[g.r.Intn(len(rs))]()
		if err != nil {
			panic(err)
		}
		made[m] = x
		return x
	}
	guarded(rec, func() {
		texts, same := [][]int{}, []bool{}
		var sets []rp.GTIDSet
		for _, f := range g.routes(s) {
			x, err := f()
			if err != nil {
				panic(err)
			}
			texts = append(texts, S(x.String()))
			for _, y := range sets {
				same = append(same, x.Equal(y) && y.Equal(x) && x.Contains(y) && y.Contains(x))
			}
			sets = append(sets, x)
		}
		a := sets[g.r.Intn(len(sets))]
		sids := [][]int{}
		for _, sid := range a.(rp.Mysql56GTIDSet).SIDs() {
			sids = append(sids, B(sid[:]))
		}
		contains, equal := []bool{}, []bool{}
		for _, o := range others {
			b := get(o)
			contains = append(contains, a.Contains(b))
			equal = append(equal, a.Equal(b))
		}
		has, grown, add := [][]bool{}, [][]bool{}, [][][]int{}
		for _, sid := range us {
			h, gr, ad := []bool{}, []bool{}, [][]int{}
			for n := base; n <= base+uint64(w)+1; n++ {
				id := rp.Mysql56GTID{Server: sid, Sequence: int64(n)}
				in := a.ContainsGTID(id)
				b := a.AddGTID(id)
				h = append(h, in)
				ad = append(ad, S(b.String()))
				gr = append(gr, b.Contains(a) && b.ContainsGTID(id) && b.Contains(id.GTIDSet()) && b.Equal(a) == in && a.Contains(b) == in)
			}
			has, grown, add = append(has, h), append(grown, gr), append(add, ad)
		}
		rec["text"], rec["same"], rec["sids"], rec["contains"], rec["equal"] = texts, same, sids, contains, equal
		rec["has"], rec["grown"], rec["add"] = has, grown, add
		rec["foreign"] = a.ContainsGTID(rp.MariadbGTID{Domain: 1, Server: 1, Sequence: base + 1}) || a.Contains(rp.MariadbGTIDSet{{Domain: 1, Server: 1, Sequence: 1}}) ||
			a.Equal(rp.MariadbGTIDSet{{Domain: 1, Server: 1, Sequence: 1}})
		rec["after"] = S(a.String())
	})
	g.put(rec)
}

func (g *gtidGen) windows() {
	r := g.r
	all := func(n int) []int {
		out := make([]int, 1<<uint(n))
		for i := range out {
			out[i] = i
		}
		return out
	}
	// every pair
	for _, shape := range [][2]int{{1, 8}, {2, 4}, {4, 2}, {3, 2}, {1, 1}, {1, 5}} {
		us, w := nearSids(r, shape[0]), shape[1]
		g.tag = fmt.Sprintf("every pair over %d servers, window %d", shape[0], w)
		base := uint64(pick(r, 0, 0, 1, 8, 9, 98, 99, 254, 65534, 1<<24-3, r.Intn(1<<30)))
		if shape[0] == 1 && w == 8 {
			base = 0
		}
		made := map[int]rp.GTIDSet{}
		for _, m := range all(shape[0] * w) {
			g.window(us, w, base, m, all(shape[0]*w), made)
		}
	}
	// sets of larger windows, some of the pairs: with those that differ in one id or one server, and random ones
	n := 150
	if g.deep {
		n = 2500
	}
	for _, shape := range [][2]int{{2, 8}, {3, 8}, {4, 5}, {4, 7}, {1, 25}} {
		w := shape[1]
		g.tag = fmt.Sprintf("over %d servers, window %d", shape[0], w)
		for k := 0; k < n; k++ {
			us := nearSids(r, shape[0])
			bits := shape[0] * w
			m := r.Intn(1 << uint(bits))
			if r.Intn(3) == 0 {
				m |= r.Intn(1<<uint(bits)) | r.Intn(1<<uint(bits))
			}
			others := []int{m, 0}
			for b := 0; b < bits; b++ {
				others = append(others, m^1<<uint(b))
			}
			for u := 0; u < shape[0]; u++ {
				mask := (1<<uint(w) - 1) << uint(u*w)
				others = append(others, m&^mask, m&mask, m|mask)
			}
			for i := 0; i < 30; i++ {
				x := r.Intn(1 << uint(bits))
				others = append(others, x, m&x, m|x)
			}
			g.window(us, w, uint64(pick(r, 0, 0, 1, 5, 97, r.Intn(1<<30))), m, others, map[int]rp.GTIDSet{})
		}
	}
}

// ---- growth ----

const maxNum = 1<<63 - 1

func (g *gtidGen) number(style int) uint64 {
	r := g.r
	switch style {
	case 0:
		return uint64(1 + r.Intn(8))
	case 1:
		return uint64(1 + r.Intn(30))
	case 2:
		return maxNum - uint64(r.Intn(8))
	case 3:
		e := uint(r.Intn(63))
		v := uint64(1)<<e + uint64(r.Intn(5)) - 2
		if v == 0 || v > maxNum {
			v = 1
		}
		return v
	default:
		return 1 + uint64(r.Int63n(maxNum))>>uint(r.Intn(60))
	}
}

func (g *gtidGen) randSet(us []rp.SID, style, most int) idSet {
	r := g.r
	var out idSet
	for _, sid := range us {
		if r.Intn(3) == 0 {
			continue
		}
		var nums []uint64
		for k := r.Intn(2 * most); k >= 0; k-- {
			nums = append(nums, g.number(style))
		}
		sort.Slice(nums, func(i, j int) bool { return nums[i] < nums[j] })
		x := serverIds{sid: sid}
		for k := 0; k < len(nums); k++ {
			lo, hi := nums[k], nums[k]
			if r.Intn(2) == 0 && k+1 < len(nums) {
				k++
				hi = nums[k]
			}
			if l := len(x.iv); l > 0 && lo <= x.iv[l-1][1]+1 {
				if hi > x.iv[l-1][1] {
					x.iv[l-1][1] = hi
				}
			} else {
				x.iv = append(x.iv, [2]uint64{lo, hi})
			}
		}
		out = append(out, x)
	}
	sort.Slice(out, func(i, j int) bool { return bytes.Compare(out[i].sid[:], out[j].sid[:]) < 0 })
	return out
}

// grow records a family of sets, each made from scratch or from an earlier one.
func (g *gtidGen) grow() {
	r := g.r
	style := r.Intn(5)
	us := nearSids(r, 1+r.Intn(4))
	var sets []rp.GTIDSet
	var recs []Rec
	var near []rp.Mysql56GTID // what is next to what is there
	note := func(s idSet) {
		for _, x := range s {
			for _, i := range x.iv {
				for _, n := range []uint64{i[0] - 1, i[0], i[1], i[1] + 1, i[0] + (i[1]-i[0])/2} {
					if n >= 1 && n <= maxNum {
						near = append(near, rp.Mysql56GTID{Server: x.sid, Sequence: int64(n)})
					}
				}
			}
		}
	}
	rec := Rec{"kind": "grow"}
	newId := func() rp.Mysql56GTID {
		if len(near) > 0 && r.Intn(2) == 0 {
			return near[r.Intn(len(near))]
		}
		return rp.Mysql56GTID{Server: us[r.Intn(len(us))], Sequence: int64(g.number(style))}
	}
	guarded(rec, func() {
		scratch := func() {
			s := g.randSet(us, style, 1+r.Intn(5))
			if len(recs) == 0 && r.Intn(4) == 0 {
				s = nil
			}
			rs := g.routes(s)
			x, err := rs[r.Intn(len(rs))]()
			if err != nil {
				panic(err)
			}
			note(s)
			sets = append(sets, x)
			recs = append(recs, Rec{"from": 0, "init": s.rec(), "sid": []int{}, "n": []int{}, "text": S(x.String())})
		}
		scratch()
		last := 0
		for k := 0; k < 12; k++ {
			if r.Intn(12) == 0 {
				scratch()
			}
			j := last
			if r.Intn(3) == 0 { // another child of an older set
				j = r.Intn(len(sets))
			}
			id := newId()
			x := sets[j].AddGTID(id)
			sets = append(sets, x)
			recs = append(recs, Rec{"from": j + 1, "init": []Rec{}, "sid": B(id.Server[:]), "n": B(le(uint64(id.Sequence), 8)), "text": S(x.String())})
			last = len(sets) - 1
			n := uint64(id.Sequence)
			note(idSet{{sid: id.Server, iv: [][2]uint64{{n, n}}}})
		}
		probes := []Rec{}
		var ids []rp.Mysql56GTID
		for k := 0; k < 12; k++ {
			id := newId()
			if r.Intn(8) == 0 {
				id.Server = randSid(r)
			}
			ids = append(ids, id)
			probes = append(probes, Rec{"sid": B(id.Server[:]), "n": B(le(uint64(id.Sequence), 8))})
		}
		var contains, equal, has [][]bool
		for k, x := range sets {
			var c, e, h []bool
			for _, y := range sets {
				c, e = append(c, x.Contains(y)), append(e, x.Equal(y))
			}
			for _, id := range ids {
				h = append(h, x.ContainsGTID(id))
			}
			contains, equal, has = append(contains, c), append(equal, e), append(has, h)
			recs[k]["block"] = B(x.(rp.Mysql56GTIDSet).SIDBlock())
		}
		for k, x := range sets {
			recs[k]["final"] = S(x.String())
		}
		rec["sets"], rec["probes"], rec["contains"], rec["equal"], rec["has"] = recs, probes, contains, equal, has
	})
	if rec["ok"] == false {
		rec["sets"], rec["probes"] = []Rec{}, []Rec{}
	}
	g.put(rec)
}

func (g *gtidGen) growth() {
	n := 700
	if g.deep {
		n = 12000
	}
	g.tag = "additions"
	for k := 0; k < n; k++ {
		g.grow()
	}
}

// ---- encodings ----

func (g *gtidGen) id(sid rp.SID, n uint64) {
	id := rp.Mysql56GTID{Server: sid, Sequence: int64(n)}
	rec := Rec{"kind": "id", "sid": B(sid[:]), "n": B(le(n, 8))}
	guarded(rec, func() {
		back := []Rec{}
		took := func(x rp.GTID, err error) {
			if err != nil {
				panic(err)
			}
			y := x.(rp.Mysql56GTID)
			back = append(back, Rec{"same": x == rp.GTID(id) && x.Flavor() == id.Flavor(), "sid": B(y.Server[:]), "n": B(le(uint64(y.Sequence), 8))})
		}
		took(rp.ParseGTID(flavor56, id.String()))
		took(rp.ParseGTID(id.Flavor(), id.String()))
		took(rp.DecodeGTID(rp.EncodeGTID(id)))
		took(rp.MustParseGTID(flavor56, id.String()), nil)
		took(rp.MustDecodeGTID(rp.EncodeGTID(id)), nil)
		s, err := rp.ParseSID(sid.String())
		took(rp.Mysql56GTID{Server: s, Sequence: int64(n)}, err)
		server := id.SourceServer().(rp.SID)
		rec["text"], rec["back"], rec["server"], rec["seq"], rec["set"] = S(id.String()), back, B(server[:]), B(le(uint64(id.SequenceNumber().(int64)), 8)),
			S(id.GTIDSet().String())
	})
	g.put(rec)
}

func (g *gtidGen) set(s idSet) {
	rec := Rec{"kind": "set", "init": s.rec()}
	guarded(rec, func() {
		x0, err := rp.NewMysql56GTIDSetFromSIDBlock(s.block())
		if err != nil {
			panic(err)
		}
		var x rp.GTIDSet = x0
		back := []Rec{}
		took := func(y rp.GTIDSet, err error) {
			if err != nil {
				panic(err)
			}
			back = append(back, Rec{"same": x.Equal(y) && y.Equal(x), "text": S(y.String()), "block": B(y.(rp.Mysql56GTIDSet).SIDBlock())})
		}
		took(rp.NewMysql56GTIDSetFromSIDBlock(x0.SIDBlock()))
		if haveSetParser {
			took(parseSet(flavor56, x.String()))
			took(parseSet(x.Flavor(), x.String()))
		}
		for _, f := range g.routes(s) {
			took(f())
		}
		rec["text"], rec["block"], rec["back"] = S(x.String()), B(x0.SIDBlock()), back
	})
	g.put(rec)
}

func mariaRec(m rp.MariadbGTID) Rec {
	return Rec{"d": B(le(uint64(m.Domain), 4)), "s": B(le(uint64(m.Server), 4)), "n": B(le(m.Sequence, 8))}
}

func mariaSet(s rp.GTIDSet) []Rec {
	out := []Rec{}
	for _, m := range s.(rp.MariadbGTIDSet) {
		out = append(out, mariaRec(m))
	}
	return out
}

func u32(r *rand.Rand) uint32 {
	switch r.Intn(4) {
	case 0:
		return uint32(r.Intn(4))
	case 1:
		return ^uint32(0) - uint32(r.Intn(4))
	case 2:
		return uint32(1)<<uint(r.Intn(32)) + uint32(r.Intn(3)) - 1
	}
	return r.Uint32()
}

func (g *gtidGen) idMaria(m rp.MariadbGTID) {
	rec := Rec{"kind": "idMaria", "id": mariaRec(m)}
	guarded(rec, func() {
		back := []Rec{}
		took := func(x rp.GTID, err error) {
			if err != nil {
				panic(err)
			}
			back = append(back, Rec{"same": x == rp.GTID(m) && x.Flavor() == m.Flavor(), "id": mariaRec(x.(rp.MariadbGTID))})
		}
		took(rp.ParseGTID(flavorMaria, m.String()))
		took(rp.ParseGTID(m.Flavor(), m.String()))
		took(rp.DecodeGTID(rp.EncodeGTID(m)))
		took(rp.MustParseGTID(flavorMaria, m.String()), nil)
		took(rp.MustDecodeGTID(rp.EncodeGTID(m)), nil)
		rec["text"], rec["back"] = S(m.String()), back
		rec["domain"], rec["server"] = B(le(uint64(m.SequenceDomain().(uint32)), 4)), B(le(uint64(m.SourceServer().(uint32)), 4))
		rec["seq"] = B(le(m.SequenceNumber().(uint64), 8))
		rec["set"] = mariaSet(m.GTIDSet())
	})
	g.put(rec)
}

// mariaNumber: MariaDB's numbers take all of the 64 bits.
func (g *gtidGen) mariaNumber(style int) uint64 {
	if g.r.Intn(6) == 0 {
		return uint64(pick(g.r, 1<<63-2, 1<<63-1)) + uint64(g.r.Intn(9))<<uint(pick(g.r, 0, 0, 20, 59))
	}
	return g.number(style)
}

// mariaList: the positions of a set, of distinct domains.
func (g *gtidGen) mariaList(doms []uint32, most int) rp.MariadbGTIDSet {
	r := g.r
	n := 1 + r.Intn(most)
	out := make(rp.MariadbGTIDSet, 0, n+r.Intn(3)) // perhaps with room behind it
	used := map[uint32]bool{}
	for len(out) < n {
		d := doms[r.Intn(len(doms))]
		if used[d] {
			if len(used) == len(doms) {
				break
			}
			continue
		}
		used[d] = true
		out = append(out, rp.MariadbGTID{Domain: d, Server: u32(r), Sequence: g.mariaNumber(r.Intn(5))})
	}
	return out
}

func (g *gtidGen) domains(n int) []uint32 {
	seen := map[uint32]bool{}
	var out []uint32
	for len(out) < n {
		d := u32(g.r)
		if !seen[d] {
			seen[d] = true
			out = append(out, d)
		}
	}
	return out
}

func (g *gtidGen) setMaria(x rp.MariadbGTIDSet) {
	rec := Rec{"kind": "setMaria", "init": mariaSet(x)}
	guarded(rec, func() {
		back := []Rec{}
		if haveSetParser {
			for _, fl := range []string{flavorMaria, x.Flavor()} {
				y, err := parseSet(fl, x.String())
				if err != nil {
					panic(err)
				}
				back = append(back, Rec{"same": x.Equal(y) && y.Equal(x) && x.Contains(y) && y.Contains(x), "set": mariaSet(y)})
			}
		}
		rec["text"], rec["back"] = S(x.String()), back
	})
	g.put(rec)
}

func (g *gtidGen) twiceMaria(x rp.MariadbGTIDSet) {
	rec := Rec{"kind": "twiceMaria", "init": mariaSet(x)}
	guarded(rec, func() {
		y, err := parseSet(flavorMaria, x.String())
		rec["rejected"], rec["out"] = err != nil, []Rec{}
		if err == nil {
			rec["out"] = mariaSet(y)
		}
	})
	g.put(rec)
}

func (g *gtidGen) growMaria() {
	r := g.r
	doms := g.domains(1 + r.Intn(6))
	style := r.Intn(5)
	rec := Rec{"kind": "growMaria"}
	var sets []rp.GTIDSet
	var recs []Rec
	newId := func() rp.MariadbGTID {
		m := rp.MariadbGTID{Domain: doms[r.Intn(len(doms))], Server: u32(r), Sequence: g.mariaNumber(style)}
		if len(sets) > 0 && r.Intn(2) == 0 { // close to what is there
			if s := sets[r.Intn(len(sets))].(rp.MariadbGTIDSet); len(s) > 0 {
				p := s[r.Intn(len(s))]
				m.Domain, m.Sequence = p.Domain, p.Sequence+uint64(r.Intn(3))-1
				if r.Intn(2) == 0 {
					m.Server = p.Server
				}
				if m.Sequence == 0 {
					m.Sequence = p.Sequence
				}
			}
		}
		return m
	}
	guarded(rec, func() {
		scratch := func() {
			init := g.mariaList(doms, 4)
			var x rp.GTIDSet = init
			switch r.Intn(4) {
			case 0:
				if haveSetParser {
					var err error
					if x, err = parseSet(flavorMaria, init.String()); err != nil {
						panic(err)
					}
				}
			case 1:
				init = init[:1]
				x = init[0].GTIDSet()
			}
			sets = append(sets, x)
			recs = append(recs, Rec{"from": 0, "init": mariaSet(init), "add": Rec{}, "out": mariaSet(x)})
		}
		scratch()
		last := 0
		for k := 0; k < 12; k++ {
			if r.Intn(12) == 0 {
				scratch()
			}
			j := last
			if r.Intn(3) == 0 {
				j = r.Intn(len(sets))
			}
			id := newId()
			x := sets[j].AddGTID(id)
			sets = append(sets, x)
			recs = append(recs, Rec{"from": j + 1, "init": []Rec{}, "add": mariaRec(id), "out": mariaSet(x)})
			last = len(sets) - 1
		}
		probes := []Rec{}
		var ids []rp.MariadbGTID
		for k := 0; k < 12; k++ {
			id := newId()
			if r.Intn(8) == 0 {
				id.Domain = u32(r)
			}
			ids = append(ids, id)
			probes = append(probes, mariaRec(id))
		}
		var contains, equal, has [][]bool
		for _, x := range sets {
			var c, e, h []bool
			for _, y := range sets {
				c, e = append(c, x.Contains(y)), append(e, x.Equal(y))
			}
			for _, id := range ids {
				h = append(h, x.ContainsGTID(id))
			}
			contains, equal, has = append(contains, c), append(equal, e), append(has, h)
		}
		for k, x := range sets {
			recs[k]["final"], recs[k]["finalText"] = mariaSet(x), S(x.String())
		}
		rec["sets"], rec["probes"], rec["contains"], rec["equal"], rec["has"] = recs, probes, contains, equal, has
	})
	if rec["ok"] == false {
		rec["sets"], rec["probes"] = []Rec{}, []Rec{}
	}
	g.put(rec)
}

// event records what a GTID event decodes to, from the wire.
func (g *gtidGen) event(kind string, alg byte) {
	r := g.r
	maria := kind == "eventMaria"
	f := randFormat(r, alg, r.Intn(2) == 0)
	fd := f.fde(r)
	var e []byte
	h := randHdr(r)
	switch kind {
	case "event":
		sid := randSid(r)
		e = f.event(h, evGtid, cat([]byte{byte(r.Intn(256))}, sid[:], le(g.number(r.Intn(5)), 8), randBytes(r, pick(r, 0, 17, 24, 42, r.Intn(60)))))
	case "previous":
		e = f.event(h, evPrevGtids, g.randSet(nearSids(r, r.Intn(9)), r.Intn(5), 1+r.Intn(6)).block())
	default:
		e = f.event(h, evMariaGtid, cat(le(g.number(r.Intn(5)), 8), le(uint64(u32(r)), 4), []byte{byte(r.Intn(256))}, randBytes(r, pick(r, 0, 6, 8, r.Intn(30)))))
	}
	rec := Rec{"kind": kind, "alg": int(alg), "fd": B(fd), "e": B(e)}
	keep := append([]byte(nil), e...)
	e = e[:len(e):len(e)]
	guarded(rec, func() {
		bf, err := newEvent(append([]byte(nil), fd...), maria).Format()
		if err != nil {
			panic(err)
		}
		ev, _, err := newEvent(e, maria).StripChecksum(bf)
		if err != nil {
			panic(err)
		}
		if kind == "previous" {
			rec["is"] = ev.IsPreviousGTIDs() && !ev.IsGTID()
			s, err := ev.PreviousGTIDs(bf)
			if err != nil {
				panic(err)
			}
			x := s.(rp.Mysql56GTIDSet)
			rec["text"], rec["block"] = S(s.String()), B(x.SIDBlock())
			y, err := rp.NewMysql56GTIDSetFromSIDBlock(ev.Bytes()[bf.HeaderLength:])
			rec["has"] = err == nil && s.Equal(y) && s.Contains(y) && y.Contains(s)
			return
		}
		rec["is"] = ev.IsGTID() && !ev.IsPreviousGTIDs()
		id, begin, err := ev.GTID(bf)
		if err != nil {
			panic(err)
		}
		rec["begin"] = begin
		if maria {
			rec["id"] = mariaRec(id.(rp.MariadbGTID))
		} else {
			x := id.(rp.Mysql56GTID)
			rec["sid"], rec["n"], rec["text"] = B(x.Server[:]), B(le(uint64(x.Sequence), 8)), S(id.String())
		}
	})
	rec["intact"] = bytes.Equal(keep, e)
	g.put(rec)
}

func (g *gtidGen) codes() {
	r := g.r
	n := 600
	if g.deep {
		n = 10000
	}
	g.tag = "MySQL ids"
	for b := 0; b < 16; b++ { // every byte of the server id
		for v := 0; v < 256; v++ {
			if g.deep || v < 18 || v > 247 || v&15 == 0 || v >= 0x7e && v <= 0x82 || (v+b)%23 == 0 {
				s := randSid(r)
				s[b] = byte(v)
				g.id(s, g.number(r.Intn(5)))
			}
		}
	}
	for e := uint(0); e < 63; e++ {
		for _, d := range []int64{-1, 0, 1} {
			if v := uint64(int64(1)<<e + d); v >= 1 {
				g.id(randSid(r), v)
			}
		}
	}
	g.id(randSid(r), maxNum)
	for k := 0; k < n; k++ {
		g.id(randSid(r), g.number(r.Intn(5)))
	}
	g.tag = "MySQL sets"
	g.set(nil)
	for k := 0; k < n; k++ {
		g.set(g.randSet(nearSids(r, r.Intn(9)), r.Intn(5), 1+r.Intn(8)))
	}
	g.tag = "MariaDB ids"
	for e := uint(0); e < 64; e++ {
		for _, d := range []int64{-1, 0, 1} {
			g.idMaria(rp.MariadbGTID{Domain: u32(r), Server: u32(r), Sequence: uint64(1)<<e + uint64(d)})
			v := uint32(1)<<(e/2) + uint32(d)
			g.idMaria(rp.MariadbGTID{Domain: v, Server: u32(r), Sequence: g.number(4)})
			g.idMaria(rp.MariadbGTID{Domain: u32(r), Server: v, Sequence: g.number(4)})
		}
	}
	for k := 0; k < n; k++ {
		g.idMaria(rp.MariadbGTID{Domain: u32(r), Server: u32(r), Sequence: g.number(r.Intn(5))})
	}
	g.tag = "MariaDB sets"
	for k := 0; k < n; k++ {
		g.setMaria(g.mariaList(g.domains(10), 8))
	}
	if haveSetParser {
		for k := 0; k < n/6; k++ {
			x := g.mariaList(g.domains(10), 7)
			d := rp.MariadbGTID{Domain: x[r.Intn(len(x))].Domain, Server: u32(r), Sequence: g.number(r.Intn(5))}
			at := r.Intn(len(x) + 1)
			x = append(x[:at:at], append(rp.MariadbGTIDSet{d}, x[at:]...)...)
			g.twiceMaria(x)
		}
	}
	g.tag = "MariaDB additions"
	for k := 0; k < n; k++ {
		g.growMaria()
	}
	g.tag = "events"
	for k := 0; k < n; k++ {
		for _, kind := range []string{"event", "previous", "eventMaria"} {
			g.event(kind, algs[k%3])
		}
	}
}

func cmdGtids(which, out string, seed int64, deep bool) {
	g := &gtidGen{w: newWriter(out), r: rand.New(rand.NewSource(seed)), deep: deep, count: map[string]int{}}
	switch which {
	case "windows":
		g.windows()
	case "growth":
		g.growth()
	case "codes":
		g.codes()
	default:
		fatal("gtids: ", which)
	}
	g.w.close()
	summary(g.w.n, g.count)
}
