package main

import (
	"math"
	"math/rand"
	"sort"
	"strings"

	rp "github.com/Breeze0806/gobinlog/replication"
)

// jnode is a JSON value to be stored in MySQL's binary form.
type jnode struct {
	typ  byte // binary JSON type; 0/2 for objects and arrays of either size
	keys []string
	kids []*jnode
	raw  []byte // scalars: the stored bytes
	room int    // bytes of free space behind the value, as updates in place leave it
}

const (
	jObject  = 0
	jArray   = 2
	jLiteral = 4
	jInt16   = 5
	jUint16  = 6
	jInt32   = 7
	jUint32  = 8
	jInt64   = 9
	jUint64  = 10
	jDouble  = 11
	jString  = 12
	jOpaque  = 15
)

func varSize(n int) []byte {
	var b []byte
	for {
		c := byte(n & 0x7f)
		n >>= 7
		if n == 0 {
			return append(b, c)
		}
		b = append(b, c|0x80)
	}
}

// encode stores n: its type byte and its bytes. force asks for the large format even when the
// small one would do; the small format is used when it fits otherwise.
func (n *jnode) encode(force func() bool) (byte, []byte) {
	if n.typ != jObject && n.typ != jArray {
		return n.typ, n.raw
	}
	if !force() {
		if b, ok := n.container(false, force); ok {
			return n.typ, b
		}
	}
	b, _ := n.container(true, force)
	return n.typ + 1, b
}

func (n *jnode) container(large bool, force func() bool) ([]byte, bool) {
	w := 2
	if large {
		w = 4
	}
	hdr := 2 * w
	if n.typ == jObject {
		hdr += len(n.keys) * (w + 2)
	}
	hdr += len(n.kids) * (w + 1)
	var keyTab, valTab, body []byte
	for _, k := range n.keys {
		keyTab = append(keyTab, le(uint64(hdr+len(body)), w)...)
		keyTab = append(keyTab, le(uint64(len(k)), 2)...)
		body = append(body, k...)
	}
	for _, k := range n.kids {
		t, b := k.encode(force)
		inline := t == jLiteral || t == jInt16 || t == jUint16 || large && (t == jInt32 || t == jUint32)
		valTab = append(valTab, t)
		if inline {
			v := make([]byte, w)
			copy(v, b)
			valTab = append(valTab, v...)
		} else {
			valTab = append(valTab, le(uint64(hdr+len(body)), w)...)
			body = append(body, b...)
			body = append(body, make([]byte, k.room)...)
		}
	}
	size := hdr + len(body)
	if !large && size > 65535 {
		return nil, false
	}
	return cat(le(uint64(len(n.kids)), w), le(uint64(size), w), keyTab, valTab, body), true
}

func (n *jnode) document(force func() bool) []byte {
	t, b := n.encode(force)
	return append([]byte{t}, b...)
}

func never() bool  { return false }
func always() bool { return true }

type docGen struct {
	r *rand.Rand
}

var jsonTexts = []string{"", "a", "key", "it's", `say "hi"`, `back\slash`, "caf\u00e9", "\u65e5\u672c\u8a9e", "\U0001F600", "\x00", "\t\n\r\b\f\x1f", "%d %s", "null", "'", `"`, `\`, `\'`, "/", "\u2028", "x,y)"}

func (d *docGen) text() string {
	switch d.r.Intn(8) {
	case 0:
		return jsonTexts[d.r.Intn(len(jsonTexts))]
	case 1:
		return strings.Repeat("z", []int{126, 127, 128, 129, 255, 256, 300}[d.r.Intn(7)])
	}
	b := make([]byte, d.r.Intn(9))
	for i := range b {
		b[i] = byte('a' + d.r.Intn(26))
	}
	return string(b)
}

func stringNode(s string) *jnode {
	return &jnode{typ: jString, raw: cat(varSize(len(s)), []byte(s))}
}

func opaqueNode(t byte, b []byte) *jnode {
	return &jnode{typ: jOpaque, raw: cat([]byte{t}, varSize(len(b)), b)}
}

func packJSONDateTime(y, mo, d, h, m, s, us int) []byte {
	v := uint64(y*13+mo)<<5 | uint64(d)
	v = v<<17 | uint64(h)<<12 | uint64(m)<<6 | uint64(s)
	return le(v<<24|uint64(us), 8)
}

func packJSONTime(neg bool, h, m, s, us int) []byte {
	v := (int64(h)<<12|int64(m)<<6|int64(s))<<24 | int64(us)
	if neg {
		v = -v
	}
	return le(uint64(v), 8)
}

func intNode(t byte, v uint64) *jnode {
	w := map[byte]int{jInt16: 2, jUint16: 2, jInt32: 4, jUint32: 4, jInt64: 8, jUint64: 8}[t]
	return &jnode{typ: t, raw: le(v, w)}
}

func doubleNode(f float64) *jnode {
	return &jnode{typ: jDouble, raw: le(math.Float64bits(f), 8)}
}

// scalar makes a scalar of kind k in 0..12.
func (d *docGen) scalar(k int) *jnode {
	r := d.r
	edge := func() uint64 {
		v := r.Uint64() >> uint(r.Intn(64))
		switch r.Intn(4) {
		case 0:
			return -v
		case 1:
			b := uint64(1) << uint(r.Intn(64))
			return b - uint64(r.Intn(2))
		}
		return v
	}
	us := func() int {
		switch r.Intn(4) {
		case 0:
			return 0
		case 1:
			return []int{1, 10, 100000, 999999, 120000, 99}[r.Intn(6)]
		}
		return r.Intn(1000000)
	}
	switch k {
	case 0:
		return &jnode{typ: jLiteral, raw: []byte{byte(r.Intn(3))}}
	case 1, 2, 3, 4, 5, 6:
		return intNode(byte(jInt16+k-1), edge())
	case 7:
		for {
			var f float64
			switch r.Intn(5) {
			case 0:
				f = math.Float64frombits(r.Uint64())
			case 1:
				f = float64(r.Intn(2001)-1000) / 8
			case 2:
				f = []float64{0, math.Copysign(0, -1), 1, -1, 1e15, 1e20, 1e21, 1e-5, 1e-7, 0.1, math.MaxFloat64, math.SmallestNonzeroFloat64, 1e300, 123456789.125, 1e6, 1e7}[r.Intn(16)]
			default:
				f = r.NormFloat64() * math.Pow10(r.Intn(40)-18)
			}
			if !math.IsInf(f, 0) && !math.IsNaN(f) {
				return doubleNode(f)
			}
		}
	case 8:
		return stringNode(d.text())
	case 9:
		return opaqueNode(10, packJSONDateTime(r.Intn(10000), r.Intn(13), r.Intn(32), 0, 0, 0, 0))
	case 10:
		h, m, s, u := r.Intn(839), r.Intn(60), r.Intn(60), us()
		if r.Intn(3) == 0 {
			h = r.Intn(24)
		}
		if r.Intn(8) == 0 {
			h, m, s = 0, 0, 0
		}
		neg := r.Intn(2) == 0 && h+m+s+u > 0
		return opaqueNode(11, packJSONTime(neg, h, m, s, u))
	case 11:
		return opaqueNode(12, packJSONDateTime(r.Intn(10000), r.Intn(13), r.Intn(32), r.Intn(24), r.Intn(60), r.Intn(60), us()))
	}
	p := 1 + r.Intn(65)
	s := r.Intn(31)
	if s > p {
		s = p
	}
	b := make([]byte, p)
	for i := range b {
		b[i] = '0'
		if r.Intn(3) != 0 {
			b[i] = byte('0' + r.Intn(10))
		}
	}
	if r.Intn(6) == 0 {
		b = []byte(strings.Repeat("0", p))
	}
	return opaqueNode(246, cat([]byte{byte(p), byte(s)}, encDecimal(r.Intn(2) == 0, string(b), p, s)))
}

func (d *docGen) value(depth, width int) *jnode {
	if depth <= 0 || d.r.Intn(3) == 0 {
		return d.scalar(d.r.Intn(13))
	}
	if d.r.Intn(2) == 0 {
		n := &jnode{typ: jArray}
		for i := d.r.Intn(width + 1); i > 0; i-- {
			n.kids = append(n.kids, d.value(depth-1, width))
		}
		return n
	}
	n := &jnode{typ: jObject}
	seen := map[string]bool{}
	for i := d.r.Intn(width + 1); i > 0; i-- {
		k := d.text()
		if seen[k] {
			continue
		}
		seen[k] = true
		n.keys = append(n.keys, k)
	}
	return n.fill(func() *jnode { return d.value(depth-1, width) })
}

// fill sorts the keys as the server does and gives each a value.
func (n *jnode) fill(f func() *jnode) *jnode {
	sort.Slice(n.keys, func(i, j int) bool {
		a, b := n.keys[i], n.keys[j]
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		return a < b
	})
	for range n.keys {
		n.kids = append(n.kids, f())
	}
	return n
}

func array(kids ...*jnode) *jnode { return &jnode{typ: jArray, kids: kids} }

func object(key string, v *jnode) *jnode {
	return &jnode{typ: jObject, keys: []string{key}, kids: []*jnode{v}}
}

func (g *cellGen) documents() {
	d := &docGen{r: g.r}
	reps := 40
	if g.deep {
		reps = 1200
	}
	mixed := func() bool { return g.r.Intn(3) == 0 }
	all := []func() bool{never, always, mixed}
	g.tag = "empty"
	g.jsonCell(nil)
	g.jsonCell(array().document(never))
	g.jsonCell((&jnode{typ: jObject}).document(never))
	g.jsonCell(array().document(always))
	g.jsonCell((&jnode{typ: jObject}).document(always))
	for lit := byte(0); lit < 3; lit++ {
		n := &jnode{typ: jLiteral, raw: []byte{lit}}
		for _, f := range all {
			g.jsonCell(n.document(f))
			g.jsonCell(array(n).document(f))
			g.jsonCell(object("k", n).document(f))
		}
	}
	g.tag = "integer"
	for t := byte(jInt16); t <= jUint64; t++ {
		w := map[byte]uint{jInt16: 16, jUint16: 16, jInt32: 32, jUint32: 32, jInt64: 64, jUint64: 64}[t]
		for k := uint(0); k < w; k++ {
			for _, v := range []uint64{1 << k, 1<<k - 1, -(uint64(1) << k), -(uint64(1) << k) - 1} {
				n := intNode(t, v)
				g.jsonCell(n.document(never))
				g.jsonCell(array(n, n).document(never))
				g.jsonCell(array(n).document(always))
			}
		}
	}
	// every kind of scalar: alone, in arrays and objects of both formats, nested both ways
	for k := 0; k < 13; k++ {
		g.tag = []string{"literal", "integer", "integer", "integer", "integer", "integer", "integer", "double", "string", "date", "time", "datetime", "decimal"}[k]
		m := reps
		if k >= 7 {
			m *= 4
		}
		for i := 0; i < m; i++ {
			s := d.scalar(k)
			g.jsonCell(s.document(never))
			f := all[i%3]
			o := d.scalar(g.r.Intn(13))
			var n *jnode
			switch g.r.Intn(6) {
			case 0:
				n = array(s)
			case 1:
				n = array(o, s, o)
			case 2:
				n = object(d.text(), s)
			case 3:
				n = array(object(d.text(), array(s, o)), s)
			case 4:
				n = object(d.text(), object(d.text(), s))
			default:
				n = array(array(array(s)), o)
			}
			g.jsonCell(n.document(f))
		}
	}
	g.tag = "string"
	for _, s := range jsonTexts {
		g.jsonCell(stringNode(s).document(never))
		g.jsonCell(array(stringNode(s), stringNode(s+s)).document(never))
		g.jsonCell(object(s, stringNode(s)).document(never))
		g.jsonCell(object(s, stringNode(s)).document(always))
	}
	lens := []int{126, 127, 128, 129, 255, 256, 16382, 16383, 16384, 16385}
	for _, l := range lens {
		s := strings.Repeat("q", l-1) + "Q"
		g.jsonCell(stringNode(s).document(never))
		g.jsonCell(array(stringNode(s), intNode(jInt16, 7)).document(never))
		g.jsonCell(object(s, intNode(jUint32, 7)).document(never))
	}
	for _, l := range []int{32766, 32767, 32768, 40000, 65534, 65535} {
		k := strings.Repeat("k", l)
		g.jsonCell(object(k, d.scalar(2)).document(never))
		g.jsonCell((&jnode{typ: jObject, keys: []string{k, k[1:] + "m"}, kids: []*jnode{d.scalar(8), d.scalar(3)}}).document(always))
	}
	k := strings.Repeat("s", 32750) // the second key and the values of a small object lie in its upper half
	g.jsonCell((&jnode{typ: jObject, keys: []string{k, k[9:] + "0123456789"}, kids: []*jnode{d.scalar(1), d.scalar(0)}}).document(never))
	g.jsonCell((&jnode{typ: jObject, keys: []string{"a", "b", k}, kids: []*jnode{d.scalar(8), d.scalar(3), d.scalar(6)}}).document(never))
	g.tag = "nested"
	for i := 0; i < reps*12; i++ {
		n := d.value(1+g.r.Intn(5), 1+g.r.Intn(5))
		g.jsonCell(n.document(all[i%3]))
	}
	for _, dep := range []int{10, 30, 90} {
		n := d.scalar(8)
		m := d.scalar(3)
		for i := 0; i < dep; i++ {
			n = array(n)
			m = object("a", m)
		}
		for _, f := range all {
			g.jsonCell(n.document(f))
			g.jsonCell(m.document(f))
		}
	}
	// wide containers
	g.tag = "wide"
	for _, c := range []int{127, 128, 255, 256, 257, 300} {
		n := &jnode{typ: jArray}
		o := &jnode{typ: jObject}
		for i := 0; i < c; i++ {
			n.kids = append(n.kids, d.scalar(g.r.Intn(7)))
			o.keys = append(o.keys, "k"+strings.Repeat("x", i%7)+string(rune('A'+i%26))+string(rune('a'+i/26%26))+string(rune('a'+i/676)))
		}
		o.fill(func() *jnode { return d.scalar(g.r.Intn(13)) })
		g.jsonCell(n.document(never))
		g.jsonCell(o.document(never))
		g.jsonCell(n.document(always))
		g.jsonCell(o.document(always))
	}
	// documents of 64KB and more are stored in the large format; the value below straddles it
	g.tag = "large"
	cuts := []int{65510, 65535 - 7, 65535 - 6, 65536, 70000}
	if g.deep {
		cuts = append(cuts, 65520, 65525, 65530, 65535, 65540, 131072, 200000)
	}
	for _, l := range cuts {
		s := stringNode(strings.Repeat("L", l))
		tail := []*jnode{d.scalar(3), d.scalar(4), d.scalar(2), d.scalar(0), d.scalar(7), d.scalar(12), array(d.scalar(3), d.scalar(8)), object("in", d.scalar(3))}
		g.jsonCell(array(s).document(never))
		g.jsonCell(array(append([]*jnode{s}, tail...)...).document(never))
		o := &jnode{typ: jObject, keys: []string{"a", "b", "cc", "dd"}, kids: []*jnode{tail[0], s, tail[1], tail[6]}}
		g.jsonCell(o.document(never))
		g.jsonCell(object("outer", array(o, tail[7], tail[2])).document(never))
		g.jsonCell(array(tail[0], array(tail[0], tail[1])).document(never))
	}
	n := &jnode{typ: jArray}
	for i := 0; i < 9000; i++ {
		n.kids = append(n.kids, intNode(jInt32, uint64(i*7919)))
	}
	g.jsonCell(n.document(never)) // 81 KB of inlined 32-bit integers
	o := &jnode{typ: jObject}
	for i := 0; i < 3000; i++ {
		o.keys = append(o.keys, "key-"+string(rune('a'+i%26))+string(rune('a'+i/26%26))+string(rune('a'+i/676))+strings.Repeat("-", 9))
	}
	o.fill(func() *jnode { return d.scalar([]int{0, 1, 3, 5, 8}[g.r.Intn(5)]) })
	g.jsonCell(o.document(never))
	g.roomy()
}

// roomy are documents with long values and with free space inside: sizes and offsets of 3 and 4 bytes.
func (g *cellGen) roomy() {
	d := &docGen{r: g.r}
	put := func(n *jnode) {
		doc := n.document(never)
		g.packed(rp.TypeJSON, 4, cat(le(uint64(len(doc)), 4), doc))
	}
	g.tag = "long"
	lens := []int{1<<21 - 1, 1 << 21}
	rooms := []int{1<<16 + g.r.Intn(99), 1<<24 + g.r.Intn(1<<20)}
	if g.deep {
		lens = append(lens, 1<<21+1, 3<<21+77)
		rooms = append(rooms, 1<<17-8, 1<<20+5, 1<<24-1, 1<<24, 3<<23)
	}
	for i, l := range lens {
		s := stringNode("x" + strings.Repeat("y", l-2) + "z")
		if i == 0 {
			put(s)
			continue
		}
		put(array(d.scalar(8), s, d.scalar(5), array(d.scalar(3), d.scalar(8))))
	}
	g.tag = "room"
	for i, room := range rooms {
		s := stringNode("short")
		s.room = room
		n := array(s, d.scalar(5), object("k", array(d.scalar(3), d.scalar(8))))
		if i%2 == 1 {
			n = &jnode{typ: jObject, keys: []string{"a", "b", "cc"}, kids: []*jnode{s, d.scalar(7), array(d.scalar(12), d.scalar(4))}}
		}
		put(n)
	}
}

// spot is a place in a document where other bytes make it none.
type spot struct {
	at   int
	vals [][]byte
}

// docSpots lists such places in the value of type typ at doc[base:].
func docSpots(r *rand.Rand, doc []byte, typ byte, base int, top bool) []spot {
	n := len(doc)
	var out []spot
	add := func(at int, vals ...[]byte) { out = append(out, spot{at, vals}) }
	unknown := []byte{[]byte{13, 14, 16, 17, 127, 128, 246, 255}[r.Intn(8)]}
	num := func(at, w int) int {
		return int(doc[at]) | int(doc[at+1])<<8 | (w-2)/2*(int(doc[at+w-2])<<16|int(doc[at+w-1])<<24)
	}
	switch typ {
	case 0, 1, 2, 3:
		w := 2 + int(typ%2)*2
		c := num(base, w)
		max := le(1<<uint(8*w)-1, w)
		add(base, max)                                           // too many elements
		add(base+w, max, le(uint64(minInt(n-base+1, 65535)), w)) // longer than what is there
		kp := base + 2*w
		vp := kp
		if typ < 2 {
			vp += c * (w + 2)
			if c > 0 {
				k := kp + r.Intn(c)*(w+2)
				add(k, max)                  // a key elsewhere
				add(k+w, []byte{0xff, 0xff}) // a long key
			}
		}
		for i := 0; i < c; i++ {
			p := vp + i*(w+1)
			add(p, unknown)
			switch et := doc[p]; {
			case et == 4:
				add(p+1, []byte{byte(3 + r.Intn(253))})
			case et == 5 || et == 6 || w == 4 && (et == 7 || et == 8):
			default:
				add(p+1, max, make([]byte, w), le(uint64(p-base), w)) // a value elsewhere, or before its entry
				out = append(out, docSpots(r, doc, et, base+num(p+1, w), false)...)
			}
		}
	case 4:
		add(base, []byte{byte(3 + r.Intn(253))})
	case 12:
		if n > base+127 {
			return out
		}
		add(base, []byte{byte(n - base)}, []byte{127})
	case 15:
		add(base, []byte{[]byte{0, 1, 5, 16, 245, 250, 252, 254}[r.Intn(8)]})
		short := byte(r.Intn(8))
		if doc[base] == 246 {
			short = byte(r.Intn(3))
		}
		add(base+1, []byte{short})
	}
	return out
}

// spoil turns a document into none.
func spoil(r *rand.Rand, doc []byte) []byte {
	doc = append([]byte(nil), doc...)
	out := docSpots(r, doc, doc[0], 1, true)
	if len(out) == 0 || r.Intn(12) == 0 {
		doc[0] = []byte{13, 14, 16, 200}[r.Intn(4)]
		return doc
	}
	s := out[r.Intn(len(out))]
	copy(doc[s.at:], s.vals[r.Intn(len(s.vals))])
	return doc
}
