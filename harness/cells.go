package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"time"
	_ "time/tzdata"

	rp "github.com/Breeze0806/gobinlog/replication"
)

// cellGen produces cell records: what the code makes of one encoded cell.
type cellGen struct {
	w     *writer
	r     *rand.Rand
	deep  bool
	count map[string]int
	tag   string
}

// emit records the decoding of cell c, put between junk bytes.
func (g *cellGen) emit(typ byte, meta uint16, u bool, c []byte) {
	pre, post := g.r.Intn(4), g.r.Intn(3)
	g.emitAt(typ, meta, u, c, pre, post)
}

// long records the decoding of a cell of n bytes behind a prefix of w bytes.
func (g *cellGen) long(typ byte, w, n int) {
	c := cat(le(uint64(n), w), bytes.Repeat([]byte{byte(g.r.Intn(256))}, n))
	for _, k := range []int{0, 0xffff, 0x10000, 0xffffff, 0x1000000, n - 1} {
		if k < n {
			c[w+k] = byte(g.r.Intn(256))
		}
	}
	g.packed(typ, w, c)
}

// packed records the decoding of a long cell of repeating pieces.
func (g *cellGen) packed(typ byte, w int, c []byte) {
	d := cat(randBytes(g.r, 2), c, randBytes(g.r, 3))
	rec := Rec{"kind": "packed", "tag": g.tag, "t": int(typ), "m": w, "u": false, "d": Packed(d), "i": 3, "l": len(c), "off": 0}
	g.decode(rec, d, 2, typ, uint16(w), false)
	g.w.put(rec)
	g.count[g.tag]++
}

func (g *cellGen) emitAt(typ byte, meta uint16, u bool, c []byte, pre, post int) {
	d := cat(randBytes(g.r, pre), c, randBytes(g.r, post))
	off := 0
	if typ == rp.TypeTimestamp {
		off = zoneOffset(uint32(c[0]) | uint32(c[1])<<8 | uint32(c[2])<<16 | uint32(c[3])<<24)
	} else if typ == rp.TypeTimestamp2 {
		off = zoneOffset(uint32(c[3]) | uint32(c[2])<<8 | uint32(c[1])<<16 | uint32(c[0])<<24)
	}
	rec := Rec{"kind": "cell", "tag": g.tag, "t": int(typ), "m": int(meta), "u": u, "d": B(d), "i": pre + 1, "l": len(c), "off": off,
		"zone": S(time.Local.String())}
	g.decode(rec, d, pre, typ, meta, u)
	g.w.put(rec)
	g.count[g.tag]++
}

func (g *cellGen) decode(rec Rec, d []byte, pos int, typ byte, meta uint16, u bool) {
	var out []byte
	var n, l int
	var err, lerr error
	keep := append([]byte(nil), d...)
	p := timed(func() { out, n, err = rp.CellBytes(d, pos, typ, meta, u) })
	lp := timed(func() { l, lerr = cellLength(d, pos, typ, meta) })
	rec["ok"] = p == "" && err == nil
	rec["lok"] = lp == "" && lerr == nil
	rec["n"], rec["len"] = n, l
	if rec["kind"] == "packed" {
		rec["out"] = Packed(out)
	} else {
		rec["out"] = B(out)
	}
	rec["nil"] = out == nil
	rec["why"] = S(p + lp)
	rec["intact"] = string(keep) == string(d) // decoding must not change its input
}

func zoneOffset(v uint32) int {
	_, o := time.Unix(int64(v), 0).In(time.Local).Zone()
	return o
}

const hashMod = 8355967

func hashText(h int, t []byte) int {
	h = (h*251 + len(t) + 1) % hashMod
	for _, c := range t {
		h = (h*251 + int(c) + 1) % hashMod
	}
	return h
}

// block records the decoding of 256 integers that differ in their lowest byte; only a hash of
// the texts unless full.
func (g *cellGen) block(typ byte, u bool, hi []byte, full bool) {
	var outs [][]int
	h := 0
	ok := true
	for lo := 0; lo < 256; lo++ {
		c := append([]byte{byte(lo)}, hi...)
		var out []byte
		var n int
		var err error
		p := timed(func() { out, n, err = rp.CellBytes(c, 0, typ, 0, u) })
		if p != "" || err != nil || n != len(c) {
			ok = false
		}
		h = hashText(h, out)
		if full {
			outs = append(outs, B(out))
		}
	}
	if outs == nil {
		outs = [][]int{}
	}
	g.w.put(Rec{"kind": "block", "tag": g.tag, "t": int(typ), "u": u, "hi": B(hi), "h": h, "full": full, "outs": outs, "ok": ok})
	g.count[g.tag] += 256
}

func (g *cellGen) numeric() {
	for _, u := range []bool{false, true} {
		g.tag = "tiny"
		g.block(rp.TypeTiny, u, nil, true)
		g.tag = "short"
		for hi := 0; hi < 256; hi++ {
			g.block(rp.TypeShort, u, []byte{byte(hi)}, false)
		}
		g.tag = "int24"
		for hi := 0; hi < 65536; hi++ {
			a, b := byte(hi), byte(hi>>8)
			edge := (a == 0 || a == 255 || a == 127 || a == 128) && (b == 0 || b == 255 || b == 127 || b == 128)
			if g.deep || edge || g.r.Intn(400) == 0 {
				g.block(rp.TypeInt24, u, []byte{a, b}, false)
			}
		}
		g.tag = "wide"
		n := 1500
		if g.deep {
			n = 60000
		}
		for _, w := range []struct {
			t byte
			n int
		}{{rp.TypeLong, 4}, {rp.TypeLongLong, 8}} {
			for k := 0; k < w.n*8; k++ {
				v := uint64(1) << uint(k)
				for _, x := range []uint64{v, v - 1, v + 1, -v, -v - 1, -v + 1, ^uint64(0) << uint(k)} {
					g.emit(w.t, 0, u, le(x, w.n))
				}
			}
			p10 := uint64(1)
			for k := 0; k < 20; k++ {
				for _, x := range []uint64{p10, p10 - 1, p10 + 1, -p10, -p10 - 1, -p10 + 1} {
					g.emit(w.t, 0, u, le(x, w.n))
				}
				p10 *= 10
			}
			for k := 0; k < n; k++ {
				g.emit(w.t, 0, u, le(g.r.Uint64()>>uint(g.r.Intn(64)), w.n))
			}
		}
		for _, t := range []byte{rp.TypeTiny, rp.TypeShort, rp.TypeInt24} {
			l := map[byte]int{rp.TypeTiny: 1, rp.TypeShort: 2, rp.TypeInt24: 3}[t]
			for k := 0; k < 200; k++ {
				g.emit(t, 0, u, randBytes(g.r, l))
			}
		}
	}
	// signedness must not matter elsewhere
	uns := func() bool { return g.r.Intn(2) == 0 }
	g.tag = "year"
	for v := 0; v < 256; v++ {
		g.emit(rp.TypeYear, 0, uns(), []byte{byte(v)})
	}
	g.tag = "bit"
	for nb := 1; nb <= 64; nb++ {
		meta := uint16(nb/8)<<8 | uint16(nb%8)
		l := (nb + 7) / 8
		for k := 0; k < 12; k++ {
			c := randBytes(g.r, l)
			if k == 0 {
				c = make([]byte, l)
			} else if k == 1 {
				for i := range c {
					c[i] = 0xff
				}
			}
			if nb%8 != 0 {
				c[0] &= byte(1<<uint(nb%8) - 1)
			}
			g.emit(rp.TypeBit, meta, uns(), c)
		}
	}
	g.tag = "enum"
	for v := 0; v < 256; v++ {
		g.emit(rp.TypeString, rp.TypeEnum<<8|1, uns(), []byte{byte(v)})
		g.emit(rp.TypeEnum, rp.TypeEnum<<8|1, uns(), []byte{byte(v)})
		g.emit(rp.TypeString, rp.TypeEnum<<8|2, uns(), []byte{byte(v), byte(g.r.Intn(256))})
		g.emit(rp.TypeString, rp.TypeEnum<<8|2, uns(), []byte{byte(g.r.Intn(256)), byte(v)})
		g.emit(rp.TypeEnum, rp.TypeEnum<<8|2, uns(), []byte{byte(v), byte(g.r.Intn(256))})
		g.emit(rp.TypeEnum, 2, uns(), []byte{byte(v), byte(g.r.Intn(256))})
	}
	g.tag = "set"
	for l := 1; l <= 8; l++ {
		if l == 5 || l == 6 || l == 7 {
			continue // the server stores sets in 1, 2, 3, 4 or 8 bytes
		}
		for bit := 0; bit < l*8; bit++ {
			g.emit(rp.TypeString, rp.TypeSet<<8|uint16(l), uns(), le(1<<uint(bit), l))
			g.emit(rp.TypeString, rp.TypeSet<<8|uint16(l), uns(), le(^(uint64(1)<<uint(bit)), l))
		}
		for k := 0; k < 100; k++ {
			g.emit(rp.TypeString, rp.TypeSet<<8|uint16(l), uns(), randBytes(g.r, l))
		}
		g.emit(rp.TypeSet, rp.TypeSet<<8|uint16(l), uns(), randBytes(g.r, l))
	}
	g.floats(uns)
}

func (g *cellGen) floats(uns func() bool) {
	n32, n64 := 2500, 1500
	if g.deep {
		n32, n64 = 150000, 60000
	}
	g.tag = "float"
	f32 := func(b uint32) {
		if b>>23&255 == 255 {
			return
		}
		g.emit(rp.TypeFloat, 4, uns(), le(uint64(b), 4))
	}
	for e := uint32(0); e < 255; e++ {
		for _, m := range []uint32{0, 1, 0x7fffff, 0x400000} {
			f32(e<<23 | m)
			f32(1<<31 | e<<23 | m)
		}
	}
	for i := 0; i < n32; i++ {
		switch i % 3 {
		case 0:
			f32(g.r.Uint32())
		case 1:
			f32(math.Float32bits(float32(g.r.Intn(2000001)-1000000) / float32(math.Pow10(g.r.Intn(7)))))
		default:
			f32(math.Float32bits(float32(g.r.NormFloat64() * math.Pow10(g.r.Intn(20)-8))))
		}
	}
	g.tag = "double"
	f64 := func(b uint64) {
		if b>>52&2047 == 2047 {
			return
		}
		g.emit(rp.TypeDouble, 8, uns(), le(b, 8))
	}
	for e := uint64(0); e < 2047; e += 31 {
		for _, m := range []uint64{0, 1, 1<<52 - 1} {
			f64(e<<52 | m)
		}
	}
	for _, e := range []uint64{0, 1, 1022, 1023, 1024, 1075, 1076, 2046} {
		for _, m := range []uint64{0, 1, 1<<52 - 1, 1 << 51} {
			f64(e<<52 | m)
			f64(1<<63 | e<<52 | m)
		}
	}
	for i := 0; i < n64; i++ {
		switch i % 8 {
		case 0:
			f64(g.r.Uint64())
		case 1, 2, 3:
			f64(math.Float64bits(float64(g.r.Int63n(2000000001)-1000000000) / math.Pow10(g.r.Intn(10))))
		case 4:
			f64(math.Float64bits(float64(g.r.Int63()) * 8))
		default:
			f64(math.Float64bits(g.r.NormFloat64() * math.Pow10(g.r.Intn(40)-18)))
		}
	}
}

func (g *cellGen) decimals() {
	reps := 2
	if g.deep {
		reps = 60
	}
	for p := 1; p <= 65; p++ {
		for s := 0; s <= 30 && s <= p; s++ {
			meta := uint16(p)<<8 | uint16(s)
			do := func(neg bool, digits string) {
				g.emit(rp.TypeNewDecimal, meta, g.r.Intn(2) == 0, encDecimal(neg, digits, p, s))
			}
			zeros := strings.Repeat("0", p)
			nines := strings.Repeat("9", p)
			g.tag = "zero"
			do(false, zeros)
			g.tag = "extreme"
			do(false, nines)
			do(true, nines)
			do(false, zeros[:p-1]+"1")
			do(true, zeros[:p-1]+"1")
			do(false, "1"+zeros[:p-1])
			do(true, "1"+zeros[:p-1])
			if p > s { // exactly one in the integer part
				do(g.r.Intn(2) == 0, zeros[:p-s-1]+"1"+zeros[:s])
			}
			g.tag = "digits"
			for k := 0; k < reps; k++ {
				b := []byte(zeros)
				switch k % 4 {
				case 0: // one digit anywhere
					b[g.r.Intn(p)] = byte('1' + g.r.Intn(9))
				case 1: // random
					for i := range b {
						b[i] = byte('0' + g.r.Intn(10))
					}
				case 2: // random after a zero prefix
					for i := g.r.Intn(p); i < p; i++ {
						b[i] = byte('0' + g.r.Intn(10))
					}
				default: // sparse
					for i := range b {
						if g.r.Intn(4) == 0 {
							b[i] = byte('0' + g.r.Intn(10))
						}
					}
				}
				do(g.r.Intn(2) == 0, string(b))
			}
		}
	}
}

func fracOf(r *rand.Rand, fsp int) (us int) {
	if fsp == 0 {
		return 0
	}
	unit := int(math.Pow10(6 - fsp))
	k := r.Intn(int(math.Pow10(fsp)))
	switch r.Intn(6) {
	case 0:
		k = 0
	case 1:
		k = 1
	case 2:
		k = int(math.Pow10(fsp)) - 1
	}
	return k * unit
}

// fracBytes is the stored form of us microseconds with fsp digits.
func fracBytes(us, fsp int) (v, n int) {
	n = (fsp + 1) / 2
	return us / int(math.Pow10(6-2*n)), n
}

func encTime2(neg bool, h, m, s, us, fsp int) []byte {
	hms := int64(h)<<12 | int64(m)<<6 | int64(s)
	fv, n := fracBytes(us, fsp)
	packed := hms<<(8*uint(n)) | int64(fv)
	if neg {
		packed = -packed
	}
	return be(uint64(packed+int64(0x800000)<<(8*uint(n))), 3+n)
}

func encDateTime2(y, mo, d, h, m, s, us, fsp int) []byte {
	v := uint64(y*13+mo)<<5 | uint64(d)
	v = v<<17 | uint64(h)<<12 | uint64(m)<<6 | uint64(s)
	fv, n := fracBytes(us, fsp)
	return cat(be(v+0x8000000000, 5), be(uint64(fv), n))
}

func (g *cellGen) temporal() {
	n := 300
	if g.deep {
		n = 8000
	}
	r := g.r
	uns := func() bool { return r.Intn(2) == 0 }
	date := func() (int, int, int) {
		switch r.Intn(12) {
		case 0:
			return 0, 0, 0
		case 1:
			return 9999, 12, 31
		case 2:
			return r.Intn(10000), 0, 0
		case 3:
			return r.Intn(10000), 1 + r.Intn(12), 0
		case 4:
			return 0, r.Intn(13), r.Intn(32)
		}
		return r.Intn(10000), r.Intn(13), r.Intn(32)
	}
	g.tag = "date"
	for m := 0; m <= 12; m++ {
		for d := 0; d <= 31; d++ {
			for _, y := range []int{0, 1, 999, 1000, 1582, 2000, 9999, r.Intn(10000)} {
				t := byte(rp.TypeDate)
				if r.Intn(8) == 0 {
					t = rp.TypeNewDate
				}
				g.emit(t, 0, uns(), le(uint64(y<<9|m<<5|d), 3))
			}
		}
	}
	if g.deep {
		for y := 0; y <= 9999; y++ {
			g.emit(rp.TypeDate, 0, uns(), le(uint64(y<<9|r.Intn(13)<<5|r.Intn(32)), 3))
		}
	}
	g.tag = "time-old"
	timeOld := func(neg bool, h, m, s int) {
		v := h*10000 + m*100 + s
		if neg {
			v = -v
		}
		g.emit(rp.TypeTime, 0, uns(), le(uint64(v), 3))
	}
	for _, neg := range []bool{false, true} {
		for h := 0; h <= 838; h++ {
			timeOld(neg, h, r.Intn(60), r.Intn(60))
			if h < 3 || h > 835 || g.deep {
				timeOld(neg, h, 0, 0)
				timeOld(neg, h, 59, 59)
			}
		}
		for m := 0; m < 60; m++ {
			timeOld(neg, 0, m, 0)
			timeOld(neg, 0, 0, m)
		}
	}
	g.tag = "datetime-old"
	for i := 0; i < n*2; i++ {
		y, m, d := date()
		h, mi, s := r.Intn(24), r.Intn(60), r.Intn(60)
		if i%7 == 0 {
			h, mi, s = 0, 0, 0
		}
		v := ((uint64(y)*100+uint64(m))*100+uint64(d))*1000000 + uint64(h*10000+mi*100+s)
		g.emit(rp.TypeDateTime, 0, uns(), le(v, 8))
	}
	g.tag = "time2"
	for fsp := 0; fsp <= 6; fsp++ {
		for i := 0; i < n; i++ {
			h, m, s, us := r.Intn(839), r.Intn(60), r.Intn(60), fracOf(r, fsp)
			switch r.Intn(8) {
			case 0:
				h, m, s = 838, 59, 59
			case 1:
				h, m, s = 0, 0, 0
			case 2:
				h, m = 0, 0
			}
			neg := r.Intn(2) == 0
			if h+m+s+us == 0 {
				neg = false
			}
			g.emit(rp.TypeTime2, uint16(fsp), uns(), encTime2(neg, h, m, s, us, fsp))
		}
	}
	if g.deep {
		for fsp := 0; fsp <= 6; fsp++ {
			for h := 0; h <= 838; h++ {
				g.emit(rp.TypeTime2, uint16(fsp), uns(), encTime2(true, h, r.Intn(60), 1+r.Intn(59), fracOf(r, fsp), fsp))
				g.emit(rp.TypeTime2, uint16(fsp), uns(), encTime2(false, h, r.Intn(60), r.Intn(60), fracOf(r, fsp), fsp))
			}
		}
	}
	g.tag = "datetime2"
	for fsp := 0; fsp <= 6; fsp++ {
		for i := 0; i < n; i++ {
			y, m, d := date()
			h, mi, s := r.Intn(24), r.Intn(60), r.Intn(60)
			us := fracOf(r, fsp)
			if y+m+d == 0 || i%9 == 0 {
				h, mi, s = 0, 0, 0
			}
			g.emit(rp.TypeDateTime2, uint16(fsp), uns(), encDateTime2(y, m, d, h, mi, s, us, fsp))
		}
	}
	for h := 0; h < 24; h++ {
		for m := 0; m < 60; m++ {
			y, mo, d := date()
			g.emit(rp.TypeDateTime2, 0, uns(), encDateTime2(y, mo, d, h, m, r.Intn(60), 0, 0))
		}
	}
	zones := []string{"UTC", "Asia/Kolkata", "America/New_York", "Australia/Lord_Howe", "Pacific/Apia", "Africa/Monrovia"}
	old := time.Local
	defer func() { time.Local = old }()
	for _, z := range zones {
		loc, err := time.LoadLocation(z)
		if err != nil {
			fatal(err)
		}
		time.Local = loc
		g.tag = "timestamp " + z
		vals := []uint32{0, 1, 2, 59, 60, 86399, 86400, 1<<31 - 1, 1 << 31, 1<<32 - 1, 951782399, 951782400, 951868799, 951868800, 1583020800, 1582934400, 4107542400}
		// both sides of the zone's transitions
		for y := 1970; y <= 2037; y += 3 {
			t := time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC).Unix()
			for step := 0; step < 24; step++ {
				a, b := t+int64(step)*15*86400, t+int64(step+1)*15*86400
				if zoneOffset(uint32(a)) != zoneOffset(uint32(b)) {
					for b-a > 1 {
						if m := (a + b) / 2; zoneOffset(uint32(m)) == zoneOffset(uint32(a)) {
							a = m
						} else {
							b = m
						}
					}
					vals = append(vals, uint32(a), uint32(b))
				}
			}
		}
		for i := 0; i < n/4; i++ {
			vals = append(vals, r.Uint32())
		}
		for _, v := range vals {
			g.emit(rp.TypeTimestamp, 0, uns(), le(uint64(v), 4))
			fsp := r.Intn(7)
			fv, k := fracBytes(fracOf(r, fsp), fsp)
			if v == 0 {
				fv = 0
			}
			g.emit(rp.TypeTimestamp2, uint16(fsp), uns(), cat(be(uint64(v), 4), be(uint64(fv), k)))
		}
		for fsp := 0; fsp <= 6; fsp++ {
			g.emit(rp.TypeTimestamp2, uint16(fsp), uns(), make([]byte, 4+(fsp+1)/2))
			for i := 0; i < n/10; i++ {
				fv, k := fracBytes(fracOf(r, fsp), fsp)
				g.emit(rp.TypeTimestamp2, uint16(fsp), uns(), cat(be(uint64(1+r.Intn(1<<31)), 4), be(uint64(fv), k)))
			}
		}
	}
}

func stringMeta(max int) uint16 {
	// MYSQL_TYPE_STRING: the two high bits of the length are hidden, inverted, in the type byte
	hi := rp.TypeString ^ ((max & 0x300) >> 4)
	return uint16(hi)<<8 | uint16(max&0xff)
}

func (g *cellGen) text(n int) []byte {
	switch g.r.Intn(4) {
	case 0:
		return randBytes(g.r, n)
	case 1:
		return []byte(strings.Repeat("\x00", n))
	case 2:
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + i%26)
		}
		return b
	}
	b := randBytes(g.r, n)
	for i := range b {
		b[i] = 32 + b[i]%95
	}
	return b
}

func (g *cellGen) strings() {
	r := g.r
	uns := func() bool { return r.Intn(2) == 0 }
	lens := func(max int) []int {
		s := map[int]bool{0: true, 1: true}
		for _, x := range []int{2, 127, 128, 251, 252, 253, 254, 255, 256, 257, 511, 512, 767, 768, 1023} {
			if x <= max {
				s[x] = true
			}
		}
		if max <= 2000 {
			s[max] = true
		}
		out := []int{r.Intn(max + 1)}
		if max > 2000 {
			out[0] = r.Intn(2000)
		}
		ks := []int{}
		for k := range s {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		for _, k := range ks {
			if g.deep || k < 3 || k == max || r.Intn(3) == 0 || k >= 250 && k <= 257 {
				out = append(out, k)
			}
		}
		return out
	}
	maxes := []int{0, 1, 2, 100, 127, 128, 254, 255, 256, 257, 300, 510, 511, 512, 513, 766, 767, 768, 769, 1000, 1020, 1023}
	step := 37
	if g.deep {
		step = 3
	}
	for m := 3 + r.Intn(step); m < 1023; m += step {
		maxes = append(maxes, m)
	}
	for _, m := range maxes {
		for _, l := range lens(m) {
			w := 1
			if m > 255 {
				w = 2
			}
			g.tag = "char"
			g.emit(rp.TypeString, stringMeta(m), uns(), cat(le(uint64(l), w), g.text(l)))
			g.tag = "varchar"
			t := byte(rp.TypeVarchar)
			if r.Intn(4) == 0 {
				t = rp.TypeVarString
			}
			g.emit(t, uint16(m), uns(), cat(le(uint64(l), w), g.text(l)))
		}
	}
	for _, m := range []int{1024, 4095, 21844, 32767, 32768, 65532, 65535} {
		g.tag = "varchar"
		for _, l := range lens(m) {
			g.emit(rp.TypeVarchar, uint16(m), uns(), cat(le(uint64(l), 2), g.text(l)))
		}
	}
	big := [][2]int{{rp.TypeVarchar, 65535}}
	for _, b := range big {
		g.tag = "varchar"
		g.emit(byte(b[0]), uint16(b[1]), uns(), cat(le(65532, 2), g.text(65532)))
		g.emit(byte(b[0]), uint16(b[1]), uns(), cat(le(32768, 2), g.text(32768)))
	}
	g.tag = "blob"
	for _, t := range []byte{rp.TypeBlob, rp.TypeTinyBlob, rp.TypeMediumBlob, rp.TypeLongBlob, rp.TypeGeometry} {
		for w := 1; w <= 4; w++ {
			ls := []int{0, 1, 2, 127, 128, 254, 255, r.Intn(256)}
			if w > 1 {
				ls = append(ls, 256, 257, 511, 512, 4000, r.Intn(3000))
				if t == rp.TypeBlob || t == rp.TypeGeometry {
					ls = append(ls, 32768, 65535)
				}
			}
			if w > 2 && (t == rp.TypeBlob || t == rp.TypeGeometry) {
				ls = append(ls, 65536, 65537, 70000)
			}
			if w > 3 && g.deep && (t == rp.TypeBlob || t == rp.TypeGeometry) {
				ls = append(ls, 1<<20+3)
			}
			for _, l := range ls {
				g.emit(t, uint16(w), uns(), cat(le(uint64(l), w), g.text(l)))
			}
		}
	}
	g.tag = "long"
	longs := [][2]int{{3, 1<<24 - 1}, {4, 1 << 24}, {4, 1<<24 + 70000}}
	for i, t := range []byte{rp.TypeBlob, rp.TypeLongBlob, rp.TypeMediumBlob, rp.TypeGeometry, rp.TypeTinyBlob} {
		for k, l := range longs {
			if g.deep || i < 2 && k == i || k == i {
				g.long(t, l[0], l[1])
			}
		}
	}
}

// jsonCell wraps a binary document into a JSON cell.
func (g *cellGen) jsonCell(doc []byte) {
	w := 4
	if g.r.Intn(6) == 0 && len(doc) < 65536 {
		w = 2 + g.r.Intn(2)
	}
	g.emit(rp.TypeJSON, uint16(w), g.r.Intn(2) == 0, cat(le(uint64(len(doc)), w), doc))
}

func cmdCells(which, out string, seed int64, deep bool) {
	g := &cellGen{w: newWriter(out), r: rand.New(rand.NewSource(seed)), deep: deep, count: map[string]int{}}
	time.Local = time.FixedZone("X", 19800)
	switch which {
	case "numeric":
		g.numeric()
	case "decimal":
		g.decimals()
	case "temporal":
		g.temporal()
	case "string":
		g.strings()
	case "json":
		g.documents()
	case "all":
		g.numeric()
		g.decimals()
		g.temporal()
		g.strings()
		g.documents()
	default:
		fatal("cells: ", which)
	}
	g.w.close()
	summary(g.w.n, g.count)
}

func summary(n int, count map[string]int) {
	b, err := json.Marshal(map[string]interface{}{"records": n, "tags": count})
	if err != nil {
		fatal(err)
	}
	fmt.Println(string(b))
}
