package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"

	rp "github.com/Breeze0806/gobinlog/replication"
)

// allKinds lists the kinds of column randCol makes.
var allKinds = []string{"tiny", "short", "int24", "long", "longlong", "float", "double", "year", "bit", "enum", "set",
	"decimal", "date", "newdate", "time", "datetime", "timestamp", "time2", "datetime2", "timestamp2", "char", "varchar",
	"varstring", "blob", "geometry", "json"}

func randCol(r *rand.Rand, kinds []string) col {
	c := col{u: r.Intn(2) == 0, null: r.Intn(2) == 0}
	fsp := uint16(r.Intn(7))
	switch kinds[r.Intn(len(kinds))] {
	case "tiny":
		c.t = rp.TypeTiny
	case "short":
		c.t = rp.TypeShort
	case "int24":
		c.t = rp.TypeInt24
	case "long":
		c.t = rp.TypeLong
	case "longlong":
		c.t = rp.TypeLongLong
	case "float":
		c.t, c.m = rp.TypeFloat, 4
	case "double":
		c.t, c.m = rp.TypeDouble, 8
	case "year":
		c.t = rp.TypeYear
	case "bit":
		n := 1 + r.Intn(64)
		c.t, c.m, c.max = rp.TypeBit, uint16(n/8)<<8|uint16(n%8), n
	case "enum":
		c.t, c.m, c.sub = rp.TypeString, rp.TypeEnum<<8|uint16(1+r.Intn(2)), rp.TypeEnum
	case "set":
		c.t, c.m, c.sub = rp.TypeString, rp.TypeSet<<8|uint16(pick(r, 1, 2, 3, 4, 8)), rp.TypeSet
	case "decimal":
		p := 1 + r.Intn(65)
		s := r.Intn(31)
		if s > p {
			s = p
		}
		c.t, c.m = rp.TypeNewDecimal, uint16(p)<<8|uint16(s)
	case "date":
		c.t = rp.TypeDate
	case "newdate":
		c.t = rp.TypeNewDate
	case "time":
		c.t = rp.TypeTime
	case "datetime":
		c.t = rp.TypeDateTime
	case "timestamp":
		c.t = rp.TypeTimestamp
	case "time2":
		c.t, c.m = rp.TypeTime2, fsp
	case "datetime2":
		c.t, c.m = rp.TypeDateTime2, fsp
	case "timestamp2":
		c.t, c.m = rp.TypeTimestamp2, fsp
	case "char":
		c.max = pick(r, 0, 1, 10, 255, 256, 257, 512, 767, 1020, r.Intn(1024))
		c.t, c.m, c.sub = rp.TypeString, stringMeta(c.max), rp.TypeString
	case "varchar":
		c.max = pick(r, 0, 1, 20, 255, 256, 300, 65535, r.Intn(65536))
		c.t, c.m = rp.TypeVarchar, uint16(c.max)
	case "varstring":
		c.max = pick(r, 0, 1, 20, 255, 256, 300, 65535, r.Intn(65536))
		c.t, c.m = rp.TypeVarString, uint16(c.max)
	case "blob":
		c.t, c.m = []byte{rp.TypeBlob, rp.TypeBlob, rp.TypeTinyBlob, rp.TypeMediumBlob, rp.TypeLongBlob}[r.Intn(5)], uint16(1+r.Intn(4))
	case "geometry":
		c.t, c.m = rp.TypeGeometry, uint16(1+r.Intn(4))
	case "json":
		c.t, c.m = rp.TypeJSON, 4
	default:
		fatal("kind")
	}
	return c
}

func shortLen(r *rand.Rand, max int) int {
	n := pick(r, 0, 0, 1, 2, 3, 5, 9)
	if r.Intn(24) == 0 {
		n = pick(r, 126, 127, 128, 254, 255, 256, 257, 300)
	}
	if n > max {
		n = max
	}
	return n
}

func payload(r *rand.Rand, n int) []byte {
	b := randBytes(r, n)
	if r.Intn(2) == 0 {
		for i := range b {
			b[i] = byte('a' + int(b[i])%26)
		}
	}
	return b
}

// cell makes one value of the column.
func (c col) cell(r *rand.Rand) []byte {
	small := func(n int) []byte {
		v := r.Uint64() >> uint(r.Intn(64))
		switch r.Intn(5) {
		case 0:
			v = -v
		case 1:
			v = uint64(pick(r, 0, 1, 127, 128, 255, 32768))
		}
		return le(v, n)
	}
	switch c.t {
	case rp.TypeTiny:
		return small(1)
	case rp.TypeShort:
		return small(2)
	case rp.TypeInt24:
		return small(3)
	case rp.TypeLong:
		return small(4)
	case rp.TypeLongLong:
		return small(8)
	case rp.TypeFloat:
		return le(uint64(math.Float32bits(float32(r.Intn(20001)-10000)/8)), 4)
	case rp.TypeDouble:
		return le(math.Float64bits(float64(r.Intn(2000001)-1000000)/float64(pick(r, 1, 3, 64, 1000))), 8)
	case rp.TypeYear:
		return []byte{byte(r.Intn(256))}
	case rp.TypeBit:
		b := randBytes(r, (c.max+7)/8)
		if c.max%8 != 0 {
			b[0] &= 1<<uint(c.max%8) - 1
		}
		return b
	case rp.TypeNewDecimal:
		p, s := int(c.m>>8), int(c.m&255)
		d := []byte(strings.Repeat("0", p))
		for i := r.Intn(p + 1); i < p; i++ {
			d[i] = byte('0' + r.Intn(10))
		}
		return encDecimal(r.Intn(2) == 0, string(d), p, s)
	case rp.TypeDate, rp.TypeNewDate:
		return le(uint64(r.Intn(10000)<<9|r.Intn(13)<<5|r.Intn(32)), 3)
	case rp.TypeTime:
		v := r.Intn(839)*10000 + r.Intn(60)*100 + r.Intn(60)
		if r.Intn(2) == 0 {
			v = -v
		}
		return le(uint64(v), 3)
	case rp.TypeDateTime:
		return le(((uint64(r.Intn(10000))*100+uint64(r.Intn(13)))*100+uint64(r.Intn(32)))*1000000+uint64(r.Intn(24)*10000+r.Intn(60)*100+r.Intn(60)), 8)
	case rp.TypeTimestamp:
		if r.Intn(5) == 0 {
			return le(0, 4)
		}
		return le(uint64(r.Uint32()), 4)
	case rp.TypeTime2:
		f := int(c.m)
		return encTime2(r.Intn(2) == 0, r.Intn(839), r.Intn(60), 1+r.Intn(59), fracOf(r, f), f)
	case rp.TypeDateTime2:
		f := int(c.m)
		return encDateTime2(r.Intn(10000), r.Intn(13), r.Intn(32), r.Intn(24), r.Intn(60), r.Intn(60), fracOf(r, f), f)
	case rp.TypeTimestamp2:
		f := int(c.m)
		if r.Intn(5) == 0 {
			return make([]byte, 4+(f+1)/2)
		}
		fv, k := fracBytes(fracOf(r, f), f)
		return cat(be(1+uint64(r.Intn(1<<31)), 4), be(uint64(fv), k))
	case rp.TypeString:
		if c.sub != rp.TypeString {
			return small(int(c.m & 255))
		}
		n := shortLen(r, c.max)
		w := 1
		if c.max > 255 {
			w = 2
		}
		return cat(le(uint64(n), w), payload(r, n))
	case rp.TypeVarchar, rp.TypeVarString:
		n := shortLen(r, c.max)
		if c.big > 0 && r.Intn(2) == 0 {
			n = minInt(c.big+r.Intn(3), c.max)
		}
		w := 1
		if c.max > 255 {
			w = 2
		}
		return cat(le(uint64(n), w), payload(r, n))
	case rp.TypeBlob, rp.TypeTinyBlob, rp.TypeMediumBlob, rp.TypeLongBlob, rp.TypeGeometry:
		n := shortLen(r, 1<<uint(8*minInt(int(c.m), 2))-1)
		if c.big > 0 && r.Intn(2) == 0 {
			n = minInt(c.big+r.Intn(3), 1<<uint(8*c.m)-1)
		}
		return cat(le(uint64(n), int(c.m)), payload(r, n))
	case rp.TypeJSON:
		d := &docGen{r: r}
		doc := d.value(r.Intn(3), 3).document(func() bool { return r.Intn(6) == 0 })
		return cat(le(uint64(len(doc)), 4), doc)
	}
	fatal("cell of type ", c.t)
	return nil
}

// zero is the zero of the column's type, nil if it has none.
func (c col) zero() []byte {
	k := (int(c.m) + 1) / 2
	switch c.t {
	case rp.TypeTiny, rp.TypeYear:
		return make([]byte, 1)
	case rp.TypeShort:
		return make([]byte, 2)
	case rp.TypeInt24, rp.TypeDate, rp.TypeNewDate, rp.TypeTime:
		return make([]byte, 3)
	case rp.TypeLong, rp.TypeFloat, rp.TypeTimestamp:
		return make([]byte, 4)
	case rp.TypeLongLong, rp.TypeDouble, rp.TypeDateTime:
		return make([]byte, 8)
	case rp.TypeTimestamp2:
		return make([]byte, 4+k)
	case rp.TypeTime2:
		return cat([]byte{0x80}, make([]byte, 2+k))
	case rp.TypeDateTime2:
		return cat([]byte{0x80}, make([]byte, 4+k))
	case rp.TypeNewDecimal:
		p, s := int(c.m>>8), int(c.m&255)
		return encDecimal(false, strings.Repeat("0", p), p, s)
	case rp.TypeBit:
		return make([]byte, (c.max+7)/8)
	case rp.TypeString:
		if c.sub != rp.TypeString {
			return make([]byte, int(c.m&255))
		}
	}
	return nil
}

// pickKinds picks n kinds of column.
func pickKinds(r *rand.Rand, n int) []string {
	var out []string
	for ; n > 0; n-- {
		out = append(out, allKinds[r.Intn(len(allKinds))])
	}
	return out
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

var nameParts = []string{"id", "Name", "c", "\u7528\u6237", "a b", "x`y", "v1", "\"q\"", "col-2", "\u00fc", "_", "<t>", "&"}

func randName(r *rand.Rand, k int) string {
	return fmt.Sprintf("%s%d", nameParts[r.Intn(len(nameParts))], k)
}

func randTable(r *rand.Rand, id uint64, ncols int, kinds []string) *table {
	t := &table{zeros: 12, id: id, db: randName(r, 1), name: randName(r, int(id%1000)), flags: someFlags(r, 1, 2, 4)}
	for i := 0; i < ncols; i++ {
		c := randCol(r, kinds)
		c.name = randName(r, i)
		t.cols = append(t.cols, c)
	}
	return t
}

func (t *table) row(r *rand.Rand, nullRate int) image {
	var im image
	for _, c := range t.cols {
		if nullRate > 0 && r.Intn(100) < nullRate {
			im.cells = append(im.cells, nil)
		} else {
			x := c.cell(r)
			if t.zeros > 0 && r.Intn(t.zeros) == 0 {
				if z := c.zero(); z != nil {
					x = z
				}
			}
			if x == nil {
				x = []byte{}
			}
			im.cells = append(im.cells, x)
		}
	}
	return im
}

func allTrue(n int) []bool {
	b := make([]bool, n)
	for i := range b {
		b[i] = true
	}
	return b
}

// somePresent picks a non-empty set of columns.
func somePresent(r *rand.Rand, n int) []bool {
	b := make([]bool, n)
	any := false
	for i := range b {
		b[i] = r.Intn(2) == 0
		any = any || b[i]
	}
	if !any {
		b[r.Intn(n)] = true
	}
	return b
}

// rowsFlags: end of statement, no checks, complete rows, and what may come.
func rowsFlags(r *rand.Rand) uint16 {
	if r.Intn(12) == 0 {
		return uint16(r.Intn(65536))
	}
	return uint16(r.Intn(16))
}

// rows makes a rows event of the given type.
func (t *table) rows(r *rand.Rand, typ byte, n int, partial bool, nullRate int) *rowsEvent {
	e := &rowsEvent{typ: typ, tb: t, flags: rowsFlags(r), before: allTrue(len(t.cols)), after: allTrue(len(t.cols)), junk: byte(r.Intn(256))}
	if isV2(typ) && r.Intn(3) == 0 {
		e.extra = randBytes(r, 1+r.Intn(20))
	}
	if partial {
		e.before, e.after = somePresent(r, len(t.cols)), somePresent(r, len(t.cols))
	}
	for i := 0; i < n; i++ {
		e.rows = append(e.rows, [2]image{t.row(r, nullRate), t.row(r, nullRate)})
	}
	return e
}
