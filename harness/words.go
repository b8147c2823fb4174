package main

import (
	"bufio"
	"encoding/json"
	"math/rand"
	"os"
	"strings"
)

// Words of the abstract binlog (MCStreamer.tla), and what the environment does to it, as TLC lists them.

type mishap struct {
	Kind string `json:"k"` // conn cancel hfail mfail end
	What string `json:"w"`
	At   int    `json:"n"`
}

type envWord struct {
	Log  []string `json:"log"`
	Atts []mishap `json:"atts"`
}

var words []envWord

func loadWords(path string) {
	f, err := os.Open(path)
	if err != nil {
		fatal(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<24)
	for sc.Scan() {
		var v envWord
		if err := json.Unmarshal(sc.Bytes(), &v); err != nil {
			fatal(err)
		}
		words = append(words, v)
	}
}

var unsupported = []byte{evRand, evIntVar, evRowsQuery}

// word makes the history a word stands for; anyEnd: x is XID or COMMIT.
func (h *history) word(log []string, anyEnd bool) {
	var t *table
	open := false
	for _, l := range log {
		switch l {
		case "b":
			h.gtid()
			h.begin()
			open = true
		case "t":
			if !open {
				h.gtid()
			}
			t = h.someTable()
			h.tableMap(t)
		case "c":
			h.rows(t)
		case "d":
			if !open {
				h.gtid()
			}
			if h.r.Intn(2) == 0 {
				h.query("db", h.stmt(dml[h.r.Intn(len(dml))]))
			} else {
				h.query(randName(h.r, 3), h.stmt(ddl[h.r.Intn(len(ddl))]))
			}
		case "x", "k", "r":
			end := map[string]int{"x": 0, "k": 1, "r": 2}[l]
			if l == "x" && anyEnd {
				end = h.r.Intn(2)
			}
			h.finish(end)
			open = false
		case "o":
			h.nextFile()
		case "j":
			h.skipped()
		case "q":
			h.unknown()
		case "u":
			h.unsupported()
		default:
			fatal("letter ", l)
		}
		fl := h.cur()
		if n := len(fl.events); n > 0 {
			h.marks[fl.events[n-1].pk] = true
		} else {
			h.marks[fl.fde] = true
		}
	}
}

// unsupported appends an event the streamer cannot go past.
func (h *history) unsupported() {
	switch h.r.Intn(9) {
	case 0:
		h.add(evRand, randBytes(h.r, 16))
	case 1:
		h.add(evIntVar, append([]byte{byte(1 + h.r.Intn(2))}, randBytes(h.r, 8)...))
	case 2:
		h.add(evRowsQuery, append([]byte{6}, "insert"...))
	case 3: // rows of a table nobody announced
		t := randTable(h.r, 0xfffff0+uint64(h.r.Intn(10)), 2, h.kinds)
		e := t.rows(h.r, h.rowsType(), 1, false, 0)
		h.add(e.typ, e.body(h.cur().f))
	case 4: // a query whose database name is longer than the event
		h.add(evQuery, cat(randBytes(h.r, 8), []byte{200}, randBytes(h.r, 2), []byte{0, 0}, []byte("db\x00BEGIN")))
	case 5: // a cut table map
		t := randTable(h.r, h.nextID, 1+h.r.Intn(3), h.kinds)
		b := t.mapBody(h.cur().f, h.r, nil, 0)
		h.add(evTableMap, b[:h.r.Intn(len(b))])
	case 6: // rows cut short
		t := h.newTable(1 + h.r.Intn(3))
		h.tableMap(t)
		e := t.rows(h.r, h.rowsType(), 1+h.r.Intn(2), false, 0)
		b := e.body(h.cur().f)
		h.add(e.typ, b[:h.r.Intn(len(b))])
	case 7: // rows of another number of columns
		t := h.newTable(2 + h.r.Intn(3))
		h.tableMap(t)
		u := *t
		u.cols = u.cols[:1]
		e := u.rows(h.r, h.rowsType(), 1, false, 0)
		h.add(e.typ, e.body(h.cur().f))
	case 8: // a document of an unknown type
		ks := h.kinds
		h.kinds = []string{"json"}
		t := h.newTable(1)
		h.kinds = ks
		h.tableMap(t)
		typ := h.rowsType()
		e := t.rows(h.r, typ, 0, false, 0)
		im := cat([]byte{0}, le(3, int(t.cols[0].m)), []byte{byte(pick(h.r, 13, 14, 16, 255)), 1, 2})
		if typ == evUpdateV1 || typ == evUpdateV2 {
			im = cat(im, im)
		}
		h.add(typ, cat(e.body(h.cur().f), im))
	}
}

var endKinds = map[string][]string{
	"err":   {"err", "err", "errnostate"},
	"lost":  {"close", "partial", "errshort", "empty", "badseq"},
	"reset": {"reset"},
	"eof":   {"eof"},
}
var connKinds = map[string][]string{
	"accepted":  {"noconn", "badgreet", "greeterr", "autherr", "authclose"},
	"announced": {"seterr", "setclose", "setgarbage"},
	"none":      {"refuse"},
}
var masterErrors = []string{"Could not find first log file name in binary log index file", "log event entry exceeded max_allowed_packet", "x",
	"\u00e9chec: 100% %s %d", "A slave with the same server_uuid has connected", "", "context canceled", "stream reached EOF", "EOF", "unexpected EOF",
	"use of closed network connection", "context deadline exceeded", "x#y", "\x00\xff\xfe", strings.Repeat("log truncated ", 200)}

func oneOf(r *rand.Rand, s []string) string { return s[r.Intn(len(s))] }

func (m mishap) attempt(r *rand.Rand) attempt {
	a := eof()
	a.errMsg = oneOf(r, masterErrors)
	switch m.Kind {
	case "conn":
		a.conn = oneOf(r, connKinds[m.What])
	case "cancel":
		a.cancel, a.at, a.end = m.What, m.At, oneOf(r, []string{"hang", "eof", "hang", "close"})
		if m.What == "send" {
			a.cancel = "letter"
		}
	case "hfail":
		a.hfail, a.end = m.At, oneOf(r, []string{"hang", "eof", "close"})
	case "mfail":
		a.mfail, a.mkind, a.end = m.At, oneOf(r, []string{"error", "less", "more"}), oneOf(r, []string{"hang", "eof"})
	case "end":
		a.end = oneOf(r, endKinds[m.What])
		a.letters, a.letter = true, m.At
	default:
		fatal("mishap ", m.Kind)
	}
	return a
}

func init() {
	families["schedules"] = family{0, 0, func(id int, r *rand.Rand) *scenario { return wordScenario(id, r, true) }}
	families["words"] = family{0, 0, func(id int, r *rand.Rand) *scenario { return wordScenario(id, r, false) }}
}

func wordScenario(id int, r *rand.Rand, anyEnd bool) *scenario {
	w := words[id]
	h := newHistory(r)
	h.nextFile()
	h.word(w.Log, anyEnd)
	s := fresh(h)
	for _, m := range w.Atts {
		s.attempts = append(s.attempts, m.attempt(r))
	}
	s.attempts = append(s.attempts, eof())
	return s
}
