package main

import (
	"bufio"
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"time"

	gb "github.com/Breeze0806/gobinlog"
)

// ---- verdicts

func fail(format string, a ...interface{}) {
	fmt.Printf("FAIL: "+format+"\n", a...)
	os.Exit(1)
}

func want(what string, got, exp interface{}) {
	if g, e := fmt.Sprint(got), fmt.Sprint(exp); g != e {
		fail("%s: got %q, want %q", what, g, e)
	}
}

func must(err error) {
	if err != nil {
		fail("%v", err)
	}
}

// ---- a binlog

func le(v uint64, n int) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, v)
	return b[:n:n]
}

func be(v uint64, n int) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, v)
	return b[8-n:]
}

func cat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

func rawEvent(typ byte, ts, next uint32, body []byte) []byte {
	e := cat(le(uint64(ts), 4), []byte{typ}, le(1, 4), le(uint64(19+len(body)), 4), le(uint64(next), 4), le(0, 2), body)
	return e
}

var sizes = []byte{56, 13, 0, 8, 0, 18, 0, 4, 4, 4, 4, 18, 0, 0, 95, 0, 4, 26, 8, 0, 0, 0, 8, 8, 8, 2, 0, 0, 0, 10, 10, 10, 42, 42, 0, 18, 52, 0}

func formatEvent() []byte {
	v := make([]byte, 50)
	copy(v, "5.7.30-log")
	return rawEvent(15, 1600000000, 0, cat(le(4, 2), v, le(0, 4), []byte{19}, sizes, []byte{0}, le(0, 4)))
}

func fakeRotate(file string, off uint64) []byte { return rawEvent(4, 0, 0, cat(le(off, 8), []byte(file))) }

// binlog is what a master sends.
type binlog struct {
	file   string
	at     uint32
	ts     uint32
	events [][]byte
}

func newBinlog(file string, at uint32) *binlog {
	return &binlog{file: file, at: at, ts: 1600000000, events: [][]byte{fakeRotate(file, uint64(at)), formatEvent()}}
}

func (l *binlog) add(typ byte, body []byte) *binlog {
	l.at += uint32(19 + len(body))
	l.events = append(l.events, rawEvent(typ, l.ts, l.at, body))
	return l
}

func (l *binlog) sql(q string) *binlog {
	return l.add(2, cat(le(1, 4), le(0, 4), []byte{2}, le(0, 2), le(0, 2), []byte("db\x00"), []byte(q)))
}
func (l *binlog) begin() *binlog { return l.sql("BEGIN") }
func (l *binlog) xid() *binlog   { return l.add(16, le(7, 8)) }
func (l *binlog) rotate(file string, off uint32) *binlog {
	l.add(4, cat(le(uint64(off), 8), []byte(file)))
	l.file, l.at = file, off
	return l
}

func tableMap(id uint64, db, tb string, types, meta []byte) []byte {
	b := cat(le(id, 6), le(1, 2), []byte{byte(len(db))}, []byte(db), []byte{0, byte(len(tb))}, []byte(tb), []byte{0})
	b = append(b, byte(len(types)))
	b = append(b, types...)
	b = append(b, byte(len(meta)))
	b = append(b, meta...)
	return append(b, make([]byte, (len(types)+7)/8)...)
}

func (l *binlog) table(id uint64, db, tb string, types, meta []byte) *binlog {
	return l.add(19, tableMap(id, db, tb, types, meta))
}

func rowsBody(id uint64, cols byte, rest ...[]byte) []byte {
	return cat(le(id, 6), le(1, 2), le(2, 2), []byte{cols}, cat(rest...))
}

// insert of one-byte integers into a table of one column
func (l *binlog) insert(id uint64, vs ...byte) *binlog {
	var rows []byte
	for _, v := range vs {
		rows = append(rows, 0, v)
	}
	return l.add(30, rowsBody(id, 1, []byte{1}, rows))
}

var tiny = []byte{1}

// tx is BEGIN, an insert of the values into db.t, XID
func (l *binlog) tx(vs ...byte) *binlog {
	return l.begin().table(9, "db", "t", tiny, nil).insert(9, vs...).xid()
}

// ---- a master

type conn struct {
	net.Conn
	r   *bufio.Reader
	seq byte
}

func (c *conn) read() []byte {
	var h [4]byte
	if _, err := io.ReadFull(c.r, h[:]); err != nil {
		return nil
	}
	b := make([]byte, int(h[0])|int(h[1])<<8|int(h[2])<<16)
	if _, err := io.ReadFull(c.r, b); err != nil {
		return nil
	}
	c.seq = h[3] + 1
	return b
}

func (c *conn) write(b []byte) {
	c.Write(append([]byte{byte(len(b)), byte(len(b) >> 8), byte(len(b) >> 16), c.seq}, b...))
	c.seq++
}

func (c *conn) event(e []byte) { c.write(append([]byte{0}, e...)) }
func (c *conn) eof()           { c.write([]byte{0xfe, 0, 0, 2, 0}) }
func (c *conn) fail(msg string) {
	c.write(cat([]byte{0xff}, le(1236, 2), []byte("#HY000"), []byte(msg)))
}

// gone waits for the replica to close the connection.
func (c *conn) gone(d time.Duration) bool {
	c.SetReadDeadline(time.Now().Add(d))
	for {
		if _, err := c.r.ReadByte(); err != nil {
			ne, ok := err.(net.Error)
			return !(ok && ne.Timeout())
		}
	}
}

func greeting() []byte {
	caps := uint32(1 | 2 | 4 | 8 | 0x200 | 0x2000 | 0x8000 | 0x10000 | 0x20000 | 0x80000)
	return cat([]byte{10}, []byte("5.7.30-log\x00"), le(7, 4), []byte("12345678\x00"), le(uint64(caps&0xffff), 2), []byte{33},
		le(2, 2), le(uint64(caps>>16), 2), []byte{21}, make([]byte, 10), []byte("901234567890\x00"), []byte("mysql_native_password\x00"))
}

var okPacket = []byte{0, 0, 0, 2, 0, 0, 0}

// master answers connections one after another: query decides about statements (nil: OK), dump serves the stream.
type master struct {
	l     net.Listener
	mu    sync.Mutex
	seen  []string // commands of all connections
	dumps [][]byte
	query func(c *conn, q string) bool // true: answered
	dump  func(c *conn, n int)
}

func newMaster(dump func(c *conn, n int)) *master {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	m := &master{l: l, dump: dump}
	go func() {
		for {
			nc, err := l.Accept()
			if err != nil {
				return
			}
			go m.serve(&conn{Conn: nc, r: bufio.NewReader(nc)})
		}
	}()
	return m
}

func (m *master) serve(c *conn) {
	defer c.Close()
	c.write(greeting())
	if c.read() == nil {
		return
	}
	c.write(okPacket)
	for {
		b := c.read()
		if b == nil || b[0] == 1 {
			return
		}
		m.mu.Lock()
		switch b[0] {
		case 3:
			m.seen = append(m.seen, string(b[1:]))
		case 0x12:
			m.seen = append(m.seen, "DUMP")
			m.dumps = append(m.dumps, b)
		}
		n := len(m.dumps)
		m.mu.Unlock()
		if b[0] == 0x12 {
			m.dump(c, n)
			c.gone(5 * time.Second)
			return
		}
		if m.query == nil || !m.query(c, string(b[1:])) {
			c.write(okPacket)
		}
	}
}

func (m *master) dsn() string { return fmt.Sprintf("root:pw@tcp(%s)/db?timeout=5s", m.l.Addr()) }

// send sends a whole binlog and ends the stream.
func send(l *binlog) func(c *conn, n int) {
	return func(c *conn, n int) {
		for _, e := range l.events {
			c.event(e)
		}
		c.eof()
	}
}

// ---- the tables

type column struct {
	name     string
	unsigned bool
}

func (c column) Field() string       { return c.name }
func (c column) IsUnSignedInt() bool { return c.unsigned }

type table struct {
	name gb.MysqlTableName
	cols []gb.MysqlColumn
}

func (t table) Name() gb.MysqlTableName   { return t.name }
func (t table) Columns() []gb.MysqlColumn { return t.cols }

// tables maps "db.tb" to its columns; every other table has one column "c".
type tables map[string][]gb.MysqlColumn

func (m tables) MysqlTable(n gb.MysqlTableName) (gb.MysqlTable, error) {
	if cols, ok := m[n.DbName+"."+n.TableName]; ok {
		return table{n, cols}, nil
	}
	return table{n, []gb.MysqlColumn{column{"c", false}}}, nil
}

func cols(names ...string) (r []gb.MysqlColumn) {
	for _, n := range names {
		u := n[0] == '+'
		if u {
			n = n[1:]
		}
		r = append(r, column{n, u})
	}
	return
}

func newStreamer(m *master, tbs tables, file string, at int64) *gb.Streamer {
	s, err := gb.NewStreamer(m.dsn(), 77, tbs)
	must(err)
	s.SetBinlogPosition(gb.Position{Filename: file, Offset: at})
	return s
}

// deliveries streams a binlog and returns what the handler gets.
func deliveries(l *binlog, tbs tables, file string, at int64) (ts []*gb.Transaction, err error) {
	m := newMaster(send(l))
	s := newStreamer(m, tbs, file, at)
	err = s.Stream(context.Background(), func(t *gb.Transaction) error {
		ts = append(ts, t)
		return nil
	})
	if err == nil {
		err = s.Error()
	}
	return
}

// within fails when f takes longer than d.
func within(d time.Duration, what string, f func()) {
	ch := make(chan struct{})
	go func() { f(); close(ch) }()
	select {
	case <-ch:
	case <-time.After(d):
		fail("%s does not return", what)
	}
}

// show renders a row: name=text, name=NULL, name absent
func show(r *gb.RowData) (s string) {
	for i, c := range r.Columns {
		if i > 0 {
			s += " "
		}
		switch {
		case c.IsEmpty:
			s += c.Filed + "?"
		case c.Data == nil:
			s += c.Filed + "=NULL"
		default:
			s += c.Filed + "=" + string(c.Data)
		}
	}
	return
}

func showTx(t *gb.Transaction) string {
	s := fmt.Sprintf("%s:%d-%s:%d", t.NowPosition.Filename, t.NowPosition.Offset, t.NextPosition.Filename, t.NextPosition.Offset)
	for _, e := range t.Events {
		s += " " + e.Type.String()
		if e.Query.SQL != "" {
			s += "(" + e.Query.SQL + ")"
		}
		for i := range e.RowValues {
			s += "["
			if i < len(e.RowIdentifies) {
				s += show(e.RowIdentifies[i]) + " -> "
			}
			s += show(e.RowValues[i]) + "]"
		}
		if len(e.RowValues) == 0 {
			for _, r := range e.RowIdentifies {
				s += "[" + show(r) + "]"
			}
		}
	}
	return s
}

func showAll(ts []*gb.Transaction) (s string) {
	for _, t := range ts {
		s += showTx(t) + "\n"
	}
	return
}
