package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"

	gb "github.com/Breeze0806/gobinlog"
)

// deadline bounds everything the code under test must do on its own.
var deadline = 20 * time.Second

// trace is the log of one scenario; every event is logged at its linearization point, under mu.
type trace struct {
	mu     sync.Mutex
	ev     []Rec
	mt     []Rec
	keep   []*gb.Transaction
	said   []string // what they said when they were delivered
	kept   int      // bytes of that
	labels []position
	asks   []ann // the lookups to expect
	mask   []map[place]bool
	now    *attempt // the one that runs
}

func (t *trace) log(e string, kv ...interface{}) {
	r := Rec{"e": e}
	for i := 0; i+1 < len(kv); i += 2 {
		r[kv[i].(string)] = kv[i+1]
	}
	t.mu.Lock()
	t.ev = append(t.ev, r)
	t.mu.Unlock()
}

func off8(v int64) []int { return B(le(uint64(v), 8)) }

var stmtNames = map[gb.StatementType]string{
	gb.StatementBegin: "begin", gb.StatementCommit: "commit", gb.StatementRollback: "rollback", gb.StatementInsert: "insert",
	gb.StatementUpdate: "update", gb.StatementDelete: "delete", gb.StatementCreate: "create", gb.StatementAlter: "alter",
	gb.StatementDrop: "drop", gb.StatementTruncate: "truncate", gb.StatementRename: "rename", gb.StatementSet: "set",
}

// place is where a value is in a transaction: event, image, row, column.
type place [4]int

func rowsRec(rs []*gb.RowData, e, image int, skip map[place]bool) [][]Rec {
	out := [][]Rec{}
	for i, r := range rs {
		cells := []Rec{}
		for k, c := range r.Columns {
			x := Rec{"n": S(c.Filed), "t": int(c.Type), "e": c.IsEmpty, "z": c.Data == nil, "d": B(c.Data)}
			x["x"] = skip[place{e, image, i, k}]
			cells = append(cells, x)
		}
		out = append(out, cells)
	}
	return out
}

func tranRec(t *gb.Transaction, skip map[place]bool) Rec {
	evs := []Rec{}
	for i, e := range t.Events {
		cs := []int{}
		if e.Query.Charset != nil {
			cs = []int{int(e.Query.Charset.Client), int(e.Query.Charset.Conn), int(e.Query.Charset.Server)}
		}
		name := stmtNames[e.Type]
		if name == "" {
			name = "?"
		}
		evs = append(evs, Rec{"ty": name, "db": S(e.Table.DbName), "tb": S(e.Table.TableName), "ts": off8(e.Timestamp),
			"qdb": S(e.Query.Database), "sql": S(e.Query.SQL), "cs": cs,
			"rv": rowsRec(e.RowValues, i, 0, skip), "ri": rowsRec(e.RowIdentifies, i, 1, skip)})
	}
	return Rec{"nf": S(t.NowPosition.Filename), "no": off8(t.NowPosition.Offset), "xf": S(t.NextPosition.Filename), "xo": off8(t.NextPosition.Offset),
		"ts": off8(t.Timestamp), "ev": evs}
}

// column and mtable are what the table mapper hands out.
type column struct {
	name string
	u    bool
}

func (c *column) Field() string       { return c.name }
func (c *column) IsUnSignedInt() bool { return c.u }

type mtable struct {
	name gb.MysqlTableName
	cols []gb.MysqlColumn
}

func (m *mtable) Name() gb.MysqlTableName   { return m.name }
func (m *mtable) Columns() []gb.MysqlColumn { return m.cols }

// contexts are the kinds of context a caller may have.
var contexts = []string{"plain", "plain", "plain", "child", "value", "cause", "foreign", "expires"}

func newContext(kind string) (context.Context, func()) {
	ctx, cancel := context.WithCancel(context.Background())
	switch kind {
	case "child":
		c, stop := context.WithCancel(ctx)
		context.AfterFunc(ctx, stop)
		return c, cancel
	case "value":
		return context.WithValue(ctx, place{}, kind), cancel
	case "cause":
		c, stop := context.WithCancelCause(ctx)
		return c, func() { stop(errors.New("that's enough")); cancel() }
	case "foreign":
		c := &ownContext{done: make(chan struct{}), why: context.Canceled}
		return c, c.end
	case "expires":
		c := &ownContext{done: make(chan struct{}), why: context.DeadlineExceeded}
		return c, c.end
	}
	return ctx, cancel
}

// ownContext is a context of the caller's own making; one that expires does so when end is called.
type ownContext struct {
	once sync.Once
	done chan struct{}
	why  error
}

func (c *ownContext) end()                              { c.once.Do(func() { close(c.done) }) }
func (c *ownContext) Deadline() (t time.Time, ok bool)  { return }
func (c *ownContext) Done() <-chan struct{}             { return c.done }
func (c *ownContext) Value(key interface{}) interface{} { return nil }
func (c *ownContext) Err() error {
	select {
	case <-c.done:
		return c.why
	default:
		return nil
	}
}

// attempt is one Stream call and what happens to it.
type attempt struct {
	conn    string // what goes wrong before the dump: see serve
	limit   int    // packets sent, -1: all
	letters bool   // only so many letters of the word are sent
	letter  int
	tail    [][]byte
	wild    bool   // the tail packets have arbitrary bodies
	end     string // eof err errshort close reset hang partial empty
	errMsg  string
	hfail   int // the n-th handler call of the attempt fails
	mfail   int // the n-th mapper call of the attempt fails
	mkind   string
	cancel  string // when the caller cancels: precall accept set dump send hcall hret mcall idle
	rash    bool   // cancel while the driver is still dialling
	at      int
	slow    int // the handler takes its time on every slow-th call
	ctx     string
	steps   []string
}

type scenario struct {
	id       int
	h        *history
	file     string
	off      uint64
	attempts []attempt
	reread   bool
	scribble bool
	dropped  bool
	serverID uint32
	twin     *scenario // runs at the same time, on a Streamer of its own
	paired   bool      // one of two that run at the same time
	preError bool      // call Error before the first Stream
	jumps    map[int]position
	strays   map[int]bool // positions to jump to that are in no binlog
	stray    bool
	probe    bool // resume at labels delivered by the first attempt
	labels   int  // at most so many of them
	zone     int  // seconds east of UTC
}

type position struct {
	file string
	off  uint64
}

type runner struct {
	r       *rand.Rand // of the handler's thread
	mr      *rand.Rand // of the master's thread
	w       *writer
	races   string // race detector log prefix
	nrace   int
	stats   map[string]int
	collect func(*gb.Transaction) // sees what is delivered
}

func (rn *runner) raceCount() int {
	if rn.races == "" {
		return 0
	}
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", rn.races, os.Getpid()))
	if err != nil {
		return 0
	}
	n := 0
	for _, w := range strings.Split(string(b), "==================") {
		if strings.Contains(w, "WARNING: DATA RACE") && strings.Contains(w, "github.com/Breeze0806/") {
			n++
		}
	}
	return n
}

// libraryGoroutines lists the stacks that have a frame of the library (or its driver), or wait on its behalf.
func libraryGoroutines() []string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "github.com/Breeze0806/gobinlog") || strings.Contains(g, "github.com/Breeze0806/mysql") ||
			strings.Contains(g, "context.(*cancelCtx).propagateCancel") { // a context it derived from the caller's own
			out = append(out, g)
		}
	}
	return out
}

// waitFrame waits until the library is in a function: the driver forgets a connection whose context
// ends after it was dialled and before its handshake is read (see KNOWN_FINDINGS.md).
func waitFrame(name string) {
	for end := time.Now().Add(5 * time.Second); time.Now().Before(end); time.Sleep(200 * time.Microsecond) {
		for _, g := range libraryGoroutines() {
			if strings.Contains(g, name) {
				return
			}
		}
	}
}

// run executes a scenario and writes its trace.
func (rn *runner) run(s *scenario) {
	t := &trace{}
	alive := true
	if s.twin == nil {
		alive = rn.play(s, t)
	} else {
		o, tt := &runner{}, &trace{}
		time.Local = time.FixedZone("Z", s.zone)
		s.paired, s.twin.paired, s.twin.zone, s.twin.id = true, true, s.zone, s.id+twinBase
		both := make(chan bool)
		go func() { both <- o.play(s.twin, tt) }()
		alive = rn.play(s, t)
		alive = <-both && alive
		if alive {
			alive = quiet(t)
		}
		rn.report(s.twin, tt)
	}
	if n := rn.raceCount(); n > rn.nrace {
		rn.nrace = n
		t.log("race")
	}
	rn.report(s, t)
	if !alive {
		rn.w.close()
		summary(rn.w.n, rn.stats)
		os.Exit(0)
	}
}

// twinBase is added to the number of a scenario for the one that runs beside it.
const twinBase = 1 << 24

// play executes a scenario; false: the code under test is stuck.
func (rn *runner) play(s *scenario, t *trace) bool {
	m := newMaster()
	rn.r, rn.mr = rand.New(rand.NewSource(int64(s.id)*7+1)), rand.New(rand.NewSource(int64(s.id)*7+2))
	if !s.paired {
		time.Local = time.FixedZone("Z", s.zone)
	}
	mapper := &mapperProbe{s: s, t: t, r: rn.r}
	if s.serverID == 0 {
		s.serverID = 1 + rn.r.Uint32()>>1
	}
	dsn := m.dsn()
	for i := range s.attempts {
		if s.attempts[i].conn == "toolong" {
			dsn += "&maxAllowedPacket=1000"
			break
		}
	}
	if s.attempts[0].rash {
		dsn = strings.Replace(dsn, "@tcp(", "@rash(", 1)
	}
	st, err := gb.NewStreamer(dsn, s.serverID, mapper)
	if err != nil {
		fatal(err)
	}
	st.SetBinlogPosition(gb.Position{Filename: s.file, Offset: int64(s.off)})
	if s.preError {
		rn.errorCall(t, st)
	}
	alive := true
	for i := 0; i < len(s.attempts); i++ {
		if i == 1 && s.probe {
			s.addProbes(t)
		}
		if p, ok := s.jumps[i]; ok {
			t.log("setpos", "f", S(p.file), "o", off8(int64(p.off)))
			st.SetBinlogPosition(gb.Position{Filename: p.file, Offset: int64(p.off)})
			s.stray = s.strays[i]
		}
		long := s.attempts[i].conn == "toolong"
		if long {
			p := position{strings.Repeat("l", 1001+rn.r.Intn(1000)), uint64(rn.r.Uint32())}
			t.log("setpos", "f", S(p.file), "o", off8(int64(p.off)))
			st.SetBinlogPosition(gb.Position{Filename: p.file, Offset: int64(p.off)})
		}
		if !rn.attempt(s, t, m, st, mapper, &s.attempts[i]) {
			alive = false
			break
		}
		if long {
			t.log("setpos", "f", S(s.file), "o", off8(int64(s.off)))
			st.SetBinlogPosition(gb.Position{Filename: s.file, Offset: int64(s.off)})
		}
	}
	if alive {
		for i, tr := range t.keep {
			rec := tranRec(tr, t.mask[i])
			if s.reread || text(rec) != t.said[i] {
				t.log("reread", "n", i+1, "tran", rec)
			}
		}
	}
	m.l.Close()
	return alive
}

func text(r Rec) string {
	b, err := json.Marshal(r)
	if err != nil {
		fatal(err)
	}
	return string(b)
}

// report writes the trace of a scenario.
func (rn *runner) report(s *scenario, t *trace) {
	pk := [][]int{}
	for _, p := range s.h.pk {
		pk = append(pk, B(p))
	}
	mt := t.mt
	if mt == nil {
		mt = []Rec{}
	}
	wild := s.h.wild
	if wild == nil {
		wild = []int{}
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	rn.w.put(Rec{"id": s.id, "pk": pk, "wild": wild, "mt": mt, "off": s.zone, "sf": S(s.file), "so": B(le(s.off, 8)), "sid": B(le(uint64(s.serverID), 4)), "ev": t.ev})
	for _, e := range t.ev {
		rn.stats[e["e"].(string)]++
	}
}

// addProbes makes further attempts start at labels the first attempt delivered.
func (s *scenario) addProbes(t *trace) {
	last := s.attempts[len(s.attempts)-1]
	s.attempts = s.attempts[:1]
	s.jumps = map[int]position{}
	var ps []position
	for _, p := range t.labels {
		if len(ps) == 0 || ps[len(ps)-1] != p {
			ps = append(ps, p)
		}
	}
	step := 1
	if s.labels > 0 {
		step = 1 + len(ps)/s.labels
	}
	for i := s.id % step; i < len(ps); i += step {
		s.jumps[len(s.attempts)] = ps[i]
		s.attempts = append(s.attempts, last)
	}
}

func (rn *runner) errorCall(t *trace, st *gb.Streamer) bool {
	soft := t.now != nil && t.now.ctx == "expires"
	type res struct {
		err error
		p   string
	}
	ch := make(chan res, 1)
	go func() {
		var e error
		p := guard(func() { e = st.Error() })
		ch <- res{e, p}
	}()
	select {
	case x := <-ch:
		if x.p != "" {
			t.log("panic", "text", S(x.p))
		} else if x.err == nil {
			t.log("error", "nil", true, "text", S(""), "soft", soft)
		} else {
			t.log("error", "nil", false, "text", S(clipText(x.err.Error())), "soft", soft)
		}
		return true
	case <-time.After(deadline):
		t.log("hang", "in", S("Error"))
		return false
	}
}

func clipText(s string) string {
	if len(s) > 6000 {
		return s[:6000]
	}
	return s
}

// mapperProbe is the table mapper.
type mapperProbe struct {
	s  *scenario
	t  *trace
	r  *rand.Rand
	mu sync.Mutex
	a  *attempt
	n  int
	on func(what string, n int)
}

func (m *mapperProbe) MysqlTable(name gb.MysqlTableName) (gb.MysqlTable, error) {
	m.mu.Lock()
	m.n++
	n, a, on := m.n, m.a, m.on
	m.mu.Unlock()
	m.t.log("mcall", "db", S(name.DbName), "tb", S(name.TableName))
	on("mcall", n)
	tb := m.s.h.tables[name.DbName+"\x00"+name.TableName]
	ans := Rec{"db": S(name.DbName), "tb": S(name.TableName), "err": false, "cols": []Rec{}}
	var out *mtable
	fail := a.mfail == n
	if fail && a.mkind == "error" || tb == nil {
		ans["err"] = true
	} else {
		out = &mtable{name: name}
		cols := tb.cols
		m.t.mu.Lock()
		if n <= len(m.t.asks) && m.t.asks[n-1].key == name.DbName+"\x00"+name.TableName {
			cols = m.t.asks[n-1].cols // the table as it was then
		}
		m.t.mu.Unlock()
		if fail && a.mkind == "less" {
			cols = cols[:len(cols)-1]
		}
		recs := []Rec{}
		for _, c := range cols {
			recs = append(recs, Rec{"n": S(c.name), "u": c.u})
			out.cols = append(out.cols, &column{c.name, c.u})
		}
		if fail && a.mkind == "more" {
			recs = append(recs, Rec{"n": S("extra"), "u": true})
			out.cols = append(out.cols, &column{"extra", true})
		}
		ans["cols"] = recs
	}
	m.t.mu.Lock()
	m.t.mt = append(m.t.mt, ans)
	m.t.ev = append(m.t.ev, Rec{"e": "mret", "a": len(m.t.mt)})
	m.t.mu.Unlock()
	if out == nil {
		if tb != nil && m.r.Intn(2) == 0 { // an error counts, whatever comes with it
			out = &mtable{name: name}
			for _, c := range tb.cols {
				out.cols = append(out.cols, &column{c.name, c.u})
			}
			return out, refuse(m.r)
		}
		return nil, refuse(m.r)
	}
	return out, nil
}

// attempt runs one Stream call; false: the code under test is stuck.
func (rn *runner) attempt(s *scenario, t *trace, m *master, st *gb.Streamer, mp *mapperProbe, a *attempt) bool {
	if a.rash {
		a.ctx = ""
	} else if a.ctx == "" {
		a.ctx = oneOf(rn.r, contexts)
	}
	ctx, cancel := newContext(a.ctx)
	defer cancel()
	t.now = a
	t.log("renew")
	var once sync.Once
	doCancel := func() {
		once.Do(func() {
			t.log("cancel")
			cancel()
		})
	}
	on := func(what string, n int) {
		if a.cancel == what && (a.at == n || a.at == 0) {
			doCancel()
		}
	}
	mp.mu.Lock()
	mp.a, mp.n, mp.on = a, 0, on
	mp.mu.Unlock()
	hn := 0
	handler := func(tr *gb.Transaction) error {
		hn++
		rec := tranRec(tr, nil)
		if t.now != a {
			t.log("stale") // the handler of an earlier call
		}
		if rn.collect != nil {
			rn.collect(tr)
		}
		t.log("hcall", "tran", rec)
		on("hcall", hn)
		if a.slow > 0 && hn%a.slow == 0 {
			time.Sleep(time.Duration(300+hn*50) * time.Microsecond)
		}
		fail := a.hfail == hn
		if s.probe && len(s.attempts) > 0 && a == &s.attempts[0] {
			t.labels = append(t.labels, position{tr.NowPosition.Filename, uint64(tr.NowPosition.Offset)}, position{tr.NextPosition.Filename, uint64(tr.NextPosition.Offset)})
		}
		mask := map[place]bool{}
		if s.scribble {
			scribble(tr, rn.r, mask)
		}
		t.mu.Lock()
		if s.reread || !s.dropped && t.kept < 1<<25 {
			said := ""
			if !s.reread {
				said = text(rec)
			}
			t.keep, t.mask, t.said = append(t.keep, tr), append(t.mask, mask), append(t.said, said)
			t.kept += len(said)
		} else {
			s.dropped = true // numbers must stay those of the calls
		}
		t.ev = append(t.ev, Rec{"e": "hret", "ok": !fail})
		t.mu.Unlock()
		if fail {
			return refuse(rn.r)
		}
		return nil
	}
	done := make(chan struct{}) // Stream returned
	served := make(chan *conn, 1)
	refused := a.conn == "refuse"
	if refused {
		t.log("cfault")
		m.l.Close()
	}
	if a.rash {
		dialled, dialCancelled = make(chan struct{}), make(chan struct{})
		dialCancel = doCancel
	}
	played := make(chan struct{}) // the master is done with this attempt
	late := rn.r.Intn(5)          // the caller's context may end when the call is over
	go func() {
		rn.serve(s, t, m, a, on, doCancel, done, served)
		close(played)
	}()
	on("precall", 1)
	t.log("call")
	ret := make(chan string, 1)
	go func() {
		var err error
		p := guard(func() { err = st.Stream(ctx, handler) })
		if p != "" {
			t.log("panic", "text", S(p))
		} else {
			t.log("ret", "err", err != nil)
		}
		close(done)
		ret <- p
	}()
	select {
	case <-ret:
	case <-time.After(deadline):
		buf := strings.Join(libraryGoroutines(), "\n\n")
		t.log("hang", "in", S("Stream"), "stack", S(buf))
		return false
	}
	for i := 0; i < 3; i++ {
		if i == late {
			doCancel()
		}
		if !rn.errorCall(t, st) {
			return false
		}
	}
	if !refused {
		var c *conn
		select {
		case c = <-served:
		case <-time.After(deadline):
			t.log("open", "stack", S(strings.Join(libraryGoroutines(), "\n\n")))
			return false
		}
		if c != nil {
			if waitClosed(c.closed, deadline) {
				t.log("closed")
			} else {
				t.log("open", "stack", S(strings.Join(libraryGoroutines(), "\n\n")))
				return false
			}
			c.c.Close()
		}
	}
	<-played
	if !s.paired && !quiet(t) {
		return false
	}
	if !rn.errorCall(t, st) {
		return false
	}
	return true
}

// quiet waits until everything the library started went away by itself.
func quiet(t *trace) bool {
	end := time.Now().Add(deadline)
	for {
		g := libraryGoroutines()
		if len(g) == 0 {
			t.log("quiet")
			return true
		}
		if time.Now().After(end) {
			t.log("leak", "stack", S(strings.Join(g, "\n\n")))
			return false
		}
		time.Sleep(time.Millisecond)
	}
}

type refusal struct{ code int }

func (r *refusal) Error() string { return fmt.Sprintf("handler refuses: %d%%", r.code) }

// refuse is an error of the user's code, whatever it may be.
func refuse(r *rand.Rand) error {
	switch r.Intn(8) {
	case 0:
		return context.Canceled
	case 1:
		return context.DeadlineExceeded
	case 2:
		return io.EOF
	case 3:
		return fmt.Errorf("no luck: %w", context.Canceled)
	case 4:
		return &refusal{r.Intn(100)}
	case 5:
		return errors.New("")
	case 6:
		return fmt.Errorf("no luck: %w", io.ErrUnexpectedEOF)
	}
	return errors.New("handler refuses")
}

func scribble(tr *gb.Transaction, r *rand.Rand, mask map[place]bool) {
	all := r.Intn(2) == 0
	for i, e := range tr.Events {
		for image, rows := range [][]*gb.RowData{e.RowValues, e.RowIdentifies} {
			for j, row := range rows {
				for k, c := range row.Columns {
					if len(c.Data) > 0 && (all || r.Intn(2) == 0) {
						mask[place{i, image, j, k}] = true
						for x := range c.Data {
							c.Data[x] ^= 0xA5
						}
					}
				}
			}
		}
	}
}

// serve plays the master for one attempt.
func (rn *runner) serve(s *scenario, t *trace, m *master, a *attempt, on func(string, int), doCancel func(), done chan struct{}, served chan *conn) {
	var c *conn
	ok := true
	select {
	case c, ok = <-m.conns:
	case <-done:
		// a connection may have been made all the same
		select {
		case c, ok = <-m.conns:
		case <-time.After(2 * time.Millisecond):
		}
	}
	if c == nil || !ok {
		served <- nil
		return
	}
	t.log("accept")
	finish := func() { // the rest of the connection's life
		c.watch(func(b []byte) { t.log("extra", "b", B(b)) })
		served <- c
	}
	fault := func(kind string) bool {
		if a.conn != kind {
			return false
		}
		t.log("cfault")
		return true
	}
	if a.cancel == "accept" && !a.rash {
		waitFrame("readHandshakePacket")
	}
	if a.rash { // the dialler cancels as soon as it has its connection
		close(dialled)
		<-dialCancelled
		finish()
		return
	}
	on("accept", 1)
	if fault("noconn") {
		c.c.Close()
		finish()
		return
	}
	if a.conn == "nogreet" {
		finish()
		waitFrame("readHandshakePacket")
		doCancel()
		return
	}
	if fault("badgreet") {
		c.write([]byte{9, 'x', 0})
		finish()
		return
	}
	if fault("greeterr") {
		c.write(errPacket(1040, "", "Too many connections"))
		finish()
		return
	}
	c.write(greeting())
	if _, err := c.read(); err != nil {
		finish()
		return
	}
	if fault("autherr") {
		c.write(errPacket(1045, "28000", "Access denied"))
		finish()
		return
	}
	if fault("authclose") {
		c.c.Close()
		finish()
		return
	}
	if a.conn == "authhang" {
		finish()
		doCancel()
		return
	}
	c.write(okPacket)
	for {
		b, err := c.read()
		if err != nil {
			// the replica went away before asking for anything
			close(c.closed)
			served <- c
			return
		}
		if len(b) == 0 {
			t.log("extra", "b", B(b))
			continue
		}
		if b[0] == 3 {
			t.log("query", "sql", B(b[1:]))
			on("set", 1)
			if fault("seterr") {
				c.write(errPacket(1193, "HY000", "Unknown system variable"))
				continue
			}
			if fault("setclose") {
				c.c.Close()
				finish()
				return
			}
			if fault("setgarbage") {
				c.write([]byte{0x05, 1, 2, 3})
				c.c.Close()
				finish()
				return
			}
			if a.conn == "sethang" {
				finish()
				doCancel()
				return
			}
			if fault("setreset") {
				c.write(okPacket)
				c.c.SetLinger(0)
				c.c.Close()
				finish()
				return
			}
			fault("toolong") // the replica cannot ask for its position
			c.write(okPacket)
			on("setok", 1)
			continue
		}
		if b[0] == 1 {
			continue
		}
		if b[0] != 0x12 {
			t.log("extra", "b", B(b))
			continue
		}
		d := parseDump(b)
		t.log("dump", "file", S(d.file), "pos", B(d.pos), "flags", B(d.flags), "sid", B(d.sid))
		on("dump", 1)
		finish()
		rn.dump(s, t, a, c, d, on, doCancel, done)
		return
	}
}

// errCode is the number of an error of the master's, which may be any.
func (rn *runner) errCode() int {
	switch rn.mr.Intn(4) {
	case 0:
		return rn.mr.Intn(1 << 16)
	case 1:
		return pick(rn.mr, 0, 1, 254, 255, 256, 1053, 1152, 1158, 1160, 1161, 1220, 1290, 1317, 1792, 1836, 2006, 2013, 3024, 65535)
	}
	return 1236
}

func (rn *runner) dump(s *scenario, t *trace, a *attempt, c *conn, d dumpReq, on func(string, int), doCancel func(), done chan struct{}) {
	var pos uint64
	for i, b := range d.pos {
		if i < 4 {
			pos |= uint64(b) << uint(8*i)
		}
	}
	t.mu.Lock()
	list := s.h.served(d.file, pos)
	t.mu.Unlock()
	if list == nil {
		what := "nowhere"
		if s.stray {
			what = "astray"
		}
		for i := range s.attempts {
			if len(s.attempts[i].tail) > 0 {
				what = "astray" // a made-up event may have moved the streamer anywhere
			}
		}
		t.log(what)
		t.log("fault", "kind", "err", "msg", S("no such position"))
		c.write(errPacket(1236, "HY000", "no such position"))
		return
	}
	if a.limit >= 0 && a.limit < len(list) {
		list = list[:a.limit]
	}
	if a.letters {
		n, end := 0, 0
		for i, k := range list {
			if i >= 2 && s.h.marks[k] {
				n++
				end = i + 1
			}
			if n == a.letter || i < 2 && a.letter == 0 {
				end = i + 1
			}
			if n >= a.letter && (a.letter > 0 || i >= 1) {
				break
			}
		}
		list = list[:end]
	}
	if len(a.tail) > 0 {
		t.mu.Lock()
		for _, b := range a.tail {
			k := s.h.packet(b)
			list = append(list, k)
			if a.wild {
				s.h.wild = append(s.h.wild, k)
			}
		}
		t.mu.Unlock()
	}
	if s.h.grows {
		t.mu.Lock()
		t.asks = s.h.asks(list)
		t.mu.Unlock()
	}
	c.seq = 1
	letters := 0
	for j, k := range list {
		t.mu.Lock()
		b := s.h.pk[k-1]
		t.ev = append(t.ev, Rec{"e": "send", "k": k})
		t.mu.Unlock()
		if c.write(append([]byte{0}, b...)) != nil {
			return // the replica is gone
		}
		on("send", j+1)
		if j >= 2 && s.h.marks[k] {
			letters++
			on("letter", letters)
		}
	}
	switch a.end {
	case "eof":
		t.log("fault", "kind", "eof", "msg", S(""))
		c.write(eofPackets[rn.mr.Intn(len(eofPackets))])
	case "err":
		t.log("fault", "kind", "err", "msg", S(a.errMsg))
		c.write(errPacket(rn.errCode(), oneOf(rn.mr, []string{"HY000", "HY000", "42000", "#####", "08S01", "\x00\xff %s"[:5]}), a.errMsg))
	case "errnostate":
		a.errMsg = strings.TrimLeft(a.errMsg, "#") // which would announce a state
		t.log("fault", "kind", "err", "msg", S(a.errMsg))
		c.write(errPacket(rn.errCode(), "", a.errMsg))
	case "errshort":
		t.log("fault", "kind", "lost", "msg", S(""))
		c.write([][]byte{{0xff}, {0xff, 1}, {0xff, 1, 2}, {0xff, 1, 2, '#'}, {0xff, 1, 2, '#', 'H', 'Y'}}[rn.mr.Intn(5)])
	case "close":
		t.log("fault", "kind", "lost", "msg", S(""))
		c.c.Close()
	case "reset":
		t.log("fault", "kind", "reset", "msg", S(""))
		c.c.SetLinger(0)
		c.c.Close()
	case "partial":
		t.log("fault", "kind", "lost", "msg", S(""))
		c.c.Write([]byte{200, 0, 0, c.seq, 0, 1, 2, 3}[:1+rn.mr.Intn(8)])
		c.c.Close()
	case "badseq":
		t.log("fault", "kind", "lost", "msg", S(""))
		c.seq += 5
		c.write([]byte{0, 1, 2, 3})
	case "empty":
		t.log("fault", "kind", "lost", "msg", S(""))
		c.write(nil)
	case "hang":
		wait := 40 * time.Millisecond
		if a.cancel == "idle" {
			wait = time.Duration(a.at) * 100 * time.Microsecond
		}
		select {
		case <-done:
		case <-time.After(wait):
			doCancel()
		}
	}
}
