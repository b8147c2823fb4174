package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sync/atomic"
	"time"
)

// Rec is one record handed to TLC.
type Rec map[string]interface{}

// B renders bytes as a sequence of integers.
func B(b []byte) []int {
	r := make([]int, len(b))
	for i, c := range b {
		r[i] = int(c)
	}
	return r
}

// Packed renders bytes as pieces that repeat.
func Packed(b []byte) []Rec {
	out := []Rec{}
	for len(b) > 0 {
		n := 1
		for n < len(b) && b[n] == b[0] {
			n++
		}
		if n < 64 { // up to where something repeats
			m := n
			for m < len(b) && !(m+64 <= len(b) && bytes.Count(b[m:m+64], b[m:m+1]) == 64) {
				m++
			}
			out = append(out, Rec{"n": 1, "b": B(b[:m])})
			b = b[m:]
			continue
		}
		out = append(out, Rec{"n": n, "b": B(b[:1])})
		b = b[n:]
	}
	return out
}

// S renders a string as a sequence of integers.
func S(s string) []int { return B([]byte(s)) }

// N renders a number as decimal text.
func N(v interface{}) []int { return S(fmt.Sprintf("%d", v)) }

type writer struct {
	f *os.File
	w *bufio.Writer
	n int
}

func newWriter(path string) *writer {
	f, err := os.Create(path)
	if err != nil {
		fatal(err)
	}
	return &writer{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

func (w *writer) put(r interface{}) {
	b, err := json.Marshal(r)
	if err != nil {
		fatal(err)
	}
	w.w.Write(b)
	w.w.WriteByte('\n')
	w.n++
}

func (w *writer) close() {
	if err := w.w.Flush(); err != nil {
		fatal(err)
	}
	w.f.Close()
}

func fatal(v ...interface{}) {
	fmt.Fprintln(os.Stderr, v...)
	os.Exit(3)
}

func le(v uint64, n int) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, v)
	return b[:n:n]
}

func be(v uint64, n int) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, v)
	return append([]byte(nil), b[8-n:]...)
}

func cat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func pick(r *rand.Rand, v ...int) int { return v[r.Intn(len(v))] }

// guard runs f and reports whether it panicked; watch ends the process if f does not return.
func guard(f func()) (msg string) {
	defer func() {
		if p := recover(); p != nil {
			msg = fmt.Sprint("panic: ", p)
		}
	}()
	f()
	return ""
}

var busySince int64 // of the call into the code under test, 0: none

// timed is guard for calls that must return at once.
func timed(f func()) string {
	atomic.StoreInt64(&busySince, time.Now().UnixNano())
	defer atomic.StoreInt64(&busySince, 0)
	return guard(f)
}

// watch ends the process, like a crash would, when a timed call takes far too long.
func watch() {
	for {
		time.Sleep(time.Second)
		if t := atomic.LoadInt64(&busySince); t != 0 && time.Since(time.Unix(0, t)) > 60*time.Second {
			debug.SetTraceback("all")
			panic("a decoder does not return")
		}
	}
}
