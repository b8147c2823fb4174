package main

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"time"
)

// conn is the master's end of a replica connection.
type conn struct {
	c      *net.TCPConn
	r      *bufio.Reader
	seq    byte
	closed chan struct{} // the replica's end is gone
}

func (c *conn) readRaw() ([]byte, byte, error) {
	var h [4]byte
	if _, err := io.ReadFull(c.r, h[:]); err != nil {
		return nil, 0, err
	}
	b := make([]byte, int(h[0])|int(h[1])<<8|int(h[2])<<16)
	_, err := io.ReadFull(c.r, b)
	return b, h[3], err
}

func (c *conn) read() ([]byte, error) {
	b, seq, err := c.readRaw()
	c.seq = seq + 1
	return b, err
}

func frame(seq byte, b []byte) []byte {
	return append([]byte{byte(len(b)), byte(len(b) >> 8), byte(len(b) >> 16), seq}, b...)
}

func (c *conn) write(b []byte) error {
	_, err := c.c.Write(frame(c.seq, b))
	c.seq++
	return err
}

func errPacket(code int, state, msg string) []byte {
	b := append([]byte{0xff}, le(uint64(code), 2)...)
	if state != "" {
		b = append(append(b, '#'), state...)
	}
	return append(b, msg...)
}

var okPacket = []byte{0, 0, 0, 2, 0, 0, 0}
var eofPackets = [][]byte{{0xfe, 0, 0, 2, 0}, {0xfe, 0, 0, 2, 0}, {0xfe, 0xff, 0xff, 0x22, 0}, {0xfe}}

func greeting() []byte {
	caps := uint32(1 | 2 | 4 | 8 | 0x200 | 0x2000 | 0x8000 | 0x10000 | 0x20000 | 0x80000)
	b := append([]byte{10}, "5.7.30-log\x00"...)
	b = append(b, le(7, 4)...)
	b = append(b, "12345678\x00"...)
	b = append(b, le(uint64(caps&0xffff), 2)...)
	b = append(b, 33)
	b = append(b, le(2, 2)...)
	b = append(b, le(uint64(caps>>16), 2)...)
	b = append(b, 21)
	b = append(b, make([]byte, 10)...)
	b = append(b, "901234567890\x00"...)
	return append(b, "mysql_native_password\x00"...)
}

// dumpReq is a COM_BINLOG_DUMP as received.
type dumpReq struct {
	pos   []byte
	flags []byte
	sid   []byte
	file  string
}

func parseDump(b []byte) dumpReq {
	if len(b) < 11 {
		return dumpReq{pos: b, file: "short"}
	}
	return dumpReq{pos: b[1:5], flags: b[5:7], sid: b[7:11], file: string(b[11:])}
}

// master accepts replica connections and hands them to serve, one after another.
type master struct {
	l     *net.TCPListener
	conns chan *conn
}

func newMaster() *master {
	l, err := net.ListenTCP("tcp", &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		fatal(err)
	}
	m := &master{l: l, conns: make(chan *conn, 64)}
	go func() {
		for {
			c, err := l.AcceptTCP()
			if err != nil {
				close(m.conns)
				return
			}
			c.SetNoDelay(true)
			m.conns <- &conn{c: c, r: bufio.NewReader(c), closed: make(chan struct{})}
		}
	}()
	return m
}

func (m *master) addr() string { return m.l.Addr().String() }

func (m *master) dsn() string {
	return fmt.Sprintf("root:pw@tcp(%s)/db?timeout=20s", m.addr())
}

// watch reads what the replica sends after its dump request (nothing but COM_QUIT is expected)
// until the connection is closed.
func (c *conn) watch(extra func(b []byte)) {
	go func() {
		for {
			b, _, err := c.readRaw()
			if err != nil {
				close(c.closed)
				return
			}
			if len(b) == 1 && b[0] == 1 {
				continue
			}
			extra(b)
		}
	}()
}

func waitClosed(ch <-chan struct{}, d time.Duration) bool {
	select {
	case <-ch:
		return true
	case <-time.After(d):
		return false
	}
}
