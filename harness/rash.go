package main

import (
	"context"
	"math/rand"
	"net"

	"github.com/Breeze0806/mysql"
)

// The caller gives up exactly between the driver's dial and its first look at the context: see
// KNOWN_FINDINGS.md.
var (
	dialled, dialCancelled chan struct{}
	dialCancel             func()
)

func init() {
	mysql.RegisterDialContext("rash", func(ctx context.Context, addr string) (net.Conn, error) {
		c, err := new(net.Dialer).DialContext(ctx, "tcp", addr)
		if err == nil {
			<-dialled
			dialCancel()
			close(dialCancelled)
		}
		return c, err
	})
	families["rash"] = family{1, 1, func(id int, r *rand.Rand) *scenario {
		s := fresh(randomHistory(r, 1))
		a := eof()
		a.cancel, a.rash = "accept", true
		s.attempts = append(s.attempts, a)
		return s
	}}
}
