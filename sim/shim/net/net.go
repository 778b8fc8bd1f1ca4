// Package net replaces the standard package: connections go to the simulated network.
package net

import (
	"context"
	real "net"
	"os"
	"time"

	"verifsim/rt"
	"verifsim/simnet"
)

type TCPConn = simnet.Conn

func Dial(network, address string) (real.Conn, error) { return simnet.Dial(address, 0) }

func DialTimeout(network, address string, timeout time.Duration) (real.Conn, error) {
	return simnet.Dial(address, int64(timeout))
}

func DialTCP(network string, laddr, raddr *real.TCPAddr) (*TCPConn, error) {
	c, err := simnet.Dial(raddr.String(), 0)
	if err != nil {
		return nil, err
	}
	return c.(*simnet.Conn), nil
}

// Dialer has the fields a client usually sets.
type Dialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	LocalAddr     real.Addr
	DualStack     bool
	FallbackDelay time.Duration
	KeepAlive     time.Duration
}

func (d *Dialer) Dial(network, address string) (real.Conn, error) {
	return d.DialContext(context.Background(), network, address)
}

func (d *Dialer) DialContext(ctx context.Context, network, address string) (real.Conn, error) {
	to := int64(d.Timeout)
	less := func(t time.Time) {
		left := t.Sub(time.Unix(0, rt.S.Unix())).Nanoseconds()
		if left <= 0 {
			left = 1
		}
		if to == 0 || left < to {
			to = left
		}
	}
	if !d.Deadline.IsZero() {
		less(d.Deadline)
	}
	if t, ok := ctx.Deadline(); ok {
		less(t)
	}
	if err := ctx.Err(); err != nil {
		return nil, &real.OpError{Op: "dial", Net: network, Err: err}
	}
	type res struct {
		c   real.Conn
		err error
	}
	if ctx.Done() == nil {
		return simnet.Dial(address, to)
	}
	var out *res
	rt.Go(func() {
		c, err := simnet.Dial(address, to)
		out = &res{c, err}
	})
	rt.Block("dial", func() bool { return out != nil || rt.Closed(ctx.Done()) })
	if out == nil {
		return nil, &real.OpError{Op: "dial", Net: network, Err: os.ErrDeadlineExceeded}
	}
	return out.c, out.err
}

func Listen(network, address string) (real.Listener, error) {
	panic("simnet: the code under test listens: not simulated")
}
