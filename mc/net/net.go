// Package net stands in for the standard package under the explorer: no real
// connection is ever made, the harness supplies them.
package net

import (
	"net"
	"time"

	"stompmc/mc/context"
)

// DialHook and ListenHook are set by the harness.
var (
	DialHook   func(ctx context.Context, network, addr string) (net.Conn, error)
	ListenHook func(network, addr string) (net.Listener, error)
)

type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       net.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
	Resolver        *net.Resolver
}

func (d *Dialer) Dial(network, addr string) (net.Conn, error) {
	return d.DialContext(context.Background(), network, addr)
}

func (d *Dialer) DialContext(ctx context.Context, network, addr string) (net.Conn, error) {
	if d.Timeout > 0 {
		c, cancel := context.WithTimeout(ctx, d.Timeout)
		defer cancel()
		ctx = c
	}
	if !d.Deadline.IsZero() {
		c, cancel := context.WithDeadline(ctx, d.Deadline)
		defer cancel()
		ctx = c
	}
	if DialHook == nil {
		panic("net.Dial without a harness")
	}
	return DialHook(ctx, network, addr)
}

func Dial(network, addr string) (net.Conn, error) {
	var d Dialer
	return d.Dial(network, addr)
}

func DialTimeout(network, addr string, t time.Duration) (net.Conn, error) {
	d := Dialer{Timeout: t}
	return d.Dial(network, addr)
}

func Listen(network, addr string) (net.Listener, error) {
	if ListenHook == nil {
		panic("net.Listen without a harness")
	}
	return ListenHook(network, addr)
}
