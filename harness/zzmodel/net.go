package zzmodel

import (
	"context"
	"errors"
	"io"
	"net"
	"time"

	z "github.com/SKAARHOJ/rawpanel-lib/zzverif/zzsym"
)

// Host is a panel's side of the modelled network: connections to Addr while Up are accepted.
type Host struct {
	Addr   string
	Up     bool
	Silent bool // connection attempts are not answered at all
	Conns  []*Conn
	Dials  int
}

// Hosts are the panels that can be dialled.
var Hosts []*Host

// Conn is the client's end of a modelled TCP connection. Bytes arrive in order; a read returns what is there.
type Conn struct {
	In       []byte // sent by the panel, not yet read
	EOF      bool   // the panel has closed its side
	Reset    bool   // the panel has aborted the connection
	Out      []byte // written by the client
	Writes   int
	Closed   bool // by the client
	deadline int64
	late     int64 // deadline for writing
	Room     int // how much the panel takes before writes block (0: everything)
}

type addr struct{ s string }

func (a *addr) Network() string { return "tcp" }
func (a *addr) String() string  { return a.s }

// TimeoutError is what an expired deadline gives.
type TimeoutError struct{}

func (e *TimeoutError) Error() string   { return "i/o timeout" }
func (e *TimeoutError) Timeout() bool   { return true }
func (e *TimeoutError) Temporary() bool { return true }

var errClosed = errors.New("use of closed network connection")
var errReset = errors.New("connection reset by peer")
var eof = io.EOF

func (c *Conn) expired() bool { return c.deadline > 0 && int64(z.Now()) >= c.deadline }

// Read returns what has arrived.
func (c *Conn) Read(b []byte) (int, error) {
	if c.Closed {
		return 0, errClosed
	}
	if c.expired() {
		return 0, &TimeoutError{}
	}
	if len(b) == 0 {
		return 0, nil
	}
	for len(c.In) == 0 && !c.EOF && !c.Reset && !c.Closed {
		d := c.deadline
		until := int64(-1)
		if d > 0 {
			until = d
		}
		z.Block("read", func() bool {
			return len(c.In) > 0 || c.EOF || c.Reset || c.Closed || c.deadline != d
		}, until)
		if c.Closed {
			break
		}
		if c.expired() {
			return 0, &TimeoutError{}
		}
	}
	if c.Closed {
		return 0, errClosed
	}
	if c.Reset {
		return 0, errReset
	}
	z.Notice()
	if len(c.In) > 0 {
		n := copy(b, c.In)
		c.In = c.In[n:]
		return n, nil
	}
	return 0, eof
}

// Write passes the bytes to the panel.
func (c *Conn) Write(b []byte) (int, error) {
	done := 0
	z.Preempt()
	for {
		if c.Closed {
			return done, errClosed
		}
		if c.Reset {
			return done, errReset
		}
		if d := c.late; d > 0 && int64(z.Now()) >= d {
			return done, &TimeoutError{}
		}
		if done == 0 {
			c.Writes++
		}
		n := len(b) - done
		if c.Room > 0 && n > c.Room-len(c.Out) {
			n = c.Room - len(c.Out)
		}
		if n > 0 {
			z.Share()
			c.Out = append(c.Out, b[done:done+n]...)
			done += n
		}
		if done == len(b) {
			return done, nil
		}
		d := c.late
		until := int64(-1)
		if d > 0 {
			until = d
		}
		z.Block("write", func() bool {
			return c.Room == 0 || len(c.Out) < c.Room || c.Closed || c.Reset || c.late != d
		}, until)
	}
}

func (c *Conn) Close() error {
	if c.Closed {
		return errClosed
	}
	c.Closed = true
	return nil
}
func (c *Conn) LocalAddr() net.Addr  { return &addr{"127.0.0.1:50000"} }
func (c *Conn) RemoteAddr() net.Addr { return &addr{"127.0.0.1:9923"} }

// SetReadDeadline and the others take a deadline that has passed at once for the earliest moment.
func (c *Conn) SetReadDeadline(t time.Time) error {
	if c.Closed {
		return errClosed
	}
	c.deadline = moment(t)
	return nil
}

func (c *Conn) SetWriteDeadline(t time.Time) error {
	if c.Closed {
		return errClosed
	}
	c.late = moment(t)
	return nil
}

func (c *Conn) SetDeadline(t time.Time) error {
	if c.Closed {
		return errClosed
	}
	c.deadline = moment(t)
	c.late = c.deadline
	return nil
}

func moment(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := int64(z.Now()) + int64(time.Until(t))
	if d <= 0 {
		d = 1
	}
	return d
}

func dial(a string, done <-chan struct{}, d time.Duration) (net.Conn, error) {
	for _, h := range Hosts {
		if h.Addr != a {
			continue
		}
		h.Dials++
		if h.Silent {
			if d <= 0 {
				d = 127 * time.Second
			}
			t := time.NewTimer(d)
			select {
			case <-done:
				return nil, errors.New("operation was canceled")
			case <-t.C:
				return nil, &TimeoutError{}
			}
		}
		if !h.Up {
			break
		}
		c := &Conn{}
		h.Conns = append(h.Conns, c)
		return c, nil
	}
	return nil, errors.New("dial tcp " + a + ": connect: connection refused")
}

// NetDial stands for net.Dial.
func NetDial(network, address string) (net.Conn, error) { return dial(address, nil, 0) }

// NetDialTimeout stands for net.DialTimeout.
func NetDialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	return dial(address, nil, d)
}

// DialerDial stands for (*net.Dialer).Dial.
func DialerDial(d *net.Dialer, network, address string) (net.Conn, error) {
	return dial(address, nil, d.Timeout)
}

// DialerDialContext stands for (*net.Dialer).DialContext.
func DialerDialContext(d *net.Dialer, ctx context.Context, network, address string) (net.Conn, error) {
	if ctx.Err() != nil {
		return nil, errors.New("operation was canceled")
	}
	return dial(address, ctx.Done(), d.Timeout)
}
