// Package zznet is a scripted panel and a recording client around ConnectToPanel: on the modelled network in the
// engine, on the loopback network natively.
package zznet

import (
	"context"
	"net"
	"strconv"
	"sync"
	"syscall"
	"time"

	rp "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"github.com/SKAARHOJ/rawpanel-lib/zzverif/zzmodel"
	z "github.com/SKAARHOJ/rawpanel-lib/zzverif/zzsym"
)

// NetConn is the client's end of a connection.
type NetConn = net.Conn

var mu sync.Mutex

// With runs f while no other goroutine looks at the records.
func With(f func()) {
	if z.Symbolic() {
		z.Notice()
		f()
		z.Share()
		return
	}
	mu.Lock()
	defer mu.Unlock()
	f()
}

// Until waits until cond (which may not wait itself) holds, for at most d, and tells whether it does.
func Until(d time.Duration, cond func() bool) bool {
	ok := z.Block("script", func() (ok bool) {
		With(func() { ok = cond() })
		return
	}, int64(z.Now()+d))
	z.Notice()
	return ok
}

// Slack is how much later than in the model things may happen natively.
func Slack() time.Duration {
	if z.Symbolic() || z.Strict {
		return 400 * time.Millisecond
	}
	return 1200 * time.Millisecond
}

// Gap is the pause that makes what is sent before and after it separate segments.
const Gap = 20 * time.Millisecond

// Pause lets time pass.
func Pause(d time.Duration) { time.Sleep(d) }

// Panel is a scripted panel.
type Panel struct {
	Addr  string
	host  *zzmodel.Host
	ln    net.Listener
	conns []*Conn
	next  int
	fill  []net.Conn
}

// New is a panel that accepts connections.
func New() *Panel {
	p := &Panel{}
	if z.Symbolic() {
		p.Addr = "127.0.0.1:9923"
		p.host = &zzmodel.Host{Addr: p.Addr, Up: true}
		zzmodel.Hosts = append(zzmodel.Hosts, p.host)
		return p
	}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	p.Addr = ln.Addr().String()
	p.serve(ln)
	return p
}

// NewSilent is a panel that does not answer connection attempts at all.
func NewSilent() *Panel {
	p := &Panel{}
	if z.Symbolic() {
		p = New()
		p.host.Silent = true
		return p
	}
	// a listener whose queue is full
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err == nil {
		err = syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}})
	}
	if err == nil {
		err = syscall.Listen(fd, 0)
	}
	if err != nil {
		panic(err)
	}
	a, _ := syscall.Getsockname(fd)
	p.Addr = "127.0.0.1:" + strconv.Itoa(a.(*syscall.SockaddrInet4).Port)
	for i := 0; i < 3; i++ {
		c, err := net.DialTimeout("tcp", p.Addr, 200*time.Millisecond)
		if err != nil {
			break
		}
		p.fill = append(p.fill, c)
	}
	return p
}

func (p *Panel) serve(ln net.Listener) {
	With(func() { p.ln = ln })
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			k := &Conn{tcp: c.(*net.TCPConn)}
			With(func() { p.conns = append(p.conns, k) })
			go k.drain()
		}
	}()
}

// Down makes the panel refuse connections.
func (p *Panel) Down() {
	if p.host != nil {
		p.host.Up = false
		return
	}
	p.ln.Close()
}

// Up makes it accept connections again.
func (p *Panel) Up() {
	if p.host != nil {
		p.host.Up = true
		return
	}
	for i := 0; i < 50; i++ {
		if ln, err := net.Listen("tcp", p.Addr); err == nil {
			p.serve(ln)
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	panic("cannot listen again")
}

func (p *Panel) count() int {
	if p.host != nil {
		return len(p.host.Conns)
	}
	return len(p.conns)
}

// Accepted is how many connections were made.
func (p *Panel) Accepted() (n int) {
	With(func() { n = p.count() })
	return
}

// Accept is the next connection, nil if there is none within d.
func (p *Panel) Accept(d time.Duration) *Conn {
	if !Until(d, func() bool { return p.count() > p.next }) {
		return nil
	}
	var c *Conn
	With(func() {
		if p.host != nil {
			c = &Conn{m: p.host.Conns[p.next]}
		} else {
			c = p.conns[p.next]
		}
	})
	p.next++
	return c
}

// Conn is the panel's end of a connection.
type Conn struct {
	m    *zzmodel.Conn
	tcp  *net.TCPConn
	got  []byte
	gone bool
	held bool
}

func (c *Conn) drain() {
	b := make([]byte, 1<<16)
	for {
		for h := true; h; {
			With(func() { h = c.held })
			if h {
				time.Sleep(5 * time.Millisecond)
			}
		}
		n, err := c.tcp.Read(b)
		With(func() {
			c.got = append(c.got, b[:n]...)
			if err != nil {
				c.gone = true
			}
		})
		if err != nil {
			c.tcp.Close()
			return
		}
	}
}

// Send sends bytes as one segment.
func (c *Conn) Send(b []byte) {
	if c.m != nil {
		z.Share()
		if !c.m.Closed && !c.m.EOF {
			c.m.In = append(c.m.In, b...)
		}
		return
	}
	c.tcp.Write(b)
}

// Hold makes the panel take no more than n bytes from now on, until Release.
func (c *Conn) Hold(n int) {
	if c.m != nil {
		c.m.Room = len(c.m.Out) + n
		return
	}
	With(func() { c.held = true })
}

// Release makes it take everything again.
func (c *Conn) Release() {
	if c.m != nil {
		c.m.Room = 0
		return
	}
	With(func() { c.held = false })
}

// Close ends the connection from the panel's side, after everything sent.
func (c *Conn) Close() {
	if c.m != nil {
		c.m.EOF = true
		return
	}
	c.tcp.CloseWrite()
}

// Abort resets the connection.
func (c *Conn) Abort() {
	if c.m != nil {
		c.m.Reset = true
		return
	}
	c.tcp.SetLinger(0)
	c.tcp.Close()
}

func (c *Conn) out() []byte {
	if c.m != nil {
		return c.m.Out
	}
	return c.got
}

// Got is everything the client has written so far.
func (c *Conn) Got() (b []byte) {
	With(func() { b = append(b, c.out()...) })
	return
}

// Got0 is Got for conditions of Until.
func (c *Conn) Got0() []byte { return c.out() }

// Wait waits until the client has written n bytes.
func (c *Conn) Wait(n int, d time.Duration) bool {
	return Until(d, func() bool { return len(c.out()) >= n })
}

// Gone tells whether the client closes the connection within d.
func (c *Conn) Gone(d time.Duration) bool {
	return Until(d, func() bool {
		if c.m != nil {
			return c.m.Closed
		}
		return c.gone
	})
}

// Event is a callback or the return of ConnectToPanel.
type Event struct {
	Kind   string // connect, disconnect, return
	At     time.Duration
	Binary bool
	Err    string
	Exit   bool
	Conn   net.Conn
}

// Client is ConnectToPanel with everything it does recorded.
type Client struct {
	To        chan []*rwp.InboundMessage
	From      chan []*rwp.OutboundMessage
	Cancel    func()
	WG        sync.WaitGroup
	Cancelled time.Duration // when (-1: not)
	events    []Event
	msgs      []*rwp.OutboundMessage
	wgDone    bool
	stopped   bool
	OnEvent   func(Event)   // called by the callbacks
	Quits     bool          // the consumer stops at cancellation
	Delay     time.Duration // how long the consumer takes for each delivery
}

// Start runs ConnectToPanel in its own goroutine, with another one that takes what it delivers.
func Start(p *Panel, cfg *rp.ConnectToPanelConfig, setup func(c *Client)) *Client {
	ctx, cancel := context.WithCancel(context.Background())
	c := &Client{To: make(chan []*rwp.InboundMessage), From: make(chan []*rwp.OutboundMessage), Cancelled: -1}
	c.Cancel = func() {
		With(func() {
			if c.Cancelled < 0 {
				c.Cancelled = z.Now()
			}
		})
		cancel()
	}
	if setup != nil {
		setup(c)
	}
	add := func(e Event) {
		e.At = z.Now()
		With(func() { c.events = append(c.events, e) })
		if c.OnEvent != nil {
			c.OnEvent(e)
		}
	}
	go func() {
		for {
			var quit <-chan struct{}
			if c.Quits {
				quit = ctx.Done()
			}
			var l []*rwp.OutboundMessage
			var ok bool
			select {
			case l, ok = <-c.From:
			case <-quit:
			}
			if !ok {
				return
			}
			With(func() { c.msgs = append(c.msgs, l...) })
			if c.Delay > 0 {
				time.Sleep(c.Delay)
			}
		}
	}()
	c.WG.Add(1)
	go func() {
		defer c.WG.Done()
		rp.ConnectToPanel(p.Addr, c.To, c.From, ctx, &c.WG, func(e string, b bool, n net.Conn) {
			add(Event{Kind: "connect", Binary: b, Err: e, Conn: n})
		}, func(exit bool) { add(Event{Kind: "disconnect", Exit: exit}) }, cfg)
		add(Event{Kind: "return"})
	}()
	return c
}

// Events are the events so far.
func (c *Client) Events() (l []Event) {
	With(func() { l = append(l, c.events...) })
	return
}

// Msgs are the delivered messages so far.
func (c *Client) Msgs() (l []*rwp.OutboundMessage) {
	With(func() { l = append(l, c.msgs...) })
	return
}

// Msgs0 is Msgs for conditions of Until.
func (c *Client) Msgs0() []*rwp.OutboundMessage { return c.msgs }

// Saw waits for n events of a kind.
func (c *Client) Saw(kind string, n int, d time.Duration) bool {
	return Until(d, func() bool { return count(c.events, kind) >= n })
}

// Delivered waits for n messages.
func (c *Client) Delivered(n int, d time.Duration) bool {
	return Until(d, func() bool { return len(c.msgs) >= n })
}

func count(l []Event, kind string) (n int) {
	for i := range l {
		if l[i].Kind == kind {
			n++
		}
	}
	return
}

// Stop cancels and waits for the end; it tells whether ConnectToPanel returned and the wait group drained within d.
func (c *Client) Stop(d time.Duration) bool {
	c.Cancel()
	go func() {
		c.WG.Wait()
		With(func() { c.wgDone = true })
	}()
	return Until(d, func() bool { return c.wgDone && count(c.events, "return") == 1 })
}

// Dial is a connection to the panel.
func Dial(p *Panel) net.Conn {
	if z.Symbolic() {
		c, err := zzmodel.NetDial("tcp", p.Addr)
		Must(err == nil, "cannot connect")
		return c
	}
	c, err := net.Dial("tcp", p.Addr)
	if err != nil {
		panic(err)
	}
	return c
}

// Frame is a message with its length in front.
func Frame(b []byte) []byte {
	n := len(b)
	return append([]byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}, b...)
}

// Ping is the probe a client sends, Ack the reply of a binary panel.
var Ping, Ack = []byte{2, 0, 0, 0, 8, 1}, []byte{2, 0, 0, 0, 8, 2}

// Must is Assert, but natively also ends the run.
func Must(c bool, msg string) {
	z.Assert(c, msg)
	z.Assume(c)
}
