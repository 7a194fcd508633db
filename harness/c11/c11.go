// Package c11: the connection lifecycle under cancellation and loss at any point.
package c11

import (
	"time"

	rp "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	net "github.com/SKAARHOJ/rawpanel-lib/zzverif/zznet"
	z "github.com/SKAARHOJ/rawpanel-lib/zzverif/zzsym"
	"google.golang.org/protobuf/proto"
)

const Harness = "c11"

const ms, sec = time.Millisecond, time.Second

// prompt is how long the end may take after cancellation: a negotiation in progress takes up to 2 s.
const prompt = 2 * sec

// lifecycle checks the callbacks.
func lifecycle(c *net.Client) {
	last := ""
	for i, e := range c.Events() {
		z.Assert(last != "return", "a callback after the return")
		if e.Kind == "return" {
			z.Assert(last == "" || last == "disconnect", "returned without a disconnect callback")
			last = e.Kind
			continue
		}
		z.Assert(e.Kind == []string{"connect", "disconnect"}[i%2], "callbacks do not alternate")
		last = e.Kind
		if e.Exit {
			z.Assert(c.Cancelled >= 0 && e.At >= c.Cancelled, "a disconnect is reported as cancelled before the cancellation")
			z.Assert(i+1 >= len(c.Events()) || c.Events()[i+1].Kind == "return", "a callback after the cancelled disconnect")
		}
	}
}

// ended cancels and checks the end.
func ended(p *net.Panel, c *net.Client, conns []*net.Conn) {
	z.Assert(c.Stop(prompt+net.Slack()), "does not end after cancellation")
	for k := p.Accept(0); k != nil; k = p.Accept(0) {
		conns = append(conns, k)
	}
	for _, k := range conns {
		z.Assert(k.Gone(net.Slack()), "a socket is left open")
	}
	net.Pause(50 * ms)
	lifecycle(c)
	z.Assert(p.Accept(0) == nil, "connects again after the end")
}

// config is some configuration with its periods.
func config() (cfg *rp.ConnectToPanelConfig, none, re time.Duration) {
	switch z.Choice("config", 4) {
	case 1:
		return &rp.ConnectToPanelConfig{NoConnectionRetryPeriod: 1, ReConnectionRetryPeriod: 2}, sec, 2 * sec
	case 2:
		return &rp.ConnectToPanelConfig{NoConnectionRetryPeriod: 20, ReConnectionRetryPeriod: 20}, 20 * sec, 20 * sec
	case 3:
		return &rp.ConnectToPanelConfig{}, 3 * sec, sec
	}
	return nil, 3 * sec, sec
}

// wait is a pause of some length.
func wait(l ...time.Duration) { net.Pause(l[z.Choice("wait", len(l))]) }

// greet answers the probe.
func greet(k *net.Conn, binary bool) {
	k.Wait(len(net.Ping), sec)
	if binary {
		k.Send(net.Ack)
	} else {
		k.Send([]byte("RDY\n"))
	}
}

// submits may have somebody submit messages, whether or not they are taken.
func submits(c *net.Client) {
	if z.Choice("submits", 2) == 0 {
		return
	}
	go func() {
		for i := 0; i < 3; i++ {
			select {
			case c.To <- []*rwp.InboundMessage{{FlowMessage: rwp.InboundMessage_PING}}:
			case <-time.After(2 * sec):
			}
		}
	}()
}

// CheckAbsent: cancelled while there is no panel.
func CheckAbsent() {
	p := net.New()
	p.Down()
	cfg, none, _ := config()
	c := net.Start(p, cfg, nil)
	submits(c)
	wait(0, 10*ms, 500*ms, none-100*ms, none+100*ms, 2*none+500*ms)
	at := z.Now()
	ended(p, c, nil)
	z.Assert(len(c.Events()) == 1 && c.Events()[0].At <= at+net.Slack(), "waits before it ends")
}

// CheckSilent: cancelled while the panel's host does not answer at all.
func CheckSilent() {
	cfg, _, _ := config()
	p := net.NewSilent()
	c := net.Start(p, cfg, nil)
	submits(c)
	wait(0, 10*ms, 500*ms, 2500*ms)
	at := z.Now()
	ended(p, c, nil)
	z.Assert(len(c.Events()) == 1 && c.Events()[0].At <= at+net.Slack(), "waits before it ends")
}

// CheckAppears: a panel that appears later is connected to.
func CheckAppears() {
	p := net.New()
	p.Down()
	cfg, none, _ := config()
	z.Assume(none < 5*sec)
	c := net.Start(p, cfg, nil)
	wait(100*ms, none+300*ms)
	p.Up()
	k := p.Accept(none + net.Slack())
	net.Must(k != nil, "does not connect")
	greet(k, true)
	z.Assert(c.Saw("connect", 1, net.Slack()), "no connect callback")
	ended(p, c, []*net.Conn{k})
	z.Assert(c.Saw("disconnect", 1, 0), "no disconnect callback")
}

// CheckNegotiation: cancelled while the panel has not answered yet, or right after it has.
func CheckNegotiation() {
	p := net.New()
	c := net.Start(p, nil, nil)
	k := p.Accept(sec + net.Slack())
	net.Must(k != nil, "does not connect")
	wait(0, 500*ms, 1900*ms, 2100*ms)
	switch z.Choice("reply", 4) {
	case 1:
		greet(k, true)
	case 2:
		greet(k, false)
	case 3:
		k.Close()
	}
	ended(p, c, []*net.Conn{k})
}

// frames is the stream of n events with their messages and where each ends.
func frames(binary bool, n int) (b []byte, l []*rwp.OutboundMessage, ends []int) {
	for i := 0; i < n; i++ {
		if binary {
			m := &rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: uint32(i + 1), Pulsed: &rwp.PulsedEvent{Value: z.Int32("value", 1, 127)}}}}
			p, _ := proto.Marshal(m)
			b, l = append(b, net.Frame(p)...), append(l, m)
		} else {
			d := z.StringIn("value", 1, '1', '9')
			b = append(b, "HWC#"+d+"=Enc:3"+[]string{"\n", "\r\n"}[i%2]...)
			l = append(l, &rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: uint32(d[0] - '0'), Pulsed: &rwp.PulsedEvent{Value: 3}}}})
		}
		ends = append(ends, len(b))
	}
	return
}

// delivered checks what arrived.
func delivered(c *net.Client, want []*rwp.OutboundMessage) {
	c.Delivered(len(want), net.Slack())
	net.Pause(50 * ms)
	got := c.Msgs()
	net.Must(len(got) >= len(want), "a complete message is missing")
	z.Assert(len(got) <= len(want), "more messages than were completely received")
	for i := range want {
		z.Assert(proto.Equal(got[i], want[i]), "a message differs")
	}
}

// CheckConnected: cancelled while idle or anywhere in a message.
func CheckConnected() {
	binary := z.Choice("binary", 2) == 1
	p := net.New()
	c := net.Start(p, nil, nil)
	k := p.Accept(sec + net.Slack())
	net.Must(k != nil, "does not connect")
	greet(k, binary)
	z.Assert(c.Saw("connect", 1, sec+net.Slack()), "no connect callback")
	b, l, ends := frames(binary, 2)
	cut := z.Choice("cut", len(b)+1)
	k.Send(b[:cut])
	for len(l) > 0 && ends[len(l)-1] > cut {
		l = l[:len(l)-1]
	}
	wait(net.Gap, 0, 1500*ms)
	at := z.Now()
	ended(p, c, []*net.Conn{k})
	e := c.Events()
	net.Must(len(e) == 3 && e[1].Kind == "disconnect" && e[1].Exit, "no cancelled disconnect")
	z.Assert(e[2].At <= at+net.Slack(), "takes its time to end")
	got := c.Msgs()
	z.Assert(len(got) <= len(l), "more messages than were completely received")
	for i := range got {
		z.Assert(proto.Equal(got[i], l[i]), "a message differs")
	}
}

// again checks that the client reconnects after the period and resumes.
func again(p *net.Panel, c *net.Client, n int, lost, period time.Duration) *net.Conn {
	z.Assert(c.Saw("disconnect", n, 2*sec+net.Slack()), "no disconnect callback")
	k := p.Accept(period + sec + net.Slack())
	net.Must(k != nil, "does not reconnect")
	z.Assert(z.Now() >= lost+period-10*ms, "reconnects before the period is over")
	return k
}

// CheckLoss: the panel drops the connection after any number of bytes.
func CheckLoss() {
	binary := z.Choice("binary", 2) == 1
	cfg, _, re := config()
	z.Assume(re < 5*sec)
	p := net.New()
	c := net.Start(p, cfg, nil)
	var all []*rwp.OutboundMessage
	var conns []*net.Conn
	rounds := z.Pick(1, 2)
	k := p.Accept(sec + net.Slack())
	net.Must(k != nil, "does not connect")
	for r := 1; r <= rounds; r++ {
		conns = append(conns, k)
		greet(k, binary)
		z.Assert(c.Saw("connect", r, sec+net.Slack()), "no connect callback")
		b, l, ends := frames(binary, z.Pick(3, 1))
		cut := z.Choice("cut", len(b)+1)
		k.Send(b[:cut])
		for len(l) > 0 && ends[len(l)-1] > cut {
			l = l[:len(l)-1]
		}
		all = append(all, l...)
		if z.Choice("reset", 2) == 1 {
			net.Pause(200 * ms) // what was sent has arrived
			k.Abort()
		} else {
			wait(0, 100*ms)
			k.Close()
		}
		k = again(p, c, r, z.Now(), re)
	}
	greet(k, binary)
	z.Assert(c.Saw("connect", rounds+1, sec+net.Slack()), "no connect callback")
	b, l, _ := frames(binary, 1)
	k.Send(b)
	delivered(c, append(all, l...))
	ended(p, c, append(conns, k))
	e := c.Events()
	for i := range e[:2*rounds] {
		z.Assert(!e[i].Exit, "a loss is reported as cancellation")
	}
}

// CheckCycles: losses in every phase, one after the other.
func CheckCycles() {
	cfg := &rp.ConnectToPanelConfig{NoConnectionRetryPeriod: 2, ReConnectionRetryPeriod: 1}
	p := net.New()
	c := net.Start(p, cfg, nil)
	var all []*rwp.OutboundMessage
	var conns []*net.Conn
	n := 0
	for i := 0; i < z.Pick(2, 3); i++ {
		k := p.Accept(3*sec + net.Slack())
		net.Must(k != nil, "does not connect")
		conns = append(conns, k)
		n++
		binary := true
		switch z.Choice("loss", 6) {
		case 0: // at once
			k.Close()
			binary = false
		case 1: // after the probe
			k.Wait(len(net.Ping), sec)
			k.Abort()
			binary = false
		case 2: // after the reply
			greet(k, true)
			k.Close()
		case 3: // after a message
			greet(k, true)
			z.Assert(c.Saw("connect", n, sec+net.Slack()), "no connect callback")
			b, l, _ := frames(true, 1)
			all = append(all, l...)
			k.Send(b)
			k.Close()
		case 4: // a panel without a reply, and then without being there for a while
			binary = false
			z.Assert(c.Saw("connect", n, 2*sec+net.Slack()), "no connect callback")
			p.Down()
			k.Close()
			z.Assert(c.Saw("disconnect", n, 2*sec+net.Slack()), "no disconnect callback")
			net.Pause(3 * sec)
			p.Up()
		case 5: // after an error message
			k.Wait(len(net.Ping), sec)
			k.Send([]byte("ErrorMsg=Locked\n"))
			k.Close()
			binary = false
		}
		z.Assert(c.Saw("disconnect", n, 3*sec+net.Slack()), "no disconnect callback")
		e := c.Events()
		z.Assert(e[2*n-2].Binary == binary, "the mode of the panel")
		z.Assert(!e[2*n-1].Exit, "a loss is reported as cancellation")
	}
	k := p.Accept(3*sec + net.Slack())
	net.Must(k != nil, "does not reconnect")
	greet(k, true)
	z.Assert(c.Saw("connect", n+1, sec+net.Slack()), "no connect callback")
	b, l, _ := frames(true, 1)
	k.Send(b)
	delivered(c, append(all, l...))
	ended(p, c, append(conns, k))
}

// CheckRetryWait: cancelled while it waits before it connects again.
func CheckRetryWait() {
	binary := z.Choice("binary", 2) == 1
	cfg, _, re := config()
	p := net.New()
	c := net.Start(p, cfg, nil)
	k := p.Accept(sec + net.Slack())
	net.Must(k != nil, "does not connect")
	greet(k, binary)
	z.Assert(c.Saw("connect", 1, sec+net.Slack()), "no connect callback")
	if z.Choice("down", 2) == 1 {
		p.Down()
	}
	submits(c)
	k.Close()
	wait(0, 10*ms, 500*ms, 1500*ms, re+1500*ms)
	z.Assume(z.Now() < 8*sec)
	ended(p, c, []*net.Conn{k})
}

// CheckRace: cancellation and loss at the same time, in any order of what becomes ready.
func CheckRace() {
	z.Sched(z.Pick(2, 3), z.Pick(3, 5))
	p := net.New()
	c := net.Start(p, nil, nil)
	k := p.Accept(sec + net.Slack())
	net.Must(k != nil, "does not connect")
	greet(k, z.Choice("binary", 2) == 1)
	z.Assert(c.Saw("connect", 1, sec+net.Slack()), "no connect callback")
	switch z.Choice("race", 3) {
	case 0:
		k.Close()
	case 1:
		k.Abort()
	case 2:
		b, _, _ := frames(true, 1)
		k.Send(b)
	}
	ended(p, c, []*net.Conn{k})
}

// CheckInCallback: cancelled by a callback.
func CheckInCallback() {
	z.Sched(1, 2)
	in := z.Choice("in", 2)
	p := net.New()
	c := net.Start(p, nil, func(c *net.Client) {
		c.OnEvent = func(e net.Event) {
			if e.Kind == []string{"connect", "disconnect"}[in] {
				c.Cancel()
			}
		}
	})
	k := p.Accept(sec + net.Slack())
	net.Must(k != nil, "does not connect")
	greet(k, z.Choice("binary", 2) == 1)
	z.Assert(c.Saw("connect", 1, sec+net.Slack()), "no connect callback")
	if in == 1 {
		k.Close()
		z.Assert(c.Saw("disconnect", 1, 2*sec+net.Slack()), "no disconnect callback")
	}
	z.Assert(c.Saw("return", 1, prompt+net.Slack()), "does not end after cancellation")
	ended(p, c, []*net.Conn{k})
}

// CheckConsumerStops: whoever takes the messages stops at cancellation.
func CheckConsumerStops() {
	binary := z.Choice("binary", 2) == 1
	p := net.New()
	c := net.Start(p, nil, func(c *net.Client) { c.Quits = true })
	k := p.Accept(sec + net.Slack())
	net.Must(k != nil, "does not connect")
	greet(k, binary)
	z.Assert(c.Saw("connect", 1, sec+net.Slack()), "no connect callback")
	b, _, _ := frames(binary, 3)
	if z.Choice("early", 2) == 1 {
		k.Send(b)
		wait(0, 50*ms)
		c.Cancel()
	} else {
		c.Cancel()
		k.Send(b)
	}
	ended(p, c, []*net.Conn{k})
}

// CheckOutgoing: cancelled while messages are being submitted.
func CheckOutgoing() {
	binary := z.Choice("binary", 2) == 1
	p := net.New()
	c := net.Start(p, nil, nil)
	k := p.Accept(sec + net.Slack())
	net.Must(k != nil, "does not connect")
	stop := false
	go func() {
		for i := 0; i < 5 && !stop; i++ {
			select {
			case c.To <- []*rwp.InboundMessage{{FlowMessage: rwp.InboundMessage_PING}}:
			case <-time.After(3 * sec):
			}
		}
	}()
	greet(k, binary)
	z.Assert(c.Saw("connect", 1, sec+net.Slack()), "no connect callback")
	wait(0, 30*ms)
	ended(p, c, []*net.Conn{k})
}

// CheckStalled: cancelled, or the connection lost, while the panel takes no more of what is submitted.
func CheckStalled() {
	binary := z.Choice("binary", 2) == 1
	p := net.New()
	c := net.Start(p, nil, nil)
	k := p.Accept(sec + net.Slack())
	net.Must(k != nil, "does not connect")
	greet(k, binary)
	z.Assert(c.Saw("connect", 1, sec+net.Slack()), "no connect callback")
	k.Hold([]int{1, 5, 20}[z.Choice("takes", 3)])
	n, size := 1, 6
	if !z.Symbolic() {
		n, size = 40, 400000 // more than the buffers of the sockets
	}
	var l []*rwp.InboundMessage
	for i := 0; i < n; i++ {
		l = append(l, &rwp.InboundMessage{States: []*rwp.HWCState{{HWCIDs: []uint32{uint32(i + 1)}, HWCGfx: &rwp.HWCGfx{W: 64, H: 32, ImageData: make([]byte, size)}}}})
	}
	stop := false
	go func() {
		for i := 0; i < 2 && !stop; i++ {
			select {
			case c.To <- l:
			case <-time.After(3 * sec):
			}
		}
	}()
	wait(50*ms, 2500*ms)
	b, _, _ := frames(binary, 2)
	switch z.Choice("then", 3) {
	case 0:
	case 1: // in the middle of a message
		k.Send(b[:z.Choice("cut", z.Pick(6, 10))])
	case 2:
		k.Abort()
		z.Assert(c.Saw("disconnect", 1, 3*sec+net.Slack()), "the loss is not noticed")
	}
	z.Assert(c.Stop(prompt+net.Slack()), "does not end after cancellation")
	k.Release()
	ended(p, c, []*net.Conn{k})
}
