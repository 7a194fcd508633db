// Package c12: protocol auto-detection.
package c12

import (
	"bytes"
	"strconv"
	"time"

	rp "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	net "github.com/SKAARHOJ/rawpanel-lib/zzverif/zznet"
	z "github.com/SKAARHOJ/rawpanel-lib/zzverif/zzsym"
	"google.golang.org/protobuf/proto"
)

const Harness = "c12"

const ms, sec = time.Millisecond, time.Second

// reply is what a panel answers the probe with.
type reply struct {
	data   []byte
	binary bool
	known  bool // text that the stand-alone detector recognises as well
	err    string
}

// frame is an acknowledge frame, possibly with more in it.
func frame() []byte {
	m := &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_ACK}
	switch z.Choice("more", 4) {
	case 1:
		m.PanelInfo = &rwp.PanelInfo{Serial: z.StringIn("serial", 2, 32, 126)}
	case 2:
		m.Events = []*rwp.HWCEvent{{HWCID: z.Uint32("id", 1, 70000), Pulsed: &rwp.PulsedEvent{Value: -1}}}
	case 3:
		m.PanelTopology = &rwp.PanelTopology{Json: string(bytes.Repeat([]byte("x"), 900))}
	}
	b, _ := proto.Marshal(m)
	return net.Frame(b)
}

// text is printable text of n bytes.
func text(name string, n int) string { return z.StringIn(name, n, 32, 126) }

func someReply(other bool) *reply {
	end := []string{"\n", "\r\n"}[z.Choice("end", 2)]
	switch z.Choice("reply", z.Concrete(map[bool]int{false: 6, true: 9}[other])) {
	case 0:
		return &reply{data: frame(), binary: true}
	case 1:
		return &reply{known: true}
	case 2:
		return &reply{data: []byte("RDY" + end), known: true}
	case 3:
		return &reply{data: []byte("map=" + text("map", z.Choice("length", z.Pick(4, 6))) + end), known: true}
	case 4:
		return &reply{data: []byte("RDY" + end + "map=1:2" + end + text("line", 3) + end), known: true}
	case 5:
		return &reply{data: []byte("map=" + string(bytes.Repeat([]byte("1"), 990)) + end), known: true}
	case 6:
		e := text("error", z.Choice("length", z.Pick(4, 6)))
		return &reply{data: []byte("ErrorMsg=" + e + end), err: e}
	case 7:
		e := text("error", 2)
		return &reply{data: []byte("ErrorMsg=" + e + end + text("line", 4) + end), err: e}
	}
	t := text("text", z.Choice("length", z.Pick(6, 8)))
	z.Assume(len(t) < 9)
	return &reply{data: []byte(t + end)}
}

func delay() time.Duration {
	return []time.Duration{0, 30 * ms, 1000 * ms, 1800 * ms}[z.Choice("delay", z.Pick(4, 4))]
}

// probed waits for the probe and answers it; it tells how long the answer took.
func (r *reply) probed(k *net.Conn) {
	z.Assert(k.Wait(len(net.Ping), sec+net.Slack()), "no probe")
	d := delay()
	net.Pause(d)
	z.Assert(bytes.Equal(k.Got(), net.Ping), "the probe is something else than one ping message")
	if r.data == nil {
		z.Assume(d == 0)
		net.Pause(1700*ms - net.Slack()/4)
		z.Assert(bytes.Equal(k.Got(), net.Ping), "something else is written while the panel may still answer")
		return
	}
	k.Send(r.data)
}

// after checks everything that was written, apart from the given traffic behind it.
func (r *reply) after(k *net.Conn, traffic []byte) {
	want := append([]byte(nil), net.Ping...)
	if !r.binary {
		want = append(want, '\n')
	}
	want = append(want, traffic...)
	k.Wait(len(want), net.Slack())
	net.Pause(100 * ms)
	got := k.Got()
	z.Assert(len(got) >= len(want) && bytes.Equal(got[:len(want)], want), "the panel does not receive the probe and, in ASCII mode, one line feed before anything else")
	z.Assert(len(got) == len(want), "the panel receives something else")
}

// CheckClient: the reconnecting client.
func CheckClient() {
	r := someReply(true)
	p := net.New()
	c := net.Start(p, nil, nil)
	k := p.Accept(sec + net.Slack())
	net.Must(k != nil, "does not connect")
	var traffic []byte
	early := z.Choice("early", 2) == 1
	ping := []*rwp.InboundMessage{{FlowMessage: rwp.InboundMessage_PING}}
	if early {
		go func() {
			select {
			case c.To <- ping:
			case <-time.After(5 * sec):
			}
		}()
	}
	r.probed(k)
	closes := z.Choice("close", 2) == 1
	if closes {
		z.Assume(!early && r.data != nil)
		k.Close()
	}
	z.Assert(c.Saw("connect", 1, 2*sec+net.Slack()), "no connect callback")
	if early {
		traffic = []byte("ping\n")
		if r.binary {
			traffic = net.Ping
		}
	}
	r.after(k, traffic)
	e := c.Events()[0]
	z.Assert(e.Binary == r.binary, "taken for the other protocol")
	z.Assert(e.Err == r.err || e.Err == r.err+"\r" && bytes.HasSuffix(r.data, []byte("\r\n")), "another error message")
	z.Observe("binary", e.Binary)
	z.Assert(c.Stop(4*sec), "does not end")
}

// CheckAckPieces: an acknowledge frame in pieces, and with other messages right behind it.
func CheckAckPieces() {
	a := frame()
	p := net.New()
	c := net.Start(p, nil, nil)
	k := p.Accept(sec + net.Slack())
	net.Must(k != nil, "does not connect")
	k.Wait(len(net.Ping), sec)
	var want []*rwp.OutboundMessage
	b := append([]byte(nil), a...)
	for i := z.Choice("behind", 3); i > 0; i-- {
		m := &rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: uint32(i), Pulsed: &rwp.PulsedEvent{Value: z.Int32("value", 1, 127)}}}}
		w, _ := proto.Marshal(m)
		b, want = append(b, net.Frame(w)...), append(want, m)
	}
	if len(b) > 100 {
		b = append(b[:len(a):len(a)], b[len(a):]...)
	}
	cut := z.Choice("cut", 12)
	if cut == 11 {
		cut = len(b) - 1
	}
	z.Assume(cut < len(b))
	if cut > 0 {
		k.Send(b[:cut])
		net.Pause([]time.Duration{net.Gap, 900 * ms}[z.Choice("gap", 2)])
	}
	k.Send(b[cut:])
	z.Assert(c.Saw("connect", 1, 2*sec+net.Slack()), "no connect callback")
	z.Assert(c.Events()[0].Binary, "taken for the other protocol")
	c.Delivered(len(want), net.Slack())
	net.Pause(100 * ms)
	got := c.Msgs()
	net.Must(len(got) == len(want), "the messages behind the reply are not delivered once each")
	for i := range want {
		z.Assert(proto.Equal(got[i], want[i]), "a message behind the reply differs")
	}
	z.Assert(bytes.Equal(k.Got(), net.Ping), "the panel receives something else")
	z.Assert(c.Stop(4*sec), "does not end")
}

// CheckAgain: each connection is probed anew.
func CheckAgain() {
	p := net.New()
	c := net.Start(p, nil, nil)
	for i := 1; i <= 2; i++ {
		k := p.Accept(3*sec + net.Slack())
		net.Must(k != nil, "does not connect")
		r := []*reply{{data: net.Ack, binary: true}, {known: true}, {data: []byte("RDY\n")}, {data: []byte("ErrorMsg=x\n"), err: "x"}}[z.Choice("reply", 4)]
		r.probed(k)
		z.Assert(c.Saw("connect", i, 2*sec+net.Slack()), "no connect callback")
		r.after(k, nil)
		e := c.Events()[2*i-2]
		z.Assert(e.Binary == r.binary && e.Err == r.err, "taken for something else")
		k.Close()
		z.Assert(c.Saw("disconnect", i, 2*sec+net.Slack()), "no disconnect callback")
	}
	z.Assert(c.Stop(4*sec), "does not end")
}

// CheckDetector: the stand-alone detector.
func CheckDetector() {
	r := someReply(false)
	p := net.New()
	c := net.Dial(p)
	k := p.Accept(sec + net.Slack())
	net.Must(k != nil, "does not connect")
	done, binary := false, false
	go func() {
		b := rp.AutoDetectIfPanelEncodingIsBinary(c, p.Addr)
		net.With(func() { done, binary = true, b })
	}()
	r.probed(k)
	if z.Choice("close", 2) == 1 {
		z.Assume(r.data != nil)
		k.Close()
	}
	net.Must(net.Until(2*sec+net.Slack(), func() bool { return done }), "does not return")
	z.Assert(binary == r.binary, "taken for the other protocol")
	z.Observe("binary", binary)
	r.after(k, nil)
	c.Close()
}

// CheckDetectorPieces: an acknowledge frame that reaches the stand-alone detector in two pieces.
func CheckDetectorPieces() {
	a := frame()
	p := net.New()
	c := net.Dial(p)
	k := p.Accept(sec + net.Slack())
	net.Must(k != nil, "does not connect")
	done, binary := false, false
	go func() {
		b := rp.AutoDetectIfPanelEncodingIsBinary(c, p.Addr)
		net.With(func() { done, binary = true, b })
	}()
	z.Assert(k.Wait(len(net.Ping), sec+net.Slack()), "no probe")
	net.Pause(delay())
	cut := 1 + z.Choice("cut", 10)
	z.Assume(cut < len(a))
	k.Send(a[:cut])
	net.Pause(net.Gap)
	k.Send(a[cut:])
	net.Must(net.Until(2*sec+net.Slack(), func() bool { return done }), "does not return")
	z.Assert(binary, "taken for an ASCII panel")
	net.Pause(100 * ms)
	z.Assert(bytes.Equal(k.Got(), net.Ping), "the panel receives something else")
	c.Close()
}

// CheckTextPieces: the ready word or a map line in two pieces, for both.
func CheckTextPieces() {
	end := []string{"\n", "\r\n"}[z.Choice("end", 2)]
	text := []string{"RDY" + end, "map=1:2" + end, "RDY" + end + "map=" + z.StringIn("map", 3, '0', '9') + end}[z.Choice("text", 3)]
	cut := 1 + z.Choice("cut", 7)
	z.Assume(cut < len(text))
	r := &reply{known: true}
	p := net.New()
	client := z.Choice("client", 2) == 1
	done, binary := false, false
	var c *net.Client
	if client {
		c = net.Start(p, nil, nil)
	}
	var own net.NetConn
	if !client {
		own = net.Dial(p)
	}
	k := p.Accept(sec + net.Slack())
	net.Must(k != nil, "does not connect")
	if !client {
		go func() {
			b := rp.AutoDetectIfPanelEncodingIsBinary(own, p.Addr)
			net.With(func() { done, binary = true, b })
		}()
	}
	z.Assert(k.Wait(len(net.Ping), sec+net.Slack()), "no probe")
	net.Pause([]time.Duration{0, 1000 * ms}[z.Choice("delay", 2)])
	k.Send([]byte(text[:cut]))
	net.Pause([]time.Duration{net.Gap, 500 * ms}[z.Choice("gap", 2)])
	k.Send([]byte(text[cut:]))
	if client {
		z.Assert(c.Saw("connect", 1, 2*sec+net.Slack()), "no connect callback")
		z.Assert(!c.Events()[0].Binary, "taken for the other protocol")
		z.Assert(c.Events()[0].Err == "", "an error message")
		r.after(k, nil)
		z.Assert(c.Stop(4*sec), "does not end")
		return
	}
	net.Must(net.Until(2*sec+net.Slack(), func() bool { return done }), "does not return")
	z.Assert(!binary, "taken for the other protocol")
	r.after(k, nil)
	own.Close()
}

// CheckTextBehind: a text reply to the client in two pieces, with lines right behind it.
func CheckTextBehind() {
	end := []string{"\n", "\r\n"}[z.Choice("end", 2)]
	e := ""
	text := []string{"RDY", "map=1:2", "ErrorMsg=", "x"}[z.Choice("text", 4)]
	if text == "ErrorMsg=" {
		e = "no " + z.StringIn("error", 1, 33, 126)
		text += e
	}
	text += end
	n := z.Choice("behind", 3)
	ids := []uint32{z.Uint32("id", 0, 99999), 7}[:n]
	if n > 0 {
		text += "HWC#" + strconv.Itoa(int(ids[0])) + "=Enc:1" + end
	}
	if n > 1 {
		text += "_name=HWC#3=Down" + end + "HWC#7=Enc:1" + end
	}
	p := net.New()
	c := net.Start(p, nil, nil)
	k := p.Accept(sec + net.Slack())
	net.Must(k != nil, "does not connect")
	z.Assert(k.Wait(len(net.Ping), sec+net.Slack()), "no probe")
	cut := z.Choice("cut", z.Pick(24, 40))
	z.Assume(cut < len(text))
	if cut > 0 {
		k.Send([]byte(text[:cut]))
		net.Pause([]time.Duration{net.Gap, 900 * ms}[z.Choice("gap", 2)])
	}
	k.Send([]byte(text[cut:]))
	z.Assert(c.Saw("connect", 1, 2*sec+net.Slack()), "no connect callback")
	ev := c.Events()[0]
	z.Assert(!ev.Binary, "taken for the other protocol")
	z.Assert(ev.Err == e || ev.Err == e+"\r", "another error message")
	events := func() (l []uint32, names int) {
		for _, m := range c.Msgs0() {
			for _, e := range m.Events {
				l = append(l, e.HWCID)
			}
			if m.PanelInfo != nil {
				names++
				z.Assert(m.PanelInfo.Name == "HWC#3=Down", "a line behind the reply differs")
			}
		}
		return
	}
	net.Until(net.Slack(), func() bool { l, _ := events(); return len(l) >= n })
	net.Pause(50 * ms)
	var got []uint32
	names := 0
	net.With(func() { got, names = events() })
	net.Must(len(got) == n && names == n/2, "the lines behind the reply are not delivered once each")
	for i := range ids {
		z.Assert(got[i] == ids[i], "a line behind the reply differs")
	}
	(&reply{}).after(k, nil)
	z.Assert(c.Stop(4*sec), "does not end")
}
