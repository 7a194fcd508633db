// Package c08: receive framing is independent of segmentation and timing.
package c08

import (
	"time"

	rp "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	net "github.com/SKAARHOJ/rawpanel-lib/zzverif/zznet"
	z "github.com/SKAARHOJ/rawpanel-lib/zzverif/zzsym"
	"google.golang.org/protobuf/proto"
)

const Harness = "c08"

const ms, sec = time.Millisecond, time.Second

// connected is a client in the given mode, connected to a panel.
func connected(binary bool, setup func(*net.Client)) (*net.Client, *net.Conn) {
	p := net.New()
	c := net.Start(p, nil, setup)
	k := p.Accept(sec + net.Slack())
	net.Must(k != nil, "no connection")
	k.Wait(len(net.Ping), sec+net.Slack())
	if binary {
		k.Send(net.Ack)
	} else {
		k.Send([]byte("RDY\n"))
	}
	z.Assert(c.Saw("connect", 1, sec+net.Slack()), "no connect callback")
	z.Assert(c.Events()[0].Binary == binary, "the mode of the panel")
	return c, k
}

// finish checks what was delivered and ends the session.
func finish(c *net.Client, want []*rwp.OutboundMessage) {
	c.Delivered(len(want), net.Slack())
	net.Pause(2500 * ms)
	got := c.Msgs()
	z.Observe("delivered", len(got))
	z.Assert(len(got) >= len(want), "messages are missing")
	z.Assert(len(got) <= len(want), "more messages than were sent")
	for i := range want {
		z.Assert(proto.Equal(got[i], want[i]), "a message differs")
	}
	z.Assert(!c.Saw("disconnect", 1, 0), "disconnected")
	z.Assert(c.Stop(4*sec), "does not end")
}

// message is some message with arbitrary content.
func message(kind int) *rwp.OutboundMessage {
	switch kind {
	case 0:
		return &rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: z.Uint32("id", 1, 300), Binary: &rwp.BinaryEvent{Pressed: z.Bool("pressed"), Edge: rwp.BinaryEvent_EdgeID(z.Int("edge", 0, 16))}}}}
	case 1:
		return &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_FlowMsg(z.Int("flow", 1, 100))}
	case 2:
		return &rwp.OutboundMessage{PanelInfo: &rwp.PanelInfo{Serial: z.StringIn("serial", 2, 32, 126)}}
	case 3:
		return &rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: z.Uint32("id", 1, 127), Pulsed: &rwp.PulsedEvent{Value: z.Int32("pulse", -2, 200)}}}}
	}
	return &rwp.OutboundMessage{}
}

// stream is the frames of messages.
func stream(l []*rwp.OutboundMessage) (b []byte) {
	for _, m := range l {
		p, err := proto.Marshal(m)
		z.Assert(err == nil, "marshal")
		b = append(b, net.Frame(p)...)
	}
	return
}

// sendCut sends b in up to n+1 segments cut anywhere.
func sendCut(k *net.Conn, b []byte, n int, gap func() time.Duration) {
	at := 0
	for i := 0; i < n && at < len(b); i++ {
		c := at + z.Choice("cut", len(b)-at)
		if c > at {
			k.Send(b[at:c])
			net.Pause(gap())
		}
		at = c
	}
	k.Send(b[at:])
}

// CheckBinaryCuts: two messages, cut anywhere.
func CheckBinaryCuts() {
	a, b := z.Choice("a", 5), z.Choice("b", z.Pick(1, 5))
	c, k := connected(true, nil)
	l := []*rwp.OutboundMessage{message(a), message((a + 1 + b) % 5)}
	sendCut(k, stream(l), z.Pick(2, 3), func() time.Duration { return []time.Duration{net.Gap, 600 * ms}[z.Choice("gap", 2)] })
	finish(c, l)
}

// CheckBinaryDribble: byte by byte.
func CheckBinaryDribble() {
	c, k := connected(true, nil)
	a := z.Choice("a", 5)
	l := []*rwp.OutboundMessage{message(a), message((a + 1) % 5), message((a + 2) % 5)}
	for _, b := range stream(l) {
		k.Send([]byte{b})
		net.Pause(net.Gap)
	}
	finish(c, l)
}

// CheckBinaryIdle: pauses before, between and after messages, longer than any timeout.
func CheckBinaryIdle() {
	c, k := connected(true, nil)
	var l []*rwp.OutboundMessage
	for i := 0; i < z.Pick(2, 3); i++ {
		net.Pause([]time.Duration{0, 2100 * ms, 4500 * ms, 1500 * ms}[z.Choice("idle", z.Pick(3, 4))])
		m := message((i + 3) % 5)
		sendCut(k, stream([]*rwp.OutboundMessage{m}), z.Choice("cuts", 2), func() time.Duration { return 1200 * ms })
		l = append(l, m)
	}
	net.Pause([]time.Duration{0, 2100 * ms}[z.Choice("idle", 2)])
	finish(c, l)
}

// sized is a message with a payload of n bytes (n = 0 or n > 10).
func sized(n int, fill byte) *rwp.OutboundMessage {
	if n == 0 {
		return &rwp.OutboundMessage{}
	}
	for pad := n - 10; pad < n; pad++ {
		b := make([]byte, pad)
		for i := range b {
			b[i] = 'a' + byte(i%23) + fill
		}
		m := &rwp.OutboundMessage{ErrorMessage: &rwp.Message{Message: string(b)}}
		if proto.Size(m) == n {
			return m
		}
	}
	// the size of this message jumps over n: fill up with another field
	m := sized(n-2, fill)
	m.FlowMessage = rwp.OutboundMessage_BSY
	return m
}

// CheckBinarySizes: messages of all sizes, in a few big segments and with short ones behind them.
func CheckBinarySizes() {
	n := []int{0, 995, 996, 997, 999, 1000, 1001, 1004, 1024, 1460, 4091, 4092, 4096, 4097, 65535, 65536, 131072, 499998, 499999}[z.Choice("size", z.Pick(17, 19))]
	c, k := connected(true, nil)
	first := message(0)
	l := []*rwp.OutboundMessage{first, sized(n, 0), message(3)}
	if n < 5000 {
		l = append(l, sized(n, 1))
	}
	b := stream(l)
	seg := []int{len(b), 1000, 1460, 4096, 40000}[z.Choice("segment", 5)]
	z.Assume(len(b)/seg < 40 && (seg == len(b) || seg < len(b)))
	for len(b) > seg {
		k.Send(b[:seg])
		net.Pause(net.Gap)
		b = b[seg:]
	}
	k.Send(b)
	finish(c, l)
}

// CheckBinaryMany: many messages in one segment, and a consumer that takes its time.
func CheckBinaryMany() {
	slow := []time.Duration{0, 700 * ms, 3 * sec}[z.Choice("slow", 3)]
	c, k := connected(true, func(c *net.Client) { c.Delay = slow })
	var l []*rwp.OutboundMessage
	n := 3
	if slow == 0 {
		n = z.Pick(60, 300)
	}
	for i := 0; i < n; i++ {
		l = append(l, message(4-i%5))
		if i > 2 {
			l[i] = &rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: uint32(i), Absolute: &rwp.AbsoluteEvent{Value: uint32(1000 - i)}}}}
		}
	}
	sendCut(k, stream(l[:2]), z.Choice("cuts", 2), func() time.Duration { return net.Gap })
	k.Send(stream(l[2:]))
	c.Delivered(len(l), net.Slack()+time.Duration(n)*slow)
	finish(c, l)
}

// line is a line a panel can send, and what it says.
func line(kind int) (string, *rwp.OutboundMessage) {
	switch kind {
	case 0:
		return "ping", &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_PING}
	case 1:
		d := z.StringIn("digit", 1, '1', '9')
		e := &rwp.HWCEvent{HWCID: uint32(d[0] - '0'), Binary: &rwp.BinaryEvent{Pressed: true}}
		return "HWC#" + d + "=Down", &rwp.OutboundMessage{Events: []*rwp.HWCEvent{e}}
	case 2:
		s := z.StringIn("serial", 2, 33, 126)
		return "_serial=" + s, &rwp.OutboundMessage{PanelInfo: &rwp.PanelInfo{Serial: s}}
	case 3:
		return "HWC#12.4=Up", &rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: 12, Binary: &rwp.BinaryEvent{Edge: rwp.BinaryEvent_EdgeID(4)}}}}
	}
	d := z.StringIn("digit", 1, '0', '9')
	return "map=" + d + ":7", &rwp.OutboundMessage{HWCavailability: map[uint32]uint32{uint32(d[0] - '0'): 7}}
}

// lines is the stream of some lines.
func lines(n, from, step int) (b []byte, l []*rwp.OutboundMessage) {
	for i := 0; i < n; i++ {
		s, m := line((from + i*step) % 5)
		s += []string{"\n", "\r\n"}[z.Choice("end", 2)]
		b, l = append(b, s...), append(l, m)
	}
	return
}

// CheckAsciiCuts: lines, cut anywhere.
func CheckAsciiCuts() {
	c, k := connected(false, nil)
	b, l := lines(2, z.Choice("from", 5), 1)
	sendCut(k, b, z.Pick(2, 3), func() time.Duration { return []time.Duration{net.Gap, 2300 * ms}[z.Choice("gap", 2)] })
	finish(c, l)
}

// CheckAsciiDribble: byte by byte, with a long pause somewhere.
func CheckAsciiDribble() {
	c, k := connected(false, nil)
	b, l := lines(3, z.Choice("from", 5), 2)
	long := z.Choice("long", len(b))
	for i, v := range b {
		k.Send([]byte{v})
		if i == long {
			net.Pause(3 * sec)
		}
		net.Pause(net.Gap)
	}
	finish(c, l)
}

// CheckAsciiIdle: pauses longer than any timeout, and a consumer that takes its time.
func CheckAsciiIdle() {
	slow := []time.Duration{0, 3 * sec}[z.Choice("slow", 2)]
	c, k := connected(false, func(c *net.Client) { c.Delay = slow })
	var all []*rwp.OutboundMessage
	for i := 0; i < 2; i++ {
		net.Pause([]time.Duration{0, 2100 * ms, 4500 * ms}[z.Choice("idle", 3)])
		b, l := lines(2, i, 3)
		k.Send(b)
		all = append(all, l...)
	}
	c.Delivered(len(all), net.Slack()+4*slow)
	finish(c, all)
}

// CheckCutOff: the connection ends in the middle of a line or frame; what came before counts, the piece does not.
func CheckCutOff() {
	bin := z.Bool("binary")
	var b, rest []byte
	var l []*rwp.OutboundMessage
	n := z.Choice("whole", 3)
	if bin {
		for i := 0; i < n; i++ {
			l = append(l, message(i))
		}
		b, rest = stream(l), stream([]*rwp.OutboundMessage{message(3 - n)})
	} else {
		b, l = lines(n, 0, 1)
		rest, _ = lines(1, n, 0)
		rest = rest[:len(rest)-1] // At the most all but the LF
	}
	rest = rest[:z.Choice("cut", len(rest))]
	c, k := connected(bin, nil)
	if z.Bool("apart") && len(b) > 0 {
		k.Send(b)
		net.Pause(net.Gap)
		b = nil
	}
	k.Send(append(b, rest...))
	net.Pause([]time.Duration{net.Gap, 700 * ms}[z.Choice("gap", 2)])
	k.Close()
	c.Delivered(len(l), net.Slack())
	net.Pause(700 * ms)
	got := c.Msgs()
	z.Observe("delivered", len(got))
	z.Assert(len(got) >= len(l), "messages are missing")
	z.Assert(len(got) <= len(l), "a piece of a message is delivered")
	for i := range l {
		z.Assert(proto.Equal(got[i], l[i]), "a message differs")
	}
	z.Assert(c.Stop(4*sec), "does not end")
}

// CheckAsciiLong: lines longer than any buffer.
func CheckAsciiLong() {
	n := []int{1000, 4095, 4096, 4097, 70000, 600000}[z.Choice("size", z.Pick(5, 6))]
	c, k := connected(false, nil)
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte(i%23)
	}
	s, m := line(2)
	t, o := line(1)
	l := []*rwp.OutboundMessage{m, {ErrorMessage: &rwp.Message{Message: string(b)}}, o}
	end := []string{"\n", "\r\n"}[z.Choice("end", 2)]
	all := []byte(s + end + "ErrorMsg=" + string(b) + end + t + end)
	seg := []int{len(all), 1460, 40000}[z.Choice("segment", 3)]
	z.Assume(seg <= len(all) && len(all)/seg < 60)
	for len(all) > seg {
		k.Send(all[:seg])
		net.Pause(net.Gap)
		all = all[seg:]
	}
	k.Send(all)
	finish(c, l)
}

var _ = rp.ConnectToPanelConfig{}
