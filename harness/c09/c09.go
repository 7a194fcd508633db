// Package c09: submitted messages reach the panel intact, in order, in the negotiated encoding.
package c09

import (
	"bytes"
	"time"

	rp "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	net "github.com/SKAARHOJ/rawpanel-lib/zzverif/zznet"
	z "github.com/SKAARHOJ/rawpanel-lib/zzverif/zzsym"
	"google.golang.org/protobuf/proto"
)

const Harness = "c09"

const ms, sec = time.Millisecond, time.Second

type list = []*rwp.InboundMessage

// session is a connected client and its panel.
type session struct {
	p      *net.Panel
	c      *net.Client
	k      *net.Conn
	binary bool
	n      int
	skip   int // bytes of probing
}

func begin(binary bool, setup func(*net.Client)) *session {
	s := &session{p: net.New(), binary: binary}
	s.c = net.Start(s.p, nil, setup)
	s.accept()
	return s
}

func (s *session) accept() {
	s.k = s.p.Accept(3*sec + net.Slack())
	net.Must(s.k != nil, "does not connect")
	s.n++
	s.k.Wait(len(net.Ping), sec)
	s.skip = len(net.Ping)
	if s.binary {
		s.k.Send(net.Ack)
	} else {
		s.k.Send([]byte("RDY\n"))
		s.skip++
	}
	net.Must(s.c.Saw("connect", s.n, sec+net.Slack()), "no connect callback")
}

// submit hands a list over.
func (s *session) submit(l list) {
	select {
	case s.c.To <- l:
	case <-time.After(12 * sec):
		z.Assert(false, "a submission is not taken")
	}
}

// encoded is how many bytes a list takes on the wire, and the bytes in ASCII mode.
func (s *session) encoded(l list) (n int, b []byte) {
	if s.binary {
		for _, m := range l {
			n += 4 + proto.Size(m)
		}
		return
	}
	for _, t := range rp.InboundMessagesToRawPanelASCIIstrings(l) {
		b = append(append(b, t...), 10)
	}
	return len(b), b
}

// take checks that b begins with the encoding of l and returns the rest.
func (s *session) take(b []byte, l list) []byte {
	if !s.binary {
		n, w := s.encoded(l)
		net.Must(len(b) >= n, "the lines are not completely written")
		z.Assert(bytes.Equal(b[:n], w), "something else than the converter's lines is written")
		return b[n:]
	}
	for _, m := range l {
		net.Must(len(b) >= 4, "a frame is missing")
		n := int(b[0]) | int(b[1])<<8 | int(b[2])<<16 | int(b[3])<<24
		net.Must(n == proto.Size(m) && len(b) >= 4+n, "a frame is of another size or not completely written")
		got := &rwp.InboundMessage{}
		z.Assert(proto.Unmarshal(b[4:4+n], got) == nil, "a frame does not decode")
		z.Assert(proto.Equal(got, m), "a frame decodes to another message")
		b = b[4+n:]
	}
	return b
}

// received checks that exactly these lists were written, in order.
func (s *session) received(ls ...list) {
	n := s.skip
	for _, l := range ls {
		k, _ := s.encoded(l)
		n += k
	}
	s.k.Wait(n, net.Slack())
	if !z.Symbolic() && n > 1<<20 {
		s.k.Wait(n, 10*sec)
	}
	net.Pause(50 * ms)
	b := s.k.Got()
	net.Must(len(b) >= s.skip, "no probe")
	b = b[s.skip:]
	for _, l := range ls {
		b = s.take(b, l)
	}
	z.Assert(len(b) == 0, "more is written than was submitted")
}

func (s *session) end() {
	z.Assert(s.c.Stop(4*sec), "does not end")
}

// message is some message.
func message(kind int) *rwp.InboundMessage {
	switch kind {
	case 0:
		return &rwp.InboundMessage{FlowMessage: rwp.InboundMessage_FlowMsg(z.Int("flow", 1, 3))}
	case 1:
		return &rwp.InboundMessage{States: []*rwp.HWCState{{HWCIDs: []uint32{z.Uint32("id", 1, 200)}, HWCMode: &rwp.HWCMode{State: rwp.HWCMode_StateE(z.Int("mode", 0, 5))}}}}
	case 2:
		return &rwp.InboundMessage{States: []*rwp.HWCState{{HWCIDs: []uint32{3, 4}, HWCText: &rwp.HWCText{Title: z.StringIn("title", 2, 33, 126), Formatting: 7}}}}
	case 3:
		return &rwp.InboundMessage{Command: &rwp.Command{ActivatePanel: z.Bool("activate"), SendPanelInfo: true, ClearAll: true}}
	case 4:
		return &rwp.InboundMessage{States: []*rwp.HWCState{{HWCIDs: []uint32{5}, HWCGfx: &rwp.HWCGfx{W: 64, H: 32, ImageData: bytes.Repeat([]byte{z.Byte("pixels", 0, 255)}, 256)}}}}
	}
	return &rwp.InboundMessage{}
}

// lists are n lists of up to k messages.
func lists(n, k int) (ls []list) {
	for i := 0; i < n; i++ {
		var l list
		for j := z.Choice("messages", k+1); j > 0; j-- {
			l = append(l, message((z.Choice("kind", 2)*3+i+j)%6))
		}
		ls = append(ls, l)
	}
	return
}

// traffic sends something from the panel.
func (s *session) traffic(i int) {
	if s.binary {
		s.k.Send(append(net.Frame([]byte{8, 1}), net.Frame([]byte{8, 5})[:2+i%4]...))
		net.Pause(time.Duration(i%2) * net.Gap)
		s.k.Send(net.Frame([]byte{8, 5})[2+i%4:])
		return
	}
	s.k.Send([]byte("ping\nHWC#4="))
	net.Pause(time.Duration(i%2) * net.Gap)
	s.k.Send([]byte("Down\n"))
}

// CheckLists: lists of any length, one after the other, with traffic from the panel.
func CheckLists() {
	s := begin(z.Choice("binary", 2) == 1, nil)
	ls := lists(z.Pick(2, 3), 2)
	talk := z.Choice("traffic", 3)
	for i, l := range ls {
		if talk > 0 {
			s.traffic(talk + i)
		}
		s.submit(l)
	}
	s.received(ls...)
	s.end()
}

// CheckMany: many messages in one list and many lists.
func CheckMany() {
	s := begin(z.Choice("binary", 2) == 1, buffered())
	var ls []list
	n, k := 40, 1
	if z.Choice("shape", 2) == 1 {
		n, k = 2, z.Pick(60, 300)
	}
	for i := 0; i < n; i++ {
		var l list
		for j := 0; j < k; j++ {
			l = append(l, &rwp.InboundMessage{States: []*rwp.HWCState{{HWCIDs: []uint32{uint32(1 + i)}, HWCExtended: &rwp.HWCExtended{Value: uint32(j)}}}})
		}
		ls = append(ls, l)
	}
	ls[0] = append(ls[0], message(z.Choice("kind", 6)))
	for i, l := range ls {
		if i%9 == 0 {
			s.traffic(i)
		}
		s.submit(l)
	}
	s.received(ls...)
	s.end()
}

// CheckSenders: several goroutines submit; each list stays in one piece and each one's lists in order.
func CheckSenders() {
	z.Sched(z.Pick(1, 2), z.Pick(2, 3))
	s := begin(z.Choice("binary", 2) == 1, nil)
	a := []list{{message(0), message(2)}, {message(1)}}[z.Choice("short", 2):]
	b := []list{{message(3), message(4)}, {}}
	done := 0
	for i := range [2]int{} {
		mine := [][]list{a, b}[i]
		go func() {
			for _, l := range mine {
				s.submit(l)
			}
			net.With(func() { done++ })
		}()
	}
	s.traffic(z.Choice("traffic", 2))
	z.Assert(net.Until(4*sec, func() bool { return done == 2 }), "a submission is not taken")
	n := s.skip
	for _, l := range append(append([]list(nil), a...), b...) {
		k, _ := s.encoded(l)
		n += k
	}
	s.k.Wait(n, net.Slack())
	net.Pause(50 * ms)
	got := s.k.Got()
	net.Must(len(got) == n, "something is missing or added")
	got = got[s.skip:]
	// which of the two comes next is read off the first bytes
	for len(a)+len(b) > 0 {
		if len(b) > 0 && len(b[0]) == 0 {
			b = b[1:]
			continue
		}
		if len(a) > 0 && (len(b) == 0 || s.begins(got, a[0])) {
			got, a = s.take(got, a[0]), a[1:]
		} else {
			net.Must(len(b) > 0, "something else is written")
			got, b = s.take(got, b[0]), b[1:]
		}
	}
	s.end()
}

// begins tells whether b begins with the encoding of l.
func (s *session) begins(b []byte, l list) bool {
	if !s.binary {
		n, w := s.encoded(l)
		return len(b) >= n && bytes.Equal(b[:n], w)
	}
	w, _ := proto.Marshal(l[0])
	w = net.Frame(w)
	return len(b) >= len(w) && bytes.Equal(b[:len(w)], w)
}

// CheckLarge: large graphics.
func CheckLarge() {
	s := begin(z.Choice("binary", 2) == 1, nil)
	n := []int{1000, 5000, 32768, 130000}[z.Choice("size", z.Pick(3, 4))]
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i * 7)
	}
	data[n/2] = z.Byte("pixel", 0, 255)
	big := list{{States: []*rwp.HWCState{{HWCIDs: []uint32{7}, HWCGfx: &rwp.HWCGfx{W: 256, H: 64, ImageType: rwp.HWCGfx_RGB16bit, ImageData: data}}}}, message(0)}
	ls := []list{{message(1)}, big, {message(3)}}
	for _, l := range ls {
		s.submit(l)
	}
	s.received(ls...)
	s.end()
}

// buffered gives the client a channel that holds some lists.
func buffered() func(*net.Client) {
	n := z.Choice("buffered", 2) * 4
	return func(c *net.Client) { c.To = make(chan []*rwp.InboundMessage, n) }
}

// filler is as much as natively fills the buffers of a connection nobody reads from.
func filler() (l list) {
	n, k := 1, 6
	if !z.Symbolic() {
		n, k = 40, 400000
	}
	for i := 0; i < n; i++ {
		l = append(l, &rwp.InboundMessage{States: []*rwp.HWCState{{HWCIDs: []uint32{uint32(i + 1)}, HWCGfx: &rwp.HWCGfx{W: 64, H: 32, ImageData: bytes.Repeat([]byte{byte(i)}, k)}}}})
	}
	return
}

// CheckSlow: the panel takes the bytes late.
func CheckSlow() {
	s := begin(z.Choice("binary", 2) == 1, buffered())
	ls := []list{filler(), {message(2), message(4)}, {message(1)}, {message(0)}}
	s.k.Hold([]int{1, 4, 7, 30, 300}[z.Choice("takes", 5)])
	taken := 0
	go func() {
		for _, l := range ls {
			s.submit(l)
			net.With(func() { taken++ })
		}
	}()
	s.traffic(1)
	net.Pause([]time.Duration{50 * ms, 2500 * ms}[z.Choice("wait", 2)])
	if z.Choice("more traffic", 2) == 1 {
		s.traffic(2)
		net.Pause(2200 * ms)
	}
	s.k.Release()
	z.Assert(net.Until(9*sec, func() bool { return taken == len(ls) }), "a submission is not taken")
	s.received(ls...)
	s.end()
}

// CheckEarly: submitted while the mode is not known yet.
func CheckEarly() {
	binary := z.Choice("binary", 2) == 1
	p := net.New()
	ls := []list{{message(z.Choice("kind", 6)), message(2)}, {message(1)}}
	c := net.Start(p, nil, buffered())
	s := &session{p: p, c: c, binary: binary, skip: len(net.Ping)}
	s.k = p.Accept(sec + net.Slack())
	net.Must(s.k != nil, "does not connect")
	go func() {
		for _, l := range ls {
			s.submit(l)
		}
	}()
	net.Pause([]time.Duration{0, 900 * ms}[z.Choice("wait", 2)])
	s.k.Wait(len(net.Ping), sec)
	if binary {
		s.k.Send(net.Ack)
	} else {
		s.skip++
		switch z.Choice("reply", 3) {
		case 0:
			s.k.Send([]byte("RDY\n"))
		case 1:
			s.k.Send([]byte("map=4:5\n"))
		}
	}
	net.Must(c.Saw("connect", 1, 2*sec+net.Slack()), "no connect callback")
	s.received(ls...)
	s.end()
}

// CheckReconnect: nothing of one connection shows up in the next one.
func CheckReconnect() {
	z.Sched(z.Pick(1, 2), z.Pick(2, 3))
	s := begin(z.Choice("binary", 2) == 1, nil)
	a := list{message(1), message(2)}
	s.submit(a)
	s.received(a)
	if z.Choice("reset", 2) == 1 {
		s.k.Abort()
	} else {
		s.k.Close()
	}
	net.Must(s.c.Saw("disconnect", 1, 2*sec+net.Slack()), "no disconnect callback")
	s.binary = z.Choice("then", 2) == 1
	s.accept()
	ls := []list{{message(3)}, {message(0), message(4)}}
	for _, l := range ls {
		s.submit(l)
	}
	s.received(ls...)
	s.end()
}
