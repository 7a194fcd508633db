// Package c10: malformed or stalled panel streams are contained.
package c10

import (
	"time"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	net "github.com/SKAARHOJ/rawpanel-lib/zzverif/zznet"
	z "github.com/SKAARHOJ/rawpanel-lib/zzverif/zzsym"
	"google.golang.org/protobuf/proto"
)

const Harness = "c10"

const ms, sec = time.Millisecond, time.Second

// session is a scripted panel with its client.
type session struct {
	p    *net.Panel
	c    *net.Client
	k    *net.Conn
	n    int                    // connections so far
	want []*rwp.OutboundMessage // what has to be delivered, nil where a message may or may not be delivered
}

func begin() *session {
	s := &session{p: net.New()}
	s.c = net.Start(s.p, nil, nil)
	s.accept(0)
	z.MaxAlloc(700000)
	return s
}

// accept takes the next connection, which has to come within d, in binary mode.
func (s *session) accept(d time.Duration) {
	s.k = s.p.Accept(d + sec + net.Slack())
	net.Must(s.k != nil, "no (new) connection")
	s.n++
	s.k.Wait(len(net.Ping), sec)
	s.k.Send(net.Ack)
	z.Assert(s.c.Saw("connect", s.n, sec+net.Slack()), "no connect callback")
}

// good sends a valid frame.
func (s *session) good() {
	m := &rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: uint32(700 + len(s.want)), Pulsed: &rwp.PulsedEvent{Value: z.Int32("value", 1, 127)}}}}
	b, _ := proto.Marshal(m)
	s.k.Send(net.Frame(b))
	s.want = append(s.want, m)
}

// dropped checks that the client gives this connection up within d and comes back.
func (s *session) dropped(d time.Duration) {
	z.Assert(s.k.Gone(d+net.Slack()), "the connection is not dropped")
	z.Assert(s.c.Saw("disconnect", s.n, net.Slack()), "no disconnect callback")
	s.accept(sec)
}

// end checks all callbacks and messages.
func (s *session) end() {
	s.good()
	net.Pause(50 * ms)
	s.c.Delivered(len(s.want), net.Slack()) // does not matter if some need not be delivered
	got := s.c.Msgs()
	i := 0
	for _, w := range s.want {
		if w == nil {
			// a frame without a valid message: nothing or one message that is not a later one
			if i < len(got) && !marked(got[i]) {
				i++
			}
			continue
		}
		net.Must(i < len(got), "a message after the broken frame is missing")
		z.Assert(proto.Equal(got[i], w), "a message differs")
		i++
	}
	z.Assert(i == len(got), "something else was delivered")
	for i, e := range s.c.Events() {
		z.Assert(e.Kind == []string{"connect", "disconnect"}[i%2], "callbacks do not alternate")
		z.Assert(!e.Exit, "a disconnect is reported as cancelled")
	}
	z.Assert(s.c.Stop(4*sec), "does not end")
}

// marked recognises the messages of good.
func marked(m *rwp.OutboundMessage) bool {
	return len(m.Events) == 1 && m.Events[0].HWCID >= 700 && m.Events[0].Pulsed != nil
}

// header is a length prefix.
func header(n uint32) []byte { return []byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)} }

// overLimit sends a length prefix at or above the limit.
func (s *session) overLimit() {
	var n uint32
	switch z.Choice("length", 4) {
	case 0:
		n = 500000
	case 1:
		n = z.Uint32("n", 500000, 1<<32-1)
	case 2:
		n = 1 << 31
	case 3:
		n = 1<<32 - 1
	}
	s.k.Send(append(header(n), z.Bytes("more", z.Choice("more", 3)*2)...))
	z.Assert(s.k.Gone(net.Slack()), "a length above the limit does not end the connection")
	s.dropped(0)
}

// CheckOverLimit: any length from the limit on.
func CheckOverLimit() {
	s := begin()
	if z.Choice("before", 2) == 1 {
		s.good()
	}
	s.overLimit()
	s.end()
}

// stall sends the beginning of a frame.
func (s *session) stall() {
	n := []int{1, 6, 1000, 499999, 2}[z.Choice("size", 5)]
	b := append(header(uint32(n)), 0x0a, 0x04, 0x08, 0x07, 0x12, 0x00)
	if n < 6 {
		b = b[:4+n]
	}
	k := 1 + z.Choice("sent", len(b)-1)
	if n == 1000 && z.Choice("most", 2) == 1 {
		b = append(header(1000), make([]byte, 999)...)
		k = len(b)
	}
	z.Assume(k < 4+n)
	if c := z.Choice("in two", 3); c > 0 && k > 1 {
		// the last bytes come a little later
		s.k.Send(b[:k/2])
		net.Pause([]time.Duration{net.Gap, 1000 * ms}[c-1])
		s.k.Send(b[k/2 : k])
	} else {
		s.k.Send(b[:k])
	}
	s.dropped(2 * sec)
}

// CheckStall: a frame that stops anywhere.
func CheckStall() {
	s := begin()
	if z.Choice("before", 2) == 1 {
		s.good()
	}
	s.stall()
	s.end()
}

// bad sends a frame of correct length with an empty or arbitrary payload.
func (s *session) bad(n int) {
	b := z.Bytes("payload", n)
	s.k.Send(net.Frame(b))
	s.want = append(s.want, nil)
}

// CheckPayload: arbitrary payloads between good frames.
func CheckPayload() {
	s := begin()
	if z.Choice("before", 2) == 1 {
		s.good()
	}
	s.bad(z.Choice("bytes", z.Pick(4, 6)))
	s.end()
}

// CheckPayloads: broken and empty payloads and good ones in any order, in pieces or all at once.
func CheckPayloads() {
	s := begin()
	k := s.k
	for i := 0; i < z.Pick(3, 4); i++ {
		switch z.Choice("frame", 6) {
		case 0:
			s.good()
		case 1:
			s.bad(0)
		case 2:
			k.Send(net.Frame([]byte{0xff}))
			s.want = append(s.want, nil)
		case 3:
			k.Send(net.Frame([]byte{0x0a, 0x7f, 1}))
			s.want = append(s.want, nil)
		case 4: // looks like a length above the limit
			k.Send(net.Frame([]byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff}))
			s.want = append(s.want, nil)
		case 5: // in pieces
			k.Send([]byte{5, 0})
			net.Pause(net.Gap)
			k.Send([]byte{0, 0, 0xff, 0})
			net.Pause(net.Gap)
			k.Send([]byte{5, 0, 0})
			s.want = append(s.want, nil)
		}
	}
	s.end()
}

// CheckAgain: one fault after the other.
func CheckAgain() {
	s := begin()
	for i := 0; i < z.Pick(2, 3); i++ {
		switch z.Choice("fault", 5) {
		case 0:
			s.k.Send(header([]uint32{500000, 1<<32 - 1}[z.Choice("length", 2)]))
			s.dropped(0)
		case 1:
			s.k.Send([]byte{9, 0, 0, 0, 8})
			s.dropped(2 * sec)
		case 2:
			s.k.Send([]byte{9, 0})
			s.dropped(2 * sec)
		case 3:
			s.bad(1)
			s.good()
		case 4:
			s.k.Send([]byte{9, 0, 0, 0, 8})
			net.Pause(net.Gap)
			s.k.Close()
			s.dropped(0)
		}
	}
	s.end()
}

// CheckReply: any bytes in reply to the probe; nothing panics and the client comes back.
func CheckReply() {
	p := net.New()
	c := net.Start(p, nil, nil)
	k := p.Accept(sec + net.Slack())
	net.Must(k != nil, "no connection")
	z.MaxAlloc(700000)
	k.Wait(len(net.Ping), sec)
	k.Send(z.Bytes("reply", 1+z.Choice("bytes", z.Pick(6, 8))))
	z.Assert(c.Saw("connect", 1, 2*sec+net.Slack()), "no connect callback")
	k.Close()
	z.Assert(c.Saw("disconnect", 1, 2*sec+net.Slack()), "no disconnect callback")
	k = p.Accept(2*sec + net.Slack())
	net.Must(k != nil, "no new connection")
	k.Wait(len(net.Ping), sec)
	k.Send(net.Ack)
	z.Assert(c.Saw("connect", 2, sec+net.Slack()), "no second connect callback")
	z.Assert(c.Stop(4*sec), "does not end")
}
