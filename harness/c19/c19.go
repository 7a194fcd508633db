// Package c19: the high-level client dispatches each event once, stays live and tracks the state of the panel.
package c19

import (
	"bytes"
	"context"
	"image/color"
	"strings"
	"time"

	rp "github.com/SKAARHOJ/rawpanel-lib"
	"github.com/SKAARHOJ/rawpanel-lib/gorwp"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	net "github.com/SKAARHOJ/rawpanel-lib/zzverif/zznet"
	z "github.com/SKAARHOJ/rawpanel-lib/zzverif/zzsym"
	"google.golang.org/protobuf/proto"
)

const Harness = "c19"

const ms, sec = time.Millisecond, time.Second

// session is a scripted panel with a client.
type session struct {
	p      *net.Panel
	k      *net.Conn
	binary bool
	rp     *gorwp.RawPanel
	err    error
	ended  bool // Connect has returned
	took   time.Duration
	cancel func()
	calls  []call
	base   int // bytes written by the client up to the initial request
}

// call is the call of a handler.
type call struct {
	kind string
	id   uint32
	a, b int
	ev   *rwp.HWCEvent
}

// dial starts Connect and answers the probe.
func dial(binary bool) *session {
	s := start(binary)
	if binary {
		s.k.Send(net.Ack)
	} else {
		s.k.Send([]byte("RDY\n"))
	}
	return s
}

// start starts Connect and waits for the probe.
func start(binary bool) *session {
	s := &session{p: net.New(), binary: binary}
	ctx, cancel := context.WithCancel(context.Background())
	s.cancel = cancel
	go func() {
		t := z.Now()
		r, err := gorwp.Connect(s.p.Addr, ctx, cancel)
		net.With(func() { s.rp, s.err, s.ended, s.took = r, err, true, z.Now()-t })
	}()
	s.k = s.p.Accept(sec + net.Slack())
	net.Must(s.k != nil, "no connection")
	s.k.Wait(len(net.Ping), sec+net.Slack())
	return s
}

// done waits until Connect has returned.
func (s *session) done(d time.Duration) bool { return net.Until(d, func() bool { return s.ended }) }

// after is how long Connect waits for the panel.
const window = 2 * sec

const topo1 = `{"title":"T","HWc":[{"id":5,"x":1,"y":2,"txt":"","type":1}],"typeIndex":{"1":{"w":10,"h":10}}}`

// parts of the information a panel sends after connecting.
func parts() []*rwp.OutboundMessage {
	return []*rwp.OutboundMessage{
		{PanelInfo: &rwp.PanelInfo{Model: "M"}},
		{PanelInfo: &rwp.PanelInfo{Serial: "S"}},
		{PanelTopology: &rwp.PanelTopology{Json: topo1}},
		{PanelTopology: &rwp.PanelTopology{Svgbase: "<svg></svg>"}},
	}
}

var partLines = []string{"_model=M\n", "_serial=S\n", "_panelTopology_HWC=" + topo1 + "\n", "_panelTopology_svgbase=<svg></svg>\n"}

func wire(l ...*rwp.OutboundMessage) (b []byte) {
	for _, m := range l {
		p, err := proto.Marshal(m)
		z.Assert(err == nil, "marshal")
		b = append(b, net.Frame(p)...)
	}
	return
}

// part is the bytes of one part.
func (s *session) part(i int) []byte {
	if s.binary {
		return wire(parts()[i])
	}
	return []byte(partLines[i])
}

// asked waits for the request for the information.
func (s *session) asked() bool {
	return net.Until(sec+net.Slack(), func() bool {
		var info, topo bool
		for _, m := range s.heard(s.k.Got0()) {
			if m.Command != nil {
				info = info || m.Command.SendPanelInfo
				topo = topo || m.Command.SendPanelTopology
			}
		}
		return info && topo
	})
}

// heard decodes what the client has written after the probe, as far as it is complete.
func (s *session) heard(b []byte) (l []*rwp.InboundMessage) {
	if len(b) < len(net.Ping) {
		return
	}
	b = b[len(net.Ping):]
	if !s.binary {
		for {
			i := bytes.IndexByte(b, '\n')
			if i < 0 {
				return
			}
			if line := string(b[:i]); line != "" {
				l = append(l, rp.RawPanelASCIIstringsToInboundMessages([]string{line})...)
			}
			b = b[i+1:]
		}
	}
	for len(b) >= 4 {
		n := int(b[0]) | int(b[1])<<8 | int(b[2])<<16 | int(b[3])<<24
		if n > len(b)-4 {
			return
		}
		m := &rwp.InboundMessage{}
		if err := proto.Unmarshal(b[4:4+n], m); err != nil {
			z.Assert(false, "the client writes a broken frame")
		}
		l = append(l, m)
		b = b[4+n:]
	}
	return
}

// open is a connected session.
func open(binary bool) *session {
	s := dial(binary)
	z.Assert(s.asked(), "no request for the panel information")
	var b []byte
	for i := 0; i < 4; i++ {
		b = append(b, s.part(i)...)
	}
	s.k.Send(b)
	net.Must(s.done(sec+net.Slack()), "Connect does not return")
	net.Must(s.err == nil && s.rp != nil, "Connect fails")
	return s
}

// calls so far.
func (s *session) got() (l []call) {
	net.With(func() { l = append(l, s.calls...) })
	return
}

func (s *session) add(c call) { net.With(func() { s.calls = append(s.calls, c) }) }

func (s *session) called(n int, d time.Duration) bool {
	return net.Until(d, func() bool { return len(s.calls) >= n })
}

// bind registers handlers that record their calls.
func (s *session) bind(id uint32, kinds string) {
	for _, k := range kinds {
		switch k {
		case 'b':
			s.rp.BindBinary(id, func(h uint32, st gorwp.BinaryStatus, e gorwp.BinaryEdge) {
				s.add(call{kind: "b", id: h, a: int(st), b: int(e)})
			})
		case 'p':
			s.rp.BindPulsed(id, func(h uint32, v int) { s.add(call{kind: "p", id: h, a: v}) })
		case 'a':
			s.rp.BindAbsolute(id, func(h uint32, v int) { s.add(call{kind: "a", id: h, a: v}) })
		case 'i':
			s.rp.BindIntensity(id, func(h uint32, v int) { s.add(call{kind: "i", id: h, a: v}) })
		case 't':
			s.rp.BindTrigger(id, func(h uint32, e *rwp.HWCEvent) { s.add(call{kind: "t", id: h, ev: e}) })
		}
	}
}

// bound are the handlers of a component.
func bound(id uint32) string {
	switch id {
	case 5:
		return "tbpai"
	case 6:
		return "bp"
	case 300:
		return "ai"
	}
	return ""
}

// expect is what handlers of kinds get for an event.
func expect(e *rwp.HWCEvent, kinds string) (l []call) {
	for _, k := range kinds {
		switch k {
		case 't':
			l = append(l, call{kind: "t", id: e.HWCID, ev: e})
		case 'b':
			if e.Binary != nil {
				p := 0
				if e.Binary.Pressed {
					p = 1
				}
				l = append(l, call{kind: "b", id: e.HWCID, a: p, b: int(e.Binary.Edge)})
			}
		case 'p':
			if e.Pulsed != nil {
				l = append(l, call{kind: "p", id: e.HWCID, a: int(e.Pulsed.Value)})
			}
		case 'a':
			if e.Absolute != nil {
				l = append(l, call{kind: "a", id: e.HWCID, a: int(e.Absolute.Value)})
			}
		case 'i':
			if e.Speed != nil {
				l = append(l, call{kind: "i", id: e.HWCID, a: int(e.Speed.Value)})
			}
		}
	}
	return
}

func same(a, b call) bool {
	if a.kind != b.kind || a.id != b.id || a.a != b.a || a.b != b.b {
		return false
	}
	return a.kind != "t" || proto.Equal(a.ev, b.ev)
}

// check compares the calls with what the events (in order) have to cause; for one event, the order of its handlers is
// free.
func (s *session) check(want [][]call) {
	n := 0
	for _, w := range want {
		n += len(w)
	}
	s.called(n, net.Slack())
	net.Pause(50 * ms)
	got := s.got()
	z.Observe("calls", len(got))
	net.Must(len(got) >= n, "a handler was not called")
	net.Must(len(got) <= n, "a handler was called too often")
	for _, w := range want {
		for _, c := range w {
			found := 0
			for _, g := range got[:len(w)] {
				if g.kind == c.kind {
					z.Assert(same(g, c), "a handler got something else, or calls are out of order")
					found++
				}
			}
			z.Assert(found == 1, "calls are out of order")
		}
		got = got[len(w):]
	}
}

// end closes the session.
func (s *session) end() {
	s.rp.Close()
	net.Pause(10 * ms)
}

// event is an arbitrary event.
func event() *rwp.HWCEvent {
	e := &rwp.HWCEvent{HWCID: z.Uint32("id", 0, 1<<32-1)}
	switch z.Choice("kind", 7) {
	case 0:
		e.Binary = &rwp.BinaryEvent{Pressed: z.Bool("pressed"), Edge: rwp.BinaryEvent_EdgeID(z.Int("edge", 0, 16))}
	case 1:
		e.Pulsed = &rwp.PulsedEvent{Value: z.Int32("value", -1<<31, 1<<31-1)}
	case 2:
		e.Absolute = &rwp.AbsoluteEvent{Value: z.Uint32("value", 0, 1<<32-1)}
	case 3:
		e.Speed = &rwp.SpeedEvent{Value: z.Int32("value", -1<<31, 1<<31-1)}
	case 4:
		e.RawAnalog = &rwp.RawAnalogEvent{Value: z.Uint32("value", 0, 1<<32-1)}
	case 5:
		e.Binary = &rwp.BinaryEvent{}
		e.Pulsed = &rwp.PulsedEvent{Value: z.Int32("value", -2, 2)}
		e.Speed = &rwp.SpeedEvent{}
	case 6:
		e.Absolute = &rwp.AbsoluteEvent{}
	}
	return e
}

// sendCut sends b in up to n+1 segments cut anywhere.
func sendCut(k *net.Conn, b []byte, n int, gap func() time.Duration) {
	at := 0
	for i := 0; i < n && at < len(b); i++ {
		c := at + z.Choice("cut", len(b)-at)
		if c > at {
			k.Send(b[at:c])
			net.Pause(gap())
		}
		at = c
	}
	k.Send(b[at:])
}

func (s *session) bindAll() {
	for _, id := range []uint32{5, 6, 300} {
		s.bind(id, bound(id))
	}
}

// small is an event with few possibilities.
func small(id uint32, kind int) *rwp.HWCEvent {
	e := &rwp.HWCEvent{HWCID: id}
	switch kind {
	case 0:
		e.Binary = &rwp.BinaryEvent{Pressed: z.Bool("pressed"), Edge: 4}
	case 1:
		e.Pulsed = &rwp.PulsedEvent{Value: z.Int32("pulse", 1, 100)}
	case 2:
		e.Absolute = &rwp.AbsoluteEvent{Value: z.Uint32("abs", 0, 127)}
	case 3:
		e.Speed = &rwp.SpeedEvent{Value: z.Int32("speed", 0, 127)}
	}
	return e
}

// CheckEvents: arbitrary events, one or more in a message.
func CheckEvents() {
	s := open(true)
	s.bindAll()
	var want [][]call
	var l []*rwp.OutboundMessage
	n := z.Pick(2, 3)
	for i := 0; i < n; i++ {
		var e *rwp.HWCEvent
		if i == 0 || z.Thorough() && i == 1 {
			e = event()
		} else {
			e = small([]uint32{5, 6, 7, 300}[z.Choice("id", 4)], z.Choice("kind", 4))
		}
		want = append(want, expect(e, bound(e.HWCID)))
		if i == 1 && z.Choice("join", 2) == 1 {
			l[0].Events = append(l[0].Events, e)
		} else {
			l = append(l, &rwp.OutboundMessage{Events: []*rwp.HWCEvent{e}})
		}
	}
	s.k.Send(wire(l...))
	s.check(want)
	s.end()
}

// CheckCuts: frames cut anywhere.
func CheckCuts() {
	s := open(true)
	s.bindAll()
	a := z.Choice("a", z.Pick(2, 4))
	gap := []time.Duration{net.Gap, 900 * ms}[z.Choice("gap", 2)]
	e, f := small(5, a), small(6, (a+1)%4)
	m := &rwp.OutboundMessage{Events: []*rwp.HWCEvent{f, small(5, (a+2)%4)}}
	b := wire(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{e}}, m)
	sendCut(s.k, b, z.Pick(2, 3), func() time.Duration { return gap })
	s.check([][]call{expect(e, bound(5)), expect(f, bound(6)), expect(m.Events[1], bound(5))})
	s.end()
}

// line is an event as text.
func line() (string, []*rwp.HWCEvent) {
	id := []uint32{5, 6, 300, 7}[z.Choice("id", 4)]
	w := "HWC#" + []string{"5", "6", "300", "7"}[map[uint32]int{5: 0, 6: 1, 300: 2, 7: 3}[id]]
	v := z.Int("digit", 0, 9)
	d := string([]byte{'0' + byte(v)})
	ev := func(f func(*rwp.HWCEvent)) *rwp.HWCEvent {
		e := &rwp.HWCEvent{HWCID: id}
		f(e)
		return e
	}
	edge := 0
	sfx := ""
	if z.Choice("edged", 2) == 1 {
		edge, sfx = v, "."+d
	}
	bin := func(p bool) *rwp.HWCEvent {
		return ev(func(e *rwp.HWCEvent) {
			e.Binary = &rwp.BinaryEvent{Pressed: p, Edge: rwp.BinaryEvent_EdgeID(edge)}
		})
	}
	switch z.Choice("kind", 7) {
	case 0:
		return w + sfx + "=Down", []*rwp.HWCEvent{bin(true)}
	case 1:
		return w + sfx + "=Up", []*rwp.HWCEvent{bin(false)}
	case 2:
		return w + sfx + "=Press", []*rwp.HWCEvent{bin(true), bin(false)}
	case 3:
		return w + "=Enc:-" + d, []*rwp.HWCEvent{ev(func(e *rwp.HWCEvent) { e.Pulsed = &rwp.PulsedEvent{Value: int32(-v)} })}
	case 4:
		return w + "=Abs:3" + d, []*rwp.HWCEvent{ev(func(e *rwp.HWCEvent) { e.Absolute = &rwp.AbsoluteEvent{Value: uint32(30 + v)} })}
	case 5:
		return w + "=Speed:-1" + d, []*rwp.HWCEvent{ev(func(e *rwp.HWCEvent) { e.Speed = &rwp.SpeedEvent{Value: int32(-10 - v)} })}
	}
	return w + "=Raw:" + d, []*rwp.HWCEvent{ev(func(e *rwp.HWCEvent) { e.RawAnalog = &rwp.RawAnalogEvent{Value: uint32(v)} })}
}

// CheckLines: events as text, with other lines between, cut anywhere.
func CheckLines() {
	s := open(false)
	s.bindAll()
	var want [][]call
	text := ""
	end := []string{"\n", "\r\n"}[z.Choice("end", 2)]
	for i := 0; i < z.Pick(2, 2); i++ {
		l, ev := "", []*rwp.HWCEvent(nil)
		if i == 0 {
			l, ev = line()
		} else {
			l = []string{"HWC#5.2=Up", "HWC#6=Press"}[z.Choice("second", 2)]
			id := uint32(5)
			if strings.HasPrefix(l, "HWC#6") {
				id = 6
				ev = append(ev, &rwp.HWCEvent{HWCID: id, Binary: &rwp.BinaryEvent{Pressed: true}}, &rwp.HWCEvent{HWCID: id, Binary: &rwp.BinaryEvent{}})
			} else {
				ev = append(ev, &rwp.HWCEvent{HWCID: id, Binary: &rwp.BinaryEvent{Edge: 2}})
			}
		}
		text += l + end
		for _, e := range ev {
			want = append(want, expect(e, bound(e.HWCID)))
		}
	}
	sendCut(s.k, []byte(text), 1, func() time.Duration { return []time.Duration{net.Gap, 2300 * ms}[z.Choice("gap", 2)] })
	s.check(want)
	s.end()
}

// CheckConnect: Connect succeeds exactly if everything arrives in time.
func CheckConnect() {
	binary := z.Choice("binary", 2) == 1
	s := dial(binary)
	z.Assert(s.asked(), "no request for the panel information")
	order := [][]int{{0, 1, 2, 3}, {3, 2, 1, 0}, {2, 0, 3, 1}}[z.Choice("order", 3)]
	missing := z.Choice("missing", 5) // 4: nothing
	late := []time.Duration{0, 1500 * ms, 3 * sec}[z.Choice("late", 3)]
	whose := z.Choice("whose", 4)
	for i, x := range order {
		if i == whose && late > 0 {
			net.Pause(late)
		}
		if x != missing {
			s.k.Send(s.part(x))
		}
	}
	ok := missing == 4 && late < window
	if !ok && late == 0 {
		switch z.Choice("then", 4) {
		case 1:
			s.k.Close()
		case 2:
			s.k.Abort()
		case 3:
			s.cancel()
		}
	}
	net.Must(s.done(window+sec+net.Slack()), "Connect does not return")
	s.verdict(ok)
}

// CheckGreeting: the answer to the probe in pieces, and the information right behind it, without waiting for the request.
func CheckGreeting() {
	s := start(z.Choice("binary", 2) == 1)
	b := net.Ack
	if !s.binary {
		b = []byte([]string{"RDY\n", "RDY\r\n", "map=5:1\n", "RDY\nmap=5:1\n"}[z.Choice("text", 4)])
	} else if z.Choice("more", 2) == 1 {
		b = wire(&rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_ACK, PanelInfo: &rwp.PanelInfo{Name: "N"}})
	}
	n := len(b)
	b = append([]byte(nil), b...)
	for i := 0; i < 4; i++ {
		b = append(b, s.part(i)...)
	}
	one := z.Choice("one", z.Pick(14, 40))
	if one > 0 {
		s.k.Send(b[:one])
		net.Pause([]time.Duration{net.Gap, 900 * ms}[z.Choice("gap", 2)])
	}
	behind := z.Choice("behind", 3)
	switch behind {
	case 0: // everything at once
		s.k.Send(b[one:])
	case 1: // the information when asked
		z.Assume(one < n)
		s.k.Send(b[one:n])
		z.Assert(s.asked(), "no request for the panel information")
		s.k.Send(b[n:])
	case 2: // some of the information
		m := n + []int{1, 4, 5, 9}[z.Choice("some", 4)]
		z.Assume(one < m)
		s.k.Send(b[one:m])
		z.Assert(s.asked(), "no request for the panel information")
		s.k.Send(b[m:])
	}
	net.Must(s.done(window+sec+net.Slack()), "Connect does not return")
	s.verdict(true)
}

// verdict checks the result of Connect.
func (s *session) verdict(ok bool) {
	var r *gorwp.RawPanel
	var err error
	net.With(func() { r, err = s.rp, s.err })
	if !ok {
		z.Assert(err != nil, "Connect succeeds without all information")
		return
	}
	net.Must(err == nil && r != nil, "Connect fails although everything arrived")
	z.Assert(r.IsInitialized(), "not initialised")
	z.Assert(r.State.GetModel() == "M", "model")
	z.Assert(r.State.GetSerial() == "S", "serial")
	t := r.State.GetTopology()
	z.Assert(t != nil && t.Title == "T" && len(t.HWc) == 1 && t.HWc[0].Id == 5, "topology")
	s.end()
}

// CheckConnectAtOnce: all information, and the connection ends at once.
func CheckConnectAtOnce() {
	s := dial(z.Choice("binary", 2) == 1)
	z.Assert(s.asked(), "no request for the panel information")
	z.Sched(0, z.Pick(2, 3))
	var b []byte
	missing := z.Choice("missing", 5)
	for i := 0; i < 4; i++ {
		if i != missing {
			b = append(b, s.part(i)...)
		}
	}
	s.k.Send(b)
	net.Pause([]time.Duration{0, 5 * ms}[z.Choice("pause", 2)])
	s.k.Close()
	net.Must(s.done(window+sec+net.Slack()), "Connect does not return")
	s.verdict(missing == 4)
}

// CheckRefused: nobody is there, or the panel does not answer at all.
func CheckRefused() {
	p := net.New()
	p.Down()
	ctx, cancel := context.WithCancel(context.Background())
	r, err := gorwp.Connect(p.Addr, ctx, cancel)
	z.Assert(err != nil && r == nil, "Connect succeeds without a panel")
	cancel()
}

// state is the message that sets brightness or so.
func feedback(id uint32, n int) *rwp.HWCState {
	return &rwp.HWCState{HWCIDs: []uint32{id}, HWCText: &rwp.HWCText{IntegerValue: int32(n), Formatting: 0, Title: "n"}}
}

// texts are the values of the feedback the panel has heard.
func (s *session) texts() (l []int) {
	for _, m := range s.heard(s.k.Got0()) {
		for _, st := range m.States {
			if st.HWCText != nil {
				l = append(l, int(st.HWCText.IntegerValue))
			}
		}
	}
	return
}

// CheckBurst: many events, whose handlers each send feedback.
func CheckBurst() {
	s := open(z.Choice("binary", 2) == 1)
	n := []int{1, 9, 30, 200}[z.Choice("events", z.Pick(3, 4))]
	per := []int{1, 4, 25}[z.Choice("each", 3)]
	joined := z.Choice("joined", 2) == 1
	sent := 0
	way := z.Choice("way", 6)
	s.rp.BindPulsed(5, func(h uint32, v int) {
		s.add(call{kind: "p", id: h, a: v})
		for i := 0; i < per; i++ {
			sent++
			s.send(way, h, sent)
		}
	})
	var want [][]call
	var l []*rwp.OutboundMessage
	text := ""
	for i := 0; i < n; i++ {
		e := &rwp.HWCEvent{HWCID: 5, Pulsed: &rwp.PulsedEvent{Value: 1 + int32(i%2)}}
		want = append(want, expect(e, "p"))
		if joined && i > 0 {
			l[0].Events = append(l[0].Events, e)
		} else {
			l = append(l, &rwp.OutboundMessage{Events: []*rwp.HWCEvent{e}})
		}
		text += []string{"HWC#5=Enc:1\n", "HWC#5=Enc:2\n"}[i%2]
	}
	if s.binary {
		s.k.Send(wire(l...))
	} else {
		s.k.Send([]byte(text))
	}
	z.Assert(s.called(n, sec+net.Slack()), "dispatch stalls")
	s.check(want)
	z.Assert(net.Until(sec+net.Slack(), func() bool { return s.commands(way) >= n*per }), "feedback does not arrive")
	net.Pause(50 * ms)
	heard, texts := 0, []int(nil)
	net.With(func() { heard, texts = s.commands(way), s.texts() })
	z.Assert(heard == n*per, "feedback arrives more than once")
	if way == 0 {
		for i, v := range texts {
			z.Assert(v == i+1, "feedback is out of order")
		}
	}
	// still alive, over more than a ping period
	net.Pause(1500 * ms)
	e := &rwp.HWCEvent{HWCID: 5, Pulsed: &rwp.PulsedEvent{Value: 1}}
	if s.binary {
		s.k.Send(wire(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{e}}))
	} else {
		s.k.Send([]byte("HWC#5=Enc:1\n"))
	}
	s.check(append(want, expect(e, "p")))
	s.end()
}

// send sends feedback in one of the ways there are.
func (s *session) send(way int, h uint32, n int) {
	switch way {
	case 0:
		s.rp.SendRawState(feedback(h, n))
	case 1:
		s.rp.SetBrightness(n)
	case 2:
		s.rp.SetLEDColor(h, color.RGBA{R: 255, G: byte(n), A: 255}, rwp.HWCMode_ON)
	case 3:
		s.rp.SetLEDColorByIndex(h, rwp.ColorIndex_RED, rwp.HWCMode_ON)
	case 4:
		s.rp.SetRWPText(h, "a", "b", "c", true)
	case 5:
		s.rp.SetRWPTextByStruct(h, feedback(h, n).HWCText)
	}
}

// commands is how much of this feedback the panel has heard.
func (s *session) commands(way int) (n int) {
	for _, m := range s.heard(s.k.Got0()) {
		if m.Command != nil && m.Command.PanelBrightness != nil && way == 1 {
			n++
		}
		for _, st := range m.States {
			if way == 2 && st.HWCColor != nil && st.HWCColor.ColorRGB != nil || way == 3 && st.HWCColor != nil && st.HWCColor.ColorIndex != nil || (way == 0 || way >= 4) && st.HWCText != nil {
				n++
			}
		}
	}
	return
}

// CheckSlow: handlers that take their time.
func CheckSlow() {
	s := open(z.Choice("binary", 2) == 1)
	n := []int{3, 14, 25}[z.Choice("events", z.Pick(2, 3))]
	takes := []time.Duration{30 * ms, 250 * ms, 2500 * ms}[z.Choice("takes", 3)]
	z.Assume(time.Duration(n)*takes < 9*sec)
	s.rp.BindPulsed(5, func(h uint32, v int) {
		s.add(call{kind: "p", id: h, a: v})
		net.Pause(takes)
	})
	var want [][]call
	var b []byte
	for i := 0; i < n; i++ {
		e := &rwp.HWCEvent{HWCID: 5, Pulsed: &rwp.PulsedEvent{Value: 1 + int32(i%2)}}
		want = append(want, expect(e, "p"))
		if s.binary {
			b = append(b, wire(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{e}})...)
		} else {
			b = append(b, []string{"HWC#5=Enc:1\n", "HWC#5=Enc:2\n"}[i%2]...)
		}
	}
	h := z.Choice("cut", 3) * len(b) / 3
	s.k.Send(b[:h])
	net.Pause(net.Gap)
	s.k.Send(b[h:])
	z.Assert(s.called(n, time.Duration(n)*takes+sec+net.Slack()), "dispatch stalls")
	net.Pause(3 * sec)
	s.check(want)
	s.end()
}

// CheckPing: pings of the panel between events.
func CheckPing() {
	s := open(z.Choice("binary", 2) == 1)
	s.bindAll()
	pings := 0
	var want [][]call
	var b []byte
	for i := 0; i < z.Pick(3, 5); i++ {
		what := z.Choice("what", 6)
		pe := &rwp.HWCEvent{HWCID: 6, Pulsed: &rwp.PulsedEvent{Value: 1}}
		if !s.binary {
			t := []string{"ping\n", "HWC#6=Enc:1\n", "ack\n", "ping\r\n", "BSY\n", "RDY\n"}[what]
			if what == 0 || what == 3 {
				pings++
			}
			if what == 1 {
				want = append(want, expect(pe, "bp"))
			}
			b = append(b, t...)
		} else {
			m := &rwp.OutboundMessage{}
			switch what {
			case 0:
				m.FlowMessage = rwp.OutboundMessage_PING
				pings++
			case 1:
				m.Events = []*rwp.HWCEvent{pe}
				want = append(want, expect(pe, "bp"))
			case 2:
				m.FlowMessage = rwp.OutboundMessage_ACK
			case 3:
				m.FlowMessage = rwp.OutboundMessage_PING
				m.Events = []*rwp.HWCEvent{pe}
				pings++
				want = append(want, expect(pe, "bp"))
			case 4:
				m.FlowMessage = rwp.OutboundMessage_FlowMsg(z.Int("flow", 3, 100))
			case 5:
				m.FlowMessage = rwp.OutboundMessage_ACK
				m.Events = []*rwp.HWCEvent{pe}
				want = append(want, expect(pe, "bp"))
			}
			b = append(b, wire(m)...)
		}
		if z.Choice("cut", 2) == 1 {
			s.k.Send(b)
			b = nil
			net.Pause(net.Gap)
		}
	}
	s.k.Send(b)
	net.Until(net.Slack(), func() bool { return s.acks() >= pings })
	s.check(want)
	net.Pause([]time.Duration{0, 1500 * ms}[z.Choice("longer", 2)])
	n := 0
	net.With(func() { n = s.acks() })
	z.Observe("acks", n)
	z.Assert(n == pings, "not one acknowledge for each ping")
	s.end()
}

// acks is how many acknowledges were heard.
func (s *session) acks() (n int) {
	for _, m := range s.heard(s.k.Got0()) {
		if m.FlowMessage == rwp.InboundMessage_ACK {
			n++
		}
	}
	return
}

// CheckPingFlood: more pings than any queue holds.
func CheckPingFlood() {
	s := open(z.Choice("binary", 2) == 1)
	n := []int{11, 25, 80}[z.Choice("pings", z.Pick(2, 3))]
	var b []byte
	for i := 0; i < n; i++ {
		if s.binary {
			b = append(b, wire(&rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_PING})...)
		} else {
			b = append(b, "ping\n"...)
		}
	}
	s.k.Send(b)
	z.Assert(net.Until(sec+net.Slack(), func() bool { return s.acks() >= n }), "pings are not acknowledged")
	net.Pause(100 * ms)
	acks := 0
	net.With(func() { acks = s.acks() })
	z.Assert(acks == n, "not one acknowledge for each ping")
	s.end()
}

// CheckState: the getters give the latest information.
func CheckState() {
	s := open(z.Choice("binary", 2) == 1)
	model, serial, name, title := "M", "S", "", "T"
	s.bind(5, "p")
	var b []byte
	for i := 0; i < z.Pick(2, 3); i++ {
		v := z.StringIn("text", 2, 'A', 'z')
		z.Assume(v[0] != '\\' && v[1] != '\\')
		m := &rwp.OutboundMessage{}
		text := ""
		switch z.Choice("what", 7) {
		case 0:
			model = v
			m.PanelInfo = &rwp.PanelInfo{Model: v}
			text = "_model=" + v
		case 1:
			serial = v
			m.PanelInfo = &rwp.PanelInfo{Serial: v}
			text = "_serial=" + v
		case 2:
			name = v
			m.PanelInfo = &rwp.PanelInfo{Name: v}
			text = "_name=" + v
		case 3:
			title = "U" + string([]byte{'0' + byte(i)})
			j := `{"title":"` + title + `","HWc":[]}`
			m.PanelTopology = &rwp.PanelTopology{Json: j}
			text = "_panelTopology_HWC=" + j
		case 6:
			title = ""
			m.PanelTopology = &rwp.PanelTopology{Json: `{"HWc":[],"typeIndex":{"7":{"w":1}}}`}
			text = "_panelTopology_HWC=" + m.PanelTopology.Json
		case 4:
			m.PanelTopology = &rwp.PanelTopology{Svgbase: "<svg/>"}
			text = "_panelTopology_svgbase=<svg/>"
		case 5:
			model, serial, name = v, v+"x", v+"y"
			m.PanelInfo = &rwp.PanelInfo{Model: model, Serial: serial, Name: name}
			text = "_model=" + model + "\n_serial=" + serial + "\n_name=" + name
		}
		if s.binary {
			b = append(b, wire(m)...)
		} else {
			b = append(b, text+"\n"...)
		}
	}
	// the calls of the handler tell when everything before was processed
	e := &rwp.HWCEvent{HWCID: 5, Pulsed: &rwp.PulsedEvent{Value: 1}}
	if s.binary {
		b = append(b, wire(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{e}})...)
	} else {
		b = append(b, "HWC#5=Enc:1\n"...)
	}
	s.k.Send(b)
	s.check([][]call{expect(e, "p")})
	z.Assert(s.rp.State.GetModel() == model, "model")
	z.Assert(s.rp.State.GetSerial() == serial, "serial")
	z.Assert(s.rp.State.GetName() == name, "name")
	t := s.rp.State.GetTopology()
	z.Assert(t != nil && t.Title == title, "topology")
	if title != "T" {
		z.Assert(len(t.HWc) == 0, "components of an old topology")
		_, old := t.TypeIndex[1]
		_, now := t.TypeIndex[7]
		z.Assert(!old && now == (title == ""), "types of another topology")
	}
	z.Assert(s.rp.IsInitialized(), "not initialised any more")
	s.end()
}

// CheckBroken: after a frame that is too long, or that stops, nothing more is dispatched.
func CheckBroken() {
	s := open(true)
	s.bindAll()
	var want [][]call
	e := small(5, 1)
	var b []byte
	if z.Choice("before", 2) == 1 {
		b = append(b, wire(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{e}})...)
		want = append(want, expect(e, bound(5)))
	}
	good := wire(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: 6, Binary: &rwp.BinaryEvent{Pressed: true}}}}, &rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: 5, Pulsed: &rwp.PulsedEvent{Value: 3}}}})
	switch z.Choice("broken", 3) {
	case 0: // too long
		n := z.Uint32("length", 500000, 1<<32-1)
		b = append(b, byte(n), byte(n>>8), byte(n>>16), byte(n>>24))
		if z.Choice("joined", 2) == 0 {
			s.k.Send(b)
			net.Pause(net.Gap)
			b = nil
		}
		pad := z.Choice("pad", 5)
		b = append(b, make([]byte, pad)...)
		b = append(b, good...)
		s.k.Send(b)
	case 1: // stops
		n := z.Choice("at", len(good)/2)
		z.Assume(n >= 4)
		b = append(b, good[:n]...)
		s.k.Send(b)
		net.Pause(2*sec + sec/2 + net.Slack())
		s.k.Send(good[z.Choice("resume", 2)*n:])
	case 2: // stops a second time
		b = append(b, good...)
		want = append(want, []call{{kind: "b", id: 6, a: 1}}, expect(&rwp.HWCEvent{HWCID: 5, Pulsed: &rwp.PulsedEvent{Value: 3}}, bound(5)))
		b = append(b, 200, 0, 0, 0)
		s.k.Send(b)
		net.Pause(2*sec + sec/2 + net.Slack())
		for i := 0; i < 20; i++ {
			s.k.Send(good)
		}
	}
	net.Pause(2*sec + sec/2)
	s.check(want)
	z.Assert(s.k.Gone(sec+net.Slack()), "the connection stays open")
}

// CheckLast: events right before the connection ends, and what is left of an incomplete one.
func CheckLast() {
	s := open(z.Choice("binary", 2) == 1)
	s.bindAll()
	z.Sched(0, z.Pick(3, 4))
	n := []int{1, 3, 15}[z.Choice("events", z.Pick(2, 3))]
	var want [][]call
	var b []byte
	for i := 0; i < n; i++ {
		e := &rwp.HWCEvent{HWCID: 5, Pulsed: &rwp.PulsedEvent{Value: 1}}
		want = append(want, expect(e, bound(5)))
		if s.binary {
			b = append(b, wire(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{e}})...)
		} else {
			b = append(b, "HWC#5=Enc:1\n"...)
		}
	}
	if s.binary {
		more := wire(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: 5, Pulsed: &rwp.PulsedEvent{Value: 7}}}})
		b = append(b, more[:z.Choice("rest", len(more))]...)
	}
	s.k.Send(b)
	s.k.Close()
	s.check(want)
}

// CheckRegister: handlers registered while events are flowing, by other goroutines.
func CheckRegister() {
	z.Races()
	s := open(true)
	kind := "bpait"[z.Choice("kind", 5)]
	s.bind(5, "p")
	z.Sched(2, 1)
	n := z.Pick(2, 4)
	var l []*rwp.OutboundMessage
	var want [][]call
	for i := 0; i < n; i++ {
		e := &rwp.HWCEvent{HWCID: 5, Pulsed: &rwp.PulsedEvent{Value: 1}}
		l = append(l, &rwp.OutboundMessage{Events: []*rwp.HWCEvent{e, {HWCID: 9, Binary: &rwp.BinaryEvent{}}}})
		want = append(want, expect(e, "p"))
	}
	s.k.Send(wire(l...))
	for i, t := 0, z.Now(); i < 2 || !z.Symbolic() && z.Now() < t+60*ms; i++ { // natively for as long as events are flowing
		s.bind(uint32(20+i%100), string([]byte{kind}))
	}
	s.check(want)
	e := &rwp.HWCEvent{HWCID: 20, Binary: &rwp.BinaryEvent{}, Pulsed: &rwp.PulsedEvent{Value: 2}, Absolute: &rwp.AbsoluteEvent{Value: 3}, Speed: &rwp.SpeedEvent{Value: 4}}
	s.k.Send(wire(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{e}}))
	s.check(append(want, expect(e, string([]byte{kind}))))
	s.end()
}

// CheckRegisterInside: handlers registered or replaced by handlers.
func CheckRegisterInside() {
	z.Races()
	s := open(z.Choice("binary", 2) == 1)
	kind := "pt"[z.Choice("kind", 2)]
	id := []uint32{5, 6}[z.Choice("id", 2)]
	first := func() {
		s.add(call{kind: "first"})
		s.bind(id, string([]byte{kind}))
		s.rp.SendRawState(feedback(1, 1))
	}
	if kind == 'p' {
		s.rp.BindPulsed(5, func(h uint32, v int) { first() })
	} else {
		s.rp.BindTrigger(5, func(h uint32, e *rwp.HWCEvent) { first() })
	}
	var b []byte
	e := &rwp.HWCEvent{HWCID: id, Pulsed: &rwp.PulsedEvent{Value: 2}}
	if s.binary {
		b = wire(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: 5, Pulsed: &rwp.PulsedEvent{Value: 1}}, e}}, &rwp.OutboundMessage{Events: []*rwp.HWCEvent{e}})
	} else {
		t := "HWC#" + []string{"5", "6"}[id-5] + "=Enc:2\n"
		b = []byte("HWC#5=Enc:1\n" + t + t)
	}
	s.k.Send(b)
	k := string([]byte{kind})
	s.check([][]call{{{kind: "first"}}, expect(e, k), expect(e, k)})
	s.end()
}

// CheckGetters: getters used while the state changes.
func CheckGetters() {
	z.Races()
	s := open(true)
	z.Sched(z.Pick(2, 3), 1)
	var l []*rwp.OutboundMessage
	for i := 0; i < 3; i++ {
		l = append(l, &rwp.OutboundMessage{PanelInfo: &rwp.PanelInfo{Model: "N", Serial: "R", Name: "A"}, HWCavailability: map[uint32]uint32{1: 1}},
			&rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Json: `{"title":"V","HWc":[{"id":1}]}`, Svgbase: "<svg/>"}})
	}
	s.k.Send(wire(l...))
	for i, t := 0, z.Now(); i < 1 || !z.Symbolic() && z.Now() < t+60*ms; i++ {
		st := &s.rp.State
		m, r, a, t := st.GetModel(), st.GetSerial(), st.GetName(), st.GetTopology()
		z.Assert(m == "M" || m == "N", "model")
		z.Assert(r == "S" || r == "R", "serial")
		z.Assert(a == "" || a == "A", "name")
		z.Assert(t != nil && (t.Title == "T" || t.Title == "V") && len(t.HWc) == 1, "topology")
		z.Assert(s.rp.IsInitialized(), "not initialised any more")
	}
	net.Pause(50 * ms)
	s.end()
}

// CheckAvailability: what is kept of the map.
func CheckAvailability() {
	s := open(z.Choice("binary", 2) == 1)
	s.bind(5, "p")
	want := map[uint32]uint32{}
	var b []byte
	for i := 0; i < z.Pick(2, 3); i++ {
		m := map[uint32]uint32{}
		for n := z.Choice("ids", 2); n >= 0; n-- {
			id := uint32(1 + z.Choice("id", 3))
			m[id] = z.Uint32("available", 0, 9)
			want[id] = m[id]
			if !s.binary {
				b = append(b, "map="...)
				b = append(b, '0'+byte(id), ':', '0'+byte(m[id]), '\n')
			}
		}
		if s.binary {
			b = append(b, wire(&rwp.OutboundMessage{HWCavailability: m})...)
		}
	}
	e := &rwp.HWCEvent{HWCID: 5, Pulsed: &rwp.PulsedEvent{Value: 1}}
	if s.binary {
		b = append(b, wire(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{e}})...)
	} else {
		b = append(b, "HWC#5=Enc:1\n"...)
	}
	s.k.Send(b)
	s.check([][]call{expect(e, "p")})
	if got := z.MapField(&s.rp.State); got != nil {
		for k, v := range want {
			g, ok := got[k]
			z.Assert(ok && g == v, "availability is not what the panel said last")
		}
		z.Assert(len(got) == len(want), "availability of components the panel did not mention")
	}
	s.end()
}

// CheckStateInHandler: what handlers see of the state is at least what came before their event.
func CheckStateInHandler() {
	s := open(z.Choice("binary", 2) == 1)
	var seen []string
	s.rp.BindPulsed(5, func(h uint32, v int) {
		x := s.rp.State.GetModel() + s.rp.State.GetSerial() + s.rp.State.GetTopology().Title
		net.With(func() { seen = append(seen, x) })
		s.add(call{kind: "p", id: h, a: v})
	})
	join := z.Choice("join", 2) == 1
	var want [][]call
	var b []byte
	n := 3
	for i := 0; i < n; i++ {
		d := string([]byte{'0' + byte(i)})
		e := &rwp.HWCEvent{HWCID: 5, Pulsed: &rwp.PulsedEvent{Value: 1}}
		want = append(want, expect(e, "p"))
		if s.binary {
			m := &rwp.OutboundMessage{PanelInfo: &rwp.PanelInfo{Model: d, Serial: d}, PanelTopology: &rwp.PanelTopology{Json: `{"title":"` + d + `"}`}}
			ev := &rwp.OutboundMessage{Events: []*rwp.HWCEvent{e}}
			if join {
				m.Events = ev.Events
				b = append(b, wire(m)...)
			} else {
				b = append(b, wire(m, ev)...)
			}
		} else {
			b = append(b, "_model="+d+"\n_serial="+d+"\n_panelTopology_HWC={\"title\":\""+d+"\"}\nHWC#5=Enc:1\n"...)
		}
	}
	s.k.Send(b)
	s.check(want)
	net.With(func() {
		for i, x := range seen {
			z.Assert(len(x) == 3 && x[0] >= '0'+byte(i) && x[0] <= '0'+byte(n-1) && x[1] >= '0'+byte(i) && x[2] >= '0'+byte(i), "a handler sees old information")
		}
	})
	s.end()
}

// CheckIdle: pauses longer than any timeout, before and after frames.
func CheckIdle() {
	s := open(z.Choice("binary", 2) == 1)
	s.bindAll()
	var want [][]call
	for i := 0; i < 2; i++ {
		net.Pause([]time.Duration{0, 2300 * ms, 4500 * ms}[z.Choice("idle", 3)])
		e := &rwp.HWCEvent{HWCID: 5, Pulsed: &rwp.PulsedEvent{Value: 1}}
		want = append(want, expect(e, bound(5)))
		if s.binary {
			s.k.Send(wire(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{e}}))
		} else {
			s.k.Send([]byte("HWC#5=Enc:1\n"))
		}
	}
	s.check(want)
	z.Assert(!s.k.Gone(0), "the connection is closed")
	s.end()
}
