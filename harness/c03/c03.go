// Package c03: what a panel's message reports is what the independent grammar reads in the lines the
// library writes for it.
package c03

import (
	"strconv"
	"strings"

	rp "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"github.com/SKAARHOJ/rawpanel-lib/zzverif/spec"
	cb "github.com/SKAARHOJ/rawpanel-lib/zzverif/zzcbind"
	z "github.com/SKAARHOJ/rawpanel-lib/zzverif/zzsym"
	"google.golang.org/protobuf/proto"
)

const Harness = "c03"

const maxU = 0xFFFFFFFF

func check(what string, ms ...*rwp.OutboundMessage) {
	lines := rp.OutboundMessagesToRawPanelASCIIstrings(ms)
	if what != "map" && what != "many" { // lines of a map come in any order
		z.Observe("lines", lines)
	}
	spec.SameOutbound(spec.DecodeOutbound(lines, false), spec.OutboundEffects(ms, false), what)
}

func u32(name string) uint32 { return z.Uint32(name, 0, maxU) }
func i32(name string) int32  { return z.Int32(name, -1<<31, 1<<31-1) }

// word is a text of 0..max printable characters without blanks at its ends.
func word(name string, max int) string {
	return text(name, z.Choice(name+".len", max+1))
}

func text(name string, n int) string {
	s := z.StringIn(name, n, 0x20, 0x7e)
	if n > 0 {
		z.Assume(s[0] != ' ' && s[n-1] != ' ')
	}
	return s
}

// item is one element of a ;-separated list.
func item(name string, n int) string {
	s := z.StringIn(name, n, 0x21, 0x7e)
	for i := 0; i < n; i++ {
		z.Assume(s[i] != ';')
	}
	return s
}

func CheckFlow() {
	check("flow", &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_FlowMsg(z.Int("flow", 0, 200))})
}

var edges = []rwp.BinaryEvent_EdgeID{0, 1, 2, 4, 8, 16}

func edge(name string) rwp.BinaryEvent_EdgeID { return edges[z.Choice(name, len(edges))] }

func event(t string, kind int) *rwp.HWCEvent {
	e := &rwp.HWCEvent{HWCID: u32("id" + t)}
	switch kind {
	case 0:
		e.Binary = &rwp.BinaryEvent{Pressed: z.Bool("pressed" + t), Edge: edge("edge" + t)}
	case 1:
		e.Pulsed = &rwp.PulsedEvent{Value: i32("v" + t)}
	case 2:
		e.Absolute = &rwp.AbsoluteEvent{Value: u32("v" + t)}
	case 3:
		e.Speed = &rwp.SpeedEvent{Value: i32("v" + t)}
	case 4:
		e.RawAnalog = &rwp.RawAnalogEvent{Value: u32("v" + t)}
	}
	return e
}

// CheckEdges: every edge value the protocol's enumeration has, by number.
func CheckEdges() {
	e := z.Int("edge", 0, 16)
	z.Assume(e == 0 || e == 1 || e == 2 || e == 4 || e == 8 || e == 16)
	check("edge", &rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: u32("id"), Binary: &rwp.BinaryEvent{Pressed: z.Bool("p"), Edge: rwp.BinaryEvent_EdgeID(e)}}}})
}

// CheckEvents: up to three (thorough four) events of any kind in one message, in order.
func CheckEvents() {
	n := z.Choice("n", z.Pick(3, 4)) + 1
	m := &rwp.OutboundMessage{}
	for i := 0; i < n; i++ {
		t := strconv.Itoa(i)
		m.Events = append(m.Events, event(t, z.Choice("kind"+t, 5)))
	}
	check("events", m)
}

// CheckEventAll: one event carrying several kinds at once.
func CheckEventAll() {
	mask := z.Choice("mask", 32)
	e := &rwp.HWCEvent{HWCID: u32("id")}
	for k := 0; k < 5; k++ {
		if mask>>k&1 == 0 {
			continue
		}
		x := event(strconv.Itoa(k), k)
		switch k {
		case 0:
			e.Binary = x.Binary
		case 1:
			e.Pulsed = x.Pulsed
		case 2:
			e.Absolute = x.Absolute
		case 3:
			e.Speed = x.Speed
		case 4:
			e.RawAnalog = x.RawAnalog
		}
	}
	check("combined event", &rwp.OutboundMessage{Events: []*rwp.HWCEvent{e}})
}

func CheckMap() {
	n := z.Choice("n", z.Pick(3, 4)) + 1
	z.MapOrder(n)
	m := map[uint32]uint32{}
	keys := make([]uint32, n)
	for i := range keys {
		keys[i] = u32("k" + strconv.Itoa(i))
		for j := 0; j < i; j++ {
			z.Assume(keys[i] != keys[j])
		}
		m[keys[i]] = u32("v" + strconv.Itoa(i))
	}
	check("map", &rwp.OutboundMessage{HWCavailability: m})
}

// CheckMapZero: a map saying 0 for a component is a report, too.
func CheckMapZero() {
	check("map", &rwp.OutboundMessage{HWCavailability: map[uint32]uint32{u32("k"): u32("v")}})
}

func CheckInfoTexts() {
	p := &rwp.PanelInfo{}
	n := z.Pick(5, 24)
	switch z.Choice("f", 5) {
	case 0:
		p.Model = word("s", n)
	case 1:
		p.Serial = word("s", n)
	case 2:
		p.SoftwareVersion = word("s", n)
	case 3:
		p.Name = word("s", n)
	case 4:
		p.Platform = word("s", n)
	}
	check("panel info", &rwp.OutboundMessage{PanelInfo: p})
}

func CheckInfoAll() {
	n := z.Pick(1, 3)
	p := &rwp.PanelInfo{Model: text("model", n), Serial: text("serial", n), SoftwareVersion: text("version", n), Name: text("name", n), Platform: text("platform", n),
		BluePillReady: z.Bool("bpr"), MaxClients: u32("clients"), PanelType: rwp.PanelInfo_PanelTypeE(z.Int("type", 0, 6))}
	if z.Choice("ip", 2) == 1 {
		p.LockedToIPs = []string{item("ip", n)}
	}
	if z.Choice("support", 2) == 1 {
		p.RawPanelSupport = &rwp.RawPanelSupport{ASCII: true, Processors: z.Bool("proc")}
	}
	check("panel info", &rwp.OutboundMessage{PanelInfo: p})
}

func CheckLockedTo() {
	var l []string
	for i, n := 0, z.Choice("n", z.Pick(4, 6)); i < n; i++ {
		l = append(l, item("ip"+strconv.Itoa(i), 1+z.Choice("len", z.Pick(2, 3))))
	}
	check("locked to", &rwp.OutboundMessage{PanelInfo: &rwp.PanelInfo{LockedToIPs: l}})
}

func support() *rwp.RawPanelSupport {
	b := func(i int) bool { return z.Bool("s" + strconv.Itoa(i)) }
	return &rwp.RawPanelSupport{ASCII: b(0), Binary: b(1), ASCII_JSONfeedback: b(2), ASCII_Inbound: b(3), ASCII_Outbound: b(4), System: b(5),
		RawADCValues: b(6), BurninProfile: b(7), EnvHealth: b(8), Registers: b(9), Calibration: b(10), Processors: b(11), NetworkSettings: b(12)}
}

// CheckSupport: every subset of the thirteen capabilities.
func CheckSupport() {
	check("support", &rwp.OutboundMessage{PanelInfo: &rwp.PanelInfo{RawPanelSupport: support()}})
}

func CheckTopology() {
	t := &rwp.PanelTopology{}
	n := z.Pick(6, 16)
	switch z.Choice("f", 3) {
	case 0:
		t.Svgbase = "<svg>" + word("svg", n) + "</svg>"
	case 1:
		t.Json = word("json", n)
	case 2:
		t.Svgbase, t.Json = "<svg "+text("svg", 3)+">", "{"+text("json", 3)+"}"
	}
	check("topology", &rwp.OutboundMessage{PanelTopology: t})
}

func CheckProfiles() {
	m := &rwp.OutboundMessage{}
	s := word("json", z.Pick(8, 24))
	switch z.Choice("f", 5) {
	case 0:
		m.BurninProfile = &rwp.BurninProfile{Json: s}
	case 1:
		m.CalibrationProfile = &rwp.CalibrationProfile{Json: s}
	case 2:
		m.DefaultCalibrationProfile = &rwp.CalibrationProfile{Json: s}
	case 3:
		m.ErrorMessage = &rwp.Message{Message: s}
	case 4:
		m.Message = &rwp.Message{Message: s}
	}
	check("payload", m)
}

func CheckTimers() {
	check("timers", &rwp.OutboundMessage{SleepTimeout: &rwp.SleepTimeout{Value: u32("sleep")}, SleepState: &rwp.SleepState{IsSleeping: z.Bool("sleeping")},
		HeartBeatTimer: &rwp.HeartBeatTimer{Value: u32("hb")}, DimmedGain: &rwp.DimmedGain{Value: u32("dim")}})
}

func CheckTimersOne() {
	m := &rwp.OutboundMessage{}
	switch z.Choice("f", 4) {
	case 0:
		m.SleepTimeout = &rwp.SleepTimeout{Value: u32("v")}
	case 1:
		m.SleepState = &rwp.SleepState{IsSleeping: z.Bool("v")}
	case 2:
		m.HeartBeatTimer = &rwp.HeartBeatTimer{Value: u32("v")}
	case 3:
		m.DimmedGain = &rwp.DimmedGain{Value: u32("v")}
	}
	check("timer", m)
}

func CheckConnections() {
	var l []string
	for i, n := 0, z.Choice("n", z.Pick(4, 6)); i < n; i++ {
		l = append(l, item("c"+strconv.Itoa(i), 1+z.Choice("len", z.Pick(2, 3))))
	}
	check("connections", &rwp.OutboundMessage{Connections: &rwp.Connections{Connection: l}})
}

func CheckRunTime() {
	check("run-time statistics", &rwp.OutboundMessage{RunTimeStats: &rwp.RunTimeStats{BootsCount: u32("boots"), TotalUptime: u32("total"),
		SessionUptime: u32("session"), ScreenSaveOnTime: u32("saver")}})
}

func CheckHealth() {
	check("health", &rwp.OutboundMessage{EnvironmentalHealth: &rwp.Environment{RunMode: rwp.Environment_RunModeE(z.Int("mode", 0, 2))}})
}

func str(name string) string { return z.StringIn(name, z.Choice(name+".len", 3), '.', '9') }

func CheckNetwork() {
	n := &rwp.NetworkConfig{}
	if z.Choice("all", 2) == 0 {
		n = &rwp.NetworkConfig{Dhcp: z.Bool("dhcp"), NoDefaultRoute: z.Bool("ndr"), Address: "10.0.0." + strconv.Itoa(z.Int("a", 0, 255)),
			Netmask: "255.255.255.0", Gateway: "10.0.0.1", FirstDns: "1.1.1.1", SecondDns: "8.8.4.4"}
	} else {
		s := str("s")
		switch z.Choice("f", 5) {
		case 0:
			n.Address = s
		case 1:
			n.Netmask = s
		case 2:
			n.Gateway = s
		case 3:
			n.FirstDns = s
		case 4:
			n.SecondDns = s
		}
	}
	check("network", &rwp.OutboundMessage{NetworkConfig: n})
}

func CheckSysStatNumbers() {
	s := &rwp.SystemStat{CPUUsage: u32("usage")}
	f := []*int32{&s.CPUFreqCurrent, &s.CPUFreqMin, &s.CPUFreqMax, &s.MemTotal, &s.MemFree, &s.MemAvailable, &s.MemBuffers, &s.MemCached}
	for i, p := range f {
		*p = i32("n" + strconv.Itoa(i))
	}
	check("system statistics", &rwp.OutboundMessage{SysStat: s})
}

func CheckSysStatFlags() {
	s := &rwp.SystemStat{}
	f := []*bool{&s.UnderVoltageNow, &s.UnderVoltage, &s.FreqCapNow, &s.FreqCap, &s.ThrottledNow, &s.Throttled, &s.SoftTempLimitNow, &s.SoftTempLimit}
	for i, p := range f {
		*p = z.Bool("b" + strconv.Itoa(i))
	}
	check("system statistics", &rwp.OutboundMessage{SysStat: s})
}

func CheckSysStatDecimals() {
	check("system statistics", &rwp.OutboundMessage{SysStat: &rwp.SystemStat{CPUTemp: z.Float32("cpu"), ExtTemp: z.Float32("ext"), CPUVoltage: z.Float32("volt")}})
}

func regId(name string, n int) string {
	s := z.StringIn(name, n, '0', 'Z')
	for i := 0; i < n; i++ {
		z.Assume(s[i] <= '9' || s[i] >= 'A')
	}
	return s
}

func register(t string) *rwp.Register {
	r := &rwp.Register{Reg: rwp.Register_RegisterE(z.Choice("reg"+t, 4)), Value: u32("val" + t)}
	if r.Reg == rwp.Register_FLAG {
		r.Id = strconv.Itoa(z.Int("flag"+t, 0, 1<<31-1))
		r.Value = z.Uint32("flagval"+t, 0, 1)
	} else {
		r.Id = regId("id"+t, z.Choice("idlen"+t, 4))
	}
	return r
}

func CheckRegisters() {
	m := &rwp.OutboundMessage{}
	for i, n := 0, z.Choice("n", z.Pick(2, 3))+1; i < n; i++ {
		m.Registers = append(m.Registers, register(strconv.Itoa(i)))
	}
	check("registers", m)
}

// ---- several things and several messages

var parts = []func(m *rwp.OutboundMessage, t string){
	func(m *rwp.OutboundMessage, t string) {
		m.FlowMessage = rwp.OutboundMessage_FlowMsg(z.Int("flow"+t, 1, 5))
	},
	func(m *rwp.OutboundMessage, t string) {
		m.PanelInfo = &rwp.PanelInfo{Model: text("model"+t, 2), MaxClients: u32("mc" + t)}
	},
	func(m *rwp.OutboundMessage, t string) {
		m.PanelTopology = &rwp.PanelTopology{Svgbase: "<svg/>", Json: "{}"}
	},
	func(m *rwp.OutboundMessage, t string) { m.BurninProfile = &rwp.BurninProfile{Json: text("burn"+t, 2)} },
	func(m *rwp.OutboundMessage, t string) { m.NetworkConfig = &rwp.NetworkConfig{Dhcp: z.Bool("dhcp" + t)} },
	func(m *rwp.OutboundMessage, t string) {
		m.CalibrationProfile = &rwp.CalibrationProfile{Json: text("cal"+t, 2)}
	},
	func(m *rwp.OutboundMessage, t string) {
		m.DefaultCalibrationProfile = &rwp.CalibrationProfile{Json: text("dcal"+t, 2)}
	},
	func(m *rwp.OutboundMessage, t string) { m.SleepTimeout = &rwp.SleepTimeout{Value: u32("sleep" + t)} },
	func(m *rwp.OutboundMessage, t string) { m.SleepState = &rwp.SleepState{IsSleeping: z.Bool("sl" + t)} },
	func(m *rwp.OutboundMessage, t string) { m.HeartBeatTimer = &rwp.HeartBeatTimer{Value: u32("hb" + t)} },
	func(m *rwp.OutboundMessage, t string) { m.DimmedGain = &rwp.DimmedGain{Value: u32("dim" + t)} },
	func(m *rwp.OutboundMessage, t string) {
		m.Connections = &rwp.Connections{Connection: []string{item("con"+t, 1), item("con2"+t, 1)}}
	},
	func(m *rwp.OutboundMessage, t string) {
		m.RunTimeStats = &rwp.RunTimeStats{BootsCount: u32("boots" + t), SessionUptime: u32("sess" + t)}
	},
	func(m *rwp.OutboundMessage, t string) { m.ErrorMessage = &rwp.Message{Message: text("err"+t, 2)} },
	func(m *rwp.OutboundMessage, t string) { m.Message = &rwp.Message{Message: text("msg"+t, 2)} },
	func(m *rwp.OutboundMessage, t string) {
		m.HWCavailability = map[uint32]uint32{u32("mk" + t): u32("mv" + t)}
	},
	func(m *rwp.OutboundMessage, t string) {
		m.EnvironmentalHealth = &rwp.Environment{RunMode: rwp.Environment_RunModeE(z.Int("env"+t, 0, 2))}
	},
	func(m *rwp.OutboundMessage, t string) {
		m.SysStat = &rwp.SystemStat{CPUUsage: u32("cpu" + t), MemFree: i32("mem" + t)}
	},
	func(m *rwp.OutboundMessage, t string) { m.Events = []*rwp.HWCEvent{event("x"+t, 0), event("y"+t, 1)} },
	func(m *rwp.OutboundMessage, t string) {
		m.Registers = []*rwp.Register{{Reg: rwp.Register_STATE, Id: "A1", Value: u32("reg" + t)}}
	},
}

// CheckPairs: any two parts together in one message.
func CheckPairs() {
	m := &rwp.OutboundMessage{}
	i := z.Choice("i", len(parts)-1)
	j := i + 1 + z.Choice("j", len(parts)-1-i)
	parts[i](m, "")
	parts[j](m, "")
	check("two parts", m)
}

// CheckAllParts: everything at once.
func CheckAllParts() {
	m := &rwp.OutboundMessage{}
	for _, p := range parts[:len(parts)-2] {
		p(m, "")
	}
	m.Events = []*rwp.HWCEvent{event("a", 1)}
	check("all parts", m)
}

// CheckOrder: the lines of successive messages come in message order.
func CheckOrder() {
	n := z.Pick(2, 3)
	var ms []*rwp.OutboundMessage
	for i := 0; i < n; i++ {
		m := &rwp.OutboundMessage{}
		k := z.Choice("p", len(parts))
		if n > 2 && i == 1 {
			k = len(parts) - 1 - z.Choice("q", 3)
		}
		parts[k](m, strconv.Itoa(i))
		ms = append(ms, m)
	}
	got := spec.DecodeOutbound(rp.OutboundMessagesToRawPanelASCIIstrings(ms), false)
	at := 0
	for _, m := range ms {
		w := spec.OutboundEffects([]*rwp.OutboundMessage{m}, false)
		z.Assert(at+len(w) <= len(got), "order: number of reports")
		if at+len(w) > len(got) {
			return
		}
		spec.SameOutbound(got[at:at+len(w)], w, "order")
		at += len(w)
	}
	z.Assert(at == len(got), "order: number of reports")
}

// ---- longer and wider

// long is a text of n characters, the inner ones any bytes but control characters.
func long(name string, n int) string {
	top := byte(0xff)
	if n > 40 {
		top = 0x7e
	}
	s := z.StringIn(name, n, 0x20, top)
	for i := 0; i < n; i++ {
		z.Assume(s[i] != 0x7f)
	}
	z.Assume(s[0] > ' ' && s[0] < 0x7f && s[n-1] > ' ' && s[n-1] < 0x7f)
	return s
}

// CheckLong: every text field of a message with 24 and more characters.
func CheckLong() {
	m := &rwp.OutboundMessage{}
	s := long("s", []int{17, 24, 32, 33, 64, 128, 256, 1000}[z.Choice("len", 8)])
	switch z.Choice("f", 12) {
	case 0:
		m.PanelInfo = &rwp.PanelInfo{Model: s}
	case 1:
		m.PanelInfo = &rwp.PanelInfo{Serial: s}
	case 2:
		m.PanelInfo = &rwp.PanelInfo{SoftwareVersion: s}
	case 3:
		m.PanelInfo = &rwp.PanelInfo{Name: s}
	case 4:
		m.PanelInfo = &rwp.PanelInfo{Platform: s}
	case 5:
		m.PanelTopology = &rwp.PanelTopology{Svgbase: "<svg>" + s + "</svg>", Json: "{}"}
	case 6:
		m.PanelTopology = &rwp.PanelTopology{Json: s}
	case 7:
		m.BurninProfile = &rwp.BurninProfile{Json: s}
	case 8:
		m.CalibrationProfile = &rwp.CalibrationProfile{Json: s}
	case 9:
		m.DefaultCalibrationProfile = &rwp.CalibrationProfile{Json: s}
	case 10:
		m.ErrorMessage = &rwp.Message{Message: s}
	case 11:
		m.Message = &rwp.Message{Message: s}
	}
	check("long text", m)
}

// CheckLists: lists of addresses of realistic length, and of twenty entries.
func CheckLists() {
	var l []string
	n := []int{1, 2, 20}[z.Choice("n", 3)]
	for i := 0; i < n; i++ {
		l = append(l, "192.168.10."+strconv.Itoa(i)+":9923")
	}
	at := z.Choice("at", n)
	l[at] = item("s", []int{1, 15, 40}[z.Choice("len", 3)])
	m := &rwp.OutboundMessage{Connections: &rwp.Connections{Connection: l}}
	if z.Choice("which", 2) == 1 {
		m = &rwp.OutboundMessage{PanelInfo: &rwp.PanelInfo{LockedToIPs: l}}
	}
	check("list", m)
}

// CheckMany: many events, registers and map entries in one message, and many messages in one call.
func CheckMany() {
	n := z.Pick(20, 60)
	a, b := &rwp.OutboundMessage{HWCavailability: map[uint32]uint32{}}, &rwp.OutboundMessage{}
	for i := 0; i < n; i++ {
		e := &rwp.HWCEvent{HWCID: uint32(i * 7)}
		switch i % 5 {
		case 0:
			e.Binary = &rwp.BinaryEvent{Pressed: i%2 == 0, Edge: edges[i%len(edges)]}
		case 1:
			e.Pulsed = &rwp.PulsedEvent{Value: int32(-i)}
		case 2:
			e.Absolute = &rwp.AbsoluteEvent{Value: uint32(i * 50)}
		case 3:
			e.Speed = &rwp.SpeedEvent{Value: int32(i*50 - 500)}
		case 4:
			e.RawAnalog = &rwp.RawAnalogEvent{Value: uint32(i * 300)}
		}
		b.Events = append(b.Events, e)
		b.Registers = append(b.Registers, &rwp.Register{Reg: rwp.Register_MEM, Id: "A" + strconv.Itoa(i), Value: uint32(i)})
		a.HWCavailability[uint32(i*3)] = uint32(i)
	}
	at := z.Choice("at", 3) * (n - 1) / 2
	b.Events[at] = event("", z.Choice("kind", 5))
	a.HWCavailability[z.Uint32("k", 0, maxU)] = u32("v")
	if z.Choice("msgs", 2) == 0 {
		check("many", b, a)
		return
	}
	var ms []*rwp.OutboundMessage
	for i := 0; i < n; i++ {
		ms = append(ms, &rwp.OutboundMessage{Events: b.Events[i : i+1], FlowMessage: rwp.OutboundMessage_FlowMsg(i % 6)})
	}
	check("many messages", ms...)
}

// CheckRegisterIds: longer register names, large flags.
func CheckRegisterIds() {
	k := z.Choice("k", 4)
	r := &rwp.Register{Reg: rwp.Register_RegisterE(k), Value: u32("v")}
	if r.Reg == rwp.Register_FLAG {
		r.Id = strconv.Itoa(z.Int("flag", 0, 1<<31-1))
		r.Value = z.Uint32("fv", 0, 1)
	} else {
		r.Id = regId("id", z.Pick(8, 16))
	}
	check("register", &rwp.OutboundMessage{Registers: []*rwp.Register{r}})
}

// ---- payloads over several lines

func blank(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

// svgNormal removes the white space that has no meaning in a drawing: around tags, and repetitions.
func svgNormal(s string) string {
	var o []byte
	for i := 0; i < len(s); i++ {
		if !blank(s[i]) {
			o = append(o, s[i])
			continue
		}
		for i+1 < len(s) && blank(s[i+1]) {
			i++
		}
		if len(o) == 0 || o[len(o)-1] == '>' || i+1 == len(s) || s[i+1] == '<' || s[i+1] == '>' || s[i+1] == '/' {
			continue
		}
		o = append(o, ' ')
	}
	return string(o)
}

// jsonNormal removes the white space outside of strings.
func jsonNormal(s string) string {
	var o []byte
	in := false
	for i := 0; i < len(s); i++ {
		if in {
			o = append(o, s[i])
			if s[i] == '\\' && i+1 < len(s) {
				i++
				o = append(o, s[i])
			} else if s[i] == '"' {
				in = false
			}
			continue
		}
		if !blank(s[i]) {
			o = append(o, s[i])
			in = s[i] == '"'
		}
	}
	return string(o)
}

// oneLine returns the value of the only line with the key.
func oneLine(m *rwp.OutboundMessage, key string) string {
	n, v := 0, ""
	for _, l := range rp.OutboundMessagesToRawPanelASCIIstrings([]*rwp.OutboundMessage{m}) {
		for i := 0; i < len(l); i++ {
			z.Assert(l[i] != '\n', "a line with a line feed")
		}
		if len(l) > len(key) && l[:len(key)+1] == key+"=" {
			n++
			v = l[len(key)+1:]
		}
	}
	z.Assert(n == 1, "number of lines for "+key)
	return v
}

// CheckSvgLines: a drawing over several lines means the same on one.
func CheckSvgLines() {
	n := z.Pick(2, 3)
	line := func(t string) string {
		s := z.StringIn(t, n, 0x20, 0x7e)
		for i := 0; i < n; i++ {
			z.Assume(s[i] == ' ' || s[i] == '>' || s[i] == 'L' || s[i] == '-' || s[i] == '1')
		}
		return s
	}
	svg := "<svg>\n  <path\n    d=\"M 0 0\n" + line("a") + "\n" + line("b") + "\n\n\t" + line("c") + "\"/>\r\n</svg>\n"
	v := oneLine(&rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Svgbase: svg, Json: "{}"}}, "_panelTopology_svgbase")
	z.Observe("svg", svg)
	z.Assert(svgNormal(v) == svgNormal(svg), "a drawing over several lines is changed")
}

// CheckJsonLines: the same for JSON payloads.
func CheckJsonLines() {
	n := z.Pick(3, 5)
	s := z.StringIn("s", n, 0x20, 0x7e)
	for i := 0; i < n; i++ {
		z.Assume(s[i] != '"' && s[i] != '\\')
	}
	j := "{\n  \"a\": 1,\n\t\"b b\": \"" + s + "\",\r\n  \"c\": [\n 1, 2,\n   -3\n],\n\n \"d\":\"x \"  \n}\n"
	m := &rwp.OutboundMessage{}
	key := ""
	switch z.Choice("f", 4) {
	case 0:
		m.PanelTopology, key = &rwp.PanelTopology{Json: j}, "_panelTopology_HWC"
	case 1:
		m.BurninProfile, key = &rwp.BurninProfile{Json: j}, "_burninProfile"
	case 2:
		m.CalibrationProfile, key = &rwp.CalibrationProfile{Json: j}, "_calibrationProfile"
	case 3:
		m.DefaultCalibrationProfile, key = &rwp.CalibrationProfile{Json: j}, "_defaultCalibrationProfile"
	}
	z.Observe("json", j)
	z.Assert(jsonNormal(oneLine(m, key)) == jsonNormal(j), "a JSON payload over several lines is changed")
}

// CheckBinding: what the C binding answers for a message given as bytes.
func CheckBinding() {
	if !cb.Available {
		return
	}
	m := &rwp.OutboundMessage{}
	i := z.Choice("i", len(parts)+1)
	if i < len(parts) {
		parts[i](m, "")
		if j := z.Choice("j", z.Pick(1, len(parts)-i)); j > 0 {
			parts[i+j](m, "j")
		}
	} else { // several lines, in order
		v := u32("v")
		z.Assume(v < 128)
		m.FlowMessage = rwp.OutboundMessage_PING
		m.SleepTimeout = &rwp.SleepTimeout{Value: v}
		m.Events = []*rwp.HWCEvent{{HWCID: 5, Binary: &rwp.BinaryEvent{Pressed: true, Edge: 4}}, {HWCID: v, Speed: &rwp.SpeedEvent{Value: -5}}, {HWCID: 5, Binary: &rwp.BinaryEvent{}}}
		m.Registers = []*rwp.Register{{Reg: rwp.Register_SHIFT, Value: v}}
		m.ErrorMessage = &rwp.Message{Message: "two words"}
	}
	b, err := proto.Marshal(m)
	z.Assert(err == nil, "binding: message cannot be written")
	s := cb.OutboundMessageToRawPanelASCIIstring(b).S
	var lines []string
	if s != "" {
		lines = strings.Split(s, "\n")
	}
	spec.SameOutbound(spec.DecodeOutbound(lines, false), spec.OutboundEffects([]*rwp.OutboundMessage{m}, false), "binding")
}
