package spec

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	z "github.com/SKAARHOJ/rawpanel-lib/zzverif/zzsym"
)

// OutboundWords are the plain words of the panel-to-system grammar.
var OutboundWords = []string{"ping", "ack", "nack", "BSY", "RDY", "list"}

// OutboundKeys are the keys of key=value lines.
var OutboundKeys = []string{
	"_model", "_serial", "_version", "_platform", "_name", // text
	"_bluePillReady", "_isSleeping", // 0 or 1
	"_sleepTimer", "_heartBeatTimer", "DimmedGain", "_serverModeMaxClients", "_bootsCount", "_totalUptimeMin", "_sessionUptimeMin", "_screenSaverOnMin", // numbers
	"_panelTopology_svgbase", "_panelTopology_HWC", "_burninProfile", "_calibrationProfile", "_defaultCalibrationProfile", "ErrorMsg", "Msg", // payloads
	"_serverModeLockToIP", "_connections", // ;-lists
	"_panelType", "_support", "_networkConfig", "EnvironmentalHealth", "SysStat", "map",
}

// SupportWords are the capabilities of the _support list, in effect order.
var SupportWords = []string{"ASCII", "Binary", "JSONFeedback", "JSONonInbound", "JSONonOutbound", "System", "RawADCValues",
	"BurninProfile", "EnvHealth", "Registers", "Calibration", "Processors", "NetworkSettings"}

// PanelTypes are the words of _panelType, by enumeration value minus one.
var PanelTypes = []string{"BPI", "Physical", "Emulation", "Touch", "Composite"}

// SysStatKeys: name and class of each statistic: i integer, 1/2 decimals, b flag.
var SysStatKeys = []struct {
	Name  string
	Class byte
}{
	{"CPUUsage", 'i'}, {"CPUTemp", '1'}, {"ExtTemp", '1'}, {"CPUVoltage", '2'}, {"CPUFreqCurrent", 'i'}, {"CPUFreqMin", 'i'},
	{"CPUFreqMax", 'i'}, {"MemTotal", 'i'}, {"MemFree", 'i'}, {"MemAvailable", 'i'}, {"MemBuffers", 'i'}, {"MemCached", 'i'},
	{"UnderVoltageNow", 'b'}, {"UnderVoltage", 'b'}, {"FreqCapNow", 'b'}, {"FreqCap", 'b'}, {"ThrottledNow", 'b'}, {"Throttled", 'b'},
	{"SoftTempLimitNow", 'b'}, {"SoftTempLimit", 'b'},
}

// OutboundKnown tells whether a line starts with a keyword of the grammar.
func OutboundKnown(line string) bool {
	if line == "" {
		return true
	}
	for _, w := range OutboundWords {
		if line == w {
			return true
		}
	}
	for _, k := range OutboundKeys {
		if strings.HasPrefix(line, k+"=") {
			return true
		}
	}
	for _, k := range []string{"HWC#", "Flag#", "Mem", "Shift", "State"} {
		if strings.HasPrefix(line, k) {
			return true
		}
	}
	return false
}

// DecodeOutbound is what the lines of a panel report. exact: decimal numbers are given as the bits
// of the nearest 32-bit number, otherwise as their text.
func DecodeOutbound(lines []string, exact bool) []Effect {
	var out []Effect
	for _, line := range lines {
		out = append(out, decodeOutboundLine(line, exact)...)
	}
	return out
}

func list(s string) []string {
	var r []string
	for _, x := range strings.Split(s, ";") {
		if x = strings.TrimSpace(x); x != "" {
			r = append(r, x)
		}
	}
	return r
}

func decodeOutboundLine(line string, exact bool) []Effect {
	if line == "" {
		return nil
	}
	for _, w := range OutboundWords {
		if line == w {
			return []Effect{{Kind: w}}
		}
	}
	eq := strings.Index(line, "=")
	if eq < 0 {
		return []Effect{bad(line)}
	}
	key, val := line[:eq], line[eq+1:]
	if strings.HasPrefix(key, "HWC#") {
		return eventLine(key[4:], val, line)
	}
	if strings.HasPrefix(key, "Flag#") {
		return register(1, key[5:], val, line)
	}
	number := func() []Effect {
		v, ok := num(val)
		if !ok {
			return []Effect{bad(line)}
		}
		return []Effect{{Kind: key, N: []int{v}}}
	}
	switch key {
	case "map":
		c := strings.Index(val, ":")
		if c < 0 {
			return []Effect{bad(line)}
		}
		k, ok1 := num(val[:c])
		v, ok2 := num(val[c+1:])
		if !ok1 || !ok2 {
			return []Effect{bad(line)}
		}
		return []Effect{{Kind: key, Id: k, N: []int{v}}}
	case "_model", "_serial", "_version", "_platform", "_name",
		"_panelTopology_svgbase", "_panelTopology_HWC", "_burninProfile", "_calibrationProfile", "_defaultCalibrationProfile", "ErrorMsg", "Msg":
		if val == "" {
			return nil
		}
		return []Effect{{Kind: key, S: []string{val}}}
	case "_bluePillReady":
		v, ok := num(val)
		if !ok {
			return []Effect{bad(line)}
		}
		if v == 0 {
			return nil
		}
		return []Effect{{Kind: key}}
	case "_isSleeping":
		v, ok := num(val)
		if !ok {
			return []Effect{bad(line)}
		}
		return []Effect{{Kind: key, N: []int{b2i(v != 0)}}}
	case "_sleepTimer", "_heartBeatTimer", "DimmedGain":
		return number()
	case "_serverModeMaxClients", "_bootsCount", "_totalUptimeMin", "_sessionUptimeMin", "_screenSaverOnMin":
		e := number()
		if len(e[0].N) == 1 && e[0].N[0] == 0 {
			return nil // zero is "not known"
		}
		return e
	case "_serverModeLockToIP", "_connections":
		return []Effect{{Kind: key, S: list(val)}}
	case "_panelType":
		for i, w := range PanelTypes {
			if val == w {
				return []Effect{{Kind: key, N: []int{i + 1}}}
			}
		}
		return []Effect{bad(line)}
	case "_support":
		n := make([]int, len(SupportWords))
		for _, p := range strings.Split(val, ",") {
			for i, w := range SupportWords {
				if p == w {
					n[i] = 1
				}
			}
		}
		return []Effect{{Kind: key, N: n}}
	case "_networkConfig":
		return netConfig(key, val, line)
	case "EnvironmentalHealth":
		return envEffect(key, val, line)
	case "SysStat":
		return sysStat(val, line, exact)
	}
	for i, p := range []string{"Mem", "", "Shift", "State"} {
		if p != "" && strings.HasPrefix(key, p) {
			return register(i, key[len(p):], val, line)
		}
	}
	return []Effect{bad(line)}
}

// event kinds: 0 button, 1 pulses, 2 absolute, 3 speed, 4 raw analog
func eventLine(target, val, line string) []Effect {
	edge := 0
	if d := strings.Index(target, "."); d >= 0 {
		var ok bool
		if edge, ok = num(target[d+1:]); !ok {
			return []Effect{bad(line)}
		}
		target = target[:d]
	}
	id, ok := num(target)
	if !ok {
		return []Effect{bad(line)}
	}
	button := func(pressed int) Effect { return Effect{Kind: "event", Id: id, N: []int{0, pressed, edge}} }
	switch val {
	case "Down":
		return []Effect{button(1)}
	case "Up":
		return []Effect{button(0)}
	case "Press":
		return []Effect{button(1), button(0)}
	}
	for i, p := range []string{"Enc:", "Abs:", "Speed:", "Raw:"} {
		if strings.HasPrefix(val, p) {
			v, ok := snum(val[len(p):])
			if !ok {
				return []Effect{bad(line)}
			}
			return []Effect{{Kind: "event", Id: id, N: []int{i + 1, v, 0}}}
		}
	}
	return []Effect{bad(line)}
}

func sysStat(val, line string, exact bool) []Effect {
	f := strings.Split(val, ":")
	e := Effect{Kind: "SysStat", N: make([]int, len(SysStatKeys)), S: make([]string, len(SysStatKeys))}
	for i := 0; i+1 < len(f); i += 2 {
		found := false
		for k, s := range SysStatKeys {
			if f[i] != s.Name {
				continue
			}
			found = true
			switch s.Class {
			case '1', '2':
				if exact {
					v, err := strconv.ParseFloat(f[i+1], 32)
					if err != nil {
						return []Effect{bad(line)}
					}
					e.N[k] = int(math.Float32bits(float32(v)))
				} else {
					e.S[k] = f[i+1]
				}
			case 'b':
				e.N[k] = b2i(f[i+1] == "1")
			default:
				v, ok := snum(f[i+1])
				if !ok {
					return []Effect{bad(line)}
				}
				e.N[k] = v
			}
		}
		if !found {
			return []Effect{bad(line)}
		}
	}
	return []Effect{e}
}

// OutboundEffects is what the messages report.
func OutboundEffects(msgs []*rwp.OutboundMessage, exact bool) []Effect {
	var out []Effect
	for _, m := range msgs {
		out = append(out, outboundEffects(m, exact)...)
	}
	return out
}

func outboundEffects(m *rwp.OutboundMessage, exact bool) []Effect {
	var out []Effect
	put := func(kind string, n ...int) { out = append(out, Effect{Kind: kind, N: n}) }
	text := func(kind, s string) {
		if s != "" {
			out = append(out, Effect{Kind: kind, S: []string{s}})
		}
	}
	pos := func(kind string, v uint32) {
		if v > 0 {
			put(kind, int(v))
		}
	}
	switch m.FlowMessage {
	case rwp.OutboundMessage_PING:
		put("ping")
	case rwp.OutboundMessage_ACK:
		put("ack")
	case rwp.OutboundMessage_NACK:
		put("nack")
	case rwp.OutboundMessage_BSY:
		put("BSY")
	case rwp.OutboundMessage_RDY:
		put("RDY")
	case rwp.OutboundMessage_HELLO:
		put("list")
	}
	if p := m.PanelInfo; p != nil {
		text("_model", p.Model)
		text("_serial", p.Serial)
		text("_version", p.SoftwareVersion)
		text("_name", p.Name)
		text("_platform", p.Platform)
		if p.BluePillReady {
			put("_bluePillReady")
		}
		pos("_serverModeMaxClients", p.MaxClients)
		if len(p.LockedToIPs) > 0 {
			out = append(out, Effect{Kind: "_serverModeLockToIP", S: p.LockedToIPs})
		}
		if p.PanelType >= rwp.PanelInfo_BLUEPILLINSIDE && p.PanelType <= rwp.PanelInfo_COMPOSITE {
			put("_panelType", int(p.PanelType))
		}
		if s := p.RawPanelSupport; s != nil {
			put("_support", b2i(s.ASCII), b2i(s.Binary), b2i(s.ASCII_JSONfeedback), b2i(s.ASCII_Inbound), b2i(s.ASCII_Outbound), b2i(s.System),
				b2i(s.RawADCValues), b2i(s.BurninProfile), b2i(s.EnvHealth), b2i(s.Registers), b2i(s.Calibration), b2i(s.Processors), b2i(s.NetworkSettings))
		}
	}
	if p := m.PanelTopology; p != nil {
		text("_panelTopology_svgbase", p.Svgbase)
		text("_panelTopology_HWC", p.Json)
	}
	if p := m.BurninProfile; p != nil {
		text("_burninProfile", p.Json)
	}
	if p := m.NetworkConfig; p != nil {
		out = append(out, netEffect("_networkConfig", p))
	}
	if p := m.CalibrationProfile; p != nil {
		text("_calibrationProfile", p.Json)
	}
	if p := m.DefaultCalibrationProfile; p != nil {
		text("_defaultCalibrationProfile", p.Json)
	}
	if p := m.SleepTimeout; p != nil {
		put("_sleepTimer", int(p.Value))
	}
	if p := m.SleepState; p != nil {
		put("_isSleeping", b2i(p.IsSleeping))
	}
	if p := m.HeartBeatTimer; p != nil {
		put("_heartBeatTimer", int(p.Value))
	}
	if p := m.DimmedGain; p != nil {
		put("DimmedGain", int(p.Value))
	}
	if p := m.Connections; p != nil {
		out = append(out, Effect{Kind: "_connections", S: p.Connection})
	}
	if p := m.RunTimeStats; p != nil {
		pos("_bootsCount", p.BootsCount)
		pos("_totalUptimeMin", p.TotalUptime)
		pos("_sessionUptimeMin", p.SessionUptime)
		pos("_screenSaverOnMin", p.ScreenSaveOnTime)
	}
	if p := m.ErrorMessage; p != nil {
		text("ErrorMsg", p.Message)
	}
	if p := m.Message; p != nil {
		text("Msg", p.Message)
	}
	for k, v := range m.HWCavailability {
		out = append(out, Effect{Kind: "map", Id: int(k), N: []int{int(v)}})
	}
	if p := m.EnvironmentalHealth; p != nil {
		out = append(out, envMode("EnvironmentalHealth", p))
	}
	if p := m.SysStat; p != nil {
		out = append(out, sysEffect(p, exact))
	}
	for _, e := range m.Events {
		ev := func(n ...int) { out = append(out, Effect{Kind: "event", Id: int(e.HWCID), N: n}) }
		if e.Binary != nil {
			ev(0, b2i(e.Binary.Pressed), int(e.Binary.Edge))
		}
		if e.Pulsed != nil {
			ev(1, int(e.Pulsed.Value), 0)
		}
		if e.Absolute != nil {
			ev(2, int(e.Absolute.Value), 0)
		}
		if e.Speed != nil {
			ev(3, int(e.Speed.Value), 0)
		}
		if e.RawAnalog != nil {
			ev(4, int(e.RawAnalog.Value), 0)
		}
	}
	for _, r := range m.Registers {
		out = append(out, registerEffect(r))
	}
	return out
}

func sysEffect(p *rwp.SystemStat, exact bool) Effect {
	n := []int{int(p.CPUUsage), 0, 0, 0, int(p.CPUFreqCurrent), int(p.CPUFreqMin), int(p.CPUFreqMax), int(p.MemTotal), int(p.MemFree),
		int(p.MemAvailable), int(p.MemBuffers), int(p.MemCached), b2i(p.UnderVoltageNow), b2i(p.UnderVoltage), b2i(p.FreqCapNow), b2i(p.FreqCap),
		b2i(p.ThrottledNow), b2i(p.Throttled), b2i(p.SoftTempLimitNow), b2i(p.SoftTempLimit)}
	s := make([]string, len(n))
	if exact {
		n[1], n[2], n[3] = int(math.Float32bits(p.CPUTemp)), int(math.Float32bits(p.ExtTemp)), int(math.Float32bits(p.CPUVoltage))
	} else {
		s[1], s[2], s[3] = fmt.Sprintf("%.1f", p.CPUTemp), fmt.Sprintf("%.1f", p.ExtTemp), fmt.Sprintf("%.2f", p.CPUVoltage)
	}
	return Effect{Kind: "SysStat", N: n, S: s}
}

// SameMaps asserts that the map entries among got are those of want, in any order.
func SameMaps(got, want []Effect, what string) {
	g, w := pick(got, "map"), pick(want, "map")
	z.Assert(len(g) == len(w), what+": number of map entries")
	for _, x := range w {
		n := 0
		for _, y := range g {
			if x.Id == y.Id && x.N[0] == y.N[0] {
				n++
			}
		}
		z.Assert(n == 1, what+": map entry")
	}
}

// SameOutbound compares kind by kind; map entries are unordered.
func SameOutbound(got, want []Effect, what string) {
	SameMaps(got, want, what)
	SameByKind(drop(got), drop(want), what)
}

func drop(l []Effect) []Effect {
	var r []Effect
	for _, e := range l {
		if e.Kind != "map" {
			r = append(r, e)
		}
	}
	return r
}
