package spec

import (
	"encoding/base64"
	"encoding/json"
	"strings"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	z "github.com/SKAARHOJ/rawpanel-lib/zzverif/zzsym"
)

// plain words of the inbound grammar
var inboundWords = map[string]string{
	"ping": "ping", "ack": "ack", "nack": "nack",
	"ActivePanel=1": "ActivatePanel", "list": "SendPanelInfo", "map": "ReportHWCavailability",
	"PanelTopology?": "SendPanelTopology", "BurninProfile?": "SendBurninProfile",
	"CalibrationProfile?": "SendCalibrationProfile", "NetworkConfig?": "SendNetworkConfig",
	"Registers?": "SendRegisters", "Connections?": "GetConnections", "RunTimeStats?": "GetRunTimeStats",
	"Clear": "ClearAll", "ClearLEDs": "ClearLEDs", "ClearDisplays": "ClearDisplays",
	"SleepTimer?": "GetSleepTimeout", "WakeUp!": "WakeUp", "Reboot": "Reboot",
}

// InboundWords lists the plain words and the effect each has.
var InboundWords = []string{
	"ping", "ack", "nack", "ActivePanel=1", "list", "map", "PanelTopology?", "BurninProfile?",
	"CalibrationProfile?", "NetworkConfig?", "Registers?", "Connections?", "RunTimeStats?", "Clear",
	"ClearLEDs", "ClearDisplays", "SleepTimer?", "WakeUp!", "Reboot",
}

// InboundNumbers lists the keys taking one unsigned number.
var InboundNumbers = []string{
	"HeartBeatTimer", "DimmedGain", "PublishSystemStat", "LoadCPU", "SleepTimer", "SleepMode",
	"SleepScreenSaver", "Webserver", "JSONonOutbound", "PanelBrightness",
}

type gfxIntake struct {
	active     bool
	ids, kind  string
	next, last int
	n          []int
	data       []byte
}

func idList(s string) ([]int, bool) {
	var r []int
	for _, p := range strings.Split(s, ",") {
		v, ok := num(p)
		if !ok {
			return nil, false
		}
		r = append(r, v)
	}
	return r, len(r) > 0
}

// DecodeInbound is what a panel does when it receives the lines.
func DecodeInbound(lines []string) []Effect {
	var out []Effect
	g := &gfxIntake{}
	for _, line := range lines {
		out = append(out, decodeInboundLine(line, g)...)
	}
	return out
}

func decodeInboundLine(line string, g *gfxIntake) []Effect {
	if line == "" {
		return nil
	}
	if w, ok := inboundWords[line]; ok {
		return []Effect{{Kind: w}}
	}
	if line[0] == '{' {
		return jsonState(line)
	}
	eq := strings.Index(line, "=")
	if eq < 0 {
		return []Effect{bad(line)}
	}
	key, val := line[:eq], line[eq+1:]
	if h := strings.Index(key, "#"); h >= 0 {
		kw, idstr := key[:h], key[h+1:]
		if kw == "Flag" {
			return register(0+1, idstr, val, line)
		}
		ids, ok := idList(idstr)
		if !ok {
			return []Effect{bad(line)}
		}
		return decodeHWC(kw, idstr, ids, val, line, g)
	}
	switch key {
	case "HeartBeatTimer", "DimmedGain", "PublishSystemStat", "LoadCPU", "SleepTimer", "SleepMode", "SleepScreenSaver":
		v, ok := num(val)
		if !ok {
			return []Effect{bad(line)}
		}
		return []Effect{{Kind: key, N: []int{v}}}
	case "Webserver", "JSONonOutbound":
		v, ok := num(val)
		if !ok {
			return []Effect{bad(line)}
		}
		return []Effect{{Kind: key, N: []int{b2i(v > 0)}}}
	case "PanelBrightness":
		a := strings.Split(val, ",")
		if len(a) > 2 {
			return []Effect{bad(line)}
		}
		leds, ok := num(a[0])
		oleds := leds
		if len(a) == 2 {
			var ok2 bool
			oleds, ok2 = num(a[1])
			ok = ok && ok2
		}
		if !ok {
			return []Effect{bad(line)}
		}
		return []Effect{{Kind: key, N: []int{leds, oleds}}}
	case "SetCalibrationProfile":
		return []Effect{{Kind: key, S: []string{val}}}
	case "SimulateEnvironmentalHealth":
		return envEffect(key, val, line)
	case "SetNetworkConfig":
		return netConfig(key, val, line)
	}
	for i, p := range []string{"Mem", "", "Shift", "State"} {
		if p != "" && strings.HasPrefix(key, p) {
			return register(i, key[len(p):], val, line)
		}
	}
	return []Effect{bad(line)}
}

func envEffect(kind, val, line string) []Effect {
	switch val {
	case "Normal":
		return []Effect{{Kind: kind, N: []int{0}}}
	case "Safemode":
		return []Effect{{Kind: kind, N: []int{1}}}
	case "Blocked":
		return []Effect{{Kind: kind, N: []int{2}}}
	}
	return []Effect{bad(line)}
}

func envMode(kind string, e *rwp.Environment) Effect {
	switch e.RunMode {
	case rwp.Environment_NORMAL:
		return Effect{Kind: kind, N: []int{0}}
	case rwp.Environment_SAFEMODE:
		return Effect{Kind: kind, N: []int{1}}
	}
	return Effect{Kind: kind, N: []int{2}}
}

type netJSON struct {
	Dhcp           bool   `json:"dhcp"`
	Address        string `json:"address"`
	Netmask        string `json:"netmask"`
	Gateway        string `json:"gateway"`
	FirstDns       string `json:"first_dns"`
	SecondDns      string `json:"second_dns"`
	NoDefaultRoute bool   `json:"no_default_route"`
}

func netConfig(kind, val, line string) []Effect {
	c := netJSON{}
	if json.Unmarshal([]byte(val), &c) != nil {
		return []Effect{bad(line)}
	}
	return []Effect{{Kind: kind, N: []int{b2i(c.Dhcp), b2i(c.NoDefaultRoute)},
		S: []string{c.Address, c.Netmask, c.Gateway, c.FirstDns, c.SecondDns}}}
}

func netEffect(kind string, c *rwp.NetworkConfig) Effect {
	return Effect{Kind: kind, N: []int{b2i(c.Dhcp), b2i(c.NoDefaultRoute)},
		S: []string{c.Address, c.Netmask, c.Gateway, c.FirstDns, c.SecondDns}}
}

// register kinds: 0 memory, 1 flag, 2 shift, 3 state
func register(kind int, id, val, line string) []Effect {
	v, ok := num(val)
	if !ok {
		return []Effect{bad(line)}
	}
	for i := 0; kind != 1 && i < len(id); i++ {
		c := id[i]
		if !(c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			return []Effect{bad(line)}
		}
	}
	if kind == 1 { // flags are numbered and on or off
		n, ok := num(id)
		if !ok {
			return []Effect{bad(line)}
		}
		return []Effect{{Kind: "register", Id: n, N: []int{kind, b2i(v > 0)}, S: []string{""}}}
	}
	return []Effect{{Kind: "register", N: []int{kind, v}, S: []string{id}}}
}

func registerEffect(r *rwp.Register) Effect {
	switch r.Reg {
	case rwp.Register_MEM:
		return Effect{Kind: "register", N: []int{0, int(r.Value)}, S: []string{r.Id}}
	case rwp.Register_FLAG:
		n, _ := num(r.Id)
		return Effect{Kind: "register", Id: n, N: []int{1, b2i(r.Value > 0)}, S: []string{""}}
	case rwp.Register_SHIFT:
		return Effect{Kind: "register", N: []int{2, int(r.Value)}, S: []string{r.Id}}
	case rwp.Register_STATE:
		return Effect{Kind: "register", N: []int{3, int(r.Value)}, S: []string{r.Id}}
	}
	return Effect{Kind: "register?"}
}

func decodeHWC(kw, idstr string, ids []int, val, line string, g *gfxIntake) []Effect {
	var out []Effect
	each := func(e Effect) {
		for _, id := range ids {
			e.Id = id
			out = append(out, e)
		}
	}
	switch kw {
	case "HWC":
		v, ok := num(val)
		if !ok {
			return []Effect{bad(line)}
		}
		// bits 0-3 state, bit 5 output, bits 8-11 blink pattern
		each(Effect{Kind: "mode", N: []int{v & 15, v >> 5 & 1, v >> 8 & 15}})
	case "HWCx":
		v, ok := num(val)
		if !ok {
			return []Effect{bad(line)}
		}
		each(Effect{Kind: "ext", N: []int{v >> 12 & 15, v & 4095}})
	case "HWCc":
		v, ok := num(val)
		if !ok {
			return []Effect{bad(line)}
		}
		if v>>6&1 == 1 {
			each(Effect{Kind: "color.rgb", N: []int{v >> 4 & 3, v >> 2 & 3, v & 3}})
		} else {
			each(Effect{Kind: "color.index", N: []int{v & 31}})
		}
	case "HWCrawADCValues":
		v, ok := num(val)
		if !ok {
			return []Effect{bad(line)}
		}
		each(Effect{Kind: "adc", N: []int{b2i(v == 1)}})
	case "HWCt":
		e, ok := textLine(val)
		if !ok {
			return []Effect{bad(line)}
		}
		each(e)
	case "HWCg", "HWCgRGB", "HWCgGray":
		typ := 0
		if kw == "HWCgRGB" {
			typ = 1
		} else if kw == "HWCgGray" {
			typ = 2
		}
		c := strings.Index(val, ":")
		if c < 0 {
			return []Effect{bad(line)}
		}
		head := val[:c]
		data, err := base64.StdEncoding.DecodeString(val[c+1:])
		if err != nil {
			return []Effect{bad(line)}
		}
		return gfxLine(typ, kw, idstr, ids, head, data, line, g)
	default:
		return []Effect{bad(line)}
	}
	return out
}

func gfxLine(typ int, kw, idstr string, ids []int, head string, data []byte, line string, g *gfxIntake) []Effect {
	idxs, rest := head, ""
	if s := strings.Index(head, "/"); s >= 0 {
		idxs, rest = head[:s], head[s+1:]
	}
	idx, ok := num(idxs)
	if !ok {
		return []Effect{bad(line)}
	}
	if idx == 0 {
		*g = gfxIntake{active: true, ids: idstr, kind: kw, next: 0, last: 2, n: []int{typ, 64, 32, 0, 0, 0}}
		if rest != "" {
			f := strings.Split(rest, ",")
			if len(f) != 2 && len(f) != 4 {
				return []Effect{bad(line)}
			}
			max, ok1 := num(f[0])
			wh := strings.Split(f[1], "x")
			if !ok1 || len(wh) != 2 {
				return []Effect{bad(line)}
			}
			w, ok2 := num(wh[0])
			h, ok3 := num(wh[1])
			if !ok2 || !ok3 {
				return []Effect{bad(line)}
			}
			g.last = max
			g.n = []int{typ, w, h, 0, 0, 0}
			if len(f) == 4 {
				x, ok4 := num(f[2])
				y, ok5 := num(f[3])
				if !ok4 || !ok5 {
					return []Effect{bad(line)}
				}
				g.n = []int{typ, w, h, 1, x, y}
			}
		}
	}
	if !g.active || g.ids != idstr || g.kind != kw || g.next != idx {
		g.active = false
		return nil
	}
	g.data = append(g.data, data...)
	g.next++
	if idx < g.last {
		return nil
	}
	g.active = false
	var out []Effect
	for _, id := range ids {
		out = append(out, Effect{Kind: "gfx", Id: id, N: g.n, S: []string{string(g.data)}})
	}
	return out
}

// text is the canonical meaning of a text state.
type text struct {
	fmt, value, fontSize                        int
	stateIcon, modIcon                          int
	title, t1, t2                               string
	solid                                       bool
	value2                                      int
	pair                                        int
	scale, low, high, limLow, limHigh           int
	face, width, height, tFace, tWidth, tHeight int
	fixed                                       bool
	padding, spacing                            int
	inverted                                    bool
	pixel, back                                 int
	hasSecond                                   bool
}

func (t *text) effect() Effect {
	if t.fmt == 7 { // no value shown
		t.value = 0
	}
	if t.fmt == 10 || t.fmt == 11 { // text only: no value, no title bar, no pair
		t.value = 0
		t.solid = false
		t.pair = 0
	} else {
		t.fontSize = 0
		if t.pair == 0 && t.hasSecond {
			t.pair = 1
		}
	}
	if t.title == "" {
		t.solid = false
	}
	if t.scale == 0 {
		t.low, t.high, t.limLow, t.limHigh = 0, 0, 0, 0
	}
	return Effect{Kind: "text", N: []int{t.fmt, t.value, t.fontSize, t.stateIcon, t.modIcon, b2i(t.solid), t.value2, t.pair,
		t.scale, t.low, t.high, t.limLow, t.limHigh, t.face, t.width, t.height, t.tFace, t.tWidth, t.tHeight,
		b2i(t.fixed), t.padding, t.spacing, b2i(t.inverted), t.pixel, t.back}, S: []string{t.title, t.t1, t.t2}}
}

// colour codes of text lines: 0 default, 1-31 index, 0x40|rrggbb
func colorCode(v int) int {
	if v>>6&1 == 1 {
		return v & 0x7f
	}
	return v & 31
}

func textLine(val string) (Effect, bool) {
	f := strings.Split(val, "|")
	ok := true
	str := func(i int) string {
		if i < len(f) {
			return f[i]
		}
		return ""
	}
	n := func(i int) int {
		s := str(i)
		if s == "" {
			return 0
		}
		v, o := snum(s)
		if !o {
			ok = false
		}
		return v
	}
	t := &text{}
	t.fmt = n(1)
	if str(0) == "" && t.fmt == 0 {
		t.fmt = 7
	}
	t.value = n(0)
	t.fontSize = t.value
	if (t.fmt == 10 || t.fmt == 11) && t.value < 0 {
		ok = false
	}
	icons := n(2)
	t.stateIcon, t.modIcon = icons&3, icons>>3&7
	t.title = str(3)
	t.solid = n(4) == 0
	t.t1, t.t2 = str(5), str(6)
	t.value2 = n(7)
	t.hasSecond = str(6) != "" || str(7) != ""
	t.pair = n(8)
	t.scale, t.low, t.high, t.limLow, t.limHigh = n(9), n(10), n(11), n(12), n(13)
	faces, sizes, adv := n(15), n(16), n(17)
	t.face, t.tFace, t.fixed = faces&7, faces>>3&7, faces>>6&1 == 1
	t.width, t.height, t.tWidth, t.tHeight = sizes&3, sizes>>2&3, sizes>>4&3, sizes>>6&3
	t.padding, t.spacing = adv&3, adv>>2&7
	t.inverted = n(18) > 0
	t.pixel, t.back = colorCode(n(19)), colorCode(n(20))
	return t.effect(), ok
}

// quant maps an 8-bit channel to 2 bits.
func quant(v uint32, exact bool) int {
	if exact {
		z.Assert(v%85 == 0 && v <= 255, "colour channel not the expansion of a 2-bit value")
	}
	return int(v) * 3 / 255
}

func msgColor(c *rwp.Color, exact bool) int {
	if c == nil {
		return 0
	}
	if c.ColorRGB != nil {
		return 0x40 | quant(c.ColorRGB.Red, exact)<<4 | quant(c.ColorRGB.Green, exact)<<2 | quant(c.ColorRGB.Blue, exact)
	}
	if c.ColorIndex != nil {
		return int(c.ColorIndex.Index)
	}
	return 0
}

func textState(m *rwp.HWCText, exact bool) Effect {
	t := &text{fmt: int(m.Formatting), value: int(m.IntegerValue), stateIcon: int(m.StateIcon), modIcon: int(m.ModifierIcon),
		title: m.Title, t1: m.Textline1, t2: m.Textline2, solid: m.SolidHeaderBar, value2: int(m.IntegerValue2), pair: int(m.PairMode),
		inverted: m.Inverted, pixel: msgColor(m.PixelColor, exact), back: msgColor(m.BackgroundColor, exact),
		hasSecond: m.Textline2 != "" || m.IntegerValue2 != 0}
	if s := m.Scale; s != nil {
		t.scale, t.low, t.high, t.limLow, t.limHigh = int(s.ScaleType), int(s.RangeLow), int(s.RangeHigh), int(s.LimitLow), int(s.LimitHigh)
	}
	if s := m.TextStyling; s != nil {
		if f := s.TextFont; f != nil {
			t.face, t.width, t.height = int(f.FontFace), int(f.TextWidth), int(f.TextHeight)
		}
		if f := s.TitleFont; f != nil {
			t.tFace, t.tWidth, t.tHeight = int(f.FontFace), int(f.TextWidth), int(f.TextHeight)
		}
		t.fixed, t.padding, t.spacing, t.fontSize = s.FixedWidth, int(s.TitleBarPadding), int(s.ExtraCharacterSpacing), int(s.UnformattedFontSize)
	}
	if exact { // What is decoded says itself what is shown: no value where none is shown, no bar without a title, a pair where there are two
		fmt, value, font, solid, pair := t.fmt, t.value, t.fontSize, t.solid, t.pair
		e := t.effect()
		z.Assert(fmt != 7 && fmt != 10 && fmt != 11 || value == 0, "a decoded text has a value that is not shown")
		z.Assert(t.fontSize == font, "a decoded text has a font size without being unformatted")
		z.Assert(!solid || t.solid, "a decoded text has a solid bar but no title bar")
		z.Assert(t.pair == pair, "a decoded text says something else about its pair than its labels and format")
		return e
	}
	return t.effect()
}

// InboundEffects is what the messages ask a panel to do.
// exact: colours must be exact expansions of their 2-bit form (decoded messages).
func InboundEffects(msgs []*rwp.InboundMessage, exact bool) []Effect {
	var out []Effect
	for _, m := range msgs {
		out = append(out, inboundEffects(m, exact)...)
	}
	return out
}

func inboundEffects(m *rwp.InboundMessage, exact bool) []Effect {
	var out []Effect
	put := func(c bool, kind string, n ...int) {
		if c {
			out = append(out, Effect{Kind: kind, N: n})
		}
	}
	put(m.FlowMessage == rwp.InboundMessage_PING, "ping")
	put(m.FlowMessage == rwp.InboundMessage_ACK, "ack")
	put(m.FlowMessage == rwp.InboundMessage_NACK, "nack")
	if c := m.Command; c != nil {
		put(c.ActivatePanel, "ActivatePanel")
		put(c.SendPanelInfo, "SendPanelInfo")
		put(c.ReportHWCavailability, "ReportHWCavailability")
		put(c.SendPanelTopology, "SendPanelTopology")
		put(c.SendBurninProfile, "SendBurninProfile")
		put(c.SendCalibrationProfile, "SendCalibrationProfile")
		put(c.SendNetworkConfig, "SendNetworkConfig")
		put(c.SendRegisters, "SendRegisters")
		put(c.GetConnections, "GetConnections")
		put(c.GetRunTimeStats, "GetRunTimeStats")
		put(c.ClearAll, "ClearAll")
		put(c.ClearLEDs, "ClearLEDs")
		put(c.ClearDisplays, "ClearDisplays")
		put(c.GetSleepTimeout, "GetSleepTimeout")
		put(c.WakeUp, "WakeUp")
		put(c.Reboot, "Reboot")
		if v := c.PanelBrightness; v != nil {
			put(true, "PanelBrightness", int(v.LEDs), int(v.OLEDs))
		}
		if v := c.SetCalibrationProfile; v != nil {
			out = append(out, Effect{Kind: "SetCalibrationProfile", S: []string{v.Json}})
		}
		if v := c.SetNetworkConfig; v != nil {
			out = append(out, netEffect("SetNetworkConfig", v))
		}
		if v := c.SimulateEnvironmentalHealth; v != nil {
			out = append(out, envMode("SimulateEnvironmentalHealth", v))
		}
		if v := c.SetSleepTimeout; v != nil {
			put(true, "SleepTimer", int(v.Value))
		}
		if v := c.SetSleepMode; v != nil {
			put(true, "SleepMode", int(v.Mode))
		}
		if v := c.SetSleepScreenSaver; v != nil {
			put(true, "SleepScreenSaver", int(v.Type))
		}
		if v := c.SetDimmedGain; v != nil {
			put(true, "DimmedGain", int(v.Value))
		}
		if v := c.SetHeartBeatTimer; v != nil {
			put(true, "HeartBeatTimer", int(v.Value))
		}
		if v := c.PublishSystemStat; v != nil {
			put(true, "PublishSystemStat", int(v.PeriodSec))
		}
		if v := c.LoadCPU; v != nil {
			put(true, "LoadCPU", int(v.Level))
		}
		if v := c.SetWebserverEnabled; v != nil {
			put(true, "Webserver", b2i(v.Enabled))
		}
		if v := c.JSONconfig; v != nil {
			put(true, "JSONonOutbound", b2i(v.Outbound))
		}
	}
	for _, s := range m.States {
		for _, id := range s.HWCIDs {
			out = append(out, stateEffects(s, int(id), exact)...)
		}
	}
	for _, r := range m.Registers {
		out = append(out, registerEffect(r))
	}
	return out
}

func stateEffects(s *rwp.HWCState, id int, exact bool) []Effect {
	var out []Effect
	put := func(kind string, n ...int) { out = append(out, Effect{Kind: kind, Id: id, N: n}) }
	if v := s.HWCMode; v != nil {
		put("mode", int(v.State), b2i(v.Output), int(v.BlinkPattern))
	}
	if v := s.HWCColor; v != nil {
		if v.ColorRGB != nil {
			put("color.rgb", quant(v.ColorRGB.Red, exact), quant(v.ColorRGB.Green, exact), quant(v.ColorRGB.Blue, exact))
		} else if v.ColorIndex != nil {
			put("color.index", int(v.ColorIndex.Index))
		}
	}
	if v := s.HWCExtended; v != nil {
		put("ext", int(v.Interpretation), int(v.Value))
	}
	if v := s.HWCText; v != nil {
		e := textState(v, exact)
		e.Id = id
		out = append(out, e)
	}
	if v := s.HWCGfx; v != nil {
		x, y := int(v.X), int(v.Y)
		if !v.XYoffset {
			x, y = 0, 0
		}
		out = append(out, Effect{Kind: "gfx", Id: id, N: []int{int(v.ImageType), int(v.W), int(v.H), b2i(v.XYoffset), x, y}, S: []string{string(v.ImageData)}})
	}
	if v := s.PublishRawADCValues; v != nil {
		put("adc", b2i(v.Enabled))
	}
	if v := s.Processors; v != nil {
		out = append(out, procEffects(v, id)...)
	}
	return out
}

func procEffects(p *rwp.Processors, id int) []Effect {
	var out []Effect
	if t := p.Test; t != nil {
		out = append(out, Effect{Kind: "proc.test", Id: id, N: []int{int(t.W), int(t.H)}})
	}
	if t := p.TextToGraphics; t != nil {
		out = append(out, Effect{Kind: "proc.t2g", Id: id, N: []int{int(t.W), int(t.H), int(t.Border), int(t.Shrink)}})
	}
	if t := p.UniText; t != nil {
		out = append(out, Effect{Kind: "proc.unitext", Id: id, N: []int{int(t.W), int(t.H), b2i(t.SolidHeaderBar)}, S: []string{t.Title, t.Textline1, t.Textline2}})
	}
	if t := p.StrengthMeter; t != nil {
		out = append(out, Effect{Kind: "proc.strength", Id: id, N: []int{int(t.W), int(t.H), b2i(t.RMYAxis), int(t.Data1)}, S: []string{t.Title, t.ValueString, t.RangeMapping}})
	}
	if t := p.AudioMeter; t != nil {
		out = append(out, Effect{Kind: "proc.audio", Id: id, N: []int{int(t.MeterType), int(t.W), int(t.H), b2i(t.Mono), b2i(t.RMYAxis), int(t.Data1), int(t.Data2), int(t.Peak1), int(t.Peak2)}, S: []string{t.Title, t.RangeMapping}})
	}
	if t := p.GfxConv; t != nil {
		out = append(out, Effect{Kind: "proc.gfxconv", Id: id, N: []int{int(t.ImageType), int(t.W), int(t.H), int(t.Scaling)}, S: []string{string(t.ImageData), t.Filters}})
	}
	return out
}

// jsonState reads a state given as JSON.
func jsonState(line string) []Effect {
	s := &rwp.HWCState{}
	if json.Unmarshal([]byte(line), s) != nil {
		return []Effect{bad(line)}
	}
	var out []Effect
	for _, id := range s.HWCIDs {
		out = append(out, stateEffects(s, int(id), false)...)
	}
	return out
}

// InboundKeywords are the keywords that take arguments, up to and including their delimiter.
var InboundKeywords = []string{
	"HWC#", "HWCx#", "HWCc#", "HWCt#", "HWCrawADCValues#", "HWCg#", "HWCgRGB#", "HWCgGray#", "Flag#",
	"HeartBeatTimer=", "DimmedGain=", "PublishSystemStat=", "LoadCPU=", "SleepTimer=", "SleepMode=",
	"SleepScreenSaver=", "Webserver=", "JSONonOutbound=", "PanelBrightness=", "SetCalibrationProfile=",
	"SimulateEnvironmentalHealth=", "SetNetworkConfig=",
}

// InboundRegisterWords start a register line; the register's name follows directly.
var InboundRegisterWords = []string{"Mem", "Shift", "State"}

// InboundKnown tells whether a line starts with a keyword of the grammar.
func InboundKnown(line string) bool {
	if line == "" || line[0] == '{' || line[0] == '[' {
		return true
	}
	for _, w := range InboundWords {
		if line == w {
			return true
		}
	}
	for _, k := range InboundKeywords {
		if strings.HasPrefix(line, k) {
			return true
		}
	}
	for _, k := range InboundRegisterWords {
		if strings.HasPrefix(line, k) {
			return true
		}
	}
	return false
}
