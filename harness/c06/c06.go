// Package c06: the converters and the streaming reader accept anything and share no state.
package c06

import (
	rp "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	z "github.com/SKAARHOJ/rawpanel-lib/zzverif/zzsym"
	"google.golang.org/protobuf/proto"
)

const Harness = "c06"

const maxU = 0xFFFFFFFF

func inOK(ms []*rwp.InboundMessage) {
	for _, m := range ms {
		z.Assert(m != nil, "nil message")
	}
}

// lines feeds the same lines to both decoders and the reader; none of them may touch shared memory.
func lines(ls ...string) {
	z.Pure(func() {
		in := rp.RawPanelASCIIstringsToInboundMessages(ls)
		inOK(in)
		out := rp.RawPanelASCIIstringsToOutboundMessages(ls)
		for _, m := range out {
			z.Assert(m != nil, "nil message")
		}
		r := &rp.ASCIIreader{}
		n := 0
		for _, l := range ls {
			ms := r.Parse(l)
			inOK(ms)
			n += len(ms)
		}
		z.Observe("in", len(in))
		z.Observe("out", len(out))
		z.Observe("reader", n)
	})
}

// CheckAny: one line of arbitrary bytes.
func CheckAny() {
	lines(z.String("line", z.Choice("len", z.Pick(6, 8))))
}

// CheckAnyTwo: two lines of arbitrary bytes.
func CheckAnyTwo() {
	lines(z.String("a", z.Choice("la", z.Pick(3, 5))), z.String("b", z.Choice("lb", z.Pick(3, 5))))
}

var keywords = []string{
	"HWC#", "HWCx#", "HWCc#", "HWCt#", "HWCrawADCValues#", "HWCg#", "HWCgRGB#", "HWCgGray#", "PanelBrightness", "HeartBeatTimer", "DimmedGain",
	"PublishSystemStat", "LoadCPU", "SleepTimer", "SleepMode", "SleepScreenSaver", "Webserver", "JSONonOutbound", "SetCalibrationProfile",
	"SimulateEnvironmentalHealth", "SetNetworkConfig", "Flag#", "Mem", "Shift", "State", "map", "_model", "_serial", "_version", "_platform",
	"_bluePillReady", "_name", "_panelType", "_support", "_isSleeping", "_sleepTimer", "_panelTopology_svgbase", "_panelTopology_HWC",
	"_burninProfile", "_networkConfig", "_calibrationProfile", "_defaultCalibrationProfile", "_serverModeLockToIP", "_serverModeMaxClients",
	"_heartBeatTimer", "_connections", "_bootsCount", "_totalUptimeMin", "_sessionUptimeMin", "_screenSaverOnMin", "ErrorMsg", "Msg",
	"EnvironmentalHealth", "SysStat", "ping", "ActivePanel=", "SleepTimer?", "WakeUp!",
}

// CheckKeyword: every keyword of both grammars followed by arbitrary bytes.
func CheckKeyword() {
	k := z.Choice("keyword", len(keywords))
	lines(keywords[k] + z.String("rest", z.Choice("len", z.Pick(4, 6))))
}

// CheckValue: every keyword with a value of arbitrary bytes.
func CheckValue() {
	k := z.Choice("keyword", len(keywords))
	eq := "="
	if k < 8 || keywords[k] == "HWC#" {
		eq = "1="
	}
	lines(keywords[k] + eq + z.String("value", z.Choice("len", z.Pick(4, 6))))
}

// CheckList: component lists of arbitrary bytes and of arbitrary digits and commas.
func CheckList() {
	k := z.Choice("keyword", 8)
	n := z.Pick(4, 6)
	var s string
	if z.Choice("bytes", 2) == 1 {
		s = z.String("ids", z.Choice("len", n))
	} else {
		for i, c := 0, z.Choice("len", n+2); i < c; i++ {
			b := z.Byte("id", ',', '9')
			z.Assume(b == ',' || b >= '0')
			s += string([]byte{b})
		}
	}
	switch {
	case k < 5:
		lines(keywords[k] + s + "=12")
	default:
		lines(keywords[k] + s + "=0/0,8x8:AAAA")
	}
}

// number is any number of up to four digits or one around the limits of the machine's number types.
func number() string {
	n := z.Choice("number", len(limits)+2)
	if n < len(limits) {
		return limits[n]
	}
	return z.StringIn("digits", 1+3*(n-len(limits)), '0', '9')
}

var limits = []string{"2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551616", "99999999999999999999999999999999999999999", "00000000000000000000000000001"}

// CheckNumber: numbers of any length up to well beyond 64 bits.
func CheckNumber() {
	k := z.Choice("keyword", len(keywords))
	eq := "="
	if k < 8 {
		eq = "1="
	}
	s := number()
	if z.Choice("sign", 2) == 1 {
		s = "-" + s
	}
	switch z.Choice("form", 4) {
	case 0:
		lines(keywords[k] + eq + s)
	case 1:
		lines(keywords[k] + s + "=" + "7")
	case 2:
		lines(keywords[k] + eq + s + ",3")
	case 3:
		lines(keywords[k] + eq + "3:" + s)
	}
}

// CheckEvent: panel events with arbitrary bytes around their parts.
func CheckEvent() {
	kind := []string{"Down", "Up", "Press", "Enc", "Abs", "Speed", "Raw", "Foo", ""}[z.Choice("kind", 9)]
	a, b := z.String("a", z.Choice("la", z.Pick(3, 4))), z.String("b", z.Choice("lb", z.Pick(3, 5)))
	lines("HWC#3" + a + "=" + kind + b)
}

// CheckText: text lines with arbitrary bytes in one field, alone or between other fields.
func CheckText() {
	f := z.Choice("field", 24)
	v := z.String("v", z.Choice("len", z.Pick(4, 5)))
	s := "HWCt#1="
	for i := 0; i < f; i++ {
		s += "|"
	}
	lines(s+v, s+v+"|1|2|3|4")
}

// CheckTextNumbers: text lines whose numeric fields hold any number.
func CheckTextNumbers() {
	f := z.Choice("field", 21)
	s := "HWCt#1="
	for i := 0; i < 21; i++ {
		if i == f {
			if z.Choice("neg", 2) == 1 {
				s += "-"
			}
			s += number()
		}
		s += "|"
	}
	lines(s)
}

func data(t string) string {
	switch z.Choice("data"+t, 4) {
	case 0:
		return ""
	case 1:
		return "AAAA"
	case 2:
		return "A=A"
	}
	return z.String("payload"+t, 2)
}

// CheckGraphics: two graphics lines, each with any index, header and payload, after each other.
func CheckGraphics() {
	line := func(t string) string {
		s := keywords[5+z.Choice("kind"+t, 2)] + []string{"1", "2", ",", ""}[z.Choice("ids"+t, 4)] + "="
		s += z.StringIn("index"+t, z.Choice("index.len"+t, z.Pick(1, 2))+1, '0', '9')
		switch z.Choice("header"+t, 4) {
		case 1:
			s += "/" + z.StringIn("max"+t, 1, '0', '9') + ",8x8"
		case 2:
			s += "/" + z.StringIn("max"+t, 1, '0', '9') + ",8x8,1,2"
		case 3:
			s += z.String("head"+t, z.Pick(2, 3))
		}
		return s + ":" + data(t)
	}
	a := line("a")
	if z.Choice("lines", 2) == 0 {
		lines(a)
		return
	}
	if z.Thorough() {
		lines(a, line("b"), line("c"))
		return
	}
	lines(a, []string{"HWCg#1=0/0,8x8:AAAA", "HWCg#1=1:AAAA", "HWCg#1=0:AA", "x"}[z.Choice("b", 4)])
}

// CheckReaderState: a reader restored from an arbitrary state goes on without panicking.
func CheckReaderState() {
	r := &rp.ASCIIreader{HWCGfx_count: z.Int("count", -1<<31, 1<<31-1), HWCGfx_max: z.Int("max", -1<<31, 1<<31-1)}
	r.HWCGfx_ImageType = []string{"", "HWCg#", "HWCgRGB#", "x"}[z.Choice("type", 4)]
	r.HWCGfx_HWClist = []string{"", "1", "x"}[z.Choice("list", 3)]
	if z.Choice("buffered", 2) == 1 {
		r.HWCGfx = []string{z.String("buf", z.Choice("buf.len", 3))}
	}
	inOK(r.Parse("HWCg#1=" + z.StringIn("index", 1, '0', '9') + []string{"", "/1,8x8"}[z.Choice("header", 2)] + ":AAAA"))
	inOK(r.Parse("HWCg#1=1:AAAA"))
	inOK(r.Parse("ping"))
}

// CheckJSON: JSON of arbitrary bytes.
func CheckJSON() {
	p := []string{"{", "[", "[{", "_networkConfig={", "SetNetworkConfig={", "_networkConfig="}[z.Choice("kind", 6)]
	lines(p + z.String("json", z.Choice("len", z.Pick(4, 5))))
}

var elements = []string{"null", "{}", "1", "\"a\"", "[]", "true", "{\"States\":[null]}", "{\"States\":null}", "{\"Command\":null}",
	"{\"Command\":{\"PanelBrightness\":null}}", "{\"States\":[{\"HWCIDs\":[1,null]}]}", "{\"FlowMessage\":1}", "{\"FlowMessage\":-1e99}"}

// CheckJSONList: message lists with elements of every JSON type.
func CheckJSONList() {
	n := z.Choice("n", z.Pick(3, 4))
	s := "["
	for i := 0; i < n; i++ {
		if i > 0 {
			s += ","
		}
		s += elements[z.Choice("element", len(elements))]
	}
	s += "]"
	lines(s)
	lines(s[:len(s)-1])
}

// CheckJSONFields: state objects whose fields hold values of every JSON type.
func CheckJSONFields() {
	f := []string{"HWCIDs", "HWCMode", "HWCColor", "HWCExtended", "HWCText", "HWCGfx", "PublishRawADCValues", "Processors", "x", ""}[z.Choice("field", 10)]
	v := []string{"null", "{}", "[]", "[null]", "1", "-1", "1e400", "true", "\"\"", "{\"Scale\":null}", "{\"ImageData\":\"!\"}", "{\"ColorRGB\":{\"Red\":-1}}"}[z.Choice("value", 12)]
	s := "{\"" + f + "\":" + v + "}"
	lines(s)
	lines("[{\"States\":[" + s + "]}]")
}

// ---- messages

func in(ms ...*rwp.InboundMessage) {
	z.Pure(func() { z.Observe("lines", len(rp.InboundMessagesToRawPanelASCIIstrings(ms))) })
}

func out(ms ...*rwp.OutboundMessage) {
	z.Pure(func() { z.Observe("lines", len(rp.OutboundMessagesToRawPanelASCIIstrings(ms))) })
}

func u32(name string) uint32 { return z.Uint32(name, 0, maxU) }
func i32(name string) int32  { return z.Int32(name, -1<<31, 1<<31-1) }

// str is a text: arbitrary bytes, or where parts are combined one of three.
func str(name string) string {
	if combined {
		return []string{"", "a\n <b", "\xff\xe2\x80\xa8"}[z.Choice(name+".text", 3)]
	}
	return z.String(name, z.Choice(name+".len", z.Pick(2, 3)))
}

var combined bool

func rgb(n string) *rwp.ColorRGB   { return &rwp.ColorRGB{Red: u32(n + "r"), Green: u32(n + "g"), Blue: u32(n + "b")} }
func idx(n string) *rwp.ColorIndex { return &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(i32(n + "i"))} }

func hwcColor(n string) *rwp.HWCColor {
	switch z.Choice(n, 5) {
	case 1:
		return &rwp.HWCColor{}
	case 2:
		return &rwp.HWCColor{ColorRGB: rgb(n)}
	case 3:
		return &rwp.HWCColor{ColorIndex: idx(n)}
	case 4:
		return &rwp.HWCColor{ColorRGB: rgb(n), ColorIndex: idx(n)}
	}
	return nil
}

func color(n string) *rwp.Color {
	if c := hwcColor(n); c != nil {
		return &rwp.Color{ColorRGB: c.ColorRGB, ColorIndex: c.ColorIndex}
	}
	return nil
}

func font(n string) *rwp.HWCText_TextStyle_Font {
	if z.Choice(n, 2) == 0 {
		return nil
	}
	return &rwp.HWCText_TextStyle_Font{FontFace: rwp.HWCText_TextStyle_Font_FontFaceE(i32(n + "face")), TextHeight: u32(n + "h"), TextWidth: u32(n + "w")}
}

func ids() []uint32 {
	var r []uint32
	for i, n := 0, z.Choice("ids", 3); i < n; i++ {
		r = append(r, u32("id"))
	}
	return r
}

// CheckText1: any text state, colours and styling present or absent, all numbers arbitrary.
func CheckTextState() {
	combined = false
	t := &rwp.HWCText{}
	if z.Choice("numbers", 2) == 1 {
		t.IntegerValue, t.IntegerValue2 = i32("iv"), i32("iv2")
		t.Formatting, t.StateIcon, t.ModifierIcon, t.PairMode = rwp.HWCText_FormattingE(i32("fmt")), rwp.HWCText_StateIconE(i32("si")), rwp.HWCText_ModifierIconE(i32("mi")), rwp.HWCText_PairModeE(i32("pm"))
	} else {
		t.Formatting = rwp.HWCText_FormattingE(i32("fmt"))
	}
	switch z.Choice("part", 4) {
	case 0:
		t.PixelColor, t.BackgroundColor = color("p"), color("b")
	case 1:
		if z.Choice("styling", 2) == 1 {
			t.TextStyling = &rwp.HWCText_TextStyle{TitleFont: font("title"), TextFont: font("text"), FixedWidth: z.Bool("fixed"), TitleBarPadding: u32("pad"), ExtraCharacterSpacing: u32("space"), UnformattedFontSize: u32("size")}
		}
	case 2:
		if z.Choice("scale", 2) == 1 {
			t.Scale = &rwp.HWCText_ScaleM{ScaleType: rwp.HWCText_ScaleM_ScaleTypeE(i32("st")), RangeLow: i32("rl"), RangeHigh: i32("rh"), LimitLow: i32("ll"), LimitHigh: i32("lh")}
		}
	case 3:
		t.Title, t.Textline1, t.Textline2, t.SolidHeaderBar, t.Inverted = str("title"), str("l1"), str("l2"), z.Bool("solid"), z.Bool("inv")
	}
	in(&rwp.InboundMessage{States: []*rwp.HWCState{{HWCIDs: []uint32{1}, HWCText: t}}})
}

// CheckState: every other part of a state, present or absent in any combination.
func CheckState() {
	s := &rwp.HWCState{HWCIDs: ids()}
	if z.Choice("mode", 2) == 1 {
		s.HWCMode = &rwp.HWCMode{State: rwp.HWCMode_StateE(i32("state")), Output: z.Bool("output"), BlinkPattern: u32("blink")}
	}
	s.HWCColor = hwcColor("c")
	if z.Choice("ext", 2) == 1 {
		s.HWCExtended = &rwp.HWCExtended{Interpretation: rwp.HWCExtended_InterpretationE(i32("interp")), Value: u32("ev")}
	}
	if z.Choice("raw", 2) == 1 {
		s.PublishRawADCValues = &rwp.PublishRawADCValues{Enabled: z.Bool("raw.on")}
	}
	if z.Choice("text", 2) == 1 {
		s.HWCText = &rwp.HWCText{}
	}
	in(&rwp.InboundMessage{States: []*rwp.HWCState{s, {}}})
}

// CheckGfxState: graphics with every format number, any size and any amount of data.
func CheckGfxState() {
	g := &rwp.HWCGfx{}
	if z.Choice("numbers", 2) == 1 {
		g.ImageType, g.W, g.H, g.XYoffset, g.X, g.Y = rwp.HWCGfx_ImageTypeE(i32("type")), u32("w"), u32("h"), z.Bool("xy"), u32("x"), u32("y")
	}
	g.ImageData = z.Bytes("img", []int{0, 1, 170, 171, 340, 341}[z.Choice("len", 6)])
	in(&rwp.InboundMessage{States: []*rwp.HWCState{{HWCIDs: ids(), HWCGfx: g}}})
}

// CheckProcessors: every processor, empty or filled.
func CheckProcessors() {
	p := &rwp.Processors{}
	f := z.Choice("filled", 2) == 1
	switch z.Choice("which", 7) {
	case 1:
		p.GfxConv = &rwp.ProcGfxConverter{}
		if f {
			p.GfxConv = &rwp.ProcGfxConverter{ImageType: rwp.ProcGfxConverter_ImageTypeE(i32("t")), W: u32("w"), H: u32("h"), ImageData: z.Bytes("d", 2), Scaling: rwp.ProcGfxConverter_ScalingE(i32("s")), Filters: "a\nb"}
		}
	case 2:
		p.AudioMeter = &rwp.ProcAudioMeter{}
		if f {
			p.AudioMeter = &rwp.ProcAudioMeter{MeterType: rwp.ProcAudioMeter_MeterTypeE(i32("t")), W: u32("w"), Title: z.String("title", 1), Data1: u32("d")}
		}
	case 3:
		p.TextToGraphics = &rwp.ProcTextToGraphics{}
		if f {
			p.TextToGraphics = &rwp.ProcTextToGraphics{W: u32("w"), H: u32("h"), Border: u32("b"), Shrink: u32("s")}
		}
	case 4:
		p.StrengthMeter = &rwp.ProcStrength{}
		if f {
			p.StrengthMeter = &rwp.ProcStrength{W: u32("w"), Title: z.String("title", 1), Data1: u32("d")}
		}
	case 5:
		p.Test = &rwp.ProcTest{}
		if f {
			p.Test = &rwp.ProcTest{W: u32("w"), H: u32("h")}
		}
	case 6:
		p.UniText = &rwp.ProcUniText{}
		if f {
			p.UniText = &rwp.ProcUniText{W: u32("w"), Title: z.String("title", 1), SolidHeaderBar: z.Bool("b")}
		}
	}
	in(&rwp.InboundMessage{States: []*rwp.HWCState{{HWCIDs: []uint32{u32("id")}, Processors: p}}})
}

func network() *rwp.NetworkConfig {
	if z.Choice("net", 2) == 0 {
		return &rwp.NetworkConfig{}
	}
	return &rwp.NetworkConfig{Dhcp: z.Bool("dhcp"), Address: str("addr"), Netmask: "255.0.0.0", NoDefaultRoute: z.Bool("ndr")}
}

// command sets one sub-message of a command, filled arbitrarily.
func command(c *rwp.Command, k int, t string) {
	v, e := u32("v"+t), i32("e"+t)
	switch k {
	case 0:
		c.PanelBrightness = &rwp.Brightness{OLEDs: v, LEDs: u32("w" + t)}
	case 1:
		c.SetCalibrationProfile = &rwp.CalibrationProfile{Json: str("j" + t)}
	case 2:
		c.SetNetworkConfig = network()
	case 3:
		c.SimulateEnvironmentalHealth = &rwp.Environment{RunMode: rwp.Environment_RunModeE(e)}
	case 4:
		c.SetSleepTimeout = &rwp.SleepTimeout{Value: v}
	case 5:
		c.SetSleepMode = &rwp.SleepMode{Mode: rwp.SleepMode_SlpMode(e)}
	case 6:
		c.SetSleepScreenSaver = &rwp.SleepScreenSaver{Type: rwp.SleepScreenSaver_SlpScrSaver(e)}
	case 7:
		c.SetDimmedGain = &rwp.DimmedGain{Value: v}
	case 8:
		c.SetHeartBeatTimer = &rwp.HeartBeatTimer{Value: v}
	case 9:
		c.PublishSystemStat = &rwp.PublishSystemStat{PeriodSec: v}
	case 10:
		c.LoadCPU = &rwp.LoadCPU{Level: rwp.LoadCPU_LevelE(e)}
	case 11:
		c.SetWebserverEnabled = &rwp.WebserverState{Enabled: z.Bool("b" + t)}
	case 12:
		c.JSONconfig = &rwp.JSONconfig{Outbound: z.Bool("b" + t)}
	}
}

// CheckCommand: any two command sub-messages and all flags.
func CheckCommand() {
	all := z.Choice("flags", 2) == 1
	c := &rwp.Command{ActivatePanel: all, SendPanelInfo: all, SendPanelTopology: all, SendRegisters: all, ReportHWCavailability: all, SendBurninProfile: all,
		SendCalibrationProfile: all, SendNetworkConfig: all, ClearAll: all, ClearLEDs: all, ClearDisplays: all, WakeUp: all, GetSleepTimeout: all, GetConnections: all, GetRunTimeStats: all, Reboot: all}
	k := z.Choice("k", 14)
	l := z.Choice("l", k+1)
	combined = l < k
	command(c, k, "k")
	if l < k {
		command(c, l, "l")
	}
	in(&rwp.InboundMessage{FlowMessage: rwp.InboundMessage_FlowMsg(i32("flow")), Command: c})
}

func register(t string) *rwp.Register {
	return &rwp.Register{Reg: rwp.Register_RegisterE(i32("reg" + t)), Id: str("id" + t), Value: u32("val" + t)}
}

// CheckRegisters: any two registers, both directions.
func CheckRegisters() {
	combined = false
	r := []*rwp.Register{register("a"), register("b")}
	in(&rwp.InboundMessage{Registers: r})
	out(&rwp.OutboundMessage{Registers: r})
}

// CheckEmpty: messages without content, in any number.
func CheckEmpty() {
	n := z.Choice("n", 3)
	var a []*rwp.InboundMessage
	var b []*rwp.OutboundMessage
	for i := 0; i < n; i++ {
		a = append(a, &rwp.InboundMessage{})
		b = append(b, &rwp.OutboundMessage{})
	}
	in(a...)
	out(b...)
	in(&rwp.InboundMessage{Command: &rwp.Command{}, States: []*rwp.HWCState{{}}, Registers: []*rwp.Register{{}}})
	lines()
	lines("")
}

// section sets one sub-message of a panel message, empty or filled arbitrarily.
func section(m *rwp.OutboundMessage, k int, t string) {
	f := z.Choice("filled"+t, 2) == 1
	s := func(n string) string {
		if !f {
			return ""
		}
		return str(n + t)
	}
	u := func(n string) uint32 {
		if !f {
			return 0
		}
		return u32(n + t)
	}
	switch k {
	case 0:
		m.PanelInfo = &rwp.PanelInfo{Model: s("m"), Serial: s("s"), MaxClients: u("max")}
		if f {
			m.PanelInfo.PanelType = rwp.PanelInfo_PanelTypeE(i32("type" + t))
			m.PanelInfo.LockedToIPs = []string{str("ip" + t), ""}
		}
	case 1:
		all := z.Choice("support"+t, 2) == 1
		m.PanelInfo = &rwp.PanelInfo{Name: s("n"), SoftwareVersion: s("v"), Platform: "p", BluePillReady: f, LockedToIPs: []string{}}
		m.PanelInfo.RawPanelSupport = &rwp.RawPanelSupport{ASCII: all, Binary: f, ASCII_JSONfeedback: all, ASCII_Inbound: f, ASCII_Outbound: all, Processors: f, System: all, RawADCValues: f, BurninProfile: all, EnvHealth: f, Registers: all, Calibration: f, NetworkSettings: all}
	case 2:
		m.PanelTopology = &rwp.PanelTopology{Svgbase: s("svg"), Json: s("json")}
	case 3:
		m.BurninProfile = &rwp.BurninProfile{Json: s("j")}
	case 4:
		m.SleepTimeout = &rwp.SleepTimeout{Value: u("v")}
	case 5:
		m.SleepState = &rwp.SleepState{IsSleeping: f}
	case 6:
		m.Connections = &rwp.Connections{}
		if f {
			m.Connections.Connection = []string{str("c1"), str("c2")}
		}
	case 7:
		m.HeartBeatTimer = &rwp.HeartBeatTimer{Value: u("v")}
	case 8:
		m.DimmedGain = &rwp.DimmedGain{Value: u("v")}
	case 9:
		m.RunTimeStats = &rwp.RunTimeStats{BootsCount: u("a"), TotalUptime: u("b"), SessionUptime: u("c"), ScreenSaveOnTime: u("d")}
	case 10:
		m.SysStat = &rwp.SystemStat{}
		if f {
			m.SysStat = &rwp.SystemStat{CPUUsage: u("u"), CPUTemp: z.Float32("t" + t), ExtTemp: z.Float32("e" + t), CPUVoltage: z.Float32("v" + t), CPUFreqMin: i32("f" + t), MemFree: i32("mf" + t), Throttled: z.Bool("th" + t)}
		}
	case 11:
		m.Message = &rwp.Message{Message: s("msg")}
	case 12:
		m.ErrorMessage = &rwp.Message{Message: s("msg")}
	case 13:
		m.EnvironmentalHealth = &rwp.Environment{}
		if f {
			m.EnvironmentalHealth.RunMode = rwp.Environment_RunModeE(i32("run" + t))
		}
	case 14:
		m.CalibrationProfile = &rwp.CalibrationProfile{Json: s("j")}
	case 15:
		m.DefaultCalibrationProfile = &rwp.CalibrationProfile{Json: s("j")}
	case 16:
		m.NetworkConfig = network()
	case 17:
		m.BusStatus = &rwp.BusStatus{Fault: f}
	case 18:
		m.HWCavailability = map[uint32]uint32{}
		if f {
			m.HWCavailability[u32("hwc"+t)] = u32("av" + t)
		}
	case 19:
		m.Events = []*rwp.HWCEvent{{}}
		if f {
			m.Events = []*rwp.HWCEvent{{HWCID: u32("id" + t), Timestamp: u32("ts" + t), Binary: &rwp.BinaryEvent{Pressed: z.Bool("p" + t), Edge: rwp.BinaryEvent_EdgeID(i32("edge" + t))}, Absolute: &rwp.AbsoluteEvent{Value: u32("abs" + t)}},
				{Pulsed: &rwp.PulsedEvent{Value: i32("pv" + t)}, Speed: &rwp.SpeedEvent{Value: i32("sv" + t)}, RawAnalog: &rwp.RawAnalogEvent{Value: u32("rv" + t)}}, {}}
		}
	}
}

const sections = 20

// CheckSection: every part of a panel message on its own.
func CheckSection() {
	combined = false
	m := &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_FlowMsg(i32("flow"))}
	section(m, z.Choice("k", sections), "k")
	out(m)
}

// CheckSections: any two parts of a panel message together.
func CheckSections() {
	m := &rwp.OutboundMessage{}
	k := 1 + z.Choice("k", sections-1)
	l := z.Choice("l", k)
	combined = true
	section(m, k, "k")
	section(m, l, "l")
	out(m)
}

// ---- messages from the wire

// wrap makes data the content of a sub-message.
func wrap(tag byte, data []byte) []byte {
	return append([]byte{tag<<3 | 2, byte(len(data))}, data...)
}

// CheckWireIn: arbitrary bytes, as a message or as the content of one of its sub-messages.
func CheckWireIn() {
	d := z.Bytes("wire", z.Choice("len", z.Pick(5, 7)))
	switch z.Choice("level", 12) {
	case 1:
		d = wrap(2, d)
	case 2:
		d = wrap(8, append([]byte{8, 1}, d...))
	case 3:
		d = wrap(9, d)
	case 4:
		d = wrap(8, append([]byte{8, 1}, wrap(2, d)...))
	case 5:
		d = wrap(8, append([]byte{8, 1}, wrap(3, d)...))
	case 6:
		d = wrap(8, append([]byte{8, 1}, wrap(5, d)...))
	case 7:
		d = wrap(8, append([]byte{8, 1}, wrap(6, d)...))
	case 8:
		d = wrap(8, append([]byte{8, 1}, wrap(5, wrap(14, d))...))
	case 9:
		d = wrap(8, append([]byte{8, 1}, wrap(5, wrap(13, d))...))
	case 10:
		d = wrap(8, append([]byte{8, 1}, wrap(9, d)...))
	case 11:
		d = wrap(8, append([]byte{8, 1}, append(wrap(5, d), wrap(5, []byte{24, 10})...)...)) // two pieces of one text, the last with formatting 10
	}
	m := &rwp.InboundMessage{}
	if proto.Unmarshal(d, m) != nil {
		return
	}
	z.Reach("decoded")
	in(m)
}

// CheckWireOut: the same for panel messages.
func CheckWireOut() {
	d := z.Bytes("wire", z.Choice("len", z.Pick(5, 7)))
	l := z.Choice("level", 12)
	if l > 0 {
		d = wrap([]byte{0, 2, 4, 5, 7, 8, 9, 10, 6, 20 - 7, 30 - 15, 3}[l], d)
	}
	m := &rwp.OutboundMessage{}
	if proto.Unmarshal(d, m) != nil {
		return
	}
	z.Reach("decoded")
	out(m)
}

// ---- independence of calls

func sample(k int, t string) []string {
	v := z.StringIn("v"+t, 2, '0', '9')
	switch k {
	case 0:
		return []string{"HWC#" + v + "=4"}
	case 1:
		return []string{"HWCt#1=" + v + "|7|3|ab|1|cd"}
	case 2:
		return []string{"HWCg#" + v + "=0/1,8x8:AAAA", "HWCg#" + v + "=1:BBBB"}
	case 3:
		return []string{"HWCg#" + v + "=0/1,8x8:AAAA"}
	case 4:
		return []string{"Mem" + v + "=3"}
	case 5:
		return []string{"_model=" + v, "_support=ASCII,Binary"}
	case 6:
		return []string{"HWC#" + v + "=Press"}
	case 7:
		return []string{"HWCg#" + v + "=1:BBBB"}
	case 8:
		return []string{"SysStat=CPUUsage:" + v + ":"}
	}
	return []string{"PanelBrightness=" + v}
}

func convert(k int, ls []string) ([]*rwp.InboundMessage, []*rwp.OutboundMessage, []string, []string) {
	a := rp.RawPanelASCIIstringsToInboundMessages(ls)
	b := rp.RawPanelASCIIstringsToOutboundMessages(ls)
	return a, b, rp.InboundMessagesToRawPanelASCIIstrings(a), rp.OutboundMessagesToRawPanelASCIIstrings(b)
}

// CheckIndependent: what a call returns does not depend on the calls before it, and later calls leave it alone.
func CheckIndependent() {
	k, l := z.Choice("k", 10), z.Choice("l", 10)
	x, y := sample(k, "x"), sample(l, "y")
	a1, b1, c1, d1 := convert(k, x)
	var ca []*rwp.InboundMessage
	for _, m := range a1 {
		ca = append(ca, proto.Clone(m).(*rwp.InboundMessage))
	}
	convert(l, y)
	a2, b2, c2, d2 := convert(k, x)
	z.Assert(len(a1) == len(a2) && len(b1) == len(b2) && len(c1) == len(c2) && len(d1) == len(d2), "number of results depends on history")
	for i := range a1 {
		z.Assert(proto.Equal(a1[i], a2[i]), "decoded message depends on history")
		z.Assert(proto.Equal(a1[i], ca[i]), "a later call changed a returned message")
	}
	for i := range b1 {
		z.Assert(proto.Equal(b1[i], b2[i]), "decoded panel message depends on history")
	}
	for i := range c1 {
		z.Assert(c1[i] == c2[i], "line depends on history")
	}
	for i := range d1 {
		z.Assert(d1[i] == d2[i], "panel line depends on history")
	}
}

// CheckReaders: two readers used in turn do not influence each other.
func CheckReaders() {
	p, q, o := &rp.ASCIIreader{}, &rp.ASCIIreader{}, &rp.ASCIIreader{}
	k, l := z.Choice("k", 10), z.Choice("l", 10)
	x, y := sample(k, "x"), sample(l, "y")
	var a, b []*rwp.InboundMessage
	for i := 0; i < len(x) || i < len(y); i++ {
		if i < len(x) {
			a = append(a, p.Parse(x[i])...)
		}
		if i < len(y) {
			q.Parse(y[i])
		}
	}
	for i := range x {
		b = append(b, o.Parse(x[i])...)
	}
	z.Assert(len(a) == len(b), "number of messages depends on another reader")
	for i := range a {
		z.Assert(proto.Equal(a[i], b[i]), "message depends on another reader")
	}
}
