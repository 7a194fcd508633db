// Package c01: what the inbound encoder writes, read by the independent grammar in spec, is exactly
// what the messages say.
package c01

import (
	"strconv"

	rp "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"github.com/SKAARHOJ/rawpanel-lib/zzverif/spec"
	z "github.com/SKAARHOJ/rawpanel-lib/zzverif/zzsym"
)

const Harness = "c01"

const maxU = 0xFFFFFFFF

func check(ms []*rwp.InboundMessage, what string) {
	lines := rp.InboundMessagesToRawPanelASCIIstrings(ms)
	z.Observe("lines", lines)
	spec.SameByKind(spec.DecodeInbound(lines), spec.InboundEffects(ms, false), what)
}

// one checks a single message.
func one(m *rwp.InboundMessage, what string) { check([]*rwp.InboundMessage{m}, what) }

func CheckFlow() {
	f := z.Int32("flow", 0, 200)
	one(&rwp.InboundMessage{FlowMessage: rwp.InboundMessage_FlowMsg(f)}, "flow")
}

func flag(c *rwp.Command, i int, b bool) {
	switch i {
	case 0:
		c.ActivatePanel = b
	case 1:
		c.SendPanelInfo = b
	case 2:
		c.SendPanelTopology = b
	case 3:
		c.SendRegisters = b
	case 4:
		c.ReportHWCavailability = b
	case 5:
		c.SendBurninProfile = b
	case 6:
		c.SendCalibrationProfile = b
	case 7:
		c.SendNetworkConfig = b
	case 8:
		c.ClearAll = b
	case 9:
		c.ClearLEDs = b
	case 10:
		c.ClearDisplays = b
	case 11:
		c.WakeUp = b
	case 12:
		c.GetSleepTimeout = b
	case 13:
		c.GetConnections = b
	case 14:
		c.GetRunTimeStats = b
	case 15:
		c.Reboot = b
	}
}

// printable text without the field separator
func text(name string, n int) string {
	s := z.StringIn(name, n, 0x21, 0x7e)
	for i := 0; i < len(s); i++ {
		z.Assume(s[i] != '|')
	}
	return s
}

func value(c *rwp.Command, i int, tag string) {
	u := func() uint32 { return z.Uint32("v"+tag, 0, maxU) }
	switch i {
	case 0:
		c.PanelBrightness = &rwp.Brightness{OLEDs: u(), LEDs: z.Uint32("w"+tag, 0, maxU)}
	case 1:
		c.SetCalibrationProfile = &rwp.CalibrationProfile{Json: text("j"+tag, 4)}
	case 2:
		c.SimulateEnvironmentalHealth = &rwp.Environment{RunMode: rwp.Environment_RunModeE(z.Int32("e"+tag, 0, 2))}
	case 3:
		c.SetSleepTimeout = &rwp.SleepTimeout{Value: u()}
	case 4:
		c.SetSleepMode = &rwp.SleepMode{Mode: rwp.SleepMode_SlpMode(z.Int32("e"+tag, 0, 100))}
	case 5:
		c.SetSleepScreenSaver = &rwp.SleepScreenSaver{Type: rwp.SleepScreenSaver_SlpScrSaver(z.Int32("e"+tag, 0, 100))}
	case 6:
		c.SetDimmedGain = &rwp.DimmedGain{Value: u()}
	case 7:
		c.SetHeartBeatTimer = &rwp.HeartBeatTimer{Value: u()}
	case 8:
		c.PublishSystemStat = &rwp.PublishSystemStat{PeriodSec: u()}
	case 9:
		c.LoadCPU = &rwp.LoadCPU{Level: rwp.LoadCPU_LevelE(z.Int32("e"+tag, 0, 100))}
	case 10:
		c.SetWebserverEnabled = &rwp.WebserverState{Enabled: z.Bool("b" + tag)}
	case 11:
		c.JSONconfig = &rwp.JSONconfig{Outbound: z.Bool("b" + tag)}
	}
}

// CheckFlags: any two of the sixteen parameterless commands in one message.
func CheckFlags() {
	c := &rwp.Command{}
	k := z.Choice("k", 16)
	l := k + z.Choice("l", 16-k)
	flag(c, k, z.Bool("bk"))
	flag(c, l, z.Bool("bl"))
	if z.Thorough() && l+1 < 16 {
		flag(c, l+1+z.Choice("m", 15-l), z.Bool("bm"))
	}
	one(&rwp.InboundMessage{Command: c}, "flags")
}

// CheckAllFlags: all of them together.
func CheckAllFlags() {
	c := &rwp.Command{}
	for i := 0; i < 16; i++ {
		flag(c, i, true)
	}
	for i := 0; i < 12; i++ {
		value(c, i, strconv.Itoa(i))
	}
	one(&rwp.InboundMessage{FlowMessage: rwp.InboundMessage_PING, Command: c, States: []*rwp.HWCState{state(1, "")}}, "all commands")
}

// CheckValues: any two of the commands that carry a value, with arbitrary values.
func CheckValues() {
	c := &rwp.Command{}
	k := z.Choice("k", 12)
	value(c, k, "k")
	l := z.Choice("l", 12-k)
	if l > 0 {
		value(c, k+l, "l")
	}
	flag(c, z.Choice("f", z.Pick(1, 16)), true)
	one(&rwp.InboundMessage{Command: c}, "values")
}

func CheckNetworkConfig() {
	w := z.Choice("w", 5)
	n := &rwp.NetworkConfig{Dhcp: z.Bool("dhcp"), NoDefaultRoute: z.Bool("ndr")}
	s := z.StringIn("s", z.Pick(3, 6), '.', '9')
	for i, p := range []*string{&n.Address, &n.Netmask, &n.Gateway, &n.FirstDns, &n.SecondDns} {
		*p = "10.0.0." + strconv.Itoa(i)
		if i == w {
			*p = s
		}
	}
	one(&rwp.InboundMessage{Command: &rwp.Command{SetNetworkConfig: n}}, "network config")
}

func ids(name string, max int) []uint32 {
	n := z.Choice(name+"n", max) + 1
	l := make([]uint32, n)
	for i := range l {
		l[i] = z.Uint32(name, 0, maxU)
	}
	return l
}

func rgb(t string) *rwp.ColorRGB {
	return &rwp.ColorRGB{Red: z.Uint32("red"+t, 0, 255), Green: z.Uint32("green"+t, 0, 255), Blue: z.Uint32("blue"+t, 0, 255)}
}

// state is a state with one arbitrary part.
func state(kind int, t string) *rwp.HWCState {
	s := &rwp.HWCState{HWCIDs: []uint32{z.Uint32("id"+t, 0, maxU)}}
	part(s, kind, t)
	return s
}

func part(s *rwp.HWCState, kind int, t string) {
	switch kind {
	case 0:
		s.HWCMode = &rwp.HWCMode{State: rwp.HWCMode_StateE(z.Int32("state"+t, 0, 5)), Output: z.Bool("output" + t), BlinkPattern: z.Uint32("blink"+t, 0, 15)}
	case 1:
		s.HWCColor = &rwp.HWCColor{ColorRGB: rgb(t)}
	case 2:
		s.HWCColor = &rwp.HWCColor{ColorIndex: &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(z.Int32("index"+t, 0, 31))}}
	case 3:
		s.HWCExtended = &rwp.HWCExtended{Interpretation: rwp.HWCExtended_InterpretationE(z.Int32("interp"+t, 0, 15)), Value: z.Uint32("ext"+t, 0, 4095)}
	case 4:
		s.PublishRawADCValues = &rwp.PublishRawADCValues{Enabled: z.Bool("adc" + t)}
	case 5:
		s.HWCText = &rwp.HWCText{IntegerValue: z.Int32("int"+t, -1<<31, 1<<31-1), Formatting: 1}
	case 6:
		s.HWCGfx = &rwp.HWCGfx{W: z.Uint32("w"+t, 0, maxU), H: z.Uint32("h"+t, 0, maxU), ImageData: z.Bytes("img"+t, 5)}
	}
}

// CheckStates: a state with any combination of the integer-coded parts, for one to three components.
func CheckStates() {
	s := &rwp.HWCState{HWCIDs: ids("id", z.Pick(2, 3))}
	if z.Choice("mode", 2) == 1 {
		part(s, 0, "")
	}
	if c := z.Choice("color", 3); c > 0 {
		part(s, c, "")
	}
	if z.Choice("ext", 2) == 1 {
		part(s, 3, "")
	}
	if z.Choice("adc", 2) == 1 {
		part(s, 4, "")
	}
	if z.Choice("text", 2) == 1 {
		part(s, 5, "")
	}
	if z.Choice("gfx", 2) == 1 {
		part(s, 6, "")
	}
	one(&rwp.InboundMessage{States: []*rwp.HWCState{s}}, "states")
}

// CheckManyIds: the same effect on each of several components.
func CheckManyIds() {
	s := &rwp.HWCState{HWCIDs: ids("id", 5)}
	part(s, z.Choice("kind", 7), "")
	one(&rwp.InboundMessage{States: []*rwp.HWCState{s}}, "many components")
}

// CheckTwoStates: two states of one message, with commands and registers around them.
func CheckTwoStates() {
	m := &rwp.InboundMessage{States: []*rwp.HWCState{state(z.Choice("a", 7), "a"), state(z.Choice("b", 7), "b")}}
	switch z.Choice("with", 3) {
	case 1:
		m.Command = &rwp.Command{ClearAll: true, ClearLEDs: true, ClearDisplays: true, SetDimmedGain: &rwp.DimmedGain{Value: z.Uint32("gain", 0, maxU)}}
		m.FlowMessage = rwp.InboundMessage_PING
	case 2:
		m.Registers = []*rwp.Register{register("r")}
	}
	one(m, "two states")
}

func regId(name string) string {
	s := z.StringIn(name, z.Choice(name+"len", 3), '0', 'Z')
	for i := 0; i < len(s); i++ {
		z.Assume(s[i] <= '9' || s[i] >= 'A')
	}
	return s
}

func register(t string) *rwp.Register {
	r := &rwp.Register{Reg: rwp.Register_RegisterE(z.Choice("reg"+t, 4)), Value: z.Uint32("val"+t, 0, maxU)}
	if r.Reg == rwp.Register_FLAG {
		r.Id = strconv.Itoa(z.Int("flag"+t, 0, 1<<31-1))
	} else {
		r.Id = regId("rid" + t)
	}
	return r
}

func CheckRegisters() {
	m := &rwp.InboundMessage{Registers: []*rwp.Register{register("a")}}
	if z.Thorough() {
		m.Registers = append(m.Registers, register("b"))
	} else {
		m.Registers = append(m.Registers, &rwp.Register{Reg: rwp.Register_RegisterE(z.Choice("regb", 4)), Id: "1", Value: z.Uint32("valb", 0, maxU)})
	}
	one(m, "registers")
}

// message is a small arbitrary message of one of several classes.
func message(t string) *rwp.InboundMessage {
	switch k := z.Choice("class"+t, 11); k {
	case 0:
		return &rwp.InboundMessage{FlowMessage: rwp.InboundMessage_FlowMsg(z.Int32("flow"+t, 0, 3))}
	case 1:
		return &rwp.InboundMessage{Command: &rwp.Command{ClearAll: true}}
	case 2:
		return &rwp.InboundMessage{Command: &rwp.Command{SetSleepTimeout: &rwp.SleepTimeout{Value: z.Uint32("v"+t, 0, maxU)}}}
	case 3:
		return &rwp.InboundMessage{Registers: []*rwp.Register{{Reg: rwp.Register_MEM, Id: "A", Value: z.Uint32("v"+t, 0, maxU)}}}
	default:
		return &rwp.InboundMessage{States: []*rwp.HWCState{state(k-4, t)}}
	}
}

// CheckOrder: successive messages give the effects of each, one after the other.
func CheckOrder() {
	each([]*rwp.InboundMessage{message("a"), message("b")}, "successive messages")
}

// each checks the messages one by one, and that a call with all of them has the same effects in the same order.
func each(ms []*rwp.InboundMessage, what string) {
	var want []spec.Effect
	for _, m := range ms {
		lines := rp.InboundMessagesToRawPanelASCIIstrings([]*rwp.InboundMessage{m})
		effects := spec.DecodeInbound(lines)
		spec.SameByKind(effects, spec.InboundEffects([]*rwp.InboundMessage{m}, false), what)
		want = append(want, effects...)
	}
	lines := rp.InboundMessagesToRawPanelASCIIstrings(ms)
	z.Observe("lines", lines)
	spec.SameSeq(spec.DecodeInbound(lines), want, what+" in one call")
}

// ---- text

func font(t string) *rwp.HWCText_TextStyle_Font {
	return &rwp.HWCText_TextStyle_Font{FontFace: rwp.HWCText_TextStyle_Font_FontFaceE(z.Int32("face"+t, 0, 7)), TextHeight: z.Uint32("height"+t, 0, 3), TextWidth: z.Uint32("width"+t, 0, 3)}
}

func color(t string) *rwp.Color {
	switch z.Choice("color"+t, 3) {
	case 1:
		return &rwp.Color{ColorRGB: rgb(t)}
	case 2:
		return &rwp.Color{ColorIndex: &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(z.Int32("index"+t, 0, 31))}}
	}
	return nil
}

func textOf(id uint32, t *rwp.HWCText, what string) {
	one(&rwp.InboundMessage{States: []*rwp.HWCState{{HWCIDs: []uint32{id}, HWCText: t}}}, what)
}

func i32(name string) int32 { return z.Int32(name, -1<<31, 1<<31-1) }

// background fills the fields a window leaves alone: nothing, or everything.
func background() *rwp.HWCText {
	if z.Choice("bg", 2) == 0 {
		return &rwp.HWCText{Title: "T"}
	}
	f := &rwp.HWCText_TextStyle_Font{FontFace: 2, TextHeight: 1, TextWidth: 3}
	return &rwp.HWCText{IntegerValue: -7, Formatting: 2, StateIcon: 2, ModifierIcon: 5, Title: "Ti", SolidHeaderBar: true, Textline1: "a", Textline2: "b",
		IntegerValue2: 9, PairMode: 3, Scale: &rwp.HWCText_ScaleM{ScaleType: 2, RangeLow: -1, RangeHigh: 2, LimitLow: -3, LimitHigh: 4},
		TextStyling: &rwp.HWCText_TextStyle{TitleFont: f, TextFont: f, FixedWidth: true, TitleBarPadding: 2, ExtraCharacterSpacing: 5},
		Inverted:    true, PixelColor: &rwp.Color{ColorIndex: &rwp.ColorIndex{Index: 3}}, BackgroundColor: &rwp.Color{ColorRGB: &rwp.ColorRGB{Red: 255, Blue: 128}}}
}

// CheckTextValue: value, formatting, icons.
func CheckTextValue() {
	t := background()
	t.IntegerValue = i32("value")
	t.Formatting = rwp.HWCText_FormattingE(z.Int32("fmt", 0, 12))
	t.StateIcon = rwp.HWCText_StateIconE(z.Int32("sicon", 0, 3))
	t.ModifierIcon = rwp.HWCText_ModifierIconE(z.Int32("micon", 0, 7))
	if z.Choice("styling", 2) == 1 {
		t.TextStyling = &rwp.HWCText_TextStyle{UnformattedFontSize: z.Uint32("size", 0, 1<<31-1)}
	}
	textOf(5, t, "text value")
}

// CheckTextLines: title, header bar, lines.
func CheckTextLines() {
	t := background()
	t.Title = text("title", z.Choice("nt", 3))
	t.SolidHeaderBar = z.Bool("solid")
	t.Textline1 = text("line1", z.Choice("n1", 3))
	t.Textline2 = text("line2", z.Choice("n2", 3))
	if t.Title+t.Textline1+t.Textline2 == "" {
		t.Inverted = true // an entirely empty text is no text state
	}
	textOf(z.Uint32("id", 0, maxU), t, "text lines")
}

// CheckTextPair: second value and pair mode.
func CheckTextPair() {
	t := background()
	t.IntegerValue2 = i32("value2")
	t.PairMode = rwp.HWCText_PairModeE(z.Int32("pair", 0, 4))
	t.Textline2 = []string{"", "x"}[z.Choice("l2", 2)]
	t.Formatting = rwp.HWCText_FormattingE(z.Int32("fmt", 0, 12))
	textOf(5, t, "text pair")
}

// CheckTextScale
func CheckTextScale() {
	t := background()
	if z.Choice("scale", 2) == 1 {
		t.Scale = &rwp.HWCText_ScaleM{ScaleType: rwp.HWCText_ScaleM_ScaleTypeE(z.Int32("type", 0, 3)), RangeLow: i32("low"), RangeHigh: i32("high"), LimitLow: i32("ll"), LimitHigh: i32("lh")}
	} else {
		t.Scale = nil
	}
	textOf(5, t, "text scale")
}

// CheckTextStyle
func CheckTextStyle() {
	t := background()
	s := &rwp.HWCText_TextStyle{FixedWidth: z.Bool("fixed"), TitleBarPadding: z.Uint32("padding", 0, 3), ExtraCharacterSpacing: z.Uint32("spacing", 0, 7), UnformattedFontSize: z.Uint32("size", 0, 1<<31-1)}
	if z.Choice("title", 2) == 1 {
		s.TitleFont = font("title")
	}
	if z.Choice("text", 2) == 1 {
		s.TextFont = font("text")
	}
	t.TextStyling = s
	textOf(5, t, "text style")
}

// CheckTextColors
func CheckTextColors() {
	t := background()
	t.Inverted = z.Bool("inverted")
	t.PixelColor = color("p")
	t.BackgroundColor = color("b")
	textOf(5, t, "text colours")
}

// field sets one of the fields to a value that is not the default.
func field(t *rwp.HWCText, k int, tag string) {
	switch k {
	case 0:
		t.IntegerValue = z.Int32("v"+tag, 1, 1<<31-1)
	case 1:
		t.StateIcon = 1 + rwp.HWCText_StateIconE(z.Int32("v"+tag, 0, 2))
	case 2:
		t.ModifierIcon = 1 + rwp.HWCText_ModifierIconE(z.Int32("v"+tag, 0, 6))
	case 3:
		t.Title = text("t"+tag, 1)
	case 4:
		t.Title, t.SolidHeaderBar = text("t"+tag, 1), true
	case 5:
		t.Textline1 = text("t"+tag, 1)
	case 6:
		t.Textline2 = text("t"+tag, 1)
	case 7:
		t.IntegerValue2 = z.Int32("v"+tag, 1, 1<<31-1)
	case 8:
		t.PairMode = 1 + rwp.HWCText_PairModeE(z.Int32("v"+tag, 0, 3))
	case 9:
		t.Scale = &rwp.HWCText_ScaleM{ScaleType: 1 + rwp.HWCText_ScaleM_ScaleTypeE(z.Int32("v"+tag, 0, 2))}
	case 10:
		t.TextStyling = &rwp.HWCText_TextStyle{FixedWidth: z.Bool("fixed" + tag), UnformattedFontSize: z.Uint32("size"+tag, 1, 40)}
	case 11:
		t.Inverted = true
	case 12:
		t.PixelColor = &rwp.Color{ColorIndex: &rwp.ColorIndex{Index: 1 + rwp.ColorIndex_Colors(z.Int32("v"+tag, 0, 30))}}
	case 13:
		t.BackgroundColor = &rwp.Color{ColorRGB: rgb(tag)}
	}
}

// CheckTextSparse: each field alone, any two (any three), so that trailing empty fields are dropped after every position.
func CheckTextSparse() {
	t := &rwp.HWCText{Formatting: rwp.HWCText_FormattingE([]int32{0, 1, 7, 10, 11}[z.Choice("fmt", 5)])}
	k := z.Choice("field", 14)
	field(t, k, "")
	if l := z.Choice("other", 14-k); l > 0 {
		field(t, k+l, "o")
		if j := z.Choice("third", z.Pick(1, 14-k-l)); j > 0 {
			field(t, k+l+j, "p")
		}
	}
	textOf(5, t, "sparse text")
}

// ---- graphics

// CheckGfx: images around every chunk boundary.
func CheckGfx() {
	lens := []int{1, 2, 169, 170, 171, 340, 341}
	if z.Thorough() {
		lens = []int{1, 2, 3, 100, 168, 169, 170, 171, 172, 255, 256, 339, 340, 341, 509, 510, 511, 1024, 1700, 1701}
	}
	g := &rwp.HWCGfx{ImageType: rwp.HWCGfx_ImageTypeE(z.Choice("type", 3)), W: z.Uint32("w", 0, maxU), H: z.Uint32("h", 0, maxU)}
	g.XYoffset = z.Choice("off", 2) == 1
	g.X, g.Y = z.Uint32("x", 0, maxU), z.Uint32("y", 0, maxU)
	g.ImageData = z.Bytes("data", lens[z.Choice("len", len(lens))])
	s := &rwp.HWCState{HWCIDs: ids("id", 2), HWCGfx: g}
	m := &rwp.InboundMessage{States: []*rwp.HWCState{s}}
	ls := rp.InboundMessagesToRawPanelASCIIstrings([]*rwp.InboundMessage{m})
	for i, id := range s.HWCIDs {
		_ = id
		z.Assert(len(ls) == len(s.HWCIDs)*((len(g.ImageData)+169)/170), "number of graphics lines")
		_ = i
	}
	one(m, "graphics")
}

// CheckGfxTwo: two images in a row for the same or another component.
func CheckGfxTwo() {
	mk := func(t string) *rwp.InboundMessage {
		return &rwp.InboundMessage{States: []*rwp.HWCState{{HWCIDs: []uint32{z.Uint32("id"+t, 0, 9)}, HWCGfx: &rwp.HWCGfx{
			ImageType: rwp.HWCGfx_ImageTypeE(z.Choice("type"+t, 3)), W: 8, H: z.Uint32("h"+t, 1, 64), ImageData: z.Bytes("data"+t, []int{1, 171}[z.Choice("len"+t, 2)])}}}}
	}
	check([]*rwp.InboundMessage{mk("a"), mk("b")}, "two images")
}

// ---- processors: only expressible as a JSON state line

func CheckProcessors() {
	p := &rwp.Processors{}
	u := func(n string) uint32 { return z.Uint32(n, 0, maxU) }
	switch z.Choice("which", 6) {
	case 0:
		p.Test = &rwp.ProcTest{W: u("w"), H: u("h")}
	case 1:
		p.TextToGraphics = &rwp.ProcTextToGraphics{W: u("w"), H: u("h"), Border: u("b"), Shrink: u("s")}
	case 2:
		p.UniText = &rwp.ProcUniText{W: u("w"), H: u("h"), Title: "T x", SolidHeaderBar: z.Bool("solid"), Textline1: "l1", Textline2: "l2"}
	case 3:
		p.StrengthMeter = &rwp.ProcStrength{W: u("w"), H: u("h"), Title: "T", ValueString: "5 dB", RangeMapping: "0,1", RMYAxis: z.Bool("y"), Data1: u("d")}
	case 4:
		p.AudioMeter = &rwp.ProcAudioMeter{MeterType: rwp.ProcAudioMeter_MeterTypeE(z.Int32("mt", 0, 3)), W: u("w"), H: u("h"), Title: "T", Mono: z.Bool("mono"), RangeMapping: "0,1", RMYAxis: z.Bool("y"), Data1: u("d"), Data2: u("d2"), Peak1: u("p"), Peak2: u("p2")}
	case 5:
		p.GfxConv = &rwp.ProcGfxConverter{ImageType: rwp.ProcGfxConverter_ImageTypeE(z.Int32("it", 0, 2)), W: u("w"), H: u("h"), ImageData: []byte{1, 2, 250}, Scaling: rwp.ProcGfxConverter_ScalingE(z.Int32("sc", 0, 2)), Filters: "f"}
	}
	s := &rwp.HWCState{HWCIDs: []uint32{u("id")}, Processors: p}
	one(&rwp.InboundMessage{States: []*rwp.HWCState{s}}, "processors")
}

// ---- long inputs

// CheckTextLong: each of the three texts at lengths well above anything a display shows, every character arbitrary
// (blanks and bytes outside of ASCII included).
func CheckTextLong() {
	t := background()
	n := []int{3, 16, 24, 25, 26, 33, 64, 128, 256, 1000}[z.Choice("len", 10)]
	top := byte(0xff)
	if n > 30 {
		top = 0x7e
	}
	s := z.StringIn("text", n, 0x20, top)
	for i := 0; i < len(s); i++ {
		z.Assume(s[i] != '|' && s[i] != 0x7f)
	}
	switch z.Choice("field", 3) {
	case 0:
		t.Title = s
	case 1:
		t.Textline1 = s
	case 2:
		t.Textline2 = s
	}
	textOf(5, t, "long text")
}

// CheckTextAll: all the numeric fields of a text arbitrary at once.
func CheckTextAll() {
	t := &rwp.HWCText{IntegerValue: i32("value"), Formatting: rwp.HWCText_FormattingE(z.Int32("fmt", 0, 12)),
		StateIcon: rwp.HWCText_StateIconE(z.Int32("sicon", 0, 3)), ModifierIcon: rwp.HWCText_ModifierIconE(z.Int32("micon", 0, 7)),
		Title: "A title", SolidHeaderBar: z.Bool("solid"), Textline1: "One", Textline2: "Two", IntegerValue2: i32("value2"),
		PairMode: rwp.HWCText_PairModeE(z.Int32("pair", 0, 4)),
		Scale:    &rwp.HWCText_ScaleM{ScaleType: rwp.HWCText_ScaleM_ScaleTypeE(z.Int32("type", 0, 3)), RangeLow: i32("low"), RangeHigh: i32("high"), LimitLow: i32("ll"), LimitHigh: i32("lh")},
		TextStyling: &rwp.HWCText_TextStyle{TitleFont: font("a"), TextFont: font("b"), FixedWidth: z.Bool("fixed"), TitleBarPadding: z.Uint32("padding", 0, 3),
			ExtraCharacterSpacing: z.Uint32("spacing", 0, 7), UnformattedFontSize: z.Uint32("size", 0, 1<<31-1)},
		Inverted: z.Bool("inverted"), PixelColor: &rwp.Color{ColorRGB: rgb("p")}, BackgroundColor: &rwp.Color{ColorIndex: &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(z.Int32("bgi", 0, 31))}}}
	textOf(z.Uint32("id", 0, maxU), t, "whole text")
}

// CheckGfxLarge: images of ten and of a hundred parts (two and three digit part numbers).
func CheckGfxLarge() {
	n := []int{1699, 1700, 1701, 1870, 1871, 17000, 17001}[z.Choice("len", z.Pick(5, 7))]
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i*7 + i>>8)
	}
	copy(d, z.Bytes("head", 3))
	copy(d[n-3:], z.Bytes("tail", 3))
	copy(d[1528:], z.Bytes("mid", 4)) // around the 9th boundary
	g := &rwp.HWCGfx{ImageType: rwp.HWCGfx_ImageTypeE(z.Choice("type", 3)), W: z.Uint32("w", 0, maxU), H: z.Uint32("h", 0, maxU), ImageData: d}
	one(&rwp.InboundMessage{States: []*rwp.HWCState{{HWCIDs: []uint32{z.Uint32("id", 0, maxU)}, HWCGfx: g}}}, "large graphics")
}

// CheckMany: a state for forty components, and a call with forty messages.
func CheckMany() {
	n := z.Pick(20, 40)
	l := make([]uint32, n)
	for i := range l {
		l[i] = uint32(1000 + i*37)
	}
	l[n/2] = z.Uint32("id", 0, maxU)
	s := &rwp.HWCState{HWCIDs: l}
	part(s, z.Choice("kind", 7), "")
	var ms []*rwp.InboundMessage
	ms = append(ms, &rwp.InboundMessage{States: []*rwp.HWCState{s}})
	for i := 1; i < n; i++ {
		switch i % 5 {
		case 0:
			ms = append(ms, &rwp.InboundMessage{FlowMessage: 1})
		case 1:
			ms = append(ms, &rwp.InboundMessage{Command: &rwp.Command{SetSleepTimeout: &rwp.SleepTimeout{Value: uint32(i)}, ClearAll: true}})
		case 2:
			ms = append(ms, &rwp.InboundMessage{States: []*rwp.HWCState{{HWCIDs: []uint32{uint32(i), 7}, HWCMode: &rwp.HWCMode{State: 4, BlinkPattern: uint32(i % 16)}}}})
		case 3:
			ms = append(ms, &rwp.InboundMessage{Registers: []*rwp.Register{{Reg: rwp.Register_MEM, Id: "A" + strconv.Itoa(i), Value: uint32(i)}}})
		case 4:
			ms = append(ms, &rwp.InboundMessage{States: []*rwp.HWCState{{HWCIDs: []uint32{uint32(i)}, HWCText: &rwp.HWCText{Title: "x" + strconv.Itoa(i), Formatting: 7}}}})
		}
	}
	ms = append(ms, message("z"))
	each(ms, "many")
}
