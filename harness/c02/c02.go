// Package c02: every well-formed inbound line, in any legal spelling, decodes to exactly the effect
// the independent grammar in spec gives it.
package c02

import (
	"encoding/base64"
	"strconv"
	"strings"

	rp "github.com/SKAARHOJ/rawpanel-lib"
	"github.com/SKAARHOJ/rawpanel-lib/zzverif/spec"
	z "github.com/SKAARHOJ/rawpanel-lib/zzverif/zzsym"
)

const Harness = "c02"

const maxU = 0xFFFFFFFF
const maxI = 1<<31 - 1

func check(lines []string, what string) {
	want := spec.DecodeInbound(lines)
	for _, e := range want {
		z.Assume(e.Kind != "malformed") // a negative font size
	}
	msgs := rp.RawPanelASCIIstringsToInboundMessages(lines)
	for _, m := range msgs {
		z.Assert(m != nil, what+": nil message")
	}
	spec.SameSeq(spec.InboundEffects(msgs, true), want, what)
	// the streaming reader, line by line, has the same effects
	r := &rp.ASCIIreader{}
	var got []spec.Effect
	for _, l := range lines {
		z.Assume(strings.TrimSpace(l) == l) // blanks around a line belong to no field
		got = append(got, spec.InboundEffects(r.Parse(l), true)...)
	}
	spec.SameSeq(got, want, what+" (reader)")
}

func one(line string, what string) {
	z.Observe("line", line)
	check([]string{line}, what)
}

func num(name string, max int) string { return strconv.Itoa(z.Int(name, 0, max)) }
func snum(name string) string         { return strconv.Itoa(int(z.Int32(name, -1<<31, maxI))) }

func CheckWords() { one(spec.InboundWords[z.Choice("w", len(spec.InboundWords))], "word") }

func CheckNumbers() {
	k := spec.InboundNumbers[z.Choice("k", len(spec.InboundNumbers))]
	max := maxU
	if k == "SleepMode" || k == "SleepScreenSaver" || k == "LoadCPU" {
		max = maxI
	}
	one(k+"="+num("v", max), "number")
}

func CheckBrightness() {
	one("PanelBrightness="+num("leds", maxU)+","+num("oleds", maxU), "brightness")
}

func ids(max int) string {
	l := make([]string, z.Choice("nids", max)+1)
	for i := range l {
		l[i] = num("id", maxU)
	}
	return strings.Join(l, ",")
}

// CheckIntegers: mode, extended value, colour and raw-ADC lines for one to three components.
func CheckIntegers() {
	kw := []string{"HWC", "HWCx", "HWCc", "HWCrawADCValues"}[z.Choice("kw", 4)]
	max := maxI
	switch kw {
	case "HWCc":
		max = 255
	case "HWCrawADCValues":
		max = 1
	}
	one(kw+"#"+ids(z.Pick(3, 8))+"="+num("v", max), kw)
}

// CheckZeros: numbers with leading zeros.
func CheckZeros() {
	kw := []string{"HWC", "HWCx", "HWCc"}[z.Choice("kw", 3)]
	one(kw+"#0"+strconv.Itoa(z.Int("id", 1, 255))+"=00"+num("v", 255), kw+" leading zeros")
}

func printable(name string, n int) string {
	s := z.StringIn(name, n, 0x20, 0x7e)
	for i := 0; i < len(s); i++ {
		z.Assume(s[i] != '|')
	}
	return s
}

// fields of a text line: index 0..20
func textField(i int) string {
	switch i {
	case 1:
		return num("fmt", 12)
	case 2:
		return num("icons", 255)
	case 3, 5, 6:
		return printable("s", z.Choice("len", 3))
	case 4:
		return num("hdr", 1)
	case 8:
		return num("pair", 4)
	case 9:
		return num("scale", 3)
	case 14:
		return num("unused", 3)
	case 15, 16:
		return num("font", 255)
	case 17:
		return num("adv", 31)
	case 18:
		return num("inv", 1)
	case 19, 20:
		return num("color", 255)
	}
	return snum("n" + strconv.Itoa(i))
}

var fullLine = []string{"-5", "2", "42", "Ti", "1", "one", "two", "17", "3", "2", "-1", "7", "-3", "9", "", "75", "228", "29", "1", "66", "3"}
var emptyLine = []string{"", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", ""}

// textLine: background with fields a and b arbitrary, cut after n fields.
func textLine(bg []string, sym []int, n int) string {
	f := append([]string(nil), bg...)
	for _, i := range sym {
		f[i] = textField(i)
	}
	return "HWCt#" + num("id", maxU) + "=" + strings.Join(f[:n], "|")
}

func bg() []string {
	if z.Choice("bg", 2) == 1 {
		return fullLine
	}
	return emptyLine
}

// CheckTextOne: one arbitrary field, every cut.
func CheckTextOne() {
	i := z.Choice("field", 21)
	n := i + 1 + z.Choice("cut", 21-i)
	one(textLine(bg(), []int{i}, n), "text line")
}

// CheckTextValue: value, formatting and icons together.
func CheckTextValue() { one(textLine(bg(), []int{0, 1, 2, 4}, 3+z.Choice("cut", 19)), "text value") }

// CheckTextPair: the fields that decide about pairing.
func CheckTextPair() {
	f := []int{1, 6, 8}
	if z.Choice("v2", 2) == 1 {
		f = append(f, 7)
	}
	one(textLine(bg(), f, 9+z.Choice("cut", z.Pick(3, 13))), "text pair")
}

func CheckTextTitle() {
	one(textLine(bg(), []int{1, 3, 4}, 4+z.Choice("cut", z.Pick(4, 18))), "text title")
}

func CheckTextScale() {
	one(textLine(bg(), []int{9, 10, 11, 12, 13}, 10+z.Choice("cut", 12)), "text scale")
}

func CheckTextFonts() { one(textLine(bg(), []int{1, 15, 16, 17}, 16+z.Choice("cut", 6)), "text fonts") }

func CheckTextColors() { one(textLine(bg(), []int{18, 19, 20}, 19+z.Choice("cut", 3)), "text colours") }

// CheckTextPairs: any two fields together.
func CheckTextPairs() {
	i := z.Choice("i", 20)
	j := i + 1 + z.Choice("j", 20-i)
	n := 21
	if z.Thorough() {
		n = j + 1 + z.Choice("cut", 21-j)
	}
	one(textLine(bg(), []int{i, j}, n), "two text fields")
}

// ---- graphics

var kinds = []string{"HWCg", "HWCgRGB", "HWCgGray"}

func b64(name string, n int) string { return base64.StdEncoding.EncodeToString(z.Bytes(name, n)) }

// CheckGfxSimple: the three-line form.
func CheckGfxSimple() {
	k := kinds[z.Choice("kind", 3)] + "#" + ids(2) + "="
	check([]string{k + "0:" + b64("a", 170), k + "1:" + b64("b", z.Pick(85, 170)), k + "2:" + b64("c", 1)}, "simple graphics")
}

// CheckGfxAdvanced: one to four lines, with and without offset, other lines before, between, after.
func CheckGfxAdvanced() {
	k := kinds[z.Choice("kind", 3)] + "#" + ids(2) + "="
	n := z.Choice("n", z.Pick(3, 5)) + 1
	head := "/" + strconv.Itoa(n-1) + "," + num("w", maxU) + "x" + num("h", maxU)
	if z.Choice("off", 2) == 1 {
		head += "," + num("x", maxU) + "," + num("y", maxU)
	}
	at := z.Choice("other", n+2) // position of an unrelated line; n+1: none
	var l []string
	for i := 0; i < n; i++ {
		if i == at {
			l = append(l, other())
		}
		l = append(l, k+strconv.Itoa(i)+head+":"+b64("d"+strconv.Itoa(i), z.Choice("len", 2)*4+1))
		head = ""
	}
	if at == n {
		l = append(l, other())
	}
	check(l, "advanced graphics")
}

func other() string {
	switch z.Choice("otherkind", 5) {
	case 0:
		return "HWC#" + num("oid", maxU) + "=" + num("ov", maxI)
	case 1:
		return "HWCt#1=5|1||T"
	case 2:
		return "ping"
	case 3:
		return ""
	}
	return "MemA=" + num("ov", maxU)
}

// CheckGfxTwice: two complete transfers after each other.
func CheckGfxTwice() {
	var l []string
	for _, t := range []string{"a", "b"} {
		k := kinds[z.Choice("kind"+t, 3)] + "#" + num("id"+t, maxU) + "="
		if z.Choice("form"+t, 2) == 0 {
			l = append(l, k+"0/1,8x"+num("h"+t, 255)+":"+b64("p"+t, 3), k+"1:"+b64("q"+t, 2))
		} else {
			l = append(l, k+"0:"+b64("p"+t, 3), k+"1:"+b64("q"+t, 2), k+"2:"+b64("r"+t, 2))
		}
	}
	check(l, "two transfers")
}

// ---- strings, registers, JSON

func CheckStrings() {
	s := z.StringIn("s", z.Choice("n", z.Pick(4, 8)), 0x20, 0x7e)
	one("SetCalibrationProfile="+s, "calibration profile")
}

func CheckHealth() {
	one("SimulateEnvironmentalHealth="+[]string{"Normal", "Safemode", "Blocked"}[z.Choice("w", 3)], "health")
}

func CheckNetwork() {
	f := []string{`"dhcp":true`, `"address":"` + z.StringIn("a", 3, '.', '9') + `"`, `"netmask":"255.255.255.0"`, `"gateway":"10.0.0.1"`, `"first_dns":"1.1.1.1"`, `"second_dns":"2.2.2.2"`, `"no_default_route":true`}
	skip := z.Choice("skip", 8)
	var l []string
	for i, x := range f {
		if i != skip {
			l = append(l, x)
		}
	}
	one("SetNetworkConfig={"+strings.Join(l, ",")+"}", "network config")
}

func regId(name string, n int) string {
	s := z.StringIn(name, n, '0', 'Z')
	for i := 0; i < len(s); i++ {
		z.Assume(s[i] <= '9' || s[i] >= 'A')
	}
	return s
}

func CheckRegisters() {
	k := z.Choice("k", 4)
	kw := []string{"Mem", "Flag#", "Shift", "State"}[k]
	id := ""
	if k == 1 {
		id = num("flag", maxI)
	} else {
		id = regId("id", z.Choice("n", 4))
	}
	one(kw+id+"="+num("v", maxU), "register")
}

// jsonPart is one part of a JSON state and the effect it has on component id.
func jsonPart(id int) (string, spec.Effect) {
	n := func(name string, max int) (string, int) {
		v := z.Int(name, 0, max)
		return strconv.Itoa(v), v
	}
	switch z.Choice("part", 10) {
	case 6:
		r, rv := n("red", 255)
		g, gv := n("green", 255)
		b, bv := n("blue", 255)
		return `"HWCColor":{"ColorRGB":{"Red":` + r + `,"Green":` + g + `,"Blue":` + b + `}}`, spec.Effect{Kind: "color.rgb", Id: id, N: []int{rv * 3 / 255, gv * 3 / 255, bv * 3 / 255}}
	case 7:
		x, xv := n("x", maxU)
		y, yv := n("y", maxU)
		k, kv := n("type", 2)
		return `"HWCGfx":{"W":3,"H":4,"XYoffset":true,"ImageType":` + k + `,"X":` + x + `,"Y":` + y + `,"ImageData":"AAEC"}`,
			spec.Effect{Kind: "gfx", Id: id, N: []int{kv, 3, 4, 1, xv, yv}, S: []string{"\x00\x01\x02"}}
	case 8:
		v, vv := n("v", maxI)
		f, fv := n("fmt", 6)
		ll, lv := n("limit", maxI)
		c, cv := n("index", 31)
		return `"HWCText":{"IntegerValue":` + v + `,"Formatting":` + f + `,"StateIcon":2,"ModifierIcon":5,"Title":"T\u00e6 |","SolidHeaderBar":true,"Textline1":"one","Textline2":"two","IntegerValue2":-3,"PairMode":2,` +
				`"Scale":{"ScaleType":1,"RangeLow":-1,"RangeHigh":2,"LimitLow":-` + ll + `,"LimitHigh":4},"TextStyling":{"TitleFont":{"FontFace":3,"TextWidth":1,"TextHeight":2},"TextFont":{"FontFace":1,"TextWidth":3,"TextHeight":1},"FixedWidth":true,"TitleBarPadding":2,"ExtraCharacterSpacing":3},` +
				`"Inverted":true,"PixelColor":{"ColorIndex":{"Index":` + c + `}},"BackgroundColor":{"ColorRGB":{"Red":255,"Green":85,"Blue":170}}}`,
			spec.Effect{Kind: "text", Id: id, N: []int{fv, vv, 0, 2, 5, 1, -3, 2, 1, -1, 2, -lv, 4, 1, 3, 1, 3, 1, 2, 1, 2, 3, 1, cv, 0x40 | 3<<4 | 1<<2 | 2}, S: []string{"T\u00e6 |", "one", "two"}}
	case 9:
		w, wv := n("w", maxU)
		b, bv := n("border", maxU)
		return `"Processors":{"TextToGraphics":{"W":` + w + `,"H":5,"Border":` + b + `,"Shrink":7}}`, spec.Effect{Kind: "proc.t2g", Id: id, N: []int{wv, 5, bv, 7}}
	case 0:
		a, av := n("state", 5)
		b, bv := n("blink", 15)
		return `"HWCMode":{"State":` + a + `,"Output":true,"BlinkPattern":` + b + `}`, spec.Effect{Kind: "mode", Id: id, N: []int{av, 1, bv}}
	case 1:
		a, av := n("index", 31)
		return `"HWCColor":{"ColorIndex":{"Index":` + a + `}}`, spec.Effect{Kind: "color.index", Id: id, N: []int{av}}
	case 2:
		a, av := n("interp", 15)
		b, bv := n("value", 4095)
		return `"HWCExtended":{"Interpretation":` + a + `,"Value":` + b + `}`, spec.Effect{Kind: "ext", Id: id, N: []int{av, bv}}
	case 3:
		return `"PublishRawADCValues":{"Enabled":true}`, spec.Effect{Kind: "adc", Id: id, N: []int{1}}
	case 4:
		a, av := n("w", maxU)
		b, bv := n("h", maxU)
		d := z.Bytes("img", 2)
		return `"HWCGfx":{"W":` + a + `,"H":` + b + `,"ImageData":"` + base64.StdEncoding.EncodeToString(d) + `"}`,
			spec.Effect{Kind: "gfx", Id: id, N: []int{0, av, bv, 0, 0, 0}, S: []string{string(d)}}
	}
	a, av := n("w", maxU)
	b, bv := n("h", maxU)
	return `"Processors":{"Test":{"W":` + a + `,"H":` + b + `}}`, spec.Effect{Kind: "proc.test", Id: id, N: []int{av, bv}}
}

// CheckJSON: a state, or an array of messages, as JSON, between two ordinary lines.
func CheckJSON() {
	ida, idb := z.Int("ida", 0, maxU), z.Int("idb", 0, maxU)
	body, e := jsonPart(ida)
	e2 := e
	e2.Id = idb
	st := `{"HWCIDs":[` + strconv.Itoa(ida) + `,` + strconv.Itoa(idb) + `],` + body + `}`
	want := []spec.Effect{{Kind: "ping"}, e, e2, {Kind: "ack"}}
	line := st
	switch z.Choice("form", 3) {
	case 1:
		line = `[{"States":[` + st + `]}]`
	case 2:
		line = `[{"Command":{"ClearAll":true}},{"States":[` + st + `]},{"FlowMessage":1}]`
		want = []spec.Effect{{Kind: "ping"}, {Kind: "ClearAll"}, e, e2, {Kind: "ping"}, {Kind: "ack"}}
	}
	lines := []string{"ping", line, "ack"}
	msgs := rp.RawPanelASCIIstringsToInboundMessages(lines)
	for _, m := range msgs {
		z.Assert(m != nil, "json: nil message")
	}
	spec.SameSeq(spec.InboundEffects(msgs, false), want, "json")
}

// ---- sequences

func anyLine(t string) string {
	switch z.Choice("class"+t, 10) {
	case 0:
		return spec.InboundWords[z.Choice("w"+t, 3)*6]
	case 1:
		return "HWC#" + num("id"+t, maxU) + "=" + num("v"+t, maxI)
	case 2:
		return "HWCc#" + num("id"+t, maxU) + "," + num("id"+t, maxU) + "=" + num("v"+t, 255)
	case 3:
		return "HWCx#" + num("id"+t, maxU) + "=" + num("v"+t, maxI)
	case 4:
		return "HWCt#" + num("id"+t, maxU) + "=" + snum("v"+t) + "|" + num("f"+t, 6) + "||T|1|a"
	case 5:
		return "SleepTimer=" + num("v"+t, maxU)
	case 6:
		return "PanelBrightness=" + num("v"+t, maxU)
	case 7:
		return "StateX=" + num("v"+t, maxU)
	case 8:
		return "HWCg#" + num("id"+t, maxU) + "=0/0,8x8:" + b64("img"+t, 4)
	}
	return ""
}

// CheckSequence: effects come one per line, in line order.
func CheckSequence() {
	l := []string{anyLine("a"), anyLine("b")}
	if z.Thorough() {
		l = append(l, anyLine("c"))
	}
	check(l, "sequence")
}

// ---- keywords outside the grammar

func unknown(line string) {
	z.Assume(!spec.InboundKnown(line))
	z.Observe("line", line)
	msgs := rp.RawPanelASCIIstringsToInboundMessages([]string{line})
	z.Assert(len(spec.InboundEffects(msgs, false)) == 0, "a line outside the grammar has an effect")
	for _, m := range msgs {
		z.Assert(m == nil || m.Command == nil && len(m.States) == 0 && len(m.Registers) == 0, "a line outside the grammar has an effect")
	}
}

func notNL(s string) string {
	for i := 0; i < len(s); i++ {
		z.Assume(s[i] != '\n')
	}
	return s
}

// CheckUnknownAny: any short string at all.
func CheckUnknownAny() { unknown(notNL(z.String("s", z.Choice("n", z.Pick(6, 9))))) }

var samples = map[string]string{
	"HWC#": "5=4", "HWCx#": "5=4", "HWCc#": "5=130", "HWCt#": "5=4|1", "HWCrawADCValues#": "5=1",
	"HWCg#": "5=0/0,8x8:AAAA", "HWCgRGB#": "5=0/0,8x8:AAAA", "HWCgGray#": "5=0/0,8x8:AAAA", "Flag#": "5=1",
	"SetCalibrationProfile=": "{}", "SimulateEnvironmentalHealth=": "Normal", "SetNetworkConfig=": "{}",
}

func sample(i int) (kw, rest string) {
	switch {
	case i < len(spec.InboundKeywords):
		kw = spec.InboundKeywords[i]
		if rest = samples[kw]; rest == "" {
			rest = "7"
		}
	case i < len(spec.InboundKeywords)+len(spec.InboundWords):
		kw = spec.InboundWords[i-len(spec.InboundKeywords)]
	default:
		kw = spec.InboundRegisterWords[i-len(spec.InboundKeywords)-len(spec.InboundWords)]
		rest = "A=5"
	}
	return
}

var nSamples = len(spec.InboundKeywords) + len(spec.InboundWords) + len(spec.InboundRegisterWords)

// CheckUnknownMutated: a correct line whose keyword has one byte replaced.
func CheckUnknownMutated() {
	kw, rest := sample(z.Choice("kw", nSamples))
	i := z.Choice("pos", len(kw))
	unknown(notNL(kw[:i] + z.String("b", 1) + kw[i+1:] + rest))
}

// CheckUnknownEdited: a byte added to or removed from the keyword.
func CheckUnknownEdited() {
	kw, rest := sample(z.Choice("kw", nSamples))
	i := z.Choice("pos", len(kw)+1)
	if z.Choice("del", 2) == 1 {
		if i < len(kw) {
			unknown(kw[:i] + kw[i+1:] + rest)
		}
		return
	}
	unknown(notNL(kw[:i] + z.String("b", z.Pick(1, 2)) + kw[i:] + rest))
}

// ---- longer and wider

// CheckWide: packed integers over more than their 16 bits, with signs and bits no field uses.
func CheckWide() {
	kw := []string{"HWC", "HWCx", "HWCc"}[z.Choice("kw", 3)]
	one(kw+"#"+num("id", maxU)+"="+num("v", maxU), kw+" wide")
}

// CheckTextLong: a text of realistic and of excessive length, any bytes but the separator and control characters.
func CheckTextLong() {
	f := append([]string(nil), bg()...)
	n := []int{3, 16, 24, 25, 26, 33, 64, 128, 256, 1000}[z.Choice("len", 10)]
	top := byte(0xff)
	if n > 30 {
		top = 0x7e
	}
	s := z.StringIn("text", n, 0x20, top)
	for i := 0; i < len(s); i++ {
		z.Assume(s[i] != '|' && s[i] != 0x7f)
	}
	f[[]int{3, 5, 6}[z.Choice("field", 3)]] = s
	one("HWCt#5="+strings.Join(f, "|"), "long text")
}

// CheckTextAll: all numeric fields at once.
func CheckTextAll() {
	f := append([]string(nil), fullLine...)
	for i := range f {
		if i != 3 && i != 5 && i != 6 {
			f[i] = textField(i)
		}
	}
	one("HWCt#"+num("id", maxU)+"="+strings.Join(f, "|"), "whole text line")
}

// CheckManyIds: a list of twenty components.
func CheckManyIds() {
	n := z.Pick(20, 40)
	l := make([]string, n)
	for i := range l {
		l[i] = strconv.Itoa(1000 + 37*i)
	}
	l[z.Choice("at", 3)*(n-1)/2] = num("id", maxU)
	kw := []string{"HWC#", "HWCx#", "HWCc#", "HWCt#", "HWCrawADCValues#", "HWCg#"}[z.Choice("kw", 6)]
	one(kw+strings.Join(l, ",")+"="+[]string{"36", "36", "36", "36|1||T", "1", "0/0,8x1:AA=="}[z.Choice("v", 6)], "many components")
}

// CheckGfxLong: transfers of ten, eleven and more parts, with a few arbitrary bytes, the size arbitrary.
func CheckGfxLong() {
	n := []int{9, 10, 11, 12, 100, 101}[z.Choice("n", z.Pick(4, 6))]
	k := kinds[z.Choice("kind", 3)] + "#" + num("id", maxU) + "="
	var l []string
	for i := 0; i < n; i++ {
		s := k + strconv.Itoa(i)
		if i == 0 {
			s += "/" + strconv.Itoa(n-1) + "," + num("w", maxU) + "x" + num("h", maxU)
		}
		d := make([]byte, 5)
		for j := range d {
			d[j] = byte(i*31 + j)
		}
		if i%8 == 1 || i == n-1 {
			copy(d, z.Bytes("d"+strconv.Itoa(i), 2))
		}
		l = append(l, s+":"+base64.StdEncoding.EncodeToString(d))
	}
	check(l, "long graphics")
}

// CheckBatch: thirty lines of all kinds in one call, two of them arbitrary.
func CheckBatch() {
	base := []string{"ping", "HWC#3=36", "HWCx#4=8200", "HWCc#5=131", "HWCt#6=12|1||Title|1|A|B|5|2", "list", "Clear", "HWCg#7=0/1,8x8:AAAAAA==", "HWCc#7=4", "HWCg#7=1://///w==",
		"MemA=5", "Flag#3=1", "ShiftB=2", "State=9", "PanelBrightness=3,4", "SleepTimer=60000", "HWCrawADCValues#9=1", "SetCalibrationProfile={\"a\":1}", "HWCgRGB#1=0:AAAA", "HWCgRGB#1=1:AAAA", "HWCgRGB#1=2:AA==", ""}
	n := z.Pick(22, 44)
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, base[i%len(base)])
	}
	at := z.Choice("at", 3) * (n - 1) / 2
	l = append(l[:at], append([]string{anyLine("a")}, l[at:]...)...)
	l = append(l, anyLine("b"))
	check(l, "batch")
}

// CheckUnknownBetween: a line outside the grammar between lines of it changes nothing of what they do.
func CheckUnknownBetween() {
	kw, rest := sample(z.Choice("kw", nSamples))
	i := z.Choice("pos", len(kw))
	u := notNL(kw[:i] + z.String("b", 1) + kw[i+1:] + rest)
	z.Assume(!spec.InboundKnown(strings.TrimSpace(u))) // the reader strips blanks around a line
	z.Assume(!spec.InboundKnown(u))
	z.Observe("line", u)
	var a, b string
	switch z.Choice("around", 3) {
	case 0:
		a, b = "HWC#3=36", "ping"
	case 1:
		a, b = "HWCg#5=0/1,8x8:AAAA", "HWCg#5=1:AAAA"
	case 2:
		a, b = "MemA=5", "HWCt#6=12|1||Title"
	}
	want := spec.DecodeInbound([]string{a, b})
	spec.SameSeq(spec.InboundEffects(rp.RawPanelASCIIstringsToInboundMessages([]string{a, u, b}), true), want, "around an unknown line")
	r := &rp.ASCIIreader{}
	var got []spec.Effect
	for _, l := range []string{a, u, b} {
		got = append(got, spec.InboundEffects(r.Parse(l), true)...)
	}
	spec.SameSeq(got, want, "around an unknown line (reader)")
}
