// Package c04: a panel's well-formed lines decode to exactly the events and information the
// independent grammar in spec gives them.
package c04

import (
	"strconv"
	"strings"

	rp "github.com/SKAARHOJ/rawpanel-lib"
	"github.com/SKAARHOJ/rawpanel-lib/zzverif/spec"
	z "github.com/SKAARHOJ/rawpanel-lib/zzverif/zzsym"
)

const Harness = "c04"

const maxU = 0xFFFFFFFF
const maxI = 1<<31 - 1

func check(lines []string, what string) {
	z.Observe("lines", lines)
	want := spec.DecodeOutbound(lines, true)
	for _, e := range want {
		z.Assert(e.Kind != "malformed", what+": harness generated a malformed line")
	}
	msgs := rp.RawPanelASCIIstringsToOutboundMessages(lines)
	for _, m := range msgs {
		z.Assert(m != nil, what+": nil message")
	}
	spec.SameSeq(spec.OutboundEffects(msgs, true), want, what)
}

func one(line, what string) { check([]string{line}, what) }

func num(name string, max int) string { return strconv.Itoa(z.Int(name, 0, max)) }
func snum(name string) string         { return strconv.Itoa(int(z.Int32(name, -1<<31, maxI))) }

func CheckWords() { one(spec.OutboundWords[z.Choice("w", len(spec.OutboundWords))], "word") }

// ---- events

var edges = []string{"", ".1", ".2", ".4", ".8", ".16"}

func event(t string) string {
	id := "HWC#" + num("id"+t, maxU)
	switch z.Choice("kind"+t, 7) {
	case 0:
		return id + edges[z.Choice("edge"+t, len(edges))] + "=Down"
	case 1:
		return id + edges[z.Choice("edge"+t, len(edges))] + "=Up"
	case 2:
		return id + edges[z.Choice("edge"+t, len(edges))] + "=Press"
	case 3:
		return id + "=Enc:" + snum("v"+t)
	case 4:
		return id + "=Abs:" + num("v"+t, maxU)
	case 5:
		return id + "=Speed:" + snum("v"+t)
	}
	return id + "=Raw:" + num("v"+t, maxU)
}

func CheckEvent() { one(event(""), "event") }

// CheckEdgeNumber: the edge as a number.
func CheckEdgeNumber() {
	one("HWC#"+num("id", maxU)+"."+num("edge", 16)+"="+[]string{"Down", "Up", "Press"}[z.Choice("kind", 3)], "edge")
}

// CheckEventZeros: leading zeros in id, edge and value.
func CheckEventZeros() {
	switch z.Choice("k", 3) {
	case 0:
		one("HWC#00"+num("id", 999)+".0"+num("edge", 9)+"=Down", "leading zeros")
	case 1:
		one("HWC#0"+num("id", 999)+"=Abs:000"+num("v", 9999), "leading zeros")
	case 2:
		one("HWC#0"+num("id", 999)+"=Enc:-0"+num("v", 99), "leading zeros")
	}
}

func CheckEvents() {
	var l []string
	for i, n := 0, z.Pick(2, 3); i < n; i++ {
		l = append(l, event(strconv.Itoa(i)))
	}
	check(l, "events")
}

// ---- information

func CheckMap() { one("map="+num("k", maxU)+":"+num("v", maxU), "map") }

func CheckMaps() {
	k := num("k", maxU)
	check([]string{"map=" + k + ":" + num("v1", maxU), "map=" + k + ":" + num("v2", maxU), "map=" + num("k3", maxU) + ":" + num("v3", maxU)}, "maps")
}

var numbers = []string{"_bluePillReady", "_isSleeping", "_sleepTimer", "_heartBeatTimer", "DimmedGain", "_serverModeMaxClients", "_bootsCount",
	"_totalUptimeMin", "_sessionUptimeMin", "_screenSaverOnMin"}

func CheckNumbers() { one(numbers[z.Choice("k", len(numbers))]+"="+num("v", maxU), "number") }

var texts = []string{"_model", "_serial", "_version", "_platform", "_name", "_panelTopology_svgbase", "_panelTopology_HWC", "_burninProfile",
	"_calibrationProfile", "_defaultCalibrationProfile", "ErrorMsg", "Msg"}

// payload is a non-empty text without blanks at its ends.
func payload(name string, n int) string {
	s := z.StringIn(name, n, 0x20, 0x7e)
	z.Assume(s[0] != ' ' && s[n-1] != ' ')
	return s
}

func CheckTexts() {
	one(texts[z.Choice("k", len(texts))]+"="+payload("s", 1+z.Choice("n", z.Pick(8, 24))), "text")
}

// CheckTextsHigh: with bytes outside ASCII.
func CheckTextsHigh() {
	k := texts[z.Choice("k", len(texts))] + "="
	switch z.Choice("form", 3) {
	case 0:
		one(k+"K\u00fcche "+payload("s", 2), "text")
	case 1:
		one(k+payload("s", 1)+"\u20ac"+payload("t", 1), "text")
	case 2:
		one(k+payload("s", 2)+"=\u65e5\u672c", "text")
	}
}

var lists = []string{"_serverModeLockToIP", "_connections"}

func CheckLists() {
	k := lists[z.Choice("k", 2)]
	var items []string
	for i, n := 0, 1+z.Choice("n", z.Pick(3, 5)); i < n; i++ {
		s := z.StringIn("i"+strconv.Itoa(i), 1+z.Choice("len", z.Pick(2, 3)), 0x21, 0x7e)
		for j := 0; j < len(s); j++ {
			z.Assume(s[j] != ';')
		}
		items = append(items, s)
	}
	one(k+"="+strings.Join(items, []string{";", "; ", " ; "}[z.Choice("sep", 3)]), "list")
}

func CheckPanelType() { one("_panelType="+spec.PanelTypes[z.Choice("t", 5)], "panel type") }

// CheckSupport: every subset of the capabilities, in the usual order.
func CheckSupport() {
	var l []string
	for _, w := range spec.SupportWords {
		if z.Choice(w, 2) == 1 {
			l = append(l, w)
		}
	}
	if len(l) == 0 {
		return
	}
	one("_support="+strings.Join(l, ","), "support")
}

// CheckSupportOrder: three capabilities in any order, with a word no version of the grammar has.
func CheckSupportOrder() {
	n := len(spec.SupportWords)
	l := []string{spec.SupportWords[z.Choice("a", n)], spec.SupportWords[z.Choice("b", n)], spec.SupportWords[z.Choice("c", n)]}
	if z.Choice("other", 2) == 1 {
		l = append(l, z.StringIn("x", 4, 'a', 'z'))
	}
	one("_support="+strings.Join(l, ","), "support")
}

func CheckHealth() {
	one("EnvironmentalHealth="+[]string{"Normal", "Safemode", "Blocked"}[z.Choice("w", 3)], "health")
}

func CheckNetwork() {
	f := []string{`"dhcp":true`, `"address":"` + z.StringIn("a", 3, '.', '9') + `"`, `"netmask":"255.255.255.0"`, `"gateway":"10.0.0.1"`,
		`"first_dns":"1.1.1.1"`, `"second_dns":"2.2.2.2"`, `"no_default_route":true`}
	skip := z.Choice("skip", 8)
	var l []string
	for i, x := range f {
		if i != skip {
			l = append(l, x)
		}
	}
	one("_networkConfig={"+strings.Join(l, ",")+"}", "network config")
}

func statValue(i int) string {
	switch spec.SysStatKeys[i].Class {
	case '1':
		return []string{"", "-"}[z.Choice("sign", 2)] + num("whole", 999) + "." + num("frac", 9)
	case '2':
		return num("whole", 99) + "." + num("frac", 9) + num("frac2", 9)
	case 'b':
		return num("flag", 1)
	}
	if i == 0 {
		return num("v", maxU)
	}
	return snum("v")
}

// CheckSysStatOne: one statistic.
func CheckSysStatOne() {
	i := z.Choice("i", len(spec.SysStatKeys))
	one("SysStat="+spec.SysStatKeys[i].Name+":"+statValue(i)+[]string{"", ":"}[z.Choice("end", 2)], "statistic")
}

// CheckSysStatTwo: two statistics in any order.
func CheckSysStatTwo() {
	i, j := z.Choice("i", len(spec.SysStatKeys)), z.Choice("j", len(spec.SysStatKeys))
	if i == j {
		return
	}
	one("SysStat="+spec.SysStatKeys[i].Name+":"+statValue(i)+":"+spec.SysStatKeys[j].Name+":"+statValue(j)+":", "two statistics")
}

// CheckSysStatAll: the line a panel of this library writes.
func CheckSysStatAll() {
	var l []string
	for _, k := range spec.SysStatKeys {
		v := ""
		switch k.Class {
		case '1':
			v = num(k.Name, 99) + ".5"
		case '2':
			v = "1.25"
		case 'b':
			v = num(k.Name, 1)
		default:
			v = num(k.Name, maxI)
		}
		l = append(l, k.Name, v)
	}
	one("SysStat="+strings.Join(l, ":")+":", "statistics")
}

func regId(name string, n int) string {
	s := z.StringIn(name, n, '0', 'Z')
	for i := 0; i < len(s); i++ {
		z.Assume(s[i] <= '9' || s[i] >= 'A')
	}
	return s
}

func CheckRegisters() {
	k := z.Choice("k", 4)
	kw := []string{"Mem", "Flag#", "Shift", "State"}[k]
	id := ""
	if k == 1 {
		id = num("flag", maxI)
	} else {
		id = regId("id", z.Choice("n", z.Pick(4, 8)))
	}
	one(kw+id+"="+num("v", maxU), "register")
}

// ---- sequences

func anyLine(t string) string {
	switch z.Choice("class"+t, 12) {
	case 0:
		return spec.OutboundWords[z.Choice("w"+t, 6)]
	case 1:
		return "HWC#" + num("id"+t, maxU) + "=Press"
	case 2:
		return "HWC#" + num("id"+t, maxU) + ".4=Up"
	case 3:
		return "HWC#" + num("id"+t, maxU) + "=Speed:" + snum("v"+t)
	case 4:
		return "map=" + num("id"+t, maxU) + ":" + num("v"+t, maxU)
	case 5:
		return "_name=" + payload("name"+t, 3)
	case 6:
		return "_support=ASCII,System"
	case 7:
		return "_connections=" + "a;b"
	case 8:
		return "SysStat=CPUUsage:" + num("v"+t, 100) + ":"
	case 9:
		return "State" + regId("reg"+t, 1) + "=" + num("v"+t, maxU)
	case 10:
		return "_isSleeping=" + num("v"+t, 1)
	}
	return ""
}

func CheckSequence() {
	l := []string{anyLine("a"), anyLine("b"), anyLine("c")}
	if z.Thorough() {
		l = append(l, anyLine("d"))
	}
	check(l, "sequence")
}

// ---- keywords outside the grammar

func unknown(line string) {
	z.Assume(!spec.OutboundKnown(line))
	z.Observe("line", line)
	msgs := rp.RawPanelASCIIstringsToOutboundMessages([]string{line})
	for _, m := range msgs {
		z.Assert(m != nil, "nil message")
	}
	z.Assert(len(spec.OutboundEffects(msgs, true)) == 0, "a line outside the grammar reports something")
	for _, m := range msgs {
		z.Assert(m.PanelInfo == nil && m.PanelTopology == nil && m.BurninProfile == nil && m.CalibrationProfile == nil && m.DefaultCalibrationProfile == nil &&
			m.RunTimeStats == nil && m.ErrorMessage == nil && m.Message == nil, "a line outside the grammar reports something")
	}
}

func notNL(s string) string {
	for i := 0; i < len(s); i++ {
		z.Assume(s[i] != '\n')
	}
	return s
}

// CheckUnknownAny: any short string at all.
func CheckUnknownAny() { unknown(notNL(z.String("s", z.Choice("n", z.Pick(7, 10))))) }

var samples = map[string]string{
	"HWC#": "5=Down", "Flag#": "5=1", "Mem": "A=5", "Shift": "A=5", "State": "A=5", "map=": "5:1", "_panelType=": "BPI", "_support=": "ASCII",
	"EnvironmentalHealth=": "Normal", "_networkConfig=": "{}", "SysStat=": "CPUUsage:5:",
}

var keywords = func() []string {
	r := append([]string{"HWC#", "Flag#", "Mem", "Shift", "State"}, spec.OutboundWords...)
	for _, k := range spec.OutboundKeys {
		r = append(r, k+"=")
	}
	return r
}()

func sample() (kw, rest string) {
	kw = keywords[z.Choice("kw", len(keywords))]
	rest = samples[kw]
	if rest == "" && strings.HasSuffix(kw, "=") {
		rest = "7"
	}
	return
}

// CheckUnknownMutated: a correct line whose keyword has one byte replaced.
func CheckUnknownMutated() {
	kw, rest := sample()
	i := z.Choice("pos", len(kw))
	unknown(notNL(kw[:i] + z.String("b", 1) + kw[i+1:] + rest))
}

// CheckUnknownEdited: bytes added to or removed from the keyword.
func CheckUnknownEdited() {
	kw, rest := sample()
	i := z.Choice("pos", len(kw)+1)
	if z.Choice("del", 2) == 1 {
		if i < len(kw) {
			unknown(kw[:i] + kw[i+1:] + rest)
		}
		return
	}
	unknown(notNL(kw[:i] + z.String("b", z.Pick(1, 2)) + kw[i:] + rest))
}

// CheckUnknownInbound: keywords only the other direction has.
func CheckUnknownInbound() {
	var l []string
	l = append(l, spec.InboundKeywords...)
	l = append(l, spec.InboundWords...)
	kw := l[z.Choice("kw", len(l))]
	rest := "1=5"
	if strings.HasSuffix(kw, "=") || !strings.HasSuffix(kw, "#") {
		rest = num("v", 99)
	}
	unknown(kw + rest)
}

// ---- longer and wider

// CheckLong: every text with 17 and more characters, the inner ones any bytes but control characters.
func CheckLong() {
	n := []int{17, 24, 32, 33, 64, 128, 256, 1000}[z.Choice("len", 8)]
	top := byte(0xff)
	if n > 40 {
		top = 0x7e
	}
	s := z.StringIn("s", n, 0x20, top)
	for i := 0; i < n; i++ {
		z.Assume(s[i] != 0x7f)
	}
	z.Assume(s[0] > ' ' && s[0] < 0x7f && s[n-1] > ' ' && s[n-1] < 0x7f)
	one(texts[z.Choice("k", len(texts))]+"="+s, "long text")
}

// CheckListsLong: twenty entries, one of them arbitrary.
func CheckListsLong() {
	n := []int{1, 2, 20}[z.Choice("n", 3)]
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, "192.168.10."+strconv.Itoa(i)+":9923")
	}
	s := z.StringIn("s", []int{1, 15, 40}[z.Choice("len", 3)], 0x21, 0x7e)
	for j := 0; j < len(s); j++ {
		z.Assume(s[j] != ';')
	}
	l[z.Choice("at", n)] = s
	one(lists[z.Choice("k", 2)]+"="+strings.Join(l, ";"), "long list")
}

// CheckMany: forty lines of all kinds in one call, two of them arbitrary.
func CheckMany() {
	base := []string{"ping", "HWC#3=Press", "HWC#4.8=Down", "HWC#5=Enc:-3", "HWC#6=Abs:500", "HWC#7=Speed:-250", "HWC#8=Raw:4000", "map=3:4", "_model=SK_A", "_serial=1", "_isSleeping=1",
		"_support=ASCII,Binary", "_connections=a;b", "SysStat=CPUUsage:5:CPUTemp:45.5:Throttled:1:", "EnvironmentalHealth=Safemode", "MemA=5", "Flag#3=1", "ShiftB=2", "State=9", "RDY", "ErrorMsg=e", ""}
	n := z.Pick(22, 44)
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, base[i%len(base)])
	}
	at := z.Choice("at", 3) * (n - 1) / 2
	l = append(l[:at], append([]string{anyLine("a")}, l[at:]...)...)
	l = append(l, anyLine("b"))
	check(l, "many lines")
}

// CheckPresses: presses before, between and after other events of the same and another component.
func CheckPresses() {
	id := num("id", maxU)
	e := edges[z.Choice("edge", len(edges))]
	l := []string{"HWC#" + id + e + "=Press", "HWC#" + id + e + "=" + []string{"Down", "Up", "Press"}[z.Choice("mid", 3)], "HWC#" + num("other", maxU) + "=Press"}
	if z.Choice("map", 2) == 1 {
		l = append(l[:1], append([]string{"map=1:2", "ping"}, l[1:]...)...)
	}
	check(l, "presses")
}

// CheckSupportReverse: every subset of the capabilities, in reverse order, some of them twice.
func CheckSupportReverse() {
	var l []string
	for i := len(spec.SupportWords) - 1; i >= 0; i-- {
		w := spec.SupportWords[i]
		switch z.Choice(w, 2) {
		case 1:
			l = append(l, w)
			if i%3 == 0 {
				l = append([]string{w}, l...)
			}
		}
	}
	if len(l) > 0 {
		one("_support="+strings.Join(l, ","), "support")
	}
}

// CheckSysStatSubset: any run of statistics from the full line, forwards or backwards, others before them.
func CheckSysStatSubset() {
	n := len(spec.SysStatKeys)
	from := z.Choice("from", n)
	to := from + 1 + z.Choice("len", n-from)
	back := z.Choice("back", 2) == 1
	var l []string
	for i := from; i < to; i++ {
		k := spec.SysStatKeys[i]
		v := ""
		switch k.Class {
		case '1':
			v = "-" + num(k.Name, 99) + ".5"
		case '2':
			v = "0.07"
		case 'b':
			v = num(k.Name, 1)
		default:
			v = num(k.Name, maxI)
		}
		if back {
			l = append([]string{k.Name, v}, l...)
		} else {
			l = append(l, k.Name, v)
		}
	}
	one("SysStat="+strings.Join(l, ":")+[]string{"", ":"}[z.Choice("end", 2)], "statistics")
}

// CheckUnknownBetween: a line outside the grammar between lines of it changes nothing of what they report.
func CheckUnknownBetween() {
	kw, rest := sample()
	i := z.Choice("pos", len(kw))
	u := notNL(kw[:i] + z.String("b", 1) + kw[i+1:] + rest)
	z.Assume(!spec.OutboundKnown(u))
	z.Observe("line", u)
	l := [][]string{{"HWC#3=Press", u, "ping"}, {"map=1:2", u, "map=3:4"}, {"SysStat=CPUUsage:5:", u, "MemA=5"}}[z.Choice("around", 3)]
	want := spec.DecodeOutbound([]string{l[0], l[2]}, true)
	spec.SameSeq(spec.OutboundEffects(rp.RawPanelASCIIstringsToOutboundMessages(l), true), want, "around an unknown line")
}
