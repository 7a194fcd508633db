// Package c07: every produced string is one line, and flattening keeps all content.
package c07

import (
	"strings"

	rp "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	z "github.com/SKAARHOJ/rawpanel-lib/zzverif/zzsym"
)

const Harness = "c07"

const maxU = 0xFFFFFFFF

// framed writes the strings as a stream, cuts it at line feeds and expects the same strings.
func framed(ls []string) []string {
	for _, l := range ls {
		z.Assert(!strings.Contains(l, "\n"), "a produced string contains a line feed")
	}
	return ls
}

func in(m ...*rwp.InboundMessage) []string {
	ls := rp.InboundMessagesToRawPanelASCIIstrings(m)
	z.Observe("lines", ls)
	return framed(ls)
}

func out(m ...*rwp.OutboundMessage) []string {
	ls := rp.OutboundMessagesToRawPanelASCIIstrings(m)
	z.Observe("lines", ls)
	return framed(ls)
}

// ---- no line feeds, whatever the texts are

// any is 0..n arbitrary bytes.
func any(name string, n int) string { return z.String(name, z.Choice(name+".len", n+1)) }

func number(t *rwp.HWCText) {
	t.IntegerValue, t.Formatting = z.Int32("iv", -1<<31, 1<<31-1), rwp.HWCText_FormattingE(z.Int32("fmt", 0, 12))
}

// CheckTextLines: titles and text lines of arbitrary bytes.
func CheckTextLines() {
	t := &rwp.HWCText{Formatting: rwp.HWCText_FormattingE(z.Int32("fmt", 0, 12))}
	n := z.Pick(3, 5)
	switch z.Choice("field", 4) {
	case 0:
		t.Title = any("title", n)
	case 1:
		t.Textline1 = any("l1", n)
	case 2:
		t.Textline2 = any("l2", n)
	case 3:
		t.Title, t.Textline1, t.Textline2 = z.String("title", 1), z.String("l1", 1), z.String("l2", 1)
	}
	ls := in(&rwp.InboundMessage{States: []*rwp.HWCState{{HWCIDs: []uint32{z.Uint32("id", 0, maxU), 7}, HWCText: t}}})
	z.Assert(len(ls)%2 == 0, "one line per id")
}

// CheckRegisterIds: register names of arbitrary bytes, both ways.
func CheckRegisterIds() {
	r := []*rwp.Register{{Reg: rwp.Register_RegisterE(z.Choice("kind", 4)), Id: any("id", z.Pick(3, 5)), Value: z.Uint32("v", 0, maxU)}}
	in(&rwp.InboundMessage{Registers: r})
	out(&rwp.OutboundMessage{Registers: r})
}

// CheckIdentity: identity fields, connections and locked addresses of arbitrary bytes.
func CheckIdentity() {
	n := z.Pick(3, 5)
	m := &rwp.OutboundMessage{PanelInfo: &rwp.PanelInfo{}}
	switch z.Choice("field", 8) {
	case 0:
		m.PanelInfo.Model = any("v", n)
	case 1:
		m.PanelInfo.Serial = any("v", n)
	case 2:
		m.PanelInfo.Name = any("v", n)
	case 3:
		m.PanelInfo.SoftwareVersion = any("v", n)
	case 4:
		m.PanelInfo.Platform = any("v", n)
	case 5:
		m.PanelInfo.LockedToIPs = []string{any("v", n), any("w", 1)}
	case 6:
		m.Connections = &rwp.Connections{Connection: []string{any("v", n), any("w", 1)}}
	case 7:
		m.PanelInfo.Model, m.PanelInfo.Serial, m.PanelInfo.Name = z.String("a", 1), z.String("b", 1), z.String("c", 1)
	}
	out(m)
}

// CheckNetwork: network settings are JSON, both ways.
func CheckNetwork() {
	c := &rwp.NetworkConfig{Dhcp: z.Bool("dhcp")}
	n := z.Pick(2, 3)
	switch z.Choice("field", 5) {
	case 0:
		c.Address = any("v", n)
	case 1:
		c.Netmask = any("v", n)
	case 2:
		c.Gateway = any("v", n)
	case 3:
		c.FirstDns = any("v", n)
	case 4:
		c.SecondDns = any("v", n)
	}
	in(&rwp.InboundMessage{Command: &rwp.Command{SetNetworkConfig: c}})
	out(&rwp.OutboundMessage{NetworkConfig: c})
}

// CheckProcessors: processor settings are JSON of the whole state, texts in it included.
func CheckProcessors() {
	p := &rwp.Processors{}
	s := &rwp.HWCState{HWCIDs: []uint32{z.Uint32("id", 0, maxU)}, Processors: p}
	n := z.Pick(2, 3)
	switch z.Choice("field", 9) {
	case 0:
		p.GfxConv = &rwp.ProcGfxConverter{W: z.Uint32("w", 0, maxU), Filters: any("v", n)}
	case 1:
		p.AudioMeter = &rwp.ProcAudioMeter{Title: any("v", n)}
	case 2:
		p.AudioMeter = &rwp.ProcAudioMeter{RangeMapping: any("v", n)}
	case 3:
		p.StrengthMeter = &rwp.ProcStrength{Title: any("v", n)}
	case 4:
		p.StrengthMeter = &rwp.ProcStrength{ValueString: any("v", n), RangeMapping: any("w", 1)}
	case 5:
		p.UniText = &rwp.ProcUniText{Title: any("v", n)}
	case 6:
		p.UniText = &rwp.ProcUniText{Textline1: any("v", n), Textline2: any("w", 1)}
	case 7:
		p.GfxConv = &rwp.ProcGfxConverter{ImageData: z.Bytes("img", 3)}
	case 8:
		p.Test = &rwp.ProcTest{}
		s.HWCText = &rwp.HWCText{Title: any("v", 1)}
	}
	in(&rwp.InboundMessage{States: []*rwp.HWCState{s}})
}

// ---- flattening keeps the content

// solid is s without white space.
func solid(s string) string {
	var r []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == ' ' || c >= 9 && c <= 13 {
			continue
		}
		r = append(r, c)
	}
	return string(r)
}

// fields carries one text through each field that is flattened and returns what was written.
func field(k int, s string) (string, []string) {
	cut := func(ls []string, prefix string) (string, []string) {
		for _, l := range ls {
			if strings.HasPrefix(l, prefix) {
				return l[len(prefix):], ls
			}
		}
		z.Assert(false, "no line "+prefix)
		return "", nil
	}
	switch k {
	case 0:
		return cut(in(&rwp.InboundMessage{Command: &rwp.Command{SetCalibrationProfile: &rwp.CalibrationProfile{Json: s}}}), "SetCalibrationProfile=")
	case 1:
		return cut(out(&rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Svgbase: s, Json: "{}"}}), "_panelTopology_svgbase=")
	case 2:
		return cut(out(&rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Svgbase: "<svg/>", Json: s}}), "_panelTopology_HWC=")
	case 3:
		return cut(out(&rwp.OutboundMessage{BurninProfile: &rwp.BurninProfile{Json: s}}), "_burninProfile=")
	case 4:
		return cut(out(&rwp.OutboundMessage{CalibrationProfile: &rwp.CalibrationProfile{Json: s}}), "_calibrationProfile=")
	case 5:
		return cut(out(&rwp.OutboundMessage{DefaultCalibrationProfile: &rwp.CalibrationProfile{Json: s}}), "_defaultCalibrationProfile=")
	case 6:
		return cut(out(&rwp.OutboundMessage{ErrorMessage: &rwp.Message{Message: s}}), "ErrorMsg=")
	}
	return cut(out(&rwp.OutboundMessage{Message: &rwp.Message{Message: s}}), "Msg=")
}

const flattened = 8

func flat(k int, s string) {
	got, ls := field(k, s)
	if k == 1 || k == 2 {
		z.Assert(len(ls) == 2, "number of lines")
	} else {
		z.Assert(len(ls) == 1, "number of lines")
	}
	z.Assert(solid(got) == solid(s), "flattening loses or reorders content")
}

// CheckFlatAny: texts of arbitrary ASCII characters.
func CheckFlatAny() {
	n := z.Choice("len", z.Pick(5, 6))
	flat(z.Choice("field", flattened), z.StringIn("text", n, 0, 0x7f))
}

// CheckFlatBytes: arbitrary bytes; nothing but white space, of any kind, may go.
func CheckFlatBytes() {
	k := z.Choice("field", flattened)
	s := z.String("text", z.Choice("len", z.Pick(4, 5)))
	got, _ := field(k, s)
	// what is left is s with white space removed or added: compare after removing all of it from both
	z.Assert(bare(got) == bare(s), "flattening loses or reorders content")
}

// bare is s without any Unicode white space, including what comes into being when pieces around it move together.
func bare(s string) string {
	var r []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == ' ' || c >= 9 && c <= 13 {
			continue
		}
		n := len(r)
		switch {
		case n >= 1 && r[n-1] == 0xc2 && (c == 0x85 || c == 0xa0):
			r = r[:n-1]
		case n >= 2 && r[n-2] == 0xe2 && r[n-1] == 0x80 && (c >= 0x80 && c <= 0x8a || c == 0xa8 || c == 0xa9 || c == 0xaf),
			n >= 2 && r[n-2] == 0xe2 && r[n-1] == 0x81 && c == 0x9f,
			n >= 2 && r[n-2] == 0xe1 && r[n-1] == 0x9a && c == 0x80,
			n >= 2 && r[n-2] == 0xe3 && r[n-1] == 0x80 && c == 0x80:
			r = r[:n-2]
		default:
			r = append(r, c)
		}
	}
	return string(r)
}

// CheckFlatLines: several lines of arbitrary words with the usual kinds of line ends and indentation.
func CheckFlatLines() {
	k := z.Choice("field", flattened)
	n := 2 + z.Choice("lines", z.Pick(2, 3))
	ends := []string{"\n", "\r\n", "\n\n", "\n\t  ", " \n", ">\n<", ",\n", "\\n\n"}
	s := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s += ends[z.Choice("end", len(ends))]
		}
		s += z.StringIn("word", 1+z.Choice("word.len", 2), 0x21, 0x7e)
	}
	flat(k, s)
}

// CheckFlatLong: a long text with line feeds anywhere in it.
func CheckFlatLong() {
	k := z.Choice("field", flattened)
	n := z.Pick(40, 200)
	at, gap := z.Choice("at", n), z.Choice("gap", 3)
	s := z.StringIn("head", at, 0x21, 0x7e) + "\n" + strings.Repeat(" ", gap) + z.StringIn("tail", n-at, 0x21, 0x7e)
	flat(k, s)
}

// CheckWide: texts in other scripts and with wide blanks.
func CheckWide() {
	pieces := []string{"é", "漢", "\u00a0", "\u2028", "\u3000", "\U0001F600", "\n", "\u0085", "\xff"}
	k := z.Choice("field", flattened)
	s := ""
	for i := 0; i < z.Pick(3, 4); i++ {
		s += pieces[z.Choice("piece", len(pieces))] + z.StringIn("c", z.Choice("c.len", 2), 0x21, 0x7e)
	}
	got, _ := field(k, s)
	z.Assert(bare(got) == bare(s), "flattening loses or reorders content")
}

// CheckMany: the stream of several messages cut at line feeds gives the strings back.
func CheckMany() {
	s := z.StringIn("a", 2, 0, 0x7f)
	ls := out(&rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_PING, Message: &rwp.Message{Message: s}, BurninProfile: &rwp.BurninProfile{Json: s}},
		&rwp.OutboundMessage{ErrorMessage: &rwp.Message{Message: s}, PanelTopology: &rwp.PanelTopology{Svgbase: s, Json: s}},
		&rwp.OutboundMessage{Connections: &rwp.Connections{Connection: []string{"a", "b"}}})
	stream := ""
	for _, l := range ls {
		stream += l + "\n"
	}
	back := strings.Split(stream, "\n")
	z.Assert(len(back) == len(ls)+1, "number of lines in the stream")
	for i := range ls {
		z.Assert(back[i] == ls[i], "line recovered from the stream")
	}
}

// CheckMarkup: documents of usual pieces, one or two to a line.
func CheckMarkup() {
	pieces := []string{"<!-- note -->", "<?xml version=\"1.0\"?>", "<!DOCTYPE svg>", "<![CDATA[ x ]]>", "<svg width=\"10\"", "viewBox='0 0 10 10'>",
		"<path d=\"M 0 0", "L 10,10 Z\"/>", "<text>A &amp; B", "</text>", "/>", "-->", "{", "}", "[1,", "2]", "\"a\": \"b c\",", "\"key\":", "// note", "/* note */", "\\", "\"", ",", "#", ";"}
	ends := []string{"\n", " ", "\r\n\t"}
	k := z.Choice("field", flattened)
	s := ""
	for i := 0; i < z.Pick(2, 3); i++ {
		s += pieces[z.Choice("piece", len(pieces))] + ends[z.Choice("end", len(ends))]
	}
	flat(k, s+z.StringIn("c", z.Choice("c.len", 2), 0x20, 0x7e))
}

// CheckHuge: one very long line among short ones.
func CheckHuge() {
	n := []int{4095, 4096, 65535, 65536, 70000}[z.Choice("n", 5)]
	k := z.Choice("field", flattened)
	s := z.StringIn("a", 1, 0x21, 0x7e) + "\n" + strings.Repeat("x", n) + z.StringIn("b", 1, 0x21, 0x7e) + "\n" + z.StringIn("c", 1, 0x21, 0x7e)
	got, _ := field(k, s)
	z.Assert(strings.Replace(got, " ", "", -1) == strings.Replace(s, "\n", "", -1), "flattening loses content")
}
