// Package c18: rendering a text state onto a tile is total, repeatable, clipped to the active area and exact under
// inversion; texts are centred, strength bars grow with the value, and the colours are the requested ones.
package c18

import (
	rp "github.com/SKAARHOJ/rawpanel-lib"
	m "github.com/SKAARHOJ/rawpanel-lib/ibeam_lib_monogfx"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	z "github.com/SKAARHOJ/rawpanel-lib/zzverif/zzsym"
)

const Harness = "c18"

// tile is the geometry of a tile.
type tile struct{ w, h, shrink, border int }

// active is the area left by shrink and border: columns x0..x1-1, rows y0..y1-1.
func (t tile) active() (x0, y0, x1, y1 int) {
	x0, y0, x1, y1 = t.border, t.border, t.w-t.border, t.h-t.border
	if t.shrink&1 != 0 && x1 > t.w-1 {
		x1 = t.w - 1
	}
	if t.shrink&2 != 0 && y1 > t.h-1 {
		y1 = t.h - 1
	}
	return
}

// mask has the bits of byte k of a row which are in columns x0..x1-1.
func mask(k, x0, x1 int) byte {
	v := byte(0)
	for b := 0; b < 8; b++ {
		if x := 8*k + b; x >= x0 && x < x1 {
			v |= 128 >> uint(b)
		}
	}
	return v
}

func fontCopy(f *rwp.HWCText_TextStyle_Font) *rwp.HWCText_TextStyle_Font {
	if f == nil {
		return nil
	}
	return &rwp.HWCText_TextStyle_Font{FontFace: f.FontFace, TextWidth: f.TextWidth, TextHeight: f.TextHeight}
}

func colorCopy(c *rwp.Color) *rwp.Color {
	if c == nil {
		return nil
	}
	d := &rwp.Color{}
	if c.ColorRGB != nil {
		d.ColorRGB = &rwp.ColorRGB{Red: c.ColorRGB.Red, Green: c.ColorRGB.Green, Blue: c.ColorRGB.Blue}
	}
	if c.ColorIndex != nil {
		d.ColorIndex = &rwp.ColorIndex{Index: c.ColorIndex.Index}
	}
	return d
}

func stateCopy(s *rwp.HWCText) *rwp.HWCText {
	d := &rwp.HWCText{IntegerValue: s.IntegerValue, Formatting: s.Formatting, StateIcon: s.StateIcon, ModifierIcon: s.ModifierIcon,
		Title: s.Title, SolidHeaderBar: s.SolidHeaderBar, Textline1: s.Textline1, Textline2: s.Textline2, IntegerValue2: s.IntegerValue2,
		PairMode: s.PairMode, Inverted: s.Inverted, PixelColor: colorCopy(s.PixelColor), BackgroundColor: colorCopy(s.BackgroundColor)}
	if c := s.Scale; c != nil {
		d.Scale = &rwp.HWCText_ScaleM{ScaleType: c.ScaleType, RangeLow: c.RangeLow, RangeHigh: c.RangeHigh, LimitLow: c.LimitLow, LimitHigh: c.LimitHigh}
	}
	if t := s.TextStyling; t != nil {
		d.TextStyling = &rwp.HWCText_TextStyle{TitleFont: fontCopy(t.TitleFont), TextFont: fontCopy(t.TextFont), FixedWidth: t.FixedWidth,
			TitleBarPadding: t.TitleBarPadding, ExtraCharacterSpacing: t.ExtraCharacterSpacing, UnformattedFontSize: t.UnformattedFontSize}
	}
	return d
}

func fontSame(a, b *rwp.HWCText_TextStyle_Font) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.FontFace == b.FontFace && a.TextWidth == b.TextWidth && a.TextHeight == b.TextHeight
}

func colorSame(a, b *rwp.Color) bool {
	if a == nil || b == nil {
		return a == b
	}
	if (a.ColorRGB == nil) != (b.ColorRGB == nil) || (a.ColorIndex == nil) != (b.ColorIndex == nil) {
		return false
	}
	if a.ColorRGB != nil && (a.ColorRGB.Red != b.ColorRGB.Red || a.ColorRGB.Green != b.ColorRGB.Green || a.ColorRGB.Blue != b.ColorRGB.Blue) {
		return false
	}
	return a.ColorIndex == nil || a.ColorIndex.Index == b.ColorIndex.Index
}

func sameState(a, b *rwp.HWCText) bool {
	if a.IntegerValue != b.IntegerValue || a.Formatting != b.Formatting || a.StateIcon != b.StateIcon || a.ModifierIcon != b.ModifierIcon {
		return false
	}
	if a.Title != b.Title || a.SolidHeaderBar != b.SolidHeaderBar || a.Textline1 != b.Textline1 || a.Textline2 != b.Textline2 {
		return false
	}
	if a.IntegerValue2 != b.IntegerValue2 || a.PairMode != b.PairMode || a.Inverted != b.Inverted {
		return false
	}
	if !colorSame(a.PixelColor, b.PixelColor) || !colorSame(a.BackgroundColor, b.BackgroundColor) {
		return false
	}
	if c, d := a.Scale, b.Scale; c == nil || d == nil {
		if c != d {
			return false
		}
	} else if c.ScaleType != d.ScaleType || c.RangeLow != d.RangeLow || c.RangeHigh != d.RangeHigh || c.LimitLow != d.LimitLow || c.LimitHigh != d.LimitHigh {
		return false
	}
	c, d := a.TextStyling, b.TextStyling
	if c == nil || d == nil {
		return c == d
	}
	return fontSame(c.TitleFont, d.TitleFont) && fontSame(c.TextFont, d.TextFont) && c.FixedWidth == d.FixedWidth &&
		c.TitleBarPadding == d.TitleBarPadding && c.ExtraCharacterSpacing == d.ExtraCharacterSpacing && c.UnformattedFontSize == d.UnformattedFontSize
}

// image renders a state, checks size and that the state is as it was, and returns the picture.
func (t tile) image(s *rwp.HWCText) []byte {
	before := stateCopy(s)
	var img m.MonoImg
	z.Pure(func() { img = rp.WriteDisplayTileNew(s, t.w, t.h, t.shrink, t.border) })
	z.Assert(img.Width == t.w && img.Height == t.h, "the image has another size than requested")
	px := img.GetImgSlice()
	z.Assert(len(px) == t.h*((t.w+7)/8), "the picture has another size than requested")
	z.Assert(sameState(before, s), "rendering changes the state")
	return append([]byte{}, px...)
}

// render checks everything that holds for all states and returns the picture (of the state not inverted).
func (t tile) render(s *rwp.HWCText) []byte {
	s.Inverted = false
	a := t.image(s)
	s.Inverted = true
	b := t.image(s)
	s.Inverted = false
	// in between, the same contents are rendered in another style and size
	if s.Scale == nil {
		d := stateCopy(s)
		d.TextStyling, d.SolidHeaderBar, d.PixelColor = &rwp.HWCText_TextStyle{FixedWidth: true, ExtraCharacterSpacing: 3, TitleBarPadding: 2, UnformattedFontSize: 2}, !s.SolidHeaderBar, &rwp.Color{ColorIndex: &rwp.ColorIndex{Index: 4}}
		rp.WriteDisplayTileNew(d, 26, 30, 3-t.shrink, 0)
	}
	c := t.image(s)
	x0, y0, x1, y1 := t.active()
	stride := (t.w + 7) / 8
	for y := 0; y < t.h; y++ {
		for k := 0; k < stride; k++ {
			i, all := y*stride+k, mask(k, 0, t.w)
			in := mask(k, x0, x1)
			if y < y0 || y >= y1 {
				in = 0
			}
			z.Assert(a[i]&all&^in == 0, "a pixel outside of the active area is lit")
			z.Assert((a[i]^b[i])&all == all, "the inverted picture is not the complement")
			z.Assert((a[i]^c[i])&all == 0, "the same state rendered again looks different")
		}
	}
	return a
}

// settle makes the width and left margin of a character concrete (so that positions are), in a font.
func settle(c byte, face int) {
	f := &m.MonoImg{}
	f.NewImage(0, 0)
	f.SetFont(face, true)
	k := int(f.GetCharWidth(c))*16 + int(f.GetCharStart(c))
	if c == 10 {
		k += 1000
	}
	if c == 13 {
		k += 2000
	}
	z.Concrete(k)
}

// text is an arbitrary byte and n more characters, to be shown in the given font.
func text(name string, n, face int) string {
	b := z.Bytes(name, 1)
	settle(b[0], face)
	return string(b) + "Wi.x"[:n]
}

var shapes = []tile{{64, 32, 0, 0}, {20, 48, 3, 0}, {36, 24, 0, 1}, {13, 33, 1, 2}, {64, 32, 3, 1}, {112, 32, 2, 0}, {48, 24, 1, 0}, {64, 48, 0, 3}, {32, 20, 2, 3}, {96, 64, 0, 0}, {128, 32, 1, 0}}

// CheckContent: labels and values in every format and pair mode.
func CheckContent() {
	t := append([]tile{{24, 30, 1, 0}, {20, 50, 0, 1}, {31, 21, 2, 0}}, shapes...)[z.Choice("tile", z.Pick(3, 3+len(shapes)))]
	s := &rwp.HWCText{Formatting: rwp.HWCText_FormattingE(z.Choice("format", 15)), PairMode: rwp.HWCText_PairModeE(z.Choice("pair", 6))}
	if z.Choice("title", 2) == 1 {
		s.Title = "Ti"
	}
	switch z.Choice("text", 3) {
	case 1:
		s.Textline1, s.Textline2 = "\x7f", "é\xff"
		if z.Thorough() || s.Formatting%5 == 0 && s.PairMode < 2 {
			s.Textline1 = text("line1", 0, 0)
		}
	case 2:
		s.Textline1, s.Textline2 = "A label which is longer than the tile", "Q"
	}
	s.IntegerValue, s.IntegerValue2 = []int32{-2147483648, 0, 47}[z.Choice("value", z.Pick(1, 3))], 2147483647
	if z.Thorough() {
		s.TextStyling = style("style", 5)
	}
	t.render(s)
}

// CheckValue: any small value.
func CheckValue() {
	t := shapes[z.Choice("tile", z.Pick(2, 4))]
	f := []rwp.HWCText_FormattingE{0, 5, 2, 3, 4, 6}[z.Choice("format", z.Pick(2, 6))]
	s := &rwp.HWCText{Formatting: f, PairMode: rwp.HWCText_PairModeE(z.Choice("pair", 2)), Title: "T"}
	if z.Choice("label", 2) == 1 {
		s.Textline1 = "L"
	}
	s.IntegerValue = z.Int32("value", -15, 120)
	t.render(s)
}

// CheckTitle: title bars of every kind, with the lock and the other icons.
func CheckTitle() {
	t := append([]tile{{256, 20, 0, 0}}, shapes...)[z.Choice("tile", z.Pick(2, 1+len(shapes)))]
	s := &rwp.HWCText{Formatting: rwp.HWCText_FMT_HIDE, SolidHeaderBar: z.Choice("solid", 2) == 1, StateIcon: rwp.HWCText_StateIconE(z.Choice("state", z.Pick(3, 5)))}
	s.TextStyling = style("style", z.Pick(3, 10))
	if z.Choice("title", 2) == 1 {
		s.Title = "A title which is longer than the tile, whichever that is: any of them, really"
	} else {
		z.Assume(t.w < 256 || z.Thorough())
		face := 0
		if t.h < 32 && t.w != 256 {
			face = 2
		} else if s.TextStyling != nil && s.TextStyling.TitleFont != nil {
			face = int(s.TextStyling.TitleFont.FontFace)
		}
		s.Title = text("title", 1, face)
	}
	t.render(s)
}

// style is one of n ways to set text: the default, and fonts, sizes, paddings and spacings.
func style(name string, n int) *rwp.HWCText_TextStyle {
	k := z.Choice(name, n)
	if k == 0 {
		return nil
	}
	f := &rwp.HWCText_TextStyle_Font{FontFace: rwp.HWCText_TextStyle_Font_FontFaceE(k % 8), TextWidth: uint32(k % 4), TextHeight: uint32(k * 3 % 4)}
	st := &rwp.HWCText_TextStyle{TitleBarPadding: uint32((4 - k) & 3), ExtraCharacterSpacing: uint32(k / 2 % 4), FixedWidth: k%3 == 2}
	if k != 3 {
		st.TitleFont = f
	}
	if k != 4 {
		st.TextFont = f
	}
	return st
}

// CheckIcons: every icon, on all kinds of tiles.
func CheckIcons() {
	t := append([]tile{{4, 9, 0, 0}, {7, 8, 3, 0}}, shapes...)[z.Choice("tile", z.Pick(5, 2+len(shapes)))]
	s := &rwp.HWCText{StateIcon: rwp.HWCText_StateIconE(z.Choice("state", 5)), ModifierIcon: rwp.HWCText_ModifierIconE(z.Choice("modifier", 9))}
	if z.Choice("title", 2) == 1 {
		s.Title = "Ti"
	}
	if z.Choice("scale", 2) == 1 {
		s.Scale = &rwp.HWCText_ScaleM{ScaleType: 1, RangeHigh: 10}
	}
	t.render(s)
}

// CheckTiny: tiles too small for what is on them.
func CheckTiny() {
	t := tile{z.Choice("w", z.Pick(6, 18)), z.Choice("h", z.Pick(6, 14)), z.Choice("shrink", 4), z.Choice("border", 4)}
	if !z.Thorough() {
		t.w, t.h = []int{0, 1, 2, 5, 8, 17}[t.w], []int{0, 1, 2, 4, 9, 13}[t.h]
	}
	s := &rwp.HWCText{Title: "Title", Textline1: "Line", Textline2: "More", IntegerValue: 50, StateIcon: 2, ModifierIcon: 3, SolidHeaderBar: true,
		Scale: &rwp.HWCText_ScaleM{ScaleType: 3, RangeHigh: 100, LimitLow: 10, LimitHigh: 90}}
	switch z.Choice("kind", 4) {
	case 1:
		s.PairMode, s.SolidHeaderBar, s.StateIcon, s.Scale.ScaleType = 4, false, 1, 1
	case 2:
		s.Formatting = 10
	case 3:
		s.Formatting = 11
		s.TextStyling = &rwp.HWCText_TextStyle{UnformattedFontSize: 4, FixedWidth: true}
	}
	t.render(s)
}

// span is where the ink of rows y0..y1-1 begins and ends: the first column and the one after the last.
func span(px []byte, w, y0, y1 int) (from, to int) {
	stride := (w + 7) / 8
	cols := make([]byte, stride)
	for y := y0; y < y1; y++ {
		for k := range cols {
			cols[k] |= px[y*stride+k]
		}
	}
	from, to = w, 0
	for x := 0; x < w; x++ {
		l := w - 1 - x
		if cols[l/8]&(128>>uint(l%8)) != 0 {
			from = l
		}
		if cols[x/8]&(128>>uint(x%8)) != 0 {
			to = x + 1
		}
	}
	return
}

// centred checks that the ink of rows y0..y1-1 (seen from the active area) is in the middle of the active area, to
// within a pixel. The spacing after the last character may count as part of the text.
func (t tile) centred(px []byte, y0, y1, spacing int) {
	ax, ay, bx, _ := t.active()
	from, to := span(px, t.w, ay+y0, ay+y1)
	z.Assert(from < to, "a text which fits is not there")
	off := (from - ax) - (bx - to)
	z.Assert(off <= 2 && off >= -2-spacing, "a text which fits is not centred")
}

// glyphs is n arbitrary visible ASCII characters; those between them may also be blanks. Some characters are blank in
// the fonts other than the first.
func glyphs(name string, n int, st *rwp.HWCText_TextStyle) string {
	some := st != nil && st.TextFont != nil && (st.TextFont.FontFace == 1 || st.TextFont.FontFace == 2)
	b := z.Bytes(name, n)
	for i, c := range b {
		if i > 0 && i < n-1 {
			z.Assume(c >= 32 && c <= 126)
		} else {
			z.Assume(c >= 33 && (c <= 126 && !some || c <= 91 || c == 93 || c >= 97 && c <= 122))
		}
		face := 0
		if st != nil && st.TextFont != nil {
			face = int(st.TextFont.FontFace)
		}
		settle(c, face)
	}
	return string(b)
}

// metrics are the width, height and spacing of a text, from the font's own metrics (C20).
func metrics(s *rwp.HWCText, str string) (w, h, spacing int) {
	st := s.TextStyling
	f := &m.MonoImg{}
	f.NewImage(0, 0)
	face, size := 0, []int{1, 1}
	if st != nil {
		if k := int(st.UnformattedFontSize); k > 1 {
			size = []int{k, k}
			if k > 4 {
				size = []int{4, 4}
			}
		}
		if t := st.TextFont; t != nil {
			face = int(t.FontFace)
			if t.TextWidth > 0 {
				size[0] = int(t.TextWidth)
			}
			if t.TextHeight > 0 {
				size[1] = int(t.TextHeight)
			}
		}
		spacing = int(st.ExtraCharacterSpacing)
	}
	f.SetFont(face, true)
	f.SetTextSize(size[0], size[1])
	f.SetCharSpacingCompensation(byte(spacing))
	return f.StrWidth(str), int(f.LineHeight()), spacing
}

var layouts = []tile{{40, 20, 0, 0}, {29, 22, 1, 0}, {33, 27, 3, 2}, {48, 24, 2, 0}, {64, 32, 0, 1}, {17, 8, 0, 0}, {56, 33, 1, 3}, {112, 32, 0, 0}, {256, 20, 1, 0}}

// lineStyle is one of n proportional ways to set the text.
func lineStyle(n int) *rwp.HWCText_TextStyle {
	k := z.Choice("style", n)
	if k == 0 {
		return nil
	}
	st := &rwp.HWCText_TextStyle{UnformattedFontSize: uint32([]int{1, 2, 3, 4, 5, 0, 0, 2, 1}[k-1]), ExtraCharacterSpacing: uint32([]int{1, 0, 2, 0, 3, 0, 1, 3, 2}[k-1])}
	if k > 1 {
		st.TextFont = &rwp.HWCText_TextStyle_Font{FontFace: rwp.HWCText_TextStyle_Font_FontFaceE(k - 1), TextWidth: uint32([]int{0, 0, 0, 2, 0, 1, 3, 1, 0}[k-1]), TextHeight: uint32([]int{0, 0, 0, 0, 2, 0, 1, 3, 0}[k-1])}
	}
	return st
}

// CheckOneLine: one line of text which fits is centred.
func CheckOneLine() {
	t := layouts[z.Choice("tile", z.Pick(3, len(layouts)))]
	s := &rwp.HWCText{Formatting: rwp.HWCText_FMT_ONELINE, TextStyling: lineStyle(z.Pick(3, 10))}
	n := 1 + z.Choice("len", z.Pick(2, 3))
	z.Assume(z.Thorough() || n == 1 || t.w < 40)
	s.Title = glyphs("title", n, s.TextStyling)
	if z.Choice("more", 2) == 1 {
		z.Assume(n == 1 || z.Thorough())
		s.Title += "mi"
	}
	x0, y0, x1, y1 := t.active()
	px := t.render(s)
	w, h, sp := metrics(s, s.Title)
	if w <= x1-x0 && h <= y1-y0 {
		z.Reach("fits")
		t.centred(px, 0, y1-y0, sp)
	}
}

// CheckTwoLines: two lines of text which fit are centred, each by itself.
func CheckTwoLines() {
	t := layouts[z.Choice("tile", z.Pick(3, len(layouts)))]
	s := &rwp.HWCText{Formatting: rwp.HWCText_FMT_TWOLINES, TextStyling: lineStyle(z.Pick(3, 10))}
	s.Textline1 = []string{"Wi", "", "T."}[z.Choice("first", z.Pick(2, 3))]
	s.Textline2 = []string{"", "%l", "Alp"}[z.Choice("second", z.Pick(2, 3))]
	switch z.Choice("arbitrary", z.Pick(2, 3)) {
	case 0:
		s.Textline1 = glyphs("line1", 1, s.TextStyling) + s.Textline1
	case 1:
		s.Textline2 += glyphs("line2", 1, s.TextStyling)
	case 2:
		s.Textline1, s.Textline2 = s.Textline1+glyphs("line1", 1, s.TextStyling), s.Textline2+glyphs("line2", 1, s.TextStyling)
	}
	x0, y0, x1, y1 := t.active()
	px := t.render(s)
	w1, h, sp := metrics(s, s.Textline1)
	w2, _, _ := metrics(s, s.Textline2)
	if 2*h <= y1-y0 {
		half := (y1 - y0) / 2
		if s.Textline1 != "" && w1 <= x1-x0 {
			z.Reach("first fits")
			t.centred(px, 0, half, sp)
		}
		if s.Textline2 != "" && w2 <= x1-x0 {
			z.Reach("second fits")
			t.centred(px, half, y1-y0, sp)
		}
	}
}

// palette is what the indexed colours mean: two bits each of red, green and blue.
var palette = []int{0x3F, 0, 0x3F, 0x3D, 0x30, 0x35, 0x33, 0x13, 0x34, 0x3C, 0x03, 0x07, 0x1B, 0x0F, 0x1C, 0x0C, 0x0D, 0x2A, 0x15}

// expands checks a colour of the export (five bits of blue, six of green, five of red) against the requested one.
func expands(v int, c *rwp.Color, what string) {
	got := [3]int{(v & 31) * 255 / 31, (v >> 5 & 63) * 255 / 63, (v >> 11 & 31) * 255 / 31}
	if rgb := c.ColorRGB; rgb != nil {
		for i, want := range [3]int{int(rgb.Red), int(rgb.Green), int(rgb.Blue)} {
			d := got[i] - want
			z.Assert(d < 95 && d > -95, "the "+what+" colour of the export is off by more than a step")
			z.Assert(want != 0 || got[i] == 0, "the "+what+" colour of the export is not the one requested")
			z.Assert(want != 255 || got[i] == 255, "the "+what+" colour of the export is not the one requested")
		}
	} else {
		i := int(z.Concrete(int(c.ColorIndex.Index)))
		if i >= len(palette) {
			i = 0
		}
		for j := range got {
			d := got[j] - palette[i]>>uint(4-2*j)&3*85
			z.Assert(d <= 8 && d >= -8, "the "+what+" colour of the export is not the one of the index")
		}
	}
}

func color(name string) *rwp.Color {
	switch z.Choice(name, 3) {
	case 1:
		return &rwp.Color{ColorIndex: &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(z.Int32(name+"index", 0, 31))}}
	case 2:
		return &rwp.Color{ColorRGB: &rwp.ColorRGB{Red: z.Uint32(name+"r", 0, 255), Green: z.Uint32(name+"g", 0, 255), Blue: z.Uint32(name+"b", 0, 255)}}
	}
	return nil
}

// CheckColors: the RGB export has the colours the state asks for.
func CheckColors() {
	t := tile{[]int{9, 8, 1}[z.Choice("w", z.Pick(2, 3))], 9, 0, 0}
	s := &rwp.HWCText{PixelColor: color("pixel"), BackgroundColor: color("background"), Title: ".", Formatting: rwp.HWCText_FormattingE(7 + 3*z.Choice("line", 2)), Inverted: z.Choice("inverted", 2) == 1}
	before := stateCopy(s)
	var img m.MonoImg
	z.Pure(func() { img = rp.WriteDisplayTileNew(s, t.w, t.h, 0, 0) })
	z.Assert(sameState(before, s), "rendering changes the state")
	rgb, px, stride := img.GetImgSliceRGB(), img.GetImgSlice(), (t.w+7)/8
	z.Assert(len(rgb) == 2*t.w*t.h, "the size of the export")
	on, off := -1, -1
	for y := 0; y < t.h; y++ {
		for x := 0; x < t.w; x++ {
			i := 2 * (y*t.w + x)
			v := int(rgb[i])<<8 | int(rgb[i+1])
			other := &off
			if px[y*stride+x/8]>>uint(7-x%8)&1 == 1 {
				other = &on
			}
			if *other < 0 {
				*other = v
			}
			z.Assert(*other == v, "pixels of the same kind have several colours")
		}
	}
	if on >= 0 {
		z.Reach("pixel")
		if s.PixelColor != nil {
			expands(on, s.PixelColor, "pixel")
		} else {
			z.Assert(on == 0xFFFF, "the default colour")
		}
	}
	if off >= 0 {
		z.Reach("background")
		if s.BackgroundColor != nil {
			expands(off, s.BackgroundColor, "background")
		} else {
			z.Assert(off == 0, "the default background colour")
		}
	}
}

// ranges are the low and high ends of scales.
var ranges = [][2]int32{{0, 10}, {-2147483648, 2147483647}, {-7, 93}, {5, 5}, {10, 0}, {2147483647, -2147483648}, {-3, 0}, {0, 1}, {-100000, 65536}, {2147483640, 2147483647}, {100, -100}, {-2000000000, 2000000000}}

var scaled = []tile{{10, 13, 0, 0}, {17, 12, 3, 1}, {9, 16, 1, 0}, {6, 15, 0, 2}, {24, 33, 2, 0}, {64, 24, 0, 0}, {3, 20, 1, 0}, {2, 20, 0, 0}}

// CheckScale: scales of every type over all kinds of ranges and limits, for any value.
func CheckScale() {
	t := scaled[z.Choice("tile", z.Pick(3, len(scaled)))]
	r := ranges[z.Choice("range", z.Pick(7, len(ranges)))]
	s := &rwp.HWCText{Formatting: rwp.HWCText_FMT_HIDE, Scale: &rwp.HWCText_ScaleM{ScaleType: rwp.HWCText_ScaleM_ScaleTypeE(z.Choice("type", 5)), RangeLow: r[0], RangeHigh: r[1]}}
	switch z.Choice("limits", 3) {
	case 0:
		s.Scale.LimitLow, s.Scale.LimitHigh = r[0], r[1]
	case 1:
		s.Scale.LimitLow, s.Scale.LimitHigh = 7, 7
	case 2:
		s.Scale.LimitLow, s.Scale.LimitHigh = 2147483647, -2147483648
	}
	s.IntegerValue = z.Int32("value", -2147483648, 2147483647)
	t.render(s)
}

// CheckBar: the bar of a strength scale never shrinks when the value grows.
func CheckBar() {
	t := scaled[z.Choice("tile", z.Pick(3, len(scaled)))]
	r := ranges[z.Choice("range", len(ranges))]
	z.Assume(r[0] < r[1])
	state := func(v int32) *rwp.HWCText {
		return &rwp.HWCText{Formatting: rwp.HWCText_FMT_HIDE, IntegerValue: v, Scale: &rwp.HWCText_ScaleM{ScaleType: rwp.HWCText_ScaleM_ST_STRENGTH, RangeLow: r[0], RangeHigh: r[1], LimitLow: r[0], LimitHigh: r[1]}}
	}
	v, w := z.Int32("value", -2147483648, 2147483647), z.Int32("more", -2147483648, 2147483647)
	a, b := t.image(state(v)), t.image(state(w))
	z.Assume(v <= w)
	bad := byte(0)
	for i := range a {
		bad |= a[i] &^ b[i]
	}
	z.Assert(bad == 0, "the bar shrinks while the value grows")
}
