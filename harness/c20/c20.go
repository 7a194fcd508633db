// Package c20: text metrics bound the ink; rendering is consistent under moving and enlarging.
package c20

import (
	m "github.com/SKAARHOJ/rawpanel-lib/ibeam_lib_monogfx"
	z "github.com/SKAARHOJ/rawpanel-lib/zzverif/zzsym"
)

const Harness = "c20"

// face is a way to set text.
type face struct {
	font    int
	prop    bool
	spacing byte
}

func someFace(spacings int) face {
	return face{z.Choice("font", 3), z.Choice("prop", 2) == 1, []byte{0, 2, 1, 3}[z.Choice("spacing", spacings)]}
}

// sheet is a canvas on which nothing is drawn yet; with ink false it is white and the text black.
type sheet struct {
	img  *m.MonoImg
	w, h int
	dark bool
}

func newSheet(w, h int, f face, sh, sv int) *sheet {
	s := &sheet{&m.MonoImg{}, w, h, false}
	s.img.NewImage(w, h)
	s.img.SetFont(f.font, f.prop)
	s.img.SetCharSpacingCompensation(f.spacing)
	s.img.SetTextSize(sh, sv)
	s.img.SetTextWrap(false)
	s.img.SetTextColor(true)
	return s
}

func (s *sheet) text(x, y int, str string) {
	s.img.SetCursor(x, y)
	s.img.RenderText(str)
}

// row is the byte of a row.
func (s *sheet) at(x, y int) byte {
	v := s.img.GetImgSlice()[y*((s.w+7)/8)+x/8] >> uint(7-x%8) & 1
	if s.dark {
		return v ^ 1
	}
	return v
}

// white makes the sheet white and the text black.
func (s *sheet) white() {
	s.img.FillRect(0, 0, s.w, s.h, true)
	s.img.SetTextColor(false)
	s.dark = true
}

// within checks that all ink is in columns x0..x1-1 and rows y0..y1-1.
func (s *sheet) within(x0, y0, x1, y1 int, what string) {
	stride := (s.w + 7) / 8
	bad := byte(0)
	for y := 0; y < s.h; y++ {
		for k := 0; k < stride; k++ {
			out := byte(0)
			for b := 0; b < 8; b++ {
				if x := 8*k + b; x < s.w && (x < x0 || x >= x1 || y < y0 || y >= y1) {
					out |= 128 >> uint(b)
				}
			}
			v := s.img.GetImgSlice()[y*stride+k]
			if s.dark {
				v ^= 0xFF
			}
			bad |= v & out
		}
	}
	z.Assert(bad == 0, what)
}

// enlarged checks that pixel (x,y) of a, seen from (ax,ay), is a block of h x v pixels of s, seen from (x,y).
func (s *sheet) enlarged(x, y, h, v int, a *sheet, ax, ay, w, rows int, what string) {
	bad := byte(0)
	for j := 0; j < rows; j++ {
		for i := 0; i < w; i++ {
			p := a.at(ax+i, ay+j)
			for k := 0; k < v; k++ {
				for l := 0; l < h; l++ {
					bad |= p ^ s.at(x+i*h+l, y+j*v+k)
				}
			}
		}
	}
	z.Assert(bad == 0, what)
}

// str is n arbitrary bytes without line feeds (those begin further lines).
func str(n int) string {
	b := z.Bytes("str", n)
	for _, c := range b {
		z.Assume(c != 10)
	}
	return string(b)
}

var steps = [][2]int{{1, 1}, {2, 3}, {3, 1}, {1, 2}, {2, 2}, {4, 4}, {1, 4}, {4, 1}, {2, 1}, {3, 2}, {1, 3}, {3, 3}, {2, 4}, {3, 4}, {4, 2}, {4, 3}}

// ink checks the metrics for a text on its own sheet and returns its size.
func ink(s *sheet, x, y int, str string, sh int) (w, h int) {
	w, h = s.img.StrWidth(str)+sh, int(s.img.LineHeight())
	s.within(x, y, x+w, y+h, "ink outside of the reported width and height")
	return
}

// CheckChar: any character by itself, in every size.
func CheckChar() {
	f := someFace(1)
	c := z.Byte("c", 0, 255)
	st := steps[z.Choice("step", z.Pick(4, 16))]
	one, big := newSheet(14, 12, f, 1, 1), newSheet(2+9*st[0]+3, 3+8*st[1]+3, f, st[0], st[1])
	one.img.DrawChar(2, 3, c, true, true, 1, 1)
	big.img.DrawChar(2, 3, c, true, true, st[0], st[1])
	w := int(z.Concrete(int(one.img.GetCharWidth(c))))
	lh := int(one.img.LineHeight())
	one.within(2, 3, 2+w, 3+lh, "ink outside of the character's cell")
	big.within(2, 3, 2+w*st[0], 3+int(big.img.LineHeight()), "ink outside of the enlarged character's cell")
	z.Assert(int(big.img.LineHeight()) == lh*st[1], "the line height grows with the size")
	big.enlarged(2, 3, st[0], st[1], one, 2, 3, w, lh, "an enlarged character differs from the character")
}

// CheckInk: strings of arbitrary bytes.
func CheckInk() {
	f := someFace(z.Pick(2, 4))
	st := steps[z.Choice("step", z.Pick(2, 16))]
	n := z.Choice("len", z.Pick(3, 4))
	if n > 1 && !z.Thorough() {
		z.Assume(f.prop == (f.spacing == 0)) // CheckMove and CheckLong have more of the others
	}
	t := str(n)
	s := newSheet(90, 40, f, st[0], st[1])
	if st[0] > 1 { // Black on white as well
		s.white()
	}
	s.text(2, 3, t)
	ink(s, 2, 3, t, st[0])
}

// CheckMove: moving the cursor, or the bounding box below it, moves the text.
func CheckMove() {
	f := someFace(z.Pick(2, 4))
	st := steps[z.Choice("step", z.Pick(2, 6))]
	t := str(z.Pick(1, 2))
	a := newSheet(80, 48, f, st[0], st[1])
	a.text(0, 0, t)
	b := newSheet(80, 48, f, st[0], st[1])
	d := [][2]int{{1, 0}, {7, 9}, {8, 5}, {0, 1}, {30, 16}, {3, 3}}[z.Choice("by", z.Pick(3, 6))]
	switch z.Choice("how", 3) {
	case 0:
		b.text(d[0], d[1], t)
	case 1:
		b.img.SetBoundingBox(d[0], d[1], 80-d[0], 48-d[1])
		b.text(0, 0, t)
	case 2:
		b.img.SetBoundingBox(d[0], 0, 80-d[0], 48)
		b.text(0, d[1], t)
	}
	w, h := z.Concrete(a.img.StrWidth(t)+st[0]), int(a.img.LineHeight())
	a.within(0, 0, w, h, "ink outside of the reported width and height")
	b.within(d[0], d[1], d[0]+w, d[1]+h, "ink outside of the moved box")
	b.enlarged(d[0], d[1], 1, 1, a, 0, 0, w, h, "moved text differs")
}

// CheckEnlarge: a text in a larger size is the enlarged text.
func CheckEnlarge() {
	f := someFace(1)
	st := steps[1+z.Choice("step", z.Pick(1, 15))]
	t := str(z.Pick(1, 2))
	if len(t) == 1 {
		t = "Wi .\x01"[z.Choice("first", 5):][:1] + t
	}
	one, big := newSheet(20, 8, f, 1, 1), newSheet(20*st[0], 8*st[1], f, st[0], st[1])
	one.text(0, 0, t)
	big.text(0, 0, t)
	w, h := z.Concrete(one.img.StrWidth(t)+1), int(one.img.LineHeight())
	z.Assert(big.img.StrWidth(t)+st[0] == w*st[0], "the width grows with the size")
	big.enlarged(0, 0, st[0], st[1], one, 0, 0, w, h, "an enlarged text differs")
	big.within(0, 0, w*st[0], h*st[1], "ink outside of the enlarged text")
}

// CheckSpacedEnlarge: the same with extra space between characters.
func CheckSpacedEnlarge() {
	f := someFace(4)
	z.Assume(f.spacing > 0)
	st := steps[1+z.Choice("step", z.Pick(2, 15))]
	t := []string{"Ab", "i.W", "x"}[z.Choice("text", 3)]
	one, big := newSheet(40, 8, f, 1, 1), newSheet(40*st[0], 8*st[1], f, st[0], st[1])
	one.text(0, 0, t)
	big.text(0, 0, t)
	// Each character is its enlargement, where the spacing puts it.
	x1, xn := 0, 0
	for i := 0; i < len(t); i++ {
		w := int(one.img.GetCharWidth(t[i]))
		big.enlarged(xn, 0, st[0], st[1], one, x1, 0, w, int(one.img.LineHeight()), "an enlarged character of a spaced text differs")
		x1, xn = x1+w+int(f.spacing), xn+w*st[0]+int(f.spacing)
	}
	ink(big, 0, 0, t, st[0])
	w := one.img.StrWidth(t) + 1
	big.enlarged(0, 0, st[0], st[1], one, 0, 0, w, int(one.img.LineHeight()), "the space between characters is not enlarged")
}

var longs = []string{"The quick brown fox jumps over the lazy dog 0123456789", "WWWWWWWWWWMMMMMMMMMM@@@@@@@@@@WWWWWWWWWWWWWWWWWWWWWWWWWWWW", "i.l|i.l|i.l|i.l|i.l|i.l|i.l|i.l|i.l|", "\x80\xff\u00e6\u20ac\x01\t\x7f~~"}

// CheckLong: long texts that end in arbitrary characters.
func CheckLong() {
	f := someFace(z.Pick(2, 4))
	st := steps[z.Choice("step", z.Pick(2, 6))]
	head := longs[z.Choice("text", 4)]
	t := head + string(rune(z.Byte("last", 32, 127)))
	s := newSheet(62*(8*st[0]+4), 8*st[1]+3, f, st[0], st[1])
	s.text(1, 2, t)
	ink(s, 1, 2, t, st[0])
	// The last character is where the width of the text before it ends.
	x := s.img.StrWidth(head) + st[0]
	w := int(z.Concrete(int(s.img.GetCharWidth(t[len(t)-1]))))
	one := newSheet(w*st[0]+1, 8*st[1], f, st[0], st[1])
	one.text(0, 0, t[len(t)-1:])
	s.enlarged(1+x, 2, 1, 1, one, 0, 0, w*st[0], int(s.img.LineHeight()), "the last character is not at the end of the text before it")
}

// CheckLines: a line feed starts again at the left, one line height further down.
func CheckLines() {
	f := someFace(z.Pick(2, 4))
	st := steps[z.Choice("step", z.Pick(2, 6))]
	c := string(rune(z.Byte("c", 32, 127)))
	a, b := newSheet(40, 70, f, st[0], st[1]), newSheet(40, 70, f, st[0], st[1])
	lh := int(a.img.LineHeight())
	a.text(0, 0, "i\n"+c)
	b.text(0, 0, "i")
	b.text(0, lh, c)
	b.enlarged(0, 0, 1, 1, a, 0, 0, 40, 70, "lines differ from texts below each other")
}

// CheckOrder: metrics and rendering only depend on the settings, not on what was drawn or set before.
func CheckOrder() {
	f := someFace(z.Pick(2, 4))
	st := steps[z.Choice("step", z.Pick(2, 6))]
	t := "g" + str(1)
	a := newSheet(80, 40, f, st[0], st[1])
	b := newSheet(80, 40, face{z.Choice("font before", 3), !f.prop, 3}, 2, 0)
	b.text(3, 1, "Wq\n\x00")
	b.img.StrWidth("abc")
	b.img.FillRect(0, 0, 80, 40, false)
	b.img.SetTextColor(true)
	b.img.SetCharSpacingCompensation(f.spacing)
	b.img.SetTextSize(st[0], st[1])
	b.img.SetFont(f.font, f.prop)
	a.text(1, 1, t)
	b.text(1, 1, t)
	z.Assert(a.img.StrWidth(t) == b.img.StrWidth(t) && a.img.LineHeight() == b.img.LineHeight(), "metrics depend on earlier settings")
	b.enlarged(0, 0, 1, 1, a, 0, 0, 80, 40, "rendering depends on earlier settings")
}

// CheckDefaults: sizes that are not given.
func CheckDefaults() {
	f := someFace(1)
	h, v := []int{2, 0, -1, 3}[z.Choice("h", 4)], []int{0, 2, 1}[z.Choice("v", 3)]
	eh, ev := h, v
	if h <= 0 {
		eh = 1
	}
	if v == 0 {
		ev = eh
	}
	t := "Rg"
	a, b := newSheet(80, 40, f, h, v), newSheet(80, 40, f, eh, ev)
	a.text(1, 1, t)
	b.text(1, 1, t)
	ink(a, 1, 1, t, eh)
	b.enlarged(0, 0, 1, 1, a, 0, 0, 80, 40, "sizes that are not given")
}
