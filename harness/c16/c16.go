// Package c16: drawing never escapes the canvas or its clip region.
package c16

import (
	m "github.com/SKAARHOJ/rawpanel-lib/ibeam_lib_monogfx"
	z "github.com/SKAARHOJ/rawpanel-lib/zzverif/zzsym"
)

const Harness = "c16"

// far is how far positions and bounding boxes of single pixels go, near that of whole figures.
const far, near = 1 << 20, 100

// canvas is an image of which the harness knows the content, the clip rectangle and the inversion.
type canvas struct {
	img            *m.MonoImg
	w, h, stride   int
	old            []byte
	bx, by, bw, bh int
	inv            bool
}

// clean has arbitrary content.
func newCanvas(w, h int) *canvas {
	c := &canvas{img: &m.MonoImg{}, w: w, h: h, stride: (w + 7) / 8, bw: w, bh: h}
	c.img.NewImage(w, h)
	z.Assert(len(c.img.GetImgSlice()) == c.stride*h, "size of a new image")
	for i := range c.img.GetImgSlice() {
		c.img.GetImgSlice()[i] = z.Byte("px", 0, 255)
	}
	c.keep()
	return c
}

func (c *canvas) keep() { c.old = append([]byte{}, c.img.GetImgSlice()...) }

// clip sets an arbitrary bounding box.
func (c *canvas) clip(lim int) {
	c.bx, c.by, c.bw, c.bh = z.Int("bx", -lim, lim), z.Int("by", -lim, lim), z.Int("bw", -lim, lim), z.Int("bh", -lim, lim)
	c.img.SetBoundingBox(c.bx, c.by, c.bw, c.bh)
}

func (c *canvas) invert() {
	c.inv = z.Bool("inv")
	c.img.InvertPixels(c.inv)
}

// box is a footprint: columns x0..x1-1 and rows y0..y1-1, before the bounding box moves it.
type box struct{ x0, y0, x1, y1 int }

// in tells whether canvas pixel (x,y) is inside the clip rectangle and the box.
func (c *canvas) in(b box, x, y int) bool {
	return x >= c.bx && y >= c.by && x < c.bx+c.bw && y < c.by+c.bh && x >= c.bx+b.x0 && y >= c.by+b.y0 && x < c.bx+b.x1 && y < c.by+b.y1
}

// changes checks that nothing outside the boxes and the clip rectangle changed, and that everything inside is color if exact.
func (c *canvas) changes(exact bool, color bool, bs ...box) {
	now := c.img.GetImgSlice()
	z.Assert(len(now) == len(c.old), "the buffer keeps its size")
	z.Assert(c.img.Width == c.w && c.img.Height == c.h, "the image keeps its size")
	on := color != c.inv
	for y := 0; y < c.h; y++ {
		for k := 0; k < c.stride; k++ {
			may := byte(0)
			for b := 0; b < 8; b++ {
				x := 8*k + b
				if x >= c.w {
					continue
				}
				in := false
				for _, bb := range bs {
					in = in || c.in(bb, x, y)
				}
				if in {
					may |= 128 >> uint(b)
				}
			}
			i := y*c.stride + k
			z.Assert((now[i]^c.old[i])&^may == 0, "a pixel outside of the footprint, the clip rectangle or the canvas changes")
			if !exact {
				continue
			}
			if on {
				z.Assert(now[i]&may == may, "a pixel of the footprint is not drawn")
			} else {
				z.Assert(now[i]&may == 0, "a pixel of the footprint is not drawn")
			}
		}
	}
}

// CheckPixel: any pixel, any bounding box, any content; widths around the byte edges.
func CheckPixel() {
	w := z.Choice("w", z.Pick(18, 65))
	h := []int{2, 1, 0, 3, 5}[z.Choice("h", z.Pick(3, 5))]
	c := newCanvas(w, h)
	c.clip(far)
	c.invert()
	x, y, color := z.Int("x", -far, far), z.Int("y", -far, far), z.Bool("color")
	c.img.DrawPixel(x, y, color)
	c.changes(true, color, box{x, y, x + 1, y + 1})
}

// place chooses any position for something that covers columns l..r-1 and rows t..b-1 around it: where it can touch
// the canvas the cases are told apart, so that pixel addresses are concrete, and the rest is one case on each side.
// The position is relative to the bounding box, which stays arbitrary.
func (c *canvas) place(l, t, r, b int) (x, y int) {
	x0, x1, y0, y1 := 1-r, c.w-l, 1-b, c.h-t
	if x1 < x0 {
		x1 = x0
	}
	if y1 < y0 {
		y1 = y0
	}
	switch k := z.Choice("where", (x1-x0)*(y1-y0)+4); k {
	case 0:
		x, y = z.Int("x", -near, x0-1), z.Int("y", -near, near)
	case 1:
		x, y = z.Int("x", x1, near), z.Int("y", -near, near)
	case 2:
		x, y = z.Int("x", -near, near), z.Int("y", -near, y0-1)
	case 3:
		x, y = z.Int("x", -near, near), z.Int("y", y1, near)
	default:
		x, y = x0+(k-4)%(x1-x0), y0+(k-4)/(x1-x0)
	}
	return x - c.bx, y - c.by
}

// some canvas sizes around the byte edges.
var sizes = [][2]int{{9, 3}, {17, 2}, {1, 1}, {0, 3}, {8, 2}, {7, 4}, {3, 0}, {15, 1}, {24, 1}, {64, 1}, {13, 5}}

func some(n int) *canvas {
	s := sizes[z.Choice("size", n)]
	return newCanvas(s[0], s[1])
}

// CheckFromBytes: canvases made of bytes, with more of them than needed.
func CheckFromBytes() {
	s := sizes[z.Choice("size", z.Pick(8, 11))]
	c := &canvas{img: &m.MonoImg{}, w: s[0], h: s[1], stride: (s[0] + 7) / 8, bw: s[0], bh: s[1]}
	err := c.img.CreateFromBytes(c.w, c.h, z.Bytes("px", c.stride*c.h+z.Choice("extra", 3)))
	z.Assert(err == nil, "enough bytes")
	c.keep()
	if z.Choice("clip", 2) == 1 {
		c.clip(far)
	}
	x, y, color := z.Int("x", -far, far), z.Int("y", -far, far), z.Bool("color")
	c.img.DrawPixel(x, y, color)
	c.changes(true, color, box{x, y, x + 1, y + 1})
}

// CheckHLine: horizontal lines.
func CheckHLine() {
	c := some(z.Pick(2, 11))
	c.clip(near)
	c.invert()
	color := z.Bool("color")
	n := []int{3, 10, -1, 0, 1, -30, 20, 70}[z.Choice("n", z.Pick(3, 8))]
	x, y := c.place(0, 0, n, 1)
	c.img.DrawFastHLine(x, y, n, color)
	c.changes(true, color, box{x, y, x + n, y + 1})
}

// CheckVLine: vertical lines.
func CheckVLine() {
	c := some(z.Pick(2, 11))
	c.clip(near)
	c.invert()
	color := z.Bool("color")
	n := []int{2, 4, -1, 0, 1, -30, 20, 70}[z.Choice("n", z.Pick(3, 8))]
	x, y := c.place(0, 0, 1, n)
	c.img.DrawFastVLine(x, y, n, color)
	c.changes(true, color, box{x, y, x + 1, y + n})
}

// CheckRect: filled rectangles.
func CheckRect() {
	c := some(z.Pick(2, 8))
	c.clip(near)
	c.invert()
	color := z.Bool("color")
	d := [][2]int{{2, 2}, {1, 4}, {5, 1}, {0, 3}, {3, 0}, {-2, 3}, {3, -30}, {10, 2}, {3, 3}, {9, 9}}[z.Choice("d", z.Pick(7, 10))]
	x, y := c.place(0, 0, d[0], d[1])
	c.img.FillRect(x, y, d[0], d[1], color)
	c.changes(true, color, box{x, y, x + d[0], y + d[1]})
}

// CheckLong: lines and rectangles much larger than the canvas, everywhere around it.
func CheckLong() {
	c := newCanvas(9, 3)
	if z.Choice("clip", 2) == 1 {
		c.bx, c.by, c.bw, c.bh = 2, 1, 5, 1
		c.img.SetBoundingBox(2, 1, 5, 1)
	}
	x, y, color := -z.Choice("x", 300), -z.Choice("y", 3), z.Bool("color")
	switch z.Choice("op", 3) {
	case 0:
		c.img.DrawFastHLine(x, y, 290, color)
		c.changes(true, color, box{x, y, x + 290, y + 1})
	case 1:
		c.img.DrawFastVLine(y, x, 290, color)
		c.changes(true, color, box{y, x, y + 1, x + 290})
	case 2:
		c.img.FillRect(x, y, 290, 3, color)
		c.changes(true, color, box{x, y, x + 290, y + 3})
	}
}

func least(v int, more ...int) int {
	for _, k := range more {
		if k < v {
			v = k
		}
	}
	return v
}

func most(v int, more ...int) int {
	for _, k := range more {
		if k > v {
			v = k
		}
	}
	return v
}

// rounded is the footprint of a rounded rectangle; a radius that does not fit reaches beyond the rectangle.
func rounded(x, y, w, h, r int) box {
	return box{least(x, x+r, x+w-1-r), least(y, y+r, y+h-1-r), most(x+w, x+r+1, x+w-r), most(y+h, y+r+1, y+h-r)}
}

var rounds = [][3]int{{5, 4, 1}, {6, 6, 2}, {4, 3, 0}, {2, 2, 3}, {0, 0, 1}, {-1, 5, 1}, {7, 7, 3}, {5, 5, -1}, {9, 2, 4}, {1, 1, 0}, {12, 9, 4}}

// CheckRoundRect: outlines with rounded corners.
func CheckRoundRect() {
	c := some(z.Pick(1, 4))
	c.clip(near)
	c.invert()
	color := z.Bool("color")
	d := rounds[z.Choice("d", z.Pick(8, 11))]
	f := rounded(0, 0, d[0], d[1], d[2])
	x, y := c.place(f.x0, f.y0, f.x1, f.y1)
	c.img.DrawRoundRect(x, y, d[0], d[1], d[2], color)
	c.changes(false, color, rounded(x, y, d[0], d[1], d[2]))
}

// CheckFillRound: filled rectangles with rounded corners.
func CheckFillRound() {
	c := some(z.Pick(1, 4))
	c.clip(near)
	c.invert()
	color := z.Bool("color")
	d := rounds[z.Choice("d", z.Pick(8, 11))]
	f := rounded(0, 0, d[0], d[1], d[2])
	x, y := c.place(f.x0, f.y0, f.x1, f.y1)
	c.img.FillRoundRect(x, y, d[0], d[1], d[2], color)
	c.changes(false, color, rounded(x, y, d[0], d[1], d[2]))
}

// CheckCorner: the corner helper, any combination of corners.
func CheckCorner() {
	c := some(z.Pick(1, 4))
	c.clip(near)
	c.invert()
	color := z.Bool("color")
	r := []int{2, 0, 1, 5, -3}[z.Choice("r", z.Pick(4, 5))]
	k := []int{15, 1, 2, 4, 8, 0, 16, 5, 10, 3, 7, 11, 13, 14, 6, 9, 12}[z.Choice("corners", z.Pick(6, 17))]
	x, y := c.place(-r, -r, r+1, r+1)
	c.img.DrawCircleHelper(x, y, r, k, color)
	var bs []box
	for i, b := range []box{{x - r, y - r, x + 1, y + 1}, {x, y - r, x + r + 1, y + 1}, {x, y, x + r + 1, y + r + 1}, {x - r, y, x + 1, y + r + 1}} {
		if k>>uint(i)&1 == 1 {
			bs = append(bs, b)
		}
	}
	c.changes(false, color, bs...)
}

// CheckFillCorner: the filling corner helper.
func CheckFillCorner() {
	c := some(z.Pick(1, 4))
	c.clip(near)
	c.invert()
	color := z.Bool("color")
	r, delta := []int{2, 0, 1, 4, -3}[z.Choice("r", z.Pick(3, 5))], []int{0, 3, -1, -2, -9, 7}[z.Choice("delta", z.Pick(3, 6))]
	k := []int{1, 3, 2, 0, 4}[z.Choice("corners", z.Pick(3, 5))]
	x, y := c.place(-r, -r, r+1, r+1+most(delta, 0))
	c.img.FillCircleHelper(x, y, r, k, delta, color)
	var bs []box
	if k&1 == 1 {
		bs = append(bs, box{x, y - r, x + r + 1, y + r + 1 + most(delta, 0)})
	}
	if k&2 == 2 {
		bs = append(bs, box{x - r, y - r, x + 1, y + r + 1 + most(delta, 0)})
	}
	c.changes(false, color, bs...)
}

// CheckBitmap: bitmaps of any content, with too little and too much data.
func CheckBitmap() {
	c := some(z.Pick(1, 5))
	c.clip(near)
	c.invert()
	color := z.Bool("color")
	d := [][2]int{{3, 2}, {8, 1}, {9, 2}, {0, 2}, {2, 0}, {-1, 2}, {2, -1}, {10, 3}}[z.Choice("d", z.Pick(7, 8))]
	data := z.Bytes("data", z.Choice("len", z.Pick(4, 7)))
	x, y := c.place(0, 0, d[0], d[1])
	c.img.DrawBitmap(x, y, data, d[0], d[1], color, z.Bool("inverted"), z.Bool("all"))
	c.changes(false, color, box{x, y, x + d[0], y + d[1]})
}

var boxes = [][4]int{{2, 1, 5, 1}, {-1, -1, 6, 3}, {3, 0, 40, 40}, {0, 0, 9, 3}, {1, 1, 0, 1}, {0, 0, -3, 2}}

// boxed sets one of some bounding boxes.
func (c *canvas) boxed(n int) {
	b := boxes[z.Choice("box", n)]
	c.bx, c.by, c.bw, c.bh = b[0], b[1], b[2], b[3]
	c.img.SetBoundingBox(b[0], b[1], b[2], b[3])
}

var textSizes = [][2]int{{1, 1}, {2, 1}, {1, 3}, {2, 2}, {0, 0}, {-1, 2}, {2, -1}}

// glyph draws one character and checks its cell.
func (c *canvas) glyph(x, y int, ch byte, sh, sv int) {
	font, prop := z.Choice("font", 3), z.Choice("prop", 2) == 1
	c.img.SetFont(font, prop)
	color, bg := z.Bool("color"), z.Bool("bg")
	w, h := int(c.img.GetCharWidth(ch)), []int{8, 8, 6}[font]
	c.img.DrawChar(x, y, ch, color, bg, sh, sv)
	c.changes(false, color, box{x, y, x + w*sh, y + h*sv})
}

// CheckChar: every character in every font, at some positions.
func CheckChar() {
	c := newCanvas(11, 9)
	c.boxed(z.Pick(3, 6))
	c.invert()
	ch := z.Choice("char", 256)
	at := [][2]int{{2, 0}, {-3, -2}, {7, 5}}[z.Choice("at", z.Pick(1, 3))]
	size := textSizes[z.Choice("size", z.Pick(1, 4))]
	c.glyph(at[0]-c.bx, at[1]-c.by, byte(ch), size[0], size[1])
}

// CheckCharPlace: some characters in every position and size.
func CheckCharPlace() {
	c := some(z.Pick(1, 3))
	c.boxed(z.Pick(3, 6))
	c.invert()
	ch := "Wi\x01 \x7f~"[z.Choice("char", z.Pick(3, 6))]
	size := textSizes[z.Choice("size", z.Pick(2, 7))]
	x, y := c.place(0, 0, most(9*size[0], 1), most(8*size[1], 1))
	c.glyph(x, y, ch, size[0], size[1])
}

var texts = []string{"Al", "a\nW", "", "\x01é\xff", "i\r\n\nj", "   .", "The quick"}

// CheckText: strings with and without wrapping, from every position of the cursor.
func CheckText() {
	c := some(z.Pick(1, 3))
	c.boxed(z.Pick(3, 6))
	c.invert()
	str := texts[z.Choice("text", z.Pick(4, 7))]
	size := textSizes[z.Choice("size", z.Pick(1, 7))]
	wrap := z.Choice("wrap", 2) == 1
	font := z.Choice("font", z.Pick(1, 3))
	x, y := c.place(0, 0, 24, 10)
	c.img.SetFont(font, true)
	c.img.SetTextSize(size[0], size[1])
	c.img.SetTextColor(z.Bool("color"))
	c.img.SetTextWrap(wrap)
	c.img.SetCursor(x, y)
	c.img.RenderText(str)
	if wrap { // Further lines start at the left of the bounding box.
		if size[1] >= 0 {
			c.changes(false, true, box{least(x, 0), y, 10 * near, 10 * near})
		}
		return
	}
	lh := int(c.img.LineHeight())
	if size[1] < 0 {
		c.changes(false, true)
		return
	}
	var bs []box
	w := 0
	for _, ch := range str + "\n" {
		if ch == 10 {
			bs = append(bs, box{x, y, x + w, y + lh})
			x, y, w = 0, y+lh, 0
		} else if ch != 13 {
			w += int(c.img.GetCharWidth(byte(ch))) * most(size[0], 1)
		}
	}
	c.changes(false, true, bs...)
}

// CheckSequence: after any operation, the next one still goes by the bounding box and the inversion that were set.
func CheckSequence() {
	c := newCanvas(9, 3)
	set := func() { c.boxed(z.Pick(4, 6)) }
	if z.Choice("order", 2) == 0 {
		c.invert()
		set()
	} else {
		set()
		c.invert()
	}
	color := z.Bool("color")
	switch z.Choice("first", 14) {
	case 0:
		c.img.DrawPixel(1, 1, color)
	case 1:
		c.img.DrawFastHLine(-1, 1, 9, color)
	case 2:
		c.img.DrawFastVLine(3, -1, 9, color)
	case 3:
		c.img.FillRect(1, 0, 4, 2, color)
	case 4:
		c.img.DrawRoundRect(0, 0, 6, 5, 1, color)
	case 5:
		c.img.FillRoundRect(0, 0, 6, 5, 2, color)
	case 6:
		c.img.DrawCircleHelper(3, 1, 2, 15, color)
	case 7:
		c.img.FillCircleHelper(3, 1, 2, 3, 1, color)
	case 8:
		c.img.DrawBitmap(-1, 0, []byte{0xA5, 0x5A, 0xFF}, 7, 3, color, false, true)
	case 9:
		c.img.DrawChar(1, -2, 'R', color, !color, 1, 1)
	case 10:
		c.img.SetTextColor(color)
		c.img.SetCursor(-2, 0)
		c.img.RenderText("x\nyz")
	case 11:
		c.img.GetImgSliceRGB()
		c.img.GetImgSliceGray()
	case 12:
		c.img.ConvertToImage(true)
	case 13:
		c.img.SetFont(1, false)
		c.img.SetTextSize(2, 0)
		c.img.StrWidth("abc")
		c.img.LineHeight()
		c.img.SetOLEDPixelColor(7)
		c.img.SetOLEDBckgColor(1)
	}
	z.Assert(c.img.GetBWidth() == c.bw || c.bw <= 0, "the width of the bounding box")
	z.Assert(c.img.GetBHeight() == c.bh || c.bh <= 0, "the height of the bounding box")
	if z.Choice("again", 2) == 1 {
		set()
	}
	c.keep()
	x, y := c.place(0, 0, 1, 1)
	color = z.Bool("color2")
	c.img.DrawPixel(x, y, color)
	c.changes(true, color, box{x, y, x + 1, y + 1})
}
