// Package c17: pixel formats agree with each other and with the mono bitmap.
package c17

import (
	"bytes"
	"image"
	"image/png"

	rp "github.com/SKAARHOJ/rawpanel-lib"
	m "github.com/SKAARHOJ/rawpanel-lib/ibeam_lib_monogfx"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	_ "github.com/SKAARHOJ/rawpanel-lib/zzverif/zzmodel"
	z "github.com/SKAARHOJ/rawpanel-lib/zzverif/zzsym"
)

const Harness = "c17"

// sizes: widths around byte edges, no width, no height.
var sizes = [][2]int{{9, 2}, {8, 2}, {2, 3}, {0, 2}, {2, 0}, {1, 1}, {7, 2}, {16, 1}, {17, 2}, {6, 3}, {3, 3}, {24, 2}, {10, 1}, {64, 1}, {0, 0}, {100, 3}, {3, 130}}

func size(quick, deep int) (w, h int) {
	s := sizes[z.Choice("size", z.Pick(quick, deep))]
	return s[0], s[1]
}

// picture is a mono image of arbitrary content and the content.
func picture(w, h int) (*m.MonoImg, []byte) {
	img := &m.MonoImg{}
	data := z.Bytes("px", (w+7)/8*h)
	if z.Choice("made", 2) == 0 {
		z.Assert(img.CreateFromBytes(w, h, append([]byte{}, data...)) == nil, "enough bytes")
	} else {
		img.NewImage(w, h)
		copy(img.GetImgSlice(), data)
	}
	return img, data
}

func bit(data []byte, w, x, y int) bool { return data[y*((w+7)/8)+x/8]&(128>>uint(x%8)) != 0 }

// CheckRGB: the RGB565 export.
func CheckRGB() {
	w, h := size(9, 17)
	img, data := picture(w, h)
	px, bg := uint16(z.Int("pixel", 0, 0xFFFF)), uint16(z.Int("background", 0, 0xFFFF))
	img.OLEDPixelColor, img.OLEDBckgColor = px, bg
	out := img.GetImgSliceRGB()
	z.Assert(len(out) == 2*w*h, "the size of the RGB565 export")
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			want := bg
			if bit(data, w, x, y) {
				want = px
			}
			i := 2 * (y*w + x)
			z.Assert(out[i] == byte(want>>8) && out[i+1] == byte(want), "a pixel of the RGB565 export")
		}
	}
	same(img, data)
}

// same checks that an export leaves the picture as it was.
func same(img *m.MonoImg, data []byte) {
	z.Assert(len(img.GetImgSlice()) == len(data), "an export changes the picture")
	for i, b := range img.GetImgSlice() {
		z.Assert(b == data[i], "an export changes the picture")
	}
}

// luma of an RGB565 colour: 16 bits per channel weighted as the JFIF specification has it.
func luma(c uint16) uint32 {
	r, g, b := uint32(c&31)*2114, uint32(c>>5&63)*1040, uint32(c>>11&31)*2114
	return (19595*r + 38470*g + 7471*b + 1<<15) >> 16
}

// CheckGrey: the 4-bit grey export; with odd widths it must at least not panic.
func CheckGrey() {
	w, h := size(9, 17)
	img, data := picture(w, h)
	px, bg := uint16(z.Int("pixel", 0, 0xFFFF)), uint16(z.Int("background", 0, 0xFFFF))
	img.OLEDPixelColor, img.OLEDBckgColor = px, bg
	out := img.GetImgSliceGray()
	same(img, data)
	if w%2 != 0 {
		return
	}
	z.Assert(len(out) == w*h/2, "the size of the grey export")
	on, off := byte(luma(px)>>12), byte(luma(bg)>>12)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			want := off
			if bit(data, w, x, y) {
				want = on
			}
			i := y*w + x
			got := out[i/2] & 15
			if i%2 == 0 {
				got = out[i/2] >> 4
			}
			z.Assert(got == want, "a pixel of the grey export")
		}
	}
}

// CheckLuma: the extremes and the order of greys.
func CheckLuma() {
	c, d := uint16(z.Int("c", 0, 0xFFFF)), uint16(z.Int("d", 0, 0xFFFF))
	z.Assert(m.RGB16BitToGray(c) == byte(luma(c)>>8), "the luma of a colour")
	z.Assert(m.RGB16BitToGray(0) == 0 && m.RGB16BitToGray(0xFFFF) == 0xFF, "black and white")
	if z.Thorough() && c&31 <= d&31 && c>>5&63 <= d>>5&63 && c>>11 <= d>>11 {
		z.Assert(m.RGB16BitToGray(c) <= m.RGB16BitToGray(d), "a brighter colour is not darker grey")
	}
}

// CheckColors: 6-bit rrggbb colours (higher bits are ignored) become bbbbbggg gggrrrrr.
func CheckColors() {
	img := &m.MonoImg{}
	img.NewImage(8, 1)
	px, bg := z.Int("pixel", -1<<62, 1<<62), z.Int("background", -1<<62, 1<<62)
	if z.Choice("order", 2) == 0 {
		img.SetOLEDPixelColor(px)
		img.SetOLEDBckgColor(bg)
	} else {
		img.SetOLEDBckgColor(bg)
		img.SetOLEDPixelColor(px)
	}
	want := func(c int) uint16 { return uint16(c&3*31/3)<<11 | uint16(c>>2&3*63/3)<<5 | uint16(c>>4&3*31/3) }
	z.Assert(img.OLEDPixelColor == want(px), "the pixel colour")
	z.Assert(img.OLEDBckgColor == want(bg), "the background colour")
	img.GetImgSlice()[0] = 0xA0
	out := img.GetImgSliceRGB()
	for x := 0; x < 8; x++ {
		c := want(bg)
		if x == 0 || x == 2 {
			c = want(px)
		}
		z.Assert(out[2*x] == byte(c>>8) && out[2*x+1] == byte(c), "the colours of the export")
	}
}

// CheckObject: a mono image as an image object (a set bit is black, or white if inverted) and back.
func CheckObject() {
	w, h := size(9, 17)
	img, data := picture(w, h)
	invert := z.Choice("invert", 2) == 1
	obj := img.ConvertToImage(invert)
	same(img, data)
	z.Assert(obj.Bounds() == image.Rect(0, 0, w, h), "the size of the image object")
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			want := uint32(0)
			if bit(data, w, x, y) == invert {
				want = 0xFFFF
			}
			r, g, b, a := obj.At(x, y).RGBA()
			z.Assert(r == want && g == want && b == want && a == 0xFFFF, "a pixel of the image object")
		}
	}
	back := &m.MonoImg{}
	if z.Choice("again", 2) == 1 {
		back.NewImage(5, 5)
		back.FillRect(0, 0, 5, 5, true)
		back.SetBoundingBox(1, 1, 1, 1)
	}
	back.CreateFromImage(obj)
	z.Assert(back.Width == w && back.Height == h && len(back.GetImgSlice()) == (w+7)/8*h, "the size of the mono image")
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			z.Assert(bit(back.GetImgSlice(), w, x, y) == (bit(data, w, x, y) != invert), "a pixel of the mono image")
		}
	}
}

// ref is the documented expansion of pixel i of a state, if the data covers it.
func ref(t int, w, i int, data []byte) (r, g, b int, ok bool) {
	switch t {
	case 0:
		x, y := i%w, i/w
		if y*((w+7)/8)+x/8 >= len(data) {
			return
		}
		v := 0
		if bit(data, w, x, y) {
			v = 255
		}
		return v, v, v, true
	case 1:
		if 2*i+1 >= len(data) {
			return
		}
		c := int(data[2*i])<<8 | int(data[2*i+1])
		return c & 31 * 255 / 31, c >> 5 & 63 * 255 / 63, c >> 11 & 31 * 255 / 31, true
	}
	if i/2 >= len(data) {
		return
	}
	v := int(data[i/2])
	if i%2 == 0 {
		v >>= 4
	}
	v = v & 15 * 17
	return v, v, v, true
}

func state(w, h int) (*rwp.HWCState, int) {
	t := z.Choice("type", 3)
	need := []int{(w + 7) / 8 * h, 2 * w * h, (w*h + 1) / 2}[t]
	n := need
	switch z.Choice("length", z.Pick(5, 7)) {
	case 1:
		n = need + 3
	case 2:
		n = need - 1
	case 3:
		n = need / 2
	case 4:
		n = 0
	case 5:
		n = need - 2
	case 6:
		n = 1
	}
	if n < 0 {
		n = 0
	}
	st := &rwp.HWCState{HWCIDs: []uint32{1}, HWCGfx: &rwp.HWCGfx{W: uint32(w), H: uint32(h), ImageType: []rwp.HWCGfx_ImageTypeE{rwp.HWCGfx_MONO, rwp.HWCGfx_RGB16bit, rwp.HWCGfx_Gray4bit}[t], ImageData: z.Bytes("data", n)}}
	return st, t
}

// covered checks the pixels of an image that the data covers, from (ox,oy) on.
func covered(obj image.Image, t, w, h, ox, oy int, data []byte, what string) {
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			if w*h > 400 && (x+y*w)%29 > 3 || w*h > 120 && w*h <= 400 && x+y < 120 {
				continue // a part of it
			}
			if !(image.Point{X: x + ox, Y: y + oy}.In(obj.Bounds())) {
				continue
			}
			r, g, b, ok := ref(t, w, y*w+x, data)
			if !ok {
				continue
			}
			gr, gg, gb, ga := obj.At(x+ox, y+oy).RGBA()
			z.Assert(gr == uint32(r)*257 && gg == uint32(g)*257 && gb == uint32(b)*257 && ga == 0xFFFF, what)
		}
	}
}

// CheckPNG: a state by way of PNG.
func CheckPNG() {
	w, h := size(8, 17)
	st, t := state(w, h)
	data := append([]byte{}, st.HWCGfx.ImageData...)
	raw, err := rp.ConvertGfxStateToPngBytes(st)
	if w == 0 || h == 0 {
		return // PNG has no empty images
	}
	z.Assert(err == nil, "the conversion to PNG fails")
	obj, err := png.Decode(bytes.NewReader(raw))
	z.Assert(err == nil, "the PNG cannot be decoded")
	z.Assert(obj.Bounds() == image.Rect(0, 0, w, h), "the size of the PNG")
	covered(obj, t, w, h, 0, 0, data, "a pixel of the PNG")
	for i, b := range st.HWCGfx.ImageData {
		z.Assert(b == data[i], "the conversion changes the state")
	}
}

// CheckDirect: a state directly as an image object of its size.
func CheckDirect() {
	w, h := size(8, 17)
	st, t := state(w, h)
	gfx := st.HWCGfx
	obj := rp.RwpImgToImage(gfx, w, h)
	z.Assert(obj.Bounds() == image.Rect(0, 0, w, h), "the size of the image")
	covered(obj, t, w, h, 0, 0, gfx.ImageData, "a pixel of the image")
	switch t {
	case 1:
		obj = rp.CreateImgObjectFromRGBBytes(w, h, gfx.ImageData)
	case 2:
		obj = rp.CreateImgObjectFromGrayBytes(w, h, gfx.ImageData)
	default:
		return
	}
	z.Assert(obj.Bounds() == image.Rect(0, 0, w, h), "the size of the image of bytes")
	covered(obj, t, w, h, 0, 0, gfx.ImageData, "a pixel of the image of bytes")
}

// CheckCanvas: a state on smaller and larger images: in the middle and black around.
func CheckCanvas() {
	w, h := size(4, 9)
	st, t := state(w, h)
	cw, ch := w+[]int{2, -2, 4, -4, -5, 1, 9, -30}[z.Choice("dw", z.Pick(4, 8))], h+[]int{2, -2, 0, 4, 1, -9}[z.Choice("dh", z.Pick(3, 6))]
	if cw < 0 {
		cw = 0
	}
	if ch < 0 {
		ch = 0
	}
	obj := rp.RwpImgToImage(st.HWCGfx, cw, ch)
	z.Assert(obj.Bounds() == image.Rect(0, 0, cw, ch), "the size of the canvas")
	dx, dy := cw-w, ch-h
	if dx%2 != 0 || dy%2 != 0 {
		return // either side of the middle
	}
	covered(obj, t, w, h, dx/2, dy/2, st.HWCGfx.ImageData, "a pixel on the canvas")
	for y := 0; y < ch; y++ {
		for x := 0; x < cw; x++ {
			if x < dx/2 || y < dy/2 || x >= dx/2+w || y >= dy/2+h {
				r, g, b, _ := obj.At(x, y).RGBA()
				z.Assert(r == 0 && g == 0 && b == 0, "a pixel around the image is not black")
			}
		}
	}
}

// CheckExport: what the exports of a mono image produce shows the same picture when read back as a state.
func CheckExport() {
	w, h := [][2]int{{8, 2}, {6, 3}, {10, 1}, {2, 2}}[z.Choice("size", z.Pick(2, 4))][0], 2
	img, data := picture(w, h)
	px, bg := z.Choice("pixel", 64), z.Choice("background", z.Pick(2, 64))
	img.SetOLEDPixelColor(px)
	img.SetOLEDBckgColor(bg)
	rgb := rp.RwpImgToImage(&rwp.HWCGfx{W: uint32(w), H: uint32(h), ImageType: rwp.HWCGfx_RGB16bit, ImageData: img.GetImgSliceRGB()}, w, h)
	grey := rp.RwpImgToImage(&rwp.HWCGfx{W: uint32(w), H: uint32(h), ImageType: rwp.HWCGfx_Gray4bit, ImageData: img.GetImgSliceGray()}, w, h)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			c := bg
			if bit(data, w, x, y) {
				c = px
			}
			r, g, b, _ := rgb.At(x, y).RGBA()
			for i, v := range []uint32{r, g, b} {
				step := uint32(c>>uint(4-2*i)) & 3
				d := int(v>>8) - int(step*85)
				z.Assert(d >= -8 && d <= 8, "a colour is far from the 6-bit colour")
			}
			y16 := (19595*(r>>8) + 38470*(g>>8) + 7471*(b>>8)) >> 16
			gr, _, _, _ := grey.At(x, y).RGBA()
			d := int(gr>>8) - int(y16)
			z.Assert(d >= -17 && d <= 17, "the grey is far from the colour's luma")
		}
	}
}

// CheckLarge: sizes beyond a byte.
func CheckLarge() {
	s := [][2]int{{131, 1}, {1, 130}, {260, 2}, {1, 300}}[z.Choice("size", z.Pick(2, 4))]
	st, t := state(s[0], s[1])
	obj := rp.RwpImgToImage(st.HWCGfx, s[0], s[1])
	z.Assert(obj.Bounds() == image.Rect(0, 0, s[0], s[1]), "the size of the image")
	covered(obj, t, s[0], s[1], 0, 0, st.HWCGfx.ImageData, "a pixel of the image")
	raw, err := rp.ConvertGfxStateToPngBytes(st)
	z.Assert(err == nil, "the conversion to PNG fails")
	obj, err = png.Decode(bytes.NewReader(raw))
	z.Assert(err == nil, "the PNG cannot be decoded")
	z.Assert(obj.Bounds() == image.Rect(0, 0, s[0], s[1]), "the size of the PNG")
	covered(obj, t, s[0], s[1], 0, 0, st.HWCGfx.ImageData, "a pixel of the PNG")
}

// CheckNothing: no state, no graphics, an unknown format: an error and no panic.
func CheckNothing() {
	var st *rwp.HWCState
	switch z.Choice("what", 3) {
	case 1:
		st = &rwp.HWCState{}
	case 2:
		st = &rwp.HWCState{HWCGfx: &rwp.HWCGfx{W: 2, H: 2, ImageType: rwp.HWCGfx_ImageTypeE(z.Int32("type", 3, 1<<30)), ImageData: z.Bytes("data", 4)}}
		obj := rp.RwpImgToImage(st.HWCGfx, 2, 2)
		z.Assert(obj.Bounds() == image.Rect(0, 0, 2, 2), "the size of the image")
	}
	_, err := rp.ConvertGfxStateToPngBytes(st)
	z.Assert(err != nil, "nothing to render is an error")
}
