// Package zzmodel holds Go code that the engine executes in place of library functions it cannot execute. It never
// runs natively: replays use the real functions.
package zzmodel

import (
	"errors"
	"image"
	"image/color"
	"io"
)

// PngEncode stands for png.Encode: the codec is taken to be lossless, so that a header and the pixels are enough.
func PngEncode(w io.Writer, m image.Image) error {
	b := m.Bounds()
	dx, dy := b.Dx(), b.Dy()
	if dx <= 0 || dy <= 0 {
		return errors.New("png: invalid format: invalid image size")
	}
	buf := []byte("\x89PNG\r\n\x1a\n")
	buf = append(buf, byte(dx>>24), byte(dx>>16), byte(dx>>8), byte(dx), byte(dy>>24), byte(dy>>16), byte(dy>>8), byte(dy))
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			c := color.NRGBAModel.Convert(m.At(x, y)).(color.NRGBA)
			buf = append(buf, c.R, c.G, c.B, c.A)
		}
	}
	_, err := w.Write(buf)
	return err
}

// PngDecode stands for png.Decode.
func PngDecode(r io.Reader) (image.Image, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	if len(b) < 16 {
		return nil, io.ErrUnexpectedEOF
	}
	if string(b[:8]) != "\x89PNG\r\n\x1a\n" {
		return nil, errors.New("png: invalid format: not a PNG file")
	}
	dx, dy := int(b[8])<<24|int(b[9])<<16|int(b[10])<<8|int(b[11]), int(b[12])<<24|int(b[13])<<16|int(b[14])<<8|int(b[15])
	if len(b)-16 < 4*dx*dy {
		return nil, io.ErrUnexpectedEOF
	}
	return &image.NRGBA{Pix: b[16 : 16+4*dx*dy], Stride: 4 * dx, Rect: image.Rect(0, 0, dx, dy)}, nil
}
