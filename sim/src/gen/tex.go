//go:build go1.22

package gen

import (
	"bytes"
	"image"
	"image/color"
	"image/gif"
	"image/jpeg"
	"image/png"
	"strings"
)

// Image draws a w*h picture; alpha: it has transparent parts.
func Image(r *R, w, h int, alpha bool) *image.NRGBA {
	m := image.NewNRGBA(image.Rect(0, 0, w, h))
	noise := r.P(40)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			c := color.NRGBA{uint8(x * 37), uint8(y * 61), uint8((x ^ y) * 11), 255}
			if noise {
				c.R = uint8(r.N(256))
			}
			if alpha && (x+y)%3 == 0 {
				c.A = uint8(r.N(256))
			}
			m.SetNRGBA(x, y, c)
		}
	}
	return m
}

// Texture encodes a picture in the format that the extension of name says.
func Texture(r *R, name string) []byte {
	w, h := r.In(1, 12), r.In(1, 12)
	if r.P(10) {
		w, h = 40, 33
	}
	ext := strings.ToLower(name[strings.LastIndex(name, ".")+1:])
	if ext == "tga" && w*h < 4 {
		w, h = 2, 2 // the decoder wants the size of a footer
	}
	m := Image(r, w, h, r.P(30))
	var b bytes.Buffer
	switch ext {
	case "jpg", "jpeg":
		jpeg.Encode(&b, m, nil)
	case "gif":
		gif.Encode(&b, m, nil)
	case "bmp":
		return bmp(m)
	case "tga":
		return tga(r, m)
	default:
		png.Encode(&b, m)
	}
	return b.Bytes()
}

func bmp(m *image.NRGBA) []byte {
	w, h := m.Bounds().Dx(), m.Bounds().Dy()
	stride := (w*3 + 3) &^ 3
	var e enc
	e.WriteString("BM")
	e.u32(54 + stride*h)
	e.u32(0)
	e.u32(54)
	e.u32(40)
	e.u32(w)
	e.u32(h)
	e.u16(1)
	e.u16(24)
	e.u32(0)
	e.u32(stride * h)
	e.u32(2835)
	e.u32(2835)
	e.u32(0)
	e.u32(0)
	for y := h - 1; y >= 0; y-- {
		for x := 0; x < w; x++ {
			c := m.NRGBAAt(x, y)
			e.Write([]byte{c.B, c.G, c.R})
		}
		e.Write(make([]byte, stride-w*3))
	}
	return e.Bytes()
}

func tga(r *R, m *image.NRGBA) []byte {
	w, h := m.Bounds().Dx(), m.Bounds().Dy()
	var e enc
	e.Write([]byte{0, 0, 2, 0, 0, 0, 0, 0})
	e.u16(0)
	e.u16(0)
	e.u16(w)
	e.u16(h)
	depth := 24
	if r.P(50) {
		depth = 32
	}
	e.u8(depth)
	desc := 0
	if depth == 32 {
		desc = 8
	}
	e.u8(desc | 0x20) // top-left
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			c := m.NRGBAAt(x, y)
			e.Write([]byte{c.B, c.G, c.R})
			if depth == 32 {
				e.u8(int(c.A))
			}
		}
	}
	return e.Bytes()
}

var texExts = []string{"png", "png", "png", "jpg", "jpeg", "bmp", "tga", "gif", "PNG", "BMP"}

// TexNames makes n names of texture files.
func TexNames(r *R, n int, dir string) []string {
	var s []string
	for i := 0; i < n; i++ {
		name := r.Pick("tex", "body", "髪", "t", "eye x") + string(rune('0'+i%10)) + "." + texExts[r.N(len(texExts))]
		if dir != "" && r.P(50) {
			name = dir + "/" + name
		}
		if i > 0 && r.P(15) { // another one of this name
			name = "alt/" + s[i-1][strings.LastIndex(s[i-1], "/")+1:]
		}
		s = append(s, name)
	}
	return s
}
