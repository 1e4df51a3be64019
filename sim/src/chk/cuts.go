//go:build go1.22

package chk

import (
	"bytes"
	"encoding/binary"
	"strings"

	"github.com/binzume/modelconv/fbx"
)

// mqoBoundary: the cut lies between the top-level chunks of a .mqo.
func mqoBoundary(data []byte, pos int) bool {
	depth := 0
	inStr := false
	for _, c := range data[:pos] {
		switch c {
		case '"':
			inStr = !inStr
		case '{':
			if !inStr {
				depth++
			}
		case '}':
			if !inStr {
				depth--
			}
		}
	}
	return depth == 0
}

// vmdBoundary: the cut lies at the start of an optional section of a .vmd.
func vmdBoundary(data []byte, pos int) bool {
	p := 30 + 20
	if len(data) < p+4 {
		return false
	}
	u32 := func() int {
		if p+4 > len(data) {
			return 0
		}
		return int(binary.LittleEndian.Uint32(data[p:]))
	}
	p += 4 + u32()*111 // bones
	if pos == p {
		return true
	}
	p += 4 + u32()*23 // morphs
	if pos == p {
		return true
	}
	p += 4 + u32()*61 // cameras
	if pos == p {
		return true
	}
	p += 4 + u32()*28 // lights
	if pos == p {
		return true
	}
	p += 4 + u32()*9 // shadows
	return pos == p
}

func cutAllowed(e *libEnv, f string, data []byte, pos int, doc interface{}) bool {
	switch e.kind {
	case "mqo", "mqox", "mqos":
		return strings.HasSuffix(f, ".mqo") && mqoBoundary(data, pos)
	case "vmd":
		return vmdBoundary(data, pos)
	case "pmd":
		return pmdBoundary(data, pos)
	case "fbxt":
		// only whole top-level nodes may be missing
		d, ok := doc.(*fbx.Document)
		if !ok || d.RawNode == nil || !mqoBoundary(data, pos) {
			return false
		}
		full, err := fbx.Parse(bytes.NewReader(data))
		if err != nil || len(d.RawNode.Children) > len(full.RawNode.Children) {
			return false
		}
		for i, c := range d.RawNode.Children {
			if Dump(c, false) != Dump(full.RawNode.Children[i], false) {
				return false
			}
		}
		return true
	}
	return false
}

// pmdBoundary: the cut lies at the start of an optional section at the end of a .pmd.
func pmdBoundary(data []byte, pos int) bool {
	p := 3 + 4 + 20 + 256
	ok := true
	u := func(n int) int {
		if p+n > len(data) {
			ok = false
			return 0
		}
		v := 0
		for i := n - 1; i >= 0; i-- {
			v = v<<8 | int(data[p+i])
		}
		p += n
		return v
	}
	p += u(4) * 38 // vertexes
	p += u(4) * 2  // faces
	p += u(4) * 70 // materials
	nb := u(2)
	p += nb * 39
	for n := u(2); n > 0 && ok; n-- { // IK
		p += 4
		l := u(1)
		p += 6 + l*2
	}
	nm := u(2)
	for n := nm; n > 0 && ok; n-- { // morphs
		p += 20
		v := u(4)
		p += 1 + v*16
	}
	p += u(1) * 2 // displayed morphs
	groups := u(1)
	p += groups * 50
	p += u(4) * 3
	if pos == p {
		return true
	}
	if u(1) != 0 { // english names
		p += 20 + 256 + nb*20
		if nm > 0 {
			p += (nm - 1) * 20
		}
		p += groups * 50
	}
	if pos == p {
		return true
	}
	p += 1000 // toon textures
	if pos == p {
		return true
	}
	p += u(4) * 83 // bodies
	if pos == p {
		return true
	}
	return false
}
