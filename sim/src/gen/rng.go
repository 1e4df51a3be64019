//go:build go1.22

// Package gen makes the inputs of the simulation: documents and files of every
// format, from a seed and a size. Its encoders are independent of the program's
// own writers.
package gen

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"

	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/transform"
)

// R is a seeded source of choices.
type R struct {
	s uint64
	// Cyclic: objects of a model may contain or refer to each other in circles
	Cyclic bool
	// Neat: the weights of a vertex belong to at most four bones and add up to one
	Neat bool
	// Human: bones and morphs have the names that VRM configurations look for
	Human bool
	// Big: models have as many things of a kind as one byte can count (1), or two
	// bytes (2: only vertexes)
	Big   int
	shift int
}

var humanNames = []string{"hips", "頭", "センター", "head", "首", "neck", "上半身", "左腕", "arm_L", "spine", "upper body", "chest", "leftUpperArm", "右ひじ", "elbow_R", "leftHand", "左足", "knee_L",
	"rightFoot", "左目", "右目", "center", "eye_L", "hair_1", "hair_2", "hair_1_end", "skirt_1", "skirt_2", "上半身2"}

var morphNames = []string{"あ", "まばたき", "い", "笑い", "ウインク", "ウインク右", "smile", "blink", "怒り", "a", "う", "困る", "morph0"}

// BoneName and MorphName are like Name, for bones and morphs.
func (r *R) BoneName(i int) string { return r.human(i, humanNames) }

func (r *R) MorphName(i int) string { return r.human(i, morphNames) }

func (r *R) human(i int, names []string) string {
	if !r.Human {
		return r.Name(i)
	}
	if r.shift == 0 {
		r.shift = 1 + r.N(1000)
	}
	n := names[(i*6+r.shift)%len(names)]
	if i >= len(names) {
		n += fmt.Sprint(i)
	}
	return n
}

// near is a number around those where an index needs more bytes or a sign.
func (r *R) near(n *int, cheap bool) {
	if !r.large(n, cheap) {
		*n = r.PickN(128, 256) + r.In(-3, 3)
	}
}

func (r *R) large(n *int, cheap bool) bool {
	if r.Big < 2 || !r.P(20) || !cheap {
		return false
	}
	*n = r.PickN(1<<15, 1<<16, r.In(1<<15, 1<<16)) + r.In(-3, 3)
	return true
}

func NewR(seed uint64) *R { return &R{s: seed ^ 0x5851f42d4c957f2d} }

func (r *R) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *R) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In returns a number in [a,b].
func (r *R) In(a, b int) int { return a + r.N(b-a+1) }

func (r *R) P(percent int) bool { return r.N(100) < percent }

func (r *R) Pick(s ...string) string { return s[r.N(len(s))] }

func (r *R) PickN(s ...int) int { return s[r.N(len(s))] }

// F is a float that every text and binary format can represent.
func (r *R) F() float32 {
	switch r.N(8) {
	case 0:
		return 0
	case 1:
		return float32(r.In(-3, 3))
	case 2:
		return float32(r.In(-100000, 100000)) / 1024
	case 3:
		return float32(math.Float64frombits(0x3ff0000000000000|r.U64()>>12)) * float32(r.In(-5, 5))
	case 4:
		return float32(r.In(-99, 99)) * 1e-6
	default:
		return float32(r.In(-2000, 2000)) / 64
	}
}

// U is a float in [0,1] with at most three decimals.
func (r *R) U() float32 {
	var v float32
	if r.P(10) {
		return float32(r.N(2))
	}
	fmt.Sscan(fmt.Sprintf("%.3f", float64(r.N(1001))/1000), &v)
	return v
}

var nameParts = []string{"body", "head", "右腕", "左腕", "センター", "mat", "Arm", "leg L", "髪", "eye_R", "ボーン", "tail", "表示", "x", "ソ能", "obj 1", "Ａ", "ｱｲ"}

// Name is a name without quotes; sjis: only characters of Shift_JIS.
func (r *R) Name(i int) string {
	n := nameParts[r.N(len(nameParts))]
	if r.P(40) {
		n += nameParts[r.N(len(nameParts))]
	}
	return fmt.Sprintf("%s%d", n, i)
}

func (r *R) Text() string {
	switch r.N(5) {
	case 0:
		return ""
	case 1:
		return "line1\r\nline2"
	case 2:
		s := ""
		for i := r.N(40); i >= 0; i-- {
			s += nameParts[r.N(len(nameParts))]
		}
		return s
	}
	return r.Name(r.N(100))
}

func sjis(s string) []byte {
	b, _, err := transform.Bytes(japanese.ShiftJIS.NewEncoder(), []byte(s))
	if err != nil {
		b = []byte("?")
	}
	return b
}

// sjisFix encodes s in n bytes, padded with zero.
func sjisFix(s string, n int) []byte {
	rs := []rune(s)
	for {
		b := sjis(string(rs))
		if len(b) < n {
			o := make([]byte, n)
			copy(o, b)
			return o
		}
		rs = rs[:len(rs)-1]
	}
}

// SjisCut returns s as it is read back from n bytes.
func SjisCut(s string, n int) string {
	rs := []rune(s)
	for len(sjis(string(rs))) >= n {
		rs = rs[:len(rs)-1]
	}
	return string(rs)
}

type enc struct{ bytes.Buffer }

func (e *enc) le(v interface{}) { binary.Write(&e.Buffer, binary.LittleEndian, v) }
func (e *enc) u8(v int)         { e.WriteByte(byte(v)) }
func (e *enc) u16(v int)        { e.le(uint16(v)) }
func (e *enc) u32(v int)        { e.le(uint32(v)) }
func (e *enc) idx(sz byte, v int) {
	switch sz {
	case 1:
		e.u8(v)
	case 2:
		e.u16(v)
	default:
		e.u32(v)
	}
}

// Byte picks one of the bytes.
func (r *R) Byte(b ...byte) byte { return b[r.N(len(b))] }
