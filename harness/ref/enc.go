package ref

import (
	"bytes"
	"compress/flate"
	"encoding/binary"
	"fmt"
	"hash/adler32"
)

// --- encoders of the simple filters ---

// HexEncode writes two digits per byte.
func HexEncode(data []byte, upper bool) []byte {
	if upper {
		return []byte(fmt.Sprintf("%X", data))
	}
	return []byte(fmt.Sprintf("%x", data))
}

// A85Encode encodes without the end marker.
func A85Encode(data []byte, useZ bool) []byte {
	var out []byte
	for len(data) > 0 {
		n := len(data)
		if n > 4 {
			n = 4
		}
		var g [4]byte
		copy(g[:], data[:n])
		data = data[n:]
		v := binary.BigEndian.Uint32(g[:])
		if v == 0 && n == 4 && useZ {
			out = append(out, 'z')
			continue
		}
		var d [5]byte
		for i := 4; i >= 0; i-- {
			d[i] = byte(v%85) + 33
			v /= 85
		}
		out = append(out, d[:n+1]...)
	}
	return out
}

// RLSegment is one run-length segment.
type RLSegment struct {
	Data   []byte
	Repeat bool // Data[0] repeated len(Data) times
}

func RLEncode(segs []RLSegment) []byte {
	var out []byte
	for _, s := range segs {
		if s.Repeat {
			out = append(out, byte(257-len(s.Data)), s.Data[0])
		} else {
			out = append(out, byte(len(s.Data)-1))
			out = append(out, s.Data...)
		}
	}
	return out
}

// RLSimple encodes greedily.
func RLSimple(data []byte) []byte {
	var segs []RLSegment
	for i := 0; i < len(data); {
		j := i + 1
		for j < len(data) && data[j] == data[i] && j-i < 128 {
			j++
		}
		if j-i >= 2 {
			segs = append(segs, RLSegment{data[i:j], true})
		} else {
			segs = append(segs, RLSegment{data[i : i+1], false})
		}
		i = j
	}
	return append(RLEncode(segs), 128)
}

// Zlib compresses with a level; flush gives positions at which a sync flush ends the block.
func Zlib(data []byte, level int, flush ...int) []byte {
	var b bytes.Buffer
	b.Write([]byte{0x78, 0x9c})
	w, err := flate.NewWriter(&b, level)
	if err != nil {
		panic(err)
	}
	at := 0
	for _, f := range flush {
		w.Write(data[at:f])
		w.Flush()
		at = f
	}
	w.Write(data[at:])
	w.Close()
	var s [4]byte
	binary.BigEndian.PutUint32(s[:], adler32.Checksum(data))
	b.Write(s[:])
	return b.Bytes()
}

// Inflate decodes as many symbols of a zlib stream as its bytes allow (a plain, bit by bit decoder).
// status: "ok", "short" (input ended) or "bad".
func Inflate(z []byte) (out []byte, status string) { return inflate(z, false) }

// InflateLazy is a decoder that looks for a symbol only once there are as many bits as the end-of-block code
// has (every block must still end with one); of truncated data it yields a few symbols less.
func InflateLazy(z []byte) (out []byte, status string) { return inflate(z, true) }

func inflate(z []byte, lazy bool) (out []byte, status string) {
	if len(z) < 2 {
		return nil, "short"
	}
	if z[0]&15 != 8 || z[0]>>4 > 7 || (int(z[0])<<8|int(z[1]))%31 != 0 || z[1]&32 != 0 {
		return nil, "bad"
	}
	r := &bitsLSB{b: z[2:], lazy: lazy}
	defer func() {
		if e := recover(); e != nil {
			s, ok := e.(string)
			if !ok {
				panic(e)
			}
			status = s
		}
	}()
	emit := func(b byte) { out = append(out, b) }
	for {
		final := r.bits(1)
		switch r.bits(2) {
		case 0:
			r.align()
			n := r.bits(16)
			if r.bits(16) != n^0xffff {
				panic("bad")
			}
			for i := 0; i < n; i++ {
				emit(byte(r.bits(8)))
			}
		case 1:
			l := make([]int, 288)
			for i := range l {
				switch {
				case i < 144:
					l[i] = 8
				case i < 256:
					l[i] = 9
				case i < 280:
					l[i] = 7
				default:
					l[i] = 8
				}
			}
			d := make([]int, 30)
			for i := range d {
				d[i] = 5
			}
			r.codes(mkHuff(l), mkHuff(d), &out)
		case 2:
			nl, nd, nc := r.bits(5)+257, r.bits(5)+1, r.bits(4)+4
			order := []int{16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15}
			cl := make([]int, 19)
			for i := 0; i < nc; i++ {
				cl[order[i]] = r.bits(3)
			}
			h := mkHuff(cl)
			l := make([]int, 0, nl+nd)
			for len(l) < nl+nd {
				s := r.sym(h)
				switch {
				case s < 16:
					l = append(l, s)
				case s == 16:
					if len(l) == 0 {
						panic("bad")
					}
					p := l[len(l)-1]
					for n := r.bits(2) + 3; n > 0; n-- {
						l = append(l, p)
					}
				case s == 17:
					for n := r.bits(3) + 3; n > 0; n-- {
						l = append(l, 0)
					}
				default:
					for n := r.bits(7) + 11; n > 0; n-- {
						l = append(l, 0)
					}
				}
			}
			if len(l) > nl+nd {
				panic("bad")
			}
			r.codes(mkHuff(l[:nl]), mkHuff(l[nl:]), &out)
		default:
			panic("bad")
		}
		if final == 1 {
			break
		}
	}
	r.align()
	var sum uint32
	for i := 0; i < 4; i++ {
		sum = sum<<8 | uint32(r.bits(8))
	}
	if sum != adler32.Checksum(out) {
		return out, "bad"
	}
	return out, "ok"
}

type bitsLSB struct {
	b    []byte
	p    int
	lazy bool
}

func (r *bitsLSB) bit() int {
	if r.p>>3 >= len(r.b) {
		panic("short")
	}
	v := int(r.b[r.p>>3]>>(uint(r.p)&7)) & 1
	r.p++
	return v
}
func (r *bitsLSB) bits(n int) int {
	v := 0
	for i := 0; i < n; i++ {
		v |= r.bit() << uint(i)
	}
	return v
}
func (r *bitsLSB) align() { r.p = (r.p + 7) &^ 7 }

type huff map[[2]int]int // {length, code} -> symbol

func mkHuff(l []int) huff {
	h := huff{}
	code := 0
	for n := 1; n <= 15; n++ {
		for s, x := range l {
			if x == n {
				h[[2]int{n, code}] = s
				code++
			}
		}
		code <<= 1
	}
	return h
}
func (r *bitsLSB) sym(h huff) int {
	code := 0
	for n := 1; n <= 15; n++ {
		code = code<<1 | r.bit()
		if s, ok := h[[2]int{n, code}]; ok {
			return s
		}
	}
	panic("bad")
}

var lenBase = []int{3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258}
var lenExtra = []int{0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0}
var distBase = []int{1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577}
var distExtra = []int{0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13}

func (r *bitsLSB) codes(l, d huff, out *[]byte) {
	eob := 0
	for k, s := range l {
		if s == 256 {
			eob = k[0]
		}
	}
	for {
		if r.lazy && r.p+eob > len(r.b)*8 {
			panic("short")
		}
		s := r.sym(l)
		if s < 256 {
			*out = append(*out, byte(s))
			continue
		}
		if s == 256 {
			return
		}
		s -= 257
		if s >= len(lenBase) {
			panic("bad")
		}
		n := lenBase[s] + r.bits(lenExtra[s])
		ds := r.sym(d)
		if ds >= len(distBase) {
			panic("bad")
		}
		dist := distBase[ds] + r.bits(distExtra[ds])
		if dist > len(*out) {
			panic("bad")
		}
		for i := 0; i < n; i++ {
			*out = append(*out, (*out)[len(*out)-dist])
		}
	}
}

// LZWOpts are the choices of an LZW encoder.
type LZWOpts struct {
	Early    int  // EarlyChange 0 or 1
	ResetAt  int  // emit a clear code when the next free code is this (<= 4096 - Early handled by caller); 0: 4094
	NoClear  bool // do not start with a clear code
	NoEOD    bool // leave the end code out
	Literals bool // emit only single byte codes
}

// LZWEncode encodes MSB first, 9 to 12 bit codes, clear 256, end 257.
func LZWEncode(data []byte, o LZWOpts) []byte {
	var out []byte
	acc, nb := uint32(0), uint(0)
	width := uint(9)
	put := func(c int) {
		acc = acc<<width | uint32(c)
		nb += width
		for nb >= 8 {
			out = append(out, byte(acc>>(nb-8)))
			nb -= 8
		}
	}
	reset := o.ResetAt
	if reset == 0 {
		reset = 4094
	}
	table := map[string]int{}
	next := 258
	clear := func() {
		put(256)
		table = map[string]int{}
		next, width = 258, 9
	}
	if !o.NoClear {
		clear()
	}
	emit := func(s string) {
		c := int(s[0])
		if len(s) > 1 {
			c = table[s]
		}
		put(c)
	}
	grow := func() {
		// the code length grows when the entry just made (next-1) needs it, or one entry earlier
		switch next - 1 + o.Early {
		case 512, 1024, 2048:
			width++
		}
	}
	cur := ""
	for _, b := range data {
		n := cur + string([]byte{b})
		if cur == "" {
			cur = n
			continue
		}
		if _, ok := table[n]; ok && !o.Literals {
			cur = n
			continue
		}
		emit(cur)
		table[n] = next
		next++
		grow()
		if next >= reset {
			clear()
		}
		cur = string([]byte{b})
	}
	if cur != "" {
		emit(cur)
		next++ // the decoder has no entry yet, but the encoder side counts one for the end code width
		grow()
	}
	if !o.NoEOD {
		put(257)
	}
	if nb > 0 {
		out = append(out, byte(acc<<(8-nb)))
	}
	return out
}

// --- predictors ---

type Geometry struct{ Colors, Bits, Columns int }

func (g Geometry) RowBytes() int { return (g.Colors*g.Bits*g.Columns + 7) / 8 }
func (g Geometry) Pixel() int    { return (g.Colors*g.Bits + 7) / 8 }

// PNGEncode applies the algorithm tags[r] to row r.
func PNGEncode(data []byte, g Geometry, tags []int) []byte {
	w, px := g.RowBytes(), g.Pixel()
	var out []byte
	at := func(r, c int) int {
		if r < 0 || c < 0 {
			return 0
		}
		return int(data[r*w+c])
	}
	for r := 0; r*w < len(data); r++ {
		t := tags[r]
		out = append(out, byte(t))
		for c := 0; c < w; c++ {
			x, a, b, d := at(r, c), at(r, c-px), at(r-1, c), 0
			if c-px >= 0 {
				d = at(r-1, c-px)
			}
			p := 0
			switch t {
			case 1:
				p = a
			case 2:
				p = b
			case 3:
				p = (a + b) / 2
			case 4:
				p = paeth(a, b, d)
			}
			out = append(out, byte(x-p))
		}
	}
	return out
}

func paeth(a, b, c int) int {
	abs := func(x int) int {
		if x < 0 {
			return -x
		}
		return x
	}
	p := a + b - c
	pa, pb, pc := abs(p-a), abs(p-b), abs(p-c)
	if pa <= pb && pa <= pc {
		return a
	}
	if pb <= pc {
		return b
	}
	return c
}

func getBit(d []byte, i int) int { return int(d[i>>3]>>(7-uint(i)&7)) & 1 }

// TIFFEncode replaces each sample by its difference to the same component of the pixel on its left.
func TIFFEncode(data []byte, g Geometry) []byte {
	w := g.RowBytes()
	out := append([]byte{}, data...)
	get := func(r, k int) int {
		v := 0
		for i := 0; i < g.Bits; i++ {
			v = v<<1 | getBit(data, r*w*8+k*g.Bits+i)
		}
		return v
	}
	for r := 0; r*w < len(data); r++ {
		for k := g.Colors; k < g.Colors*g.Columns; k++ {
			v := get(r, k) - get(r, k-g.Colors)
			for i := 0; i < g.Bits; i++ {
				p := r*w*8 + k*g.Bits + i
				bit := byte(v>>uint(g.Bits-1-i)) & 1
				sh := 7 - uint(p)&7
				out[p>>3] = out[p>>3]&^(1<<sh) | bit<<sh
			}
		}
	}
	return out
}

// LZWDecode decodes as many whole codes as there are; ended tells whether the end code was seen.
func LZWDecode(z []byte, early int) (out []byte, ended bool) {
	table := map[int][]byte{}
	next, width := 258, 9
	var prev []byte
	bit := 0
	for bit+width <= len(z)*8 {
		c := 0
		for i := 0; i < width; i++ {
			c = c<<1 | getBit(z, bit)
			bit++
		}
		if c == 257 {
			return out, true
		}
		if c == 256 {
			table = map[int][]byte{}
			next, width, prev = 258, 9, nil
			continue
		}
		var s []byte
		if c < 256 {
			s = []byte{byte(c)}
		} else if e, ok := table[c]; ok {
			s = e
		} else if c == next && prev != nil {
			s = append(append([]byte{}, prev...), prev[0])
		} else {
			return out, false
		}
		if prev != nil && next < 4096 {
			table[next] = append(append([]byte{}, prev...), s[0])
			next++
		}
		prev = s
		out = append(out, s...)
		for width < 12 && next+early >= 1<<uint(width) {
			width++
		}
	}
	return out, false
}

// HexDecode decodes hexadecimal digits with white space; an odd digit is padded with zero.
func HexDecode(e []byte) []byte {
	var d, out []byte
	for _, b := range e {
		switch {
		case b >= '0' && b <= '9':
			d = append(d, b-'0')
		case b|32 >= 'a' && b|32 <= 'f':
			d = append(d, b|32-'a'+10)
		}
	}
	for i := 0; i < len(d); i += 2 {
		x := d[i] << 4
		if i+1 < len(d) {
			x |= d[i+1]
		}
		out = append(out, x)
	}
	return out
}

// A85Decode decodes a part of an ASCII85 encoding; ok is false if its last, partial group has no value.
func A85Decode(e []byte) (out []byte, ok bool) {
	var g []byte
	flush := func() bool {
		n := len(g)
		for len(g) < 5 {
			g = append(g, 84)
		}
		v := uint64(0)
		for _, x := range g {
			v = v*85 + uint64(x)
		}
		out = append(out, []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}[:n-1]...)
		g = nil
		return v < 1<<32
	}
	ok = true
	for _, b := range e {
		if b == 'z' {
			out = append(out, 0, 0, 0, 0)
		} else if b >= '!' && b <= 'u' {
			g = append(g, b-'!')
			if len(g) == 5 {
				ok = flush() && ok
			}
		}
	}
	if len(g) > 1 {
		ok = flush() && ok
	}
	return out, ok
}

// RLDecode decodes a part of a run-length encoding.
func RLDecode(e []byte) []byte {
	var out []byte
	for len(e) > 0 && e[0] != 128 {
		n := int(e[0])
		if n < 128 {
			k := min(n+2, len(e))
			out = append(out, e[1:k]...)
			e = e[k:]
			continue
		}
		if len(e) < 2 {
			break
		}
		out = append(out, bytes.Repeat(e[1:2], 257-n)...)
		e = e[2:]
	}
	return out
}
