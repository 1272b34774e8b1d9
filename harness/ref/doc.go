package ref

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Entry is one cross-reference entry.
type Entry struct {
	Off  int64
	Gen  int
	Type int // 0 free, 1 in use
}

// Builder writes documents object by object and remembers where everything is.
type Builder struct {
	B       bytes.Buffer
	Pending map[int]Entry // entries since the last section
	Last    int64         // offset of the last section, -1 if none
	Max     int           // highest object number so far
	SizeIs  *string       // text for the trailer's Size instead of the right one; empty: no Size
	objs    []written
}

type written struct {
	n, g int
	body string
}

func NewBuilder() *Builder {
	b := &Builder{Pending: map[int]Entry{}, Last: -1}
	b.B.WriteString("%PDF-1.7\n")
	return b
}

func (b *Builder) Len() int64 { return int64(b.B.Len()) }

func (b *Builder) Text(s string) { b.B.WriteString(s) }

// Obj writes "n g obj LF body LF endobj LF".
func (b *Builder) Obj(n, g int, body string) {
	b.Pending[n] = Entry{b.Len(), g, 1}
	if n > b.Max {
		b.Max = n
	}
	b.objs = append(b.objs, written{n, g, body})
	fmt.Fprintf(&b.B, "%d %d obj\n%s\nendobj\n", n, g, body)
}

// Encrypted gives a one-revision document with the objects written so far, encrypted; cf are further entries
// of the encryption dictionary and num is the number of its object (0: direct in the trailer).
func (b *Builder) Encrypted(c *Crypt, m Method, cf string, num int) []byte {
	o := NewBuilder()
	c.Setup()
	for _, w := range b.objs {
		value, data, isStream := w.body, "", false
		if i := strings.Index(w.body, ">>\nstream\n"); i >= 0 {
			isStream = true
			value, data = w.body[:i+2], strings.TrimSuffix(w.body[i+10:], "endstream")
			data = data[:len(data)-1]
			if strings.HasSuffix(data, "\r\r") { // see StreamBody
				data = data[:len(data)-1]
			}
		}
		v := c.EncryptValue(m, w.n, w.g, Parse([]byte(value)))
		if !isStream {
			o.Obj(w.n, w.g, Write(v))
			continue
		}
		var d Dict
		for _, e := range v.(Dict) {
			if e.K != "Length" {
				d = append(d, e)
			}
		}
		t := Write(d)
		o.Stream(w.n, w.g, t[2:len(t)-2], c.Encrypt(m, w.n, w.g, []byte(data)))
	}
	if num == 0 {
		o.Table(c.Trailer(c.Dict(cf)))
	} else {
		o.Obj(num, 0, c.Dict(cf))
		o.Table(c.Trailer(fmt.Sprintf("%d 0 R", num)))
	}
	return o.Bytes()
}

// Stream writes a stream object; dict holds the entries besides Length.
func (b *Builder) Stream(n, g int, dict string, data []byte) {
	b.Obj(n, g, StreamBody(dict, data))
}

// StreamBody ends the data with LF, or CR LF where the data's own last byte is CR (the payload's extent does
// not depend on Length, so CR LF would otherwise be taken as the line end).
func StreamBody(dict string, data []byte) string {
	if len(data) > 0 && data[len(data)-1] == '\r' {
		return fmt.Sprintf("<<%s /Length %d>>\nstream\n%s\r\nendstream", dict, len(data), data)
	}
	return fmt.Sprintf("<<%s /Length %d>>\nstream\n%s\nendstream", dict, len(data), data)
}

func (b *Builder) Free(n, g int) {
	b.Pending[n] = Entry{0, g, 0}
	if n > b.Max {
		b.Max = n
	}
}

// Runs are the maximal runs of consecutive numbers.
func Runs(m map[int]Entry) [][2]int {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var out [][2]int
	for _, k := range ks {
		if l := len(out); l > 0 && out[l-1][0]+out[l-1][1] == k {
			out[l-1][1]++
		} else {
			out = append(out, [2]int{k, 1})
		}
	}
	return out
}

// Table closes the current revision with a cross-reference table; extra are further trailer entries.
func (b *Builder) Table(extra string) {
	prev := b.Last
	if prev < 0 {
		b.Pending[0] = Entry{0, 65535, 0}
	}
	b.Last = b.Len()
	b.B.WriteString(TableText(b.Pending))
	fmt.Fprintf(&b.B, "trailer\n<<%s", b.size())
	if prev >= 0 {
		fmt.Fprintf(&b.B, " /Prev %d", prev)
	}
	fmt.Fprintf(&b.B, " %s>>\n", extra)
	b.StartXref(b.Last)
	b.Pending = map[int]Entry{}
}

func (b *Builder) size() string {
	if b.SizeIs == nil {
		return fmt.Sprintf("/Size %d", b.Max+1)
	}
	if *b.SizeIs == "" {
		return ""
	}
	return "/Size " + *b.SizeIs
}

func TableText(m map[int]Entry) string {
	var s strings.Builder
	s.WriteString("xref\n")
	for _, r := range Runs(m) {
		fmt.Fprintf(&s, "%d %d\n", r[0], r[1])
		for i := r[0]; i < r[0]+r[1]; i++ {
			e := m[i]
			f := 'n'
			if e.Type == 0 {
				f = 'f'
			}
			fmt.Fprintf(&s, "%010d %05d %c \n", e.Off, e.Gen, f)
		}
	}
	return s.String()
}

func (b *Builder) StartXref(off int64) {
	fmt.Fprintf(&b.B, "startxref\n%d\n%%%%EOF\n", off)
}

// XrefData encodes entries with field widths w in the order of the index runs.
func XrefData(m map[int]Entry, index [][2]int, w [3]int) []byte {
	var out []byte
	put := func(v int64, n int) {
		for i := n - 1; i >= 0; i-- {
			if i >= 8 {
				out = append(out, 0)
			} else {
				out = append(out, byte(v>>(8*uint(i))))
			}
		}
	}
	for _, r := range index {
		for i := r[0]; i < r[0]+r[1]; i++ {
			e := m[i]
			put(int64(e.Type), w[0])
			put(e.Off, w[1])
			put(int64(e.Gen), w[2])
		}
	}
	return out
}

// XrefStream closes the current revision with a cross-reference stream in object n.
func (b *Builder) XrefStream(n int, extra string) {
	prev := b.Last
	if prev < 0 {
		b.Pending[0] = Entry{0, 65535, 0}
	}
	b.Last = b.Len()
	if n > b.Max {
		b.Max = n
	}
	b.Pending[n] = Entry{b.Last, 0, 1}
	idx := Runs(b.Pending)
	w := [3]int{1, 4, 2}
	var ix strings.Builder
	for _, r := range idx {
		fmt.Fprintf(&ix, "%d %d ", r[0], r[1])
	}
	d := fmt.Sprintf("/Type /XRef %s /W [1 4 2] /Index [%s]", b.size(), strings.TrimSpace(ix.String()))
	if prev >= 0 {
		d += fmt.Sprintf(" /Prev %d", prev)
	}
	p := b.Pending
	b.Stream(n, 0, d+" "+extra, XrefData(p, idx, w))
	b.StartXref(b.Last)
	b.Pending = map[int]Entry{}
}

func (b *Builder) Bytes() []byte { return append([]byte{}, b.B.Bytes()...) }

// Simple is a one-revision document with a table.
func Simple(bodies ...string) []byte {
	b := NewBuilder()
	for i, s := range bodies {
		b.Obj(i+1, 0, s)
	}
	b.Table("/Root 1 0 R")
	return b.Bytes()
}

// --- spelling of values ---

// Tokens returns the tokens of a value in canonical spelling.
func Tokens(v V) []string {
	switch x := v.(type) {
	case Key:
		return []string{string(x)}
	case Num:
		return []string{strconv.FormatFloat(float64(x), 'f', -1, 64)}
	case Str:
		return []string{Lit(string(x))}
	case Name:
		return []string{NameTok(string(x))}
	case Ref:
		return []string{strconv.Itoa(x.N), strconv.Itoa(x.G), "R"}
	case Arr:
		t := []string{"["}
		for _, e := range x {
			t = append(t, Tokens(e)...)
		}
		return append(t, "]")
	case Dict:
		t := []string{"<<"}
		for _, e := range x {
			t = append(t, NameTok(e.K))
			t = append(t, Tokens(e.V)...)
		}
		return append(t, ">>")
	}
	panic(fmt.Sprintf("Tokens %T", v))
}

// Write gives the canonical spelling with single spaces.
func Write(v V) string { return strings.Join(Tokens(v), " ") }

func Lit(s string) string {
	var o strings.Builder
	o.WriteByte('(')
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', ')', '\\':
			o.WriteByte('\\')
			o.WriteByte(s[i])
		case '\r':
			o.WriteString("\\r")
		default:
			o.WriteByte(s[i])
		}
	}
	o.WriteByte(')')
	return o.String()
}

func HexLit(s string) string { return fmt.Sprintf("<%x>", s) }

func NameTok(s string) string {
	var o strings.Builder
	o.WriteByte('/')
	for i := 0; i < len(s); i++ {
		b := s[i]
		if b <= 32 || b >= 127 || b == '#' || IsDelim(b) {
			fmt.Fprintf(&o, "#%02x", b)
		} else {
			o.WriteByte(b)
		}
	}
	return o.String()
}

// NeedSep tells whether two adjacent tokens must be separated.
func NeedSep(a, b string) bool {
	l, r := a[len(a)-1], b[0]
	ld := IsDelim(l) && !(l == '/' && len(a) == 1) && !(a[0] == '/' && l != '/')
	if a[0] == '/' {
		ld = false
	}
	return !ld && !IsDelim(r)
}

// Join lays tokens out with the given separators (one per gap); an empty separator is widened to a
// space where one is needed.
func Join(toks []string, sep func(i int) string) string {
	var o strings.Builder
	for i, t := range toks {
		if i > 0 {
			s := sep(i - 1)
			if s == "" && NeedSep(toks[i-1], t) {
				s = " "
			}
			o.WriteString(s)
		}
		o.WriteString(t)
	}
	return o.String()
}

// Layout writes documents whose parts refer to each other's offsets, in any physical order: the writing
// function runs until all offsets are stable (offsets are written with a fixed number of digits).
type Layout struct {
	bytes.Buffer
	off map[string]int64
}

func Fix(f func(l *Layout)) []byte {
	off := map[string]int64{}
	for i := 0; ; i++ {
		l := &Layout{off: map[string]int64{}}
		for k, v := range off {
			l.off[k] = v
		}
		f(l)
		stable := len(off) == len(l.off)
		for k, v := range l.off {
			if off[k] != v {
				stable = false
			}
		}
		if stable {
			return l.Buffer.Bytes()
		}
		if i > 8 {
			panic("layout does not settle")
		}
		off = l.off
	}
}

func (l *Layout) Mark(name string)      { l.off[name] = int64(l.Len()) }
func (l *Layout) Off(name string) int64 { return l.off[name] }
func (l *Layout) Text(f string, a ...interface{}) {
	fmt.Fprintf(&l.Buffer, f, a...)
}

// Obj writes an object and marks its offset.
func (l *Layout) Obj(mark string, n, g int, body string) {
	l.Mark(mark)
	l.Text("%d %d obj\n%s\nendobj\n", n, g, body)
}
