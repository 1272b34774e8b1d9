package props

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"

	"verif/mc"
	"verif/ref"
)

// source delivers a document in the amounts asked for by limit; it records how often it was read.
type source struct {
	doc   []byte
	pos   int64
	reads int
	limit func(read int, pos int64, want int) int // how many bytes this read may return
	eof   bool                                    // end of file comes together with the last data
}

func (s *source) Read(b []byte) (int, error) {
	i := s.reads
	s.reads++
	if s.pos >= int64(len(s.doc)) {
		return 0, io.EOF
	}
	n := len(b)
	if rest := int64(len(s.doc)) - s.pos; int64(n) > rest {
		n = int(rest)
	}
	if s.limit != nil {
		if k := s.limit(i, s.pos, n); k < n {
			n = k
		}
	}
	copy(b, s.doc[s.pos:s.pos+int64(n)])
	s.pos += int64(n)
	if s.eof && s.pos == int64(len(s.doc)) {
		return n, io.EOF
	}
	return n, nil
}

func (s *source) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += int64(len(s.doc))
	}
	if off < 0 {
		return 0, fmt.Errorf("negative position")
	}
	s.pos = off
	return off, nil
}

// view25 is everything that loading, reading and extracting a document gives; with reports it includes the
// report files and extracted content as sets of lines.
func view25(rs io.ReadSeeker, password string, reports bool) string {
	var out *pdf.Output
	dir := filepath.Join(scratch(), "out25")
	if reports {
		var err error
		if out, err = pdf.NewOutput(dir); err != nil {
			panic(err)
		}
	}
	p := pdf.NewParser(rs, out)
	err := p.Load(password)
	s := fmt.Sprint(err) + "\n"
	nums := map[int]bool{}
	for n := range p.Xref {
		nums[n] = true
	}
	for _, n := range keys(nums) {
		o := p.GetObject(n)
		s += shot(o) + "\n"
		if reports && err == nil {
			o.Extract(out)
		}
	}
	if reports {
		out.Close()
		es, _ := os.ReadDir(dir)
		for _, e := range es {
			b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
			s += e.Name() + fmt.Sprintf("%q", set(lines(string(b)))) + "\n"
		}
	}
	return s
}

func diffLine(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) {
			return fmt.Sprintf("%.300s is missing", x[i])
		}
		if x[i] != y[i] {
			return fmt.Sprintf("%.300s\ninstead of %.300s", x[i], y[i])
		}
	}
	return fmt.Sprintf("%.300s is missing", y[len(x)])
}

// docs25 are the documents that are delivered in pieces; views are what they give in one piece.
var docs25, views25 = func() ([]base23, map[string]string) {
	l := append([]base23{}, bases23...)
	for i, b := range bases12() {
		if i < 4 {
			l = append(l, base23{"base " + b.name, "", b.doc})
		}
	}
	l = append(l, base23{"damaged", "", []byte("%PDF-1.4\n1 0 obj\n<</A(x\\9\\400\\)y/B#zz<41 4z/C[1 2 0 R 3 -.5 .6.7/#/#4 true>>\nendobj\n2 0 obj<</K/V>>stream\r\nab\rc\nendstream endobj 3 0 obj[<</D>>] % end\r\n4\n0 obj (a\\\r\nb\\\rc) endobj 5 %c\n0 %d\robj <</Length 5>> stream\nendstrea\r\nendstream\n6 0 obj [ 1 0 R<</Z(un\\ ")})
	l = append(l, base23{"small", "", ref.Simple("<</A [1 0 R -1.5 (b\\)c) <4142> /N#41 true]>>", "<</Length 3>>\nstream\r\nabc\r\nendstream")})
	return l, map[string]string{}
}()

// marks25 are the markers that meet buffer ends in far25.
var marks25 = []string{"1 0 obj", "2 0 obj", "4 0 obj", "stream\nstream", "endstream\nendobj\nxref", "xref", "trailer", "xref2", "5 0 obj", "trailer2", "startxref"}

// far25 is a document with a gap of about the given size before the marker; it gives the marker's offset.
func far25(mark, size, kind, end int) ([]byte, int) {
	var b bytes.Buffer
	at := -1
	gapAt := 0 // the gap goes to the last place before the marker where one may be
	place := 0
	for pass := 0; pass < 2; pass++ {
		b.Reset()
		place = 0
		off := map[int]int{}
		last := 0
		gap := func() {
			place++
			if pass == 1 && place == gapAt {
				switch kind {
				case 0:
					b.WriteString("%" + strings.Repeat("-", size) + "\n")
				case 1:
					b.WriteString(strings.Repeat(" \r\n\t", size/4+1)[:size])
				case 2:
					off[9] = b.Len()
					b.WriteString("9 0 obj\n<</Length 1>>\nstream\n" + strings.Repeat("payload ", size/8+1)[:size] + "\nendstream\nendobj\n")
				}
			}
		}
		put := func(m int, s string) {
			if m == mark {
				at = b.Len()
				if pass == 0 {
					gapAt = place
				}
			}
			b.WriteString(s)
		}
		obj := func(m, n int, body string) {
			gap()
			off[n] = b.Len()
			put(m, fmt.Sprintf("%d 0 obj\n%s\nendobj\n", n, body))
		}
		table := func(nums string, m int, prev string) {
			gap()
			x := b.Len()
			put(m, "xref\n")
			for _, n := range nums {
				switch n {
				case '0':
					b.WriteString("0 1\n0000000000 65535 f \n")
				case '2':
					if m == 7 {
						b.WriteString("2 1\n0000000000 00001 f \n")
						continue
					}
					fallthrough
				default:
					if o := off[int(n-'0')]; o > 0 {
						fmt.Fprintf(&b, "%c 1\n%010d 00000 n \n", n, o)
					}
				}
			}
			put(map[int]int{5: 6, 7: 9}[m], "trailer\n<</Size 10 "+prev+"/Root 1 0 R>>\n")
			last = x
		}
		b.WriteString("%PDF-1.7\n")
		obj(0, 1, "(one)")
		obj(1, 2, "(two)")
		obj(-1, 3, "(old)")
		gap()
		off[4] = b.Len()
		put(2, "4 0 obj\n<</Length 11>>\n")
		put(3, "stream\nstream\ndata\n")
		put(4, "endstream\nendobj\n")
		table("012349", 5, "")
		first := last
		obj(-1, 3, "(newer)")
		obj(8, 5, "(added)")
		table("2359", 7, fmt.Sprintf("/Prev %d ", first))
		gap()
		switch end {
		case 0:
			put(10, fmt.Sprintf("startxref\n%d\n%%%%EOF\n", last))
		case 1:
			put(10, "startxref\n7\n%%EOF\n")
		case 2:
			put(10, "%%EOF\n")
		}
	}
	return b.Bytes(), at
}

func init() {
	want := func(b base23, reports bool) string {
		k := fmt.Sprint(b.name, reports)
		if views25[k] == "" {
			views25[k] = view25(bytes.NewReader(b.doc), b.pw, reports)
		}
		return views25[k]
	}
	run := func(lab string, b base23, reports bool, eof bool, limit func() func(read int, pos int64, want int) int) *mc.Case {
		return &mc.Case{Label: lab, Doc: b.doc, Run: func() mc.Result {
			got := view25(&source{doc: b.doc, limit: limit(), eof: eof}, b.pw, reports)
			if w := want(b, reports); got != w {
				return fail("%s", diffLine(got, w))
			}
			return mc.Result{Outcome: mc.Digest(got)}
		}}
	}
	reads := map[string]int{}
	count := func(b base23) int {
		if reads[b.name] == 0 {
			s := &source{doc: b.doc}
			view25(s, b.pw, false)
			reads[b.name] = s.reads
		}
		return reads[b.name]
	}
	// shifted checks the values of a document that was padded somewhere.
	mc.Register(&mc.Prop{
		ID:        "C25",
		Technique: "exhaustive enumeration of read schedules (uniform sizes, cuts at every offset and pair of offsets, deviating amounts at every read and pair of reads, data together with end of file, empty reads) and of shifts of every token across buffer boundaries; the real code run on each, compared with delivery in one piece and with the generator's values",
		Note:      "The source is a reader under the checker's control; its schedule is the only nondeterminism.",
		Scopes: func(th bool) []mc.Scope {
			return []mc.Scope{
				{"uniform", "every document x reads of at most 1 to 64 and around 255, 256, 512, 4096 bytes x end of file alone or with the last data x empty reads before every first, second or third read", func(c *mc.C) *mc.Case {
					b := mc.Pick(c, docs25)
					n := 1 + c.Choose(64+9)
					if n > 64 {
						n = []int{127, 128, 255, 256, 257, 512, 4095, 4096, 1 << 30}[n-65]
					}
					eof := c.Bool()
					empty := c.Choose(4)
					reports := n%8 == 1 || th
					if c.Skip {
						return mc.Stub
					}
					return run(label("%s: at most %d bytes, end with data %v, empty reads %d", b.name, n, eof, empty), b, reports, eof, func() func(int, int64, int) int {
						return func(i int, _ int64, _ int) int {
							if empty > 0 && i%(empty+1) == empty {
								return 0
							}
							return n
						}
					})
				}},
				{"cuts", "every document, no read passes one given offset (all offsets), end of file alone or with the last data", func(c *mc.C) *mc.Case {
					b := mc.Pick(c, docs25)
					at := int64(1 + c.Choose(len(b.doc)-1))
					eof := c.Bool()
					if c.Skip {
						return mc.Stub
					}
					return run(label("%s: cut at %d, end with data %v", b.name, at, eof), b, eof, eof, func() func(int, int64, int) int {
						return func(_ int, pos int64, n int) int {
							if pos < at && pos+int64(n) > at {
								return int(at - pos)
							}
							return n
						}
					})
				}},
				{"two cuts", "the two smallest documents, no read passes either of two given offsets (all pairs)", func(c *mc.C) *mc.Case {
					b := docs25[len(docs25)-1-c.Choose(2)]
					at := 1 + c.Choose(len(b.doc)-1)
					at2 := at + c.Choose(len(b.doc)-at)
					if !th && at2-at > 12 && (at+at2)%4 != 0 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					return run(label("%s: cuts at %d and %d", b.name, at, at2), b, false, false, func() func(int, int64, int) int {
						return func(_ int, pos int64, n int) int {
							for _, a := range []int64{int64(at), int64(at2)} {
								if pos < a && pos+int64(n) > a {
									return int(a - pos)
								}
							}
							return n
						}
					})
				}},
				{"one deviation", "every document, one read (each in turn) returns 0, 1, 2, 3 or half the bytes", func(c *mc.C) *mc.Case {
					b := mc.Pick(c, docs25)
					i := c.Choose(count(b))
					k := c.Choose(5)
					if !th && count(b) > 1000 && i%4 != k%4 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					return run(label("%s: read %d short %d", b.name, i, k), b, false, false, func() func(int, int64, int) int {
						return func(j int, _ int64, n int) int {
							if j != i {
								return n
							}
							if k == 4 {
								return n / 2
							}
							return k
						}
					})
				}},
				{"two deviations", "small documents, two reads (each pair) return 1 and 1 or 1 and half the bytes", func(c *mc.C) *mc.Case {
					b := docs25[len(docs25)-1-c.Choose(2)]
					n := count(b)
					i := c.Choose(n)
					j := i + 1 + c.Choose(n-i)
					half := c.Bool()
					if !th && (i+j)%3 != 0 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					return run(label("%s: reads %d and %d short, half %v", b.name, i, j, half), b, false, false, func() func(int, int64, int) int {
						return func(r int, _ int64, n int) int {
							if r == i || (r == j && !half) {
								return 1
							}
							if r == j {
								return n / 2
							}
							return n
						}
					})
				}},
				{"shifts inside", "an object with every kind of token: padding of white space or a comment in each gap, of every size that puts each byte of the rest across the buffer's end", func(c *mc.C) *mc.Case {
					v := Dict{{"Name#1", Name("V al")}, {"S", Str("a(b)\\c\r\n")}, {"N", Arr{Num(-1.5), Num(20), Ref{12, 3}, Num(7), Num(8), ref.Null, Key("true")}}, {"D", Dict{{"H", Str("\x01\xff")}}}}
					toks := ref.Tokens(v)
					for i, t := range toks {
						if t == ref.Lit("\x01\xff") {
							toks[i] = "<01fF>"
						}
					}
					gap := c.Choose(len(toks) - 1)
					total := len(strings.Join(toks, " "))
					at := c.Choose(total + 20)
					kind := c.Choose(2)
					body := c.Choose(2)
					if !th && (at+gap)%2 != 0 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					n := 4096 - at
					pad := strings.Repeat(" \n\t", n)[:n]
					if kind == 1 {
						pad = "%" + strings.Repeat("-", n-2) + "\n"
					}
					text := ref.Join(toks, func(i int) string {
						if i == gap {
							return pad
						}
						return " "
					})
					b := ref.NewBuilder()
					w := map[int]V{2: Str("after"), 1: v}
					if body == 1 {
						b.Obj(1, 0, text+"\nstream\nab\ncd\nendstream")
					} else {
						b.Obj(1, 0, text)
					}
					b.Obj(2, 0, "(after)")
					b.Table("/Root 1 0 R")
					return valueCase(label("gap %d padded by %d kind %d stream %d", gap, n, kind, body), b.Bytes(), w)
				}},
				{"far", "documents of two revisions (a replaced, a freed and an added object; tables; startxref good, wrong or missing): every marker begins at each of the last 24 bytes before and the first behind every power of two from 2^12 to 2^17 (thorough 2^20) and its triple, the gap being a comment, white space or another object's payload", func(c *mc.C) *mc.Case {
					pow := 12 + c.Choose(map[bool]int{false: 6, true: 9}[th])
					target := (1 + 2*c.Choose(2)) << pow
					d := c.Choose(26) - 1
					mark := c.Choose(len(marks25))
					kind := c.Choose(3)
					end := c.Choose(3)
					if !th && (pow > 15 && (d+mark+kind+end)%4 != 0 || (d+mark+kind)%3 != end) {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					var doc []byte
					size := target - d
					for round := 0; round < 3; round++ {
						var at int
						doc, at = far25(mark, size, kind, end)
						size += target - d - at
						if size < 10 {
							return nil
						}
					}
					w := map[int]V{1: Str("one"), 2: ref.Null, 3: Str("newer"), 5: Str("added")}
					return &mc.Case{Label: label("%q at %#x-%d gap %d end %d", marks25[mark], target, d, kind, end), Doc: doc, Run: func() mc.Result {
						p, err := open(doc, "")
						if err != nil {
							return fail("Load: %v", err)
						}
						if r := checkValues(p, w); r.Fail != "" {
							return r
						}
						if o := p.GetObject(4); string(o.Stream) != "stream\ndata" {
							return fail("stream is %q", o.Stream)
						}
						return mc.Result{Outcome: mc.Digest(fmt.Sprint(len(p.Xref)))}
					}}
				}},
				{"shifts between", "white space or comments of every size from 0 to 600 and around 4096 and 8192 between the objects, before the cross-reference section, before startxref, behind the end, in documents with tables, streams, updates, encryption and damaged cross-references", func(c *mc.C) *mc.Case {
					sz := c.Choose(600 + 280)
					if sz >= 600 {
						sz = 4096 - 700 + (sz-600)*5 // objects start everywhere around the buffer's end
						if sz%10 < 5 {
							sz += 4096
						}
					}
					where := c.Choose(5)
					kind := c.Choose(3)
					style := c.Choose(5)
					if !th && (sz+where+kind+style)%4 != 0 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					pad := strings.Repeat(" \r\n\t\x00\f", sz)[:sz]
					if kind == 1 && sz > 1 {
						pad = "%" + strings.Repeat("-", sz-2) + "\n"
					} else if kind == 2 {
						pad = strings.Repeat("%x\n  ", sz)[:sz/5*5]
					}
					if kind != 0 && style == 4 {
						pad = strings.ReplaceAll(pad, "\n", "\r")
					}
					cr := econfsFew[3].crypt("", "o")
					m := econfsFew[3].method()
					cr.Setup()
					e := func(n int, v V) string {
						if style == 3 {
							v = cr.EncryptValue(m, n, 0, v)
						}
						return ref.Write(v)
					}
					trailer := "/Root 1 0 R"
					if style == 3 {
						trailer = cr.Trailer(cr.Dict(econfsFew[3].cf()))
					}
					b := ref.NewBuilder()
					put := func(w int) {
						if w == where {
							b.Text(pad)
						}
					}
					sect := func() {
						put(1)
						if style == 1 {
							b.XrefStream(20+b.Max, trailer)
						} else {
							b.Table(trailer)
						}
						put(3)
					}
					b.Obj(1, 0, e(1, Dict{{"A", Arr{Num(1), Ref{2, 0}}}}))
					put(0)
					b.Obj(2, 0, e(2, Str("two")))
					put(0)
					data := []byte("stream data")
					if style == 3 {
						data = cr.Encrypt(m, 3, 0, data)
					}
					b.Stream(3, 0, "/K (v)", data)
					if style == 3 {
						b.Bytes()
					}
					put(0)
					put(2)
					sect()
					if style == 2 {
						b.Obj(2, 0, e(2, Str("newer")))
						put(0)
						sect()
					}
					doc := b.Bytes()
					if where == 4 {
						doc = append(doc, pad...)
					}
					if style == 4 {
						doc = bytes.Replace(doc, []byte("startxref\n"), []byte("startxref\n9"), 1)
					}
					if i := bytes.LastIndex(doc, []byte("startxref")); where == 3 && i > 0 && kind == 0 {
						doc = splice(doc, i, 0, pad)
					}
					two := "two"
					if style == 2 {
						two = "newer"
					}
					w := map[int]V{1: Dict{{"A", Arr{Num(1), Ref{2, 0}}}}, 2: Str(two)}
					return &mc.Case{Label: label("padding %d at %d kind %d style %d", len(pad), where, kind, style), Doc: doc, Run: func() mc.Result {
						p, err := open(doc, "")
						if err != nil {
							return fail("Load: %v", err)
						}
						if r := checkValues(p, w); r.Fail != "" {
							return r
						}
						if got := string(p.GetObject(3).Stream); got != "stream data" {
							return fail("stream is %q", got)
						}
						return mc.Result{Outcome: mc.Digest(fmt.Sprint(len(p.Xref)))}
					}}
				}},
			}
		},
	})
}
