package props

import (
	"bytes"
	"fmt"
	"strings"

	"verif/mc"
	"verif/ref"
)

// base12 is a one-revision document with three objects; sec is where its cross-reference section starts, dict
// where the dictionary of a cross-reference stream ends.
type base12 struct {
	name     string
	doc      []byte
	sec, end int
	obj      []int // offsets of the objects
}

var bodies12 = []string{"<</A (one) /B [1 2 3]>>", "(two)", "[/Three 3 0 R]"}

func want12() map[int]V {
	m := map[int]V{}
	for i, b := range bodies12 {
		m[i+1] = ref.Parse([]byte(b))
	}
	return m
}

func bases12() []base12 {
	var out []base12
	for _, k := range []string{"table", "table0", "stream", "stream0", "flate"} {
		var o base12
		o.name = k
		o.doc = ref.Fix(func(l *ref.Layout) {
			o.obj = nil
			l.Text("%%PDF-1.7\n")
			ents := map[int]ref.Entry{}
			for i, b := range bodies12 {
				o.obj = append(o.obj, l.Len())
				ents[i+1] = ref.Entry{Off: int64(l.Len()), Type: 1}
				l.Obj(fmt.Sprint(i), i+1, 0, b)
			}
			o.sec = l.Len()
			l.Mark("sec")
			free := strings.HasSuffix(k, "0")
			if free {
				ents[0] = ref.Entry{Gen: 65535}
			}
			if strings.HasPrefix(k, "table") {
				l.Text("%s", ref.TableText(ents))
				l.Text("trailer\n<</Size 4 /Root 1 0 R>>\n")
				o.end = -1
			} else {
				ents[4] = ref.Entry{Off: int64(o.sec), Type: 1}
				idx := "1 4"
				if free {
					idx = "0 5"
				}
				d := ref.XrefData(ents, ref.Runs(ents), [3]int{1, 4, 2})
				f := ""
				if k == "flate" {
					d = ref.Zlib(d, 6)
					f = "/Filter /FlateDecode "
				}
				b := ref.StreamBody(fmt.Sprintf("/Type /XRef %s/Size 5 /W [1 4 2] /Index [%s] /Root 1 0 R", f, idx), d)
				o.end = l.Len() + len("4 0 obj\n") + strings.Index(b, "\nstream")
				l.Obj("xs", 4, 0, b)
			}
			l.Text("startxref\n%d\n%%%%EOF\n", l.Off("sec"))
			if o.end < 0 {
				o.end = l.Len()
			}
		})
		out = append(out, o)
	}
	return out
}

func splice(doc []byte, at, del int, ins string) []byte {
	return append(append(append([]byte{}, doc[:at]...), ins...), doc[at+del:]...)
}

// usable tells whether the section, if it is a stream, can be misread as entries of another layout (then free
// or unknown entries may result by accident).
func usable(b base12, doc []byte) bool {
	if strings.HasPrefix(b.name, "table") || len(doc) < b.sec {
		return true
	}
	r := ref.NewReader(doc[b.sec:])
	i := bytes.Index(doc[b.sec:], []byte("obj"))
	if i < 0 {
		return true
	}
	r.P = i + 3
	v, _ := r.Object()
	d, _ := v.(Dict)
	w, ok := d.Get("W")
	a, isArr := w.(Arr)
	if !ok || !isArr || len(a) < 3 {
		return true
	}
	std := true
	for k, x := range []float64{1, 4, 2} {
		n, ok := a[k].(Num)
		if !ok || n < 0 || n > 8 {
			return true
		}
		std = std && float64(n) == x
	}
	if !std {
		return false
	}
	if b.name == "flate" {
		f, _ := d.Get("Filter")
		return f == Name("FlateDecode")
	}
	return true
}

func init() {
	bases := bases12()
	byName := map[string]base12{}
	for _, b := range bases {
		byName[b.name] = b
	}
	want := want12()
	clean := func(names ...string) func(c *mc.C) base12 {
		return func(c *mc.C) base12 { return byName[mc.Pick(c, names)] }
	}
	all := clean("table", "table0", "stream", "stream0", "flate")
	repl := []string{"", " ", "9", "x", "-", "\n", "\x00", "%", "(", ")", "<", ">", "[", "]", "/", "99999999999999999999"}
	mc.Register(&mc.Prop{
		ID:        "C12",
		Technique: "exhaustive enumeration of damage patterns (every byte edit, truncation, offset and pointer value, and combinations) on cross-reference data, executed on the real loader, compared with the documents' objects",
		Assumptions: []string{
			"damage that turns an entry into a free or unknown-type entry of an existing object is outside the property (such an entry is a valid statement that the object does not exist)",
		},
		Scopes: func(th bool) []mc.Scope {
			sc := []mc.Scope{
				{"bytes", "every single byte of the section (table, trailer, startxref; for streams the dictionary) deleted, replaced or preceded by each of 15 strings", func(c *mc.C) *mc.Case {
					b := clean("table", "stream", "flate")(c)
					at := b.sec + c.Choose(b.end-b.sec)
					del := c.Choose(2)
					ins := mc.Pick(c, repl)
					doc := splice(b.doc, at, del, ins)
					if !usable(b, doc) {
						return nil
					}
					return valueCase(label("%s: %d bytes at %d replaced by %q", b.name, del, at, ins), doc, want)
				}},
				{"pairs", "every pair of bytes of the section deleted or replaced", func(c *mc.C) *mc.Case {
					b := clean("table", "stream", "flate")(c)
					r := []string{"", "x"}
					if th {
						r = []string{"", "x", "9", " ", "%", "("}
					}
					i := c.Choose(b.end - b.sec)
					j := c.Choose(b.end - b.sec)
					if j <= i {
						return nil
					}
					x, y := mc.Pick(c, r), mc.Pick(c, r)
					doc := splice(splice(b.doc, b.sec+j, 1, y), b.sec+i, 1, x)
					if !usable(b, doc) {
						return nil
					}
					return valueCase(label("%s: bytes %d, %d replaced by %q, %q", b.name, b.sec+i, b.sec+j, x, y), doc, want)
				}},
				{"cuts", "every range of the section of <= 40 bytes removed, every prefix of the file", func(c *mc.C) *mc.Case {
					b := clean("table", "stream", "flate")(c)
					if c.Bool() {
						n := b.sec + c.Choose(len(b.doc)-b.sec)
						if b.name == "flate" && n > b.end { // undecodable data is passed on as it is and may then look like other entries
							i := bytes.Index(b.doc[b.sec:], []byte("stream\n")) + b.sec + 7
							if out, _ := ref.InflateLazy(b.doc[i:max(i, n)]); len(out) == 0 && n > i {
								return nil
							}
						}
						return valueCase(label("%s: first %d of %d bytes", b.name, n, len(b.doc)), b.doc[:n], want)
					}
					at := c.Choose(b.end - b.sec)
					n := 2 + c.Choose(39)
					if at+n > b.end-b.sec {
						return nil
					}
					doc := splice(b.doc, b.sec+at, n, "")
					if !usable(b, doc) {
						return nil
					}
					return valueCase(label("%s: %d bytes removed at %d", b.name, n, b.sec+at), doc, want)
				}},
				{"prefixes", "every prefix of the file: all objects that end before the cut", func(c *mc.C) *mc.Case {
					b := all(c)
					n := c.Choose(b.sec)
					w := map[int]V{}
					for i, o := range b.obj {
						if o+bytes.Index(b.doc[o:], []byte("endobj")) <= n {
							w[i+1] = want[i+1]
						}
					}
					cs := valueCase(label("%s: first %d of %d bytes", b.name, n, len(b.doc)), b.doc[:n], w)
					cs.Trivial = len(w) == 0
					return cs
				}},
				{"startxref", "startxref pointing at every byte of the file and beyond, with and without the section it should point at", func(c *mc.C) *mc.Case {
					b := all(c)
					to := fmt.Sprint(c.Choose(len(b.doc) + 3))
					doc := b.doc
					i := bytes.LastIndex(doc, []byte("startxref\n")) + 10
					doc = append(append([]byte{}, doc[:i]...), (to + "\n%%EOF\n")...)
					k := c.Choose(3)
					if k == 1 {
						copy(doc[b.sec:], "xxxx")
					} else if k == 2 {
						doc = bytes.Replace(doc, []byte("/XRef"), []byte("/XReg"), 1)
					}
					return valueCase(label("%s: startxref %s variant %d", b.name, to, k), doc, want)
				}},
				{"startxref-values", "odd startxref values, line ends and duplicates", func(c *mc.C) *mc.Case {
					b := all(c)
					doc := b.doc[:bytes.LastIndex(b.doc, []byte("startxref\n"))]
					v := mc.Pick(c, []string{"", "-1", "-100", "+5", "1.5", "(1)", "<31>", "[9]", "9223372036854775807", "9223372036854775808", "99999999999999999999999", "0000000000000000000000000000000", "4294967296", "R", "startxref", "%%EOF", "null", "1 0 R"})
					t := mc.Pick(c, []string{"startxref\n%s\n%%%%EOF\n", "startxref\r%s\r%%%%EOF", "startxref%s%%%%EOF", "startxref %s", "%s", "startxref\n%s\n%%%%EOF\nstartxref\n0\n%%%%EOF\n", "\nstartxref\n9\n%%%%EOF\nstartxref\n%s\n%%%%EOF\n"})
					tail := strings.Repeat(mc.Pick(c, []string{"", "\n", "\x00 "}), mc.Pick(c, []int{1, 200, 300}))
					return valueCase(label("%s: startxref value %q in %q, %d bytes behind", b.name, v, t, len(tail)), append(append([]byte{}, doc...), (fmt.Sprintf(t, v)+tail)...), want)
				}},
				{"one-offset", "the offset of one entry set to every byte of the file and beyond", func(c *mc.C) *mc.Case {
					b := clean("table", "table0", "stream", "stream0")(c)
					o := c.Choose(3)
					to := c.Choose(len(b.doc) + 3)
					doc := append([]byte{}, b.doc...)
					if strings.HasPrefix(b.name, "table") {
						copy(doc[bytes.Index(doc, []byte(fmt.Sprintf("%010d 00000 n", b.obj[o]))):], fmt.Sprintf("%010d", to))
					} else {
						i := bytes.Index(doc, []byte{1, byte(b.obj[o] >> 24), byte(b.obj[o] >> 16), byte(b.obj[o] >> 8), byte(b.obj[o]), 0, 0})
						copy(doc[i+1:], []byte{byte(to >> 24), byte(to >> 16), byte(to >> 8), byte(to)})
					}
					return valueCase(label("%s: entry of object %d points at %d", b.name, o+1, to), doc, want)
				}},
				{"trust", "up to two copies of each of 3 objects x entries pointing at a copy, at other objects, outside, or missing: a copy that is pointed at is used, otherwise the last one", func(c *mc.C) *mc.Case {
					stream := c.Bool()
					align := c.Bool()
					copies := make([]int, 3)
					ent := make([]string, 3)
					kinds := []string{"first", "last", "next", "zero", "beyond", "inside", "none"}
					if stream {
						kinds = append(kinds, "negative", "huge")
					}
					for i := range ent {
						copies[i] = 1 + c.Choose(2)
						ent[i] = mc.Pick(c, kinds)
					}
					if c.Skip {
						return mc.Stub
					}
					w := map[int]V{}
					doc := ref.Fix(func(l *ref.Layout) {
						l.Text("%%PDF-1.7\n7 0 obj\nnull\nendobj\n")
						for k := 0; k < 2; k++ {
							for i := 0; i < 3; i++ {
								if k < copies[i] {
									if align && k == 0 { // object headers at the boundaries of the read buffer
										n := 4096*(i+1) - l.Len()
										l.Text("%%%s\n", strings.Repeat("-", n-2))
									}
									l.Obj(fmt.Sprintf("%d.%d", k, i), i+1, 0, fmt.Sprintf("[/Copy %d (of %d)]", k, i+1))
								}
							}
						}
						l.Mark("sec")
						type e struct {
							n   int
							off int64
						}
						var es []e
						for i, k := range ent {
							use := copies[i] - 1
							off := int64(0)
							switch k {
							case "first":
								use = 0
								off = l.Off(fmt.Sprintf("0.%d", i))
							case "last":
								off = l.Off(fmt.Sprintf("%d.%d", use, i))
							case "next":
								off = l.Off(fmt.Sprintf("0.%d", (i+1)%3))
							case "beyond":
								off = 9999999999
								if stream {
									off = 1<<62 + 5
								}
							case "inside":
								off = l.Off(fmt.Sprintf("0.%d", i)) + 10
							case "negative":
								off = -7
							case "huge":
								off = -1 << 63
							}
							w[i+1] = Arr{Name("Copy"), Num(use), Str(fmt.Sprintf("of %d", i+1))}
							if k != "none" {
								es = append(es, e{i + 1, off})
							}
						}
						if stream {
							ents := map[int]ref.Entry{9: {Off: l.Off("sec"), Type: 1}}
							for _, x := range es {
								ents[x.n] = ref.Entry{Off: x.off, Type: 1}
							}
							rs := ref.Runs(ents)
							ix := ""
							for _, r := range rs {
								ix += fmt.Sprintf("%d %d ", r[0], r[1])
							}
							l.Obj("xs", 9, 0, ref.StreamBody(fmt.Sprintf("/Type /XRef /Size 10 /W [1 8 2] /Index [%s]", ix), ref.XrefData(ents, rs, [3]int{1, 8, 2})))
						} else {
							l.Text("xref\n0 1\n0000000000 65535 f \n")
							for _, x := range es {
								l.Text("%d 1\n%010d 00000 n \n", x.n, x.off)
							}
							l.Text("trailer\n<</Size 4>>\n")
						}
						l.Text("startxref\n%d\n%%%%EOF\n", l.Off("sec"))
					})
					return valueCase(label("stream %v copies %v entries %v aligned %v", stream, copies, ent, align), doc, w)
				}},
				{"unreachable-sections", "encrypted documents whose section is intact but not where startxref says (missing, zero, elsewhere, beyond the file): table or stream behind 14 kinds of text x line ends of the section x a read buffer in front: the trailer is found and everything is decrypted", func(c *mc.C) *mc.Case {
					form := c.Choose(2)
					before := mc.Pick(c, []string{"\n", "\r", "\r\n", " ", "", "\t", "\x00", "\x0c", "%c\n", "%c\r", "\n\n", "garbage ", "]", ">> "})
					nl := mc.Pick(c, []string{"\n", "\r", "\r\n"})
					sx := mc.Pick(c, []string{"", "startxref%s0%s%%%%EOF", "startxref%s17%s%%%%EOF%[1]s", "startxref%s99999%s%%%%EOF", "startxref%s-5%s%%%%EOF", "startxref"})
					aes := c.Bool()
					far := mc.Pick(c, []int{0, 1024, 4096, 9000})
					if c.Skip {
						return mc.Stub
					}
					e := econf{2, 3, 128, "RC4", false}
					if aes {
						e = econf{4, 4, 128, "AES", false}
					}
					cr := e.crypt("", "o")
					cr.Setup()
					want := map[int]V{}
					b := ref.NewBuilder()
					for i := 1; i <= 3; i++ {
						want[i] = Arr{Str(fmt.Sprintf("secret %d", i)), Name("N")}
						b.Obj(i, 0, ref.Write(cr.EncryptValue(e.method(), i, 0, want[i])))
					}
					if far > 0 {
						b.Text("%" + strings.Repeat("-", far) + "\n")
					}
					b.Text("7 0 obj null endobj" + before)
					t := cr.Trailer(cr.Dict(e.cf()))
					if form == 0 {
						b.Text(strings.ReplaceAll(ref.TableText(b.Pending)+"trailer\n<<"+t+">>\n", "\n", nl))
					} else {
						ents := b.Pending
						ents[9] = ref.Entry{Off: b.Len(), Type: 1}
						rs := ref.Runs(ents)
						ix := ""
						for _, r := range rs {
							ix += fmt.Sprintf("%d %d ", r[0], r[1])
						}
						b.Text(strings.ReplaceAll("9 0 obj\n", "\n", nl) + ref.StreamBody(fmt.Sprintf("/Type /XRef /Size 10 /W [1 8 2] /Index [%s] %s", ix, t), ref.XrefData(ents, rs, [3]int{1, 8, 2})) + nl + "endobj" + nl)
					}
					if strings.Contains(sx, "%") {
						sx = fmt.Sprintf(sx, nl, nl)
					}
					doc := append(b.Bytes(), sx...)
					return valueCase(label("section kind %d behind %q, line end %q, %q, AES %v, far %d", form, before, nl, sx, aes, far), doc, want)
				}},
				{"generations", "up to two copies of two objects x generations of the copies x entries that are right, wrong or missing with a right or wrong generation x plain and encrypted: repaired objects have the generation of their header", func(c *mc.C) *mc.Case {
					form := c.Choose(3) // table, stream, no section at all
					encrypted := c.Bool()
					gens := []int{0, 1, 300}
					type o struct {
						gens []int
						ent  string
						gen  int
					}
					var os []o
					for i := 0; i < 2; i++ {
						var x o
						for k := 1 + c.Choose(2); k > 0; k-- {
							x.gens = append(x.gens, mc.Pick(c, gens))
						}
						if form < 2 {
							x.ent = mc.Pick(c, []string{"first", "last", "wrong", "none"})
							if x.ent == "wrong" {
								x.gen = mc.Pick(c, gens)
							}
						}
						os = append(os, x)
					}
					if form == 2 && encrypted {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					cr := &ref.Crypt{V: 2, R: 3, Bits: 128, P: -4, ID: "0123456789abcdef"}
					cr.Setup()
					m := ref.Method{Kind: "RC4", Len: 16}
					want, wantGen := map[int]V{}, map[int]int{}
					doc := ref.Fix(func(l *ref.Layout) {
						l.Text("%%PDF-1.7\n")
						for i, x := range os {
							for k, g := range x.gens {
								v := V(Arr{Str(fmt.Sprintf("copy %d of %d", k, i+1)), Num(g)})
								if k == len(x.gens)-1 || k == 0 && x.ent == "first" {
									want[i+1], wantGen[i+1] = v, g
								}
								if encrypted {
									v = cr.EncryptValue(m, i+1, g, v)
								}
								l.Obj(fmt.Sprintf("%d.%d", i, k), i+1, g, ref.Write(v))
								if k == 0 && x.ent == "first" {
									break
								}
							}
						}
						// the other copies, which must not be used
						for i, x := range os {
							if x.ent == "first" && len(x.gens) > 1 {
								l.Obj(fmt.Sprintf("%d.1", i), i+1, x.gens[1], "(not this one)")
							}
						}
						l.Mark("sec")
						ents := map[int]ref.Entry{}
						for i, x := range os {
							last := len(x.gens) - 1
							switch x.ent {
							case "first":
								ents[i+1] = ref.Entry{Off: l.Off(fmt.Sprintf("%d.0", i)), Gen: x.gens[0], Type: 1}
							case "last":
								ents[i+1] = ref.Entry{Off: l.Off(fmt.Sprintf("%d.%d", i, last)), Gen: x.gens[last], Type: 1}
							case "wrong":
								ents[i+1] = ref.Entry{Off: 3, Gen: x.gen, Type: 1}
							}
						}
						t := "/Root 1 0 R"
						if encrypted {
							t = cr.Trailer(cr.Dict(""))
						}
						switch form {
						case 0:
							l.Text("%s", ref.TableText(ents))
							l.Text("trailer\n<</Size 10 %s>>\n", t)
						case 1:
							ents[9] = ref.Entry{Off: l.Off("sec"), Type: 1}
							rs := ref.Runs(ents)
							ix := ""
							for _, r := range rs {
								ix += fmt.Sprintf("%d %d ", r[0], r[1])
							}
							l.Obj("xs", 9, 0, ref.StreamBody(fmt.Sprintf("/Type /XRef /Size 10 /W [1 8 2] /Index [%s] %s", ix, t), ref.XrefData(ents, rs, [3]int{1, 8, 2})))
						}
						if form < 2 {
							l.Text("startxref\n%d\n%%%%EOF\n", l.Off("sec"))
						}
					})
					return &mc.Case{Label: label("form %d encrypted %v %v", form, encrypted, os), Doc: doc, Run: func() mc.Result {
						p, err := open(doc, "")
						if err != nil {
							return fail("Load: %v", err)
						}
						for _, n := range keys(want) {
							if g := p.GetObject(n).Generation; g != wantGen[n] {
								return fail("object %d has generation %d, expected %d", n, g, wantGen[n])
							}
						}
						return checkValues(p, want)
					}}
				}},
				{"damaged-objects", "all sequences of 3 objects that are intact, unclosed or cut off in 14 ways, with sections lost or wrong: intact objects keep their value", func(c *mc.C) *mc.Case {
					bodies := []string{
						"<</I (intact)>>\nendobj\n", "[(intact) 1]\nendobj\n", "(intact)endobj ", "<</S 1>>\nstream\nintact\nendstream\nendobj\n",
						"<</A 1 /B (x)\nendobj\n", "<</A << /B [1 2\nendobj\n", "[1 2 (x)\n", "(never closed\nendobj\n", "<4142\nendobj\n", "<</A 1>>\nstream\nno end\n",
						"<<", "", "\n", "/Name#", "<</Type /XRef /W [1 2\nendobj\n", "endobj\n", "% comment\n", "1 0\n",
					}
					var is []int
					for i := 0; i < 3; i++ {
						is = append(is, c.Choose(len(bodies)))
					}
					form := c.Choose(3)
					gap := mc.Pick(c, []string{"", "\n", "%---\n"})
					if c.Skip {
						return mc.Stub
					}
					b := ref.NewBuilder()
					want := map[int]V{}
					for i, k := range is {
						b.Text("\n")
						if form == 1 { // entries that point at the end of the header line
							b.Pending[i+1] = ref.Entry{Off: b.Len() + 5, Type: 1}
						}
						b.Text(fmt.Sprintf("%d 0 obj%s%s", i+1, gap, bodies[k]))
						if gap == "" && bodies[k] != "" && bodies[k][0] != '\n' && !ref.IsDelim(bodies[k][0]) {
							return nil
						}
						if k < 4 {
							want[i+1] = ref.Parse([]byte(bodies[k]))
						}
					}
					b.Text("\n9 0 obj\n(last)\nendobj\n")
					want[9] = Str("last")
					switch form {
					case 1:
						b.Table("")
					case 2:
						b.StartXref(12345)
					}
					doc := b.Bytes()
					return &mc.Case{Label: label("bodies %v gap %q form %d", is, gap, form), Doc: doc, Run: func() mc.Result { return expectValues(doc, "", want) }}
				}},
				{"lost", "all histories of 3 revisions of sets on 2 objects with all sections lost in one of 5 ways: the last copies", func(c *mc.C) *mc.Case {
					h := &hist{order: identity(3), bodies: dictBody, nums: []int{1, 2}}
					for r := 0; r < 3; r++ {
						h.stream = append(h.stream, c.Bool())
						h.op = append(h.op, []int{c.Choose(2), c.Choose(2)})
					}
					how := c.Choose(5)
					last, _, _ := h.model()
					if c.Skip {
						return mc.Stub
					}
					doc := h.doc()
					x := func(a, b string) { doc = bytes.ReplaceAll(doc, []byte(a), []byte(b)) }
					switch how {
					case 0:
						x("xref", "xxxx")
						x("/XRef", "/XReg")
					case 1:
						x("xref\n", "")
						x("/XRef", "/Text")
					case 2:
						x("startxref", "")
						x("xref\n", "\n")
						x("/Type /XRef", "")
					case 3:
						x(" n", "  ")
						x("/W", "/w")
					case 4:
						x("xref\n", "ref\n")
						x("/W [1 4 2]", "/W [1 4]")
					}
					w := map[int]V{}
					for o, r := range last {
						w[h.nums[o]] = ref.Null
						if r >= 0 {
							w[h.nums[o]] = ref.Parse([]byte(h.bodies(r, o)))
						}
					}
					return valueCase(label("%s lost %d", h, how), doc, w)
				}},
				{"some-lost", "3 revisions that set each of 3 objects once, any subset of the sections and pointers lost", func(c *mc.C) *mc.Case {
					h := &hist{order: mc.Pick(c, permutations(3)), bodies: dictBody, nums: []int{1, 2, 3}, op: [][]int{{0, 0, 0}, {0, 0, 0}, {0, 0, 0}}}
					for r := 0; r < 3; r++ {
						h.stream = append(h.stream, c.Bool())
					}
					w := map[int]V{}
					for o := 0; o < 3; o++ {
						r := c.Choose(3)
						h.op[r][o] = opSet
						w[o+1] = ref.Parse([]byte(h.bodies(r, o)))
					}
					lost := c.Choose(8)
					nosx := c.Bool()
					if c.Skip {
						return mc.Stub
					}
					doc := h.doc()
					// sections in physical order
					pos := 0
					for i, r := range h.order {
						key := "\nxref\n"
						if h.stream[r] {
							key = "/XRef"
						}
						j := bytes.Index(doc[pos:], []byte(key)) + pos
						if lost>>uint(i)&1 == 1 {
							copy(doc[j:], "_____"[:len(key)-1])
							if h.stream[r] {
								k := j + bytes.Index(doc[j:], []byte("/W"))
								copy(doc[k:], "/w")
							}
						}
						pos = j + bytes.Index(doc[j:], []byte("%%EOF"))
					}
					if nosx {
						doc = bytes.ReplaceAll(doc, []byte("startxref"), []byte("startxxxx"))
					}
					return valueCase(label("%s lost sections %03b pointers %v", h, lost, nosx), doc, w)
				}},
				{"headers", "object headers whose parts are separated by 1 to 200, and around powers of two up to 10000, characters of white space or comment (also ones that look like headers), sections lost, wrong or right", func(c *mc.C) *mc.Case {
					ns := []int{250, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4090, 4095, 4096, 4097, 5000, 8192, 10000}
					k := c.Choose(200 + len(ns))
					n := k + 1
					if k >= 200 {
						n = ns[k-200]
					}
					kind := c.Choose(6)
					first := c.Bool()
					how := c.Choose(3)
					if !th && n > 40 && n < 200 && n%8 > 1 && n%8 < 7 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					x := []string{strings.Repeat(" ", n), strings.Repeat("\r\n", (n+1)/2), strings.Repeat("\x00", n), "%" + strings.Repeat("c", n-1) + "\n", strings.Repeat("%\n", (n+1)/2), " %" + strings.Repeat("7 0 obj ", n/8) + "\r"}[kind]
					s1, s2 := x, " "
					if !first {
						s1, s2 = s2, s1
					}
					b := ref.NewBuilder()
					b.Obj(3, 0, "(neighbour)")
					b.Pending[5] = ref.Entry{Off: b.Len(), Gen: 2, Type: 1}
					b.Text("5" + s1 + "2" + s2 + "obj\n(it)\nendobj\n")
					b.Max = 5
					b.Obj(4, 0, "(next)")
					e := b.Pending[5]
					switch how {
					case 0:
						delete(b.Pending, 5)
					case 1:
						e.Off = b.Pending[4].Off
						b.Pending[5] = e
					}
					b.Table("")
					doc := b.Bytes()
					if how == 0 {
						doc = doc[:b.Last]
					}
					return valueCase(label("%d characters of kind %d first gap %v entry %d", n, kind, first, how), doc, map[int]V{3: Str("neighbour"), 5: Str("it"), 4: Str("next")})
				}},
				{"digits", "object and generation numbers of 1 to 10 digits with up to 3 leading zeros, five ways around the header, sections lost, wrong or right", func(c *mc.C) *mc.Case {
					n := mc.Pick(c, []int{1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 65536, 99999, 100000, 999999, 1000000, 8388608, 9999999, 10000000, 123456789, 999999999, 2147483647})
					g := mc.Pick(c, []int{0, 1, 10, 999, 9999, 65535})
					zeros := strings.Repeat("0", c.Choose(4))
					sep := mc.Pick(c, []string{" ", "\n", "\r\n", "  \t\x00", "%12 0 obj\n"})
					how := c.Choose(4) // lost, pointing nowhere, pointing at a neighbour, right
					b := ref.NewBuilder()
					b.Obj(3, 0, "(neighbour)")
					b.Pending[n] = ref.Entry{Off: b.Len(), Gen: g, Type: 1}
					b.Text(fmt.Sprintf("%s%d%s%s%d%sobj\n(it)\nendobj\n", zeros, n, sep, zeros, g, sep))
					b.Max = n
					b.Obj(4, 0, "(next)")
					e := b.Pending[n]
					switch how {
					case 0:
						delete(b.Pending, n)
					case 1:
						e.Off = 3
						b.Pending[n] = e
					case 2:
						e.Off = b.Pending[4].Off
						b.Pending[n] = e
					}
					b.Table("")
					doc := b.Bytes()
					if how == 0 && c.Bool() {
						doc = doc[:b.Last]
					}
					return valueCase(label("%d %d zeros %q separator %q entry %d length %d", n, g, zeros, sep, how, len(doc)), doc, map[int]V{3: Str("neighbour"), n: Str("it"), 4: Str("next")})
				}},
				{"shifted", "text of every length up to 60 and some beyond in front of the document or behind it", func(c *mc.C) *mc.Case {
					b := all(c)
					var n int
					if k := c.Choose(2); k == 0 {
						n = c.Choose(61)
					} else {
						n = mc.Pick(c, []int{100, 200, 256, 257, 300, 1000, 4090, 4096, 5000, 20000})
					}
					unit := mc.Pick(c, []string{"x", "\n", " ", "%", "\x00", "9", "("})
					junk := strings.Repeat(unit, n)
					doc := append([]byte(junk+"\n"), b.doc...)
					if c.Bool() {
						doc = append(append([]byte{}, b.doc...), junk...)
					}
					return valueCase(label("%s with %d times %q", b.name, n, unit), doc, want)
				}},
				{"numbers", "subsection starts and counts that do not match the entries; Size, Prev and Index with odd values", func(c *mc.C) *mc.Case {
					odd := []string{"0", "-1", "2", "3", "4", "5", "100", "65536", "2147483648", "4294967296", "9223372036854775807", "99999999999999999999", "x", "", "1.5", "(1)", "[1]", "<<>>", "null", "1 0 R", "3 0 R"}
					k := c.Choose(2)
					v := mc.Pick(c, odd)
					var doc []byte
					var lab string
					if k == 0 {
						b := byName["table"]
						f := mc.Pick(c, []string{"1 %s\n", "%s 3\n", "1 3 %s\n", "%s\n", "1 3\n%s\n"})
						// a smaller count or another start must not turn a free entry into one of these objects: this table has none
						s := fmt.Sprintf(f, v)
						doc = bytes.Replace(b.doc, []byte("1 3\n"), []byte(s), 1)
						lab = "table subsection " + s
					} else {
						b := byName[mc.Pick(c, []string{"table", "table0", "stream", "stream0", "flate"})]
						f := mc.Pick(c, []string{"/Prev %s ", "/Size %s ", "/XRefStm %s ", "/Length %s ", "/Index %s ", "/Index [%s] ", "/Index [1 %s] ", "/Index [%s 4] ", "/Index [1 4 %s] ", "/Index [1 4 %s 5]", "/Filter %s ", "/DecodeParms %s ", "/Type %s "})
						if (strings.HasPrefix(f, "/Index") || strings.HasPrefix(f, "/Size")) && (strings.HasSuffix(b.name, "0")) {
							return nil // would map the free entry onto an object
						}
						s := fmt.Sprintf(f, v)
						doc = bytes.Replace(b.doc, []byte("/Root 1 0 R"), []byte("/Root 1 0 R "+s), 1)
						if !usable(b, doc) {
							return nil
						}
						lab = b.name + " " + s
					}
					return valueCase(label("%s", lab), doc, want)
				}},
				{"widths", "cross-reference streams whose W is unusable", func(c *mc.C) *mc.Case {
					b := byName[mc.Pick(c, []string{"stream", "stream0", "flate"})]
					w := mc.Pick(c, []string{"", "/W []", "/W [1]", "/W [1 4]", "/W [-1 4 2]", "/W [1 -4 2]", "/W [1 4 -2]", "/W [0 0 0]", "/W [9 4 2]", "/W [1 99999999999 2]", "/W [1 4 9223372036854775807]", "/W (142)", "/W 142", "/W null", "/W 3 0 R", "/W 99 0 R", "/W [(1) 4 2]", "/W [1 4 (2)]", "/W [1 [4] 2]", "/W <</A 1>>", "/W [99 0 R 4 2]"})
					return valueCase(label("%s %s", b.name, w), bytes.Replace(b.doc, []byte("/W [1 4 2]"), []byte(w), 1), want)
				}},
			}
			return sc
		},
	})
}
