package props

import (
	"fmt"
	"sort"
	"strings"

	"verif/mc"
	"verif/ref"
)

func errorsCase(lab string, doc []byte, password string, want []string) *mc.Case {
	return &mc.Case{Label: lab, Doc: doc, Run: func() mc.Result {
		r := extract(doc, password)
		if r.Err != nil {
			return fail("Parse: %v", r.Err)
		}
		got := set(r.Lines("errors.txt"))
		if !same(got, want) {
			return fail("errors.txt has the messages %q, expected %q", got, want)
		}
		return mc.Result{Outcome: mc.Digest(got...)}
	}}
}

func init() {
	mc.Register(&mc.Prop{
		ID:        "C05",
		Technique: "exhaustive enumeration of malformed and well-formed objects, full extraction on the real code, set of messages compared with a tolerant reference reader",
		Scopes: func(th bool) []mc.Scope {
			d := -1
			if th {
				d = 0
			}
			sc := malScopes(th, d, func(c *mc.C, w, tail string) *mc.Case {
				doc, _, errs := malformed(w, tail)
				var want []string
				for e := range errs {
					want = append(want, e)
				}
				sort.Strings(want)
				cs := errorsCase(label("%q%q", w, tail), doc, "", set(want))
				cs.Trivial = w == ""
				return cs
			})
			return append(sc,
				mc.Scope{Name: "well-formed", Bound: "all trees with <= 2 members in 12 layouts, in a document with table or cross-reference stream: no message", Gen: func(c *mc.C) *mc.Case {
					b := 2
					v := tree(c, &b, 2, 6)
					s := mc.Pick(c, seps)
					t := ref.Join(ref.Tokens(v), func(int) string { return s })
					bl := ref.NewBuilder()
					bl.Obj(1, 0, t)
					bl.Stream(2, 0, "/K ("+"x)", []byte("<<(/a#zz[\\"))
					if c.Bool() {
						bl.XrefStream(3, "/Root 1 0 R")
					} else {
						bl.Table("/Root 1 0 R")
					}
					return errorsCase(label("%q", t), bl.Bytes(), "", []string{})
				}},
				mc.Scope{Name: "escapes", Bound: "every byte as # code of a name and as octal code of a string, first, last, between other bytes and twice, in values and keys", Gen: func(c *mc.C) *mc.Case {
					b := c.Choose(256)
					esc := fmt.Sprintf(mc.Pick(c, []string{"#%02x", "#%02X", "\\%03o", "\\%o"}), b)
					w := strings.Replace(mc.Pick(c, []string{"@", "@a", "a@", "a@b", "@@", "a@8"}), "@", esc, -1)
					if esc[0] == '#' {
						w = fmt.Sprintf(mc.Pick(c, []string{"/%s", "<</%s 1>>", "[/%s/]"}), w)
					} else {
						w = fmt.Sprintf(mc.Pick(c, []string{"(%s)", "<</K(%s)>>", "[(%s)()]"}), w)
					}
					doc, _, errs := malformed(w, "")
					var want []string
					for e := range errs {
						want = append(want, e)
					}
					return errorsCase(label("%q", w), doc, "", set(want))
				}},
				mc.Scope{Name: "streams", Bound: "closed and unclosed streams, cut off at every byte behind the dictionary", Gen: func(c *mc.C) *mc.Case {
					eol := mc.Pick(c, []string{"\n", "\r\n", "\r"})
					full := "<</A 1>>" + eol + "stream" + eol + "data endstrea (<</x [" + eol + "endstream" + eol + "endobj" + eol
					w := full[:8+c.Choose(len(full)-7)]
					doc, _, errs := malformed(w, "")
					var want []string
					for e := range errs {
						want = append(want, e)
					}
					return errorsCase(label("%q", w), doc, "", set(want))
				}},
				mc.Scope{Name: "encrypted", Bound: "well-formed encrypted documents whose ciphertext contains every byte: no message", Gen: func(c *mc.C) *mc.Case {
					n := c.Choose(64)
					cr := &ref.Crypt{V: 2, R: 3, Bits: 128, P: -4, ID: "0123456789abcdef", Meta: true}
					cr.Setup()
					m := ref.Method{Kind: "RC4", Len: 16}
					bl := ref.NewBuilder()
					pt := pattern(200 + n)
					if c.Bool() {
						bl.Obj(1, 0, ref.Write(cr.EncryptValue(m, 1, 0, Arr{Str(pt), Dict{{K: "A", V: Str(pt[:n])}}})))
					} else {
						bl.Obj(1, 0, "["+ref.HexLit(string(cr.Encrypt(m, 1, 0, pt)))+"]")
					}
					bl.Stream(2, 0, "", cr.Encrypt(m, 2, 0, pt))
					bl.Obj(3, 0, cr.Dict(""))
					bl.Table(cr.Trailer("3 0 R"))
					return errorsCase(label("payload %d", n), bl.Bytes(), "", []string{})
				}},
				mc.Scope{Name: "many", Bound: "1 to 70000 abnormalities of one kind in one object, one per object, or none, before or behind another kind", Gen: func(c *mc.C) *mc.Case {
					kinds := []string{"<<1 2>>", "<4g>", "/a#g ", "(\\777)", "<</A>>", "/a#41 ", "(\\101)", "(ok)", ")"}
					n := mc.Pick(c, []int{1, 2, 3, 10, 64, 100, 127, 128, 129, 255, 256, 257, 500, 512, 999, 1000, 1001, 1023, 1024, 1025, 4097, 10001, 70000})
					one, other := mc.Pick(c, kinds), mc.Pick(c, kinds)
					spread, first := c.Bool(), c.Bool()
					if spread && n > 5000 || n > 5000 && one == "(ok)" {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					b := ref.NewBuilder()
					errs := map[string]bool{}
					obj := func(i int, w string) {
						if i < 3 {
							r := ref.NewReader([]byte(w + "\nendobj"))
							r.Indirect()
							for e := range r.Errs {
								errs[e] = true
							}
						}
						b.Obj(i, 0, w)
					}
					if first {
						obj(1, other)
					}
					if spread {
						for i := 2; i < n+2; i++ {
							obj(i, one)
						}
					} else {
						obj(2, "["+strings.Repeat(one+" ", n)+"]")
					}
					if !first {
						r := ref.NewReader([]byte(other + "\nendobj"))
						r.Indirect()
						for e := range r.Errs {
							errs[e] = true
						}
						obj(n+2, other)
					}
					b.Table("/Root 1 0 R")
					var want []string
					for e := range errs {
						want = append(want, e)
					}
					return errorsCase(label("%d times %q, %q first %v, in objects of their own %v", n, one, other, first, spread), b.Bytes(), "", set(want))
				}},
				mc.Scope{Name: "places", Bound: "every kind of abnormality nested 0 to 510 deep in arrays, dictionaries or both, behind 0 to 70000 other elements, in objects with low or high number and generation, as a value or in a stream's dictionary (quick: large values of one or two of these at a time)", Gen: func(c *mc.C) *mc.Case {
					one := mc.Pick(c, []string{"<<1 2>>", "<4g>", "/a#g ", "(\\777)", "<</A>>", "/a#41 ", "(\\101)", "(ok)"})
					n := mc.Pick(c, []int{0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 400, 500, 509})
					form := c.Choose(3)
					far := mc.Pick(c, []int{0, 1, 100, 4090, 70000})
					id := mc.Pick(c, [][2]int{{1, 0}, {9, 1}, {255, 255}, {256, 0}, {65536, 65535}, {8388608, 3}})
					stm := c.Bool()
					if !th && (n > 4 && far > 0 && (id[0] > 1 || stm) || n > 4 && far > 4090 && n != 17 || id[0] > 1 && n > 4 && n != 65 || far > 4090 && id[0] > 1) {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					w, end := "", ""
					for i := 0; i < n; i++ {
						if form == 0 || form == 2 && i%2 == 0 {
							w, end = w+"[", "]"+end
						} else {
							w, end = w+"<</K ", ">>"+end
						}
					}
					if n > 0 && (form == 0 || form == 2 && (n-1)%2 == 0) {
						w += strings.Repeat("7 ", far)
					} else if far > 0 {
						w, end = "["+strings.Repeat("7 ", far)+w, end+"]"
					}
					w += one + end
					if stm {
						w = "<</K " + w + ">>\nstream\ndata\nendstream"
					}
					r := ref.NewReader([]byte(w + "\nendobj"))
					r.Indirect()
					var want []string
					for e := range r.Errs {
						want = append(want, e)
					}
					b := ref.NewBuilder()
					b.Obj(id[0], id[1], w)
					b.Table(fmt.Sprintf("/Root %d %d R", id[0], id[1]))
					return errorsCase(label("%q %d deep form %d behind %d, object %v, stream %v", one, n, form, far, id, stm), b.Bytes(), "", set(want))
				}},
				mc.Scope{Name: "combinations", Bound: "every pair and triple of abnormalities in separate objects", Gen: func(c *mc.C) *mc.Case {
					all := []string{"<<1 2>>", "<4g>", "/a#g ", "(\\777)", "<</A>>", "/a#41 ", "(\\101)", "(ok)", "[1 /B]", "<</S <41>/N/b#20>>"}
					b := ref.NewBuilder()
					errs := map[string]bool{}
					var lab []string
					for i := 0; i < 3; i++ {
						w := mc.Pick(c, all)
						lab = append(lab, w)
						r := ref.NewReader([]byte(w + "\nendobj"))
						r.Indirect()
						for e := range r.Errs {
							errs[e] = true
						}
						b.Obj(i+1, 0, w)
					}
					if c.Bool() {
						b.Table("/Root 1 0 R")
					}
					var want []string
					for e := range errs {
						want = append(want, e)
					}
					return errorsCase(fmt.Sprintf("%q", strings.Join(lab, " | ")), b.Bytes(), "", set(want))
				}},
			)
		},
	})
}
