package props

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"

	"verif/mc"
	"verif/ref"
)

// section of a ToUnicode map: lo == hi and no array is a character entry unless rng is set.
type cent struct {
	lo, hi int
	rng    bool
	to     string   // single target
	arr    []string // or one target per code
}

func (e cent) target(k int) (string, bool) {
	if k < e.lo || k > e.hi {
		return "", false
	}
	i := k - e.lo
	if e.arr != nil {
		if i < len(e.arr) {
			return e.arr[i], true
		}
		return "", false
	}
	b := []byte(e.to)
	for p := len(b) - 1; p >= 0 && i > 0; p-- {
		i += int(b[p])
		b[p] = byte(i)
		i >>= 8
	}
	return string(b), true
}

func (e cent) overflows() bool {
	if e.arr != nil || len(e.to) >= 4 || e.to == "" {
		return false
	}
	v := 0
	for i := 0; i < len(e.to); i++ {
		v = v<<8 + int(e.to[i])
	}
	return v+e.hi-e.lo >= 1<<(8*uint(len(e.to)))
}

func code(w, k int) string {
	b := make([]byte, w)
	for i := w - 1; i >= 0; i-- {
		b[i] = byte(k)
		k >>= 8
	}
	return string(b)
}

// cstyle is how a map is spelled.
type cstyle struct {
	sep, in string // between tokens; inside hex strings
	upper   bool
	one     bool // a section per entry
	pre     string
}

func (st cstyle) hex(s string) string {
	h := fmt.Sprintf("%x", s)
	if st.upper {
		h = strings.ToUpper(h)
	}
	if st.in != "" && len(h) > 1 {
		h = h[:1] + st.in + h[1:]
	}
	return "<" + h + ">"
}

func (st cstyle) text(w int, es []cent) []byte {
	pre := st.pre
	if pre == "" {
		pre = "/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n/CIDSystemInfo <</Registry (Adobe) /Ordering (UCS) /Supplement 0>> def\n/CMapName /Adobe-Identity-UCS def\n1 begincodespacerange\n" + st.hex(code(w, 0)) + " " + st.hex(strings.Repeat("\xff", w)) + "\nendcodespacerange\n"
	}
	var t []string
	for i := 0; i < len(es); {
		j := i + 1
		for !st.one && j < len(es) && es[j].rng == es[i].rng {
			j++
		}
		kind := "char"
		if es[i].rng {
			kind = "range"
		}
		t = append(t, fmt.Sprint(j-i), "beginbf"+kind)
		for ; i < j; i++ {
			e := es[i]
			t = append(t, st.hex(code(w, e.lo)))
			if e.rng {
				t = append(t, st.hex(code(w, e.hi)))
			}
			if e.arr != nil {
				t = append(t, "[")
				for _, a := range e.arr {
					t = append(t, st.hex(a))
				}
				t = append(t, "]")
			} else {
				t = append(t, st.hex(e.to))
			}
		}
		t = append(t, "endbf"+kind)
	}
	return []byte(pre + ref.Join(t, func(int) string { return st.sep }) + "\nendcmap CMapName currentdict /CMap defineresource pop end end")
}

func decodeModel(w int, es []cent, s string) string {
	var o strings.Builder
	for i := 0; i+w <= len(s); i += w {
		k := 0
		for _, b := range []byte(s[i : i+w]) {
			k = k<<8 + int(b)
		}
		t := s[i : i+w]
		for _, e := range es {
			if x, ok := e.target(k); ok {
				t = x
			}
		}
		o.WriteString(t)
	}
	return o.String()
}

// fontCase loads the font from a document and decodes every probe string.
func fontCase(lab string, w int, es []cent, cm []byte, filter string, probes []string) *mc.Case {
	b := ref.NewBuilder()
	b.Obj(1, 0, "<</Type /Font /Subtype /Type0 /ToUnicode 2 0 R>>")
	b.Stream(2, 0, filter, cm)
	b.Table("/Root 1 0 R")
	doc := b.Bytes()
	return &mc.Case{Label: lab, Doc: doc, Trivial: len(es) == 0, Run: func() mc.Result {
		p, err := open(doc, "")
		if err != nil {
			return fail("Load: %v", err)
		}
		d, _ := p.GetObject(1).Value.(pdf.Dictionary)
		f := pdf.NewFont(d)
		var out []string
		for _, s := range probes {
			got, want := f.Decode([]byte(s)), decodeModel(w, es, s)
			if got != want {
				return fail("%x decodes to %x, expected %x", s, q2(got), q2(want))
			}
			if len(out) < 8 {
				out = append(out, got)
			}
		}
		return mc.Result{Outcome: mc.Digest(out...)}
	}}
}

func q2(s string) string {
	if len(s) > 60 {
		return s[:60]
	}
	return s
}

// around gives a probe per code near the entries' edges, one of each entry's middle and all of them joined.
func around(w int, es []cent) []string {
	var out []string
	seen := map[int]bool{}
	max := 1<<(8*uint(w)) - 1
	add := func(k int) {
		if k >= 0 && k <= max && !seen[k] {
			seen[k] = true
			out = append(out, code(w, k))
		}
	}
	for _, e := range es {
		for d := -2; d <= 2; d++ {
			add(e.lo + d)
			add(e.hi + d)
			add((e.lo + e.hi) / 2)
			add(e.lo&^0xff + 0x100 + d)
		}
	}
	for _, k := range []int{0, 0x20, 0x41, 0x100, 0x4100, 0x10000, max} {
		add(k)
	}
	return append(out, strings.Join(out, ""), "")
}

func ids(n int, f func(i int) string) []string {
	var s []string
	for i := 0; i < n; i++ {
		s = append(s, f(i))
	}
	return s
}

func init() {
	std := cstyle{sep: "\n"}
	targets := []string{"\x00B", "z", "", "\x00\xfe", "\x12\xff\xfe", "\xd8\x3d\xde\x00", "\x01\x00"}
	mc.Register(&mc.Prop{
		ID:        "C19",
		Technique: "exhaustive enumeration of ToUnicode maps (section kinds, code widths, ranges, targets, spellings) and of shown strings; the real font's decoding and contents.txt are compared with a map model",
		Note:      "Codes have one width per map; targets do not overflow their own length.",
		Scopes: func(th bool) []mc.Scope {
			ns, nt := 3, 4
			if th {
				ns, nt = 4, len(targets)
			}
			// entry picks the next entry behind code k
			entry := func(c *mc.C, k, nt int) cent {
				e := cent{lo: k + c.Choose(2)}
				e.hi = e.lo
				switch kind := c.Choose(3); kind {
				case 0:
				case 1, 2:
					e.rng = true
					e.hi = e.lo + c.Choose(4)
					if kind == 2 {
						n := e.hi - e.lo + 1
						e.arr = ids(n, func(i int) string { return []string{"x", "\x00y", "", "\xff\xff"}[(i+k)%4] })
						return e
					}
				}
				e.to = mc.Pick(c, targets[:nt])
				return e
			}
			return []mc.Scope{
				{"maps", fmt.Sprintf("all sequences of up to %d entries (character, range, range with array; length 1 to 4; gap 0 or 1; %d targets) from two starting codes of widths 1 and 2; every code near them decoded", ns, nt), func(c *mc.C) *mc.Case {
					w := 1 + c.Choose(2)
					k := []int{0x41, []int{0xf5, 0xfe}[w-1]}[c.Choose(2)]
					n := 1 + c.Choose(ns)
					var es []cent
					for i := 0; i < n; i++ {
						t := nt
						if i > 0 && !th {
							t = 2
						}
						e := entry(c, k, t)
						if e.hi >= 1<<(8*uint(w)) || e.overflows() {
							return nil
						}
						es = append(es, e)
						k = e.hi + 1
					}
					back := n > 1 && c.Bool() // sections need not be in ascending order
					if c.Skip {
						return mc.Stub
					}
					if back {
						for i, j := 0, len(es)-1; i < j; i, j = i+1, j-1 {
							es[i], es[j] = es[j], es[i]
						}
					}
					return fontCase(label("width %d %v", w, es), w, es, std.text(w, es), "", around(w, es))
				}},
				{"overlap", "all sequences of 2 or 3 entries (character, range, range with array; of three, a quarter unless thorough) over four codes, so that entries repeat, cover parts of, enclose and split earlier ones; widths 1 and 2, one or many sections", func(c *mc.C) *mc.Case {
					w := 1 + c.Choose(2)
					k := []int{0x61, 0xfe}[w-1]
					n := 2 + c.Choose(2)
					var es []cent
					for i := 0; i < n; i++ {
						lo := c.Choose(4)
						hi := lo
						kind := c.Choose(3)
						if kind > 0 {
							hi += c.Choose(4 - lo)
						}
						e := cent{lo: k + lo, hi: k + hi, rng: kind > 0, to: string([]byte{byte('A' + 8*i)})}
						if kind == 2 {
							m := i
							e.arr, e.to = ids(hi-lo+1, func(j int) string { return fmt.Sprintf("%c%d", 'p'+m, j) }), ""
						}
						es = append(es, e)
					}
					st := std
					st.one = c.Bool()
					if !th && n == 3 && (len(es[0].arr)+es[0].lo+3*es[1].lo+5*es[2].hi+es[1].hi)%4 != 0 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					return fontCase(label("width %d %v one %v", w, es, st.one), w, es, st.text(w, es), "", around(w, es))
				}},
				{"counting", "one range of every length 1 to 256 (width 1) or a set of lengths up to 65536 (width 2) with targets of 1 to 4 bytes ending in every byte from 00 to ff, all codes decoded", func(c *mc.C) *mc.Case {
					w := 1 + c.Choose(2)
					var n int
					if w == 1 {
						n = []int{1, 2, 3, 16, 128, 255, 256}[c.Choose(7)]
					} else {
						n = []int{2, 255, 256, 257, 600}[c.Choose(5)]
						if th && c.Bool() {
							n = []int{65535, 65536, 4096, 513, 512}[c.Choose(5)]
						}
					}
					to := []string{"", "\x00", "\x01\xff", "\xd8\x3d\xdc"}[c.Choose(4)]
					last := c.Choose(64) * 4
					if th {
						last += c.Choose(4)
					} else {
						last += 3 * (last / 4 % 2)
					}
					e := cent{rng: true, hi: n - 1, to: to + string([]byte{byte(last)})}
					if w == 1 && n < 256 && c.Bool() {
						e.lo, e.hi = 256-n, 255
					} else if w == 2 && n < 60000 {
						e.lo, e.hi = 0x30f0, 0x30f0+n-1
					}
					if e.overflows() {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					es := []cent{e}
					pr := around(w, es)
					for k := e.lo; k <= e.hi; k++ {
						pr = append(pr, code(w, k))
					}
					return fontCase(label("width %d %v", w, es), w, es, std.text(w, es), "", pr)
				}},
				{"sections", "sections of every length from 0 to 130 and around 200, 256, 512, 1000, 2048, 4096, 5000, 10000, 20000 entries, characters, ranges or ranges with arrays, one long section, a long one between short ones, or as many sections as entries", func(c *mc.C) *mc.Case {
					more := []int{199, 200, 201, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 5001, 8191, 8192, 8193, 10000, 10001, 16384, 16385, 20000}
					n := c.Choose(131 + len(more))
					if n > 130 {
						n = more[n-131]
					}
					kind, between := c.Choose(3), c.Bool()
					each := c.Bool() // a section for each entry
					if c.Skip {
						return mc.Stub
					}
					var es []cent
					if between {
						es = append(es, cent{lo: 5, hi: 6, rng: kind == 0, to: "\x00s"})
						if kind > 0 {
							es[0].hi = 5
						}
					}
					for i := 0; i < n; i++ {
						e := cent{lo: 0x1000 + 3*i, to: fmt.Sprintf("t%d\x00", i)}
						if i%7 == 3 {
							e.to = ""
						}
						e.hi = e.lo
						if kind > 0 {
							e.rng, e.hi = true, e.lo+i%3
							if kind == 2 {
								e.arr = ids(i%3+1, func(j int) string { return fmt.Sprint("a", i, j) })
							}
						}
						es = append(es, e)
					}
					if between {
						es = append(es, cent{lo: 9, hi: 9 + map[bool]int{true: 2}[kind == 0], rng: kind == 0, to: "e"})
					}
					pr := around(2, es[:min(len(es), 3)])
					for k := 0x1000; k < 0x1000+3*n+3; k++ {
						if n > 1000 && k > 0x1010 && k < 0x1000+3*n-9 && (k-0x1000)%997 > 3 {
							continue
						}
						pr = append(pr, code(2, k))
					}
					pr = append(pr, code(2, 9), code(2, 11))
					st := std
					st.one = each
					return fontCase(label("%d entries of kind %d, between others %v, each in a section %v", n, kind, between, each), 2, es, st.text(2, es), "", pr)
				}},
				{"counts", "up to 3 sections of up to 3 entries each whose announced number of entries is too large by 1 to 2^31-1, and maps cut off behind every byte: all complete entries apply", func(c *mc.C) *mc.Case {
					w := 1 + c.Choose(2)
					n := 1 + c.Choose(3)
					var es []cent
					var t []string
					lab := ""
					k := 0x20
					var ends []int // number of tokens that complete an entry
					for i := 0; i < n; i++ {
						kind := c.Choose(3)
						m := c.Choose(3)
						more := mc.Pick(c, []int{0, 1, 2, 100, 1000000, 1<<31 - 1 - 3})
						word := "range"
						if kind == 0 {
							word = "char"
						}
						t = append(t, fmt.Sprint(m+more), "beginbf"+word)
						for j := 0; j < m; j++ {
							e := cent{lo: k, hi: k, rng: kind > 0, to: fmt.Sprintf("to%d\x01", k)}
							t = append(t, std.hex(code(w, k)))
							if kind > 0 {
								e.hi = k + 1
								t = append(t, std.hex(code(w, k+1)))
							}
							if kind == 2 {
								e.arr = []string{"a", fmt.Sprint("b", k)}
								t = append(t, "["+std.hex(e.arr[0])+" "+std.hex(e.arr[1])+"]")
							} else {
								t = append(t, std.hex(e.to))
							}
							ends = append(ends, len(t))
							k += 3
							es = append(es, e)
						}
						t = append(t, "endbf"+word)
						lab += fmt.Sprintf(" %s[%d]: %d of %d", word, kind, m, m+more)
					}
					pre := "/CIDInit /ProcSet findresource begin begincmap "
					text := pre + strings.Join(t, " ") + " endcmap end"
					if len(es) == 0 {
						return nil
					}
					cut := -1
					if n == 1 {
						cut = c.Choose(len(text)+1) - 1
					}
					if c.Skip {
						return mc.Stub
					}
					var pr []string
					if cut >= 0 {
						lab += fmt.Sprintf(" cut at %d", cut)
						var in []cent
						for i, e := range es {
							// the last entry's closing delimiter must be there; what follows may be half an entry
							if len(pre)+len(strings.Join(t[:ends[i]], " ")) <= cut {
								in = append(in, e)
							}
						}
						es = in
						text = text[:cut]
						for _, e := range es {
							pr = append(pr, code(w, e.lo), code(w, e.hi))
						}
						if len(es) == 0 {
							return nil
						}
					} else {
						pr = around(w, es)
					}
					return fontCase(label("width %d%s", w, lab), w, es, []byte(text), "", pr)
				}},
				{"wide", "widths 1 to 4, an entry of each kind, at codes with every combination of zero, low and high bytes", func(c *mc.C) *mc.Case {
					w := 1 + c.Choose(4)
					k := 0
					for i := 0; i < w; i++ {
						k = k<<8 + []int{0, 0x41, 0xf0}[c.Choose(3)]
					}
					es := []cent{{lo: k, hi: k, to: "\x00A"}, {lo: k + 1, hi: k + 4, rng: true, to: "ab\xfe"}, {lo: k + 6, hi: k + 8, rng: true, arr: []string{"p", "\x00q", "rst"}}}
					x := es[c.Choose(3)]
					if c.Bool() {
						es = []cent{x}
					}
					return fontCase(label("width %d %v", w, es), w, es, std.text(w, es), "", around(w, es))
				}},
				{"arrays", "ranges of 1 to 6 codes with arrays of 0 to 7 elements of every length pattern", func(c *mc.C) *mc.Case {
					n := 1 + c.Choose(6)
					m := c.Choose(8)
					ph := c.Choose(4)
					w := 1 + c.Choose(2)
					es := []cent{{lo: 0x20, hi: 0x20 + n - 1, rng: true, arr: ids(m, func(i int) string { return []string{"", "\x00", "\x00\xff", "xyz"}[(i+ph)%4] + string(rune('a'+i)) })}, {lo: 0x30, hi: 0x30, to: "end"}}
					if m == 0 {
						es[0].arr = []string{}
					}
					return fontCase(label("width %d %v", w, es), w, es, std.text(w, es), "", around(w, es))
				}},
				{"long arrays", "ranges of 200 to 65536 codes (width 2) with arrays of as many elements, of fewer or of more", func(c *mc.C) *mc.Case {
					n := mc.Pick(c, []int{200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, 4096, 10000, 32769, 65536})
					m := mc.Pick(c, []int{n, n - 1, n + 1, n / 2, 256, 100})
					from := mc.Pick(c, []int{0, 0x20, 0xff, 0x100})
					if from > 0 && n > 32769 || n > 20000 && m != n && !th {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					e := cent{lo: from, hi: from + n - 1, rng: true, arr: ids(m, func(i int) string { return fmt.Sprintf("[%x]", i) })}
					es := []cent{{lo: from, hi: from, to: "first"}, e, {lo: 0xf000, hi: 0xf000, to: "end"}}
					pr := []string{}
					for k := from; k <= e.hi+2 && k < 65536; k++ {
						if n < 2000 || k%97 < 3 || k > e.hi-3 {
							pr = append(pr, code(2, k))
						}
					}
					return fontCase(label("from %d, %d codes, %d elements", from, n, m), 2, es, std.text(2, es), "", pr)
				}},
				{"spelling", "every combination of separators, white space inside hex strings, letter case, one section per entry or runs, preambles, encodings of the map stream and buffer positions", func(c *mc.C) *mc.Case {
					st := cstyle{
						sep:   mc.Pick(c, []string{"\n", " ", "", "\r\n", "\t% comment <41>\n", " %\r"}),
						in:    mc.Pick(c, []string{"", " ", "\n", "\r\n\t"}),
						upper: c.Bool(), one: c.Bool(),
						pre: mc.Pick(c, []string{"", "\n", "%!PS-Adobe-3.0 Resource-CMap\n%%Title: (x)\n/CMapType 2 def 1 begincodespacerange <00><ff> endcodespacerange ", "/X [1 2 (3) <41> /N << /A [ ] >>] def ", strings.Repeat(" ", 4070), strings.Repeat(" ", 4090), "%" + strings.Repeat("x", 4080) + "\n"}),
					}
					w := 1 + c.Choose(2)
					enc := c.Choose(4)
					if c.Skip {
						return mc.Stub
					}
					es := []cent{{lo: 0x41, hi: 0x41, to: "\x00\xab"}, {lo: 0x42, hi: 0x42, to: "fi"}, {lo: 0x50, hi: 0x5a, rng: true, to: "\x04\xfa"}, {lo: 0xa0, hi: 0xa2, rng: true, arr: []string{"u", "\xcd\xef", "w"}}, {lo: 0x43, hi: 0x43, to: "c"}}
					cm := st.text(w, es)
					f := ""
					switch enc {
					case 1:
						f, cm = "/Filter /FlateDecode", ref.Zlib(cm, 6)
					case 2:
						f, cm = "/Filter [/ASCIIHexDecode]", append(ref.HexEncode(cm, true), '>')
					case 3:
						f, cm = "/Filter [/ASCII85Decode /LZWDecode]", append(ref.A85Encode(ref.LZWEncode(cm, ref.LZWOpts{Early: 1}), true), "~>"...)
					}
					return fontCase(label("width %d enc %d %+v", w, enc, st), w, es, cm, f, around(w, es))
				}},
				{"text", "shown strings: all words of codes over a mapped, a range, an array and two unmapped codes up to length 5, as literal or hexadecimal strings split between TJ pieces at code boundaries, extracted to contents.txt", func(c *mc.C) *mc.Case {
					w := 1 + c.Choose(2)
					alpha := []int{0x41, 0x52, 0xa1, 0x42, 0x100*(w-1) + 0x41}
					n := 1 + c.Choose(5)
					s, pieces := "", []string{}
					form := c.Choose(3)
					for i := 0; i < n; i++ {
						x := code(w, mc.Pick(c, alpha))
						s += x
						pieces = append(pieces, x)
					}
					if c.Skip {
						return mc.Stub
					}
					es := []cent{{lo: 0x41, hi: 0x41, to: "mapped"}, {lo: 0x50, hi: 0x5a, rng: true, to: "\x00x"}, {lo: 0xa0, hi: 0xa2, rng: true, arr: []string{"u", "vv", "w"}}}
					show := ref.Lit(s) + " Tj"
					switch form {
					case 1:
						show = ref.HexLit(s) + " Tj"
					case 2:
						show = "["
						for i, x := range pieces {
							if i%2 == 0 {
								show += ref.HexLit(x) + " -3 "
							} else {
								show += ref.Lit(x)
							}
						}
						show += "] TJ"
					}
					b := ref.NewBuilder()
					b.Obj(1, 0, "<</Type /Catalog /Pages 2 0 R>>")
					b.Obj(2, 0, "<</Type /Pages /Kids [3 0 R] /Count 1>>")
					b.Obj(3, 0, "<</Type /Page /Resources <</Font <</F1 5 0 R>>>> /Contents 4 0 R>>")
					b.Stream(4, 0, "", []byte("BT /F1 1 Tf "+show+" ET BT (\x00A) Tj ET"))
					b.Obj(5, 0, "<</Type /Font /ToUnicode 6 0 R>>")
					b.Stream(6, 0, "", std.text(w, es))
					b.Table("/Root 1 0 R")
					return textCase(label("width %d form %d text %x", w, form, s), b.Bytes(), []string{decodeModel(w, es, s), "\x00A"})
				}},
				{"no map", "fonts without a usable map: no entry, null, number, dictionary, missing object, empty stream, stream without sections; two strings of all bytes", func(c *mc.C) *mc.Case {
					tu := mc.Pick(c, []string{"", "/ToUnicode null", "/ToUnicode 5", "/ToUnicode /Identity-H", "/ToUnicode 99 0 R", "/ToUnicode 3 0 R", "/ToUnicode 4 0 R", "/ToUnicode 5 0 R", "/ToUnicode <<>>", "/ToUnicode 1 0 R"})
					b := ref.NewBuilder()
					b.Obj(1, 0, "<</Type /Font "+tu+">>")
					b.Obj(3, 0, "<<>>")
					b.Stream(4, 0, "", nil)
					b.Stream(5, 0, "", []byte("begincmap 1 begincodespacerange <00> <ff> endcodespacerange endcmap"))
					b.Table("/Root 1 0 R")
					doc := b.Bytes()
					return &mc.Case{Label: tu, Doc: doc, Run: func() mc.Result {
						p, err := open(doc, "")
						if err != nil {
							return fail("Load: %v", err)
						}
						d, _ := p.GetObject(1).Value.(pdf.Dictionary)
						f := pdf.NewFont(d)
						for _, s := range [][]byte{pattern(257), nil, bytes.Repeat([]byte{0}, 3)} {
							if got := f.Decode(s); got != string(s) {
								return fail("%x decodes to %x", q2(string(s)), q2(got))
							}
						}
						return mc.Result{}
					}}
				}},
			}
		},
	})
}
