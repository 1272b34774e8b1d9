package props

import (
	"fmt"
	"strings"

	"verif/mc"
	"verif/ref"
)

// xs13 is one cross-reference stream layout over objects 1..4 (each also present in a later decoy copy, so that
// only a correctly read section yields the right values).
type xs13 struct {
	w      [3]int
	types  []int // entry types of objects 1..4
	gens   []int
	index  [][2]int // nil: default
	size   int
	enc    string
	extra  int // bytes behind the entries
	far    int // padding in front of the objects
	list   bool
	nosize bool   // no Size entry
	spell  string // spelling of numbers in the dictionary
	other  string // further entries of the dictionary
	more   string // further elements of W
	order  int    // order of the dictionary's entries
}

func (x *xs13) String() string {
	return fmt.Sprintf("W %v types %v gens %v Index %v Size %d %s extra %d far %d lists itself %v no Size %v spelling %s more %q order %d other %q", x.w, x.types, x.gens, x.index, x.size, x.enc, x.extra, x.far, x.list, x.nosize, x.spell, x.more, x.order, x.other)
}

func (x *xs13) encode(d []byte) ([]byte, string) {
	cols := x.w[0] + x.w[1] + x.w[2]
	switch x.enc {
	case "none":
		return d, ""
	case "hex":
		return append(ref.HexEncode(d, true), '>'), "/Filter /ASCIIHexDecode"
	case "a85":
		return append(ref.A85Encode(d, true), "~>"...), "/Filter /ASCII85Decode"
	case "rl":
		return ref.RLSimple(d), "/Filter /RunLengthDecode"
	case "flate":
		return ref.Zlib(d, 6), "/Filter /FlateDecode"
	case "lzw":
		return ref.LZWEncode(d, ref.LZWOpts{Early: 1}), "/Filter [/LZWDecode]"
	case "a85flate":
		return append(ref.A85Encode(ref.Zlib(d, 9), true), "~>"...), "/Filter [/ASCII85Decode /FlateDecode]"
	case "tiff":
		return ref.Zlib(tiffPad(d, cols), 6), fmt.Sprintf("/Filter /FlateDecode /DecodeParms <</Predictor 2 /Columns %d>>", cols)
	case "up":
		return ref.Zlib(pngPad(d, cols), 6), fmt.Sprintf("/Filter /FlateDecode /DecodeParms <</Columns %d /Predictor 12>>", cols)
	case "lzwup":
		return ref.LZWEncode(pngPad(d, cols), ref.LZWOpts{Early: 1}), fmt.Sprintf("/Filter [/LZWDecode] /DecodeParms [<</Columns %d /Predictor 15>>]", cols)
	}
	if strings.HasPrefix(x.enc, "png") { // a row tag per entry, rotating
		t := int(x.enc[3] - '0')
		for len(d)%cols != 0 {
			d = append(d, 0)
		}
		tags := []int{}
		for i := 0; i*cols < len(d); i++ {
			tags = append(tags, (t+i)%5)
		}
		g := ref.Geometry{Colors: 1, Bits: 8, Columns: cols}
		return ref.Zlib(ref.PNGEncode(d, g, tags), 6), fmt.Sprintf("/Filter [/FlateDecode] /DecodeParms [<</Columns %d /Predictor 1%d>>]", cols, t%6)
	}
	panic(x.enc)
}

func (x *xs13) mcCase(c *mc.C) *mc.Case {
	if c.Skip {
		return mc.Stub
	}
	doc := ref.Fix(func(l *ref.Layout) {
		l.Text("%%PDF-1.7\n")
		if x.far > 0 {
			l.Text("%%%s\n", strings.Repeat("-", x.far))
		}
		ents := map[int]ref.Entry{0: {Gen: 65535}}
		for i := range x.types {
			m := fmt.Sprintf("r%d", i)
			l.Obj(m, i+1, x.gens[i], fmt.Sprintf("(%d)", i+1))
			off := l.Off(m)
			if x.types[i] == 0 {
				off = 0
			}
			ents[i+1] = ref.Entry{Off: off, Gen: x.gens[i], Type: x.types[i]}
		}
		if x.w[0] == 0 {
			ents[0] = ref.Entry{Type: 1}
		}
		l.Mark("xs")
		idx := x.index
		if idx == nil {
			idx = [][2]int{{0, x.size}}
		}
		if x.list {
			ents[5] = ref.Entry{Off: l.Off("xs"), Type: 1}
		}
		d, f := x.encode(append(ref.XrefData(ents, idx, x.w), make([]byte, x.extra)...))
		sp := x.spell
		if sp == "" {
			sp = "%d"
		}
		num := func(n int) string { return fmt.Sprintf(sp, n) }
		ix := ""
		if x.index != nil {
			ix = "/Index ["
			for _, r := range x.index {
				ix += num(r[0]) + " " + num(r[1]) + " "
			}
			ix += "]"
		}
		size := "/Size " + num(x.size)
		if x.nosize {
			size = ""
		}
		ents2 := []string{"/Type /XRef", size, fmt.Sprintf("/W [%s %s %s%s]", num(x.w[0]), num(x.w[1]), num(x.w[2]), x.more), ix, f, "/Root 1 0 R" + x.other}
		switch x.order {
		case 1:
			for i, j := 0, len(ents2)-1; i < j; i, j = i+1, j-1 {
				ents2[i], ents2[j] = ents2[j], ents2[i]
			}
		case 2:
			ents2 = append(ents2[3:], ents2[:3]...)
		}
		l.Obj("xs", 5, 0, ref.StreamBody(strings.Join(ents2, " "), d))
		// decoys: unreferenced later copies
		for i := range x.types {
			l.Text("%d %d obj\n(decoy %d)\nendobj\n", i+1, x.gens[i], i+1)
		}
		l.Text("startxref\n%d\n%%%%EOF\n", l.Off("xs"))
	})
	return &mc.Case{Label: label("%s", x), Doc: doc, Run: func() mc.Result {
		p, err := open(doc, "")
		if err != nil {
			return fail("Load: %v", err)
		}
		want := map[int]V{}
		covered := map[int]bool{}
		idx := x.index
		if idx == nil {
			idx = [][2]int{{0, x.size}}
		}
		for _, r := range idx {
			for i := r[0]; i < r[0]+r[1]; i++ {
				covered[i] = true
			}
		}
		for i, t := range x.types {
			switch {
			case !covered[i+1]:
				want[i+1] = Str(fmt.Sprintf("decoy %d", i+1))
			case t == 1:
				want[i+1] = Str(fmt.Sprint(i + 1))
			default:
				want[i+1] = ref.Null
			}
		}
		res := checkValues(p, want)
		if res.Fail == "" {
			for i, t := range x.types {
				if g := p.GetObject(i + 1).Generation; t == 1 && covered[i+1] && x.w[2] > 0 && g != x.gens[i] {
					return fail("object %d has generation %d, expected %d", i+1, g, x.gens[i])
				}
			}
		}
		return res
	}}
}

func init() {
	encs := []string{"none", "hex", "a85", "rl", "flate", "lzw", "a85flate", "tiff", "up", "lzwup", "png0", "png1", "png2", "png3", "png4"}
	typesFor := func(w0 int) []int {
		switch w0 {
		case 0:
			return []int{1}
		case 1:
			return []int{1, 0, 3, 255}
		}
		return []int{1, 0, 3, 256, 257}
	}
	gensFor := func(w2 int) []int {
		switch w2 {
		case 0:
			return []int{0}
		case 1:
			return []int{0, 7, 255}
		}
		return []int{0, 7, 255, 256, 65535}
	}
	fits := func(w1, far int) bool { return w1 >= 2 || far == 0 }
	std := func() *xs13 {
		return &xs13{w: [3]int{1, 2, 1}, types: []int{1, 1, 1, 1}, gens: []int{0, 0, 0, 0}, size: 6, enc: "none", list: true}
	}
	mc.Register(&mc.Prop{
		ID:        "C13",
		Technique: "exhaustive enumeration of cross-reference stream layouts (field widths, entry types, subsections, encodings) loaded by the real code; decoy copies of every object make a misread section observable",
		Scopes: func(th bool) []mc.Scope {
			w0s, w1s, w2s := []int{0, 1, 2, 3, 4, 8}, []int{1, 2, 3, 4, 5, 8}, []int{0, 1, 2, 3, 4, 8}
			return []mc.Scope{
				{"types", "all field widths in 0,1,2,3,4,8 x all type combinations of 4 objects (free, in use, unknown)", func(c *mc.C) *mc.Case {
					x := std()
					x.w = [3]int{mc.Pick(c, w0s), mc.Pick(c, w1s), mc.Pick(c, w2s)}
					ts := typesFor(x.w[0])
					for i := range x.types {
						x.types[i] = mc.Pick(c, ts)
					}
					x.list = c.Bool()
					if !x.list {
						x.size = 5
					}
					return x.mcCase(c)
				}},
				{"generations", "all field widths x generation combinations of 2 objects x offsets of up to 3 bytes", func(c *mc.C) *mc.Case {
					x := std()
					x.w = [3]int{mc.Pick(c, w0s), mc.Pick(c, w1s), mc.Pick(c, w2s)}
					gs := gensFor(x.w[2])
					x.gens[0], x.gens[2] = mc.Pick(c, gs), mc.Pick(c, gs)
					x.far = mc.Pick(c, []int{0, 300})
					if !fits(x.w[1], x.far) {
						return nil
					}
					return x.mcCase(c)
				}},
				{"far", "all field widths x offsets of up to 3 bytes", func(c *mc.C) *mc.Case {
					x := std()
					x.w = [3]int{mc.Pick(c, w0s), mc.Pick(c, w1s), mc.Pick(c, w2s)}
					x.far = mc.Pick(c, []int{3000, 20000, 66000})
					if x.w[1] < 2 || x.far > 60000 && x.w[1] < 3 {
						return nil
					}
					return x.mcCase(c)
				}},
				{"index", "all sequences of <= 4 disjoint ascending subsections over object numbers 0..6, or the default for every Size", func(c *mc.C) *mc.Case {
					x := std()
					x.w = mc.Pick(c, [][3]int{{1, 2, 1}, {0, 2, 0}, {1, 3, 2}, {2, 1, 0}})
					if x.w[0] > 0 {
						x.types[1] = c.Choose(2)
					}
					if c.Bool() {
						x.size = c.Choose(12)
						return x.mcCase(c)
					}
					x.index = [][2]int{}
					for n := c.Choose(5); n > 0; n-- {
						at := 0
						if k := len(x.index); k > 0 {
							at = x.index[k-1][0] + x.index[k-1][1]
						}
						if at > 6 {
							return nil
						}
						s := at + c.Choose(7-at)
						x.index = append(x.index, [2]int{s, 1 + c.Choose(7-s)})
					}
					x.size = 7
					x.nosize = c.Bool()
					return x.mcCase(c)
				}},
				{"index-order", "subsections in every order, empty subsections", func(c *mc.C) *mc.Case {
					x := std()
					x.w = mc.Pick(c, [][3]int{{1, 2, 1}, {0, 2, 0}, {1, 3, 2}})
					p := mc.Pick(c, permutations(5))
					x.index = [][2]int{}
					for _, o := range p {
						if c.Bool() {
							x.index = append(x.index, [2]int{o + 3, 0})
						}
						x.index = append(x.index, [2]int{o + 1, 1})
					}
					x.nosize = c.Bool()
					return x.mcCase(c)
				}},
				{"subsections", "up to 3000 subsections of one entry each before, behind or around the objects, or splitting a run of entries", func(c *mc.C) *mc.Case {
					x := std()
					x.enc = mc.Pick(c, []string{"none", "flate", "up", "hex"})
					x.w = mc.Pick(c, [][3]int{{1, 2, 1}, {1, 4, 2}, {1, 3, 0}, {2, 4, 1}})
					n := mc.Pick(c, []int{10, 16, 31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 3000})
					k := mc.Pick(c, []int{0, 1, n / 2, n - 1, n})
					step := mc.Pick(c, []int{1, 2, 7})
					own := mc.Pick(c, [][][2]int{{{0, 6}}, {{0, 3}, {3, 3}}, {{0, 1}, {1, 1}, {2, 1}, {3, 1}, {4, 1}, {5, 1}}})
					if c.Skip {
						return mc.Stub
					}
					for i := 0; i < n; i++ {
						if i == k {
							x.index = append(x.index, own...)
						}
						x.index = append(x.index, [2]int{100 + i*step, 1})
					}
					if k == n {
						x.index = append(x.index, own...)
					}
					x.size = 100 + n*step
					x.types[2] = 0
					return x.mcCase(c)
				}},
				{"entry spellings", "W with further elements x four spellings of the numbers in W, Index and Size x three orders of the dictionary's entries x encodings", func(c *mc.C) *mc.Case {
					x := std()
					x.w = mc.Pick(c, [][3]int{{1, 2, 1}, {0, 2, 0}, {1, 4, 2}, {8, 8, 8}})
					x.spell = mc.Pick(c, []string{"%d", "+%d", "%d.0", "00%d"})
					x.more = mc.Pick(c, []string{"", " 0", " 1", " 0 0", " null", " (x)", " 9 9 9"})
					if k := c.Choose(3); k > 0 {
						x.index = [][2]int{{0, 6}}
						if k == 2 {
							x.index = [][2]int{{0, 2}, {2, 4}}
						}
					}
					x.enc = mc.Pick(c, []string{"none", "flate", "up"})
					x.order = c.Choose(3)
					return x.mcCase(c)
				}},
				{"other entries", "each of 500 other entries with seven values, and 160 values of Subtype and S, in the dictionary of a cross-reference stream x two widths x encodings x two orders of the entries", func(c *mc.C) *mc.Case {
					x := std()
					x.w = mc.Pick(c, [][3]int{{1, 2, 1}, {0, 3, 2}})
					x.enc = mc.Pick(c, []string{"none", "png2", "lzwup"})
					x.order = c.Choose(2)
					k := c.Choose(len(stdKeys) + 2*len(stdTypes))
					if k < len(stdKeys) {
						x.other = " /" + stdKeys[k] + " " + mc.Pick(c, []string{"0", "1", "-1", "/Name", "null", "[1 2]", "(text)"})
						if strings.Contains(" Type Size W Index Filter DecodeParms Root Prev Encrypt ID ", " "+stdKeys[k]+" ") {
							return nil
						}
					} else {
						k -= len(stdKeys)
						x.other = " /" + []string{"Subtype", "S"}[k%2] + " /" + stdTypes[k/2]
					}
					return x.mcCase(c)
				}},
				{"encodings", "15 filter and predictor encodings x field widths x type combinations x data behind the last entry", func(c *mc.C) *mc.Case {
					x := std()
					x.enc = mc.Pick(c, encs)
					x.w = [3]int{mc.Pick(c, []int{0, 1, 2}), mc.Pick(c, []int{2, 3, 4, 8}), mc.Pick(c, []int{0, 1, 2})}
					ts := typesFor(x.w[0])
					x.types[1], x.types[3] = mc.Pick(c, ts), mc.Pick(c, ts)
					x.far = mc.Pick(c, []int{0, 500})
					x.extra = mc.Pick(c, []int{0, 1, 7})
					x.gens[0] = mc.Pick(c, gensFor(x.w[2]))
					return x.mcCase(c)
				}},
				{"many", "sections with hundreds of entries: a long run of free entries, 4 widths, all encodings", func(c *mc.C) *mc.Case {
					x := std()
					x.enc = mc.Pick(c, encs)
					x.w = mc.Pick(c, [][3]int{{1, 2, 1}, {1, 4, 2}, {1, 8, 0}, {4, 4, 4}})
					n := mc.Pick(c, []int{100, 585, 1000, 3000})
					x.index = [][2]int{{100, n}, {0, 6}}
					if c.Bool() {
						x.index = [][2]int{{0, 6}, {100, n}}
					}
					x.size = 100 + n
					x.types[2] = 0
					return x.mcCase(c)
				}},
			}
		},
	})
}
