package props

import (
	"fmt"
	"strings"

	"verif/mc"
	"verif/ref"
)

// stage is one filter of a chain: its name, its parameters ("" for none) and its encoder.
type stage struct {
	name, parms string
	enc         func(b []byte) []byte
}

var stages = []stage{
	{"ASCIIHexDecode", "", func(b []byte) []byte { return append(ref.HexEncode(b, false), '>') }},
	{"ASCII85Decode", "", func(b []byte) []byte { return append(ref.A85Encode(b, true), "~>"...) }},
	{"RunLengthDecode", "", ref.RLSimple},
	{"FlateDecode", "", func(b []byte) []byte { return ref.Zlib(b, 6) }},
	{"FlateDecode", "<</Predictor 12 /Columns 4>>", func(b []byte) []byte {
		return ref.Zlib(pngPad(b, 4), 6)
	}},
	{"LZWDecode", "<</EarlyChange 0>>", func(b []byte) []byte { return ref.LZWEncode(b, ref.LZWOpts{Early: 0}) }},
	{"LZWDecode", "", func(b []byte) []byte { return ref.LZWEncode(b, ref.LZWOpts{Early: 1}) }},
	{"LZWDecode", "<</Predictor 2 /Columns 3>>", func(b []byte) []byte {
		return ref.LZWEncode(tiffPad(b, 3), ref.LZWOpts{Early: 1})
	}},
	{"Unknown", "<</Predictor 12 /Columns 4>>", func(b []byte) []byte { return b }},
	{"JBIG2Decode", "", func(b []byte) []byte { return b }},
}

// pngPad encodes all whole rows and the partial last one.
func pngPad(b []byte, w int) []byte {
	var o []byte
	for r := 0; r < len(b); r += w {
		o = append(o, 2)
		for c := 0; c < w && r+c < len(b); c++ {
			up := byte(0)
			if r > 0 {
				up = b[r-w+c]
			}
			o = append(o, b[r+c]-up)
		}
	}
	return o
}

func tiffPad(b []byte, w int) []byte {
	o := append([]byte{}, b...)
	for i := range b {
		if i%w > 0 {
			o[i] = b[i] - b[i-1]
		}
	}
	return o
}

func init() {
	mc.Register(&mc.Prop{
		ID:        "C10",
		Technique: "exhaustive enumeration of filter sequences and of the spellings of Filter and DecodeParms, decoded by the real code, compared with the payload",
		Scopes: func(th bool) []mc.Scope {
			d := 0
			if th {
				d = 1
			}
			long := append(pattern(700), corpus[2].f(900)...)
			pick := func(c *mc.C) []byte { return mc.Pick(c, [][]byte{[]byte("hello world, hello"), long, {0}}) }
			// chain writes the document; direct forms or indirect ones by objects 10..
			chain := func(c *mc.C, ss []stage, data []byte, ff, pf int) *mc.Case {
				if c.Skip {
					return mc.Stub
				}
				e := data
				for i := len(ss) - 1; i >= 0; i-- {
					e = ss[i].enc(e)
				}
				b := ref.NewBuilder()
				var dict, lab strings.Builder
				var names, parms []string
				any := false
				for _, s := range ss {
					names = append(names, "/"+s.name)
					p := s.parms
					if p == "" {
						p = "null"
					} else {
						any = true
					}
					parms = append(parms, p)
					fmt.Fprintf(&lab, "%s%s ", s.name, s.parms)
				}
				next := 10
				ind := func(s string) string {
					b.Obj(next, 0, s)
					next++
					return fmt.Sprintf("%d 0 R", next-1)
				}
				each := func(l []string) []string {
					var o []string
					for _, s := range l {
						o = append(o, ind(s))
					}
					return o
				}
				spell := func(key string, l []string, form int) bool {
					arr := func(x []string) string { return "[" + strings.Join(x, " ") + "]" }
					v := ""
					switch form {
					case 0:
						v = arr(l)
					case 1: // single value given directly
						if len(l) != 1 && key == "Filter" {
							return false
						}
						v = l[0]
					case 2:
						v = ind(arr(l))
					case 3:
						v = arr(each(l))
					case 4:
						v = ind(arr(each(l)))
					case 5:
						if len(l) != 1 && key == "Filter" {
							return false
						}
						v = ind(l[0])
					case 6: // reference to a reference
						v = ind(ind(arr(l)))
					}
					fmt.Fprintf(&dict, "/%s %s ", key, v)
					return true
				}
				if !spell("Filter", names, ff) {
					return nil
				}
				if pf == 7 { // absent
					if any {
						return nil
					}
				} else if !spell("DecodeParms", parms, pf) {
					return nil
				}
				b.Stream(1, 0, dict.String(), e)
				b.Table("/Root 1 0 R")
				return streamCase(label("%sforms %d %d payload %d", lab.String(), ff, pf, len(data)), b.Bytes(), 1, data)
			}
			ok := func(ss []stage, ff, pf int) bool {
				if (ff == 1 || ff == 5 || pf == 1 || pf == 5) && len(ss) != 1 {
					return false
				}
				if pf == 7 {
					for _, s := range ss {
						if s.parms != "" {
							return false
						}
					}
				}
				return true
			}
			return []mc.Scope{
				{"chains", fmt.Sprintf("all sequences of <= %d of 10 filter stages x 3 payloads, array spelling", 3+d), func(c *mc.C) *mc.Case {
					var ss []stage
					n := c.Choose(4 + d)
					for i := 0; i < n; i++ {
						ss = append(ss, mc.Pick(c, stages))
					}
					return chain(c, ss, pick(c), 0, 0)
				}},
				{"spellings", "all sequences of <= 2 stages x all 7 spellings of Filter x 8 of DecodeParms", func(c *mc.C) *mc.Case {
					var ss []stage
					n := 1 + c.Choose(2)
					for i := 0; i < n; i++ {
						ss = append(ss, mc.Pick(c, stages))
					}
					ff, pf := c.Choose(7), c.Choose(8)
					if !ok(ss, ff, pf) {
						return nil
					}
					return chain(c, ss, pick(c), ff, pf)
				}},
				{"other entries", "each of 500 entry names with six values, and 150 values of Type and Subtype, in the dictionary of a stream with no filter, one or two: the data is decoded the same", func(c *mc.C) *mc.Case {
					k := c.Choose(len(stdKeys) + 2*len(stdTypes))
					e, key := "", ""
					if k < len(stdKeys) {
						key = stdKeys[k]
						e = " /" + key + " " + mc.Pick(c, []string{"0", "5", "/FlateDecode", "(text)", "[/ASCIIHexDecode]", "<</Predictor 12 /Columns 1>>"}) + " "
					} else {
						k -= len(stdKeys)
						key = []string{"Type", "Subtype"}[k%2]
						e = " /" + key + " /" + stdTypes[k/2] + " "
					}
					behind := c.Bool()
					n := c.Choose(4)
					if key == "Filter" || key == "DecodeParms" {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					data := append(append([]byte("\x00 \r\n"), pattern(50)...), " \x00\r\n.\t"...)
					x := data
					f := ""
					switch n {
					case 1:
						f, x = "/Filter /FlateDecode", ref.Zlib(data, 9)
					case 2:
						f, x = "/Filter [/ASCIIHexDecode /FlateDecode]", ref.HexEncode(ref.Zlib(data, 9), true)
					case 3:
						f, x = "/Filter /ASCIIHexDecode", ref.HexEncode(data, true)
					}
					if behind {
						f = f + e
					} else {
						f = e + f
					}
					b := ref.NewBuilder()
					b.Obj(1, 0, fmt.Sprintf("<<%s>>\nstream\n%s\nendstream", f, x))
					b.Table("/Root 1 0 R")
					return streamCase(label("%s", f), b.Bytes(), 1, data)
				}},
				{"single-parms", "one filter as a name with parameters as array and the reverse, all stages", func(c *mc.C) *mc.Case {
					s := mc.Pick(c, stages)
					ff, pf := mc.Pick(c, []int{1, 5, 0, 2}), mc.Pick(c, []int{0, 1, 2, 3, 5, 6})
					return chain(c, []stage{s}, pick(c), ff, pf)
				}},
				{"first-parms", "two and three filters with one parameter dictionary given directly: it is at the first position", func(c *mc.C) *mc.Case {
					var ss []stage
					n := 2 + c.Choose(2)
					for i := 0; i < n; i++ {
						s := mc.Pick(c, stages)
						if i > 0 && s.parms != "" {
							return nil
						}
						if i == 0 && s.parms == "" {
							s.parms = "<</Predictor 12 /Columns 4 /EarlyChange 1>>" // for a filter that has none
							if s.name == "FlateDecode" || s.name == "LZWDecode" {
								return nil
							}
						}
						ss = append(ss, s)
					}
					return chain(c, ss, pick(c), mc.Pick(c, []int{0, 2, 3}), mc.Pick(c, []int{1, 5}))
				}},
				{"long", "16 lengths of 4 to 40 filters, rotated through the stages", func(c *mc.C) *mc.Case {
					n := mc.Pick(c, []int{4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 32, 33, 40})
					from := c.Choose(len(stages))
					step := mc.Pick(c, []int{1, 3})
					var ss []stage
					hex := 0
					for i := 0; i < n; i++ {
						s := stages[(from+i*step)%len(stages)]
						if s.name == "ASCIIHexDecode" {
							if hex++; hex > 5 {
								s = stages[2]
							}
						}
						ss = append(ss, s)
					}
					return chain(c, ss, pick(c), mc.Pick(c, []int{0, 4}), mc.Pick(c, []int{0, 3}))
				}},
				{"short-parms", "parameter arrays shorter or longer than the filter list, with null and missing references as elements", func(c *mc.C) *mc.Case {
					data := pick(c)
					e := ref.HexEncode(ref.Zlib(pngPad(data, 4), 6), true)
					p := mc.Pick(c, []string{"[null <</Predictor 12 /Columns 4>>]", "[<<>> <</Predictor 12 /Columns 4>> <</Predictor 2>>]", "[99 0 R <</Predictor 12 /Columns 4>>]", "[<</Predictor 2 /Columns 7>> <</Columns 4 /Predictor 12>>]", "[true<</Predictor 15/Columns 4>>null null]"})
					return streamCase(label("%s payload %d", p, len(data)), filterDoc("[/ASCIIHexDecode/FlateDecode]", p, e), 1, data)
				}},
				{"undecodable", "filters whose input they cannot decode pass it on to the next one", func(c *mc.C) *mc.Case {
					data := pick(c)
					k := c.Choose(6)
					var f string
					e := data
					switch k {
					case 0:
						f, e = "[/FlateDecode/ASCIIHexDecode]", append(ref.HexEncode(data, true), '>')
					case 1:
						f, e = "[/ASCIIHexDecode/FlateDecode/FlateDecode]", append(ref.HexEncode(ref.Zlib(data, 6), true), '>')
						if len(data) < 2 {
							return nil
						}
					case 2:
						f = "/Nope"
					case 3:
						f = "[/Nope/Nope2 /Crypt]"
					case 4:
						f = "[]"
					case 5:
						f = mc.Pick(c, []string{"null", "(FlateDecode)", "99 0 R", "<<>>", "7"})
					}
					return streamCase(label("%s payload %d", f, len(data)), filterDoc(f, "", e), 1, data)
				}},
				{"unknown", "27 names that are no filters of PDF streams here (abbreviations of inline images, other spellings, parts and extensions of known names, image filters, escapes) x data the similar filter would decode x alone, in an array, before and behind a known filter, directly and by reference", func(c *mc.C) *mc.Case {
					k := c.Choose(27)
					n := []string{"Fl", "AHx", "A85", "LZW", "RL", "CCF", "DCT", "flatedecode", "FLATEDECODE", "FlateDecode2", "Flate", "FlateEncode", "FlateDecod", "XFlateDecode", "FlateDecode#20", "#20FlateDecode", "Flate#2fDecode",
						"ASCIIHex", "ASCII85", "ASCIIHexdecode", "RunLength", "LZWdecode", "DCTDecode", "JPXDecode", "CCITTFaxDecode", "JBIG2Decode", "Crypt"}[k]
					data := []byte("hello world, hello")
					in := data
					switch {
					case strings.Contains(strings.ToLower(n), "fl"):
						in = ref.Zlib(data, 6)
					case strings.HasPrefix(n, "AHx"), strings.HasPrefix(n, "ASCIIHex"):
						in = append(ref.HexEncode(data, true), '>')
					case strings.HasPrefix(n, "A85"), strings.HasPrefix(n, "ASCII85"):
						in = append(ref.A85Encode(data, true), "~>"...)
					case strings.HasPrefix(n, "LZW"):
						in = ref.LZWEncode(data, ref.LZWOpts{Early: 1})
					case strings.HasPrefix(n, "R"):
						in = ref.RLSimple(data)
					}
					names := []string{"/" + n}
					e := in
					form := c.Choose(7)
					switch form {
					case 2: // before a known filter, which decodes the data this one leaves alone
						names, e = []string{"/" + n, "/ASCIIHexDecode"}, append(ref.HexEncode(in, false), '>')
					case 3:
						names, e = []string{"/FlateDecode", "/" + n}, ref.Zlib(in, 6)
					case 4:
						names, e = []string{"/" + n, "/" + n, "/FlateDecode"}, ref.Zlib(in, 6)
					case 5:
						names, e = []string{"/RunLengthDecode", "/" + n, "/ASCII85Decode"}, ref.RLSimple(append(ref.A85Encode(in, false), "~>"...))
					}
					if c.Skip {
						return mc.Stub
					}
					b := ref.NewBuilder()
					f := "[" + strings.Join(names, " ") + "]"
					switch form {
					case 0:
						f = names[0]
					case 6:
						b.Obj(10, 0, f)
						f = "10 0 R"
					}
					b.Stream(1, 0, "/Filter "+f+" /DecodeParms "+[]string{"null", "[null <</Predictor 12 /Columns 4>>]", "<</Predictor 12 /Columns 4>>"}[(form+1)%3], e)
					b.Table("/Root 1 0 R")
					return streamCase(label("%v form %d", names, form), b.Bytes(), 1, in)
				}},
				{"empty", "empty payloads through every single stage", func(c *mc.C) *mc.Case {
					s := mc.Pick(c, stages)
					pf := 7
					if s.parms != "" {
						pf = 0
					}
					return chain(c, []stage{s}, nil, c.Choose(3), pf)
				}},
			}
		},
	})
}
