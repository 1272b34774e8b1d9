package props

import (
	"fmt"
	"strings"

	"verif/mc"
	"verif/ref"
)

func geomParms(g ref.Geometry, pred int, omit bool) string {
	var s strings.Builder
	fmt.Fprintf(&s, "<</Predictor %d", pred)
	if !omit || g.Colors != 1 {
		fmt.Fprintf(&s, " /Colors %d", g.Colors)
	}
	if !omit || g.Bits != 8 {
		fmt.Fprintf(&s, " /BitsPerComponent %d", g.Bits)
	}
	if !omit || g.Columns != 1 {
		fmt.Fprintf(&s, " /Columns %d", g.Columns)
	}
	s.WriteString(">>")
	return s.String()
}

var families = []func(n, k int) []byte{
	func(n, k int) []byte { return pattern(n + k)[k:] },
	func(n, k int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = 0xff
		}
		return b
	},
	func(n, k int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*37 + k)
		}
		return b
	},
	func(n, k int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(0x80 >> uint(i%3))
		}
		return b
	},
}

func predCase(lab string, data []byte, enc []byte, parms string, lzw bool) *mc.Case {
	if lzw {
		return streamCase("LZW "+lab, filterDoc("/LZWDecode", parms, ref.LZWEncode(enc, ref.LZWOpts{Early: 1})), 1, data)
	}
	return streamCase("Flate "+lab, filterDoc("/FlateDecode", parms, ref.Zlib(enc, 1)), 1, data)
}

func init() {
	bits := []int{1, 2, 4, 8, 16}
	mc.Register(&mc.Prop{
		ID:        "C09",
		Technique: "exhaustive enumeration of predictors, geometries, row tags and sample values, decoded by the real code, compared with the original samples",
		Scopes: func(th bool) []mc.Scope {
			cols := []int{1, 2, 3, 4, 5, 7, 8, 9, 16, 17}
			rows := 3
			if th {
				cols = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 31, 32, 33, 64, 100}
				rows = 4
			}
			return []mc.Scope{
				{"png-geometry", "all row-tag sequences up to 3 rows (4 thorough) x colors 1-4 x 5 depths x columns x 4 sample families, Flate", func(c *mc.C) *mc.Case {
					g := ref.Geometry{Colors: c.Choose(4) + 1, Bits: mc.Pick(c, bits), Columns: mc.Pick(c, cols)}
					n := c.Choose(rows) + 1
					var tags []int
					for i := 0; i < n; i++ {
						tags = append(tags, c.Choose(5))
					}
					f := c.Choose(2)
					if c.Skip {
						return mc.Stub
					}
					data := families[f](n*g.RowBytes(), n)
					pred := 10 + (tags[0]+n+g.Columns)%6
					return predCase(label("PNG %d %+v tags %v", pred, g, tags), data, ref.PNGEncode(data, g, tags), geomParms(g, pred, false), false)
				}},
				{"png-values", "2x2 pixels of one 8-bit component over 5 sample values x all tag pairs x all six predictors", func(c *mc.C) *mc.Case {
					vals := []byte{0, 1, 127, 128, 255}
					var data []byte
					for i := 0; i < 4; i++ {
						data = append(data, mc.Pick(c, vals))
					}
					tags := []int{c.Choose(5), c.Choose(5)}
					pred := 10
					if th {
						pred += c.Choose(6)
					} else {
						pred += (int(data[0]) + tags[0] + tags[1]*2) % 6
					}
					if c.Skip {
						return mc.Stub
					}
					g := ref.Geometry{Colors: 1, Bits: 8, Columns: 2}
					return predCase(label("PNG %d %v tags %v", pred, data, tags), data, ref.PNGEncode(data, g, tags), geomParms(g, pred, true), false)
				}},
				{"png-paeth", "left, up and upper-left over 12 values each x tags 3 and 4", func(c *mc.C) *mc.Case {
					vals := []byte{0, 1, 2, 63, 64, 100, 127, 128, 129, 200, 254, 255}
					data := []byte{mc.Pick(c, vals), mc.Pick(c, vals), mc.Pick(c, vals), 77}
					tags := []int{c.Choose(5), 3 + c.Choose(2)}
					if c.Skip {
						return mc.Stub
					}
					g := ref.Geometry{Colors: 1, Bits: 8, Columns: 2}
					return predCase(label("PNG %v tags %v", data, tags), data, ref.PNGEncode(data, g, tags), geomParms(g, 15, true), false)
				}},
				{"png-predictors", "every predictor number 10 to 15 x every tag x Flate and LZW x explicit and default parameters", func(c *mc.C) *mc.Case {
					pred := 10 + c.Choose(6)
					tags := []int{c.Choose(5), c.Choose(5), c.Choose(5)}
					g := ref.Geometry{Colors: mc.Pick(c, []int{1, 3}), Bits: mc.Pick(c, []int{8, 16, 1}), Columns: mc.Pick(c, []int{1, 4})}
					lzw, omit := c.Bool(), c.Bool()
					if c.Skip {
						return mc.Stub
					}
					data := families[0](3*g.RowBytes(), 5)
					return predCase(label("PNG %d %+v tags %v omit %v", pred, g, tags, omit), data, ref.PNGEncode(data, g, tags), geomParms(g, pred, omit), lzw)
				}},
				{"png-partial", "data that ends inside a row", func(c *mc.C) *mc.Case {
					g := ref.Geometry{Colors: 1 + c.Choose(3), Bits: 8, Columns: 4}
					tags := []int{c.Choose(5), c.Choose(5), c.Choose(5)}
					data := families[0](3*g.RowBytes(), 9)
					enc := ref.PNGEncode(data, g, tags)
					cut := c.Choose(g.RowBytes())
					if c.Skip {
						return mc.Stub
					}
					return predCase(label("PNG %+v tags %v cut %d", g, tags, cut), data[:len(data)-cut], enc[:len(enc)-cut], geomParms(g, 12, false), false)
				}},
				{"tiff-geometry", "colors 1-4 x 5 depths x columns x rows 1-3 x 4 sample families x Flate and LZW", func(c *mc.C) *mc.Case {
					g := ref.Geometry{Colors: c.Choose(4) + 1, Bits: mc.Pick(c, bits), Columns: mc.Pick(c, cols)}
					n := c.Choose(3) + 1
					f, k := c.Choose(4), c.Choose(3)
					lzw := c.Bool()
					if c.Skip {
						return mc.Stub
					}
					data := families[f](n*g.RowBytes(), k*3)
					return predCase(label("TIFF %+v rows %d family %d", g, n, f), data, ref.TIFFEncode(data, g), geomParms(g, 2, k == 1), lzw)
				}},
				{"tiff-values", "all rows of up to 4 samples for small depths, over 4 values for large ones", func(c *mc.C) *mc.Case {
					b := mc.Pick(c, bits)
					colors := 1 + c.Choose(2)
					g := ref.Geometry{Colors: colors, Bits: b, Columns: 4 / colors}
					var v uint64
					vals := []uint64{0, 1, 1<<uint(b) - 1, 1 << uint(b-1)}
					for i := 0; i < 4; i++ {
						v = v<<uint(b) | mc.Pick(c, vals)
					}
					n := g.RowBytes()
					v <<= uint(n*8 - 4*b)
					data := make([]byte, n)
					for i := range data {
						data[i] = byte(v >> uint(8*(n-1-i)))
					}
					data = append(data, data...)
					return predCase(label("TIFF %+v %x", g, data), data, ref.TIFFEncode(data, g), geomParms(g, 2, true), false)
				}},
				{"none", "predictor 1, no predictor, no parameters, null parameters: unchanged, whatever the geometry", func(c *mc.C) *mc.Case {
					p := mc.Pick(c, []string{"", "<<>>", "<</Predictor 1>>", "null", "<</Predictor 1 /Colors 3 /BitsPerComponent 16 /Columns 5>>", "<</Colors 3 /Columns 5>>", "<</BitsPerComponent 1 /Columns 9>>"})
					f, n := c.Choose(4), c.Choose(40)
					return predCase(label("none %s n %d", p, n), families[f](n, 1), families[f](n, 1), p, c.Bool())
				}},
				{"no geometry", "predictors with a zero or negative number of colors, columns or bits, more than 16 bits, or an unknown predictor number: unchanged", func(c *mc.C) *mc.Case {
					pred := mc.Pick(c, []int{2, 10, 12, 15})
					v := mc.Pick(c, []string{"Colors", "Columns", "BitsPerComponent", "Predictor"})
					bad := []int{0, -1, -8, -65536}
					if v == "BitsPerComponent" {
						bad = append(bad, 17, 32, 1000000)
					}
					p := fmt.Sprintf("<</Predictor %d /%s %d>>", pred, v, mc.Pick(c, bad))
					if v == "Predictor" {
						p = fmt.Sprintf("<</Columns 3 /Predictor %d>>", mc.Pick(c, []int{0, 3, 9, 16, 100, -2, -10}))
					}
					f, n := c.Choose(4), c.Choose(20)
					return predCase(label("no geometry %s n %d", p, n), families[f](n, 1), families[f](n, 1), p, c.Bool())
				}},
				{"other entries", "each of 500 other entries with six values, and 160 values of Type and Subtype, in the parameters or the stream's dictionary, PNG and TIFF, Flate and LZW: the same data", func(c *mc.C) *mc.Case {
					k := c.Choose(len(stdKeys) + 2*len(stdTypes))
					x, key := "", ""
					if k < len(stdKeys) {
						key = stdKeys[k]
						x = " /" + key + " " + mc.Pick(c, []string{"0", "3", "-1", "/Name", "null", "[2 3]"}) + " "
					} else {
						k -= len(stdKeys)
						key = []string{"Type", "Subtype"}[k%2]
						x = " /" + key + " /" + stdTypes[k/2] + " "
					}
					parms, front, lzw := c.Bool(), c.Bool(), c.Bool()
					pred := mc.Pick(c, []int{2, 15})
					own := "Predictor Colors Columns BitsPerComponent EarlyChange"
					if !parms {
						own = "Filter DecodeParms"
					}
					if strings.Contains(" "+own+" ", " "+key+" ") {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					g := ref.Geometry{Colors: 3, Bits: 4, Columns: 5}
					data := families[1](3*g.RowBytes(), 1)
					enc := ref.PNGEncode(data, g, []int{4, 2, 1})
					if pred == 2 {
						enc = ref.TIFFEncode(data, g)
					}
					f := "/Filter /FlateDecode "
					if lzw {
						enc, f = ref.LZWEncode(enc, ref.LZWOpts{Early: 1}), "/Filter /LZWDecode "
					} else {
						enc = ref.Zlib(enc, 6)
					}
					d := fmt.Sprintf("/Predictor %d /Colors 3 /Columns 5 /BitsPerComponent 4", pred)
					if parms {
						if front {
							d = x + d
						} else {
							d += x
						}
						d = f + "/DecodeParms <<" + d + ">>"
					} else {
						d = f + "/DecodeParms <<" + d + ">>"
						if front {
							d = x + d
						} else {
							d += x
						}
					}
					b := ref.NewBuilder()
					b.Obj(1, 0, fmt.Sprintf("<<%s>>\nstream\n%s\nendstream", d, enc))
					b.Table("/Root 1 0 R")
					return streamCase(label("%s", d), b.Bytes(), 1, data)
				}},
				{"many colors", "5 to 4096 color components x 5 depths x columns x predictor 2 and the five row tags x Flate and LZW", func(c *mc.C) *mc.Case {
					g := ref.Geometry{Colors: mc.Pick(c, []int{5, 6, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 255, 256, 257, 1000, 4096}), Bits: mc.Pick(c, bits), Columns: 1 + c.Choose(3)}
					k := c.Choose(6)
					lzw := c.Bool()
					if c.Skip {
						return mc.Stub
					}
					data := families[k%4](2*g.RowBytes(), k)
					if k == 5 {
						return predCase(label("TIFF %+v", g), data, ref.TIFFEncode(data, g), geomParms(g, 2, false), lzw)
					}
					return predCase(label("PNG %+v tag %d", g, k), data, ref.PNGEncode(data, g, []int{k, k}), geomParms(g, 15, false), lzw)
				}},
				{"entry spellings", "every subset of the geometry entries given by reference or by a chain of references, four spellings of the numbers, with the parameters themselves direct, by reference or in an array, PNG and TIFF, Flate and LZW with both EarlyChange settings", func(c *mc.C) *mc.Case {
					g := ref.Geometry{Colors: 3, Bits: 4, Columns: 5}
					pred := mc.Pick(c, []int{2, 12, 15})
					lzw := c.Choose(3)
					spell := mc.Pick(c, []string{"%d", "+%d", "%d.0", "00%d"})
					b := ref.NewBuilder()
					next := 10
					ind := func(v string) string {
						b.Obj(next, 0, v)
						next++
						return fmt.Sprintf("%d 0 R", next-1)
					}
					var d, lab strings.Builder
					put := func(k string, v int) {
						t := fmt.Sprintf(spell, v)
						n := c.Choose(3)
						for i := 0; i < n; i++ {
							t = ind(t)
						}
						fmt.Fprintf(&d, "/%s %s ", k, t)
						fmt.Fprintf(&lab, "%s %d ", k, n)
					}
					put("Predictor", pred)
					put("Colors", g.Colors)
					put("BitsPerComponent", g.Bits)
					put("Columns", g.Columns)
					if lzw > 0 {
						put("EarlyChange", lzw-1)
					}
					parms := "<<" + d.String() + ">>"
					form := c.Choose(4)
					if c.Skip {
						return mc.Stub
					}
					switch form {
					case 1:
						parms = ind(parms)
					case 2:
						parms = "[" + ind(parms) + "]"
					case 3:
						parms = ind("[" + parms + "]")
					}
					data := families[0](60*g.RowBytes(), 3)
					enc := ref.TIFFEncode(data, g)
					if pred != 2 {
						tags := make([]int, 60)
						for i := range tags {
							tags[i] = i % 5
						}
						enc = ref.PNGEncode(data, g, tags)
					}
					filter := "/FlateDecode"
					if lzw > 0 {
						filter, enc = "/LZWDecode", ref.LZWEncode(enc, ref.LZWOpts{Early: lzw - 1})
					} else {
						enc = ref.Zlib(enc, 6)
					}
					b.Stream(1, 0, "/Filter "+filter+" /DecodeParms "+parms, enc)
					b.Table("/Root 1 0 R")
					return streamCase(label("predictor %d lzw %d %s spelled %s form %d", pred, lzw, lab.String(), spell, form), b.Bytes(), 1, data)
				}},
				{"many columns", "4095 to a million columns x colors 1 and 3 x 5 depths x predictor 2 and the five row tags", func(c *mc.C) *mc.Case {
					g := ref.Geometry{Colors: mc.Pick(c, []int{1, 3}), Bits: mc.Pick(c, bits), Columns: mc.Pick(c, []int{4095, 8191, 8192, 10000, 16383, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 100000, 131072, 262145, 524289, 1000000})}
					k := c.Choose(6)
					if c.Skip {
						return mc.Stub
					}
					data := families[k%4](2*g.RowBytes()+3, k)
					if k == 5 {
						data = data[:2*g.RowBytes()]
						return predCase(label("TIFF %+v", g), data, ref.TIFFEncode(data, g), geomParms(g, 2, false), false)
					}
					data = data[:2*g.RowBytes()]
					return predCase(label("PNG %+v tag %d", g, k), data, ref.PNGEncode(data, g, []int{k, k}), geomParms(g, 15, false), false)
				}},
				{"big", "large images: many rows and wide rows", func(c *mc.C) *mc.Case {
					g := ref.Geometry{Colors: mc.Pick(c, []int{1, 3, 4}), Bits: mc.Pick(c, bits), Columns: mc.Pick(c, []int{1, 100, 255, 256, 257, 1000, 4096})}
					n := mc.Pick(c, []int{1, 2, 100, 300})
					pred := mc.Pick(c, []int{2, 10, 12, 15})
					if c.Skip {
						return mc.Stub
					}
					if n*g.RowBytes() > 300000 {
						n = 300000/g.RowBytes() + 1
					}
					data := families[0](n*g.RowBytes(), 0)
					var enc []byte
					if pred == 2 {
						enc = ref.TIFFEncode(data, g)
					} else {
						tags := make([]int, n)
						for i := range tags {
							tags[i] = (i*i + pred) % 5
						}
						enc = ref.PNGEncode(data, g, tags)
					}
					return predCase(label("predictor %d %+v rows %d", pred, g, n), data, enc, geomParms(g, pred, false), false)
				}},
			}
		},
	})
}
