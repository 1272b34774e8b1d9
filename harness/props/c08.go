package props

import (
	"bytes"
	"compress/flate"
	"fmt"
	"sync"

	"verif/mc"
	"verif/ref"
)

// payloads with very different compressed forms
var corpus = []struct {
	name string
	f    func(n int) []byte
}{
	{"zeros", func(n int) []byte { return make([]byte, n) }},
	{"noise", pattern},
	{"text", func(n int) []byte {
		return bytes.Repeat([]byte("the quick brown fox (jumps) over <the> lazy dog. "), n/48+1)[:n]
	}},
	{"ramp", func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i)
		}
		return b
	}},
	{"pairs", func(n int) []byte { // every pair of bytes once: no LZW match longer than needed
		var b []byte
		for i := 0; len(b) < n; i++ {
			b = append(b, byte(i), byte(i>>8), byte(i*7))
		}
		return b[:n]
	}},
	{"runs", func(n int) []byte {
		var b []byte
		for i := 1; len(b) < n; i++ {
			b = append(b, bytes.Repeat([]byte{byte(i)}, i%300+1)...)
		}
		return b[:n]
	}},
}

var levels = []int{flate.NoCompression, flate.BestSpeed, flate.DefaultCompression, flate.BestCompression, flate.HuffmanOnly}

var memo sync.Map

func cached(key string, f func() []byte) []byte {
	if v, ok := memo.Load(key); ok {
		return v.([]byte)
	}
	v := f()
	memo.Store(key, v)
	return v
}

func init() {
	lzwParms := func(c *mc.C) (ref.LZWOpts, string) {
		p := mc.Pick(c, []struct {
			early int
			parms string
		}{
			{1, ""}, {0, "<</EarlyChange 0>>"}, {1, "<</EarlyChange 1>>"},
			{1, "<<>>"}, {1, "<</Predictor 1>>"}, {1, "[<</Colors 3>>]"},
			{0, "<</Predictor 1/EarlyChange 0/Columns 5>>"}, {1, "[<</Columns 2/EarlyChange 1>>]"},
		})
		return ref.LZWOpts{Early: p.early}, p.parms
	}
	// flateDamaged: z was made from data and then damaged at byte at (everything before it intact)
	var damagedBetween func(lab string, filter, parms string, z []byte, lower, clean []byte, exact bool) *mc.Case
	damaged := func(lab string, filter, parms string, z []byte, clean []byte, exact bool) *mc.Case {
		return damagedBetween(lab, filter, parms, z, clean, clean, exact)
	}
	damagedBetween = func(lab string, filter, parms string, z []byte, lower, clean []byte, exact bool) *mc.Case {
		doc := filterDoc(filter, parms, z)
		return &mc.Case{Label: lab, Doc: doc, Run: func() mc.Result {
			p, err := open(doc, "")
			if err != nil {
				return fail("Load: %v", err)
			}
			got := p.GetObject(1).Stream
			ok := bytes.HasPrefix(got, lower) && (!exact || bytes.HasPrefix(clean, got) && len(got) > 0)
			if exact && len(lower) == 0 && bytes.Equal(got, z) {
				ok = true
			}
			if !ok {
				return fail("damaged data decodes to %s, the bytes before the damage are %s%s", q(got), q(clean), diffAt(got, clean))
			}
			return mc.Result{Outcome: mc.Digest(string(got))}
		}}
	}
	mc.Register(&mc.Prop{
		ID:          "C08",
		Technique:   "exhaustive enumeration of payloads, encoder choices, truncations and corruptions, decoded by the real filters, compared with the payload and with a bit-by-bit reference decoder",
		Assumptions: []string{"compress/flate is only used to encode; the reference inflater is independent of it"},
		Scopes: func(th bool) []mc.Scope {
			d := 0
			if th {
				d = 1
			}
			return []mc.Scope{
				{"flate-small", fmt.Sprintf("all payloads of length <= %d over 4 bytes x 5 levels x flush position", 4+d), func(c *mc.C) *mc.Case {
					data := payload(c, "\x00\xffab", 4+d)
					l := mc.Pick(c, levels)
					var fl []int
					if k := c.Choose(len(data) + 2); k > 0 {
						fl = []int{k - 1}
					}
					z := ref.Zlib(data, l, fl...)
					return streamCase(label("Flate %q level %d flush %v", data, l, fl), filterDoc("/FlateDecode", "", z), 1, data)
				}},
				{"flate-sizes", "6 payload families x sizes around powers of two x 5 levels x block splits", func(c *mc.C) *mc.Case {
					f := mc.Pick(c, corpus)
					n := mc.Pick(c, sizes)
					l := mc.Pick(c, levels)
					var fl []int
					switch c.Choose(3) {
					case 1:
						fl = []int{n / 2}
					case 2:
						fl = []int{n / 3, n / 3, n}
					}
					if c.Skip {
						return mc.Stub
					}
					data := f.f(n)
					z := cached(fmt.Sprint("z", f.name, n, l, fl), func() []byte { return ref.Zlib(data, l, fl...) })
					return streamCase(label("Flate %s size %d level %d flush %v", f.name, n, l, fl), filterDoc("/FlateDecode", "", z), 1, data)
				}},
				{"large", "payloads of up to 64 MiB and one byte, Flate at three levels (one byte repeated is compressed up to 1031 fold) and LZW", func(c *mc.C) *mc.Case {
					n := mc.Pick(c, append(append([]int{}, bigSizes...), 1<<25+1, 50000000, 1<<26+1))
					k := c.Choose(4)
					if k > 1 && n > 1<<24+1 {
						return nil
					}
					level := 6
					if k < 2 {
						level = mc.Pick(c, []int{6, 9, 1})
					}
					if c.Skip {
						return mc.Stub
					}
					data := bytes.Repeat([]byte("abcdefg"), n/7+1)[:n]
					if k%2 == 1 {
						data = make([]byte, n)
					}
					if k > 1 {
						return streamCase(label("LZW size %d kind %d", n, k), filterDoc("/LZWDecode", "", ref.LZWEncode(data, ref.LZWOpts{Early: 1})), 1, data)
					}
					return streamCase(label("Flate size %d kind %d level %d", n, k, level), filterDoc("/FlateDecode", "", ref.Zlib(data, level)), 1, data)
				}},
				{"flate-trailing", "data behind the end of the compressed data and all header flag bytes", func(c *mc.C) *mc.Case {
					data := mc.Pick(c, corpus).f(mc.Pick(c, []int{0, 1, 50, 3000}))
					z := ref.Zlib(data, mc.Pick(c, levels))
					h := mc.Pick(c, []string{"\x78\x01", "\x78\x5e", "\x78\x9c", "\x78\xda", "\x08\x1d", "\x18\x19", "\x28\x15", "\x38\x11", "\x48\x0d", "\x58\x09", "\x68\x05"})
					z = append([]byte(h), z[2:]...)
					z = append(z, mc.Pick(c, []string{"", "\n", "garbage", "\x78\x9c\x00"})...)
					return streamCase(label("Flate %d bytes header %q", len(data), h), filterDoc("/FlateDecode", "", z), 1, data)
				}},
				{"flate-truncated", "every truncation of the encodings of 5 payloads at 5 levels: exactly the bytes that can be decoded", func(c *mc.C) *mc.Case {
					f := mc.Pick(c, corpus)
					n := mc.Pick(c, []int{0, 1, 2, 30, 300})
					if th {
						n = mc.Pick(c, []int{n, 1500 + n})
					}
					l := mc.Pick(c, levels)
					data := f.f(n)
					z := cached(fmt.Sprint("t", f.name, n, l), func() []byte { return ref.Zlib(data, l) })
					k := 1 + c.Choose(len(z)-1)
					if c.Skip {
						return mc.Stub
					}
					clean, st := ref.Inflate(z[:k])
					if st != "short" || !bytes.HasPrefix(data, clean) {
						panic("reference inflate: " + st)
					}
					lower, _ := ref.InflateLazy(z[:k])
					return damagedBetween(label("Flate %s size %d level %d cut at %d of %d", f.name, n, l, k, len(z)), "/FlateDecode", "", z[:k], lower, clean, true)
				}},
				{"flate-corrupted", "every byte of the encodings changed in four ways: at least the bytes before the damage", func(c *mc.C) *mc.Case {
					f := mc.Pick(c, corpus)
					n := mc.Pick(c, []int{1, 30, 300})
					l := mc.Pick(c, levels)
					data := f.f(n)
					z := append([]byte{}, cached(fmt.Sprint("t", f.name, n, l), func() []byte { return ref.Zlib(data, l) })...)
					i := c.Choose(len(z))
					x := mc.Pick(c, []byte{0x01, 0x80, 0xff, 0x10})
					if i >= 2 && c.Skip {
						return mc.Stub
					}
					z[i] ^= x
					if i < 2 { // header damage: nothing decodes if the header check fails
						if out, st := ref.Inflate(z); st == "bad" && len(out) == 0 {
							return damaged(label("Flate %s size %d level %d header byte %d ^ %#x", f.name, n, l, i, x), "/FlateDecode", "", z, nil, true)
						}
						return nil
					}
					clean, _ := ref.InflateLazy(z[:i])
					return damaged(label("Flate %s size %d level %d byte %d ^ %#x", f.name, n, l, i, x), "/FlateDecode", "", z, clean, false)
				}},
				{"flate-checksum", "wrong or missing checksum: all data", func(c *mc.C) *mc.Case {
					f := mc.Pick(c, corpus)
					n := mc.Pick(c, []int{1, 100, 5000, 40000})
					data := f.f(n)
					z := ref.Zlib(data, mc.Pick(c, levels))
					k := c.Choose(8)
					if k < 4 {
						z = z[:len(z)-1-k]
					} else {
						z[len(z)-1-(k-4)] ^= 0x55
					}
					return damaged(label("Flate %s size %d checksum damage %d", f.name, n, k), "/FlateDecode", "", z, data, true)
				}},
				{"lzw-small", fmt.Sprintf("all payloads of length <= %d over 4 bytes x EarlyChange x clear and end codes", 5+d), func(c *mc.C) *mc.Case {
					data := payload(c, "\x00\xffab", 5+d)
					o, parms := lzwParms(c)
					o.NoClear, o.NoEOD, o.Literals = c.Bool(), len(data) > 0 && c.Bool(), c.Bool()
					z := ref.LZWEncode(data, o)
					if len(z) == 0 {
						return nil
					}
					return streamCase(label("LZW %q %+v %s", data, o, parms), filterDoc("/LZWDecode", parms, z), 1, data)
				}},
				{"lzw-sizes", "6 payload families x sizes around powers of two up to 2^17 x EarlyChange absent, 0, 1", func(c *mc.C) *mc.Case {
					f := mc.Pick(c, corpus)
					n := mc.Pick(c, sizes)
					o, parms := lzwParms(c)
					if c.Skip {
						return mc.Stub
					}
					data := f.f(n)
					z := cached(fmt.Sprint("l", f.name, n, o), func() []byte { return ref.LZWEncode(data, o) })
					return streamCase(label("LZW %s size %d %s", f.name, n, parms), filterDoc("/LZWDecode", parms, z), 1, data)
				}},
				{"lzw-widths", "payload ends at every position around the code width changes and the full table", func(c *mc.C) *mc.Case {
					f := corpus[4]
					lits := c.Bool()
					at := mc.Pick(c, []int{254, 766, 1790, 3838})
					n := at - 6 + c.Choose(13)
					o, parms := lzwParms(c)
					o.Literals = lits
					o.NoEOD = c.Bool()
					o.ResetAt = mc.Pick(c, []int{4094, 4096})
					if c.Skip {
						return mc.Stub
					}
					data := f.f(n)
					z := ref.LZWEncode(data, o)
					return streamCase(label("LZW %d codes %+v", n, o), filterDoc("/LZWDecode", parms, z), 1, data)
				}},
				{"lzw-resets", "clear codes at every table size around width changes and at the end of the table", func(c *mc.C) *mc.Case {
					f := mc.Pick(c, corpus[1:])
					o, parms := lzwParms(c)
					o.ResetAt = mc.Pick(c, []int{259, 260, 261, 300, 509, 510, 511, 512, 513, 514, 1022, 1023, 1024, 1025, 2046, 2047, 2048, 2049, 4000, 4092, 4093, 4094, 4095, 4096})
					n := mc.Pick(c, []int{300, 1000, 5000, 20000})
					if c.Skip {
						return mc.Stub
					}
					data := f.f(n)
					z := ref.LZWEncode(data, o)
					return streamCase(label("LZW %s size %d %+v", f.name, n, o), filterDoc("/LZWDecode", parms, z), 1, data)
				}},
				{"lzw-parms", "EarlyChange absent, 0 or 1 in five spellings, direct or behind one to three references, beside up to two other entries before or behind it, in parameters given directly, by reference or in an array x payloads on both sides of every width change", func(c *mc.C) *mc.Case {
					early := c.Choose(3) - 1
					b := ref.NewBuilder()
					next := 10
					ind := func(v string) string {
						b.Obj(next, 0, v)
						next++
						return fmt.Sprintf("%d 0 R", next-1)
					}
					parms, deep := "", 0
					if early >= 0 {
						v := fmt.Sprintf(mc.Pick(c, []string{"%d", "+%d", "%d.0", "00%d", "%d."}), early)
						deep = c.Choose(4)
						for i := 0; i < deep; i++ {
							v = ind(v)
						}
						parms = "/EarlyChange " + v
					}
					switch c.Choose(4) {
					case 1:
						parms += "/Predictor 1"
					case 2:
						parms = "/Predictor 1/Columns 7" + parms
					case 3:
						parms = "/Early 1" + parms + "/EarlyChanges 7"
					}
					parms = "<<" + parms + ">>"
					form := c.Choose(4)
					n := mc.Pick(c, []int{1, 253, 254, 255, 256, 257, 700, 767, 768, 1800, 3900, 9000})
					switch form {
					case 1:
						parms = ind(parms)
					case 2:
						parms = "[" + ind(parms) + "]"
					case 3:
						parms = ind("[" + parms + "]")
					}
					if c.Skip {
						return mc.Stub
					}
					data := corpus[4].f(n)
					o := ref.LZWOpts{Early: 1, Literals: true}
					if early == 0 {
						o.Early = 0
					}
					b.Stream(1, 0, "/Filter /LZWDecode /DecodeParms "+parms, ref.LZWEncode(data, o))
					b.Table("/Root 1 0 R")
					return streamCase(label("LZW EarlyChange %d parms %s form %d references %d payload %d", early, parms, form, deep, n), b.Bytes(), 1, data)
				}},
				{"lzw-truncated", "every truncation of LZW encodings: exactly the bytes of the whole codes", func(c *mc.C) *mc.Case {
					f := mc.Pick(c, corpus)
					n := mc.Pick(c, []int{1, 2, 30, 300, 900})
					o, parms := lzwParms(c)
					data := f.f(n)
					z := cached(fmt.Sprint("l", f.name, n, o), func() []byte { return ref.LZWEncode(data, o) })
					if len(z) < 2 {
						return nil
					}
					k := 1 + c.Choose(len(z)-1)
					if c.Skip {
						return mc.Stub
					}
					clean, _ := ref.LZWDecode(z[:k], o.Early)
					if !bytes.HasPrefix(data, clean) {
						panic("reference LZW decoder")
					}
					return damaged(label("LZW %s size %d %s cut at %d of %d", f.name, n, parms, k, len(z)), "/LZWDecode", parms, z[:k], clean, true)
				}},
				{"lzw-corrupted", "every byte of LZW encodings changed: at least the bytes before the damage", func(c *mc.C) *mc.Case {
					f := mc.Pick(c, corpus)
					n := mc.Pick(c, []int{1, 30, 300})
					o, parms := lzwParms(c)
					data := f.f(n)
					z := append([]byte{}, cached(fmt.Sprint("l", f.name, n, o), func() []byte { return ref.LZWEncode(data, o) })...)
					i := 2 + c.Choose(len(z)-2)
					x := mc.Pick(c, []byte{0x01, 0x80, 0xff, 0x10})
					if c.Skip {
						return mc.Stub
					}
					z[i] ^= x
					clean, _ := ref.LZWDecode(z[:i], o.Early)
					return damaged(label("LZW %s size %d byte %d ^ %#x", f.name, n, i, x), "/LZWDecode", parms, z, clean, false)
				}},
				{"garbage", "every one-, two- and some three-byte inputs that no decoder accepts are returned unchanged", func(c *mc.C) *mc.Case {
					b := []byte{byte(c.Choose(256))}
					if k := c.Choose(257); k < 256 {
						b = append(b, byte(k))
					}
					out, st := ref.Inflate(append(append([]byte{}, b...), mc.Pick(c, []string{"", "\x07", "xyz"})...))
					_ = st
					if len(out) > 0 {
						return nil
					}
					return damaged(label("Flate garbage %q", b), "/FlateDecode", "", b, nil, true)
				}},
			}
		},
	})
}
