package props

import (
	"bytes"
	"fmt"

	"verif/mc"
	"verif/ref"
)

func filterDoc(filter string, parms string, data []byte) []byte {
	d := "/Filter " + filter
	if parms != "" {
		d += " /DecodeParms " + parms
	}
	b := ref.NewBuilder()
	b.Stream(1, 0, d, data)
	b.Table("/Root 1 0 R")
	return b.Bytes()
}

// spread puts white space into an ASCII encoding.
func spread(data []byte, style int) []byte {
	var o []byte
	ws := "\n \t\r\f\x00"
	for i, b := range data {
		switch style {
		case 1:
			o = append(o, ws[i%6])
		case 2:
			o = append(o, '\r', '\n')
		case 3:
			if i%5 == 4 {
				o = append(o, '\n')
			}
		case 4:
			o = append(o, ' ', ' ', ' ')
		}
		o = append(o, b)
	}
	if style == 1 || style == 4 {
		o = append(o, ' ', '\n')
	}
	return o
}

func payload(c *mc.C, alphabet string, max int) []byte {
	var b []byte
	for len(b) < max {
		k := c.Choose(len(alphabet) + 1)
		if k == 0 {
			break
		}
		b = append(b, alphabet[k-1])
	}
	return b
}

func init() {
	hexCase := func(c *mc.C, data []byte) *mc.Case {
		e := ref.HexEncode(data, c.Bool())
		if n := len(e); n > 0 && e[n-1] == '0' && c.Bool() {
			e = e[:n-1]
		}
		e = spread(e, c.Choose(5))
		e = append(e, mc.Pick(c, []string{">", "", ">\n", "> 41 zz>"})...)
		return streamCase(label("ASCIIHex %q", e), filterDoc("/ASCIIHexDecode", "", e), 1, data)
	}
	a85Case := func(c *mc.C, data []byte) *mc.Case {
		e := ref.A85Encode(data, c.Bool())
		e = spread(e, c.Choose(5))
		e = append(e, mc.Pick(c, []string{"~>", "", "~>\n", "~> !!zz", "~"})...)
		return streamCase(label("ASCII85 %q", e), filterDoc("/ASCII85Decode", "", e), 1, data)
	}
	mc.Register(&mc.Prop{
		ID:        "C07",
		Technique: "exhaustive enumeration of payloads and encoder choices, decoded by the real filters, compared with the payload",
		Scopes: func(th bool) []mc.Scope {
			d := 0
			if th {
				d = 1
			}
			return []mc.Scope{
				{"hex", fmt.Sprintf("all payloads of length <= %d over 5 bytes x case, odd digit, 5 white-space styles, 4 endings", 3+d), func(c *mc.C) *mc.Case { return hexCase(c, payload(c, "\x00\xff\xa0\x3e\x80", 3+d)) }},
				{"hex-bytes", "every one- and two-byte payload", func(c *mc.C) *mc.Case {
					data := []byte{byte(c.Choose(256))}
					if k := c.Choose(257); k < 256 {
						data = append(data, byte(k))
					}
					e := append(ref.HexEncode(data, c.Bool()), '>')
					return streamCase(label("ASCIIHex %q", e), filterDoc("/ASCIIHexDecode", "", e), 1, data)
				}},
				{"hex-spaces", "one or two white-space bytes of every kind at every position", func(c *mc.C) *mc.Case {
					data := []byte("\x12\xab\xcd\xf0")
					e := append(ref.HexEncode(data, false), '>')
					for k := 0; k < 2; k++ {
						i := c.Choose(len(e) + 1)
						w := mc.Pick(c, []string{"", " ", "\n", "\r", "\t", "\f", "\x00"})
						e = append(append(append([]byte{}, e[:i]...), w...), e[i:]...)
					}
					return streamCase(label("ASCIIHex %q", e), filterDoc("/ASCIIHexDecode", "", e), 1, data)
				}},
				{"a85", fmt.Sprintf("all payloads of length <= %d over 4 bytes x z, 5 white-space styles, 5 endings", 5+d), func(c *mc.C) *mc.Case { return a85Case(c, payload(c, "\x00\xff\x01z", 5+d)) }},
				{"a85-groups", "four-byte groups around every power of 85 and 256, alone and as partial groups", func(c *mc.C) *mc.Case {
					base := mc.Pick(c, []uint32{0, 85, 85 * 85, 85 * 85 * 85, 85 * 85 * 85 * 85, 255, 256, 65535, 65536, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 3, 84, 84 * 85, 52200624})
					v := base + uint32(c.Choose(5)) - 2
					data := []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
					data = data[:c.Choose(4)+1]
					pre := mc.Pick(c, []string{"", "abcd", "\x00\x00\x00\x00"})
					return a85Case(c, append([]byte(pre), data...))
				}},
				{"a85-spaces", "one or two white-space bytes of every kind at every position, also inside the end marker's surroundings", func(c *mc.C) *mc.Case {
					data := []byte("\x00\x00\x00\x00\xff\xfe\x03\x84\x99")
					e := ref.A85Encode(data, true)
					for k := 0; k < 2; k++ {
						i := c.Choose(len(e) + 1)
						w := mc.Pick(c, []string{"", " ", "\n", "\r", "\t", "\f", "\x00"})
						e = append(append(append([]byte{}, e[:i]...), w...), e[i:]...)
					}
					e = append(e, "~>"...)
					return streamCase(label("ASCII85 %q", e), filterDoc("/ASCII85Decode", "", e), 1, data)
				}},
				{"a85-pairs", "every two-byte payload as a partial group behind a full one", func(c *mc.C) *mc.Case {
					data := []byte{'a', 'b', 'c', 'd', byte(c.Choose(256)), byte(c.Choose(256))}
					data = data[:5+c.Choose(2)]
					e := append(ref.A85Encode(data, true), "~>"...)
					return streamCase(label("ASCII85 %q", e), filterDoc("/ASCII85Decode", "", e), 1, data)
				}},
				{"rl-segments", fmt.Sprintf("all sequences of <= %d segments of 9 kinds x endings", 3+d), func(c *mc.C) *mc.Case {
					kinds := []ref.RLSegment{
						{Data: []byte{'a'}}, {Data: []byte{0x80, 'b'}}, {Data: []byte{1, 2, 3}}, {Data: pattern(127)}, {Data: pattern(128)},
						{Data: bytes.Repeat([]byte{'c'}, 2), Repeat: true}, {Data: bytes.Repeat([]byte{0x80}, 3), Repeat: true},
						{Data: bytes.Repeat([]byte{0}, 127), Repeat: true}, {Data: bytes.Repeat([]byte{0xff}, 128), Repeat: true},
					}
					var segs []ref.RLSegment
					var data []byte
					for len(segs) < 3+d {
						k := c.Choose(len(kinds) + 1)
						if k == 0 {
							break
						}
						segs = append(segs, kinds[k-1])
						data = append(data, kinds[k-1].Data...)
					}
					e := append(ref.RLEncode(segs), mc.Pick(c, []string{"\x80", "", "\x80junk", "\x80\x01\x02\x03"})...)
					return streamCase(label("RunLength %d segments %s", len(segs), q(e)), filterDoc("/RunLengthDecode", "", e), 1, data)
				}},
				{"rl-lengths", "every literal and every repeat length, alone, before and behind another segment", func(c *mc.C) *mc.Case {
					n := c.Choose(128) + 1
					rep := n >= 2 && c.Bool()
					s := ref.RLSegment{Data: pattern(n)}
					if rep {
						s = ref.RLSegment{Data: bytes.Repeat([]byte{byte(n)}, n), Repeat: true}
					}
					o := ref.RLSegment{Data: []byte("xy")}
					if c.Bool() {
						o = ref.RLSegment{Data: []byte("zz"), Repeat: true}
					}
					l := [][]ref.RLSegment{{s}, {o, s}, {s, o}, {s, s}}[c.Choose(4)]
					var data []byte
					for _, x := range l {
						data = append(data, x.Data...)
					}
					e := ref.RLEncode(l)
					if c.Bool() {
						e = append(e, 128)
					}
					return streamCase(label("RunLength n=%d repeat=%v", n, rep), filterDoc("/RunLengthDecode", "", e), 1, data)
				}},
				{"rl-bytes", "every byte value repeated and literal", func(c *mc.C) *mc.Case {
					b := byte(c.Choose(256))
					var segs []ref.RLSegment
					var data []byte
					for k := 0; k < 2; k++ {
						s := ref.RLSegment{Data: []byte{b, b}, Repeat: c.Bool()}
						segs = append(segs, s)
						data = append(data, b, b)
					}
					e := append(ref.RLEncode(segs), 128)
					return streamCase(label("RunLength byte %#x", b), filterDoc("/RunLengthDecode", "", e), 1, data)
				}},
				{"cut", "encodings cut off after every byte: what the remaining part determines (an odd hexadecimal digit is padded, a partial ASCII85 group completed, a run copied as far as it goes)", func(c *mc.C) *mc.Case {
					data := mc.Pick(c, [][]byte{[]byte("abcdefghijkl"), []byte("\x00\x00\x00\x00\xff\xff\xff\xff\x01"), []byte("\xff\xfe\xfd\xfc\xfb\xfa\xf9"), pattern(300)})
					f := c.Choose(6)
					n := c.Choose(400)
					if c.Skip {
						return mc.Stub
					}
					var e, want []byte
					name := "/ASCIIHexDecode"
					switch f {
					case 0, 1: // ASCIIHex
						e = spread(ref.HexEncode(data, true), f*3)
					case 2, 3, 4: // ASCII85
						e = spread(ref.A85Encode(data, f > 2), (f&1)*3)
						name = "/ASCII85Decode"
					case 5:
						var segs []ref.RLSegment
						for i := 0; i < len(data); i += 7 {
							segs = append(segs, ref.RLSegment{Data: data[i:min(len(data), i+7)]}, ref.RLSegment{Data: bytes.Repeat(data[i:i+1], 2+i%100), Repeat: true})
						}
						e = ref.RLEncode(segs)
						name = "/RunLengthDecode"
					}
					if n >= len(e) {
						return nil
					}
					e = e[:n]
					switch name {
					case "/ASCIIHexDecode":
						want = ref.HexDecode(e)
					case "/ASCII85Decode":
						ok := false
						if want, ok = ref.A85Decode(e); !ok {
							return nil
						}
					default:
						want = ref.RLDecode(e)
					}
					return streamCase(label("%s %d bytes %q", name, n, e), filterDoc(name, "", e), 1, want)
				}},
				{"large", "payloads of up to 16 MiB and one byte through all three filters", func(c *mc.C) *mc.Case {
					n := mc.Pick(c, bigSizes)
					k := c.Choose(4)
					if c.Skip {
						return mc.Stub
					}
					data := bytes.Repeat([]byte("abcdefg"), n/7+1)[:n]
					var e []byte
					f := "/RunLengthDecode"
					switch k {
					case 0:
						f, e = "/ASCIIHexDecode", append(ref.HexEncode(data, true), '>')
					case 1:
						f, e = "/ASCII85Decode", append(ref.A85Encode(data, true), "~>"...)
					case 2:
						e = ref.RLSimple(data)
					case 3: // runs
						data = bytes.Repeat([]byte{'r'}, n)
						var segs []ref.RLSegment
						for i := 0; i < n; i += 128 {
							segs = append(segs, ref.RLSegment{Data: data[i:min(n, i+128)], Repeat: n-i > 1})
						}
						e = append(ref.RLEncode(segs), 128)
					}
					return streamCase(label("%s size %d kind %d", f, n, k), filterDoc(f, "", e), 1, data)
				}},
				{"sizes", "payload sizes around powers of two through all three filters", func(c *mc.C) *mc.Case {
					n := mc.Pick(c, sizes)
					data := pattern(n)
					if c.Bool() {
						data = bytes.Repeat([]byte{0}, n)
					}
					switch c.Choose(3) {
					case 0:
						return streamCase(label("ASCIIHex size %d", n), filterDoc("/ASCIIHexDecode", "", append(ref.HexEncode(data, true), '>')), 1, data)
					case 1:
						return streamCase(label("ASCII85 size %d", n), filterDoc("/ASCII85Decode", "", append(ref.A85Encode(data, true), "~>"...)), 1, data)
					}
					return streamCase(label("RunLength size %d", n), filterDoc("/RunLengthDecode", "", ref.RLSimple(data)), 1, data)
				}},
			}
		},
	})
}
