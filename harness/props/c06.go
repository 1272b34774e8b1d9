package props

import (
	"bytes"
	"fmt"
	"strings"

	"verif/mc"
	"verif/ref"
)

// region is what stands between the line end behind "stream" and "endstream"; the payload is the region
// without one trailing line end.
func payloadOf(region string) string {
	switch {
	case strings.HasSuffix(region, "\r\n"):
		return region[:len(region)-2]
	case strings.HasSuffix(region, "\n"), strings.HasSuffix(region, "\r"):
		return region[:len(region)-1]
	}
	return region
}

// rawStream writes a stream object with full control; ok is false if the region contains the marker.
func rawStream(dict, start, region string) (string, []byte, bool) {
	if start == "\r" && strings.HasPrefix(region+"endstream", "\n") {
		return "", nil, false
	}
	if strings.Index(region+"endstream", "endstream") != len(region) {
		return "", nil, false
	}
	return dict + "\nstream" + start + region + "endstream", []byte(payloadOf(region)), true
}

func init() {
	lengths := func(c *mc.C, n int) string {
		return mc.Pick(c, []string{fmt.Sprintf("/Length %d", n), "", "/Length 0", fmt.Sprintf("/Length %d", n+5), "/Length 1", "/Length 99999999", "/Length -3", "/Length 9 0 R", "/Length (x)"})
	}
	two := func(lab string, body string, want []byte, table bool) *mc.Case {
		b := ref.NewBuilder()
		b.Obj(1, 0, body)
		b.Obj(2, 0, "(next)")
		if table {
			b.Table("/Root 2 0 R")
		}
		doc := b.Bytes()
		return &mc.Case{Label: lab, Doc: doc, Trivial: len(want) == 0, Run: func() mc.Result {
			p, err := open(doc, "")
			if err != nil {
				return fail("Load: %v", err)
			}
			got := p.GetObject(1).Stream
			if !bytes.Equal(got, want) {
				return fail("stream is %s, expected %s%s", q(got), q(want), diffAt(got, want))
			}
			if v := ref.From(p.GetObject(2).Value); !ref.Equal(v, Str("next")) {
				return fail("object behind the stream reads as %s", ref.Show(v))
			}
			return mc.Result{Outcome: mc.Digest(string(got))}
		}}
	}
	mc.Register(&mc.Prop{
		ID:        "C06",
		Technique: "exhaustive enumeration of payloads over marker fragments, line ends and buffer positions, run on the real reader, compared with the payload",
		Scopes: func(th bool) []mc.Scope {
			d := 0
			if th {
				d = 1
			}
			frag := []string{"e", "end", "endstrea", "ends", "tream", "m", "\n", "\r", "\r\n", "x", "stream", "endobj", "E"}
			return []mc.Scope{
				{"fragments", fmt.Sprintf("all payloads of <= %d marker fragments x start and end line ends x with or without table", 4+d), func(c *mc.C) *mc.Case {
					region := strings.Join(word(c, frag, 4+d), "")
					start := mc.Pick(c, []string{"\n", "\r\n", "\r"})
					end := mc.Pick(c, []string{"\n", "\r\n", "\r", ""})
					s, want, ok := rawStream("<</A 1>>", start, region+end)
					if !ok {
						return nil
					}
					return two(label("start %q region %q", start, region+end), s, want, false)
				}},
				{"marker-bytes", fmt.Sprintf("all words of length <= %d over e n d s t m and line ends", 5+d), func(c *mc.C) *mc.Case {
					region := strings.Join(word(c, bytesAlphabet("ends\n\rm"), 5+d), "")
					s, want, ok := rawStream("<<>>", "\n", region+mc.Pick(c, []string{"\n", ""}))
					if !ok {
						return nil
					}
					return two(label("region %q", region), s, want, true)
				}},
				{"prefixes", "every proper prefix of the marker, followed by every byte, and repeated", func(c *mc.C) *mc.Case {
					m := "endstream"
					i := c.Choose(9)
					j := c.Choose(9)
					region := m[:i] + string([]byte{byte(c.Choose(256))}) + m[:j] + mc.Pick(c, []string{"", "\n"})
					s, want, ok := rawStream("<<>>", "\n", region)
					if !ok {
						return nil
					}
					return two(label("region %q", region), s, want, true)
				}},
				{"length", "payloads x every kind of Length entry", func(c *mc.C) *mc.Case {
					region := mc.Pick(c, []string{"", "x", "hello\nworld", "a\r\nb\r\n", "endstrea\n", "\n", "\n\n", strings.Repeat("q", 40)})
					l := lengths(c, len(region))
					s, want, ok := rawStream("<<"+l+">>", mc.Pick(c, []string{"\n", "\r\n", "\r"}), region+mc.Pick(c, []string{"\n", "\r\n", "\r", ""}))
					if !ok {
						return nil
					}
					return two(label("%s region %q", l, region), s, want, c.Bool())
				}},
				{"positions", "payloads shifted over the 4096 byte buffer boundary, byte by byte", func(c *mc.C) *mc.Case {
					region := mc.Pick(c, []string{"", "x\n", "endstreaendstre\r\n", "a\nendstrea\nmendstrea\n", "\r", "eeeeendstreaeend\n"})
					start := mc.Pick(c, []string{"\n", "\r\n", "\r"})
					w := 70
					if th {
						w = 400
					}
					pad := 4096 - w + c.Choose(w+20)
					s, want, ok := rawStream("<</A 1>>", start, region)
					if !ok {
						return nil
					}
					b := ref.NewBuilder()
					b.Text("%" + strings.Repeat("p", pad-10) + "\n")
					b.Obj(1, 0, s)
					b.Obj(2, 0, "(next)")
					if c.Bool() {
						b.Table("/Root 2 0 R")
					}
					return streamCase(label("pad %d start %q region %q", pad, start, region), b.Bytes(), 1, want)
				}},
				{"object-offset", "marker at every offset from the start of its object around the buffer size (reads start at the object)", func(c *mc.C) *mc.Case {
					w := 60
					if th {
						w = 300
					}
					n := mc.Pick(c, []int{4096, 8192}) - w + c.Choose(w+20)
					tail := mc.Pick(c, []string{"\n", "\r\n", "\r", "", "endstrea\n", "\n\r"})
					s, want, ok := rawStream("<<>>", mc.Pick(c, []string{"\n", "\r\n"}), strings.Repeat("z", n-30)+tail)
					if !ok {
						return nil
					}
					return two(label("payload %d tail %q", n-30, tail), s, want, true)
				}},
				{"dict-offset", "stream keyword and its line end at every offset around the buffer size", func(c *mc.C) *mc.Case {
					w := 60
					n := 4096 - w + c.Choose(w+20)
					start := mc.Pick(c, []string{"\n", "\r\n", "\r"})
					s, want, ok := rawStream("<</A("+strings.Repeat("z", n-30)+")>>", start, mc.Pick(c, []string{"data\n", "\rdata\r", "e\r\n"}))
					if !ok {
						return nil
					}
					return two(label("dictionary %d start %q", n-30, start), s, want, true)
				}},
				{"sizes", "payload sizes around powers of two with every byte value", func(c *mc.C) *mc.Case {
					n := mc.Pick(c, sizes)
					s, want, ok := rawStream("<<>>", "\n", string(pattern(n))+"\n")
					if !ok {
						return nil
					}
					return two(label("payload %d", n), s, want, c.Bool())
				}},
				{"every-size", "payloads of every size from 0 to 8300, of plain bytes, first bytes of the marker or line ends, closed or not", func(c *mc.C) *mc.Case {
					n := c.Choose(8301)
					k := c.Choose(4)
					if c.Skip {
						return mc.Stub
					}
					r := strings.Repeat([]string{"x", "endstrea", "e", "\r\n"}[k], n/[]int{1, 8, 1, 2}[k]+1)[:n]
					if k == 3 {
						doc := append([]byte("%PDF-1.7\n1 0 obj\n<</A 1>>\nstream\n"), r...)
						return streamCase(label("rest %d", n), doc, 1, []byte(r))
					}
					s, want, ok := rawStream("<<>>", "\n", r+"\n")
					if !ok {
						return nil
					}
					return two(label("payload %d kind %d", n, k), s, want, true)
				}},
				{"large", "payloads and unclosed payloads of up to 8 MiB and one byte", func(c *mc.C) *mc.Case {
					n := mc.Pick(c, []int{1 << 18, 1<<19 - 1, 1 << 19, 1000000, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<21 + 1, 1 << 22, 1<<22 + 1, 5000000, 1 << 23, 1<<23 + 1, 10000001})
					unclosed := c.Bool()
					if c.Skip {
						return mc.Stub
					}
					r := pattern(n)
					if unclosed {
						doc := append([]byte("%PDF-1.7\n1 0 obj\n<</A 1>>\nstream\n"), r...)
						return streamCase(label("rest %d", n), doc, 1, r)
					}
					s, want, ok := rawStream("<<>>", "\n", string(r)+"\n")
					if !ok {
						return mc.Drop()
					}
					return two(label("payload %d", n), s, want, true)
				}},
				{"bytes", "every single-byte and two-byte payload", func(c *mc.C) *mc.Case {
					region := string([]byte{byte(c.Choose(256))})
					if k := c.Choose(257); k < 256 {
						region += string([]byte{byte(k)})
					}
					s, want, ok := rawStream("<<>>", "\n", region+"\n")
					if !ok {
						return nil
					}
					return two(label("region %q", region), s, want, false)
				}},
				{"behind-marker", "payloads followed by every kind of text behind the marker: white space, delimiters, comments, endobj or the end of the file at once", func(c *mc.C) *mc.Case {
					region := mc.Pick(c, []string{"", "data", "data\n", "\r\n", "endstrea\r", strings.Repeat("r", 5000) + "\n"})
					s, want, ok := rawStream("<</A 1>>", mc.Pick(c, []string{"\n", "\r\n", "\r"}), region)
					if !ok {
						return nil
					}
					behind := mc.Pick(c, []string{"endobj", "endobj\n", "", "\n", "\r", "\r\n", " ", "\x00", "\t", "\f", " endobj", "\rendobj", "%c\nendobj", ">>", "<<", "[", "]", "(x)", "<41>", "/N", "{", "}", "\nendstream", "\nendstream\nendobj", "\nstream\n"})
					b := ref.NewBuilder()
					b.Text("2 0 obj\n(first)\nendobj\n")
					b.Pending[1] = ref.Entry{Off: b.Len(), Type: 1}
					b.Max = 1
					b.Text("1 0 obj\n" + s + behind)
					if c.Bool() {
						b.Text("\n3 0 obj\n(next)\nendobj\n")
						b.Table("/Root 2 0 R")
					}
					return streamCase(label("region %q behind %q", region, behind), b.Bytes(), 1, want)
				}},
				{"unclosed", fmt.Sprintf("all unclosed payloads of <= %d fragments up to the end of the file, start line ends", 3+d), func(c *mc.C) *mc.Case {
					region := strings.Join(word(c, append([]string{"endstrea", "endobj\n"}, frag...), 3+d), "")
					start := mc.Pick(c, []string{"\n", "\r\n", "\r"})
					if strings.Contains(region, "endstream") || start == "\r" && strings.HasPrefix(region, "\n") {
						return nil
					}
					doc := []byte("%PDF-1.7\n1 0 obj\n<</A 1>>\nstream" + start + region)
					return streamCase(label("start %q rest %q", start, region), doc, 1, []byte(region))
				}},
				{"unclosed-sizes", "unclosed payloads of every size around powers of two", func(c *mc.C) *mc.Case {
					n := mc.Pick(c, sizes)
					r := pattern(n)
					doc := append([]byte("%PDF-1.7\n1 0 obj\n<</A 1>>\nstream\n"), r...)
					return streamCase(label("rest %d", n), doc, 1, r)
				}},
				{"neighbours", "three streams back to back in every combination of line ends", func(c *mc.C) *mc.Case {
					b := ref.NewBuilder()
					want := map[int][]byte{}
					for i := 1; i <= 3; i++ {
						s, w, ok := rawStream("<</N "+fmt.Sprint(i)+">>", mc.Pick(c, []string{"\n", "\r\n", "\r"}), mc.Pick(c, []string{"payload", "", "end\n", "2 0 R"})+mc.Pick(c, []string{"\n", "\r\n", ""}))
						if !ok {
							return nil
						}
						b.Obj(i, 0, s)
						want[i] = w
					}
					b.Table("/Root 1 0 R")
					doc := b.Bytes()
					return &mc.Case{Label: label("%q", doc), Doc: doc, Run: func() mc.Result {
						p, err := open(doc, "")
						if err != nil {
							return fail("Load: %v", err)
						}
						for _, n := range []int{2, 1, 3} {
							if got := p.GetObject(n).Stream; !bytes.Equal(got, want[n]) {
								return fail("stream %d is %s, expected %s", n, q(got), q(want[n]))
							}
						}
						return mc.Result{Outcome: mc.Digest(string(doc))}
					}}
				}},
				{"not-a-stream", "objects without the stream keyword have no stream", func(c *mc.C) *mc.Case {
					s := mc.Pick(c, []string{"<<>>", "<</A 1>> endobj", "(stream\nx\nendstream)", "<</A/stream>>", "[(a)] streamx\ny\nendstream", "<<>>\nstrea\nm", "null"})
					doc := ref.Simple(s)
					return streamCase(label("%q", s), doc, 1, nil)
				}},
			}
		},
	})
}
