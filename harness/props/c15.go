package props

import (
	"fmt"
	"strings"

	"verif/mc"
	"verif/ref"
)

var passwords = []string{"", "a", "user", "pass word", "\xe4\xf6\xfc\x00\x01\xff", "(\xbfN^NuAd", strings.Repeat("x", 31), "0123456789abcdef0123456789abcdef", "0123456789abcdef0123456789abcdefg", strings.Repeat("long ", 20)}

// objs15 are objects with strings of all lengths up to 40 and streams.
func objs15(hex bool) []eobj {
	var a Arr
	for i := 0; i <= 40; i++ {
		a = append(a, Str(pattern(i)))
	}
	return []eobj{
		{1, 0, a, nil, nil, hex},
		{2, 0, Dict{{"S", Str("one")}, {"D", Dict{{"A", Arr{Str("deep (\\ \r\n)"), Num(3), Ref{1, 0}}}, {"N", Name("two")}}}}, nil, nil, hex},
		{3, 0, Dict{{"Note", Str("text")}}, []byte("the payload of a stream"), nil, hex},
		{4, 0, Dict{}, []byte{}, nil, hex},
		{5, 0, Str("just a string"), nil, nil, hex},
	}
}

func init() {
	mc.Register(&mc.Prop{
		ID:          "C15",
		Technique:   "exhaustive enumeration of encryption configurations, passwords, object identities, payload lengths and string positions; documents are encrypted by an independent implementation of the standard security handler and decrypted by the real code",
		Assumptions: []string{"the encrypting model follows ISO 32000-1 7.6 (algorithms 1 to 5); crypto/md5, crypto/rc4 and crypto/aes are trusted"},
		Scopes: func(th bool) []mc.Scope {
			nums := []int{1, 2, 127, 128, 255, 256, 257, 1000, 65535, 65536, 65537, 100000, 1000000, 8388607}
			gens := []int{0, 1, 127, 128, 255, 256, 257, 1000, 32768, 65535}
			return []mc.Scope{
				{"passwords", "18 configurations (V 1, 2, 4; R 2 to 4; 40 to 128 bits; RC4, AES; metadata on or off) x 10 user passwords x 3 owner passwords x Encrypt direct, by reference or with a cross-reference stream", func(c *mc.C) *mc.Case {
					e := mc.Pick(c, econfs)
					u := mc.Pick(c, passwords)
					ow := mc.Pick(c, []string{"", "owner", "0123456789abcdef0123456789abcdefg"})
					form := c.Choose(3)
					if c.Skip {
						return mc.Stub
					}
					cr := e.crypt(u, ow)
					cr.Setup()
					o := objs15(false)
					return checkObjs(label("%v user %q owner %q form %d", e, u, ow, form), edoc(cr, e.cf(), e.method(), form, o), u, o)
				}},
				{"objects", "5 configurations x 14 object numbers x 10 generations x literal or hexadecimal spelling", func(c *mc.C) *mc.Case {
					e := mc.Pick(c, econfsFew)
					n, g := mc.Pick(c, nums), mc.Pick(c, gens)
					hex := c.Bool()
					if c.Skip {
						return mc.Stub
					}
					cr := e.crypt("pw", "")
					cr.Setup()
					o := []eobj{{n, g, Dict{{"A", Str("some text")}, {"B", Arr{Str(""), Str(pattern(33))}}}, []byte("stream data"), nil, hex}, {n + 1, g, Str("neighbour"), nil, nil, hex}}
					return checkObjs(label("%v object %d %d hex %v", e, n, g, hex), edoc(cr, e.cf(), e.method(), 0, o), "pw", o)
				}},
				{"lengths", "5 configurations x string and stream of every length up to 300 and around powers of two up to 2^17 x 2 contents", func(c *mc.C) *mc.Case {
					e := mc.Pick(c, econfsFew)
					var n int
					if c.Bool() {
						n = mc.Pick(c, sizes[41:])
					} else {
						n = c.Choose(301)
					}
					f := mc.Pick(c, corpus[:2])
					hex := c.Bool()
					if c.Skip {
						return mc.Stub
					}
					cr := e.crypt("pw", "")
					cr.Setup()
					o := []eobj{{1, 0, Dict{{"A", Str(f.f(n))}, {"B", Str("behind")}}, nil, nil, hex}, {2, 0, Dict{}, f.f(n), nil, hex}}
					return checkObjs(label("%v %s length %d hex %v", e, f.name, n, hex), edoc(cr, e.cf(), e.method(), 0, o), "pw", o)
				}},
				{"bytes", "5 configurations x strings and streams that end or begin with every byte value, alone or doubled", func(c *mc.C) *mc.Case {
					e := mc.Pick(c, econfsFew)
					b := byte(c.Choose(256))
					k := mc.Pick(c, []int{1, 2, 15, 16, 17})
					hex := c.Bool()
					if c.Skip {
						return mc.Stub
					}
					cr := e.crypt("pw", "")
					cr.Setup()
					s := []byte(strings.Repeat(string(b), k))
					if len(s) != k { // string(byte) would be UTF-8
						s = make([]byte, k)
						for i := range s {
							s[i] = b
						}
					}
					o := []eobj{{1, 0, Arr{Str(s), Str("x" + string(s)), Str(string(s) + "x")}, nil, nil, hex}, {2, 0, Dict{}, s, nil, hex}, {3, 0, Dict{}, append([]byte("data "), s...), nil, hex}}
					return checkObjs(label("%v byte %#x x %d hex %v", e, b, k, hex), edoc(cr, e.cf(), e.method(), 0, o), "pw", o)
				}},
				{"names", "a string below each of 500 entry names, in an object, an array and a stream's dictionary, and streams and dictionaries with each of 150 values of Type and Subtype, in 5 configurations", func(c *mc.C) *mc.Case {
					e := mc.Pick(c, econfsFew)
					k := c.Choose(len(stdKeys) + 2*len(stdTypes))
					hex := c.Bool()
					v := Dict{}
					if k < len(stdKeys) {
						v = Dict{{stdKeys[k], Str(" \x00some text\r\n\x00")}}
					} else {
						k -= len(stdKeys)
						v = Dict{{[]string{"Type", "Subtype"}[k%2], Name(stdTypes[k/2])}, {"T", Str("some text")}, {"Contents", Arr{Str("more text")}}}
					}
					if e.noMeta && v[0].K == "Type" && v[0].V == Name("Metadata") {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					cr := e.crypt("pw", "")
					cr.Setup()
					o := []eobj{{1, 0, v, nil, nil, hex}, {2, 0, Arr{v, Str("behind")}, nil, nil, hex}, {4, 0, Dict{{"In", v}}, nil, nil, hex}}
					if key := v[0].K; key != "Filter" && key != "DecodeParms" && key != "Length" {
						o = append(o, eobj{3, 0, v, []byte("\x00 \nstream data \x00\n"), nil, hex})
					}
					return checkObjs(label("%v %s hex %v", e, ref.Show(v), hex), edoc(cr, e.cf(), e.method(), 0, o), "pw", o)
				}},
				{"damaged", "AES and RC4 strings and streams of every raw length up to 70 that are no encryption of anything, and AES data whose padding ends in every byte value", func(c *mc.C) *mc.Case {
					e := mc.Pick(c, []econf{{4, 4, 128, "AES", false}, {2, 3, 128, "RC4", false}})
					k := c.Choose(70 + 256)
					hex := c.Bool()
					if c.Skip {
						return mc.Stub
					}
					cr := e.crypt("pw", "")
					cr.Setup()
					b := ref.NewBuilder()
					raw, want := make([][]byte, 3), make([][]byte, 3)
					for i := range raw { // objects 1: string, 2: stream, 3: string inside
						if k < 70 {
							raw[i] = pattern(k)
							want[i] = raw[i]
							if e.kind == "RC4" {
								want[i] = cr.Encrypt(e.method(), i+1, 0, raw[i])
							} else if k%16 == 0 && k > 16 {
								want[i] = nil // any padding may result
							}
							continue
						}
						if e.kind == "RC4" {
							return nil
						}
						plain := append(pattern(31), byte(k-70))
						enc := cr.Encrypt(e.method(), i+1, 0, plain)
						raw[i] = enc[:48] // the block of padding removed
						want[i] = plain
						if k-70 >= 1 && k-70 <= 16 {
							want[i] = plain[:32-(k-70)]
						}
					}
					lit := func(x []byte) string {
						if hex {
							return ref.HexLit(string(x))
						}
						return ref.Lit(string(x))
					}
					b.Obj(1, 0, lit(raw[0]))
					b.Stream(2, 0, "", raw[1])
					b.Obj(3, 0, "[<</S "+lit(raw[2])+" /T 7>> 8]")
					b.Table(cr.Trailer(cr.Dict(e.cf())))
					doc := b.Bytes()
					return &mc.Case{Label: label("%v case %d hex %v", e, k, hex), Doc: doc, Run: func() mc.Result {
						p, err := open(doc, "pw")
						if err != nil {
							return fail("Load: %v", err)
						}
						got := []V{ref.From(p.GetObject(1).Value), Str(p.GetObject(2).Stream), ref.From(p.GetObject(3).Value)}
						wantV := []V{Str(want[0]), Str(want[1]), Arr{Dict{{"S", Str(want[2])}, {"T", Num(7)}}, Num(8)}}
						for i := range got {
							if want[i] != nil && !ref.Equal(got[i], wantV[i]) {
								return fail("object %d reads as %s, expected %s", i+1, ref.Show(got[i]), ref.Show(wantV[i]))
							}
						}
						return mc.Result{Outcome: mc.Digest(ref.Show(got[0]))}
					}}
				}},
				{"positions", "5 configurations x all nestings of arrays and dictionaries up to depth 4 with strings at every level and position", func(c *mc.C) *mc.Case {
					e := mc.Pick(c, econfsFew)
					var build func(d int) V
					k := 0
					build = func(d int) V {
						k++
						s := Str(fmt.Sprintf("string %d", k))
						if d == 0 {
							return s
						}
						switch c.Choose(6) {
						case 0:
							return s
						case 1:
							return Arr{build(d - 1)}
						case 2:
							return Arr{s, build(d - 1), Str("")}
						case 3:
							return Dict{{"K", build(d - 1)}}
						case 4:
							return Dict{{"A", s}, {"K", build(d - 1)}, {"Z", Arr{Num(1), Str("z")}}}
						}
						return Arr{Name("n"), build(d - 1), Ref{2, 0}}
					}
					d := 4
					if th {
						d = 6
					}
					v := build(d)
					hex := c.Bool()
					if c.Skip {
						return mc.Stub
					}
					cr := e.crypt("pw", "own")
					cr.Setup()
					o := []eobj{{7, 3, v, nil, nil, hex}}
					return checkObjs(label("%v %s hex %v", e, ref.Show(v), hex), edoc(cr, e.cf(), e.method(), 0, o), "pw", o)
				}},
				{"filters", "5 configurations x all chains of <= 2 filter stages applied before encryption x 3 payloads", func(c *mc.C) *mc.Case {
					e := mc.Pick(c, econfsFew)
					var ss []stage
					for n := c.Choose(3); n > 0; n-- {
						ss = append(ss, mc.Pick(c, stages))
					}
					data := mc.Pick(c, [][]byte{[]byte("hello world, hello"), pattern(700), {0}})
					if c.Skip {
						return mc.Stub
					}
					cr := e.crypt("pw", "")
					cr.Setup()
					p := data
					var names, parms Arr
					for i := len(ss) - 1; i >= 0; i-- {
						p = ss[i].enc(p)
					}
					for _, s := range ss {
						names = append(names, Name(s.name))
						if s.parms == "" {
							parms = append(parms, ref.Null)
						} else {
							parms = append(parms, ref.Parse([]byte(s.parms)))
						}
					}
					d := Dict{}
					if len(ss) > 0 {
						d = Dict{{"Filter", names}, {"DecodeParms", parms}}
					}
					o := []eobj{{12, 0, d, data, p, false}}
					return checkObjs(label("%v %s payload %d", e, ref.Show(d), len(data)), edoc(cr, e.cf(), e.method(), 0, o), "pw", o)
				}},
				{"parameters", "18 configurations x P values and spellings x file identifiers x extra, default and referenced entries", func(c *mc.C) *mc.Case {
					e := mc.Pick(c, econfs)
					cr := e.crypt("pw", "own")
					p := mc.Pick(c, []int32{0, -1, -4, -44, 1<<31 - 1, -1 << 31, 4, -3904})
					cr.P = p
					cr.ID = mc.Pick(c, []string{"", "x", "0123456789abcdef", strings.Repeat("id", 40)})
					k := c.Choose(10)
					if c.Skip {
						return mc.Stub
					}
					cr.Setup()
					o := objs15(false)
					if k >= 6 {
						o = append(o, eobj{60, 0, Num(e.v), nil, nil, false}, eobj{61, 0, Num(e.r), nil, nil, false}, eobj{62, 0, Num(e.bits), nil, nil, false}, eobj{63, 0, Num(p), nil, nil, false}, eobj{64, 0, Name("Standard"), nil, nil, false}, eobj{65, 0, Ref{63, 0}, nil, nil, false}, eobj{66, 0, ref.False, nil, nil, false})
					}
					doc := string(edoc(cr, e.cf(), e.method(), 1, o))
					switch k {
					case 1: // unsigned spelling
						doc = strings.Replace(doc, fmt.Sprintf("/P %d ", p), fmt.Sprintf("/P %d ", uint32(p)), 1)
					case 2: // entries that do not matter
						doc = strings.Replace(doc, "/Filter /Standard", "/Filter /Standard /SubFilter /x /Perms (p) /OE (o) /UE (u)", 1)
					case 3:
						if e.v == 4 {
							return nil
						}
						// only meaningful in version 4 documents
						doc = strings.Replace(doc, "/Filter /Standard", "/Filter /Standard /EncryptMetadata false /StmF /Identity /StrF /Identity /CF <</A <</CFM /None>>>>", 1)
					case 4:
						if e.v != 1 {
							return nil
						}
						doc = strings.Replace(doc, "/Filter /Standard", "/Filter /Standard /Length 128", 1)
					case 5: // default values
						if e.v == 2 && e.bits == 40 {
							doc = strings.Replace(doc, "/Length 40 ", "", 1)
						} else if e.v == 4 && !e.noMeta {
							doc = strings.Replace(doc, "/Filter /Standard", "/EncryptMetadata true /Filter /Standard", 1)
						} else {
							return nil
						}
					case 6: // entries by reference
						doc = strings.Replace(doc, fmt.Sprintf("/Filter /Standard /V %d /R %d", e.v, e.r), "/Filter 64 0 R /V 60 0 R /R 61 0 R", 1)
						doc = strings.Replace(doc, "/EncryptMetadata false", "/EncryptMetadata 66 0 R", 1)
					case 7:
						doc = strings.Replace(doc, fmt.Sprintf("/P %d ", p), "/P 65 0 R ", 1)
					case 8:
						if e.v == 1 {
							return nil
						}
						i := strings.LastIndex(doc, "/Filter /Standard")
						doc = doc[:i] + strings.Replace(doc[i:], fmt.Sprintf("/Length %d ", e.bits), "/Length 62 0 R ", 1)
					case 9: // keys of version 4 are 128 bits long, if nothing else is said
						if e.v != 4 {
							return nil
						}
						i := strings.LastIndex(doc, "/Filter /Standard")
						doc = doc[:i] + strings.Replace(doc[i:], "/Length 128 ", "", 1)
					}
					// the trailer lies behind everything that offsets point at
					return checkObjs(label("%v P %d id %q variant %d", e, p, cr.ID, k), []byte(doc), "pw", o)
				}},
				{"references", "18 configurations x every entry of the trailer and the encryption dictionary, the file identifier's elements and the crypt filters, any one or two of them or all by reference or by a chain of two or three references, table or cross-reference stream", func(c *mc.C) *mc.Case {
					e := mc.Pick(c, econfs)
					form := 1
					if c.Bool() {
						form = 3 // direct, in a cross-reference stream
					}
					chain := c.Choose(3)
					cr := e.crypt("pw", "own")
					_, n := scatter(ref.Parse([]byte("<<"+cr.Trailer(cr.Dict(e.cf()))+">>")), func(int) bool { return false }, nil)
					i := c.Choose(n)
					j := i
					if i > 0 {
						j = i + c.Choose(n-i)
					}
					if !th && i != j && (form == 3) != (chain == 1) {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					cr.Setup()
					o := objs15(false)
					doc := edocWith(cr, e.cf(), e.method(), form, o, func(b *ref.Builder, tr string) string {
						t, _ := trailer15(b, tr, chain, func(k int) bool { return i == 0 || k == i || k == j })
						return t
					})
					return checkObjs(label("%v form %d chain %d positions %d %d", e, form, chain, i, j), doc, "pw", o)
				}},
				{"revisions", "encrypted documents with up to 3 revisions of every object, tables and cross-reference streams mixed", func(c *mc.C) *mc.Case {
					e := mc.Pick(c, econfsFew)
					n := 1 + c.Choose(3)
					cr := e.crypt("pw", "")
					cr.Setup()
					m := e.method()
					b := ref.NewBuilder()
					want := map[int]eobj{}
					lab := ""
					d := cr.Dict(e.cf())
					for r := 0; r < n; r++ {
						for _, num := range []int{1, 2} {
							if r == 0 || c.Bool() {
								g := 0
								v := Dict{{"Rev", Num(r)}, {"S", Str(fmt.Sprintf("object %d revision %d", num, r))}}
								s := []byte(fmt.Sprintf("stream %d of revision %d", num, r))
								b.Stream(num, g, enc3(ref.Write(cr.EncryptValue(m, num, g, v))), cr.Encrypt(m, num, g, s))
								want[num] = eobj{num, g, v, s, nil, false}
								lab += fmt.Sprintf(" %d.%d", r, num)
							}
						}
						if r == 0 {
							b.Obj(9000, 0, d)
						}
						if c.Bool() {
							b.XrefStream(9001+r, cr.Trailer("9000 0 R"))
							lab += " S"
						} else {
							b.Table(cr.Trailer("9000 0 R"))
							lab += " T"
						}
					}
					var o []eobj
					for _, k := range keys(want) {
						o = append(o, want[k])
					}
					return checkObjs(label("%v%s", e, lab), b.Bytes(), "pw", o)
				}},
			}
		},
	})
}
