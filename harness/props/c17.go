package props

import (
	"bytes"
	"fmt"
	"strings"

	"verif/mc"
	"verif/ref"
)

// filters17 gives the method of each crypt filter name; "" (absent) and Identity mean no encryption.
type filters17 struct {
	stm, str, eff string
	lenA, lenB    int    // key lengths of A (RC4) and B (AES)
	spellA        string // Length entry of A
	spellB        string
	noMeta        bool
}

func (f filters17) method(name string) ref.Method {
	switch name {
	case "A":
		return ref.Method{Kind: "RC4", Len: f.lenA}
	case "B":
		return ref.Method{Kind: "AES", Len: f.lenB}
	}
	return ref.Method{Kind: "None"}
}

func (f filters17) file() string {
	if f.eff == "" {
		return f.stm
	}
	return f.eff
}

func (f filters17) dict() string {
	s := fmt.Sprintf("/CF <</A <</Type /CryptFilter /CFM /V2 %s>> /B <</CFM /AESV2 /AuthEvent /EFOpen %s>> /N <</CFM /None>> /D <</Type /CryptFilter /Length 16>> /E <</CFM null>>>>", f.spellA, f.spellB)
	for _, x := range [][2]string{{"StmF", f.stm}, {"StrF", f.str}, {"EFF", f.eff}} {
		if x[1] != "" {
			s += fmt.Sprintf(" /%s /%s", x[0], x[1])
		}
	}
	return s
}

func (f filters17) String() string {
	return fmt.Sprintf("StmF %q StrF %q EFF %q A %q B %q noMeta %v", f.stm, f.str, f.eff, f.spellA, f.spellB, f.noMeta)
}

// own17 spells a stream's own Crypt filter; the rest are further filters.
var own17 = []struct {
	name string
	f    func(name string, rest ...string) string
}{
	{"arrays", func(n string, rest ...string) string {
		p := "<</Type /CryptFilterDecodeParms /Name /" + n + ">>"
		if n == "" {
			p = "<<>>"
		}
		return "/Filter [/Crypt " + strings.Join(rest, " ") + "] /DecodeParms [" + p + strings.Repeat(" null", len(rest)) + "]"
	}},
	{"single", func(n string, rest ...string) string {
		if len(rest) > 0 {
			return ""
		}
		if n == "" {
			return "/Filter /Crypt"
		}
		return "/DecodeParms <</Name /" + n + ">> /Filter /Crypt"
	}},
	{"mixed", func(n string, rest ...string) string {
		if len(rest) > 0 || n == "" {
			return ""
		}
		return "/Filter [/Crypt] /DecodeParms <</Name /" + n + ">>"
	}},
	{"references", func(n string, rest ...string) string {
		p := "31 0 R"
		if n != "" {
			p = "<</Name 3" + map[string]string{"A": "2", "B": "3", "N": "4", "Identity": "5"}[n] + " 0 R>>"
		}
		return "/Filter [30 0 R " + strings.Join(rest, " ") + "] /DecodeParms [" + p + strings.Repeat(" null", len(rest)) + "]"
	}},
	{"short parms", func(n string, rest ...string) string {
		p := "<</Name /" + n + ">>"
		if n == "" {
			return "/Filter [/Crypt " + strings.Join(rest, " ") + "]"
		}
		return "/Filter [/Crypt " + strings.Join(rest, " ") + "] /DecodeParms [" + p + "]"
	}},
}

func crypt17(f filters17) *ref.Crypt {
	cr := &ref.Crypt{V: 4, R: 4, Bits: 128, User: "user", Owner: "owner", P: -44, ID: "\x01\x02id", Meta: !f.noMeta}
	cr.Setup()
	return cr
}

func init() {
	names := []string{"", "Identity", "A", "B", "N", "D", "E"}
	std := func() filters17 {
		return filters17{stm: "A", str: "A", lenA: 16, lenB: 16, spellA: "/Length 16", spellB: "/Length 16"}
	}
	// doc with one string object, a plain stream, an embedded file, and streams with their own filter
	mk := func(f filters17, own string, sp int, form int, lab string) *mc.Case {
		cr := crypt17(f)
		b := ref.NewBuilder()
		want := map[int]V{}
		streams := map[int][]byte{}
		put := func(n, g int, extra string, m ref.Method, payload, enc []byte) {
			note := Str(fmt.Sprintf("string in the dictionary of stream %d", n))
			ev := cr.EncryptValue(f.method(f.str), n, g, note)
			b.Stream(n, g, "/Note "+ref.Write(ev)+" "+extra, cr.Encrypt(m, n, g, enc))
			want[n] = note
			streams[n] = payload
		}
		v := Arr{Str("a string"), Dict{{"D", Str("")}}, Str(pattern(50))}
		b.Obj(1, 0, ref.Write(cr.EncryptValue(f.method(f.str), 1, 0, v)))
		data := []byte("payload of the stream, more than one block")
		put(2, 0, "", f.method(f.stm), data, data)
		put(3, 1, "/Type /EmbeddedFile", f.method(f.file()), data, data)
		put(4, 0, "/Type /EmbeddedFile /Filter /FlateDecode", f.method(f.file()), data, ref.Zlib(data, 6))
		put(11, 0, "/Type 36 0 R", f.method(f.file()), data, data)
		put(12, 0, "/Type 37 0 R /Filter [/FlateDecode]", f.method(f.file()), data, ref.Zlib(data, 6))
		put(13, 0, "/Type 38 0 R", f.method(f.stm), data, data)
		put(5, 0, "/Type /Other /Filter [/ASCIIHexDecode]", f.method(f.stm), data, append(ref.HexEncode(data, true), '>'))
		if s := own17[sp].f(own); s != "" {
			put(6, 0, s, f.method(own), data, data)
			put(7, 0, "/Type /EmbeddedFile "+s, f.method(own), data, data)
		}
		if s := own17[sp].f(own, "/ASCIIHexDecode", "/FlateDecode"); s != "" {
			put(8, 0, s, f.method(own), data, append(ref.HexEncode(ref.Zlib(data, 6), true), '>'))
		}
		if s := own17[sp].f(own, "/FlateDecode"); strings.Contains(s, " null]") {
			p := "<</Predictor 12 /Columns 7>>"
			put(9, 0, strings.Replace(s, " null]", p+"]", 1), f.method(own), data, ref.Zlib(pngPad(data, 7), 6))
			s = own17[sp].f(own, "/ASCIIHexDecode", "/FlateDecode")
			put(10, 0, strings.Replace(s, " null null]", " null "+p+"]", 1), f.method(own), data, append(ref.HexEncode(ref.Zlib(pngPad(data, 7), 6), true), '>'))
		}
		b.Obj(30, 0, "/Crypt")
		b.Obj(31, 0, "null")
		b.Obj(36, 0, "/EmbeddedFile")
		b.Obj(37, 0, "36 0 R")
		b.Obj(38, 0, "39 0 R")
		for i, n := range []string{"A", "B", "N", "Identity"} {
			b.Obj(32+i, 0, "/"+n)
		}
		d := cr.Dict(f.dict())
		t := cr.Trailer(d)
		if form != 1 && form < 10 {
			b.Obj(20, 0, d)
			t = cr.Trailer("20 0 R")
		}
		if form > 2 && form < 10 { // behind further references
			b.Obj(22, 0, "20 0 R")
			b.Obj(23, 0, "22 0 R")
			t = cr.Trailer([]string{"22 0 R", "23 0 R"}[form-3])
		}
		if form >= 10 { // spread over objects
			t = cr.Trailer(d)
			t, _ = trailer15(b, t, form%2, func(k int) bool { return form < 12 || k == (form-12)/2 })
		}
		if form == 2 {
			b.XrefStream(21, t)
		} else {
			b.Table(t)
		}
		doc := b.Bytes()
		return &mc.Case{Label: label("%v own %q %s form %d", f, own, own17[sp].name, form), Doc: doc, Run: func() mc.Result {
			p, err := open(doc, "user")
			if err != nil {
				return fail("Load: %v", err)
			}
			if got := ref.From(p.GetObject(1).Value); !ref.Equal(got, v) {
				return fail("strings read as %s, expected %s", ref.Show(got), ref.Show(v))
			}
			for _, n := range keys(want) {
				o := p.GetObject(n)
				got, _ := ref.From(o.Value).(Dict)
				if x, _ := got.Get("Note"); !ref.Equal(x, want[n]) {
					return fail("string in object %d reads as %s, expected %s", n, ref.Show(x), ref.Show(want[n]))
				}
				if !bytes.Equal(o.Stream, streams[n]) {
					return fail("stream %d is %s, expected %s", n, q(o.Stream), q(streams[n]))
				}
			}
			if form != 1 && form < 10 {
				got, _ := ref.From(p.GetObject(20).Value).(Dict)
				for k, w := range map[string][]byte{"O": cr.O, "U": cr.U} {
					if x, _ := got.Get(k); !ref.Equal(x, Str(w)) {
						return fail("%s of the encryption dictionary reads as %s, expected %q", k, ref.Show(x), w)
					}
				}
			}
			return mc.Result{Outcome: mc.Digest(lab)}
		}}
	}
	mc.Register(&mc.Prop{
		ID:          "C17",
		Technique:   "exhaustive enumeration of crypt filter assignments, methods, key lengths and overrides; documents encrypted by the model, decrypted by the real code",
		Assumptions: []string{"crypt filter names that the CF dictionary does not define, and AES keys other than 128 bits, are outside the alphabet"},
		Scopes: func(th bool) []mc.Scope {
			return []mc.Scope{
				{"assignments", "all assignments of {absent, Identity, RC4, AES, None, no method, null method} to strings, streams and embedded files x own filter of a stream x 5 spellings", func(c *mc.C) *mc.Case {
					f := std()
					f.stm, f.str, f.eff = mc.Pick(c, names), mc.Pick(c, names), mc.Pick(c, names)
					own := mc.Pick(c, names)
					sp := c.Choose(len(own17))
					form := 0
					if th {
						form = c.Choose(3)
					}
					if c.Skip {
						return mc.Stub
					}
					return mk(f, own, sp, form, "")
				}},
				{"lengths", "all key lengths of the RC4 filter (5 to 16 bytes, in bytes, in bits, or absent) and spellings of the AES one x assignments", func(c *mc.C) *mc.Case {
					f := std()
					switch k := c.Choose(3); k {
					case 0, 1:
						f.lenA = 5 + c.Choose(12)
						f.spellA = fmt.Sprintf("/Length %d", f.lenA)
						if k == 1 {
							f.spellA = fmt.Sprintf("/Length %d", f.lenA*8)
						}
					case 2:
						f.spellA = ""
					}
					f.spellB = mc.Pick(c, []string{"", "/Length 16", "/Length 128", "/Length 11", "/Length 13", "/Length 15", "/Length 120"})
					if n := map[string]int{"/Length 11": 11, "/Length 13": 13, "/Length 15": 15, "/Length 120": 15}[f.spellB]; n > 0 {
						f.lenB = n
					}
					f.stm, f.str, f.eff = mc.Pick(c, []string{"A", "B"}), mc.Pick(c, []string{"A", "B"}), mc.Pick(c, []string{"", "A", "B"})
					own := mc.Pick(c, []string{"A", "B"})
					if c.Skip {
						return mc.Stub
					}
					return mk(f, own, 0, 0, "")
				}},
				{"forms", "all assignments of {absent, RC4, AES} x Encrypt direct, by one, two or three references, or in the dictionary of a cross-reference stream x metadata flag", func(c *mc.C) *mc.Case {
					f := std()
					l := []string{"", "A", "B"}
					f.stm, f.str, f.eff = mc.Pick(c, l), mc.Pick(c, l), mc.Pick(c, l)
					f.noMeta = c.Bool()
					form := c.Choose(5)
					own := mc.Pick(c, []string{"Identity", "A"})
					return mk(f, own, 0, form, "")
				}},
				{"references", "assignments of {absent, RC4, AES} x every value of the trailer and the encryption dictionary, or all of them, by one or two references", func(c *mc.C) *mc.Case {
					f := std()
					l := []string{"", "A", "B"}
					f.stm, f.str, f.eff = mc.Pick(c, l), mc.Pick(c, l), mc.Pick(c, l)
					f.noMeta = c.Bool()
					own := mc.Pick(c, []string{"Identity", "A", "B"})
					_, n := scatter(ref.Parse([]byte("<<"+crypt17(f).Trailer(crypt17(f).Dict(f.dict()))+">>")), func(int) bool { return false }, nil)
					form := 10 + c.Choose(2*n)
					if c.Skip {
						return mc.Stub
					}
					return mk(f, own, 0, form, "")
				}},
				{"types", "streams with each of 500 other entries (numbers, names) or each of 160 values of Type and Subtype x no own filter or one of four, followed by up to two other filters, parameters in an array or single x assignments: only embedded files use the filter named for them", func(c *mc.C) *mc.Case {
					f := std()
					f.stm, f.str, f.eff = mc.Pick(c, []string{"A", "B", ""}), "A", mc.Pick(c, []string{"B", "N", ""})
					k := c.Choose(len(stdKeys) + 2*len(stdTypes))
					key, v := "", ""
					if k < len(stdKeys) {
						key, v = stdKeys[k], mc.Pick(c, []string{"1", "/Identity", "<</Name /Identity>>"})
					} else {
						k -= len(stdKeys)
						key, v = []string{"Type", "Subtype"}[k%2], "/"+stdTypes[k/2]
					}
					own := mc.Pick(c, []string{"-", "Identity", "A", "B", "N"})
					rest := c.Choose(3)
					if key == "Filter" || key == "DecodeParms" {
						return nil
					}
					if !th && (k+rest+len(own)+len(f.stm))%3 > 0 && v != "/EmbeddedFile" && v != "/Metadata" {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					cr := crypt17(f)
					m := f.method(f.stm)
					if key == "Type" && v == "/EmbeddedFile" {
						m = f.method(f.file())
					}
					if own != "-" {
						m = f.method(own)
					}
					data := []byte("data of the stream, more than a block")
					enc := data
					var l []string
					if rest > 0 {
						enc = ref.HexEncode(enc, true)
						l = []string{"/ASCIIHexDecode"}
					}
					if rest > 1 {
						enc = ref.Zlib(enc, 6)
						l = []string{"/FlateDecode", "/ASCIIHexDecode"}
					}
					extra := own17[0].f(own, l...)
					if own == "-" {
						extra = "/Filter [" + strings.Join(l, " ") + "]"
					} else if rest == 0 {
						extra = own17[1].f(own)
					}
					b := ref.NewBuilder()
					b.Obj(1, 0, "<</Type /Catalog>>")
					b.Stream(5, 0, "/"+key+" "+v+" "+extra, cr.Encrypt(m, 5, 0, enc))
					b.Table(cr.Trailer(cr.Dict(f.dict())))
					doc := b.Bytes()
					return &mc.Case{Label: label("%v /%s %s own %s filters %d", f, key, v, own, rest), Doc: doc, Run: func() mc.Result {
						p, err := open(doc, "user")
						if err != nil {
							return fail("Load: %v", err)
						}
						if got := p.GetObject(5).Stream; !bytes.Equal(got, data) {
							return fail("stream is %s, expected %s", q(got), q(data))
						}
						return mc.Result{}
					}}
				}},
				{"metadata", "metadata streams with metadata encryption on and off, with and without their own filter", func(c *mc.C) *mc.Case {
					f := std()
					f.stm, f.str = mc.Pick(c, []string{"A", "B"}), mc.Pick(c, []string{"", "A", "B"})
					f.noMeta = c.Bool()
					own := mc.Pick(c, []string{"-", "Identity", "A", "B", "N"})
					cr := crypt17(f)
					m := f.method(f.stm)
					extra := ""
					if f.noMeta {
						m = ref.Method{Kind: "None"}
					}
					if own != "-" {
						extra = own17[0].f(own)
						m = f.method(own)
					}
					data := []byte("<?xpacket begin?><x:xmpmeta>metadata</x:xmpmeta>")
					enc := data
					if c.Bool() {
						enc = ref.Zlib(data, 6)
						if own == "-" {
							extra = "/Filter /FlateDecode"
						} else {
							extra = own17[0].f(own, "/FlateDecode")
						}
					}
					typ := mc.Pick(c, []string{"/Metadata", "36 0 R", "37 0 R"})
					b := ref.NewBuilder()
					b.Obj(1, 0, "<</Type /Catalog /Metadata 5 0 R>>")
					b.Stream(5, 0, "/Type "+typ+" /Subtype /XML "+extra, cr.Encrypt(m, 5, 0, enc))
					b.Obj(36, 0, "/Metadata")
					b.Obj(37, 0, "36 0 R")
					b.Stream(6, 0, "/Type /XObject", cr.Encrypt(f.method(f.stm), 6, 0, data))
					form := c.Bool()
					if form {
						b.XrefStream(21, cr.Trailer(cr.Dict(f.dict())))
					} else {
						b.Table(cr.Trailer(cr.Dict(f.dict())))
					}
					doc := b.Bytes()
					return &mc.Case{Label: label("%v metadata stream of type %s with own filter %s %s stream section %v", f, typ, own, extra, form), Doc: doc, Run: func() mc.Result {
						p, err := open(doc, "user")
						if err != nil {
							return fail("Load: %v", err)
						}
						for _, n := range []int{5, 6} {
							if got := p.GetObject(n).Stream; !bytes.Equal(got, data) {
								return fail("stream %d is %s, expected %s", n, q(got), q(data))
							}
						}
						return mc.Result{}
					}}
				}},
				{"xref-streams", "cross-reference streams of every revision, listed or not, by sections of either kind, and re-listed by later ones, stay untouched", func(c *mc.C) *mc.Case {
					f := std()
					f.stm, f.str = mc.Pick(c, []string{"A", "B"}), mc.Pick(c, []string{"A", "B"})
					v2 := c.Bool()
					cr := crypt17(f)
					cf := f.dict()
					if v2 {
						if f.stm != "A" || f.str != "A" {
							return nil
						}
						cr = &ref.Crypt{V: 2, R: 3, Bits: 128, User: "user", P: -4, ID: "x", Meta: true}
						cr.Setup()
						cf = ""
					}
					b := ref.NewBuilder()
					v := Str("encrypted")
					b.Obj(1, 0, ref.Write(cr.EncryptValue(f.method(f.str), 1, 0, v)))
					b.Obj(20, 0, cr.Dict(cf))
					want := map[int][]byte{}
					n := 1 + c.Choose(3)
					lab := ""
					list := map[int]ref.Entry{}
					for r := 0; r < n; r++ {
						if r > 0 && c.Bool() { // list all earlier cross-reference streams again
							for k, e := range list {
								b.Pending[k] = e
							}
							lab += "+"
						}
						if r > 0 && c.Bool() { // list everything again, also the encryption dictionary
							b.Pending[20] = ref.Entry{Off: int64(bytes.Index(b.B.Bytes(), []byte("\n20 0 obj"))) + 1, Type: 1}
							lab += "e"
						}
						b.Obj(2+r, 0, ref.Write(cr.EncryptValue(f.method(f.str), 2+r, 0, v)))
						if c.Bool() {
							num := 50 + r
							at := b.Len()
							b.XrefStream(num, "/Marker (plain) "+cr.Trailer("20 0 R"))
							list[num] = ref.Entry{Off: at, Type: 1}
							doc := b.B.Bytes()
							s := bytes.Index(doc[at:], []byte("stream\n")) + int(at) + 7
							e := bytes.LastIndex(doc, []byte("\nendstream"))
							if doc[e-1] == '\r' {
								e--
							}
							want[num] = append([]byte{}, doc[s:e]...)
							lab += "S"
						} else {
							b.Table(cr.Trailer("20 0 R"))
							lab += "T"
						}
					}
					doc := b.Bytes()
					return &mc.Case{Label: label("%v V2 %v sections %s", f, v2, lab), Doc: doc, Trivial: len(want) == 0, Run: func() mc.Result {
						p, err := open(doc, "user")
						if err != nil {
							return fail("Load: %v", err)
						}
						for i := 1; i <= n+1; i++ {
							if got := ref.From(p.GetObject(i).Value); !ref.Equal(got, v) {
								return fail("object %d reads as %s, expected %s", i, ref.Show(got), ref.Show(v))
							}
						}
						for _, k := range keys(want) {
							o := p.GetObject(k)
							d, _ := ref.From(o.Value).(Dict)
							if m, _ := d.Get("Marker"); !ref.Equal(m, Str("plain")) {
								return fail("string in cross-reference stream %d reads as %s", k, ref.Show(m))
							}
							if !bytes.Equal(o.Stream, want[k]) {
								return fail("cross-reference stream %d is %s, expected %s", k, q(o.Stream), q(want[k]))
							}
						}
						d, _ := ref.From(p.GetObject(20).Value).(Dict)
						if u, _ := d.Get("U"); !ref.Equal(u, Str(cr.U)) {
							return fail("U of the encryption dictionary reads as %s", ref.Show(u))
						}
						return mc.Result{}
					}}
				}},
			}
		},
	})
}
