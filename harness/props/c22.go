package props

import (
	"bytes"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"verif/mc"
	"verif/ref"
)

// robj is an object expected in raw.pdf.
type robj struct {
	gen     int
	v       V
	stream  []byte // nil: none
	anyDict bool   // only the given entries need to be there
}

var rawHeader = regexp.MustCompile(`^(\d+) (\d+) obj\n`)

var headerLike = regexp.MustCompile(`\d+([\s\x00]|(%[^\r\n]*))+\d+([\s\x00]|(%[^\r\n]*))+obj`)

// checkRaw reads raw.pdf entry by entry: each expected object exactly once, nothing else.
func checkRaw(raw []byte, want map[int]robj) string {
	seen := map[int]bool{}
	pos := 0
	for {
		for pos < len(raw) && raw[pos] == '\n' {
			pos++
		}
		if pos == len(raw) {
			break
		}
		m := rawHeader.FindSubmatch(raw[pos:])
		if m == nil {
			return fmt.Sprintf("raw.pdf has no entry at %s", q(raw[pos:]))
		}
		n, _ := strconv.Atoi(string(m[1]))
		g, _ := strconv.Atoi(string(m[2]))
		w, ok := want[n]
		if !ok {
			return fmt.Sprintf("raw.pdf has an entry for object %d %d", n, g)
		}
		if seen[n] {
			return fmt.Sprintf("raw.pdf has two entries for object %d", n)
		}
		seen[n] = true
		if g != w.gen {
			return fmt.Sprintf("raw.pdf has object %d with generation %d, expected %d", n, g, w.gen)
		}
		pos += len(m[0])
		r := ref.NewReader(raw[pos:])
		v, _ := r.Object()
		pos += r.P
		if d, ok := v.(Dict); ok && w.stream != nil {
			v = without(d, "Length")
		}
		if w.anyDict {
			d, _ := v.(Dict)
			for _, e := range w.v.(Dict) {
				if x, ok := d.Get(e.K); !ok || !ref.Equal(x, e.V) {
					return fmt.Sprintf("raw.pdf gives object %d as %s, expected entry %s %s", n, ref.Show(v), e.K, ref.Show(e.V))
				}
			}
		} else if !ref.Equal(v, w.v) {
			return fmt.Sprintf("raw.pdf gives object %d as %s, expected %s", n, ref.Show(v), ref.Show(w.v))
		}
		rest := raw[pos:]
		text := "\n"
		if w.stream != nil {
			text = "\nstream\n" + string(w.stream) + "\nendstream\n"
		}
		text += "endobj\n"
		if !bytes.HasPrefix(rest, []byte(text)) {
			if len(rest) > len(text) {
				rest = rest[:len(text)]
			}
			return fmt.Sprintf("raw.pdf has %s behind the value of object %d, expected %s%s", q(rest), n, q([]byte(text)), diffAt(rest, []byte(text)))
		}
		pos += len(text)
	}
	for _, n := range keys(want) {
		if !seen[n] {
			return fmt.Sprintf("raw.pdf has no entry for object %d", n)
		}
	}
	return ""
}

func rawCase(lab string, doc []byte, pw string, want map[int]robj) *mc.Case {
	return &mc.Case{Label: lab, Doc: doc, Run: func() mc.Result {
		r := extract(doc, pw)
		if r.Err != nil {
			return fail("Parse: %v", r.Err)
		}
		if m := checkRaw(r.Files["raw.pdf"], want); m != "" {
			return mc.Result{Fail: m}
		}
		var s []string
		for n, w := range want {
			s = append(s, fmt.Sprint(n, w.gen, ref.Show(w.v), len(w.stream)))
		}
		sort.Strings(s)
		return mc.Result{Outcome: mc.Digest(s...)}
	}}
}

// xrefRaw is the cross-reference stream that has the entry XRev r.
func xrefRaw(doc []byte, r int) robj {
	i := bytes.Index(doc, []byte(fmt.Sprintf("/XRev %d ", r)))
	s := bytes.Index(doc[i:], []byte("stream\n")) + i + 7
	e := bytes.Index(doc[i:], []byte("endstream")) + i - 1
	if doc[e-1] == '\r' {
		e--
	}
	return robj{0, Dict{{"XRev", Num(float64(r))}, {"Type", Name("XRef")}}, append([]byte{}, doc[s:e]...), true}
}

// special22 are entries that extraction looks at.
var special22 = [][2]string{
	{"A", "<</S /URI /URI (http://a) /Next <</S /Named>>>>"},
	{"OpenAction", "<</S /JavaScript /JS (a)>>"},
	{"AA", "<</O <</S /Launch /F (o)>> /C <</S /GoTo>> /WC 1>>"},
	{"Next", "[<</S /GoToR /F (n)>> 1]"},
	{"XFA", "[(a) 5 0 R (b) 5 0 R]"},
	{"EmbeddedFiles", "<</Names [(a) (b) (c) <</F (d) /EF <</F 5 0 R>>>>] /Kids [<</Names [(e) (f)]>>]>>"},
	{"Names", "[(n) <</S /JavaScript /JS (x)>>]"},
	{"Kids", "[5 0 R 1 0 R]"},
	{"JS", "(script)"},
	{"Pages", "<</Kids [5 0 R] /Resources <</Font <<>>>>>>"},
	{"URI", "(http://u)"},
	{"URLS", "<</Names [(http://v) <</S /SPS>>]>>"},
	{"F", "(file)"},
	{"EF", "<</F 5 0 R /UF 5 0 R>>"},
	{"FS", "/URL"},
	{"Win", "<</F (w) /P (p)>>"},
	{"P", "(p)"},
	{"S", "/Launch"},
	{"Resources", "<</Font <</F1 <</ToUnicode 1 0 R>>>>>>"},
	{"Contents", "[1 0 R 5 0 R]"},
	{"ToUnicode", "1 0 R"},
	{"Type", "/Page"},
	{"Base", "(http://b)"},
	{"UF", "(unicode)"},
	{"V", "[1 2]"},
	{"Root", "1 0 R"},
	{"D", "[5 0 R /Fit]"},
}

func init() {
	mc.Register(&mc.Prop{
		ID:        "C22",
		Technique: "exhaustive enumeration of object values, numbers, stream encodings, encryption and update histories; full extraction on the real code, raw.pdf read back entry by entry and compared with the model",
		Note:      "raw.pdf does not escape strings and names, so only values that survive that are used.",
		Scopes: func(th bool) []mc.Scope {
			nb, nl, sb := 3, 8, 3
			if th {
				nb, sb = 4, 4
			}
			return []mc.Scope{
				{"values", fmt.Sprintf("all values of up to %d members and depth 2, %d leaf kinds, as an object, as an entry of a stream's dictionary, unencrypted, RC4 or AES", nb, nl), func(c *mc.C) *mc.Case {
					b := nb
					v := tree(c, &b, 2, nl)
					enc := []int{0, 2, 4}[c.Choose(3)]
					if !th && enc > 0 && b == 0 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					want := map[int]robj{
						1: {0, v, nil, false},
						2: {0, Dict{{"K", v}}, []byte("data"), false},
						3: {0, Str("(balanced) text"), nil, false},
					}
					d := ref.NewBuilder()
					d.Obj(1, 0, ref.Write(v))
					d.Stream(2, 0, "/K "+ref.Write(v), []byte("data"))
					d.Obj(3, 0, "((balanced) text)")
					doc, pw := []byte(nil), ""
					if enc == 0 {
						d.Table("/Root 1 0 R")
						doc = d.Bytes()
					} else {
						e := econfsFew[enc-1]
						cr := e.crypt("user", "owner")
						doc, pw = d.Encrypted(cr, e.method(), e.cf(), 0), "user"
					}
					return rawCase(label("%s encrypted %d", ref.Show(v), enc), doc, pw, want)
				}},
				{"names", "an object, a stream's dictionary and an array's element with each of 500 entry names or, as Type, Subtype and S, 150 values that documents use; not encrypted, RC4 or AES", func(c *mc.C) *mc.Case {
					k := c.Choose(len(stdKeys) + 3*len(stdTypes))
					enc := []int{0, 2, 4}[c.Choose(3)]
					e := Dict{{"ZZ", Num(1)}}
					if k < len(stdKeys) {
						v := mc.Pick(c, []V{Str("text"), Num(7), Name("N"), Arr{Str("a"), Num(1)}, Dict{{"Q", Str("q")}}})
						e = append(e, ref.KV{K: stdKeys[k], V: v})
					} else {
						k -= len(stdKeys)
						e = append(e, ref.KV{K: []string{"Type", "Subtype", "S"}[k%3], V: Name(stdTypes[k/3])})
					}
					key := e[1].K
					if c.Skip {
						return mc.Stub
					}
					want := map[int]robj{1: {0, e, nil, false}, 3: {0, Arr{e, Num(3)}, nil, false}, 5: {0, Str("text"), nil, false}}
					d := ref.NewBuilder()
					d.Obj(1, 0, ref.Write(e))
					if key != "Filter" && key != "DecodeParms" && key != "Length" {
						want[2] = robj{0, e, []byte("data"), true}
						want[4] = robj{0, e, []byte{}, true}
						t := ref.Write(e)
						d.Stream(2, 0, t[2:len(t)-2], []byte("data"))
						d.Stream(4, 0, t[2:len(t)-2], nil)
					}
					d.Obj(3, 0, ref.Write(Arr{e, Num(3)}))
					d.Obj(5, 0, "(text)")
					doc, pw := []byte(nil), ""
					if enc == 0 {
						d.Table("/Root 1 0 R")
						doc = d.Bytes()
					} else {
						e := econfsFew[enc-1]
						cr := e.crypt("user", "owner")
						doc, pw = d.Encrypted(cr, e.method(), e.cf(), 0), "user"
					}
					return rawCase(label("%s encrypted %d", ref.Show(e), enc), doc, pw, want)
				}},
				{"entries", "dictionaries with every one, two or three of 27 entries that extraction looks at, with their natural values, direct or by reference, as an object, inside an array or in a stream's dictionary", func(c *mc.C) *mc.Case {
					i := c.Choose(len(special22))
					j := i + c.Choose(len(special22)-i)
					k := j + c.Choose(len(special22)-j)
					form := c.Choose(3)
					ind := c.Bool()
					if j == i && k > j || !th && i < j && j < k && (i+j+k)%3 != form {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					var v Dict
					want := map[int]robj{}
					d := ref.NewBuilder()
					for n, x := range []int{i, j, k} {
						if n > 0 && x == []int{i, j, k}[n-1] {
							continue
						}
						e := special22[x]
						val := ref.Parse([]byte(e[1]))
						if ind {
							want[10+n] = robj{0, val, nil, false}
							d.Obj(10+n, 0, e[1])
							val = Ref{10 + n, 0}
						}
						v = append(v, ref.KV{K: e[0], V: val})
					}
					switch form {
					case 0:
						want[1] = robj{0, v, nil, false}
						d.Obj(1, 0, ref.Write(v))
					case 1:
						want[1] = robj{0, Arr{Num(1), Arr{v}, v}, nil, false}
						d.Obj(1, 0, ref.Write(want[1].v))
					case 2:
						want[1] = robj{0, v, []byte("BT (x) Tj ET"), false}
						d.Stream(1, 0, strings.TrimSuffix(strings.TrimPrefix(ref.Write(v), "<<"), ">>"), []byte("BT (x) Tj ET"))
					}
					kid := Dict{{"Type", Name("Page")}, {"Contents", Ref{1, 0}}}
					want[5] = robj{0, kid, nil, false}
					d.Obj(5, 0, ref.Write(kid))
					d.Table("/Root 1 0 R")
					return rawCase(label("%s form %d", ref.Show(v), form), d.Bytes(), "", want)
				}},
				{"identities", "31 object numbers from 1 to 2^31 - 3 around powers of 2 and 10 x 18 generations from 0 to 65535, a value, a stream and an empty stream each, with cross-reference table, stream or none, unencrypted, RC4 or AES", func(c *mc.C) *mc.Case {
					n := mc.Pick(c, []int{1, 2, 9, 10, 99, 127, 128, 254, 255, 256, 257, 511, 4095, 32768, 65534, 65535, 65536, 99999, 16777, 8388606, 8388607, 8388608, 9999998, 9999999, 16777213, 16777216, 99999999, 1 << 30, 1<<31 - 4, 1<<31 - 3, 1000000})
					g := mc.Pick(c, []int{0, 1, 2, 9, 10, 99, 127, 128, 254, 255, 256, 257, 300, 999, 32767, 32768, 65534, 65535})
					form := c.Choose(3)
					enc := []int{0, 2, 4}[c.Choose(3)]
					if form == 2 && enc > 0 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					e := econfsFew[4]
					if enc > 0 {
						e = econfsFew[enc-1]
					}
					cr := e.crypt("user", "owner")
					cr.Setup()
					v := Arr{Str("text of an object"), Num(n), Ref{n + 1, g}}
					sd := Dict{{"K", Str("in a dictionary")}}
					want := map[int]robj{n: {g, v, nil, false}, n + 1: {g, sd, []byte("payload of a stream"), false}, n + 2: {g, Dict{}, []byte{}, false}}
					d := ref.NewBuilder()
					put := func(n int, v V, stream []byte) {
						w := v
						if enc > 0 {
							w = cr.EncryptValue(e.method(), n, g, v)
							if stream != nil {
								stream = cr.Encrypt(e.method(), n, g, stream)
							}
						}
						body := ref.Write(w)
						if stream != nil {
							body = ref.StreamBody(enc3(body), stream)
						}
						d.Obj(n, g, body)
					}
					put(n, v, nil)
					put(n+1, sd, []byte("payload of a stream"))
					put(n+2, Dict{}, []byte{})
					t, pw := fmt.Sprintf("/Root %d %d R", n, g), ""
					if enc > 0 {
						t, pw = cr.Trailer(cr.Dict(e.cf())), "user"
					}
					switch form {
					case 0:
						d.Table(t)
					case 1:
						x := n + 9
						if x >= 1<<31 {
							x = 7
						}
						d.XrefStream(x, t+" /XRev 1")
						want[x] = xrefRaw(d.Bytes(), 1)
					case 2:
						d.Text("trailer\n<<" + t + ">>\n")
					}
					return rawCase(label("object %d %d form %d encryption %d", n, g, form, enc), d.Bytes(), pw, want)
				}},
				{"sizes", "cross-reference tables and streams with every Size from 0 to beyond the largest number, negative, huge, fractional or of another type, or none, in one or two revisions, object numbers dense or far apart", func(c *mc.C) *mc.Case {
					sizes := []string{"0", "1", "2", "3", "4", "5", "6", "7", "8", "20", "-1", "-100", "99999999", "4000000000", "2.5", "(4)", "null", "9 0 R", "/X", "[4]"}
					k := c.Choose(len(sizes) + 1)
					k2 := c.Choose(len(sizes) + 1)
					two, far := c.Bool(), c.Bool()
					stm := c.Bool()
					if !two && k2 > 0 {
						return nil
					}
					if !th && two && (k+k2)%3 != 0 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					d := ref.NewBuilder()
					want := map[int]robj{}
					n := func(i int) int {
						if far {
							return i * 1000
						}
						return i
					}
					sizes = append(sizes, "")
					sect := func(k, rev int) {
						d.SizeIs = &sizes[k]
						if stm {
							d.XrefStream(50+rev, fmt.Sprintf("/Root 1 0 R /XRev %d ", rev))
						} else {
							d.Table("/Root 1 0 R")
						}
					}
					for i := 1; i < 6; i++ {
						d.Obj(n(i), 0, fmt.Sprintf("(o%d)", i))
						want[n(i)] = robj{0, Str(fmt.Sprintf("o%d", i)), nil, false}
					}
					sect(k, 0)
					if two {
						d.Obj(n(3), 0, "(new)")
						want[n(3)] = robj{0, Str("new"), nil, false}
						d.Obj(n(7), 0, "(o7)")
						want[n(7)] = robj{0, Str("o7"), nil, false}
						sect(k2, 1)
					}
					doc := d.Bytes()
					for r := 0; stm && r < 2; r++ {
						if r == 0 || two {
							want[50+r] = xrefRaw(doc, r)
						}
					}
					return rawCase(label("sizes %s %s two %v far %v streams %v", sizes[k], sizes[k2], two, far, stm), doc, "", want)
				}},
				{"positions", "20 beginnings of the file (nothing at all, white space, comments, headers of every version, other bytes) directly before the first object, which is a value or a stream, has one of six numbers and lies before or behind the others, with cross-reference table, stream or none", func(c *mc.C) *mc.Case {
					head := mc.Pick(c, []string{"", "\n", " ", "\x00", "\r\n", "%\n", "%PDF-1.7\n", "%PDF-1.0\r", "%PDF-2.0\r\n", "%PDF-1.4\n%\xe2\xe3\xcf\xd3\n", "%!PS-Adobe-3.0 PDF-1.4\n", "x\n", "\xef\xbb\xbf%PDF-1.7\n", "\xff\xd8\xff\n", "endobj\n", "MZ ", "(", "<<\n", strings.Repeat("\x00", 1024), strings.Repeat("%", 2000) + "\n"})
					n := mc.Pick(c, []int{1, 2, 3, 9, 10, 4096})
					stream, first := c.Bool(), c.Bool()
					form := c.Choose(3)
					if c.Skip {
						return mc.Stub
					}
					d := ref.NewBuilder()
					d.B.Reset()
					d.Text(head)
					want := map[int]robj{}
					put := func(n int) {
						if stream {
							d.Stream(n, 0, "/K "+fmt.Sprint(n), []byte("payload"))
							want[n] = robj{0, Dict{{"K", Num(n)}}, []byte("payload"), false}
						} else {
							d.Obj(n, 0, fmt.Sprintf("(object %d)", n))
							want[n] = robj{0, Str(fmt.Sprintf("object %d", n)), nil, false}
						}
					}
					if first {
						put(n)
					}
					put(20)
					put(21)
					if !first {
						put(n)
					}
					t := fmt.Sprintf("/Root %d 0 R", n)
					switch form {
					case 0:
						d.Table(t)
					case 1:
						d.XrefStream(50, t+" /XRev 1 ")
						want[50] = xrefRaw(d.Bytes(), 1)
					case 2:
						d.Text("trailer\n<<" + t + ">>\n")
					}
					return rawCase(label("beginning %q number %d stream %v first %v form %d", head, n, stream, first, form), d.Bytes(), "", want)
				}},
				{"numbers", "every number of up to 3 digits with point and sign in all positions x exponent-range magnitudes", func(c *mc.C) *mc.Case {
					k := c.Choose(2)
					s := ""
					if k == 0 {
						s = mc.Pick(c, []string{"", "-", "+"})
						for i := 0; i < 4; i++ {
							s += mc.Pick(c, []string{"", "0", "1", "5", "9", "."})
						}
						if !isNumber(s) {
							return nil
						}
					} else {
						s = mc.Pick(c, []string{"", "-"}) + mc.Pick(c, []string{"1", "123456789", "99999", "7"}) + strings.Repeat("0", c.Choose(13)) + "." + strings.Repeat("0", c.Choose(9)) + mc.Pick(c, []string{"", "1", "5", "25"})
					}
					v := decimal(s)
					doc := ref.Simple(s, "[ "+s+" "+s+" ]")
					return &mc.Case{Label: s, Doc: doc, Run: func() mc.Result {
						r := extract(doc, "")
						if r.Err != nil {
							return fail("Parse: %v", r.Err)
						}
						if regexp.MustCompile(`[0-9][eE][-+0-9]`).Match(r.Files["raw.pdf"]) {
							return fail("raw.pdf has an exponent: %s", q(r.Files["raw.pdf"]))
						}
						if m := checkRaw(r.Files["raw.pdf"], map[int]robj{1: {0, v, nil, false}, 2: {0, Arr{v, v}, nil, false}}); m != "" {
							return mc.Result{Fail: m}
						}
						return mc.Result{Outcome: mc.Digest(fmt.Sprint(float64(v)))}
					}}
				}},
				{"bytes", "strings and names with every byte value that needs no escape, given by every spelling", func(c *mc.C) *mc.Case {
					x := c.Choose(256)
					form := c.Choose(4)
					enc := c.Choose(3)
					if strings.IndexByte("()\\\r", byte(x)) >= 0 {
						return nil
					}
					s := "a" + string([]byte{byte(x)}) + "b"
					var v V = Str(s)
					t := ""
					switch form {
					case 0:
						t = ref.Lit(s)
					case 1:
						t = ref.HexLit(s)
					case 2:
						t = fmt.Sprintf("(a\\%03ob)", x)
					case 3:
						if ref.IsWS(byte(x)) || ref.IsDelim(byte(x)) || x == '#' {
							return nil
						}
						v, t = Name(s), ref.NameTok(s)
					}
					d := ref.NewBuilder()
					d.Obj(1, 0, "[ "+t+" ]")
					d.Obj(5, 2, "<< /K "+t+" >>")
					want := map[int]robj{1: {0, Arr{v}, nil, false}, 5: {2, Dict{{"K", v}}, nil, false}}
					doc, pw := []byte(nil), ""
					if enc == 0 {
						d.Table("/Root 1 0 R")
						doc = d.Bytes()
					} else {
						e := econfsFew[2*enc-1]
						if enc == 2 {
							e = econfsFew[3]
						}
						doc, pw = d.Encrypted(e.crypt("u", ""), e.method(), e.cf(), 0), "u"
					}
					return rawCase(label("byte %#x form %d encrypted %d", x, form, enc), doc, pw, want)
				}},
				{"streams", "payloads of every size from 0 to 40 and around powers of two, marker-like payloads x encodings (single filters and pairs) x unencrypted, RC4, AES", func(c *mc.C) *mc.Case {
					i := c.Choose(len(sizes) + 6)
					f := c.Choose(len(stages))
					g := c.Choose(4)
					enc := c.Choose(len(econfsFew) + 1)
					if !th && ((i+f+g+enc)%2 != 0 || i < len(sizes) && sizes[i] > 10000 && (f+g+enc)%3 != 0) {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					var x []byte
					if i < len(sizes) {
						x = pattern(sizes[i])
					} else {
						x = []byte([]string{"\r\n", "stream\n", "\nendobj\n", "7 0 obj\n(x)\nendobj\n\n", "%%EOF", "a\n\n"}[i-len(sizes)])
					}
					ss := []stage{stages[f]}
					if g > 0 {
						ss = append(ss, stages[g-1])
					}
					e := x
					ns, ps := "", ""
					for j := len(ss) - 1; j >= 0; j-- {
						e = ss[j].enc(e)
					}
					var fv, pv Arr
					for _, s := range ss {
						p := s.parms
						if p == "" {
							p = "null"
						}
						ns += "/" + s.name + " "
						ps += p + " "
						fv = append(fv, Name(s.name))
						pv = append(pv, ref.Parse([]byte(p)))
					}
					// data that looks like the end marker or an object header (the loader scans the whole file)
					if strings.Contains(string(e), "endstream") || i < len(sizes) && headerLike.Match(e) {
						return mc.Drop()
					}
					d := ref.NewBuilder()
					d.Stream(1, 0, "/Filter ["+ns+"] /DecodeParms ["+ps+"]", e)
					d.Obj(2, 3, "(s)")
					want := map[int]robj{1: {0, Dict{{"Filter", fv}, {"DecodeParms", pv}}, x, false}, 2: {3, Str("s"), nil, false}}
					if want[1].stream == nil {
						w := want[1]
						w.stream = []byte{}
						want[1] = w
					}
					// object headers in a payload are found by the scan but are not objects of any section
					doc, pw := []byte(nil), ""
					if strings.Contains(string(e), "7 0 obj") && enc == 0 {
						d.Pending[7] = ref.Entry{Gen: 1}
					}
					if enc == 0 {
						d.Table("/Root 1 0 R")
						doc = d.Bytes()
					} else {
						ec := econfsFew[enc-1]
						doc, pw = d.Encrypted(ec.crypt("user", "owner"), ec.method(), ec.cf(), 0), "user"
					}
					return rawCase(label("payload %d (%d bytes) filters %s encrypted %d", i, len(x), ns, enc), doc, pw, want)
				}},
				{"histories", fmt.Sprintf("all update histories of %d revisions x {table, cross-reference stream} x {none, set, delete} on 2 objects (values or streams), generations kept or counted", sb), func(c *mc.C) *mc.Case {
					h := &hist{order: identity(sb), nums: []int{1, 2}}
					for r := 0; r < sb; r++ {
						h.stream = append(h.stream, c.Bool())
						h.op = append(h.op, []int{c.Choose(3), c.Choose(3)})
					}
					h.gens = c.Choose(4)
					h.oneXR = c.Bool()
					last, gen, st := h.model()
					c.State(st)
					if c.Skip {
						return mc.Stub
					}
					h.bodies = func(r, o int) string {
						if o == 1 {
							return ref.StreamBody(fmt.Sprintf("/Rev %d", r), []byte(fmt.Sprintf("stream of %d", r)))
						}
						return fmt.Sprintf("<</Rev %d /A [1 (s) /N 5 0 R]>>", r)
					}
					doc := h.doc()
					want := map[int]robj{}
					for o, r := range last {
						if r < 0 {
							continue
						}
						w := robj{gen: gen[r][o], v: Dict{{"Rev", Num(float64(r))}, {"A", Arr{Num(1), Str("s"), Name("N"), Ref{N: 5, G: 0}}}}}
						if o == 1 {
							w.v, w.stream = Dict{{"Rev", Num(float64(r))}}, []byte(fmt.Sprintf("stream of %d", r))
						}
						want[h.nums[o]] = w
					}
					for r := range h.op {
						if h.stream[r] {
							want[h.xrNum(r)] = xrefRaw(doc, r)
						}
					}
					return rawCase(h.String(), doc, "", want)
				}},
			}
		},
	})
}
