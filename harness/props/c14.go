package props

import (
	"fmt"
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"

	"verif/mc"
	"verif/ref"
)

// node is the value of one object in a reference graph.
type node struct {
	ref    int // > 0: reference to that object
	body   string
	val    V
	stream []byte
}

// end follows references from object n in the graph; ok is false if they loop or end at nothing.
func end14(g map[int]node, n int) (node, bool) {
	seen := map[int]bool{}
	for {
		x, ok := g[n]
		if !ok || seen[n] {
			return node{val: ref.Null}, false
		}
		seen[n] = true
		if x.ref == 0 {
			return x, true
		}
		n = x.ref
	}
}

// shot is everything a caller can observe about one object.
func shot(o *pdf.IndirectObject) string {
	return fmt.Sprintf("%d %d %s stream %q", o.Number, o.Generation, ref.Show(ref.From(o.Value)), o.Stream)
}

// op14 is one thing a caller does; it returns what the caller sees.
type op14 struct {
	name string
	do   func(p *pdf.Parser, held pdf.Dictionary) string
}

func deepWreck(v pdf.Object, depth int) {
	switch x := v.(type) {
	case pdf.Dictionary:
		for k, e := range x {
			if depth < 3 {
				deepWreck(e, depth+1)
			}
			x[k] = pdf.Number(666)
		}
		x["Wrecked"] = pdf.Name("Yes")
		delete(x, "Type")
	case pdf.Array:
		for i := range x {
			deepWreck(x[i], depth+1)
			x[i] = pdf.Number(667)
		}
	case *pdf.Reference:
		x.Number, x.Generation = 668, 1
	}
}

func ops14(nums []int) []op14 {
	var l []op14
	for _, n := range nums {
		n := n
		l = append(l, op14{fmt.Sprintf("get %d", n), func(p *pdf.Parser, _ pdf.Dictionary) string { return shot(p.GetObject(n)) }})
	}
	for _, n := range nums {
		n := n
		l = append(l, op14{fmt.Sprintf("wreck %d", n), func(p *pdf.Parser, _ pdf.Dictionary) string {
			o := p.GetObject(n)
			s := shot(o)
			deepWreck(o.Value, 0)
			for i := range o.Stream {
				o.Stream[i] ^= 0x5a
			}
			o.Stream = append(o.Stream[:0], "wrecked"...)
			return s
		}})
	}
	for _, k := range []string{"Dict", "Stream", "Chain", "Loop", "None", "Kids"} {
		k := k
		l = append(l, op14{"resolve " + k, func(p *pdf.Parser, h pdf.Dictionary) string {
			v, ok := h.GetObject(k)
			return fmt.Sprint(ref.Show(ref.From(v)), ok)
		}}, op14{"stream " + k, func(p *pdf.Parser, h pdf.Dictionary) string {
			v, ok := h.GetStream(k)
			return fmt.Sprintf("%q %v", v, ok)
		}})
	}
	l = append(l,
		op14{"wreck stream", func(p *pdf.Parser, h pdf.Dictionary) string {
			v, _ := h.GetStream("Stream")
			s := string(v)
			for i := range v {
				v[i] = 0
			}
			return s
		}},
		op14{"wreck resolved", func(p *pdf.Parser, h pdf.Dictionary) string {
			v, _ := h.GetObject("Dict")
			s := ref.Show(ref.From(v))
			deepWreck(v, 0)
			return s
		}},
		op14{"page tree", func(p *pdf.Parser, h pdf.Dictionary) string {
			l, _ := h.GetPageTree("Kids")
			var s []string
			for _, d := range l {
				v, _ := d.GetObject("Name")
				r, _ := d.GetDictionary("Resources")
				s = append(s, ref.Show(ref.From(v))+ref.Show(ref.From(r)))
			}
			return strings.Join(s, " ")
		}},
		op14{"name tree", func(p *pdf.Parser, h pdf.Dictionary) string {
			return ref.Show(ref.From(h.GetNameTreeMap("Kids")))
		}},
		op14{"nested", func(p *pdf.Parser, h pdf.Dictionary) string {
			a, _ := h.GetArray("Arr")
			s := ""
			for i := range a {
				v, _ := a.GetObject(i)
				b, _ := a.GetStream(i)
				s += ref.Show(ref.From(v)) + fmt.Sprintf("%q ", b)
			}
			return s
		}})
	return l
}

// doc14 has a container (object 1) whose entries lead to everything else; pad separates the objects.
func doc14(pad int, cr *ref.Crypt, m ref.Method) []byte {
	enc := func(n int, v V) string {
		if cr != nil {
			v = cr.EncryptValue(m, n, 0, v)
		}
		return ref.Write(v)
	}
	encS := func(n int, b []byte) []byte {
		if cr != nil {
			return cr.Encrypt(m, n, 0, b)
		}
		return b
	}
	b := ref.NewBuilder()
	gap := func() {
		if pad > 0 {
			b.Text("%" + strings.Repeat("-", pad) + "\n")
		}
	}
	b.Obj(1, 0, enc(1, Dict{{"Dict", Ref{2, 0}}, {"Stream", Ref{3, 0}}, {"Chain", Ref{4, 0}}, {"Loop", Ref{6, 0}}, {"None", Ref{99, 0}}, {"Kids", Ref{8, 0}}, {"Arr", Arr{Ref{2, 0}, Num(5), Ref{3, 0}, Ref{4, 0}, Str("direct")}}}))
	gap()
	b.Obj(2, 0, enc(2, Dict{{"Type", Name("T")}, {"S", Str("a string")}, {"D", Dict{{"In", Arr{Str("deep"), Ref{3, 0}}}}}}))
	gap()
	z := ref.Zlib(pngPad([]byte("0123456789abcdefghij"), 5), 6)
	b.Obj(12, 0, "/ASCIIHexDecode")
	b.Obj(3, 0, ref.StreamBody(enc3(enc(3, Dict{{"Filter", Arr{Ref{12, 0}, Name("FlateDecode")}}, {"DecodeParms", Ref{11, 0}}, {"Note", Str("on a stream")}})), encS(3, append(ref.HexEncode(z, true), '>'))))
	gap()
	b.Obj(4, 0, "5 0 R")
	b.Obj(5, 0, "3 0 R")
	b.Obj(6, 0, "7 0 R")
	gap()
	b.Obj(7, 0, "6 0 R")
	b.Obj(8, 0, enc(8, Dict{{"Type", Name("Pages")}, {"Name", Str("root")}, {"Resources", Dict{{"Font", Dict{{"F", Ref{2, 0}}}}}}, {"Kids", Arr{Ref{9, 0}, Ref{10, 0}}}, {"Names", Arr{Str("n1"), Ref{2, 0}}}}))
	gap()
	b.Obj(9, 0, enc(9, Dict{{"Name", Str("page 1")}, {"Names", Arr{Str("n2"), Num(2)}}}))
	b.Obj(10, 0, enc(10, Dict{{"Name", Str("page 2")}, {"Resources", Dict{}}, {"Kids", Arr{Ref{8, 0}, Ref{9, 0}}}}))
	gap()
	b.Obj(11, 0, "[null <</Predictor 12 /Columns 5>>]")
	b.Free(13, 1)
	if cr != nil {
		b.Obj(20, 0, cr.Dict(""))
		b.Table(cr.Trailer("20 0 R"))
	} else {
		b.Table("/Root 1 0 R")
	}
	return b.Bytes()
}

// enc3 strips the brackets of a dictionary.
func enc3(s string) string {
	return strings.TrimSuffix(strings.TrimPrefix(s, "<<"), ">>")
}

func init() {
	cr := func() *ref.Crypt {
		c := &ref.Crypt{V: 2, R: 3, Bits: 128, P: -4, ID: "0123456789abcdef"}
		c.Setup()
		return c
	}
	aes := func() *ref.Crypt {
		c := &ref.Crypt{V: 4, R: 4, Bits: 128, P: -4, ID: "0123456789abcdef", Meta: true}
		c.Setup()
		return c
	}
	type dd struct {
		name string
		doc  []byte
	}
	var docs []dd
	var initDocs = func() {
		if docs != nil {
			return
		}
		a := aes()
		docs = []dd{{"plain", doc14(0, nil, ref.Method{})}, {"spread", doc14(5000, nil, ref.Method{})}, {"rc4", doc14(0, cr(), ref.Method{Kind: "RC4", Len: 16})}, {"rc4 spread", doc14(4100, cr(), ref.Method{Kind: "RC4", Len: 16})},
			{"aes", []byte(strings.Replace(string(doc14(300, a, ref.Method{Kind: "AES", Len: 16})), "/V 4", "/StmF /C /StrF /C /CF <</C <</CFM /AESV2>>>> /V 4", 1))}}
		// the replacement moved the table
		d := docs[4].doc
		i := strings.LastIndex(string(d), "xref\n0 ")
		j := strings.LastIndex(string(d), "startxref\n")
		docs[4].doc = []byte(string(d[:j]) + fmt.Sprintf("startxref\n%d\n%%%%EOF\n", i))
	}
	nums := []int{1, 2, 3, 4, 6, 8, 10, 13, 99}
	ops := ops14(nums)
	expect := map[string]string{} // document|op -> result on a freshly loaded document
	fresh := func(d dd, o op14) string {
		k := d.name + "|" + o.name
		if v, ok := expect[k]; ok {
			return v
		}
		p, err := open(d.doc, "")
		if err != nil {
			panic(err)
		}
		h, _ := p.GetObject(1).Value.(pdf.Dictionary)
		expect[k] = o.do(p, h)
		return expect[k]
	}
	graph := func(c *mc.C, n int, opts []string, pad int) *mc.Case {
		g := map[int]node{}
		var lab []string
		for i := 1; i <= n; i++ {
			k := c.Choose(n + len(opts))
			switch {
			case k < n:
				g[i] = node{ref: k + 1, body: fmt.Sprintf("%d 0 R", k+1)}
			case opts[k-n] == "missing":
				g[i] = node{ref: 77, body: "77 0 R"}
			case opts[k-n] == "free":
				g[i] = node{ref: 78, body: "78 0 R"}
			case opts[k-n] == "stream":
				s := []byte(fmt.Sprintf("payload of %d", i))
				g[i] = node{body: ref.StreamBody(fmt.Sprintf("/I %d", i), s), val: Dict{{"I", Num(i)}, {"Length", Num(len(s))}}, stream: s}
			default:
				b := strings.ReplaceAll(opts[k-n], "#", fmt.Sprint(i))
				g[i] = node{body: b, val: ref.Parse([]byte(b))}
			}
			lab = append(lab, g[i].body)
		}
		if c.Skip {
			return mc.Stub
		}
		b := ref.NewBuilder()
		gap := func() {
			if pad > 0 {
				b.Text("%" + strings.Repeat("-", pad) + "\n")
			}
		}
		d, a := "", ""
		for i := 1; i <= n; i++ {
			b.Obj(i, 0, g[i].body)
			gap()
			d += fmt.Sprintf("/K%d %d 0 R", i, i)
			a += fmt.Sprintf("%d 0 R ", i)
		}
		b.Free(78, 1)
		b.Obj(50, 0, "<<"+d+"/K77 77 0 R/K78 78 0 R>>")
		gap()
		b.Obj(51, 0, "["+a+"]")
		b.Table("/Root 50 0 R")
		doc := b.Bytes()
		return &mc.Case{Label: label("%s pad %d", strings.Join(lab, " | "), pad), Doc: doc, Run: func() mc.Result {
			p, err := open(doc, "")
			if err != nil {
				return fail("Load: %v", err)
			}
			dv, _ := p.GetObject(50).Value.(pdf.Dictionary)
			av, _ := p.GetObject(51).Value.(pdf.Array)
			var seen []string
			for round := 0; round < 2; round++ {
				for i := 1; i <= n; i++ {
					x, _ := end14(g, i)
					k := fmt.Sprintf("K%d", i)
					v, _ := dv.GetObject(k)
					s, _ := dv.GetStream(k)
					w, _ := av.GetObject(i - 1)
					t, _ := av.GetStream(i - 1)
					for _, y := range []pdf.Object{v, w} {
						if !ref.Equal(ref.From(y), x.val) {
							return fail("reference to %d resolves to %s, expected %s", i, ref.Show(ref.From(y)), ref.Show(x.val))
						}
					}
					for _, y := range [][]byte{s, t} {
						if string(y) != string(x.stream) {
							return fail("stream of reference to %d is %s, expected %s", i, q(y), q(x.stream))
						}
					}
					if r, ok := dv.GetReference(k); !ok || r.Number != i || !ref.Equal(ref.From(r.Resolve()), x.val) || string(r.ResolveStream()) != string(x.stream) {
						return fail("reference %d itself resolves wrongly", i)
					}
					// the object itself is not resolved
					o := p.GetObject(i)
					ov := g[i].val
					if g[i].ref > 0 {
						ov = Ref{g[i].ref, 0}
					}
					if !ref.Equal(ref.From(o.Value), ov) || string(o.Stream) != string(g[i].stream) {
						return fail("object %d reads as %s with stream %s, expected %s and %s", i, ref.Show(ref.From(o.Value)), q(o.Stream), ref.Show(ov), q(g[i].stream))
					}
					seen = append(seen, ref.Show(ref.From(v)))
				}
				for _, k := range []string{"K77", "K78"} {
					if v, _ := dv.GetObject(k); !ref.Equal(ref.From(v), ref.Null) {
						return fail("missing object resolves to %s", ref.Show(ref.From(v)))
					}
				}
			}
			return mc.Result{Outcome: mc.Digest(seen...)}
		}}
	}
	seq := func(c *mc.C, n int, ops []op14) *mc.Case {
		initDocs()
		d := mc.Pick(c, docs)
		var l []op14
		var names []string
		for i := 0; i < n; i++ {
			o := mc.Pick(c, ops)
			l = append(l, o)
			names = append(names, o.name)
		}
		if c.Skip {
			return mc.Stub
		}
		return &mc.Case{Label: label("%s: %s", d.name, strings.Join(names, ", ")), Doc: d.doc, Run: func() mc.Result {
			p, err := open(d.doc, "")
			if err != nil {
				return fail("Load: %v", err)
			}
			h, _ := p.GetObject(1).Value.(pdf.Dictionary)
			var seen []string
			for i, o := range l {
				got, want := o.do(p, h), fresh(d, o)
				if got != want {
					return fail("step %d (%s) gives %s, on a fresh document %s", i+1, o.name, got, want)
				}
				seen = append(seen, got)
			}
			return mc.Result{Outcome: mc.Digest(seen...)}
		}}
	}
	mc.Register(&mc.Prop{
		ID:          "C14",
		Technique:   "exhaustive enumeration of reference graphs (against a graph model) and of sequences of lookups, resolutions and destructive use of results (against freshly loaded documents) on the real code",
		Assumptions: []string{"in the sequence scopes the expected result of each single operation is what the code gives on a freshly loaded document; the values themselves are checked by the graph scope and by other properties"},
		Scopes: func(th bool) []mc.Scope {
			some := []string{"missing", "free", "stream", "(s#)", "#.5", "<</A # 0 R /B [(x)]>>"}
			sc := []mc.Scope{
				{"graphs-3", "all graphs of 3 objects, each a reference to any of them, to a missing or free object, a stream, string, number or dictionary, with and without a read buffer between the objects", func(c *mc.C) *mc.Case {
					return graph(c, 3, append(some, "[# 0 R 77 0 R]", "/Name#", "true"), mc.Pick(c, []int{0, 4090}))
				}},
				{"graphs-4", "all graphs of 4 objects", func(c *mc.C) *mc.Case { return graph(c, 4, some, 0) }},
				{"chains", "chains of up to 1000 references that end in a string, a stream, a missing object or a loop, in order or reversed, asked for from the front, the middle and the end", func(c *mc.C) *mc.Case {
					n := mc.Pick(c, []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 21, 31, 32, 33, 50, 63, 64, 65, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 1000})
					end := c.Choose(5)
					rev := c.Bool()
					if c.Skip {
						return mc.Stub
					}
					num := func(i int) int {
						if rev {
							return n + 1 - i
						}
						return i + 1
					}
					b := ref.NewBuilder()
					for i := 0; i < n; i++ {
						b.Obj(num(i), 0, fmt.Sprintf("%d 0 R", num(i+1)))
					}
					var want V = ref.Null
					stream := ""
					switch end {
					case 0:
						want = Str("end")
						b.Obj(num(n), 0, "(end)")
					case 1:
						want, stream = Dict{{"E", Num(1)}, {"Length", Num(6)}}, "stream"
						b.Stream(num(n), 0, "/E 1", []byte(stream))
					case 2: // missing
					case 3:
						b.Obj(num(n), 0, fmt.Sprintf("%d 0 R", num(0)))
					case 4:
						b.Obj(num(n), 0, fmt.Sprintf("%d 0 R", num(n)))
					}
					b.Obj(n+10, 0, fmt.Sprintf("[%d 0 R %d 0 R %d 0 R]", num(0), num(n/2), num(n)))
					b.Table("")
					doc := b.Bytes()
					return &mc.Case{Label: label("chain of %d end %d reversed %v", n, end, rev), Doc: doc, Run: func() mc.Result {
						p, err := open(doc, "")
						if err != nil {
							return fail("Load: %v", err)
						}
						a, _ := p.GetObject(n + 10).Value.(pdf.Array)
						for i := 0; i < 3; i++ {
							v, _ := a.GetObject(i)
							s, _ := a.GetStream(i)
							if !ref.Equal(ref.From(v), want) || string(s) != stream {
								return fail("reference %d resolves to %s with stream %s, expected %s with stream %q", i, ref.Show(ref.From(v)), q(s), ref.Show(want), stream)
							}
						}
						return mc.Result{}
					}}
				}},
				{"stream-entries", "streams whose Length, Filter and DecodeParms entries are absent, direct, null, or references and chains to the value, to null, to a missing or a free object, which lie before or behind the stream or a read buffer away, fetched directly or after the objects they refer to", func(c *mc.C) *mc.Case {
					forms := []string{"absent", "direct", "null", "ref null", "chain null", "missing", "free", "ref", "chain"}
					lf := mc.Pick(c, []string{"direct", "ref", "chain", "ref null", "missing"})
					ff, pf := mc.Pick(c, forms), mc.Pick(c, forms)
					before := c.Bool()
					pad := mc.Pick(c, []int{0, 4090, 9000})
					first := c.Choose(3)
					if c.Skip {
						return mc.Stub
					}
					has := func(f string) bool { return f == "direct" || f == "ref" || f == "chain" }
					if has(pf) && !has(ff) {
						return nil
					}
					payload := []byte("0123456789abcdefghij")
					data := payload
					if has(pf) {
						data = pngPad(payload, 5)
					}
					if has(ff) {
						data = ref.Zlib(data, 6)
					}
					entry := func(key, f, val string, n int) (string, [][2]string) {
						k := func(i int) string { return fmt.Sprint(n + i) }
						switch f {
						case "absent":
							return "", nil
						case "direct":
							return "/" + key + " " + val, nil
						case "null":
							return "/" + key + " null", nil
						case "ref null":
							return "/" + key + " " + k(0) + " 0 R", [][2]string{{k(0), "null"}}
						case "chain null":
							return "/" + key + " " + k(0) + " 0 R", [][2]string{{k(0), k(1) + " 0 R"}, {k(1), "null"}}
						case "missing":
							return "/" + key + " 77 0 R", nil
						case "free":
							return "/" + key + " 78 0 R", nil
						case "ref":
							return "/" + key + " " + k(0) + " 0 R", [][2]string{{k(0), val}}
						}
						return "/" + key + " " + k(0) + " 0 R", [][2]string{{k(0), k(1) + " 0 R"}, {k(1), val}}
					}
					a, oa := entry("Length", lf, fmt.Sprint(len(data)), 10)
					f, of := entry("Filter", ff, "/FlateDecode", 20)
					d, od := entry("DecodeParms", pf, "<</Predictor 12 /Columns 5>>", 30)
					helpers := append(append(oa, of...), od...)
					b := ref.NewBuilder()
					gap := func() {
						if pad > 0 {
							b.Text("%" + strings.Repeat("-", pad) + "\n")
						}
					}
					num := func(s string) int { var n int; fmt.Sscan(s, &n); return n }
					put := func() {
						for _, h := range helpers {
							b.Obj(num(h[0]), 0, h[1])
							gap()
						}
					}
					if before {
						put()
					}
					b.Obj(1, 0, "<<"+a+f+d+">>\nstream\n"+string(data)+"\nendstream")
					gap()
					if !before {
						put()
					}
					b.Obj(2, 0, "[1 0 R]")
					b.Free(78, 1)
					b.Table("")
					doc := b.Bytes()
					return &mc.Case{Label: label("Length %s Filter %s DecodeParms %s, helpers before %v, pad %d, first %d", lf, ff, pf, before, pad, first), Doc: doc, Run: func() mc.Result {
						p, err := open(doc, "")
						if err != nil {
							return fail("Load: %v", err)
						}
						if first == 1 {
							for _, h := range helpers {
								p.GetObject(num(h[0]))
							}
						} else if first == 2 {
							a, _ := p.GetObject(2).Value.(pdf.Array)
							if s, _ := a.GetStream(0); string(s) != string(payload) {
								return fail("the stream behind the reference is %s, expected %s", q(s), q(payload))
							}
						}
						o := p.GetObject(1)
						if string(o.Stream) != string(payload) {
							return fail("the stream is %s, expected %s", q(o.Stream), q(payload))
						}
						if len(o.Value.(pdf.Dictionary)) < 1 && lf != "absent" {
							return fail("the stream's dictionary is empty")
						}
						return mc.Result{}
					}}
				}},
				{"kept results", "every ordered pair of 20 objects (empty and small containers, strings and streams, encoded and plain) in a plain, an RC4 and an AES document x 3 ways to get each: the first result is unchanged when the second is read and wrecked (also behind its end), and both are read again as before", func(c *mc.C) *mc.Case {
					e := c.Choose(3)
					x, y := c.Choose(len(kept14)), c.Choose(len(kept14))
					wx, wy := c.Choose(3), c.Choose(3)
					if c.Skip {
						return mc.Stub
					}
					doc := keptDoc14(e)
					return &mc.Case{Label: label("document %d, objects %d and %d, ways %d and %d", e, x, y, wx, wy), Doc: doc, Run: func() mc.Result {
						p, err := open(doc, "")
						if err != nil {
							return fail("Load: %v", err)
						}
						all, _ := p.GetObject(100).Value.(pdf.Array)
						named, _ := p.GetObject(101).Value.(pdf.Dictionary)
						get := func(n, way int) *pdf.IndirectObject {
							o := &pdf.IndirectObject{Number: n + 1}
							switch way {
							case 0:
								return p.GetObject(n + 1)
							case 1:
								o.Value, _ = all.GetObject(n)
								o.Stream, _ = all.GetStream(n)
							case 2:
								k := fmt.Sprint("K", n)
								o.Value, _ = named.GetObject(k)
								switch o.Value.(type) {
								case pdf.Dictionary:
									o.Value, _ = named.GetDictionary(k)
								case pdf.Array:
									o.Value, _ = named.GetArray(k)
								}
								o.Stream, _ = named.GetStream(k)
							}
							return o
						}
						wantX := ref.Show(kept14[x].v) + string(kept14[x].data)
						wantY := ref.Show(kept14[y].v) + string(kept14[y].data)
						show := func(o *pdf.IndirectObject) string {
							v := ref.From(o.Value)
							if d, ok := v.(Dict); ok {
								var l Dict
								for _, e := range d {
									if e.K != "Length" && e.K != "Filter" {
										l = append(l, e)
									}
								}
								v = l
								if l == nil {
									v = Dict{}
								}
							}
							return ref.Show(v) + string(o.Stream)
						}
						a := get(x, wx)
						if s := show(a); s != wantX {
							return fail("the first object is %s, expected %s", s, wantX)
						}
						b := get(y, wy)
						if s := show(b); s != wantY {
							return fail("the second object is %s, expected %s", s, wantY)
						}
						if s := show(a); s != wantX {
							return fail("the first object became %s when the second was read, expected %s", s, wantX)
						}
						deepWreck(b.Value, 0)
						if v, ok := b.Value.(pdf.Array); ok {
							v = v[:cap(v)]
							for i := range v {
								v[i] = pdf.Name("Wrecked")
							}
						}
						b.Stream = b.Stream[:cap(b.Stream)]
						for i := range b.Stream {
							b.Stream[i] = 'w'
						}
						if s := show(a); s != wantX {
							return fail("the first object became %s when the second was changed, expected %s", s, wantX)
						}
						for i := 0; i < 3; i++ {
							if s := show(get(x, i)); s != wantX {
								return fail("the first object is read as %s (way %d), expected %s", s, i, wantX)
							}
							if s := show(get(y, i)); s != wantY {
								return fail("the second object is read as %s (way %d), expected %s", s, i, wantY)
							}
						}
						return mc.Result{Outcome: mc.Digest(wantX, wantY)}
					}}
				}},
				{"repeated", "one of 37 operations, or reading one of 24 damaged objects at the end of the file, repeated up to 70000 times on one of 5 documents: every operation behind it gives what it gives on a fresh document", func(c *mc.C) *mc.Case {
					damaged := []string{"[(x)", "[", "<<", "<</A", "<</A 1", "<</A [1", "<</A (x", "<</A <61", "(abc", "((", "(\\", "(\\7", "<6", "<61 62", "/Name", "12", "12 0", "<</A 1>>\nstream\nabc", "<</Filter /FlateDecode>>\nstream\nabc", "]", ">>", ")", "tru", strings.Repeat("[", 600), strings.Repeat("<</A ", 600), strings.Repeat("[", 511) + "(x)"}
					initDocs()
					d := mc.Pick(c, docs)
					k := c.Choose(len(ops) + len(damaged))
					ns := []int{1, 2, 3, 15, 64, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 514, 600, 1000, 1023, 1024, 1025, 2000}
					if k >= len(ops) {
						ns = append(ns, 4096, 5000)
						if th {
							ns = append(ns, 20000, 70000)
						}
					}
					n := mc.Pick(c, ns)
					if !th && k < len(ops) && n > 1 && (n+k)%7 != 0 && n != 1025 && n != 513 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					doc, name := d.doc, ""
					if k < len(ops) {
						name = ops[k].name
					} else {
						name = damaged[k-len(ops)]
						doc = append(append([]byte{}, doc...), "\n30 0 obj\n"+name...)
						if len(name) > 30 {
							name = fmt.Sprintf("%s... (%d bytes)", name[:10], len(name))
						}
					}
					return &mc.Case{Label: label("%s: %s %d times", d.name, name, n), Doc: doc, Run: func() mc.Result {
						p, err := open(doc, "")
						if err != nil {
							return fail("Load: %v", err)
						}
						h, _ := p.GetObject(1).Value.(pdf.Dictionary)
						first := ""
						for i := 0; i < n; i++ {
							var got string
							if k < len(ops) {
								got = ops[k].do(p, h)
							} else {
								o := p.GetObject(30)
								got = ref.Show(ref.From(o.Value)) + string(o.Stream)
							}
							if i == 0 {
								first = got
							} else if got != first {
								return fail("%s gives %s the first time and %s at repetition %d", name, q([]byte(first)), q([]byte(got)), i+1)
							}
						}
						for _, o := range ops {
							if got, want := o.do(p, h), fresh(d, o); got != want {
								return fail("%s gives %s behind that, on a fresh document %s", o.name, got, want)
							}
						}
						return mc.Result{Outcome: mc.Digest(first)}
					}}
				}},
				{"agree", "every single operation on the 5 documents, which hold the same objects", func(c *mc.C) *mc.Case {
					initDocs()
					d, o := mc.Pick(c, docs), mc.Pick(c, ops)
					return &mc.Case{Label: d.name + ": " + o.name, Doc: d.doc, Run: func() mc.Result {
						plain := func(s string) string { return strings.ReplaceAll(s, `"Length":96`, `"Length":75`) } // AES adds a block
						if got, want := plain(fresh(d, o)), fresh(docs[0], o); got != want {
							return fail("%s gives %s, in the plain document %s", o.name, got, want)
						}
						return mc.Result{Outcome: mc.Digest(fresh(d, o))}
					}}
				}},
				{"sequences", "all sequences of 2 of 37 operations on 5 documents (plain, spread, RC4, AES)", func(c *mc.C) *mc.Case { return seq(c, 2, ops) }},
				{"sequences-3", "all sequences of 3 operations around the stream, dictionary and tree objects", func(c *mc.C) *mc.Case {
					var few []op14
					for _, o := range ops {
						switch o.name {
						case "get 2", "get 3", "get 8", "get 10", "wreck 1", "wreck 2", "wreck 3", "wreck 8", "wreck 10", "resolve Chain", "stream Stream", "stream Chain", "wreck stream", "wreck resolved", "page tree", "name tree", "nested", "resolve Loop":
							few = append(few, o)
						}
					}
					return seq(c, 3, few)
				}},
			}
			if th {
				sc = append(sc, mc.Scope{"graphs-5", "all graphs of 5 objects (references, missing, stream, string)", func(c *mc.C) *mc.Case { return graph(c, 5, []string{"missing", "stream", "(s#)"}, 0) }},
					mc.Scope{"sequences-all-3", "all sequences of 3 operations", func(c *mc.C) *mc.Case { return seq(c, 3, ops) }})
			}
			return sc
		},
	})
}

// kept14 are the objects of the scope about kept results.
var kept14 = []struct {
	v      V
	data   []byte
	filter string
	enc    []byte
}{
	{v: ref.Null}, {v: Num(7)}, {v: Str("")}, {v: Str("a string")}, {v: Name("N")}, {v: ref.True},
	{v: Arr{}}, {v: Arr{Num(1), Num(2), Num(3)}}, {v: Arr{Str("x"), Arr{}, Dict{}}}, {v: Dict{}}, {v: Dict{{"A", Num(1)}}}, {v: Dict{{"A", Dict{}}, {"B", Arr{}}}},
	{v: Dict{}, data: []byte{}}, {v: Dict{}, data: []byte("abc")}, {v: Dict{}, data: []byte(strings.Repeat("long ", 300))}, {v: Dict{{"S", Str("s")}}, data: []byte("with a string")},
	{v: Dict{}, data: []byte("hex"), filter: "/ASCIIHexDecode", enc: []byte("686578>")},
	{v: Dict{}, data: []byte("flate"), filter: "/FlateDecode", enc: ref.Zlib([]byte("flate"), 6)},
	{v: Dict{}, data: []byte("runs"), filter: "/RunLengthDecode", enc: []byte("\x03runs\x80")},
	{v: Dict{}, data: []byte("unknown"), filter: "/FooDecode", enc: []byte("unknown")},
}

func keptDoc14(e int) []byte {
	var cr *ref.Crypt
	m := ref.Method{Kind: "RC4", Len: 16}
	switch e {
	case 1:
		cr = &ref.Crypt{V: 2, R: 3, Bits: 128, P: -4, ID: "0123456789abcdef"}
	case 2:
		cr = &ref.Crypt{V: 4, R: 4, Bits: 128, P: -4, ID: "0123456789abcdef", Meta: true}
		m.Kind = "AES"
	}
	if cr != nil {
		cr.Setup()
	}
	b := ref.NewBuilder()
	all, named := "", ""
	for i, k := range kept14 {
		n := i + 1
		all += fmt.Sprintf("%d 0 R ", n)
		named += fmt.Sprintf("/K%d %d 0 R ", i, n)
		v := k.v
		if cr != nil {
			v = cr.EncryptValue(m, n, 0, v)
		}
		if k.data == nil {
			b.Obj(n, 0, ref.Write(v))
			continue
		}
		data, f := k.data, ""
		if k.filter != "" {
			data, f = k.enc, "/Filter "+k.filter
		}
		if cr != nil {
			data = cr.Encrypt(m, n, 0, data)
		}
		b.Stream(n, 0, enc3(ref.Write(v))+f, data)
	}
	b.Obj(100, 0, "["+all+"]")
	b.Obj(101, 0, "<<"+named+">>")
	if cr == nil {
		b.Table("/Root 1 0 R")
		return b.Bytes()
	}
	cf := ""
	if e == 2 {
		cf = "/StmF /C /StrF /C /CF <</C <</CFM /AESV2>>>>"
	}
	b.Obj(102, 0, cr.Dict(cf))
	b.Table(cr.Trailer("102 0 R"))
	return b.Bytes()
}
