package props

import (
	"fmt"
	"strings"

	"verif/mc"
	"verif/ref"
)

// lobj is one object of a document, apart from how a file stores it. References in v are by index.
type lobj struct {
	v      V
	stream []byte // nil: none
}

// ldoc is a document: its objects in four groups, and what extraction must report.
type ldoc struct {
	name   string
	objs   []lobj
	group  []int
	w      findings
	text   []string
	files  dump
	nofile bool
}

func (d *ldoc) add(g int, v V, stream []byte) Ref {
	d.objs = append(d.objs, lobj{v, stream})
	d.group = append(d.group, g)
	return Ref{len(d.objs) - 1, 0}
}

func lit31(s string) V { return ref.Parse([]byte(s)) }

// docs31 builds the documents anew.
func docs31() []*ldoc {
	a := &ldoc{name: "pages, files and actions"}
	cm := cmap(mapFont{'A': "alpha", 'B': "b"})
	font := a.add(1, Dict{{"Type", Name("Font")}, {"ToUnicode", a.add(0, Dict{{"Kind", Name("map")}}, cm)}}, nil)
	c1 := a.add(2, Dict{}, []byte("BT /F1 1 Tf (AB) Tj [(A) -3 (C)] TJ ET"))
	c2 := a.add(3, Dict{}, []byte("BT (AB) ' ET"))
	p1 := a.add(1, Dict{{"Type", Name("Page")}, {"Contents", c1}}, nil)
	p2 := a.add(2, Dict{{"Type", Name("Page")}, {"Contents", Arr{c2, c1}}, {"Annots", Arr{Dict{{"A", Dict{{"S", Name("URI")}, {"URI", Str("http://annotation/(1)")}}}}}}}, nil)
	pages := a.add(0, Dict{{"Type", Name("Pages")}, {"Kids", Arr{p1, p2}}, {"Resources", Dict{{"Font", Dict{{"F1", font}}}}}}, nil)
	a.text = []string{"alphab", "alphaC", "AB", "alphab", "alphaC"}
	a.w.urls = append(a.w.urls, "http://annotation/(1)", "http://tree")
	e1 := a.add(3, Dict{{"Type", Name("EmbeddedFile")}}, []byte("embedded \x00\xff content"))
	e2 := a.add(0, Dict{{"Type", Name("EmbeddedFile")}}, pattern(700))
	a.files.add("one.txt", "embedded \x00\xff content")
	a.files.add("dir/two.bin", string(pattern(700)))
	fs2 := a.add(2, Dict{{"Type", Name("Filespec")}, {"F", Str("dir/two.bin")}, {"EF", Dict{{"F", e2}}}}, nil)
	tree := a.add(1, Dict{{"Names", Arr{Str("1"), Dict{{"F", Str("one.txt")}, {"EF", Dict{{"F", e1}}}}, Str("2"), fs2}}}, nil)
	js := a.add(3, Dict{}, []byte("script();"))
	a.w.js = append(a.w.js, "script();", "open();")
	action := a.add(2, Dict{{"S", Name("Launch")}, {"F", Str("run.exe")}, {"Next", Dict{{"S", Name("JavaScript")}, {"JS", js}}}}, nil)
	a.w.cmds = append(a.w.cmds, "run.exe")
	a.files.external("run.exe")
	x1 := a.add(0, Dict{}, []byte("<a>"))
	x2 := a.add(1, Dict{}, []byte("</a>"))
	a.files.add("form.xml", "<a></a>")
	form := a.add(3, Dict{{"XFA", Arr{Str("p"), x1, Str("q"), x2}}}, nil)
	a.add(0, Dict{{"Type", Name("Catalog")}, {"Pages", pages}, {"Names", Dict{{"EmbeddedFiles", tree}, {"URLS", Dict{{"Names", Arr{Str("http://tree"), Num(0)}}}}}}, {"AcroForm", form}, {"AA", Dict{{"O", action}}}, {"OpenAction", Dict{{"S", Name("JavaScript")}, {"JS", Str("open();")}}}}, nil)

	b := &ldoc{name: "values"}
	s := b.add(0, Str("a (string) with \r\x00\xff"), nil)
	n := b.add(1, Arr{Num(-1.5), Name("name"), ref.True, ref.Null, s, Arr{Dict{{"K", Str("inner")}}}}, nil)
	u := b.add(2, Str("http://by/reference"), nil)
	chain := b.add(3, u, nil)
	b.add(2, Dict{{"URI", chain}, {"L", n}}, nil)
	b.add(3, Dict{{"Kids", Arr{}}, {"S", Str("")}}, []byte("data of a stream\r\nwith lines"))
	b.add(0, Dict{{"Type", Name("Catalog")}, {"X", Dict{{"JS", b.add(1, Str("js()"), nil)}}}}, nil)
	b.add(1, Dict{{"E", Str("empty")}}, []byte{})
	b.w.urls = []string{"http://by/reference"}
	b.w.js = []string{"js()"}

	t := &ldoc{name: "entries as in trailers"}
	for i, e := range []string{
		"<</Encrypt <</Filter /Standard /V 9 /R 9>>>>", "<</ID [<01> <02>] /Info 1>>", "<</Prev 9 /Root (x)>>", "<</W [1 2 1] /Index [0 9] /Size 9>>",
		"<</Filter /Standard /V 1 /R 2 /O (o) /U (u) /P -4>>", "<</XRefStm 9 /Prev 60 /Encrypt null>>", "<</Encrypt true /Prev 0 /Size 0>>",
		"<</CF <</StdCF <</CFM /None>>>> /StmF /Identity /StrF /Identity /EncryptMetadata false>>", "[ /Encrypt (xref trailer startxref) ]", "(trailer <</Encrypt 1 0 R>>)",
	} {
		t.add(i%4, lit31(e), nil)
	}
	t.add(2, Dict{{"Encrypt", Num(1)}, {"Prev", Num(10)}, {"URI", Str("http://keys")}}, []byte("stream"))
	t.add(3, Dict{{"Type", Name("Catalog")}, {"Encrypt", Str("no")}}, nil)
	t.w.urls = []string{"http://keys"}
	return []*ldoc{a, b, t}
}

// store31 is how a file stores the objects.
type store31 struct {
	doc, order, revs, sections, enc, filter, layout, numbers, length int
}

// dims gives the number of values of each dimension of storage.
func (s *store31) dims() []*int {
	return []*int{&s.order, &s.revs, &s.sections, &s.enc, &s.filter, &s.layout, &s.numbers, &s.length}
}

var sizes31 = []int{48, 81, 14, 2*len(econfsFew) + 1, 9, 7, 11, 3}

func (s store31) String() string {
	return fmt.Sprintf("document %d order %d revisions %d sections %d encryption %d filter %d layout %d numbers %d length %d", s.doc, s.order, s.revs, s.sections, s.enc, s.filter, s.layout, s.numbers, s.length)
}

func (s store31) number(i, n int) (num, gen int) {
	switch s.numbers {
	case 1:
		return n - i, 0
	case 2:
		return (i + 1) * 100, 0
	case 3:
		return 100000 + i, 0
	case 4:
		return i + 1, i%3 + 1
	case 5:
		return 1000 - 7*i, 65535 - i
	case 6:
		return 1 + i*i, i % 2
	case 7:
		return 8388600 + 13*i, 0
	case 8:
		return 1<<31 - 1 - i, i % 2
	case 9:
		return 16777200 + i, 255 + i
	case 10:
		return 10000000 * (i + 1), 0
	}
	return i + 1, 0
}

func renumber(v V, f func(i int) Ref) V {
	switch x := v.(type) {
	case Ref:
		return f(x.N)
	case Arr:
		o := Arr{}
		for _, e := range x {
			o = append(o, renumber(e, f))
		}
		return o
	case Dict:
		o := Dict{}
		for _, e := range x {
			o = append(o, KV{e.K, renumber(e.V, f)})
		}
		return o
	}
	return v
}

// stale is an older version of an object, whose findings must not be reported.
func stale(o lobj) lobj {
	if o.stream != nil {
		return lobj{Dict{{"Stale", ref.True}}, []byte("BT (stale) Tj ET stale();")}
	}
	return lobj{Dict{{"URI", Str("http://stale")}, {"A", Dict{{"S", Name("Launch")}, {"F", Str("stale")}}}, {"JS", Str("stale()")}}, nil}
}

// render writes the file, gives the password and what raw.pdf must hold; nil if the choice makes no sense.
func (s store31) render(d *ldoc) (doc []byte, pw string, raw map[int]robj) {
	n := len(d.objs)
	at := func(i int) Ref { num, gen := s.number(i, n); return Ref{num, gen} }
	var rev [4]int
	last := 0
	for g, r := 0, s.revs; g < 4; g, r = g+1, r/3 {
		rev[g] = r % 3
		last = max(last, rev[g])
	}
	groups := []int{0, 1, 2, 3}
	for i, k := 0, s.order%24; i < 3; i++ {
		j := k % (4 - i)
		k /= 4 - i
		groups[i], groups[i+j] = groups[i+j], groups[i]
	}
	var order []int
	for _, g := range groups {
		var l []int
		for i := range d.objs {
			if d.group[i] == g {
				l = append(l, i)
			}
		}
		for i := range l {
			if s.order >= 24 {
				order = append(order, l[len(l)-1-i])
			} else {
				order = append(order, l[i])
			}
		}
	}
	b := ref.NewBuilder()
	if s.sections == 11 { // all offsets count from behind some junk
		b.B.Reset()
		b.B.WriteString("%PDF-1.7\n")
	}
	if s.sections >= 12 { // no header, the first object has offset 0
		b.B.Reset()
	}
	streamed := func(r int) bool { return s.sections < 8 && s.sections>>uint(r)&1 == 1 || s.sections == 13 }
	var cr *ref.Crypt
	var m ref.Method
	trailer := ""
	if s.enc > 0 {
		if s.sections == 8 {
			return nil, "", nil
		}
		e := econfsFew[(s.enc-1)/2]
		m, pw = e.method(), "user"
		for i := 0; ; i++ { // raw.pdf escapes no characters, so O and U must not need it
			cr = e.crypt("user", fmt.Sprintf("owner%d", i))
			cr.Setup()
			if !strings.ContainsAny(string(cr.O)+string(cr.U), "\\()\r\n") {
				break
			}
		}
		trailer = cr.Trailer(cr.Dict(e.cf()))
		if s.enc%2 == 0 {
			b.Obj(70000, 0, cr.Dict(e.cf()))
			trailer = cr.Trailer("70000 0 R")
		}
		trailer = strings.TrimPrefix(trailer, "/Root 1 0 R")
	}
	raw = map[int]robj{}
	seps := []struct{ sep, head, stream, end string }{
		{" ", "\n", "\nstream\n", "\nendobj\n"}, {"\n", " ", "\nstream\r\n", "\nendobj\n"}, {"", " ", "stream\n", "\nendobj "}, {"\r\n", "\r\n", "\r\nstream\r\n", "\r\nendobj\r\n"},
		{" %c>>(\n", " % obj\n", " %x\nstream\n", "\n%\nendobj\n"}, {"\t \x00\f", "\n\n", " \nstream\n", "\n \nendobj\n%c\n"}, {"\r", "\r", "\rstream\r\n", "\rendobj\r"}}
	lay := seps[s.layout]
	next := 60000
	write := func(num, gen int, o lobj, record bool) {
		v := o.v
		data := o.stream
		if data != nil {
			dict := append(Dict{}, v.(Dict)...)
			if s.filter > 0 {
				st := stages[s.filter-1]
				data = st.enc(data)
				dict = append(dict, KV{"Filter", Name(st.name)})
				if st.parms != "" {
					dict = append(dict, KV{"DecodeParms", lit31(st.parms)})
				}
			}
			v = dict
		}
		if record {
			raw[num] = robj{gen, v, o.stream, false}
		}
		if cr != nil {
			v = cr.EncryptValue(m, num, gen, v)
			if data != nil {
				data = cr.Encrypt(m, num, gen, data)
			}
		}
		var length V
		if data != nil {
			switch s.length {
			case 0:
				length = Num(float64(len(data)))
			case 1:
				length = Ref{next, 0}
			}
			if length != nil {
				v = append(append(Dict{}, v.(Dict)...), KV{"Length", length})
			}
		}
		b.Pending[num] = ref.Entry{Off: b.Len(), Gen: gen, Type: 1}
		b.Max = max(b.Max, num)
		b.Text(fmt.Sprintf("%d %d obj", num, gen) + lay.head + ref.Join(ref.Tokens(v), func(int) string { return lay.sep }))
		if data != nil {
			end := "\nendstream"
			if len(data) > 0 && data[len(data)-1] == '\r' {
				end = "\r\nendstream"
			}
			b.Text(lay.stream + string(data) + end)
		}
		b.Text(lay.end)
		if _, ok := length.(Ref); ok {
			l := Num(float64(len(data)))
			b.Obj(next, 0, ref.Write(l))
			raw[next] = robj{0, l, nil, false}
			next++
		}
	}
	for r := 0; r <= last; r++ {
		for _, i := range order {
			num, gen := s.number(i, n)
			switch g := rev[d.group[i]]; {
			case g == r:
				o := d.objs[i]
				o.v = renumber(o.v, at)
				write(num, gen, o, true)
			case g > r && i%2 == 0:
				write(num, gen, stale(d.objs[i]), false)
			}
		}
		root := at(n - 1)
		t := fmt.Sprintf("/Root %d %d R /XRev %d %s", root.N, root.G, r, trailer)
		switch {
		case s.sections == 8: // no cross-reference data at all
			b.Pending = map[int]ref.Entry{}
		case s.sections == 9: // startxref is missing
			b.Table(t)
			x := b.B.String()
			b.B.Truncate(strings.LastIndex(x, "startxref"))
		case s.sections == 10: // offsets are off by one
			for k, e := range b.Pending {
				e.Off++
				b.Pending[k] = e
			}
			b.Table(t)
		case streamed(r):
			b.XrefStream(80000+r, t)
		default:
			b.Table(t)
		}
	}
	doc = b.Bytes()
	if s.sections == 11 {
		doc = append([]byte("junk\x00\xff junk\r\n"), doc...)
	}
	for r := 0; r <= last; r++ {
		if streamed(r) {
			raw[80000+r] = xrefRaw(doc, r)
		}
	}
	if s.enc > 0 && s.enc%2 == 0 {
		e := econfsFew[(s.enc-1)/2]
		raw[70000] = robj{0, lit31(cr.Dict(e.cf())), nil, false}
	}
	return doc, pw, raw
}

func storeCase(s store31) *mc.Case {
	d := docs31()[s.doc]
	doc, pw, raw := s.render(d)
	if doc == nil {
		return nil
	}
	return &mc.Case{Label: label("%v", s), Doc: doc, Run: func() mc.Result {
		r := extract(doc, pw)
		if r.Err != nil {
			return fail("Parse: %v", r.Err)
		}
		for f, want := range map[string][]string{"urls.txt": d.w.urls, "javascript.js": d.w.js, "commands.txt": d.w.cmds} {
			if got := set(trimmed(r.Lines(f))); !same(got, set(want)) {
				return fail("%s lists %q, expected %q", f, got, set(want))
			}
		}
		if m := d.files.check(r); m != "" {
			return mc.Result{Fail: m}
		}
		if got := r.Lines("contents.txt"); strings.Join(got, "\n") != strings.Join(d.text, "\n") {
			return fail("contents.txt holds %q, expected %q", got, d.text)
		}
		if m := checkRaw(r.Files["raw.pdf"], raw); m != "" {
			return mc.Result{Fail: m}
		}
		if e := r.Get("errors.txt"); e != "" {
			return fail("errors.txt holds %q", e)
		}
		return mc.Result{Outcome: mc.Digest(s.String())}
	}}
}

func init() {
	mc.Register(&mc.Prop{
		ID:        "C31",
		Technique: "exhaustive enumeration of pairs and triples of storage choices of two documents: order, revisions with stale versions, sections, encryption, filters, layout, numbering, lengths; extraction on the real code compared with what the objects hold",
		Note:      "Lines are compared as sets, contents.txt in order, raw.pdf entry by entry.",
		Scopes: func(th bool) []mc.Scope {
			k := 3
			names := []string{"order", "revisions", "sections", "encryption", "filter", "layout", "numbers", "length"}
			var l []mc.Scope
			for i := range names {
				i := i
				l = append(l, mc.Scope{Name: names[i], Bound: fmt.Sprintf("two documents, %d choices of %s with all choices of up to two further out of: %s%s", sizes31[i], names[i], strings.Join(names[i+1:], ", "), map[bool]string{false: " (every seventh combination of three)"}[th]), Gen: func(c *mc.C) *mc.Case {
					s := store31{doc: c.Choose(2)}
					d := s.dims()
					*d[i] = c.Choose(sizes31[i])
					j, sum := i, *d[i]
					for n := 1; n < k && j < len(d)-1; n++ {
						j += 1 + c.Choose(len(d)-1-j)
						*d[j] = c.Choose(sizes31[j])
						sum += *d[j]
						if n == 2 && !th && sum%7 != 0 {
							return nil
						}
						if *d[j] == 0 && j > i {
							break
						}
					}
					if c.Skip {
						return mc.Stub
					}
					return storeCase(s)
				}})
			}
			return append(l, mc.Scope{Name: "trailer keys", Bound: "a document whose objects have the entries of trailers, cross-reference streams and encryption dictionaries: all choices of order, revisions and sections with two choices of each of the others" + map[bool]string{false: " (a thirtieth)"}[th], Gen: func(c *mc.C) *mc.Case {
				s := store31{doc: 2}
				d := s.dims()
				sum := 0
				for i := range d {
					n := sizes31[i]
					if i > 2 {
						n = 2
					}
					*d[i] = c.Choose(n)
					if i < 3 && *d[i] > 0 {
						sum += *d[i] + i
					}
					if i > 2 && *d[i] == 1 {
						*d[i] = []int{3, 3, 5, 4, 2}[i-3]
						sum += i
					}
				}
				if !th && sum%32 != 0 {
					return nil
				}
				if c.Skip {
					return mc.Stub
				}
				return storeCase(s)
			}})
		},
	})
}
