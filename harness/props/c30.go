package props

import (
	"fmt"
	"math"
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"

	"verif/mc"
	"verif/ref"
)

// getter is one typed getter, on both kinds of container.
type getter struct {
	name string
	arr  func(a pdf.Array, i int) (V, bool)
	dict func(d pdf.Dictionary, k string) (V, bool)
	want func(v V) (V, bool) // of the entry's value behind all references
}

func is[T any](zero V) func(v V) (V, bool) {
	return func(v V) (V, bool) {
		if _, ok := v.(T); ok {
			return v, true
		}
		return zero, false
	}
}

func boolOf(v V) (V, bool) {
	switch v {
	case V(ref.True):
		return true, true
	case V(ref.False):
		return false, true
	}
	return false, false
}

func intOf(v V) (V, bool) {
	if n, ok := v.(Num); ok {
		return int64(math.Trunc(float64(n))), true
	}
	return int64(0), false
}

var getters = []getter{
	{"GetArray", func(a pdf.Array, i int) (V, bool) { x, ok := a.GetArray(i); return ref.From(x), ok },
		func(d pdf.Dictionary, k string) (V, bool) { x, ok := d.GetArray(k); return ref.From(x), ok }, is[Arr](Arr{})},
	{"GetBool", func(a pdf.Array, i int) (V, bool) { x, ok := a.GetBool(i); return x, ok },
		func(d pdf.Dictionary, k string) (V, bool) { x, ok := d.GetBool(k); return x, ok }, boolOf},
	{"GetBytes", func(a pdf.Array, i int) (V, bool) { x, ok := a.GetBytes(i); return Str(x), ok },
		func(d pdf.Dictionary, k string) (V, bool) { x, ok := d.GetBytes(k); return Str(x), ok }, is[Str](Str(""))},
	{"GetDictionary", func(a pdf.Array, i int) (V, bool) { x, ok := a.GetDictionary(i); return ref.From(x), ok },
		func(d pdf.Dictionary, k string) (V, bool) { x, ok := d.GetDictionary(k); return ref.From(x), ok }, is[Dict](Dict{})},
	{"GetInt", func(a pdf.Array, i int) (V, bool) { x, ok := a.GetInt(i); return int64(x), ok },
		func(d pdf.Dictionary, k string) (V, bool) { x, ok := d.GetInt(k); return int64(x), ok }, intOf},
	{"GetInt64", func(a pdf.Array, i int) (V, bool) { x, ok := a.GetInt64(i); return x, ok },
		func(d pdf.Dictionary, k string) (V, bool) { x, ok := d.GetInt64(k); return x, ok }, intOf},
	{"GetName", func(a pdf.Array, i int) (V, bool) { x, ok := a.GetName(i); return Name(x), ok },
		func(d pdf.Dictionary, k string) (V, bool) { x, ok := d.GetName(k); return Name(x), ok }, is[Name](Name(""))},
	{"GetNumber", func(a pdf.Array, i int) (V, bool) { x, ok := a.GetNumber(i); return ref.From(x), ok },
		func(d pdf.Dictionary, k string) (V, bool) { x, ok := d.GetNumber(k); return ref.From(x), ok }, is[Num](Num(0))},
	{"GetObject", func(a pdf.Array, i int) (V, bool) { x, ok := a.GetObject(i); return ref.From(x), ok },
		func(d pdf.Dictionary, k string) (V, bool) { x, ok := d.GetObject(k); return ref.From(x), ok }, func(v V) (V, bool) { return v, true }},
	{"GetString", func(a pdf.Array, i int) (V, bool) { x, ok := a.GetString(i); return Str(x), ok },
		func(d pdf.Dictionary, k string) (V, bool) { x, ok := d.GetString(k); return Str(x), ok }, is[Str](Str(""))},
}

func sameGot(a, b V) bool {
	switch a.(type) {
	case bool, int64:
		return a == b
	}
	return ref.Equal(a, b)
}

func showGot(v V) string {
	switch v.(type) {
	case bool, int64:
		return fmt.Sprint(v)
	}
	return ref.Show(v)
}

// entry30 is a container's entry: its value as written, the value behind all references, and the stream there.
type entry30 struct {
	v, end V
	stream []byte
}

// checkGetters compares all getters on all entries, existing or not, and names those that differ.
func checkGetters(a pdf.Array, es []entry30) string {
	for _, i := range append([]int{math.MinInt, math.MinInt32, -len(es) - 1, -len(es), -2, -1, len(es), len(es) + 1, cap(a), 1 << 31, 1 << 32, math.MaxInt}, ids2(len(es))...) {
		in := i >= 0 && i < len(es)
		for _, g := range getters {
			want, ok := g.want(nil)
			if g.name == "GetObject" {
				want, ok = ref.Null, false
			}
			if in {
				want, ok = g.want(es[i].end)
			}
			if got, gok := g.arr(a, i); !sameGot(got, want) || gok != ok {
				return fmt.Sprintf("%s(%d) of the array is %s, %v, expected %s, %v", g.name, i, showGot(got), gok, showGot(want), ok)
			}
		}
		want, ok := "", false
		if in {
			if _, r := es[i].v.(Ref); r {
				want, ok = string(es[i].stream), true
			}
		}
		if got, gok := a.GetStream(i); string(got) != want || gok != ok {
			return fmt.Sprintf("GetStream(%d) of the array is %s, %v, expected %q, %v", i, q(got), gok, want, ok)
		}
	}
	return ""
}

func ids2(n int) []int {
	var l []int
	for i := 0; i < n; i++ {
		l = append(l, i)
	}
	return l
}

func checkDictGetters(d pdf.Dictionary, es map[string]entry30, missing []string) string {
	ks := append([]string{}, missing...)
	for k := range es {
		ks = append(ks, k)
	}
	for _, k := range ks {
		e, in := es[k]
		for _, g := range getters {
			want, ok := g.want(nil)
			if g.name == "GetObject" {
				want, ok = ref.Null, false
			}
			if in {
				want, ok = g.want(e.end)
			}
			if got, gok := g.dict(d, k); !sameGot(got, want) || gok != ok {
				return fmt.Sprintf("%s(%q) of the dictionary is %s, %v, expected %s, %v", g.name, k, showGot(got), gok, showGot(want), ok)
			}
		}
		r, isRef := e.v.(Ref)
		want := ""
		if isRef {
			want = string(e.stream)
		}
		if got, ok := d.GetStream(k); string(got) != want || ok != isRef {
			return fmt.Sprintf("GetStream(%q) of the dictionary is %s, %v, expected %q, %v", k, q(got), ok, want, isRef)
		}
		got, ok := d.GetReference(k)
		if ok != isRef || ok && (got.Number != r.N || got.Generation != r.G) {
			return fmt.Sprintf("GetReference(%q) of the dictionary is %v, %v, expected %v, %v", k, got, ok, r, isRef)
		}
	}
	return ""
}

var values30 = []V{
	ref.True, ref.False, ref.Null, Key("other"), Key("True"), Num(0), Num(7), Num(-2), Num(7.9), Num(-7.9), Num(0.5), Num(2147483648), Num(-2147483649), Num(1e15), Num(9007199254740991),
	Str("s"), Str(""), Str("true"), Str("12"), Str("\x00\xff"), Name("N"), Name(""), Name("true"), Name("7"),
	Arr{}, Arr{Num(1)}, Arr{Arr{}, Dict{}}, Dict{}, Dict{{"A", Num(1)}}, Dict{{"A", Dict{{"B", Arr{Name("x")}}}}},
}

func init() {
	mc.Register(&mc.Prop{
		ID:        "C30",
		Technique: "exhaustive enumeration of entries of every kind in every position of arrays and dictionaries, direct or behind chains of references, plain or encrypted; every getter on every existing and missing index and key compared with a model",
		Note:      "Numbers converted to integers are within 2^53.  Arrays and dictionaries may be nil or empty where there are none.",
		Scopes: func(th bool) []mc.Scope {
			// behind puts v behind n references and gives the entry.
			behind := func(b *ref.Builder, base, n int, v V, stream []byte) entry30 {
				e := entry30{v: v, end: v, stream: stream}
				if n == 0 {
					return e
				}
				for i := 0; i < n-1; i++ {
					b.Obj(base+i, 0, rf(base+i+1))
				}
				if stream != nil {
					b.Stream(base+n-1, 0, strings.TrimSuffix(strings.TrimPrefix(ref.Write(v), "<<"), ">>"), stream)
					d := append(Dict{}, v.(Dict)...)
					e.end = append(d, KV{"Length", Num(float64(len(stream)))})
				} else {
					b.Obj(base+n-1, 0, ref.Write(v))
				}
				e.v = Ref{base, 0}
				return e
			}
			finish := func(b *ref.Builder, enc int) ([]byte, string) {
				b.Obj(300, 0, "<</Type /Catalog>>")
				if enc == 0 {
					b.Table("/Root 300 0 R")
					return b.Bytes(), ""
				}
				e := econfsFew[enc-1]
				return b.Encrypted(e.crypt("user", "owner"), e.method(), e.cf(), 900), "user"
			}
			run := func(lab string, doc []byte, pw string, arr []entry30, dict map[string]entry30, missing []string) *mc.Case {
				return &mc.Case{Label: lab, Doc: doc, Trivial: len(arr)+len(dict) == 0, Run: func() mc.Result {
					p, err := open(doc, pw)
					if err != nil {
						return fail("Load: %v", err)
					}
					a, ok := p.GetObject(1).Value.(pdf.Array)
					if !ok {
						return fail("object 1 is no array")
					}
					d, ok := p.GetObject(2).Value.(pdf.Dictionary)
					if !ok {
						return fail("object 2 is no dictionary")
					}
					for i := 0; i < 2; i++ { // answers stay the same
						if m := checkGetters(a, arr); m != "" {
							return mc.Result{Fail: m}
						}
						if m := checkDictGetters(d, dict, missing); m != "" {
							return mc.Result{Fail: m}
						}
					}
					return mc.Result{Outcome: mc.Digest(ref.Show(ref.From(a)), ref.Show(ref.From(d)))}
				}}
			}
			depths := []int{0, 1, 2, 3, 4, 10, 33, 100}
			if th {
				depths = append(depths, 5, 6, 7, 8, 9, 11, 15, 16, 17, 31, 32, 64, 65, 101)
			}
			return []mc.Scope{
				{"kinds", "30 values and a stream, direct or behind up to 100 references, at every place among up to two other entries of an array and a dictionary, plain, RC4 or AES", func(c *mc.C) *mc.Case {
					k := c.Choose(len(values30) + 2)
					n := mc.Pick(c, depths)
					before, after := c.Choose(3), c.Choose(2)
					enc := []int{0, 2, 4}[c.Choose(3)]
					if n == 0 && k >= len(values30) {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					b := ref.NewBuilder()
					var e entry30
					if k < len(values30) {
						e = behind(b, 10, n, values30[k], nil)
					} else {
						e = behind(b, 10, n, Dict{{"S", Num(1)}}, []byte([]string{"", "the stream"}[k-len(values30)]))
						if enc == 4 { // initialization vector and padded data
							e.end = Dict{{"S", Num(1)}, {"Length", Num(32)}}
						}
					}
					o := entry30{v: Str("other"), end: Str("other")}
					var l []entry30
					for i := 0; i < before; i++ {
						l = append(l, o)
					}
					l = append(l, e)
					for i := 0; i < after; i++ {
						l = append(l, o)
					}
					a, d, m := Arr{}, Dict{}, map[string]entry30{}
					for i, e := range l {
						a = append(a, e.v)
						key := []string{"A", "AB", "B", "C"}[i]
						d = append(d, KV{key, e.v})
						m[key] = e
					}
					b.Obj(1, 0, ref.Write(a))
					b.Obj(2, 0, ref.Write(d))
					doc, pw := finish(b, enc)
					return run(label("%s behind %d references, %d before, %d after, encrypted %d", ref.Show(e.end), n, before, after, enc), doc, pw, l, m, []string{"", "a", "ABC", "Length", "Missing"})
				}},
				{"ends", "all maps of four reference objects to each other, to a value, a free or a missing object, in front of eight values, as entries of an array and a dictionary", func(c *mc.C) *mc.Case {
					g := &graph24{alias: map[int]int{}, has: map[int]bool{20: true}}
					for i := 30; i < 34; i++ {
						g.alias[i] = mc.Pick(c, []int{30, 31, 32, 33, 20, 99, 98})
					}
					k := c.Choose(9)
					if c.Skip {
						return mc.Stub
					}
					b := ref.NewBuilder()
					v := []V{Num(5), Str("s"), Name("n"), Arr{Num(1)}, Dict{{"D", Num(2)}}, ref.True, ref.False, ref.Null, Dict{{"S", Num(1)}}}[k]
					e := entry30{end: v}
					if k == 8 {
						e = behind(b, 20, 1, v, []byte("the stream"))
					} else {
						b.Obj(20, 0, ref.Write(v))
					}
					for i := 30; i < 34; i++ {
						b.Obj(i, 0, rf(g.alias[i]))
					}
					b.Free(98, 1)
					a, d := Arr{}, Dict{}
					var l []entry30
					m := map[string]entry30{}
					for i := 30; i < 34; i++ {
						x := entry30{v: Ref{i, 0}, end: ref.Null}
						if g.end(i) == 20 {
							x.end, x.stream = e.end, e.stream
						}
						l = append(l, x)
						a = append(a, x.v)
						key := fmt.Sprintf("K%d", i)
						d = append(d, KV{key, x.v})
						m[key] = x
					}
					b.Obj(1, 0, ref.Write(a))
					b.Obj(2, 0, ref.Write(d))
					doc, pw := finish(b, 0)
					return run(label("references %v value %s", g.alias, ref.Show(v)), doc, pw, l, m, []string{"K"})
				}},
				{"containers", "all arrays of up to four entries out of ten, and the dictionaries with these entries under all choices of keys", func(c *mc.C) *mc.Case {
					b := ref.NewBuilder()
					kinds := []entry30{behind(b, 0, 0, Num(4), nil), behind(b, 0, 0, Str("x"), nil), behind(b, 0, 0, Name("y"), nil), behind(b, 0, 0, Arr{Num(1), Num(2)}, nil), behind(b, 0, 0, Dict{{"Z", Num(9)}}, nil), behind(b, 0, 0, ref.True, nil),
						behind(b, 10, 1, Num(-4), nil), behind(b, 20, 2, Dict{{"S", Name("t")}}, []byte("data")), behind(b, 30, 1, Arr{Ref{10, 0}}, nil), {v: Ref{99, 0}, end: ref.Null}}
					var l []entry30
					for len(l) < 4 {
						k := c.Choose(len(kinds) + 1)
						if k == len(kinds) {
							break
						}
						l = append(l, kinds[k])
					}
					names := [][]string{{"A", "B", "C", "D"}, {"Type", "type", "Typ", "Types"}, {"", "A B", "A#B", "\x00"}, {"Length", "Filter", "Kids", "Names"}}[c.Choose(4)]
					if c.Skip {
						return mc.Stub
					}
					a, d, m := Arr{}, Dict{}, map[string]entry30{}
					for i, e := range l {
						a = append(a, e.v)
						d = append(d, KV{names[i], e.v})
						m[names[i]] = e
					}
					b.Obj(1, 0, ref.Write(a))
					b.Obj(2, 0, ref.Write(d))
					doc, pw := finish(b, 0)
					return run(label("%s keys %q", ref.Show(a), names), doc, pw, l, m, names[len(l):])
				}},
				{"large", "arrays and dictionaries of 1 to 5000 (direct ones up to 140000) entries, direct or by reference", func(c *mc.C) *mc.Case {
					n := mc.Pick(c, []int{1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 100001, 131073, 140000})
					refs := c.Bool()
					if refs && n > 5000 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					b := ref.NewBuilder()
					a, d, m := Arr{}, Dict{}, map[string]entry30{}
					var l []entry30
					for i := 0; i < n; i++ {
						depth := 0
						if refs && i%3 > 0 {
							depth = i % 3
						}
						e := behind(b, 1000+3*i, depth, []V{Num(float64(i)), Str(fmt.Sprint(i)), Name(fmt.Sprint("n", i))}[i/3%3], nil)
						l = append(l, e)
						a = append(a, e.v)
						k := fmt.Sprint("K", i)
						d = append(d, KV{k, e.v})
						m[k] = e
					}
					b.Obj(1, 0, ref.Write(a))
					b.Obj(2, 0, ref.Write(d))
					doc, pw := finish(b, 0)
					return run(label("%d entries, by reference %v", n, refs), doc, pw, l, m, []string{fmt.Sprint("K", n)})
				}},
				{"trees", "GetNameTreeMap and GetPageTree of all ordered trees of up to 5 nodes, with none to two entries in leaves and inner nodes, arrays and kids direct or by reference: the entries and nodes in document order", func(c *mc.C) *mc.Case {
					root := &pnode{}
					left := 5
					if !th {
						left = 4
					}
					ptree(c, root, &left)
					per, inner := c.Choose(3), c.Bool()
					ind, chain := c.Bool(), c.Bool()
					pages := c.Bool()
					if pages && (per > 0 || inner) {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					d := newActDoc()
					n := 0
					var want Arr
					var build func(x *pnode) string
					build = func(x *pnode) string {
						n++
						id := n
						if pages {
							want = append(want, Num(float64(id)))
						}
						t := ""
						if len(x.kids) == 0 || inner {
							for i := 0; i < per; i++ {
								t += fmt.Sprintf("(k%d.%d) %d ", id, i, id)
								want = append(want, Str(fmt.Sprintf("k%d.%d", id, i)), Num(float64(id)))
							}
							t = "/Names " + d.val(ind, "["+t+"]")
						}
						if len(x.kids) > 0 {
							k := ""
							for _, y := range x.kids {
								k += d.val(pages || ind || chain, build(y)) + " "
							}
							t += " /Kids " + d.val(ind, "["+k+"]")
						}
						t = fmt.Sprintf("<</Id %d %s>>", id, t)
						if chain {
							t = d.obj(d.obj(t))
						}
						return t
					}
					t := build(root)
					d.b.Obj(1, 0, "<</Tree "+t+">>")
					d.b.Table("/Root 1 0 R")
					doc := d.b.Bytes()
					return &mc.Case{Label: label("tree %s pages %v per node %d inner %v indirect %v chains %v", root.shape(), pages, per, inner, ind, chain), Doc: doc, Run: func() mc.Result {
						p, err := open(doc, "")
						if err != nil {
							return fail("Load: %v", err)
						}
						o, ok := p.GetObject(1).Value.(pdf.Dictionary)
						if !ok {
							return fail("object 1 is no dictionary")
						}
						for i := 0; i < 2; i++ {
							got := Arr{}
							if pages {
								l, ok := o.GetPageTree("Tree")
								if !ok {
									return fail("GetPageTree finds no tree")
								}
								for _, x := range l {
									id, _ := x.GetObject("Id")
									got = append(got, ref.From(id))
								}
							} else {
								got, _ = ref.From(o.GetNameTreeMap("Tree")).(Arr)
							}
							if !ref.Equal(got, append(Arr{}, want...)) {
								return fail("the tree gives %s, expected %s", ref.Show(got), ref.Show(want))
							}
							if l, ok := o.GetPageTree("None"); ok || len(l) > 0 {
								return fail("GetPageTree gives %d nodes, %v for a missing entry", len(l), ok)
							}
							if l := o.GetNameTreeMap("None"); len(l) > 0 {
								return fail("GetNameTreeMap gives %d elements for a missing entry", len(l))
							}
						}
						return mc.Result{Outcome: mc.Digest(ref.Show(want))}
					}}
				}},
			}
		},
	})
}
