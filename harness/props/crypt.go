package props

import (
	"fmt"
	"strings"

	"verif/mc"
	"verif/ref"
)

// econf is one way to encrypt a document.
type econf struct {
	v, r, bits int
	kind       string // RC4 or AES
	noMeta     bool
}

func (e econf) String() string {
	return fmt.Sprintf("V%d R%d %d bits %s noMeta %v", e.v, e.r, e.bits, e.kind, e.noMeta)
}

func (e econf) crypt(user, owner string) *ref.Crypt {
	return &ref.Crypt{V: e.v, R: e.r, Bits: e.bits, User: user, Owner: owner, P: -44, ID: "\x01\x02id of document\xfe\xff", Meta: !e.noMeta}
}

func (e econf) method() ref.Method { return ref.Method{Kind: e.kind, Len: e.bits / 8} }

func (e econf) cf() string {
	if e.v != 4 {
		return ""
	}
	m := "V2"
	if e.kind == "AES" {
		m = "AESV2"
	}
	return fmt.Sprintf("/CF <</StdCF <</CFM /%s /AuthEvent /DocOpen /Length %d>>>> /StmF /StdCF /StrF /StdCF", m, e.bits/8)
}

var econfs = func() []econf {
	l := []econf{{1, 2, 40, "RC4", false}, {1, 3, 40, "RC4", false}}
	for b := 40; b <= 128; b += 8 {
		l = append(l, econf{2, 3, b, "RC4", false})
	}
	return append(l, econf{4, 4, 128, "RC4", false}, econf{4, 4, 128, "AES", false}, econf{4, 4, 128, "RC4", true}, econf{4, 4, 128, "AES", true})
}()

// a few typical ones
var econfsFew = []econf{{1, 2, 40, "RC4", false}, {2, 3, 128, "RC4", false}, {2, 3, 56, "RC4", false}, {4, 4, 128, "AES", false}, {4, 4, 128, "RC4", true}}

// eobj is one object of an encrypted document.
type eobj struct {
	n, g   int
	v      V
	stream []byte // payload as the caller sees it; nil for none
	enc    []byte // payload before encryption, if filters apply
	hex    bool
}

// edoc builds an encrypted document with the objects; form: 0 Encrypt by reference, 1 direct, 2 by reference with
// a cross-reference stream, 3 direct in a cross-reference stream.
func edoc(cr *ref.Crypt, cf string, m ref.Method, form int, objs []eobj) []byte {
	return edocWith(cr, cf, m, form, objs, nil)
}

// edocWith lets the trailer be changed.
func edocWith(cr *ref.Crypt, cf string, m ref.Method, form int, objs []eobj, change func(b *ref.Builder, tr string) string) []byte {
	b := ref.NewBuilder()
	for _, o := range objs {
		v := cr.EncryptValue(m, o.n, o.g, o.v)
		var body string
		if o.hex {
			t := ref.Tokens(v)
			for i := range t {
				if t[i][0] == '(' {
					r := ref.Parse([]byte(t[i]))
					t[i] = ref.HexLit(string(r.(Str)))
				}
			}
			body = strings.Join(t, " ")
		} else {
			body = ref.Write(v)
		}
		if o.stream != nil {
			p := o.enc
			if p == nil {
				p = o.stream
			}
			body = ref.StreamBody(enc3(body), cr.Encrypt(m, o.n, o.g, p))
		}
		b.Obj(o.n, o.g, body)
	}
	d := cr.Dict(cf)
	t := cr.Trailer(d)
	if form != 1 && form != 3 {
		b.Obj(9000, 0, d)
		t = cr.Trailer("9000 0 R")
	}
	if change != nil {
		t = change(b, t)
	}
	if form >= 2 {
		b.XrefStream(9001, t)
	} else {
		b.Table(t)
	}
	return b.Bytes()
}

// checkObjs compares values, streams and generations.
func checkObjs(lab string, doc []byte, password string, objs []eobj) *mc.Case {
	return &mc.Case{Label: lab, Doc: doc, Run: func() mc.Result {
		p, err := open(doc, password)
		if err != nil {
			return fail("Load: %v", err)
		}
		var seen []string
		for _, o := range objs {
			got := p.GetObject(o.n)
			w := o.v
			gv := ref.From(got.Value)
			if o.stream != nil {
				d, _ := gv.(Dict)
				gv = without(d, "Length")
			}
			if !ref.Equal(gv, w) {
				return fail("object %d %d reads as %s, expected %s", o.n, o.g, ref.Show(gv), ref.Show(w))
			}
			if string(got.Stream) != string(o.stream) {
				return fail("stream of object %d %d is %s, expected %s%s", o.n, o.g, q(got.Stream), q(o.stream), diffAt(got.Stream, o.stream))
			}
			seen = append(seen, ref.Show(gv))
		}
		return mc.Result{Outcome: mc.Digest(seen...)}
	}}
}

func without(d Dict, keys ...string) Dict {
	out := Dict{}
	for _, e := range d {
		drop := false
		for _, k := range keys {
			drop = drop || e.K == k
		}
		if !drop {
			out = append(out, e)
		}
	}
	return out
}

// scatter moves the values that pick chooses by their position in writing order out of v; put stores one and gives
// the reference to it. It gives the number of positions, too.
func scatter(v V, pick func(i int) bool, put func(v V) V) (V, int) {
	i := 0
	var walk func(v V, top bool) V
	walk = func(v V, top bool) V {
		k := i
		i++
		switch x := v.(type) {
		case Arr:
			o := Arr{}
			for _, e := range x {
				o = append(o, walk(e, false))
			}
			v = o
		case Dict:
			o := Dict{}
			for _, e := range x {
				o = append(o, KV{e.K, walk(e.V, false)})
			}
			v = o
		}
		if !top && pick(k) {
			return put(v)
		}
		return v
	}
	w := walk(v, true)
	return w, i
}

// trailer15 spreads the encryption dictionary and the file identifier over further objects, behind chains of
// references of the given length.
func trailer15(b *ref.Builder, tr string, chain int, pick func(i int) bool) (string, int) {
	next := 9100
	v, n := scatter(ref.Parse([]byte("<<"+tr+">>")), pick, func(v V) V {
		b.Obj(next, 0, ref.Write(v))
		next++
		for i := 0; i < chain; i++ {
			b.Obj(next, 0, fmt.Sprintf("%d 0 R", next-1))
			next++
		}
		return Ref{next - 1, 0}
	})
	s := strings.TrimSpace(ref.Write(v))
	return strings.TrimSuffix(strings.TrimPrefix(s, "<<"), ">>"), n
}
