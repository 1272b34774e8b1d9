package props

import (
	"crypto/md5"
	"fmt"
	"sort"
	"strings"

	"verif/mc"
	"verif/ref"
)

const zeroHash = "00000000000000000000000000000000"

// findings is what a document's actions must yield, as sets.
type findings struct{ urls, js, files, cmds []string }

func (f *findings) file(s string) { f.files = append(f.files, zeroHash+":"+s) }

// actKind writes the entries of one kind of action with marker n; v puts a value behind a reference if asked to.
type actKind struct {
	name string
	js   bool
	f    func(a *actDoc, n int, v func(string) string, w *findings) string
}

// actDoc collects objects.
type actDoc struct {
	b    *ref.Builder
	next int
	raw  []func()
}

func (d *actDoc) obj(body string) string {
	n := d.next
	d.next++
	d.b.Obj(n, 0, body)
	return fmt.Sprintf("%d 0 R", n)
}

func (d *actDoc) stream(dict string, data []byte) string {
	return d.obj(ref.StreamBody(dict, data))
}

// val gives the text itself or a reference to it.
func (d *actDoc) val(ind bool, body string) string {
	if ind {
		return d.obj(body)
	}
	return body
}

var actKinds = []actKind{
	{"URI", false, func(a *actDoc, n int, v func(string) string, w *findings) string {
		u := fmt.Sprintf("http://u%d/?a=(b)&c", n)
		w.urls = append(w.urls, u)
		return "/S /URI /IsMap false /URI " + v(ref.Lit(u))
	}},
	{"JS", true, func(a *actDoc, n int, v func(string) string, w *findings) string {
		s := fmt.Sprintf("app.alert(\"s%d\");", n)
		w.js = append(w.js, s)
		return "/S /JavaScript /JS " + v(ref.Lit(s))
	}},
	{"JS stream", true, func(a *actDoc, n int, v func(string) string, w *findings) string {
		s := fmt.Sprintf("var t%d = 1;", n)
		w.js = append(w.js, s)
		return "/S /JavaScript /JS " + v(a.stream("", []byte(s)))
	}},
	{"JS coded stream", true, func(a *actDoc, n int, v func(string) string, w *findings) string {
		s := fmt.Sprintf("var z%d = '>>';", n)
		w.js = append(w.js, s)
		return "/S /JavaScript /JS " + v(a.stream("/Filter /FlateDecode", ref.Zlib([]byte(s), 9)))
	}},
	{"Launch F", false, func(a *actDoc, n int, v func(string) string, w *findings) string {
		s := fmt.Sprintf("/c/run%d.exe", n)
		w.file(s)
		w.cmds = append(w.cmds, s)
		return "/S /Launch /NewWindow true /F " + v(ref.Lit(s))
	}},
	{"Launch spec", false, func(a *actDoc, n int, v func(string) string, w *findings) string {
		s := fmt.Sprintf("spec%d.exe", n)
		w.file(s)
		w.cmds = append(w.cmds, s)
		return "/S /Launch /F " + v("<</Type /Filespec /F "+ref.Lit(s)+">>")
	}},
	{"Launch Win", false, func(a *actDoc, n int, v func(string) string, w *findings) string {
		s := fmt.Sprintf("win%d.exe", n)
		w.file(s)
		w.cmds = append(w.cmds, s+" /c echo "+fmt.Sprint(n))
		return "/S /Launch /Win " + v("<</F "+ref.Lit(s)+" /P "+ref.Lit("/c echo "+fmt.Sprint(n))+">>")
	}},
	{"Launch Win F", false, func(a *actDoc, n int, v func(string) string, w *findings) string {
		s := fmt.Sprintf("wf%d.exe", n)
		w.file(s)
		w.cmds = append(w.cmds, s)
		return "/S /Launch /Win " + v("<</F "+ref.Lit(s)+" /O (open)>>")
	}},
	{"Launch F Win", false, func(a *actDoc, n int, v func(string) string, w *findings) string {
		s, t := fmt.Sprintf("unix%d", n), fmt.Sprintf("dos%d.com", n)
		w.file(s)
		w.file(t)
		w.cmds = append(w.cmds, s, t+" -p")
		return "/S /Launch /F " + v(ref.Lit(s)) + " /Win " + v("<</F "+ref.Lit(t)+" /P (-p)>>")
	}},
	{"GoToR F", false, func(a *actDoc, n int, v func(string) string, w *findings) string {
		s := fmt.Sprintf("../remote%d.pdf", n)
		w.file(s)
		return "/S /GoToR /D [0 /Fit] /F " + v(ref.Lit(s))
	}},
	{"GoToR spec", false, func(a *actDoc, n int, v func(string) string, w *findings) string {
		s := fmt.Sprintf("remote%d spec.pdf", n)
		w.file(s)
		return "/S /GoToR /D (x) /F " + v("<</Type /Filespec /F "+ref.HexLit(s)+">>")
	}},
	{"ImportData", false, func(a *actDoc, n int, v func(string) string, w *findings) string {
		s := fmt.Sprintf("data%d.fdf", n)
		w.file(s)
		return "/S /ImportData /F " + v("<</F "+v(ref.Lit(s))+">>")
	}},
	{"SubmitForm", false, func(a *actDoc, n int, v func(string) string, w *findings) string {
		u := fmt.Sprintf("https://submit%d", n)
		w.urls = append(w.urls, u)
		return "/S /SubmitForm /Flags 4 /F " + v("<</Type /Filespec /FS /URL /F "+v(ref.Lit(u))+">>")
	}},
	{"Launch UF", false, func(a *actDoc, n int, v func(string) string, w *findings) string {
		s := fmt.Sprintf("uf%d.exe", n)
		w.file(s)
		w.cmds = append(w.cmds, s)
		return "/S /Launch /F " + v("<</Type /Filespec /"+[]string{"UF", "DOS", "Mac", "Unix"}[n%4]+" "+v(ref.Lit(s))+">>")
	}},
	{"Launch embedded", false, func(a *actDoc, n int, v func(string) string, w *findings) string {
		s, data := fmt.Sprintf("embedded%d.exe", n), fmt.Sprintf("MZ%d", n)
		w.files = append(w.files, fmt.Sprintf("%x:%s", md5.Sum([]byte(data)), s))
		w.cmds = append(w.cmds, s)
		return "/S /Launch /F " + v("<</Type /Filespec /F "+v(ref.Lit(s))+" /EF "+v("<</F "+a.stream("/Type /EmbeddedFile", []byte(data))+">>")+">>")
	}},
	{"Rendition file", false, func(a *actDoc, n int, v func(string) string, w *findings) string {
		s, data := fmt.Sprintf("clip%d", n), fmt.Sprintf("video%d", n)
		w.files = append(w.files, fmt.Sprintf("%x:%s", md5.Sum([]byte(data)), s))
		j := fmt.Sprintf("q%d()", n)
		w.js = append(w.js, j)
		return "/S /Rendition /F " + v("<</F "+v(ref.Lit(s))+" /EF "+v("<</UF "+a.stream("/Type /EmbeddedFile /Filter /ASCIIHexDecode", ref.HexEncode([]byte(data), true))+">>")+">>") + " /JS " + v(ref.Lit(j))
	}},
	{"GoToE", false, func(a *actDoc, n int, v func(string) string, w *findings) string {
		s := fmt.Sprintf("outer%d.pdf", n)
		w.file(s)
		return "/S /GoToE /T <</R /C /N (x)>> /F " + v("<</F "+v(ref.Lit(s))+" /UF (\xfe\xff\x00x)>>")
	}},
	{"Rendition", true, func(a *actDoc, n int, v func(string) string, w *findings) string {
		s := fmt.Sprintf("r%d()", n)
		w.js = append(w.js, s)
		return "/S /Rendition /OP 0 /JS " + v(ref.Lit(s))
	}},
	{"GoTo", false, func(a *actDoc, n int, v func(string) string, w *findings) string {
		return "/S /GoTo /D [3 0 R /XYZ null null 0]"
	}},
	{"Named", false, func(a *actDoc, n int, v func(string) string, w *findings) string { return "/S /Named /N /NextPage" }},
}

// slots are the places of the skeleton document that attachments fill.
type slots struct{ catalog, page, annots, fields, outline, other string }

// attachments put the action's text (or a reference to it) somewhere; ind asks for indirect containers.
var attachments = []struct {
	name string
	js   bool // scripts only
	f    func(d *actDoc, s *slots, a string, v func(string) string)
}{
	{"annotation", false, func(d *actDoc, s *slots, a string, v func(string) string) {
		s.annots += v("<</Type /Annot /Subtype /Link /Rect [0 0 1 1] /A "+a+">>") + " "
	}},
	{"OpenAction", false, func(d *actDoc, s *slots, a string, v func(string) string) {
		if strings.Contains(s.catalog, "/OpenAction") {
			s.other += v("<</OpenAction "+a+">>") + " "
			return
		}
		s.catalog += " /OpenAction " + a
	}},
	{"catalog AA", false, func(d *actDoc, s *slots, a string, v func(string) string) {
		if strings.Contains(s.catalog, "/AA") {
			s.other += v("<</AA "+v("<</WC "+a+">>")+">>") + " "
			return
		}
		s.catalog += " /AA " + v("<</WC "+a+">>")
	}},
	{"page AA", false, func(d *actDoc, s *slots, a string, v func(string) string) {
		if strings.Contains(s.page, "/AA") {
			s.other += v("<</AA "+v("<</O "+a+">>")+">>") + " "
			return
		}
		s.page += " /AA " + v("<</O <</S /Named>> /C "+a+" /X 5>>")
	}},
	{"annotation AA", false, func(d *actDoc, s *slots, a string, v func(string) string) {
		s.annots += v("<</Subtype /Widget /A <</S /GoTo>> /AA "+v("<</E "+a+" /D <</S /Named>>>>")+">>") + " "
	}},
	{"field", false, func(d *actDoc, s *slots, a string, v func(string) string) {
		s.fields += v("<</FT /Tx /T (t) /Kids ["+v("<</AA "+v("<</K "+a+">>")+">>")+"]>>") + " "
	}},
	{"outline", false, func(d *actDoc, s *slots, a string, v func(string) string) {
		s.outline = d.obj("<</Title (t) /A " + a + " /Next " + func() string {
			if s.outline == "" {
				return "null"
			}
			return s.outline
		}() + ">>")
	}},
	{"Next", false, func(d *actDoc, s *slots, a string, v func(string) string) {
		s.annots += v("<</A "+v("<</S /GoTo /Next "+a+">>")+">>") + " "
	}},
	{"Next array", false, func(d *actDoc, s *slots, a string, v func(string) string) {
		s.annots += v("<</A "+v("<</S /GoTo /Next "+v("[<</S /Named>> "+a+" null]")+">>")+">>") + " "
	}},
	{"nested", false, func(d *actDoc, s *slots, a string, v func(string) string) {
		s.other += "[[" + v("[<</X <</Y ["+v("<</A "+a+">>")+"]>>>>]") + "]] "
	}},
	{"stream dictionary", false, func(d *actDoc, s *slots, a string, v func(string) string) {
		s.other += d.stream("/Type /XObject /Subtype /Form /A "+v(a), []byte("q Q")) + " "
	}},
	{"stream AA", false, func(d *actDoc, s *slots, a string, v func(string) string) {
		s.other += d.stream("/Filter /FlateDecode /PieceInfo "+v("<</AA "+v("<</O "+a+">>")+">>"), ref.Zlib([]byte("q Q q Q"), 6)) + " "
	}},
	{"script tree", true, func(d *actDoc, s *slots, a string, v func(string) string) {
		t := "/Names " + v("<</JavaScript "+v("<</Names "+v("[(n) "+a+"]")+">>")+">>")
		if strings.Contains(s.catalog, "/Names") {
			s.other += v("<<"+t+">>") + " "
			return
		}
		s.catalog += " " + t
	}},
}

// finish writes the skeleton around the slots.
func (s *slots) finish(d *actDoc) []byte {
	o := ""
	if s.outline != "" {
		o = "/Outlines " + d.obj("<</First "+s.outline+">>")
	}
	b := d.b
	b.Obj(1, 0, "<</Type /Catalog /Pages 2 0 R "+o+" /AcroForm <</Fields ["+s.fields+"]>> "+s.catalog+" /PieceInfo ["+s.other+"]>>")
	b.Obj(2, 0, "<</Type /Pages /Kids [3 0 R] /Count 1>>")
	b.Obj(3, 0, "<</Type /Page /Parent 2 0 R /Annots ["+s.annots+"]"+s.page+">>")
	b.Table("/Root 1 0 R")
	return b.Bytes()
}

func newActDoc() *actDoc { return &actDoc{b: ref.NewBuilder(), next: 10} }

// deep puts every value of a dictionary, and of those in it, behind a reference.
func (d *actDoc) deep(v V) string {
	switch x := v.(type) {
	case Dict:
		t := ""
		for _, e := range x {
			t += ref.Write(Name(e.K)) + " " + d.obj(d.deep(e.V)) + " "
		}
		return "<<" + t + ">>"
	case Arr:
		t := ""
		for _, e := range x {
			t += d.obj(d.deep(e)) + " "
		}
		return "[" + t + "]"
	}
	return ref.Write(v)
}

func trimmed(l []string) []string {
	var o []string
	for _, s := range l {
		o = append(o, strings.TrimRight(s, " "))
	}
	return o
}

func (w *findings) check(r *Report) string {
	for _, x := range []struct {
		name string
		want []string
	}{{"urls.txt", w.urls}, {"javascript.js", w.js}, {"files.txt", w.files}, {"commands.txt", w.cmds}} {
		got, want := set(trimmed(r.Lines(x.name))), set(x.want)
		if !same(got, want) {
			return fmt.Sprintf("%s lists %q, expected %q", x.name, got, want)
		}
	}
	return ""
}

func actCase(lab string, doc []byte, password string, w findings) *mc.Case {
	return &mc.Case{Label: lab, Doc: doc, Trivial: len(w.urls)+len(w.js)+len(w.files)+len(w.cmds) == 0, Run: func() mc.Result {
		r := extract(doc, password)
		if r.Err != nil {
			return fail("Parse: %v", r.Err)
		}
		if m := w.check(r); m != "" {
			return mc.Result{Fail: m}
		}
		all := append(append(append(append([]string{}, w.urls...), w.js...), w.files...), w.cmds...)
		sort.Strings(all)
		return mc.Result{Outcome: mc.Digest(all...)}
	}}
}

// followUps is a tree of follow-up actions.
func followUps(c *mc.C, d *actDoc, w *findings, n *int, left *int, lab *string) string {
	*n++
	k := actKinds[c.Choose(5)*3%len(actKinds)]
	inner := c.Bool()
	me := *n
	var kids []string
	for *left > 0 && c.Bool() {
		*left--
		*lab += "("
		kids = append(kids, followUps(c, d, w, n, left, lab))
		*lab += ")"
	}
	next := ""
	switch {
	case len(kids) == 1 && !inner:
		next = " /Next " + kids[0]
	case len(kids) > 0:
		next = " /Next " + d.val(inner, "["+strings.Join(kids, " ")+"]")
	}
	*lab += k.name
	t := "<<" + k.f(d, me, func(s string) string { return d.val(inner, s) }, w) + next + ">>"
	if inner {
		*lab += "@"
	}
	return d.val(inner, t)
}

func init() {
	mc.Register(&mc.Prop{
		ID:        "C20",
		Technique: "exhaustive enumeration of action kinds, attachment points, nestings and indirections; full extraction on the real code, the sets of reported lines compared with the generator's model",
		Note:      "Lines are compared as sets (map iteration order and repeated mention are left open), trailing blanks of commands.txt ignored.",
		Scopes: func(th bool) []mc.Scope {
			nf := 2
			if th {
				nf = 3
			}
			usable := func(k actKind, js bool) bool { return !js || k.js }
			return []mc.Scope{
				{"single", "every action kind x attachment point x direct or referenced action, containers and inner values (the outer one or every value of the action), each also in an encrypted document", func(c *mc.C) *mc.Case {
					k := mc.Pick(c, actKinds)
					at := mc.Pick(c, attachments)
					var bit [3]bool
					for i := range bit {
						bit[i] = c.Bool()
					}
					crypt := c.Choose(3)
					deep := c.Bool()
					if !usable(k, at.js) {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					d := newActDoc()
					s := &slots{}
					var w findings
					a := "<</Type /Action " + k.f(d, 7, func(x string) string { return d.val(bit[0], x) }, &w) + ">>"
					if deep { // also the names, flags and so on
						a = d.deep(ref.Parse([]byte(a)))
					}
					a = d.val(bit[1], a)
					at.f(d, s, a, func(x string) string { return d.val(bit[2], x) })
					doc := s.finish(d)
					pw := ""
					if crypt > 0 {
						pw = "secret"
						e := econfsFew[1]
						if crypt == 2 {
							e = econfsFew[3]
						}
						doc = d.b.Encrypted(e.crypt(pw, "owner"), e.method(), e.cf(), 900)
					}
					return actCase(label("%s at %s, value/action/container by reference %v, everything %v, encrypted %d", k.name, at.name, bit, deep, crypt), doc, pw, w)
				}},
				{"pairs", "every pair of attachment points x pairs of action kinds (thorough: all, quick: a spread) x all direct or all by reference", func(c *mc.C) *mc.Case {
					i, j := c.Choose(len(attachments)), c.Choose(len(attachments))
					k, l := c.Choose(len(actKinds)), c.Choose(len(actKinds))
					bit := c.Choose(4)
					if !th && (k+l+i+j)%3 != 0 {
						return nil
					}
					x, y := attachments[i], attachments[j]
					if !usable(actKinds[k], x.js) || !usable(actKinds[l], y.js) {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					d := newActDoc()
					s := &slots{}
					var w findings
					v := func(m string) string { return d.val(bit&1 == 1, m) }
					u := func(m string) string { return d.val(bit&2 == 2, m) }
					x.f(d, s, u("<<"+actKinds[k].f(d, 1, v, &w)+">>"), v)
					y.f(d, s, v("<<"+actKinds[l].f(d, 2, u, &w)+">>"), u)
					return actCase(label("%s at %s, %s at %s, indirection %d", actKinds[k].name, x.name, actKinds[l].name, y.name, bit), s.finish(d), "", w)
				}},
				{"triggers", "every pair out of 23 trigger names in one additional-actions dictionary x every subset of A, OpenAction, Next and a script tree beside it x container x direct or by reference", func(c *mc.C) *mc.Case {
					names := []string{"E", "X", "D", "U", "Fo", "Bl", "PO", "PC", "PV", "PI", "O", "C", "K", "F", "V", "WC", "WS", "DS", "WP", "DP", "A", "Z9", "Next"}
					i := c.Choose(len(names))
					j := c.Choose(len(names))
					beside := c.Choose(16)
					where := c.Choose(4)
					ind := c.Bool()
					if i > j || !th && (i+j+beside+where)%4 != 0 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					d := newActDoc()
					s := &slots{}
					var w findings
					n := 0
					act := func(k int) string {
						n++
						k = []int{0, 1, 4, 6, 9, 12}[k%6]
						return d.val(ind, "<<"+actKinds[k].f(d, n, func(s string) string { return s }, &w)+">>")
					}
					t := "/" + names[i] + " " + act(i)
					if i != j {
						t += " /" + names[j] + " " + act(j)
					}
					t = "/AA " + d.val(ind, "<<"+t+">>")
					for b, k := range []string{"/A ", "/OpenAction ", "/Next "} {
						if beside>>b&1 == 1 {
							t += k + act(i+j+b)
						}
					}
					if beside>>3 == 1 {
						t += "/Names <</JavaScript <</Names [(n) " + act(1) + "]>>>>"
					}
					switch where {
					case 0:
						s.catalog = t
					case 1:
						s.page = t
					case 2:
						s.annots = d.val(ind, "<</Subtype /Widget "+t+">>")
					case 3:
						s.other = "[" + d.val(ind, "<<"+t+">>") + "]"
					}
					return actCase(label("%s %s beside %d in %d by reference %v", names[i], names[j], beside, where, ind), s.finish(d), "", w)
				}},
				{"follow-up", fmt.Sprintf("all ordered trees of up to %d follow-up actions below a first one at three attachment points, 5 action kinds, each node direct or by reference, Next as dictionary or array", nf), func(c *mc.C) *mc.Case {
					d := newActDoc()
					s := &slots{}
					var w findings
					n, left := 0, nf
					lab := ""
					at := attachments[c.Choose(3)]
					if !th && nf > 1 && at.name == "catalog AA" {
						return nil
					}
					a := followUps(c, d, &w, &n, &left, &lab)
					if c.Skip {
						return mc.Stub
					}
					at.f(d, s, a, func(x string) string { return x })
					return actCase(label("%s %s", at.name, lab), s.finish(d), "", w)
				}},
				{"nesting", "an annotation with an action below every word of up to 4 containers (array, dictionary, reference)", func(c *mc.C) *mc.Case {
					ws := word(c, []string{"a", "d", "r"}, 4)
					k := mc.Pick(c, actKinds[:13])
					d := newActDoc()
					s := &slots{}
					var w findings
					x := "<</A <<" + k.f(d, 3, func(x string) string { return x }, &w) + ">>>>"
					for i := len(ws) - 1; i >= 0; i-- {
						switch ws[i] {
						case "a":
							x = "[0 " + x + " (s)]"
						case "d":
							x = "<</K " + x + " /L 1>>"
						case "r":
							x = d.obj(x)
						}
					}
					s.other = x
					return actCase(label("%s in %v", k.name, ws), s.finish(d), "", w)
				}},
				{"other keys", "an annotation with an action below each of 500 entry names that documents use, directly, in an array, by reference or by a reference in an array, in a dictionary or a stream's dictionary", func(c *mc.C) *mc.Case {
					key := mc.Pick(c, stdKeys)
					form, stream := c.Choose(4), c.Bool()
					k := mc.Pick(c, actKinds[:13])
					if key == "XFA" || key == "JS" || stream && (key == "Filter" || key == "DecodeParms" || key == "Length") {
						return nil // read as forms, scripts and parameters
					}
					if c.Skip {
						return mc.Stub
					}
					d := newActDoc()
					s := &slots{}
					var w findings
					x := "<</A <<" + k.f(d, 3, func(x string) string { return x }, &w) + ">>>>"
					switch form {
					case 1:
						x = "[" + x + "]"
					case 2:
						x = d.obj(x)
					case 3:
						x = "[ " + d.obj(x) + "]"
					}
					if stream {
						s.other = d.stream("/"+key+" "+x, []byte("data"))
					} else {
						s.other = "<</" + key + " " + x + ">>"
					}
					return actCase(label("/%s form %d stream %v %s", key, form, stream, k.name), s.finish(d), "", w)
				}},
				{"other types", "an annotation with an action, each of 150 values that documents use for Type, Subtype or S in the annotation, in the dictionary above it or (not S) in the action", func(c *mc.C) *mc.Case {
					t := mc.Pick(c, stdTypes)
					key := mc.Pick(c, []string{"Type", "Subtype", "S"})
					where, ind := c.Choose(3), c.Bool()
					k := mc.Pick(c, actKinds[:13])
					if where == 2 && key == "S" {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					d := newActDoc()
					s := &slots{}
					var w findings
					e := [3]string{}
					e[where] = "/" + key + " /" + t + " "
					a := d.val(ind, "<<"+e[2]+k.f(d, 3, func(x string) string { return x }, &w)+">>")
					s.other = "<<" + e[1] + "/Kids [" + d.val(ind, "<<"+e[0]+"/A "+a+">>") + "]>>"
					return actCase(label("%s %s at %d by reference %v %s", key, t, where, ind, k.name), s.finish(d), "", w)
				}},
				{"odd elements", "arrays of follow-up actions, annotations, kids or names of a script tree with up to two other elements (of every type, references to nothing, to null, to values of other types) at every position, direct or by reference: the two real actions are found", func(c *mc.C) *mc.Case {
					odd := []string{"null", "0", "-7", "/Name", "(string)", "<<>>", "[]", "[[null]]", "true", "99 0 R", "50 0 R", "51 0 R", "52 0 R", "53 0 R", "54 0 R", "0 0 R", "xyz", "<</S /GoTo>>", "<</S 7 /Next 7>>"}
					where := c.Choose(4)
					ind, byRef := c.Bool(), c.Bool()
					pos, o1 := c.Choose(3), mc.Pick(c, odd)
					pos2, o2 := 3, ""
					if c.Bool() {
						pos2 = pos + c.Choose(3-pos)
						o2 = mc.Pick(c, odd)
					}
					if c.Skip {
						return mc.Stub
					}
					d := newActDoc()
					d.next = 100
					s := &slots{}
					var w findings
					a := ""
					for i := 0; i < 3; i++ {
						if i == pos {
							a += o1 + " "
						}
						if i == pos2 {
							a += o2 + " "
						}
						if i == 2 {
							break
						}
						x := "<<" + actKinds[1].f(d, i, func(x string) string { return x }, &w) + ">>"
						switch where {
						case 1:
							x = "<</A " + x + ">>"
						case 2:
							x = "<</Names [(k) " + x + "]>>"
						case 3:
							a += "(k) "
						}
						a += d.val(ind, x) + " "
					}
					a = d.val(byRef, "["+a+"]")
					switch where {
					case 0:
						s.annots = "<</A <</S /Named /Next " + a + ">>>>"
					case 1:
						s.page = "/Dummy " + a
					case 2:
						s.catalog = "/Names <</JavaScript <</Kids " + a + ">>>>"
					case 3:
						s.catalog = "/Names <</JavaScript <</Names " + a + ">>>>"
					}
					for i, v := range []string{"null", "17", "(text)", "[1 2]", "<</Some /Value>>"} {
						d.b.Obj(50+i, 0, v)
					}
					return actCase(label("place %d %s", where, a), s.finish(d), "", w)
				}},
				{"depth", "an annotation with an action below 5 to 480 direct (also 3000 referenced) containers, arrays, dictionaries or both, and follow-up chains of those lengths", func(c *mc.C) *mc.Case {
					n := mc.Pick(c, []int{5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 21, 25, 30, 31, 32, 33, 40, 48, 50, 51, 63, 64, 65, 80, 99, 100, 101, 127, 128, 129, 150, 199, 200, 201, 249, 250, 251, 255, 256, 257, 300, 400, 480, 500, 512, 513, 999, 1000, 1001, 1024, 1025, 2000, 3000})
					form := c.Choose(8)
					k := mc.Pick(c, actKinds[:6])
					if n > 480 && form < 4 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					d := newActDoc()
					s := &slots{}
					var w findings
					id := func(x string) string { return x }
					x := "<</A <<" + k.f(d, 3, id, &w) + ">>>>"
					if form == 3 || form == 7 { // a chain of follow-up actions
						x = k.f(d, 3, id, &w)
					}
					for i := 0; i < n; i++ {
						switch form {
						case 0:
							x = "[" + x + "]"
						case 1:
							x = "<</K " + x + ">>"
						case 2:
							x = []string{"[0 " + x + " (s)]", "<</K " + x + " /L 1>>"}[i%2]
						case 3:
							x = "/S /Launch /F (f) /Next <<" + x + ">>"
						case 4:
							x = d.obj("[" + x + "]")
						case 5:
							x = d.obj("<</K " + x + ">>")
						case 6:
							x = d.obj("[<</K " + x + ">>]")
						case 7:
							x = "/S /Launch /F (f) /Next " + d.obj("<<"+x+">>")
						}
					}
					if form == 3 || form == 7 {
						x = "<</A <<" + x + ">>>>"
						w.cmds = append(w.cmds, "f")
						w.file("f")
					}
					s.other = x
					return actCase(label("%s below %d, form %d", k.name, n, form), s.finish(d), "", w)
				}},
				{"script trees", "JavaScript name trees: all ordered trees of up to 4 nodes, each leaf (and inner node or not) with one or two scripts, strings or streams, kids and actions by reference or not", func(c *mc.C) *mc.Case {
					root := &pnode{}
					left := 4
					ptree(c, root, &left)
					two, ind := c.Bool(), c.Bool()
					inner := c.Bool() // nodes with kids have entries, too
					kind := c.Choose(3)
					if c.Skip {
						return mc.Stub
					}
					d := newActDoc()
					s := &slots{}
					var w findings
					n := 0
					var build func(x *pnode) string
					build = func(x *pnode) string {
						own := ""
						if len(x.kids) == 0 || inner {
							t := ""
							for i := 0; i < 1+map[bool]int{true: 1}[two]; i++ {
								n++
								t += fmt.Sprintf("(k%d) ", n) + d.val(ind, "<<"+actKinds[1+kind].f(d, n, func(s string) string { return s }, &w)+">>") + " "
							}
							own = "/Limits [(a) (b)] /Names [" + t + "]"
							if len(x.kids) == 0 {
								return d.obj("<<" + own + ">>")
							}
						}
						t := ""
						for _, k := range x.kids {
							t += build(k) + " "
						}
						return d.obj("<<" + own + "/Kids " + d.val(ind, "["+t+"]") + ">>")
					}
					s.catalog = "/Names <</JavaScript " + build(root) + ">>"
					return actCase(label("script tree %s two %v indirect %v inner %v kind %d", root.shape(), two, ind, inner, kind), s.finish(d), "", w)
				}},
				{"contents", "scripts, URLs, files and commands with every byte value, empty and long values (up to 16 MB), given as literal, hexadecimal and referenced strings and as streams", func(c *mc.C) *mc.Case {
					kind := c.Choose(6)
					form := c.Choose(3)
					v := c.Choose(256 + 12 + len(bigSizes))
					var x string
					switch {
					case v >= 256+12: // long ones
						if !th && bigSizes[v-256-12] > 2100000 && (form > 0 || kind > 2) {
							return nil
						}
						if c.Skip {
							return mc.Stub
						}
						x = strings.Repeat("abcdefg ", bigSizes[v-256-12]/8) + "+++++++"[:bigSizes[v-256-12]%8] + "end"
					case v < 256:
						x = "a" + string([]byte{byte(v)}) + "b"
					default:
						x = []string{"", "x", " ", "two\nlines", "two\r\nlines\n", strings.Repeat("long ", 900), "(nested (parentheses))", "\\", "%d %s", "\xfe\xff\x00A\x00B", "tab\ttab", ">>endobj"}[v-256]
					}
					t := []string{ref.Lit(x), ref.HexLit(x), "20 0 R"}[form]
					b := ref.NewBuilder()
					b.Obj(20, 0, ref.Lit(x))
					name, want := "", x+"\n"
					var a string
					switch kind {
					case 0:
						a, name = "/S /URI /URI "+t, "urls.txt"
					case 1:
						a, name = "/S /JavaScript /JS "+t, "javascript.js"
					case 2:
						b.Stream(21, 0, "", []byte(x))
						a, name = "/S /JavaScript /JS 21 0 R", "javascript.js"
						if form > 0 {
							return nil
						}
					case 3:
						a, name, want = "/S /GoToR /F "+t, "files.txt", zeroHash+":"+x+"\n"
					case 4:
						a, name, want = "/S /Launch /Win <</F (cmd) /P "+t+">>", "commands.txt", "cmd "+x+"\n"
					case 5:
						a, name = "/S /SubmitForm /F <</FS /URL /F "+t+">>", "urls.txt"
					}
					b.Obj(1, 0, "<</Type /Catalog /OpenAction <<"+a+">>>>")
					b.Table("/Root 1 0 R")
					doc := b.Bytes()
					return &mc.Case{Label: label("kind %d form %d value %q", kind, form, x), Doc: doc, Run: func() mc.Result {
						r := extract(doc, "")
						if r.Err != nil {
							return fail("Parse: %v", r.Err)
						}
						if got := r.Get(name); got != want {
							return fail("%s is %q, expected %q", name, got, want)
						}
						return mc.Result{Outcome: mc.Digest(want)}
					}}
				}},
			}
		},
	})
}
