package props

import (
	"crypto/md5"
	"fmt"
	"sort"
	"strings"

	"verif/mc"
	"verif/ref"
)

// dump is what a document's files and forms must yield.
type dump struct {
	lines []string
	files map[string]string // content by hash
}

func (w *dump) add(path, content string) {
	h := fmt.Sprintf("%x", md5.Sum([]byte(content)))
	w.lines = append(w.lines, h+":"+path)
	if w.files == nil {
		w.files = map[string]string{}
	}
	w.files[h] = content
}

func (w *dump) external(path string) { w.lines = append(w.lines, zeroHash+":"+path) }

func (w *dump) check(r *Report) string {
	if got, want := set(r.Lines("files.txt")), set(w.lines); !same(got, want) {
		return fmt.Sprintf("files.txt lists %q, expected %q", got, want)
	}
	for h, c := range w.files {
		got, ok := r.Files[h]
		if !ok {
			return fmt.Sprintf("file %s is missing", h)
		}
		if string(got) != c {
			return fmt.Sprintf("file %s is %s, expected %s%s", h, q(got), q([]byte(c)), diffAt(got, []byte(c)))
		}
	}
	for n := range r.Files {
		if _, ok := w.files[n]; !ok && !isReport(n) {
			return fmt.Sprintf("unexpected file %s", n)
		}
	}
	return ""
}

func isReport(n string) bool {
	for _, x := range reportNames {
		if x == n {
			return true
		}
	}
	return false
}

func dumpCase(lab string, doc []byte, pw string, w *dump) *mc.Case {
	return &mc.Case{Label: lab, Doc: doc, Trivial: len(w.lines) == 0, Run: func() mc.Result {
		r := extract(doc, pw)
		if r.Err != nil {
			return fail("Parse: %v", r.Err)
		}
		if m := w.check(r); m != "" {
			return mc.Result{Fail: m}
		}
		l := append([]string{}, w.lines...)
		sort.Strings(l)
		return mc.Result{Outcome: mc.Digest(l...)}
	}}
}

// fileKinds write a file specification (or string) for the name tree.
var fileKinds = []struct {
	name string
	f    func(d *actDoc, n int, v func(string) string, w *dump) string
}{
	{"embedded", func(d *actDoc, n int, v func(string) string, w *dump) string {
		c := fmt.Sprintf("content %d\r\n", n)
		p := fmt.Sprintf("file%d.txt", n)
		w.add(p, c)
		return "<</Type /Filespec /F " + v(ref.Lit(p)) + " /EF " + v("<</F "+v(d.stream("/Type /EmbeddedFile", []byte(c)))+">>") + ">>"
	}},
	{"coded", func(d *actDoc, n int, v func(string) string, w *dump) string {
		c := string(pattern(3000 + n))
		p := fmt.Sprintf("dir/..\\b%d.exe", n)
		w.add(p, c)
		return "<</F " + v(ref.HexLit(p)) + " /EF <</F " + d.stream("/Type /EmbeddedFile /Filter /FlateDecode /Params <</Size 1>>", ref.Zlib([]byte(c), 6)) + ">>>>"
	}},
	{"external", func(d *actDoc, n int, v func(string) string, w *dump) string {
		p := fmt.Sprintf("C:\\ext%d.doc", n)
		w.external(p)
		return "<</Type /Filespec /F " + v(ref.Lit(p)) + ">>"
	}},
	{"string", func(d *actDoc, n int, v func(string) string, w *dump) string {
		p := fmt.Sprintf("/s%d", n)
		w.external(p)
		return ref.Lit(p)
	}},
	{"URL", func(d *actDoc, n int, v func(string) string, w *dump) string {
		return fmt.Sprintf("<</FS /URL /F (http://x%d)>>", n)
	}},
	{"same", func(d *actDoc, n int, v func(string) string, w *dump) string {
		w.add("same", "same content")
		return "<</F (same) /EF <</F " + d.stream("", []byte("same content")) + ">>>>"
	}},
	{"empty", func(d *actDoc, n int, v func(string) string, w *dump) string {
		p := fmt.Sprintf("empty%d", n)
		w.add(p, "")
		return "<</F " + ref.Lit(p) + " /EF <</F " + d.stream("", nil) + ">>>>"
	}},
	{"two keys", func(d *actDoc, n int, v func(string) string, w *dump) string {
		c := fmt.Sprintf("content %d", n)
		p := fmt.Sprintf("f%d", n)
		w.add(p, c)
		return "<</UF (\xfe\xff\x00u) /F " + v(ref.Lit(p)) + " /EF " + v("<</UF 999 0 R /F "+v(d.stream("", []byte(c)))+">>") + ">>"
	}},
	{"other key", func(d *actDoc, n int, v func(string) string, w *dump) string {
		c := fmt.Sprintf("content %d", n)
		p := fmt.Sprintf("u%d", n)
		w.add(p, c)
		k := []string{"UF", "DOS", "Mac", "Unix"}[n%4]
		return "<</" + k + " " + v(ref.Lit(p)) + " /EF " + v("<</"+k+" "+v(d.stream("", []byte(c)))+">>") + ">>"
	}},
	{"other", func(d *actDoc, n int, v func(string) string, w *dump) string { return "null" }},
}

func numbered(f string, n int) string {
	if strings.Contains(f, "%") {
		return fmt.Sprintf(f, n)
	}
	return f
}

func init() {
	// catalog writes the document; an encrypted one with econfsFew[enc-1].
	finish := func(d *actDoc, catalog string, enc int) ([]byte, string) {
		d.b.Obj(1, 0, "<</Type /Catalog "+catalog+">>")
		if enc == 0 {
			d.b.Table("/Root 1 0 R")
			return d.b.Bytes(), ""
		}
		e := econfsFew[enc-1]
		return d.b.Encrypted(e.crypt("user", "owner"), e.method(), e.cf(), 800000), "user"
	}
	mc.Register(&mc.Prop{
		ID:        "C21",
		Technique: "exhaustive enumeration of name-tree shapes, file specification kinds, indirections, form layouts, contents and encryption; full extraction on the real code, the output directory compared with the generator's model",
		Note:      "files.txt is compared as a set of lines. Names hold no line ends.",
		Scopes: func(th bool) []mc.Scope {
			nt := 4
			if th {
				nt = 6
			}
			return []mc.Scope{
				{"trees", fmt.Sprintf("all ordered name trees of up to %d nodes below the root, leaves (and inner nodes or not) with none to two entries (keys distinct or all the same), kids, arrays and entries by reference or direct", nt), func(c *mc.C) *mc.Case {
					root := &pnode{}
					left := nt
					ptree(c, root, &left)
					var bit [4]bool
					for i := range bit {
						bit[i] = c.Bool()
					}
					per := c.Choose(3)
					kind := c.Choose(3)
					inner := per > 0 && c.Bool() // nodes with kids have entries, too
					key := "(k%d) "
					if per > 0 && c.Bool() {
						key = "(k) "
					}
					if c.Skip {
						return mc.Stub
					}
					d := newActDoc()
					w := &dump{}
					n := 0
					var build func(x *pnode, top bool) string
					build = func(x *pnode, top bool) string {
						t, own := "", ""
						if len(x.kids) == 0 || inner {
							for i := 0; i < per; i++ {
								n++
								t += numbered(key, n) + d.val(bit[0], fileKinds[(n+kind)%3].f(d, n, func(s string) string { return s }, w)) + " "
							}
							own = "/Limits [(a) (b)] /Names " + d.val(bit[1], "["+t+"]")
							t = "<<" + own + ">>"
						}
						if len(x.kids) > 0 {
							t = ""
							for _, k := range x.kids {
								t += build(k, false) + " "
							}
							t = "<<" + own + "/Kids " + d.val(bit[1], "["+t+"]") + ">>"
						}
						return d.val(bit[2] || !top, t)
					}
					t := build(root, true)
					doc, pw := finish(d, "/Names "+d.val(bit[3], "<</Dests <<>> /EmbeddedFiles "+t+">>"), 0)
					return dumpCase(label("tree %s indirect %v per leaf %d inner %v kind %d keys %s", root.shape(), bit, per, inner, kind, key), doc, pw, w)
				}},
				{"entries", "all sequences of one to three entries over ten kinds of entry, keys distinct or all the same, x entries by reference or direct x inner values by reference or direct x not encrypted, RC4 or AES", func(c *mc.C) *mc.Case {
					n := 1 + c.Choose(3)
					var ks []int
					for i := 0; i < n; i++ {
						ks = append(ks, c.Choose(len(fileKinds)))
					}
					a, b := c.Bool(), c.Bool()
					enc := []int{0, 2, 4}[c.Choose(3)]
					key := mc.Pick(c, []string{"(k%d) ", "(k) ", "() ", "<%02x> "})
					if c.Skip {
						return mc.Stub
					}
					d := newActDoc()
					w := &dump{}
					t, lab := "", key
					for i, k := range ks {
						lab += fileKinds[k].name + " "
						t += numbered(key, i) + d.val(a, fileKinds[k].f(d, i, func(s string) string { return d.val(b, s) }, w)) + " "
					}
					doc, pw := finish(d, "/Names <</EmbeddedFiles <</Names ["+t+"]>>>>", enc)
					return dumpCase(label("%sby reference %v inner %v encrypted %d", lab, a, b, enc), doc, pw, w)
				}},
				{"contents", "embedded content of every size from 0 to 40 and around powers of two up to 2^17, every single byte, marker-like contents x 8 encodings x not encrypted, RC4, AES", func(c *mc.C) *mc.Case {
					i := c.Choose(len(sizes) + 256 + 6)
					f := c.Choose(len(stages))
					enc := c.Choose(len(econfsFew) + 1)
					if !th && i < len(sizes) && sizes[i] > 5000 && (f+enc+i)%5 != 0 {
						return nil
					}
					if !th && i >= len(sizes) && (f+enc+i)%3 != 0 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					var x []byte
					switch {
					case i < len(sizes):
						x = pattern(sizes[i])
					case i < len(sizes)+256:
						x = []byte{byte(i - len(sizes))}
					default:
						x = []byte([]string{"\r\n", "stream\n", "\nendobj\n", "a\nb\r", "%%EOF", "endstrea\nm"}[i-len(sizes)-256])
					}
					st := stages[f]
					// drop contents that hold the end marker once encoded
					e := st.enc(x)
					if strings.Contains(string(e), "endstream") {
						return mc.Drop()
					}
					d := newActDoc()
					w := &dump{}
					w.add("f.bin", string(x))
					p := ""
					if st.parms != "" {
						p = " /DecodeParms " + st.parms
					}
					s := d.stream("/Type /EmbeddedFile /Filter /"+st.name+p, e)
					doc, pw := finish(d, "/Names <</EmbeddedFiles <</Names [(n) <</F (f.bin) /EF <</F "+s+">>>>]>>>>", enc)
					return dumpCase(label("%d bytes %s encoding %d encrypted %d", len(x), q2(string(x)), f, enc), doc, pw, w)
				}},
				{"forms", "XFA as a stream or an array of 0 to 4 parts (names, empty, coded and repeated parts in between), array direct, by reference or by a chain, form dictionary direct or by reference, x encryption", func(c *mc.C) *mc.Case {
					n := c.Choose(6)
					kinds := 0
					for i := 0; i < n && n < 5; i++ {
						kinds = kinds*4 + c.Choose(4)
					}
					ind, form, names := c.Choose(3), c.Bool(), c.Bool()
					enc := []int{0, 2, 4}[c.Choose(3)]
					if c.Skip {
						return mc.Stub
					}
					d := newActDoc()
					w := &dump{}
					all, t := "", ""
					last, lastRef := "", ""
					part := func(i, k int) string {
						if k == 3 && i > 0 { // the part before once more
							all += last
							return lastRef
						}
						x := fmt.Sprintf("<part n=\"%d\">\r\n", i)
						switch k {
						case 1:
							x = ""
						case 2:
							x += strings.Repeat("long ", 1000)
							all += x
							last, lastRef = x, d.stream("/Filter [/FlateDecode]", ref.Zlib([]byte(x), 6))
							return lastRef
						}
						all += x
						last, lastRef = x, d.stream("", []byte(x))
						return lastRef
					}
					if n == 5 {
						t = part(0, ind)
					} else {
						for i, k := 0, kinds; i < n; i, k = i+1, k/4 {
							if names {
								t += fmt.Sprintf("(part%d) ", i)
							}
							t += part(i, k%4) + " "
						}
						t = d.val(ind > 0, "["+t+"]")
						if ind == 2 {
							t = d.obj(t)
						}
					}
					w.add("form.xml", all)
					doc, pw := finish(d, "/AcroForm "+d.val(form, "<</Fields [] /XFA "+t+">>"), enc)
					return dumpCase(label("parts %d kinds %d array %d form by reference %v names %v encrypted %d", n, kinds, ind, form, names, enc), doc, pw, w)
				}},
				{"parts", "XFA arrays of 5 to 5000 parts, named or not, every part another stream, all the same, or some coded or missing, array direct or by reference", func(c *mc.C) *mc.Case {
					n := mc.Pick(c, []int{5, 6, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1024, 1025, 2000, 5000})
					kind := c.Choose(4)
					names, ind := c.Bool(), c.Bool()
					if c.Skip {
						return mc.Stub
					}
					d := newActDoc()
					w := &dump{}
					all, t, one := "", "", ""
					for i := 0; i < n; i++ {
						x := fmt.Sprintf("<part n=\"%d\">\r\n", i)
						if names {
							t += fmt.Sprintf("(part%d) ", i)
						}
						switch {
						case kind == 1:
							if one == "" {
								one = d.stream("", []byte("<same/>"))
							}
							x = "<same/>"
							t += one + " "
						case kind == 2 && i%3 == 1:
							t += d.stream("/Filter /FlateDecode", ref.Zlib([]byte(x), 6)) + " "
						case kind == 3 && i%4 == 2:
							x = ""
							t += "null "
						default:
							t += d.stream("", []byte(x)) + " "
						}
						all += x
					}
					t = d.val(ind, "["+t+"]")
					w.add("form.xml", all)
					doc, pw := finish(d, "/AcroForm <</Fields [] /XFA "+t+">>", 0)
					return dumpCase(label("%d parts kind %d names %v by reference %v", n, kind, names, ind), doc, pw, w)
				}},
				{"keys", "file specifications with every subset of F, UF, DOS, Mac and Unix as name x every subset of them in EF (or no EF), the keys in EF referring to the same or to different files x direct or by reference", func(c *mc.C) *mc.Case {
					ks := []string{"F", "UF", "DOS", "Mac", "Unix"}
					names, ef := c.Choose(32), c.Choose(33)
					differ, v := c.Bool(), c.Bool()
					if c.Skip {
						return mc.Stub
					}
					d := newActDoc()
					w := &dump{}
					t, e, name, content := "", "", "", ""
					for i := len(ks) - 1; i >= 0; i-- {
						if names>>i&1 == 1 {
							name = "name " + ks[i]
							t += "/" + ks[i] + " " + d.val(v, ref.Lit(name))
						}
						if ef < 32 && ef>>i&1 == 1 {
							content = "the content"
							if differ {
								content += " of " + ks[i]
							}
							e += "/" + ks[i] + " " + d.stream("", []byte(content)) + " "
						}
					}
					if name == "" {
						name = zeroHash
					}
					if ef < 32 {
						if ef == 0 {
							return nil
						}
						t += "/EF " + d.val(v, "<<"+e+">>")
						w.add(name, content)
					} else if names > 0 {
						w.external(name)
					}
					doc, pw := finish(d, "/Names <</EmbeddedFiles <</Names [(k) "+d.val(v, "<<"+t+">>")+"]>>>>", 0)
					return dumpCase(label("names %05b EF %06b different %v by reference %v", names, ef, differ, v), doc, pw, w)
				}},
				{"other entries", "each of 500 entry names with six values in the file specification, its EF dictionary, the embedded stream's dictionary, the name tree's nodes or the form, and 150 values of Type and Subtype there, not encrypted, RC4 or AES: the files are the same", func(c *mc.C) *mc.Case {
					place := c.Choose(6)
					k := c.Choose(len(stdKeys) + 2*len(stdTypes))
					e, key := "", ""
					if k < len(stdKeys) {
						key = stdKeys[k]
						e = " /" + key + " " + mc.Pick(c, []string{"1", "/Name", "(text)", "null", "[1 (two)]", "<</Name 1>>"}) + " "
					} else {
						k -= len(stdKeys)
						key = []string{"Type", "Subtype"}[k%2]
						e = " /" + key + " /" + stdTypes[k/2] + " "
					}
					enc := []int{0, 2, 4}[c.Choose(3)]
					own := strings.Fields([]string{"FS F UF DOS Mac Unix EF P XFA EmbeddedFiles", "F UF DOS Mac Unix XFA EmbeddedFiles", "Filter DecodeParms XFA EmbeddedFiles", "Names Kids XFA EmbeddedFiles", "Names Kids XFA EmbeddedFiles", "XFA EmbeddedFiles"}[place])
					for _, o := range own {
						if key == o {
							return nil
						}
					}
					if c.Skip {
						return mc.Stub
					}
					at := func(p int) string {
						if p == place {
							return e
						}
						return ""
					}
					d := newActDoc()
					w := &dump{}
					spec := func(i int) string {
						name, content := fmt.Sprintf("name %d", i), fmt.Sprintf("\xef\xbb\xbf \r\ncontent %d\x00\t\r\n", i)
						w.add(name, content)
						return "<</F " + ref.Lit(name) + " /EF <</F " + d.stream("/Filter /FlateDecode"+at(2), ref.Zlib([]byte(content), 9)) + at(1) + ">>" + at(0) + ">>"
					}
					leaf := d.obj("<</Names [(a) " + spec(1) + " (b) " + d.obj(spec(2)) + "]" + at(4) + ">>")
					w.external("third")
					leaf2 := "<</Names [(c) (third)]" + at(4) + ">>"
					w.add("form.xml", " <form/>\r\n \n")
					doc, pw := finish(d, "/Names <</EmbeddedFiles <</Kids ["+leaf+" "+leaf2+"]"+at(3)+">>>> /AcroForm <</XFA [(a) "+d.stream("/Filter /FlateDecode"+at(2), ref.Zlib([]byte(" <form/>\r\n \n"), 9))+"]"+at(5)+">>", enc)
					return dumpCase(label("%s at %d encrypted %d", e, place, enc), doc, pw, w)
				}},
				{"many", "name trees of 1 to 70000 files in one leaf or in leaves of 1, 2 or 100, flat or in levels, embedded or external", func(c *mc.C) *mc.Case {
					ns := []int{1, 2, 63, 64, 65, 100, 127, 128, 129, 250, 255, 256, 257, 499, 500, 501, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097, 5000, 10000, 20000}
					if th {
						ns = append(ns, 32767, 32768, 65535, 65536, 70000)
					}
					n := mc.Pick(c, ns)
					per := mc.Pick(c, []int{1 << 30, 1, 2, 100})
					levels := c.Bool()
					emb := c.Bool()
					if c.Skip {
						return mc.Stub
					}
					if emb && n > 5000 {
						return nil
					}
					d := newActDoc()
					w := &dump{}
					var nodes []string
					for i := 0; i < n; {
						t := ""
						for k := 0; k < per && i < n; k++ {
							p := fmt.Sprintf("f%d", i)
							if emb {
								x := fmt.Sprintf("c%d", i)
								w.add(p, x)
								t += "(k) <</F (" + p + ") /EF <</F " + d.stream("", []byte(x)) + ">>>> "
							} else {
								w.external(p)
								t += "(k) (" + p + ") "
							}
							i++
						}
						nodes = append(nodes, d.obj("<</Names ["+t+"]>>"))
					}
					for levels && len(nodes) > 1 {
						var up []string
						for len(nodes) > 0 {
							k := min(3, len(nodes))
							up = append(up, d.obj("<</Kids ["+strings.Join(nodes[:k], " ")+"]>>"))
							nodes = nodes[k:]
						}
						nodes = up
					}
					doc, pw := finish(d, "/Names <</EmbeddedFiles <</Kids ["+strings.Join(nodes, " ")+"]>>>>", 0)
					cs := dumpCase(label("%d files, %d per leaf, levels %v, embedded %v", n, per, levels, emb), doc, pw, w)
					return cs
				}},
				{"deep", "name trees whose files lie 0 to 10000 levels down, kids and arrays of kids direct (up to 240 levels) or by reference, alone or with an entry on every level, one or two entries at the bottom", func(c *mc.C) *mc.Case {
					n := mc.Pick(c, []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 240, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1024, 1025, 2000, 4097, 5000, 10000})
					kid, arr := c.Bool(), c.Bool()
					every, two := c.Bool(), c.Bool()
					enc := c.Choose(2) * 4
					if !kid && n > 240 || enc > 0 && n > 1100 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					d := newActDoc()
					w := &dump{}
					id := func(x string) string { return x }
					t := "/Names [(k) " + fileKinds[0].f(d, 1, id, w)
					if two {
						t += " (l) " + fileKinds[2].f(d, 2, id, w)
					}
					t += "]"
					for i := 0; i < n; i++ {
						t = "/Kids " + d.val(arr, "["+d.val(kid, "<<"+t+">>")+"]")
						if every {
							p := fmt.Sprintf("level%d", i)
							w.external(p)
							t += "/Names [(e) (" + p + ")]"
						}
					}
					doc, pw := finish(d, "/Names <</EmbeddedFiles <<"+t+">>>>", enc)
					return dumpCase(label("%d levels, kids by reference %v, arrays %v, every %v two %v encrypted %d", n, kid, arr, every, two, enc), doc, pw, w)
				}},
				{"odd elements", "name trees with up to two further kids, or pairs of key and value, of every type (references to nothing, to null, to other values, too) at every position among two real ones, direct or by reference", func(c *mc.C) *mc.Case {
					odd := []string{"null", "0", "-7", "/Name", "<<>>", "[]", "[[null]]", "true", "99 0 R", "50 0 R", "51 0 R", "53 0 R", "54 0 R", "0 0 R", "xyz", "<</Names []/Kids []>>", "<</Names 7/Kids 7>>", "<</Limits [(k)]>>"}
					where := c.Choose(3)
					ind, byRef := c.Bool(), c.Bool()
					pos, o1 := c.Choose(3), mc.Pick(c, odd)
					pos2, o2 := 3, ""
					if c.Bool() {
						pos2 = pos + c.Choose(3-pos)
						o2 = mc.Pick(c, odd)
					}
					if c.Skip {
						return mc.Stub
					}
					d := newActDoc()
					d.next = 100
					w := &dump{}
					a := ""
					for i := 0; i < 3; i++ {
						for k, o := range []string{o1, o2} {
							if i != []int{pos, pos2}[k] {
								continue
							}
							switch where {
							case 0:
								a += o + " "
							case 1: // a pair with an odd value
								a += "(x) " + o + " "
							case 2: // a pair with an odd key
								a += o + " (f" + fmt.Sprint(k) + ") "
								w.external(fmt.Sprint("f", k))
							}
						}
						if i == 2 {
							break
						}
						x := fileKinds[i*2].f(d, i, func(x string) string { return x }, w)
						if where == 0 {
							x = "<</Names [(k) " + x + "]>>"
						} else {
							a += "(k) "
						}
						a += d.val(ind, x) + " "
					}
					key := "Names"
					if where == 0 {
						key = "Kids"
					}
					for i, v := range []string{"null", "17", "(text)", "[1 2]", "<</Some /Value>>"} {
						d.b.Obj(50+i, 0, v)
					}
					doc, pw := finish(d, "/Names <</EmbeddedFiles <</"+key+" "+d.val(byRef, "["+a+"]")+">>>>", 0)
					return dumpCase(label("place %d %s", where, a), doc, pw, w)
				}},
				{"large", "embedded content and form data of 150000 to 16777217 bytes, coded or not, not encrypted, RC4 or AES", func(c *mc.C) *mc.Case {
					n := mc.Pick(c, bigSizes)
					xfa, coded := c.Bool(), c.Bool()
					enc := c.Choose(3) * 2
					if !th && n > 2100000 && (xfa != coded || enc > 0 || n < 5000000) {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					x := pattern(n)
					d := newActDoc()
					w := &dump{}
					s := ""
					if coded {
						s = d.stream("/Type /EmbeddedFile /Filter /FlateDecode", ref.Zlib(x, 1))
					} else {
						s = d.stream("/Type /EmbeddedFile", x)
					}
					cat := "/AcroForm <</XFA " + s + ">>"
					if xfa {
						w.add("form.xml", string(x))
					} else {
						w.add("f.bin", string(x))
						cat = "/Names <</EmbeddedFiles <</Names [(n) <</F (f.bin) /EF <</F " + s + ">>>>]>>>>"
					}
					doc, pw := finish(d, cat, enc)
					return dumpCase(label("%d bytes form %v coded %v encrypted %d", n, xfa, coded, enc), doc, pw, w)
				}},
				{"alike", "two or three embedded files of one size from 1 to 10000001 that differ in one byte only: the first, the last, one in the middle or next to a multiple of a block size", func(c *mc.C) *mc.Case {
					n := mc.Pick(c, append([]int{1, 2, 3, 15, 16, 17, 63, 64, 65, 100, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 32768, 32769, 65535, 65536, 65537, 100000}, bigSizes[:19]...))
					at := mc.Pick(c, []int{0, 1, 15, 16, 63, 64, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 8191, 8192, 32767, 32768, 65535, 65536, 1 << 20, -1, -2, -16, -64, -512, -1024, -4096, -65536, 1 << 30})
					three := c.Bool()
					if n > 100000 && three {
						return nil
					}
					if !th && n > 150000 && at != 0 && at != -1 && (n > 1100000 || at != 1<<30 && at != 65536) {
						return nil
					}
					if at < 0 {
						at += n
					}
					if at == 1<<30 {
						at = n / 2
					}
					if at < 0 || at >= n {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					d := newActDoc()
					w := &dump{}
					t := ""
					for i := 0; i < 2+map[bool]int{true: 1}[three]; i++ {
						x := []byte(strings.Repeat("0123456789abcdef", n/16+1)[:n])
						x[at] = byte('A' + i)
						p := fmt.Sprint("f", i)
						w.add(p, string(x))
						t += "(k) <</F (" + p + ") /EF <</F " + d.stream("/Type /EmbeddedFile", x) + ">>>> "
					}
					doc, pw := finish(d, "/Names <</EmbeddedFiles <</Names ["+t+"]>>>>", 0)
					return dumpCase(label("%d bytes, different at %d, three %v", n, at, three), doc, pw, w)
				}},
				{"names", "paths with every byte value but line ends, path-like and long names, as literal, hexadecimal and referenced strings, for embedded and external files", func(c *mc.C) *mc.Case {
					i := c.Choose(256 + 14)
					form := c.Choose(3)
					kind := c.Choose(3)
					x := ""
					if i < 256 {
						x = "a" + string([]byte{byte(i)}) + "b"
						if i == 10 {
							return nil
						}
					} else {
						x = []string{"", "../../x", "/nonexistent/x", "..", ".", "files.txt", "a:b", " ", strings.Repeat("n", 300), "d41d8cd98f00b204e9800998ecf8427e", zeroHash, "%s%d%n", "\xfe\xff\x00a", "C:\\con"}[i-256]
					}
					d := newActDoc()
					w := &dump{}
					s := []string{ref.Lit(x), ref.HexLit(x), "800 0 R"}[form]
					d.b.Obj(800, 0, ref.Lit(x))
					t := s
					switch kind {
					case 0:
						w.add(x, "content")
						t = "<</F " + s + " /EF <</F " + d.stream("", []byte("content")) + ">>>>"
					case 1:
						w.external(x)
						t = "<</F " + s + ">>"
					case 2:
						w.external(x)
					}
					doc, pw := finish(d, "/Names <</EmbeddedFiles <</Names [(k) "+t+"]>>>>", 0)
					return dumpCase(label("kind %d form %d name %q", kind, form, x), doc, pw, w)
				}},
				{"both", "documents with embedded files and forms whose contents agree or differ, in one or two revisions, the older one having other files", func(c *mc.C) *mc.Case {
					sameC, two, xs := c.Bool(), c.Choose(3), c.Bool()
					d := newActDoc()
					w := &dump{}
					old := "<</F (old) /EF <</F 700 0 R>>>>"
					f := "<</F (new) /EF <</F 701 0 R>>>>"
					d.b.Stream(700, 0, "", []byte("old content"))
					d.b.Stream(701, 0, "", []byte("shared"))
					d.b.Stream(702, 0, "", []byte(map[bool]string{true: "shared", false: "<xfa/>"}[sameC]))
					cat := "<</AcroForm <</XFA 702 0 R>> /Names 703 0 R>>"
					close := func() {
						if xs {
							d.b.XrefStream(800, "/Root 1 0 R")
						} else {
							d.b.Table("/Root 1 0 R")
						}
					}
					d.b.Obj(1, 0, cat)
					if two > 0 {
						d.b.Obj(703, 0, "<</EmbeddedFiles <</Names [(o) "+old+"]>>>>")
						close()
					}
					if two == 2 {
						d.b.Free(700, 1)
					}
					d.b.Obj(703, 0, "<</EmbeddedFiles <</Names [(n) "+f+"]>>>>")
					close()
					w.add("new", "shared")
					w.add("form.xml", map[bool]string{true: "shared", false: "<xfa/>"}[sameC])
					return dumpCase(label("same %v revisions %d xref streams %v", sameC, two, xs), d.b.Bytes(), "", w)
				}},
			}
		},
	})
}
