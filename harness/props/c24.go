package props

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"

	"verif/mc"
	"verif/ref"
)

// graph24 is a document whose object i holds body(i) or is an alias of another object.
type graph24 struct {
	alias map[int]int // object -> object it is a reference to
	has   map[int]bool
}

// end follows aliases; 0 if they loop or end at nothing.
func (g *graph24) end(n int) int {
	seen := map[int]bool{}
	for !seen[n] {
		seen[n] = true
		if m, ok := g.alias[n]; ok {
			n = m
			continue
		}
		if g.has[n] {
			return n
		}
		return 0
	}
	return 0
}

// reach is the set of nodes reachable from root along edges (through aliases).
func (g *graph24) reach(root int, edges map[int][]int) map[int]bool {
	out := map[int]bool{}
	var walk func(n int)
	walk = func(n int) {
		n = g.end(n)
		if n == 0 || out[n] {
			return
		}
		out[n] = true
		for _, m := range edges[n] {
			walk(m)
		}
	}
	walk(root)
	return out
}

func rf(n int) string { return fmt.Sprintf("%d 0 R", n) }

func setCase(lab string, doc []byte, pw, file string, want []string) *mc.Case {
	return &mc.Case{Label: lab, Doc: doc, Run: func() mc.Result {
		r := extract(doc, pw)
		if r.Err != nil {
			return fail("Parse: %v", r.Err)
		}
		got, exp := set(trimmed(r.Lines(file))), set(want)
		if !same(got, exp) {
			return fail("%s holds %q, expected %q", file, got, exp)
		}
		return mc.Result{Outcome: mc.Digest(exp...)}
	}}
}

// kidsGraph chooses the kids of nodes 11..10+n among all nodes, an alias object, the catalogue and a missing
// object, and the target of the alias.
func kidsGraph(c *mc.C, n, slots int, extra []int) (g *graph24, edges map[int][]int, lab string) {
	g = &graph24{alias: map[int]int{}, has: map[int]bool{}}
	edges = map[int][]int{}
	targets := append([]int{}, extra...)
	for i := 0; i < n; i++ {
		targets = append(targets, 11+i)
		g.has[11+i] = true
	}
	targets = append(targets, 30)
	g.alias[30] = mc.Pick(c, append([]int{30, 31}, targets[:len(targets)-1]...))
	if g.alias[30] == 31 {
		g.alias[31] = mc.Pick(c, []int{30, 11, 98})
	}
	for i := 0; i < n; i++ {
		for k := i; k < slots; k += n {
			edges[11+i] = append(edges[11+i], mc.Pick(c, targets))
		}
	}
	return g, edges, fmt.Sprint("kids ", edges, " aliases ", g.alias)
}

func kidRefs(l []int) string {
	s := ""
	for _, n := range l {
		s += rf(n) + " "
	}
	return strings.TrimSpace(s)
}

func init() {
	aliases := func(b *ref.Builder, g *graph24) {
		for _, n := range keys(g.alias) {
			b.Obj(n, 0, rf(g.alias[n]))
		}
	}
	mc.Register(&mc.Prop{
		ID:        "C24",
		Technique: "exhaustive enumeration of all assignments of targets to the references of small documents (page trees, name trees, outlines, actions, filters, fonts, cross-reference chains); extraction on the real code in watched processes, compared with reachability in the graph",
		Note:      "Results are compared as sets, a node reached again through another number may be extracted again. An execution that does not end is reported by the watchdog.",
		Scopes: func(th bool) []mc.Scope {
			n, slots := 3, 5
			if th {
				slots = 6
			}
			trees := []struct {
				name, file string
				build      func(b *ref.Builder, edges map[int][]int, root string)
				out        func(n int) string
			}{
				{"page tree", "contents.txt", func(b *ref.Builder, edges map[int][]int, root string) {
					b.Obj(1, 0, "<</Type /Catalog /Pages "+root+">>")
					for _, i := range keys(edges) {
						b.Obj(i, 0, "<</Type /Pages /Kids ["+kidRefs(edges[i])+"] /Contents "+rf(40+i)+" /Parent "+rf(edges[i][0])+">>")
						b.Stream(40+i, 0, "", []byte(fmt.Sprintf("BT (t%d) Tj ET", i)))
					}
				}, func(n int) string { return fmt.Sprintf("t%d", n) }},
				{"file tree", "files.txt", func(b *ref.Builder, edges map[int][]int, root string) {
					b.Obj(1, 0, "<</Names <</EmbeddedFiles "+root+">>>>")
					for _, i := range keys(edges) {
						b.Obj(i, 0, fmt.Sprintf("<</Kids ["+kidRefs(edges[i])+"] /Names [(k) <</F (f%d)>>]>>", i))
					}
				}, func(n int) string { return fmt.Sprintf("%s:f%d", zeroHash, n) }},
				{"URL tree", "urls.txt", func(b *ref.Builder, edges map[int][]int, root string) {
					b.Obj(1, 0, "<</Names <</URLS "+root+">>>>")
					for _, i := range keys(edges) {
						b.Obj(i, 0, fmt.Sprintf("<</Names [(u%d) 0] /Kids [<</Kids [%s]>> %s]>>", i, rf(edges[i][0]), kidRefs(edges[i][1:])))
					}
				}, func(n int) string { return fmt.Sprintf("u%d", n) }},
			}
			var scopes []mc.Scope
			for _, t := range trees {
				t := t
				scopes = append(scopes, mc.Scope{Name: t.name, Bound: fmt.Sprintf("all assignments of the %d kids of %d nodes, of the root and of two aliases to nodes, catalogue, aliases and a missing object", slots, n), Gen: func(c *mc.C) *mc.Case {
					root := mc.Pick(c, []int{11, 30})
					extra := []int{99}
					if th {
						extra = []int{99, 1}
					}
					g, edges, lab := kidsGraph(c, n, slots, extra)
					if c.Skip {
						return mc.Stub
					}
					g.has[1] = true
					b := ref.NewBuilder()
					t.build(b, edges, rf(root))
					aliases(b, g)
					b.Table("/Root 1 0 R")
					var want []string
					for i := range g.reach(root, edges) {
						if i != 1 {
							want = append(want, t.out(i))
						}
					}
					return setCase(label("root %d %s", root, lab), b.Bytes(), "", t.file, want)
				}})
			}
			scopes = append(scopes, []mc.Scope{
				{"shared kids", "2 to 64 levels of nodes with 2 or 3 kids in common: page tree, file tree, script tree, URL tree, follow-up actions, outlines; kids in an array of each node or one they share, nodes by reference, by two references or directly in that array", func(c *mc.C) *mc.Case {
					kind := c.Choose(6)
					levels := mc.Pick(c, []int{2, 3, 5, 8, 12, 16, 20, 24, 28, 32, 40, 48, 64})
					wide := 2 + c.Choose(2)
					form := c.Choose(4)
					if form == 2 && (kind == 0 || kind > 3) || form == 3 && (kind == 0 || kind > 4) {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					b := ref.NewBuilder()
					var direct [100]string
					num := func(l, i int) int { return 100 + l*4 + i }
					arr := func(l int) string {
						var r []string
						for i := 0; i < wide; i++ {
							r = append(r, rf(num(l+1, i)))
						}
						return "[" + strings.Join(r, " ") + "]"
					}
					key := []string{"Kids", "Kids", "Kids", "Kids", "Next", ""}[kind]
					file := []string{"contents.txt", "files.txt", "javascript.js", "urls.txt", "urls.txt", "urls.txt"}[kind]
					var want []string
					for l := 0; l <= levels; l++ {
						for i := 0; i < wide; i++ {
							kids := ""
							if l < levels {
								kids = "/" + key + " " + arr(l)
								if form > 0 && kind < 5 {
									kids = "/" + key + " " + rf(num(l, 3))
								}
								if kind == 5 {
									kids = "/First " + rf(num(l+1, 0)) + " /Last " + rf(num(l+1, wide-1))
								}
							}
							if kind == 5 && l > 0 {
								kids += " /Next " + rf(num(l, (i+1)%wide)) + " /Parent " + rf(num(l-1, i))
							}
							m := fmt.Sprintf("m%d_%d", l, i)
							item := ""
							switch kind {
							case 0:
								b.Stream(num(l, i)+500, 0, "", []byte("BT ("+m+") Tj ET"))
								item = "/Type /Page /Contents " + rf(num(l, i)+500)
							case 1:
								item = "/Names [(k) <</F (" + m + ")>>]"
								m = zeroHash + ":" + m
							case 2:
								item = "/Names [(k) <</S /JavaScript /JS (" + m + ")>>]"
							case 3:
								item = "/Names [(" + m + ") 0]"
							case 4:
								item = "/S /URI /URI (" + m + ")"
							case 5:
								item = "/Title (t) /A <</S /URI /URI (" + m + ")>>"
							}
							if l > 0 || i == 0 {
								want = append(want, m)
								t := "<<" + item + " " + kids + ">>"
								if form == 2 && l > 0 && l < levels { // behind one more reference
									b.Obj(num(l, i)+1000, 0, t)
									t = rf(num(l, i) + 1000)
								}
								if form != 3 || l == 0 {
									b.Obj(num(l, i), 0, t)
								}
								direct[l] += t + " "
							}
						}
						if form > 0 && l > 0 && kind < 5 {
							if form == 3 {
								b.Obj(num(l-1, 3), 0, "["+direct[l]+"]")
							} else {
								b.Obj(num(l-1, 3), 0, arr(l-1))
							}
						}
					}
					top := rf(num(0, 0))
					b.Obj(1, 0, []string{"<</Pages " + top + ">>", "<</Names <</EmbeddedFiles " + top + ">>>>", "<</Names <</JavaScript " + top + ">>>>", "<</Names <</URLS " + top + ">>>>", "<</OpenAction " + top + ">>", "<</Outlines " + top + ">>"}[kind])
					b.Table("/Root 1 0 R")
					return setCase(label("kind %d levels %d wide %d form %d", kind, levels, wide, form), b.Bytes(), "", file, want)
				}},
				{"larger trees", "page, file and URL trees of five nodes with one kid each or four of which the first two (thorough: all) have up to two, all assignments of kids to nodes", func(c *mc.C) *mc.Case {
					t := trees[c.Choose(3)]
					nn := 5 - c.Choose(2)
					edges := map[int][]int{}
					g := &graph24{alias: map[int]int{}, has: map[int]bool{}}
					for i := 0; i < nn; i++ {
						g.has[11+i] = true
						edges[11+i] = []int{11 + c.Choose(nn)}
						if nn == 4 && (th || i < 2) {
							if k := c.Choose(nn + 1); k > 0 {
								edges[11+i] = append(edges[11+i], 10+k)
							}
						}
					}
					if c.Skip {
						return mc.Stub
					}
					b := ref.NewBuilder()
					t.build(b, edges, rf(11))
					b.Table("/Root 1 0 R")
					var want []string
					for i := range g.reach(11, edges) {
						want = append(want, t.out(i))
					}
					return setCase(label("%s %v", t.name, edges), b.Bytes(), "", t.file, want)
				}},
				{"actions", "catalogue, annotation and outline references (OpenAction, A, AA, Next, First, Next, Parent) over three launch actions with Next (direct reference or array) and an alias, all assignments", func(c *mc.C) *mc.Case {
					ts := []int{11, 12, 13, 30, 99, 1}
					g := &graph24{alias: map[int]int{30: mc.Pick(c, []int{30, 11, 12, 99})}, has: map[int]bool{1: true, 11: true, 12: true, 13: true, 20: true, 21: true}}
					open := mc.Pick(c, ts)
					a := mc.Pick(c, ts[:5])
					var next []int
					for i := 0; i < 3; i++ {
						next = append(next, mc.Pick(c, ts[:5]))
					}
					first := mc.Pick(c, []int{20, 21, 11, 30})
					array := c.Bool()
					if !th && (open+a+next[0]+next[1]+next[2]+first)%4 != 0 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					b := ref.NewBuilder()
					b.Obj(1, 0, "<</OpenAction "+rf(open)+" /Outlines "+rf(first)+" /AA <</O "+rf(a)+">>>>")
					b.Obj(20, 0, "<</First "+rf(first)+" /Next "+rf(21)+" /Parent "+rf(20)+" /A "+rf(a)+" /URI (o20)>>")
					b.Obj(21, 0, "<</First "+rf(20)+" /Next "+rf(first)+" /Parent "+rf(20)+" /URI (o21)>>")
					used := map[int]bool{g.end(open): true, g.end(a): true, g.end(first): true}
					for i := 0; i < 3; i++ {
						nx := rf(next[i])
						if array {
							nx = "[" + nx + " " + rf(11+i) + "]"
							used[11+i] = true
						}
						used[g.end(next[i])] = true
						b.Obj(11+i, 0, fmt.Sprintf("<</S /Launch /F (run%d) /Next %s /URI (o%d)>>", 11+i, nx, 11+i))
					}
					if first == 11 || g.end(first) == 11 {
						// an outline item is no action
						used[11] = used[11] && (g.end(open) == 11 || g.end(a) == 11 || g.end(next[0]) == 11 || g.end(next[1]) == 11 || g.end(next[2]) == 11 || array) || g.end(first) == 11
					}
					aliases(b, g)
					b.Table("/Root 1 0 R")
					doc := b.Bytes()
					var want []string
					for i := 11; i <= 13; i++ {
						if used[i] {
							want = append(want, fmt.Sprintf("run%d", i))
						}
					}
					lab := label("open %d a %d next %v first %d alias %v array %v", open, a, next, first, g.alias, array)
					return &mc.Case{Label: lab, Doc: doc, Run: func() mc.Result {
						r := extract(doc, "")
						if r.Err != nil {
							return fail("Parse: %v", r.Err)
						}
						if got := set(trimmed(r.Lines("commands.txt"))); !same(got, set(want)) {
							return fail("commands.txt holds %q, expected %q", got, set(want))
						}
						if got, exp := set(r.Lines("urls.txt")), set([]string{"o11", "o12", "o13", "o20", "o21"}); !same(got, exp) {
							return fail("urls.txt holds %q, expected %q", got, exp)
						}
						return mc.Result{Outcome: mc.Digest(want...)}
					}}
				}},
				{"filters", "Filter, DecodeParms, Length of two streams and the elements of a filter array, each reference over both streams, a name, the array, a dictionary, an alias, a missing object", func(c *mc.C) *mc.Case {
					// 10, 11 streams; 12 /ASCIIHexDecode; 13 array of two references; 14 parameter dictionary; 30 alias
					ts := []int{10, 11, 12, 13, 14, 30, 99}
					f10, f11 := mc.Pick(c, ts), mc.Pick(c, ts)
					p10 := mc.Pick(c, ts)
					l10 := mc.Pick(c, []int{10, 12, 30})
					e0, e1 := mc.Pick(c, ts), mc.Pick(c, []int{12, 13, 11, 30})
					al := mc.Pick(c, []int{10, 12, 13, 30, 99})
					inArray := c.Bool()
					if !th && (f11+p10+e0)%3 != 0 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					g := &graph24{alias: map[int]int{30: al}, has: map[int]bool{10: true, 11: true, 12: true, 13: true, 14: true}}
					data := "34 31 34 32>" // "41 42" twice encoded
					filters := func(f int, arr bool) []int {
						if arr {
							return []int{f}
						}
						switch g.end(f) {
						case 12:
							return []int{12}
						case 13:
							return []int{e0, e1}
						}
						return nil
					}
					apply := func(fs []int) string {
						d := data
						for _, f := range fs {
							if g.end(f) == 12 {
								d = map[string]string{data: "4142", "4142": "AB"}[d]
							}
						}
						return d
					}
					b := ref.NewBuilder()
					b.Obj(1, 0, "<</Type /Catalog>>")
					w := func(n, f, p, l int, arr bool) {
						x := rf(f)
						if arr {
							x = "[" + x + "]"
						}
						b.Obj(n, 0, "<</Filter "+x+" /DecodeParms "+rf(p)+" /Length "+rf(l)+" /N "+fmt.Sprint(n)+">>\nstream\n"+data+"\nendstream")
					}
					w(10, f10, p10, l10, inArray)
					w(11, f11, 14, 11, false)
					b.Obj(12, 0, "/ASCIIHexDecode")
					b.Obj(13, 0, "["+rf(e0)+" "+rf(e1)+"]")
					b.Obj(14, 0, "<</Predictor "+rf(p10)+">>")
					aliases(b, g)
					b.Table("/Root 1 0 R")
					doc := b.Bytes()
					want := map[int]string{10: apply(filters(f10, inArray)), 11: apply(filters(f11, false))}
					return &mc.Case{Label: label("filters %d %d parms %d length %d array %d %d alias %d in array %v", f10, f11, p10, l10, e0, e1, al, inArray), Doc: doc, Run: func() mc.Result {
						p, err := open(doc, "")
						if err != nil {
							return fail("Load: %v", err)
						}
						for _, n := range []int{10, 11, 10} {
							if got := string(p.GetObject(n).Stream); got != want[n] {
								return fail("stream of object %d is %q, expected %q", n, got, want[n])
							}
						}
						return mc.Result{Outcome: mc.Digest(want[10], want[11])}
					}}
				}},
				{"fonts and contents", "Resources, Font, the font, its ToUnicode, Contents and its parts, each reference over all objects of the page, an alias, a missing object", func(c *mc.C) *mc.Case {
					// 11 page, 12 resources, 13 font dictionary, 14 font, 15 map, 16 contents, 17 array of contents, 30 alias
					ts := []int{11, 12, 13, 14, 15, 16, 17, 30, 99}
					def := []int{12, 13, 14, 15, 16, 16, 17}
					v := append([]int{}, def...)
					i := c.Choose(7)
					j := i + c.Choose(7-i)
					v[i] = mc.Pick(c, ts)
					if j > i {
						v[j] = mc.Pick(c, ts)
					}
					al := mc.Pick(c, ts)
					if c.Skip {
						return mc.Stub
					}
					g := &graph24{alias: map[int]int{30: al}, has: map[int]bool{11: true, 12: true, 13: true, 14: true, 15: true, 16: true, 17: true}}
					b := ref.NewBuilder()
					b.Obj(1, 0, "<</Pages 10 0 R>>")
					b.Obj(10, 0, "<</Kids [11 0 R 18 0 R]>>")
					b.Obj(11, 0, "<</Resources "+rf(v[0])+" /Contents "+rf(v[4])+">>")
					b.Obj(12, 0, "<</Font "+rf(v[1])+">>")
					b.Obj(13, 0, "<</F1 "+rf(v[2])+">>")
					b.Obj(14, 0, "<</ToUnicode "+rf(v[3])+">>")
					b.Stream(15, 0, "", []byte("1 beginbfchar <61> <58> endbfchar"))
					b.Stream(16, 0, "", []byte("BT /F1 1 Tf (abc) Tj ET"))
					b.Obj(17, 0, "["+rf(v[5])+" "+rf(v[6])+"]")
					b.Obj(18, 0, "<</Contents 19 0 R>>")
					b.Stream(19, 0, "", []byte("BT (last) Tj ET"))
					aliases(b, g)
					b.Table("/Root 1 0 R")
					want := []string{"last"}
					mapped := g.end(v[0]) == 12 && g.end(v[1]) == 13 && g.end(v[2]) == 14 && g.end(v[3]) == 15
					shows := g.end(v[4]) == 16
					if g.end(v[4]) == 17 {
						shows = g.end(v[5]) == 16 || g.end(v[6]) == 16
					}
					if shows {
						want = append(want, map[bool]string{true: "Xbc", false: "abc"}[mapped])
					}
					return setCase(label("references %v alias %d", v, al), b.Bytes(), "", "contents.txt", want)
				}},
				{"any key", "catalogue, page and other dictionaries with one or two of 20 keys, each over ten objects of every kind including their holder, holder and an alias: everything in the other objects is reported", func(c *mc.C) *mc.Case {
					ks := []string{"Pages", "Kids", "Names", "EmbeddedFiles", "URLS", "AcroForm", "XFA", "OpenAction", "A", "AA", "Next", "JS", "URI", "F", "EF", "Win", "Contents", "Resources", "Filter", "ToUnicode"}
					ts := []int{1, 2, 11, 12, 13, 14, 15, 30, 99}
					k1 := c.Choose(len(ks))
					t1 := mc.Pick(c, ts)
					k2 := c.Choose(len(ks))
					t2 := mc.Pick(c, ts)
					form := c.Choose(4)
					if !th && (k1+k2+t1+t2)%3 != 0 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					g := &graph24{alias: map[int]int{30: t1}}
					b := ref.NewBuilder()
					x1, x2 := rf(t1), rf(t2)
					switch form {
					case 1:
						x1 = "[" + x1 + " " + x2 + "]"
					case 2:
						x1 = "<</" + ks[k2] + " " + x2 + " /" + ks[k1] + " " + x1 + ">>"
					case 3:
						x2 = "[" + x2 + " [" + x1 + "] <</" + ks[k1] + " " + x1 + ">>]"
					}
					b.Obj(1, 0, "<</Pages 2 0 R /"+ks[k1]+" "+x1+" /X [<</URI (u1)>>]>>")
					b.Obj(2, 0, "<</Kids [11 0 R 2 0 R] /"+ks[k2]+" "+x2+" /X <</URI (u2)>>>>")
					b.Obj(11, 0, "<</"+ks[k2]+" "+x2+" /"+ks[k1]+" "+x1+" /Y <</URI (u11)>>>>")
					b.Obj(12, 0, ref.StreamBody("/"+ks[k2]+" "+x1+" /Y <</URI (u12)>>", []byte("BT (x) Tj ET")))
					b.Obj(13, 0, "["+x1+" "+x2+" <</URI (u13)>>]")
					b.Obj(14, 0, "<</S /Launch /F (run) /"+ks[k1]+" "+x2+" /Y <</URI (u14)>>>>")
					b.Obj(15, 0, "(a string)")
					aliases(b, g)
					b.Table("/Root 1 0 R")
					doc := b.Bytes()
					return &mc.Case{Label: label("%s %d %s %d form %d", ks[k1], t1, ks[k2], t2, form), Doc: doc, Run: func() mc.Result {
						r := extract(doc, "")
						if r.Err != nil {
							return fail("Parse: %v", r.Err)
						}
						got := map[string]bool{}
						for _, l := range r.Lines("urls.txt") {
							got[l] = true
						}
						for _, u := range []string{"u1", "u2", "u11", "u12", "u13", "u14"} {
							if !got[u] {
								return fail("%s is missing in urls.txt %q", u, r.Get("urls.txt"))
							}
						}
						if n := strings.Count(r.Get("raw.pdf"), " obj\n"); n != 8 {
							return fail("raw.pdf holds %d objects, expected 8", n)
						}
						return mc.Result{Outcome: mc.Digest(set(r.Lines("urls.txt"))...)}
					}}
				}},
				{"aliases", "four reference objects, each referring to any of them, to the value or to nothing (all 1296 maps, chains, loops and chains into loops), in front of each of 26 kinds of values", func(c *mc.C) *mc.Case {
					g := &graph24{alias: map[int]int{}, has: map[int]bool{20: true}}
					for i := 30; i < 34; i++ {
						g.alias[i] = mc.Pick(c, []int{30, 31, 32, 33, 20, 99})
					}
					kind := c.Choose(26)
					if c.Skip {
						return mc.Stub
					}
					b := ref.NewBuilder()
					x := "30 0 R"
					ok := g.end(30) == 20
					cat, fd, res, font, cont := "", "<</F1 13 0 R>>", "12 0 R", "14 0 R", "15 0 R"
					pages, kids := "10 0 R", "[11 0 R]"
					file, want := "urls.txt", "found"
					text := "BT /F1 1 Tf (abc) Tj ET"
					cmap := "1 beginbfchar <61> <58> endbfchar"
					filt, length := "", ""
					switch kind {
					case 0:
						pages, file, want = x, "contents.txt", "Xbc"
						b.Obj(20, 0, "<</Kids [11 0 R]>>")
					case 1:
						kids, file, want = "["+x+" ]", "contents.txt", "Xbc"
						b.Obj(20, 0, "<</Contents 15 0 R /Resources 12 0 R>>")
					case 2:
						kids, file, want = x, "contents.txt", "Xbc"
						b.Obj(20, 0, "[11 0 R]")
					case 3:
						res, file, want = x, "contents.txt", "Xbc"
						b.Obj(20, 0, "<</Font <</F1 13 0 R>>>>")
					case 4:
						fd, file, want = x, "contents.txt", "Xbc"
						b.Obj(20, 0, "<</F1 13 0 R>>")
					case 5:
						fd, file, want = "<</F1 "+x+">>", "contents.txt", "Xbc"
						b.Obj(20, 0, "<</ToUnicode 14 0 R>>")
					case 6:
						font, file, want = x, "contents.txt", "Xbc"
						b.Stream(20, 0, "", []byte(cmap))
					case 7:
						cont, file, want = x, "contents.txt", "Xbc"
						b.Stream(20, 0, "", []byte(text))
					case 8:
						cont, file, want = x, "contents.txt", "Xbc"
						b.Obj(20, 0, "[15 0 R]")
					case 9:
						cont, file, want = "["+x+"]", "contents.txt", "Xbc"
						b.Stream(20, 0, "", []byte(text))
					case 10:
						cat, file = "/A "+x, "commands.txt"
						b.Obj(20, 0, "<</S /Launch /F (found)>>")
					case 11:
						cat, file = "/OpenAction "+x, "commands.txt"
						b.Obj(20, 0, "<</S /Launch /F (found)>>")
					case 12:
						cat, file = "/AA "+x, "commands.txt"
						b.Obj(20, 0, "<</O <</S /Launch /F (found)>>>>")
					case 13:
						cat, file = "/AA <</C "+x+">>", "commands.txt"
						b.Obj(20, 0, "<</S /Launch /F (found)>>")
					case 14:
						cat, file = "/A <</Next "+x+">>", "commands.txt"
						b.Obj(20, 0, "[<</S /Launch /F (found)>>]")
					case 15:
						cat, file = "/A <</Next ["+x+"]>>", "commands.txt"
						b.Obj(20, 0, "<</S /Launch /F (found)>>")
					case 16:
						cat = "/URI " + x
						b.Obj(20, 0, "(found)")
					case 17:
						cat = "/URI " + x
						b.Obj(20, 0, "<</Base (found)>>")
					case 18:
						cat, file = "/JS "+x, "javascript.js"
						b.Obj(20, 0, "(found)")
					case 19:
						cat, file = "/JS "+x, "javascript.js"
						b.Stream(20, 0, "", []byte("found"))
					case 20:
						cat = "/Names <</URLS <</Kids [" + x + "]>>>>"
						b.Obj(20, 0, "<</Names [(found) 0]>>")
					case 21:
						cat = "/Names <</URLS <</Names " + x + ">>>>"
						b.Obj(20, 0, "[(found) 0]")
					case 22:
						cat, file, want = "/Names <</EmbeddedFiles <</Names [(k) "+x+"]>>>>", "files.txt", zeroHash+":found"
						b.Obj(20, 0, "<</F (found)>>")
					case 23:
						filt, file, want = "/Filter "+x, "contents.txt", "Xbc"
						text = "4254202F46312031205466202861626329546A204554>"
						b.Obj(20, 0, "/ASCIIHexDecode")
					case 24:
						filt, file, want = "/Filter ["+x+"]", "contents.txt", "Xbc"
						text = "4254202F46312031205466202861626329546A204554>"
						b.Obj(20, 0, "/ASCIIHexDecode")
					case 25:
						length, file, want = "/Length "+x, "contents.txt", "Xbc"
						b.Obj(20, 0, fmt.Sprint(len(text)))
						ok = true // found by its end
					}
					b.Obj(1, 0, "<</Pages "+pages+" "+cat+">>")
					b.Obj(10, 0, "<</Kids "+kids+">>")
					b.Obj(11, 0, "<</Contents "+cont+" /Resources "+res+">>")
					b.Obj(12, 0, "<</Font "+fd+">>")
					b.Obj(13, 0, "<</ToUnicode "+font+">>")
					b.Stream(14, 0, "", []byte(cmap))
					if length == "" {
						b.Stream(15, 0, filt, []byte(text))
					} else {
						b.Obj(15, 0, "<<"+length+">>\nstream\n"+text+"\nendstream")
					}
					b.Obj(40, 0, "<</X <</URI (u)>> /A <</S /Launch /F (run)>>>>")
					aliases(b, g)
					b.Table("/Root 1 0 R")
					doc := b.Bytes()
					lab := label("aliases %v kind %d", g.alias, kind)
					return &mc.Case{Label: lab, Doc: doc, Run: func() mc.Result {
						r := extract(doc, "")
						if r.Err != nil {
							return fail("Parse: %v", r.Err)
						}
						for f, w := range map[string]string{"urls.txt": "u", "commands.txt": "run", file: want} {
							has := false
							for _, l := range trimmed(r.Lines(f)) {
								has = has || l == w
							}
							if has != (ok || w != want) {
								return fail("%s is %q, expected %q to be in it: %v", f, r.Get(f), w, ok || w != want)
							}
						}
						p, err := open(doc, "")
						if err != nil {
							return fail("Load: %v", err)
						}
						for i := 30; i < 34; i++ {
							v := Ref{g.alias[i], 0}
							if got := ref.From(p.GetObject(i).Value); !ref.Equal(got, v) {
								return fail("object %d reads as %s, expected %s", i, ref.Show(got), ref.Show(v))
							}
						}
						return mc.Result{Outcome: mc.Digest(fmt.Sprint(ok, kind))}
					}}
				}},
				{"xref chain", "three sections (tables or streams each), Prev of each and startxref over the three sections, inside one, start and end of file, far beyond and absent, plain or encrypted", func(c *mc.C) *mc.Case {
					var kind [3]bool
					var prev [4]int
					for i := range kind {
						kind[i] = c.Bool()
					}
					for i := range prev {
						prev[i] = c.Choose(8)
					}
					enc := c.Choose(4) // which section holds Encrypt
					if !th && enc > 0 && (prev[0]+prev[1]+prev[2]+prev[3])%4 != 0 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					cr := econfsFew[1].crypt("", "")
					m := econfsFew[1].method()
					cr.Setup()
					doc := ref.Fix(func(l *ref.Layout) {
						off := func(k int) string {
							switch k {
							case 0, 1, 2:
								return fmt.Sprintf("%06d", l.Off(fmt.Sprint("s", k)))
							case 3:
								return fmt.Sprintf("%06d", l.Off("s1")+3)
							case 4:
								return "000000"
							case 5:
								return fmt.Sprintf("%06d", l.Off("end"))
							case 6:
								return "999999999999"
							}
							return "/None"
						}
						l.Text("%%PDF-1.5\n")
						for i := 0; i < 3; i++ {
							v := V(Str(fmt.Sprintf("value %d", i)))
							if enc > 0 {
								v = cr.EncryptValue(m, 10+i, 0, v)
							}
							l.Obj(fmt.Sprint("o", i), 10+i, 0, ref.Write(v))
							t := fmt.Sprintf("/Size 30 /Prev %s", off(prev[i]))
							if enc == i+1 {
								t += " " + cr.Trailer(cr.Dict(""))
							}
							o := l.Off(fmt.Sprint("o", i))
							l.Mark(fmt.Sprint("s", i))
							if kind[i] {
								e := map[int]ref.Entry{10 + i: {Off: o, Type: 1}}
								l.Text("%d 0 obj\n%s\nendobj\n", 20+i, ref.StreamBody("/Type /XRef /W [1 3 1] /Index ["+fmt.Sprint(10+i)+" 1] /Filter /ASCIIHexDecode "+t, append(ref.HexEncode(ref.XrefData(e, [][2]int{{10 + i, 1}}, [3]int{1, 3, 1}), true), '>')))
							} else {
								l.Text("xref\n%d 1\n%010d 00000 n \ntrailer\n<<%s>>\n", 10+i, o, t)
							}
						}
						l.Text("startxref\n%s\n%%%%EOF\n", off(prev[3]))
						l.Mark("end")
					})
					want := map[int]V{10: Str("value 0"), 11: Str("value 1"), 12: Str("value 2")}
					return valueCase(label("streams %v prev and start %v encrypt in %d", kind, prev, enc), doc, want)
				}},
				{"xref stream references", "Prev, Size, W, Index, Filter, DecodeParms, Type, ID, Encrypt of a cross-reference stream or trailer as references to the stream itself, the next object, an alias loop, a missing object, one or two at a time", func(c *mc.C) *mc.Case {
					ks := []string{"Prev", "Size", "W", "Index", "Filter", "DecodeParms", "ID", "Length", "Root", "Info"}
					k1, k2 := c.Choose(len(ks)), c.Choose(len(ks))
					t1, t2 := mc.Pick(c, []int{9, 10, 30, 31, 99}), mc.Pick(c, []int{9, 10, 30, 31, 99})
					arr := c.Bool()
					stream := c.Bool()
					if c.Skip {
						return mc.Stub
					}
					vals := map[string]string{"Prev": "0", "Size": "40", "W": "[1 2 1]", "Index": "[0 0]", "Filter": "/ASCIIHexDecode", "DecodeParms": "null", "ID": "[(a) (b)]", "Length": "1", "Root": "1 0 R", "Info": "null"}
					w := func(t int) string {
						if arr {
							return "[" + rf(t) + " " + rf(t) + " " + rf(t) + "]"
						}
						return rf(t)
					}
					vals[ks[k1]] = w(t1)
					vals[ks[k2]] = w(t2)
					t := ""
					for _, k := range ks {
						t += " /" + k + " " + vals[k]
					}
					b := ref.NewBuilder()
					b.Obj(1, 0, "(one)")
					b.Obj(10, 0, "<</Prev 9 0 R /A 10 0 R>>")
					b.Obj(30, 0, "31 0 R")
					b.Obj(31, 0, "30 0 R")
					o := b.Len()
					if stream {
						b.Text("9 0 obj\n<</Type /XRef" + t + ">>\nstream\n00>\nendstream\nendobj\n")
					} else {
						b.Text("9 0 obj\n9 0 R\nendobj\n")
						o = b.Len()
						b.Text("xref\n0 0\ntrailer\n<<" + t + ">>\n")
					}
					b.StartXref(o)
					want := map[int]V{1: Str("one"), 10: Dict{{"Prev", Ref{9, 0}}, {"A", Ref{10, 0}}}, 30: Ref{31, 0}}
					return valueCase(label("%s %s %s %s stream %v", ks[k1], w(t1), ks[k2], w(t2), stream), b.Bytes(), want)
				}},
				{"encryption references", "Encrypt, ID, V, R, O, U, P, Length, CF, StmF of an encrypted document through aliases, loops and missing objects, one or two at a time: Load ends, and works if both resolve", func(c *mc.C) *mc.Case {
					e := econfsFew[[]int{0, 1, 3}[c.Choose(3)]]
					ks := []string{"V", "R", "O", "U", "P", "Length", "CF", "StmF", "Filter", "Encrypt", "ID"}
					k1, k2 := c.Choose(len(ks)), c.Choose(len(ks))
					t1, t2 := c.Choose(4), c.Choose(4)
					if c.Skip {
						return mc.Stub
					}
					cr := e.crypt("user", "owner")
					m := e.method()
					cr.Setup()
					vals := map[string]string{"V": fmt.Sprint(e.v), "R": fmt.Sprint(e.r), "O": ref.HexLit(string(cr.O)), "U": ref.HexLit(string(cr.U)), "P": fmt.Sprint(cr.P), "Length": fmt.Sprint(e.bits), "Filter": "/Standard", "ID": "[" + ref.HexLit(cr.ID) + " (x)]"}
					if e.v == 4 {
						vals["CF"] = "<</StdCF <</CFM /AESV2 /Length 16>>>>"
						vals["StmF"] = "/StdCF /StrF /StdCF"
					}
					b := ref.NewBuilder()
					v := cr.EncryptValue(m, 1, 0, V(Str("one")))
					b.Obj(1, 0, ref.Write(v))
					ok := true
					put := func(k string, t int, base int) {
						old, has := vals[k]
						if k == "StmF" {
							old = "/StdCF"
						}
						if k == "Encrypt" || !has || strings.HasSuffix(old, " R") {
							return
						}
						x := rf(base)
						switch t {
						case 0: // chain to the value; strings in objects of their own would have to be encrypted
							b.Obj(base, 0, rf(base+1))
							b.Obj(base+1, 0, old)
							if k == "O" || k == "U" || k == "ID" {
								b.Obj(base+1, 0, "("+k+")")
								ok = false
							}
						case 1:
							b.Obj(base, 0, rf(base))
							ok = false
						case 2:
							b.Obj(base, 0, rf(base+1))
							b.Obj(base+1, 0, rf(base))
							ok = false
						case 3:
							ok = false
						}
						if k == "StmF" {
							x += " /StrF /StdCF"
						}
						vals[k] = x
					}
					put(ks[k1], t1, 100)
					put(ks[k2], t2, 110)
					d := "<<"
					for _, k := range ks[:9] {
						if vals[k] != "" {
							d += "/" + k + " " + vals[k] + " "
						}
					}
					b.Obj(90, 0, d+"/Loop 90 0 R>>")
					enc := "90 0 R"
					if ks[k1] == "Encrypt" || ks[k2] == "Encrypt" {
						enc = "91 0 R"
						b.Obj(91, 0, rf([]int{90, 91, 99, 92}[t1]))
						b.Obj(92, 0, "91 0 R")
						// the strings of an encryption dictionary behind an alias count as encrypted
						ok = false
					}
					b.Table("/Encrypt " + enc + " /ID " + vals["ID"])
					doc := b.Bytes()
					return &mc.Case{Label: label("%v %s %d %s %d", e, ks[k1], t1, ks[k2], t2), Doc: doc, Run: func() mc.Result {
						p, err := open(doc, "user")
						if !ok {
							return mc.Result{Outcome: mc.Digest(fmt.Sprint(err))}
						}
						if err != nil {
							return fail("Load: %v", err)
						}
						return checkValues(p, map[int]V{1: Str("one")})
					}}
				}},
			}...)
			for _, sc := range scopes {
				sc := sc
				if !th && strings.Contains(" larger trees any key URL tree ", " "+sc.Name+" ") {
					continue
				}
				scopes = append(scopes, mc.Scope{Name: sc.Name + ", other generations", Bound: "the same documents, the references with generation 7 while the objects have generation 0, every reference resolved and everything extracted: both end", Gen: func(c *mc.C) *mc.Case {
					cs := sc.Gen(c)
					if c.Skip || cs == nil {
						return cs
					}
					doc := bytes.ReplaceAll(cs.Doc, []byte(" 0 R"), []byte(" 7 R"))
					return &mc.Case{Label: cs.Label, Doc: doc, Run: func() mc.Result {
						p, err := open(doc, "")
						if err != nil {
							return mc.Result{Outcome: mc.Digest(fmt.Sprint(err))}
						}
						for _, n := range keys(p.Xref) {
							switch v := p.GetObject(n).Value.(type) {
							case *pdf.Reference:
								v.Resolve()
								v.ResolveStream()
							case pdf.Dictionary:
								for k := range v {
									v.GetObject(k)
									v.GetStream(k)
								}
							case pdf.Array:
								for i := range v {
									v.GetObject(i)
									v.GetStream(i)
								}
							}
						}
						r := extract(doc, "")
						return mc.Result{Outcome: mc.Digest(fmt.Sprint(r.Err))}
					}}
				}})
			}
			return scopes
		},
	})
}
