package props

import (
	"fmt"
	"strings"

	"verif/mc"
	"verif/ref"
)

// cmap writes a ToUnicode map from one-byte codes to strings.
func cmap(m map[byte]string) []byte {
	var s strings.Builder
	s.WriteString("/CIDInit /ProcSet findresource begin 12 dict begin begincmap /CMapName /X def\n1 begincodespacerange <00> <FF> endcodespacerange\n")
	fmt.Fprintf(&s, "%d beginbfchar\n", len(m))
	for i := 0; i < 256; i++ {
		if v, ok := m[byte(i)]; ok {
			fmt.Fprintf(&s, "<%02x> <%x>\n", i, v)
		}
	}
	s.WriteString("endbfchar endcmap end end\n")
	return []byte(s.String())
}

// mapFont is the model of the fonts made by cmap.
type mapFont map[byte]string

func (f mapFont) decode(s string) string {
	var o strings.Builder
	for i := 0; i < len(s); i++ {
		if v, ok := f[s[i]]; ok {
			o.WriteString(v)
		} else {
			o.WriteByte(s[i])
		}
	}
	return o.String()
}

// textOp is one operation of a content stream and its meaning.
type textOp struct {
	text string
	kind int // 0 nothing, 1 BT, 2 ET, 3 font, 4 show
	arg  string
}

var showOps = []textOp{
	{"(AB) Tj", 4, "AB"},
	{"[(A) -120 (B) (C) 3.5 (A)] TJ", 4, "ABCA"},
	{"(BA) '", 4, "BA"},
	{"2 1 (CB) \"", 4, "CB"},
	{"<41 4243> Tj", 4, "ABC"},
	{"[-3 (B) <43>]TJ", 4, "BC"},
	{"[] TJ", 4, ""},
	{"() Tj", 4, ""},
	{"[(A)] TJ", 4, "A"},
	{"[(\\(A\\)) 0 (\\101)] TJ", 4, "(A)A"},
}

var (
	opBT    = textOp{"BT", 1, ""}
	opET    = textOp{"ET", 2, ""}
	opF1    = textOp{"/F1 12 Tf", 3, "F1"}
	opF2    = textOp{"/F2 9.5 Tf", 3, "F2"}
	opF9    = textOp{"/F9 1 Tf", 3, "F9"}
	opOther = []textOp{
		{"1 0 0 1 72 720 Td", 0, ""}, {"T*", 0, ""}, {"q 1 0 0 RG Q", 0, ""}, {"/P <</MCID 0 /T true /S (S)>> BDC EMC", 0, ""},
		{"0 0 0 rg % (X) Tj\n", 0, ""}, {"/Im1 Do", 0, ""}, {"(A) Tz", 0, ""}, {"[3 2] 0 d", 0, ""},
	}
)

// runText is the model of a content stream.
func runText(ops []textOp, fonts map[string]mapFont) []string {
	var out []string
	in := false
	font := mapFont{}
	for _, o := range ops {
		switch o.kind {
		case 1:
			in, font = true, mapFont{}
		case 2:
			in = false
		case 3:
			font = fonts[o.arg]
		case 4:
			if in {
				out = append(out, font.decode(o.arg))
			}
		}
	}
	return out
}

func opsText(ops []textOp, sep string) string {
	var s []string
	for _, o := range ops {
		s = append(s, o.text)
	}
	return strings.Join(s, sep)
}

func textCase(lab string, doc []byte, want []string) *mc.Case {
	return &mc.Case{Label: lab, Doc: doc, Trivial: len(want) == 0, Run: func() mc.Result {
		r := extract(doc, "")
		if r.Err != nil {
			return fail("Parse: %v", r.Err)
		}
		exp := strings.Join(append(want[:len(want):len(want)], ""), "\n")
		if got := r.Get("contents.txt"); got != exp {
			return fail("contents.txt is %q, expected %q", got, exp)
		}
		return mc.Result{Outcome: mc.Digest(exp)}
	}}
}

var fontsAB = map[string]mapFont{"F1": {'A': "alpha", 'B': "b"}, "F2": {'C': "cc"}, "F3": {}}

// fontsDoc adds fonts F1, F2 (with maps) and F3 (without) as objects 30..32.
func fontsDoc(b *ref.Builder) string {
	b.Stream(35, 0, "", cmap(fontsAB["F1"]))
	b.Stream(36, 0, "", cmap(fontsAB["F2"]))
	b.Obj(30, 0, "<</Type /Font /ToUnicode 35 0 R>>")
	b.Obj(31, 0, "<</Type /Font /ToUnicode 36 0 R>>")
	b.Obj(32, 0, "<</Type /Font /BaseFont /X>>")
	return "/F1 30 0 R /F2 31 0 R /F3 32 0 R"
}

// oddCase has contents or kids in objects 60 and up and other elements between them.
func oddCase(lab string, n int, a string, kids, byRef bool) *mc.Case {
	b := ref.NewBuilder()
	fs := fontsDoc(b)
	if byRef {
		b.Obj(70, 0, a)
		a = "70 0 R"
	}
	var want []string
	for i := 0; i < n; i++ {
		prog := fmt.Sprintf("BT /F1 1 Tf (%dA) Tj ET", i)
		want = append(want, fmt.Sprintf("%dalpha", i))
		if kids {
			b.Obj(60+i, 0, fmt.Sprintf("<</Type /Page /Parent 2 0 R /Contents %d 0 R>>", 80+i))
			b.Stream(80+i, 0, "", []byte(prog))
		} else {
			b.Stream(60+i, 0, "", []byte(prog))
		}
	}
	b.Obj(1, 0, "<</Type /Catalog /Pages 2 0 R>>")
	res := " /Resources <</Font <<" + fs + ">>>>"
	if kids {
		b.Obj(2, 0, "<</Type /Pages /Kids "+a+res+">>")
	} else {
		b.Obj(2, 0, "<</Type /Pages /Kids [3 0 R]"+res+">>")
		b.Obj(3, 0, "<</Type /Page /Parent 2 0 R /Contents "+a+">>")
	}
	for i, v := range []string{"null", "17", "(text)", "[1 2]", "<</Some /Value>>"} {
		b.Obj(50+i, 0, v)
	}
	b.Table("/Root 1 0 R")
	return textCase(lab, b.Bytes(), want)
}

// pnode is a node of a page tree model.
type pnode struct {
	kids []*pnode
	page bool
	res  int // 0 none, 1 own fonts, 2 own resources without fonts
	num  int
}

// ptree enumerates ordered trees with up to n further nodes below the given one.
func ptree(c *mc.C, nd *pnode, left *int) {
	for *left > 0 && c.Bool() {
		*left--
		k := &pnode{}
		nd.kids = append(nd.kids, k)
		ptree(c, k, left)
	}
}

func (n *pnode) walk(f func(n *pnode)) {
	f(n)
	for _, k := range n.kids {
		k.walk(f)
	}
}

func (n *pnode) shape() string {
	s := ""
	for _, k := range n.kids {
		s += k.shape()
	}
	t := "(" + s + ")"
	if n.page {
		t = "p"
	}
	return t + []string{"", "f", "r"}[n.res]
}

func init() {
	one := func(contents string, objs func(b *ref.Builder)) []byte {
		b := ref.NewBuilder()
		b.Obj(1, 0, "<</Type /Catalog /Pages 2 0 R>>")
		b.Obj(2, 0, "<</Type /Pages /Kids [3 0 R] /Count 1>>")
		fs := fontsDoc(b)
		b.Obj(3, 0, "<</Type /Page /Parent 2 0 R /Resources <</Font <<"+fs+">>>> /Contents "+contents+">>")
		objs(b)
		b.Table("/Root 1 0 R")
		return b.Bytes()
	}
	mc.Register(&mc.Prop{
		ID:        "C18",
		Technique: "exhaustive enumeration of page trees, resource placements, operator sequences and splits of contents into streams; full extraction on the real code, contents.txt compared with an interpreter model",
		Note:      "Operators are separated by white space at least; strings hold no line ends so that lines can be told apart.",
		Scopes: func(th bool) []mc.Scope {
			words := func(c *mc.C, alpha []textOp, max int) []textOp {
				var w []textOp
				in := false
				for len(w) < max {
					k := c.Choose(len(alpha) + 1)
					if k == 0 {
						break
					}
					o := alpha[k-1]
					if o.kind == 1 && in || o.kind == 2 && !in {
						return nil
					}
					if o.kind == 3 && !in {
						return nil
					}
					in = o.kind == 1 || in && o.kind != 2
					w = append(w, o)
				}
				return w
			}
			nw, nt, nr := 5, 5, 3
			if th {
				nw, nt, nr = 6, 7, 4
			}
			return []mc.Scope{
				{"operators", fmt.Sprintf("all sequences of up to %d of: BT, ET, three fonts (mapped, mapped, unknown), three show operators, two other operators", nw), func(c *mc.C) *mc.Case {
					alpha := append([]textOp{opBT, opET, opF1, opF2, opF9}, showOps[0], showOps[1], showOps[2], opOther[0], opOther[4])
					w := words(c, alpha, nw)
					if len(w) == 0 {
						return nil
					}
					c.State(fmt.Sprint(runText(w, fontsAB)))
					if c.Skip {
						return mc.Stub
					}
					doc := one("4 0 R", func(b *ref.Builder) { b.Stream(4, 0, "", []byte(opsText(w, "\n"))) })
					return textCase(opsText(w, " "), doc, runText(w, fontsAB))
				}},
				{"inside", "BT, two operations out of all fonts, all show operators and all other operators, one out of 3 (thorough: all) show operators, ET, a show operator outside, a second text object; 4 separators", func(c *mc.C) *mc.Case {
					shows := showOps[:3]
					if th {
						shows = showOps
					}
					alpha := append(append([]textOp{opF1, opF2, opF9, {"/F3 1 Tf", 3, "F3"}}, showOps...), opOther...)
					w := []textOp{opBT, mc.Pick(c, alpha), mc.Pick(c, alpha), mc.Pick(c, shows), opET, showOps[2], opBT, showOps[1], opET}
					sep := mc.Pick(c, []string{"\n", " ", "\r\n", "%c\r"})
					if c.Skip {
						return mc.Stub
					}
					doc := one("4 0 R", func(b *ref.Builder) { b.Stream(4, 0, "", []byte(opsText(w, sep))) })
					return textCase(opsText(w, sep), doc, runText(w, fontsAB))
				}},
				{"stray", "two text objects with one stray token (closing delimiters, keywords of other constructs, left-over operands of every type, unknown operators) at every boundary between operations x separators x contents whole or split there: the operations' text is not affected", func(c *mc.C) *mc.Case {
					w := []textOp{opBT, opF1, showOps[0], showOps[1], showOps[2], {"/F3 1 Tf", 3, "F3"}, showOps[3], opET, opBT, opF2, showOps[5], opET}
					stray := []string{"]", ">>", ")", ">", "}", "{", "(left)", "[(left) 1]", "7", "/F9", "/F2 3", "<<>>", "<</Z [(left)]>>", "null", "true", "R", "obj", "endobj", "xyz", "1 2 3 4 5 6 7", "]]", ">>]", "( ) (x)", "trailer", "-", "+.", "/", "<>", "%left"}
					t := mc.Pick(c, stray)
					at := c.Choose(len(w) + 1)
					sep := mc.Pick(c, []string{"\n", "\r"})
					split := c.Choose(3)
					if c.Skip {
						return mc.Stub
					}
					if split > 0 && strings.HasPrefix(t, "%") {
						return nil
					}
					a, z := opsText(w[:at], sep), opsText(w[at:], sep)
					ct := "4 0 R"
					parts := []string{a + sep + t + sep + z}
					if split > 0 {
						ct = "[4 0 R 5 0 R]"
						parts = []string{a + sep + t, z}
						if split == 2 {
							parts = []string{a, t + sep + z}
						}
					}
					doc := one(ct, func(b *ref.Builder) {
						for i, x := range parts {
							b.Stream(4+i, 0, "", []byte(x))
						}
					})
					return textCase(label("%q at %d, separator %q, split %d", t, at, sep, split), doc, runText(w, fontsAB))
				}},
				{"splits", "a program of 11 operations split into 1 to 3 streams (plus missing or empty elements) at every pair of token boundaries x array direct, by reference, in a chain of references x filters", func(c *mc.C) *mc.Case {
					w := []textOp{opBT, opF1, showOps[0], opOther[0], showOps[1], opET, showOps[2], opBT, showOps[3], opF2, showOps[5], opET}
					toks := strings.Fields(opsText(w, " "))
					i := c.Choose(len(toks) + 1)
					j := i + c.Choose(len(toks)-i+1)
					form := c.Choose(4)
					extra := c.Choose(3)
					filt := c.Bool()
					if c.Skip {
						return mc.Stub
					}
					parts := []string{strings.Join(toks[:i], " "), strings.Join(toks[i:j], " "), strings.Join(toks[j:], " ")}
					if extra == 2 { // exactly as many streams as needed
						var p []string
						for _, s := range parts {
							if s != "" {
								p = append(p, s)
							}
						}
						parts = p
					}
					// a string or array split between streams is legal for the tokens "[(A) -120 (B)"; a token is never cut
					contents := "["
					var bodies []func(b *ref.Builder)
					for k, s := range parts {
						n := 10 + k
						s := s
						contents += fmt.Sprintf("%d 0 R ", n)
						bodies = append(bodies, func(b *ref.Builder) {
							if filt {
								b.Stream(n, 0, "/Filter /ASCIIHexDecode", append(ref.HexEncode([]byte(s), false), '>'))
							} else {
								b.Stream(n, 0, "", []byte(s))
							}
						})
					}
					if extra == 1 {
						contents += "99 0 R "
					}
					contents += "]"
					switch form {
					case 1:
						a := contents
						contents = "20 0 R"
						bodies = append(bodies, func(b *ref.Builder) { b.Obj(20, 0, a) })
					case 2:
						a := contents
						contents = "20 0 R"
						bodies = append(bodies, func(b *ref.Builder) { b.Obj(20, 0, "21 0 R"); b.Obj(21, 0, a) })
					case 3:
						if len(parts) != 1 {
							return nil
						}
						contents = "10 0 R"
					}
					doc := one(contents, func(b *ref.Builder) {
						for _, f := range bodies {
							f(b)
						}
					})
					return textCase(label("split %d %d form %d extra %d filtered %v", i, j, form, extra, filt), doc, runText(w, fontsAB))
				}},
				{"buffers", "a program of 12 operations with 0 to 180 bytes of white space or comment before it so that every token meets the read buffer's end, at one or two buffers' distance", func(c *mc.C) *mc.Case {
					w := []textOp{opBT, opF1, showOps[0], opOther[0], showOps[1], opOther[3], showOps[4], opET, opBT, opF2, showOps[5], opET}
					at := []int{4096, 8192}[c.Choose(2)] - c.Choose(190)
					pad := strings.Repeat(" ", at)
					if c.Bool() {
						pad = "%" + strings.Repeat("x", at-2) + "\n"
					}
					doc := one("4 0 R", func(b *ref.Builder) { b.Stream(4, 0, "", []byte(pad+opsText(w, " "))) })
					return textCase(label("at %d comment %v", at, pad[0] == '%'), doc, runText(w, fontsAB))
				}},
				{"trees", fmt.Sprintf("all ordered page trees of up to %d nodes below the root, childless nodes being pages or empty, object numbers and file order in either direction", nt), func(c *mc.C) *mc.Case {
					return treeCase(c, nt, false)
				}},
				{"resources", fmt.Sprintf("all ordered page trees of up to %d nodes below the root with every placement of resources (none, with a font, without fonts)", nr), func(c *mc.C) *mc.Case {
					return treeCase(c, nr, true)
				}},
				{"large trees", "page trees of every size class up to 3000 nodes (chains up to 20000, wide nodes up to 70000): chains, wide nodes, k by m pages, with a font set at the root; object numbers ascending or descending", func(c *mc.C) *mc.Case {
					dims := []int{1, 2, 9, 10, 16, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 512, 513, 999, 1000, 1001, 1024, 1025}
					shape := c.Choose(3)
					if shape < 2 {
						dims = append(dims, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 5001, 8193, 10001, 20000, 65537, 70000)
					}
					if shape == 0 {
						dims = dims[:len(dims)-2]
					}
					n := mc.Pick(c, dims)
					m := 1
					if shape == 2 {
						m = []int{2, 3, 10, 33}[c.Choose(4)]
						if n*m > 3000 {
							return nil
						}
					}
					rev := c.Bool()
					if c.Skip {
						return mc.Stub
					}
					total := n*(m+1) + 1
					num := func(i int) int {
						if rev {
							i = total - i
						}
						return 40 + i
					}
					b := ref.NewBuilder()
					fs := fontsDoc(b)
					b.Obj(1, 0, "<</Type /Catalog /Pages 2 0 R>>")
					var want []string
					page := func(k, parent, id int) {
						b.Obj(num(k), 0, fmt.Sprintf("<</Type /Page /Parent %d 0 R /Contents %d 0 R>>", parent, 300000+id))
						b.Stream(300000+id, 0, "", []byte(fmt.Sprintf("BT /F1 1 Tf (%dA) Tj ET", id)))
						want = append(want, fmt.Sprintf("%dalpha", id))
					}
					kids := ""
					switch shape {
					case 0: // a chain with the page at its end
						for i := 0; i < n; i++ {
							b.Obj(num(i), 0, fmt.Sprintf("<</Type /Pages /Kids [%d 0 R]>>", num(i+1)))
						}
						page(n, num(n-1), 0)
						kids = fmt.Sprintf("%d 0 R", num(0))
					case 1:
						for i := 0; i < n; i++ {
							kids += fmt.Sprintf("%d 0 R ", num(i))
							page(i, 2, i)
						}
					case 2:
						for i := 0; i < n; i++ {
							kids += fmt.Sprintf("%d 0 R ", num(i*(m+1)))
							t := ""
							for j := 1; j <= m; j++ {
								t += fmt.Sprintf("%d 0 R ", num(i*(m+1)+j))
								page(i*(m+1)+j, num(i*(m+1)), i*m+j)
							}
							b.Obj(num(i*(m+1)), 0, "<</Type /Pages /Kids ["+t+"]>>")
						}
					}
					b.Obj(2, 0, "<</Type /Pages /Resources <</Font <<"+fs+">>>> /Kids ["+kids+"]>>")
					b.Table("/Root 1 0 R")
					return textCase(label("shape %d %d by %d reversed %v", shape, n, m, rev), b.Bytes(), want)
				}},
				{"pieces", "a string of three two-byte codes (mapped, range, unmapped in every order) cut into TJ elements at every subset of its inner bytes, elements literal or hexadecimal, with or without numbers or empty strings in between", func(c *mc.C) *mc.Case {
					cut := c.Choose(32)
					perm := c.Choose(6)
					form := c.Choose(4)
					if c.Skip {
						return mc.Stub
					}
					es := []cent{{lo: 0x4142, hi: 0x4142, to: "one"}, {lo: 0x4243, hi: 0x4246, rng: true, to: "\x00x"}, {lo: 0x43, hi: 0x43, to: "n"}}
					codes := []string{"AB", "BD", "DC"}
					codes[0], codes[perm%3] = codes[perm%3], codes[0]
					if perm > 2 {
						codes[1], codes[2] = codes[2], codes[1]
					}
					s := strings.Join(codes, "")
					var parts []string
					last := 0
					for i := 1; i <= len(s); i++ {
						if i == len(s) || cut>>(i-1)&1 == 1 {
							parts = append(parts, s[last:i])
							last = i
						}
					}
					arr := "["
					for i, p := range parts {
						if (form+i)%2 == 0 {
							arr += ref.Lit(p)
						} else {
							arr += ref.HexLit(p)
						}
						if form > 1 {
							arr += []string{" -20.5 ", "()", " 7 <> 8 "}[i%3]
						}
					}
					b := ref.NewBuilder()
					b.Obj(1, 0, "<</Type /Catalog /Pages 2 0 R>>")
					b.Obj(2, 0, "<</Type /Pages /Kids [3 0 R] /Count 1>>")
					b.Obj(3, 0, "<</Type /Page /Resources <</Font <</F1 5 0 R>>>> /Contents 4 0 R>>")
					b.Stream(4, 0, "", []byte("BT /F1 1 Tf "+arr+"] TJ ET"))
					b.Obj(5, 0, "<</Type /Font /ToUnicode 6 0 R>>")
					b.Stream(6, 0, "", cstyle{sep: "\n"}.text(2, es))
					b.Table("/Root 1 0 R")
					return textCase(label("%s] TJ", arr), b.Bytes(), []string{decodeModel(2, es, s)})
				}},
				{"inline images", "inline images before, between and inside text objects, with data of up to 4 of 16 fragments that look like other tokens, 3 ways to start and end the data, one or two images, contents whole or as an array of two streams", func(c *mc.C) *mc.Case {
					frag := []string{"(", ")", "<<", "<", "[", "]", "%", "BT", " ET ", "\nEIx", "xEI", "EI", "\xff\xfe", "\x00\r", "(\\", " ID "}
					nf := 3
					if th {
						nf = 4
					}
					w := word(c, frag, nf)
					at := c.Choose(4)
					style := c.Choose(3)
					form := c.Choose(3)
					if len(w) == 0 && form > 0 {
						return nil
					}
					img := []string{"BI /W 4 /H 1 /BPC 8 /CS /G", "BI\n/IM true/D[0 1]/F[/AHx /Fl]/DP<</K -1>>"}[form&1] + []string{" ID ", "\nID\n", "\rID\r"}[style]
					data := strings.Join(w, "")
					t := " " + data + " "
					for _, r := range "\n\r\x00" {
						t = strings.ReplaceAll(t, string(r), " ")
					}
					if strings.Contains(t, " EI ") {
						return nil
					}
					img += data + []string{" EI ", "\nEI\n", "\r\nEI\r\n"}[style]
					if form == 2 {
						img += img
					}
					parts := []string{"BT /F1 1 Tf (A) Tj ", "(B) Tj ET ", "q Q ", "BT [(AB)] TJ ET"}
					s := ""
					for i, x := range parts {
						if i == at {
							s += img
						}
						s += x
					}
					if at == 0 { // at the very end, too
						s += " " + strings.TrimRight(img, " \r\n")
					}
					doc := one("4 0 R", func(b *ref.Builder) { b.Stream(4, 0, "", []byte(s)) })
					if form == 1 {
						doc = one("[4 0 R 5 0 R]", func(b *ref.Builder) {
							i := strings.Index(s, "q Q")
							b.Stream(4, 0, "", []byte(s[:i]))
							b.Stream(5, 0, "", []byte(s[i:]))
						})
					}
					return textCase(label("%q", s), doc, []string{"alpha", "b", "AB"})
				}},
				{"sizes", "1 to 70000 text operations, text objects, pieces of one operation, bytes of one string, fonts, content streams, operands, other operators, or marked content levels", func(c *mc.C) *mc.Case {
					kind := c.Choose(9)
					n := mc.Pick(c, []int{1, 2, 9, 10, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 499, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8192, 10000, 10001, 16385, 32768, 32769, 65535, 65536, 65537, 70000})
					if kind == 5 && n > 3000 || kind == 4 && n > 3000 || kind == 8 && n > 500 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					var want []string
					var s strings.Builder
					end := func(s string) []byte {
						return one("4 0 R", func(b *ref.Builder) { b.Stream(4, 0, "", []byte(s)) })
					}
					var doc []byte
					last := "\nBT /F1 1 Tf (AZ) Tj ET"
					switch kind {
					case 0:
						s.WriteString("BT /F1 1 Tf ")
						for i := 0; i < n; i++ {
							fmt.Fprintf(&s, "(%dA) Tj ", i)
							want = append(want, fmt.Sprintf("%dalpha", i))
						}
						doc = end(s.String() + "ET" + last)
					case 1:
						for i := 0; i < n; i++ {
							fmt.Fprintf(&s, "BT /F%d 1 Tf (%dAC) ' ET\n", 1+i%2, i)
							want = append(want, fontsAB[fmt.Sprintf("F%d", 1+i%2)].decode(fmt.Sprintf("%dAC", i)))
						}
						doc = end(s.String() + last)
					case 2:
						s.WriteString("BT /F1 1 Tf [")
						t := ""
						for i := 0; i < n; i++ {
							fmt.Fprintf(&s, "(%d)-%d ", i%10, i)
							t += fmt.Sprint(i % 10)
						}
						want = append(want, t)
						doc = end(s.String() + "] TJ ET" + last)
					case 3:
						t := strings.Repeat("xyzA", n/4) + "xyz"[:n%4]
						want = append(want, fontsAB["F1"].decode(t))
						doc = end("BT /F1 1 Tf (" + t + ") Tj ET" + last)
					case 4:
						b := ref.NewBuilder()
						b.Obj(1, 0, "<</Type /Catalog /Pages 2 0 R>>")
						b.Obj(2, 0, "<</Type /Pages /Kids [3 0 R] /Count 1>>")
						b.Stream(35, 0, "", cmap(fontsAB["F1"]))
						fs := ""
						for i := 0; i < n; i++ {
							b.Obj(100+i, 0, "<</Type /Font /ToUnicode 35 0 R>>")
							fs += fmt.Sprintf("/Font%d %d 0 R ", i, 100+i)
						}
						b.Obj(3, 0, "<</Type /Page /Parent 2 0 R /Resources <</Font <<"+fs+"/F1 100 0 R>>>> /Contents 4 0 R>>")
						for i := 0; i < n; i++ {
							if i%37 == 0 || i == n-1 {
								fmt.Fprintf(&s, "BT /Font%d 1 Tf (A%d) Tj ET ", i, i)
								want = append(want, fmt.Sprintf("alpha%d", i))
							}
						}
						b.Stream(4, 0, "", []byte(s.String()+last))
						b.Table("/Root 1 0 R")
						doc = b.Bytes()
					case 5:
						b := ref.NewBuilder()
						b.Obj(1, 0, "<</Type /Catalog /Pages 2 0 R>>")
						b.Obj(2, 0, "<</Type /Pages /Kids [3 0 R] /Count 1>>")
						fs := fontsDoc(b)
						a := ""
						for i := 0; i < n; i++ {
							b.Stream(100+i, 0, "", []byte(fmt.Sprintf("BT /F1 1 Tf (%dA) Tj ET", i)))
							want = append(want, fmt.Sprintf("%dalpha", i))
							a += fmt.Sprintf("%d 0 R ", 100+i)
						}
						b.Stream(4, 0, "", []byte(last))
						b.Obj(3, 0, "<</Type /Page /Parent 2 0 R /Resources <</Font <<"+fs+">>>> /Contents ["+a+"4 0 R]>>")
						b.Table("/Root 1 0 R")
						doc = b.Bytes()
					case 6:
						doc = end("BT " + strings.Repeat("1 ", n) + "(A) Tj ET" + last)
						want = []string{"A"}
					case 7:
						doc = end(strings.Repeat("0 0 m\n", n) + "BT " + strings.Repeat("T*\n", n) + "(A) Tj ET" + last)
						want = []string{"A"}
					case 8:
						doc = end(strings.Repeat("/P <</MCID 0>> BDC q ", n) + "BT /P " + strings.Repeat("[", n) + strings.Repeat("]", n) + " DP (A) Tj ET" + strings.Repeat(" Q EMC", n) + last)
						want = []string{"A"}
					}
					return textCase(label("kind %d n %d", kind, n), doc, append(want, "alphaZ"))
				}},
				{"odd elements", "Contents and Kids arrays of two or three real elements with up to two others (null, numbers, names, strings, dictionaries, arrays, references to nothing, to null, to values that are no streams or pages) at every position, direct or by reference: the real ones count", func(c *mc.C) *mc.Case {
					odd := []string{"null", "0", "-7", "/Name", "(string)", "<<>>", "<</Kids [3 0 R]/Contents 4 0 R>>", "[]", "[4 0 R]", "true", "99 0 R", "50 0 R", "51 0 R", "52 0 R", "53 0 R", "54 0 R", "0 0 R", "xyz"}
					kids := c.Bool()
					ref := c.Bool()
					n := 2 + c.Choose(2)
					k := 1 + c.Choose(2)
					if !th && k == 2 && (n == 3 || ref) {
						return nil
					}
					pos := c.Choose(n + 1)
					o1 := mc.Pick(c, odd)
					pos2, o2 := 0, ""
					if k == 2 {
						pos2 = pos + c.Choose(n+1-pos)
						o2 = mc.Pick(c, odd)
					}
					if c.Skip {
						return mc.Stub
					}
					a := ""
					for i := 0; i <= n; i++ {
						if i == pos {
							a += o1 + " "
						}
						if k == 2 && i == pos2 {
							a += o2 + " "
						}
						if i < n {
							a += fmt.Sprintf("%d 0 R ", 60+i)
						}
					}
					a = "[" + a + "]"
					return oddCase(label("%s, kids %v by reference %v", a, kids, ref), n, a, kids, ref)
				}},
				{"other entries", "each of 500 entry names with seven values in the page, the page tree's nodes, the resources, the fonts, the contents' or the map's dictionary, and 150 values of Type and Subtype there: the text is the same", func(c *mc.C) *mc.Case {
					place := c.Choose(8)
					k := c.Choose(len(stdKeys) + 2*len(stdTypes))
					e, key := "", ""
					if k < len(stdKeys) {
						key = stdKeys[k]
						e = " /" + key + " " + mc.Pick(c, []string{"1", "/Name", "(text)", "null", "[0 0 612 792]", "<</Name 1>>", "50 0 R"})
					} else {
						k -= len(stdKeys)
						key = []string{"Type", "Subtype"}[k%2]
						e = " /" + key + " /" + stdTypes[k/2]
					}
					own := [][]string{{"Contents", "Resources", "Kids", "Font"}, {"Kids", "Resources", "Contents"}, {"Kids", "Contents", "Resources"}, {"Font"}, {"F1", "F2", "F3"}, {"ToUnicode"}, {"Filter", "DecodeParms"}, {"Filter", "DecodeParms"}}[place]
					for _, o := range own {
						if key == o {
							return nil
						}
					}
					if c.Skip {
						return mc.Stub
					}
					at := func(p int) string {
						if p == place {
							return e
						}
						return ""
					}
					b := ref.NewBuilder()
					b.Obj(1, 0, "<</Type /Catalog /Pages 2 0 R>>")
					b.Obj(2, 0, "<</Type /Pages /Kids [3 0 R 4 0 R] /Count 2"+at(1)+">>")
					b.Obj(3, 0, "<</Type /Pages /Parent 2 0 R /Kids [5 0 R] /Count 1 /Resources <</Font <</F1 9 0 R"+at(4)+">>"+at(3)+">>"+at(2)+">>")
					b.Obj(4, 0, "<</Type /Page /Parent 2 0 R /Contents [8 0 R] /Resources <</Font <</F1 9 0 R>>>>>>")
					b.Obj(5, 0, "<</Type /Page /Parent 3 0 R /Contents 7 0 R"+at(0)+">>")
					b.Stream(7, 0, at(6), []byte("BT /F1 1 Tf (A) Tj (B) ' ET"))
					b.Stream(8, 0, "", []byte("BT /F1 1 Tf (Z) Tj ET"))
					b.Obj(9, 0, "<</Type /Font /Subtype /Type0 /ToUnicode 10 0 R"+at(5)+">>")
					b.Stream(10, 0, at(7), cmap(fontsAB["F1"]))
					b.Obj(50, 0, "<</Name [1 2 (3)] /Type /Other>>")
					b.Table("/Root 1 0 R")
					f := fontsAB["F1"]
					return textCase(label("%s at %d", e, place), b.Bytes(), []string{f.decode("A"), f.decode("B"), f.decode("Z")})
				}},
				{"large contents", "contents of 60000 to 9000000 bytes (white space, comments, operators or shown text) in one to three streams, the last with the text, coded or not", func(c *mc.C) *mc.Case {
					n := mc.Pick(c, []int{60000, 65535, 65536, 65537, 99999, 100000, 131072, 262144, 500000, 524288, 999999, 1000000, 1 << 20, 1<<20 + 1, 2000000, 1 << 21, 1 << 22, 5000000, 1 << 23, 9000000})
					fill := c.Choose(4)
					parts := 1 + c.Choose(3)
					coded := c.Bool()
					if !th && n > 2000000 && (fill > 1 && parts < 3 || coded && n > 1<<22) {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					x := strings.Repeat([]string{" ", "%", "0 0 m\n", "BT (x) ' ET\n"}[fill], n/[]int{1, 1, 6, 12}[fill])
					if fill == 1 {
						x += "\n"
					}
					var want []string
					if fill == 3 {
						for i := 0; i < n/12; i++ {
							want = append(want, "x")
						}
					}
					if parts == 3 {
						want = append(want, want...)
					}
					want = append(want, "alphaZ")
					last := "BT /F1 1 Tf (AZ) Tj ET"
					contents := "[4 0 R 5 0 R 6 0 R]"
					var l []string
					switch parts {
					case 1:
						contents, l = "4 0 R", []string{x + last}
					case 2:
						contents, l = "[4 0 R 5 0 R]", []string{x, last}
					case 3:
						l = []string{x, x, last}
					}
					doc := one(contents, func(b *ref.Builder) {
						for i, t := range l {
							if coded {
								b.Stream(4+i, 0, "/Filter /FlateDecode", ref.Zlib([]byte(t), 6))
							} else {
								b.Stream(4+i, 0, "", []byte(t))
							}
						}
					})
					return textCase(label("%d bytes fill %d parts %d coded %v", n, fill, parts, coded), doc, want)
				}},
				{"left-over operands", "0 to 300 and up to 70000 left-over operands of 5 types before a font selection and each of the show operators", func(c *mc.C) *mc.Case {
					n := c.Choose(301 + 12)
					if n > 300 {
						n = []int{499, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 10000, 65536, 70000}[n-301]
					}
					o := mc.Pick(c, []string{"1 ", "/F2 ", "(x)", "[1 (y)]", "<</A 1>>"})
					k := c.Choose(5)
					if n > 5000 && k != 4 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					x := strings.Repeat(o, n)
					show := x + []string{"(AZ) Tj", "[(A)1(Z)] TJ", "(AZ) '", "1 2 (AZ) \"", "<415a> Tj"}[k]
					doc := one("4 0 R", func(b *ref.Builder) { b.Stream(4, 0, "", []byte("BT "+x+"/F1 1 Tf "+show+" ET")) })
					return textCase(label("%d of %s before %d", n, o, k), doc, []string{"alphaZ"})
				}},
				{"shared", "three pages whose contents are any of: nothing, a stream, arrays of one or two of two streams (also the same one twice), a shared array object; page fonts of three kinds; shared page resources or own ones", func(c *mc.C) *mc.Case {
					words := []string{"", "20 0 R", "21 0 R", "[20 0 R]", "[20 0 R 20 0 R]", "[20 0 R 21 0 R]", "[21 0 R 20 0 R]", "22 0 R", "[21 0 R 21 0 R 20 0 R]"}
					parts := [][]int{{}, {0}, {1}, {0}, {0, 0}, {0, 1}, {1, 0}, {0, 1}, {1, 1, 0}}
					n := 2 + c.Choose(2)
					var w, f []int
					for i := 0; i < n; i++ {
						w = append(w, c.Choose(len(words)))
						f = append(f, c.Choose(3))
					}
					nested := c.Bool()
					if !th && n == 3 && (w[0]+2*w[1]+3*w[2]+f[0]+f[1]+f[2])%4 != 0 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					fonts := []mapFont{fontsAB["F1"], fontsAB["F2"], {}}
					texts := [][2]string{{"BT /F1 1 Tf (A) Tj (C) Tj ET ", "A C"}, {"BT /F1 1 Tf [(B) 1 (C)] TJ ET ", "BC"}}
					b := ref.NewBuilder()
					b.Obj(1, 0, "<</Type /Catalog /Pages 2 0 R>>")
					fontsDoc(b)
					kids := ""
					var want []string
					for i := 0; i < n; i++ {
						kids += fmt.Sprintf("%d 0 R ", 10+i)
						cont := ""
						if words[w[i]] != "" {
							cont = " /Contents " + words[w[i]]
						}
						b.Obj(10+i, 0, fmt.Sprintf("<</Type /Page /Parent 2 0 R /Resources <</Font <</F1 %d 0 R>>>>%s>>", 30+f[i], cont))
						for _, k := range parts[w[i]] {
							for _, t := range strings.Fields(texts[k][1]) {
								want = append(want, fonts[f[i]].decode(t))
							}
						}
					}
					for i, t := range texts {
						b.Stream(20+i, 0, "", []byte(t[0]))
					}
					b.Obj(22, 0, "[20 0 R 21 0 R]")
					if nested {
						b.Obj(2, 0, "<</Type /Pages /Kids [3 0 R 4 0 R]>>")
						b.Obj(3, 0, "<</Type /Pages /Kids [10 0 R]>>")
						b.Obj(4, 0, "<</Type /Pages /Kids ["+kids[len("10 0 R "):]+"]>>")
					} else {
						b.Obj(2, 0, "<</Type /Pages /Kids ["+kids+"]>>")
					}
					b.Table("/Root 1 0 R")
					return textCase(label("contents %v fonts %v nested %v", w, f, nested), b.Bytes(), want)
				}},
				{"indirection", "fonts reached through every combination of direct and referenced Resources, Font dictionary, font, ToUnicode chain, page contents and page resources own or inherited (own ones absent or null), several pages sharing them", func(c *mc.C) *mc.Case {
					var bit [7]bool
					for i := range bit {
						bit[i] = c.Bool()
					}
					pages := 1 + c.Choose(3)
					none := "" // null is as good as absent
					if bit[5] {
						none = mc.Pick(c, []string{"", "/Resources null", "/Resources 99 0 R", "/Resources 39 0 R"})
					}
					if c.Skip {
						return mc.Stub
					}
					b := ref.NewBuilder()
					next := 40
					b.Obj(39, 0, "null")
					ind := func(on bool, s string) string {
						if !on {
							return s
						}
						b.Obj(next, 0, s)
						next++
						return fmt.Sprintf("%d 0 R", next-1)
					}
					b.Stream(35, 0, "", cmap(fontsAB["F1"]))
					tu := ind(bit[0], "35 0 R")
					font := ind(bit[1], "<</Type /Font /ToUnicode "+tu+">>")
					fd := ind(bit[2], "<</F1 "+font+">>")
					res := "/Resources " + ind(bit[3], "<</ProcSet [/PDF] /Font "+fd+">>")
					b.Obj(1, 0, "<</Type /Catalog /Pages "+ind(bit[4], "2 0 R")+">>")
					kids := ""
					var want []string
					for i := 0; i < pages; i++ {
						own := none
						if !bit[5] {
							own = res
						}
						kids += ind(bit[6], fmt.Sprintf("%d 0 R", 10+i)) + " "
						b.Stream(20+i, 0, "", []byte(fmt.Sprintf("BT /F1 1 Tf (%dA) Tj ET", i)))
						b.Obj(10+i, 0, fmt.Sprintf("<</Type /Page /Parent 2 0 R %s /Contents %d 0 R>>", own, 20+i))
						want = append(want, fmt.Sprintf("%dalpha", i))
					}
					if !bit[5] {
						res = ""
					}
					b.Obj(2, 0, fmt.Sprintf("<</Type /Pages %s /Kids %s>>", res, ind(bit[4], "["+kids+"]")))
					b.Table("/Root 1 0 R")
					return textCase(label("indirect %v pages %d %s", bit, pages, none), b.Bytes(), want)
				}},
			}
		},
	})
}

func treeCase(c *mc.C, n int, withRes bool) *mc.Case {
	root := &pnode{}
	left := n
	ptree(c, root, &left)
	if len(root.kids) == 0 {
		return nil
	}
	pages := 0
	root.walk(func(x *pnode) {
		if len(x.kids) == 0 {
			x.page = withRes || !c.Bool()
			if x.page {
				pages++
			}
		}
		if withRes {
			x.res = c.Choose(3)
		}
	})
	rev, back := c.Bool(), c.Bool()
	if c.Skip {
		return mc.Stub
	}
	var all []*pnode
	root.walk(func(x *pnode) { all = append(all, x) })
	for i, x := range all {
		x.num = 10 + i
		if rev {
			x.num = 10 + len(all) - i
		}
	}
	var bodies []func(b *ref.Builder)
	var want []string
	var visit func(x *pnode, parent int, font mapFont)
	visit = func(x *pnode, parent int, font mapFont) {
		res := ""
		switch x.res {
		case 1:
			t := fmt.Sprintf("<n%d>", x.num)
			font = mapFont{'A': t}
			cm := cmap(font)
			n := 60 + x.num
			bodies = append(bodies, func(b *ref.Builder) { b.Stream(n, 0, "", cm) })
			res = fmt.Sprintf(" /Resources <</Font <</F1 <</Type /Font /ToUnicode %d 0 R>>>>>>", n)
		case 2:
			font = mapFont{}
			res = " /Resources <<>>"
		}
		up := ""
		if parent > 0 {
			up = fmt.Sprintf(" /Parent %d 0 R", parent)
		}
		if x.page {
			text := fmt.Sprintf("BT /F1 1 Tf (%dA) Tj ET", x.num)
			want = append(want, font.decode(fmt.Sprintf("%dA", x.num)))
			bodies = append(bodies, func(b *ref.Builder) {
				b.Obj(x.num, 0, fmt.Sprintf("<</Type /Page%s%s /Contents %d 0 R>>", up, res, x.num+30))
				b.Stream(x.num+30, 0, "", []byte(text))
			})
			return
		}
		kids := ""
		for _, k := range x.kids {
			kids += fmt.Sprintf("%d 0 R ", k.num)
		}
		bodies = append(bodies, func(b *ref.Builder) {
			b.Obj(x.num, 0, fmt.Sprintf("<</Type /Pages%s%s /Kids [%s]>>", up, res, kids))
		})
		for _, k := range x.kids {
			visit(k, x.num, font)
		}
	}
	visit(root, 0, mapFont{})
	b := ref.NewBuilder()
	b.Obj(1, 0, fmt.Sprintf("<</Type /Catalog /Pages %d 0 R>>", root.num))
	for i := range bodies {
		if back {
			bodies[len(bodies)-1-i](b)
		} else {
			bodies[i](b)
		}
	}
	b.Table("/Root 1 0 R")
	return textCase(label("tree %s numbers reversed %v file reversed %v", root.shape(), rev, back), b.Bytes(), want)
}
