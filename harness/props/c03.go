package props

import (
	"fmt"
	"strings"

	"verif/mc"
	"verif/ref"
)

var leaves = []V{ref.Null, ref.True, ref.False, Num(1), Num(-2.5), Str("a"), Name("N"), Ref{N: 3, G: 0}, Num(0), Name(""), Str(""), Ref{N: 12, G: 7}}

// tree enumerates all trees with at most *budget nodes below.
func tree(c *mc.C, budget *int, depth, nleaves int) V {
	n := nleaves
	if depth > 0 {
		n += 2
	}
	k := c.Choose(n)
	if k < nleaves {
		return leaves[k]
	}
	if k == nleaves {
		a := Arr{}
		for *budget > 0 && c.Bool() {
			*budget--
			a = append(a, tree(c, budget, depth-1, nleaves))
		}
		return a
	}
	d := Dict{}
	for *budget > 0 && c.Bool() {
		*budget--
		d = append(d, KV{K: []string{"K", "L", "M2", "Q"}[len(d)], V: tree(c, budget, depth-1, nleaves)})
	}
	return d
}

var seps = []string{" ", "", "\n", "\r", "\r\n", "\t\x00\f ", "%comment (<[\n", "%c\r", "%c\r\n", "%%\n%(\n ", " %\n", "\n\n\n"}

var far03 = func() []int {
	var s []int
	for i := 0; i <= 300; i++ {
		s = append(s, i)
	}
	for p := 512; p <= 16384; p *= 2 {
		s = append(s, p-1, p, p+1)
	}
	return s
}()

func init() {
	layoutCase := func(v V, lab string, sep func(i int) string) *mc.Case {
		s := ref.Join(ref.Tokens(v), sep)
		return valueCase(label("%s %q", lab, s), ref.Simple(s, "(next)"), map[int]V{1: v, 2: Str("next")})
	}
	mc.Register(&mc.Prop{
		ID:        "C03",
		Technique: "exhaustive enumeration of object trees and token layouts, run on the real reader, compared with the tree",
		Scopes: func(th bool) []mc.Scope {
			d := 0
			if th {
				d = 1
			}
			return []mc.Scope{
				{"trees", fmt.Sprintf("all trees with <= %d members below the root, depth <= 3, 8 leaves, uniform layouts", 2+d), func(c *mc.C) *mc.Case {
					b := 2 + d
					v := tree(c, &b, 3, 8)
					s := mc.Pick(c, seps)
					return layoutCase(v, "tree", func(int) string { return s })
				}},
				{"shapes", fmt.Sprintf("all trees with <= %d members, depth <= 4, 2 leaves, three layouts", 4+d), func(c *mc.C) *mc.Case {
					b := 4 + d
					old := leaves
					leaves = []V{Num(1), Ref{N: 3, G: 0}}
					v := tree(c, &b, 4, 2)
					leaves = old
					s := mc.Pick(c, []string{" ", "", "%c\n"})
					return layoutCase(v, "shape", func(int) string { return s })
				}},
				{"gaps", "every gap of feature-rich trees with every separator, the others tight or spaced; every pair of gaps with comments", func(c *mc.C) *mc.Case {
					v := mc.Pick(c, []V{
						Dict{{K: "A", V: Arr{Num(1), Num(2), Ref{N: 3, G: 0}, Num(4)}}, {K: "B", V: Dict{{K: "C", V: ref.Null}, {K: "D", V: Str("x")}}}, {K: "E", V: Name("F")}, {K: "G", V: ref.True}},
						Arr{Ref{N: 1, G: 0}, Ref{N: 2, G: 0}, Num(5), Num(6), Name("R"), ref.False, Arr{}, Dict{}, Str(""), Num(-.5), Num(7), Ref{N: 8, G: 9}},
						Arr{Arr{Arr{ref.Null}, Dict{{K: "", V: Name("")}}}, Name(""), Name("a b"), Str("(()"), ref.True, ref.Null, Num(1)},
					})
					base := mc.Pick(c, []string{" ", ""})
					toks := ref.Tokens(v)
					i := c.Choose(len(toks) - 1)
					j := i + c.Choose(len(toks)-1-i)
					s1 := mc.Pick(c, seps)
					s2 := s1
					if i != j {
						s2 = mc.Pick(c, seps[2:9])
					}
					return layoutCase(v, fmt.Sprintf("gaps %d,%d", i, j), func(k int) string {
						if k == i {
							return s1
						}
						if k == j {
							return s2
						}
						return base
					})
				}},
				{"separators", fmt.Sprintf("every sequence of <= %d characters of white space and comments, between all tokens of three objects", 5+d), func(c *mc.C) *mc.Case {
					s, comment := "", false
					for len(s) < 5+d {
						alpha := " \x00\r\n%"
						if comment {
							alpha = " \x00\r\n%(a"
						}
						k := c.Choose(len(alpha) + 1)
						if k == 0 {
							break
						}
						b := alpha[k-1]
						s += string(b)
						comment = b == '%' || comment && b != '\r' && b != '\n'
					}
					if comment || s == "" {
						return nil
					}
					v := mc.Pick(c, []V{
						Arr{Num(1), Num(2), Ref{N: 3, G: 0}, ref.True},
						Dict{{K: "A", V: ref.Null}, {K: "B", V: Str("x")}, {K: "C", V: Name("D")}},
						Arr{Dict{}, Arr{}, Num(-.5), Ref{N: 3, G: 0}, Num(7), Name("")},
					})
					return layoutCase(v, "separator", func(int) string { return s })
				}},
				{"numbers-and-references", fmt.Sprintf("all arrays of <= %d elements over integers, reals, references, names and keywords", 4+d), func(c *mc.C) *mc.Case {
					alpha := []V{Num(1), Num(0), Ref{N: 1, G: 0}, Num(-1), Num(.5), Name("R"), ref.True, Ref{N: 20, G: 3}, Arr{}, Str("R")}
					a := Arr{}
					for len(a) < 4+d {
						k := c.Choose(len(alpha) + 1)
						if k == 0 {
							break
						}
						a = append(a, alpha[k-1])
					}
					s := mc.Pick(c, []string{" ", "", "%1 0 R\n"})
					return layoutCase(a, "mix", func(int) string { return s })
				}},
				{"keywords", "every short keyword after numbers in an array: only R makes a reference", func(c *mc.C) *mc.Case {
					k := mc.Pick(c, []string{"null", "true", "false", "RR", "r", "Rx", "R1", "n", "R.", "TR", "R#52"})
					pre := c.Choose(4)
					var a Arr
					for i := 0; i < pre; i++ {
						a = append(a, Num(float64(i+1)))
					}
					a = append(a, Key(k))
					for i := 0; i < c.Choose(3); i++ {
						a = append(a, Num(9))
					}
					if c.Bool() {
						a = append(a, Ref{N: 4, G: 0})
					}
					s := mc.Pick(c, []string{" ", "\n", "%R\n"})
					return layoutCase(a, "keyword", func(int) string { return s })
				}},
				{"duplicate-position", "dictionaries with up to 40 keys, arrays with up to 300 elements and at powers of two", func(c *mc.C) *mc.Case {
					n := mc.Pick(c, sizes)
					if n > 5000 {
						return nil
					}
					kind := c.Choose(4)
					var v V
					a, dd := Arr{}, Dict{}
					for i := 0; i < n; i++ {
						a = append(a, leaves[i%8])
						dd = append(dd, KV{K: fmt.Sprintf("K%d", i), V: leaves[(i+1)%8]})
					}
					v = a
					switch kind {
					case 1:
						v = dd
					case 2:
						for i := range a {
							a[i] = Num(float64(i))
						}
					case 3:
						for i := range a {
							a[i] = Ref{N: i + 1, G: i % 3}
						}
					}
					s := mc.Pick(c, []string{" ", "", "\r\n"})
					return layoutCase(v, fmt.Sprintf("kind %d n %d", kind, n), func(int) string { return s })
				}},
				{"many-members", "arrays and dictionaries of 8190 to 131073 members around powers of two and implementation limits", func(c *mc.C) *mc.Case {
					n := mc.Pick(c, []int{8190, 8191, 8192, 8193, 10000, 16383, 16384, 16385, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 100001, 131073})
					kind := c.Choose(4)
					if c.Skip {
						return mc.Stub
					}
					a, dd := Arr{}, Dict{}
					for i := 0; i < n; i++ {
						switch kind {
						case 0:
							a = append(a, Num(float64(i)))
						case 1:
							a = append(a, leaves[i%8])
						case 2:
							dd = append(dd, KV{K: fmt.Sprintf("K%d", i), V: leaves[(i+1)%8]})
						case 3:
							a = append(a, Arr{Name("N")})
						}
					}
					var v V = a
					if kind == 2 {
						v = dd
					}
					s := ref.Join(ref.Tokens(v), func(int) string { return " " })
					return valueCase(label("kind %d n %d", kind, n), ref.Simple(s, "(next)"), map[int]V{1: v, 2: Str("next")})
				}},
				{"far", "white space and comments of 0 to 300 bytes and around powers of two up to 16384 in one gap or all gaps of three objects", func(c *mc.C) *mc.Case {
					v := mc.Pick(c, []V{
						Arr{Num(1), Num(2), Ref{N: 3, G: 0}, ref.True, Num(4), Num(5)},
						Dict{{K: "A", V: Ref{N: 7, G: 1}}, {K: "B", V: Str("x")}, {K: "C", V: Name("D")}, {K: "E", V: ref.Null}},
						Arr{Dict{}, Arr{}, Num(-.5), Ref{N: 3, G: 0}, Num(7), Name("")},
					})
					n := mc.Pick(c, far03)
					toks := ref.Tokens(v)
					gap := c.Choose(len(toks)) - 1
					if gap < 0 && n > 5000 {
						return nil
					}
					unit := mc.Pick(c, []string{" ", "\x00", "\r\n", "%", "%\n"})
					if c.Skip {
						return mc.Stub
					}
					s := strings.Repeat(unit, n/len(unit))
					if unit == "%" {
						s += "\n"
					}
					return layoutCase(v, fmt.Sprintf("gap %d of %d times %q:", gap, n, unit), func(i int) string {
						if gap < 0 || i == gap {
							return s
						}
						return " "
					})
				}},
				{"reference-numbers", "references to object numbers and generations of 1 to 10 digits, in arrays and dictionaries, beside plain numbers", func(c *mc.C) *mc.Case {
					n := mc.Pick(c, []int{0, 1, 9, 10, 99, 100, 255, 256, 999, 1000, 9999, 32767, 32768, 65535, 65536, 99999, 100000, 8388607, 8388608, 9999999, 16777216, 99999999, 2147483647, 4294967295, 9999999999})
					g := mc.Pick(c, []int{0, 1, 9, 10, 99, 100, 255, 256, 999, 32768, 65534, 65535, 65536, 99999, 1000000, 2147483647})
					var v V = Arr{Ref{N: n, G: g}}
					switch c.Choose(4) {
					case 1:
						v = Dict{{K: "A", V: Ref{N: n, G: g}}, {K: "B", V: Num(float64(n))}}
					case 2:
						v = Arr{Num(float64(n)), Num(float64(g)), Ref{N: n, G: g}, Ref{N: g, G: n}, Num(float64(g))}
					case 3:
						v = Ref{N: n, G: g}
					}
					s := mc.Pick(c, []string{" ", "", "\n", "%c\r"})
					return layoutCase(v, "numbers", func(int) string { return s })
				}},
				{"depth", "nesting of arrays and dictionaries up to 500 levels", func(c *mc.C) *mc.Case {
					n := mc.Pick(c, []int{0, 1, 2, 3, 5, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 400, 500})
					kind := c.Choose(3)
					var v V = Num(1)
					for i := 0; i < n; i++ {
						if kind == 0 || kind == 2 && i%2 == 0 {
							v = Arr{v, Num(2)}
						} else {
							v = Dict{{K: "D", V: v}, {K: "E", V: Name("x")}}
						}
					}
					s := mc.Pick(c, []string{" ", ""})
					return layoutCase(v, fmt.Sprintf("kind %d depth %d", kind, n), func(int) string { return s })
				}},
				{"objects", "several objects back to back with every layout around obj and endobj", func(c *mc.C) *mc.Case {
					s1, s2 := mc.Pick(c, []string{" ", "\n", "\r", "\r\n", "%c\n", "%c\r"}), mc.Pick(c, []string{"", " ", "\n", "\r", "\r\n", "%c\n", "%c\r"})
					vs := []V{Arr{Ref{N: 2, G: 0}}, Num(7), Dict{{K: "A", V: Num(1)}}, Str("x"), Name("N"), ref.Null}
					b := ref.NewBuilder()
					want := map[int]V{}
					for i, v := range vs {
						b.Pending[i+1] = ref.Entry{Off: b.Len(), Type: 1}
						b.Max = i + 1
						t := ref.Join(ref.Tokens(v), func(int) string { return s2 })
						x := s2
						if x == "" && !ref.IsDelim(t[0]) {
							x = " "
						}
						y := s2
						if y == "" && !ref.IsDelim(t[len(t)-1]) {
							y = " "
						}
						b.Text(fmt.Sprintf("%d%s0%sobj%s%s%sendobj%s", i+1, s1, s1, x, t, y, s1))
						want[i+1] = v
					}
					if c.Bool() {
						b.Text("\n")
						b.Table("")
					}
					return valueCase(label("separators %q %q", s1, s2), b.Bytes(), want)
				}},
			}
		},
	})
}
