package props

import (
	"fmt"
	"strings"

	"verif/mc"
	"verif/ref"
)

// contexts in which an object is placed; %s is the object.
var stringContexts = []struct {
	name, pre, post string
	wrap            func(v V) V
}{
	{"object", "", "", func(v V) V { return v }},
	{"array", "[/A ", "/Z 7]", func(v V) V { return Arr{Name("A"), v, Name("Z"), Num(7)} }},
	{"tight array", "[", "(z)]", func(v V) V { return Arr{v, Str("z")} }},
	{"dictionary", "<</A", "/Z[1]>>", func(v V) V { return Dict{{K: "A", V: v}, {K: "Z", V: Arr{Num(1)}}} }},
}

func init() {
	// in every scope the expected value comes from the reference reader; only well-formed strings are kept
	wellFormed := func(s string) (V, bool) {
		r := ref.NewReader([]byte(s + "/end"))
		v, _ := r.Object()
		for e := range r.Errs {
			if e != ref.EUnneededStr {
				return nil, false
			}
		}
		return v, r.P == len(s)
	}
	gen := func(open, close string, alphabet []string, max int, ctxs int) func(c *mc.C) *mc.Case {
		return func(c *mc.C) *mc.Case {
			s := open + strings.Join(word(c, alphabet, max), "") + close
			v, ok := wellFormed(s)
			if !ok {
				return nil
			}
			x := stringContexts[c.Choose(ctxs)]
			doc := ref.Simple(x.pre+s+x.post, "(next)")
			cs := valueCase(label("%s %q", x.name, s), doc, map[int]V{1: x.wrap(v), 2: Str("next")})
			cs.Trivial = len(s) <= 2
			return cs
		}
	}
	mc.Register(&mc.Prop{
		ID:        "C01",
		Technique: "exhaustive enumeration of all strings over structural alphabets up to a length, run on the real reader, compared with a reference decoder",
		Scopes: func(th bool) []mc.Scope {
			d := 0
			if th {
				d = 1
			}
			return []mc.Scope{
				{"literal-bytes", fmt.Sprintf("all words of length <= %d over ( ) \\ CR LF n 0 7 8 9 a", 4+d), gen("(", ")", bytesAlphabet("()\\\r\nn0789a"), 4+d, 2+d)},
				{"literal-escapes", fmt.Sprintf("all words of length <= %d over all escape forms", 3+d), gen("(", ")", []string{
					"\\n", "\\r", "\\t", "\\b", "\\f", "\\(", "\\)", "\\\\", "\\0", "\\7", "\\12", "\\053", "\\377", "\\101", "\\\n", "\\\r", "\\\r\n",
					"(", ")", "\n", "\r", "1", "8", "x", "\\x", "%", "<", "/", " ", "\x00", "\xff", "\\8"}, 3+d, 1)},
				{"every-byte", "every byte alone, between two bytes, and behind a backslash, in every context", func(c *mc.C) *mc.Case {
					b := string([]byte{byte(c.Choose(256))})
					s := mc.Pick(c, []string{"(" + b + ")", "(x" + b + "y)", "(\\" + b + ")", "(\\" + b + "1)"})
					v, ok := wellFormed(s)
					if !ok {
						return nil
					}
					x := mc.Pick(c, stringContexts)
					return valueCase(label("%s %q", x.name, s), ref.Simple(x.pre+s+x.post, "(next)"), map[int]V{1: x.wrap(v), 2: Str("next")})
				}},
				{"octal", "every octal code of one to three digits, followed by a digit, a letter or the end", func(c *mc.C) *mc.Case {
					n := c.Choose(3) + 1
					o := fmt.Sprintf("%0*o", n, c.Choose(256))
					if len(o) > n {
						return nil
					}
					s := "(\\" + o + mc.Pick(c, []string{"", "8", "x", "\\101", "(", ")"}) + mc.Pick(c, []string{")", "y)"})
					v, ok := wellFormed(s)
					if !ok {
						return nil
					}
					return valueCase(label("%q", s), ref.Simple("["+s+"/Z]"), map[int]V{1: Arr{v, Name("Z")}})
				}},
				{"octal-edges", "three-digit codes below 256 next to every further digit", func(c *mc.C) *mc.Case {
					o := mc.Pick(c, []string{"\\0", "\\00", "\\000", "\\1", "\\12", "\\3", "\\37", "\\377", "\\77", "\\4", "\\40", "\\5", "\\7"})
					t := mc.Pick(c, []string{"0", "1", "7", "8", "9", "a", ")", "\\", "(", "\n", "\r\n"})
					s := "(" + o + t + mc.Pick(c, []string{"", "7", ")", "n", "0)"}) + ")"
					v, ok := wellFormed(s)
					if !ok {
						return nil
					}
					return valueCase(label("%q", s), ref.Simple("["+s+"/Z]"), map[int]V{1: Arr{v, Name("Z")}})
				}},
				{"hex-bytes", fmt.Sprintf("all words of length <= %d over hexadecimal digits and white space", 5+d), gen("<", ">", bytesAlphabet("09afAF \n\r\t\x00\f"), 4+d, 2)},
				{"hex-pairs", "every digit pair in both cases, in every context, with and without white space", func(c *mc.C) *mc.Case {
					f := mc.Pick(c, []string{"%02x", "%02X"})
					s := fmt.Sprintf(f, c.Choose(256))
					g := mc.Pick(c, []string{"<%c%c>", "<%c %c>", "< %c\n%c\r>", "<41%c%c42>", "<%c%c4>"})
					s = fmt.Sprintf(g, s[0], s[1])
					v, ok := wellFormed(s)
					if !ok {
						return nil
					}
					x := mc.Pick(c, stringContexts)
					return valueCase(label("%s %q", x.name, s), ref.Simple(x.pre+s+x.post, "(next)"), map[int]V{1: x.wrap(v), 2: Str("next")})
				}},
				{"large", "literal and hexadecimal strings of up to 16 MiB and one byte, plain, with escapes and line ends", func(c *mc.C) *mc.Case {
					n := mc.Pick(c, bigSizes)
					k := c.Choose(4)
					if c.Skip {
						return mc.Stub
					}
					var s string
					want := strings.Repeat("a", n)
					switch k {
					case 0:
						s = "(" + want + ")"
					case 1:
						s = "<" + strings.Repeat("61", n) + ">"
					case 2:
						s = "(" + strings.Repeat("a\\\n", n) + ")"
					case 3:
						s, want = "("+strings.Repeat("(\\))", n/3)+")", strings.Repeat("())", n/3)
					}
					return valueCase(label("kind %d size %d", k, n), ref.Simple("["+s+"/Z]", "(next)"), map[int]V{1: Arr{Str(want), Name("Z")}, 2: Str("next")})
				}},
				{"scale", "literal and hexadecimal strings of every length around powers of two, plain, nested, escaped", func(c *mc.C) *mc.Case {
					n := mc.Pick(c, sizes)
					k := c.Choose(7)
					var s string
					switch k {
					case 0:
						s = "(" + strings.Repeat("a", n) + ")"
					case 1:
						s = "<" + strings.Repeat("4", n) + ">"
					case 2:
						if n > 5000 {
							n = 5000 + n%16
						}
						s = "(" + strings.Repeat("(", n) + "x" + strings.Repeat(")", n) + "y)"
					case 3:
						s = "(" + strings.Repeat("\\101", n) + ")"
					case 4:
						s = "(" + strings.Repeat("\\\r\n", n) + "z)"
					case 5:
						s = "<" + strings.Repeat("4 1\n", n) + ">"
					case 6:
						s = ref.Lit(string(pattern(n)))
					}
					v, ok := wellFormed(s)
					if !ok {
						return nil
					}
					return valueCase(label("kind %d size %d", k, n), ref.Simple("["+s+"/Z]", "(next)"), map[int]V{1: Arr{v, Name("Z")}, 2: Str("next")})
				}},
			}
		},
	})
}
