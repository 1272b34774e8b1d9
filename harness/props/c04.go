package props

import (
	"fmt"
	"strings"

	"verif/mc"
	"verif/ref"
)

var malTokens = []string{"[", "]", "<<", ">>", "(", ")", "<", ">", "/K", "1", "0", "R", "null", "(a)", "<4", "/N#4", "\\", "%c\n", " ", "/"}

var tails = []string{"\nendobj\n2 0 obj\n(next)\nendobj\n", "", "\nendobj\n"}

// feature-rich objects whose every prefix is tried
var richObjects = []string{
	"<</A [1 2 3 0 R (s(t)\\)\\101) <4142 43>]/B<</C/D#20e/F -1.5>>/G true/H null /I[[<</J[(x)]>>]]>>",
	"[(a\\\r\nb\\12\\3)(c)<41 4>/N#2f#2F [ [ ] ] <<>> 1 0 R 5 6 false]",
	"<</Type/X/K(v)%comment\n/L 1 /M 2 0 R>>",
	"(nested (deep (er)) \\777 end)",
	"<</S (\\\n\\\r\n) /H <0Aff0> /N /a#41#>>",
}

// malformed builds "1 0 obj LF w tail" and asks the reference reader for every object.
func malformed(w, tail string) (doc []byte, want map[int]V, errs map[string]bool) {
	doc = []byte("1 0 obj\n" + w + tail)
	want = map[int]V{}
	errs = map[string]bool{}
	at := []int{0}
	if i := strings.Index(tail, "2 0 obj"); i >= 0 {
		at = append(at, len(doc)-len(tail)+i)
	}
	for k, off := range at {
		r := ref.NewReader(doc)
		r.P = off + len("1 0 obj")
		v, _ := r.Indirect()
		want[k+1] = v
		for e := range r.Errs {
			errs[e] = true
		}
	}
	return
}

// malScopes are the input spaces of C04 and C05.
func malScopes(th bool, d int, mk func(c *mc.C, w, tail string) *mc.Case) []mc.Scope {
	tl := func(c *mc.C) string { return mc.Pick(c, tails) }
	return []mc.Scope{
		{"bytes", fmt.Sprintf("all byte words of length <= %d over 14 structural characters, 3 tails", 4+d), func(c *mc.C) *mc.Case {
			return mk(c, strings.Join(word(c, bytesAlphabet("()<>[]/\\1a# R\n"), 4+d), ""), tl(c))
		}},
		{"tokens", fmt.Sprintf("all token words of length <= %d over %d tokens, 3 tails", 4+d, len(malTokens)), func(c *mc.C) *mc.Case {
			return mk(c, strings.Join(word(c, malTokens, 4+d), " "), tl(c))
		}},
		{"in-dictionary", fmt.Sprintf("all token words of length <= %d between << /A 1 and /Z 2 >>", 3+d), func(c *mc.C) *mc.Case {
			return mk(c, "<</A 1 "+strings.Join(word(c, malTokens, 3+d), " ")+" /Z 2>>", tl(c))
		}},
		{"in-array", fmt.Sprintf("all token words of length <= %d inside an array", 3+d), func(c *mc.C) *mc.Case {
			return mk(c, "[/A "+strings.Join(word(c, malTokens, 3+d), "")+" /Z]", tl(c))
		}},
		{"strings", fmt.Sprintf("all words of length <= %d over digits, escapes and line ends in an unclosed or closed string", 4+d), func(c *mc.C) *mc.Case {
			return mk(c, "("+strings.Join(word(c, bytesAlphabet("\\0478\r\n(a)n"), 4+d), "")+mc.Pick(c, []string{"", ")"}), mc.Pick(c, tails[:2]))
		}},
		{"octal", "every three-digit octal code, closed and cut off at each digit", func(c *mc.C) *mc.Case {
			o := fmt.Sprintf("\\%03o", c.Choose(512))
			return mk(c, "("+o[:1+c.Choose(4)]+mc.Pick(c, []string{"", "7", "8", "x)"})+mc.Pick(c, []string{"", ")"}), mc.Pick(c, tails[:2]))
		}},
		{"hex", fmt.Sprintf("all words of length <= %d over digits and other characters in a hexadecimal string", 4+d), func(c *mc.C) *mc.Case {
			return mk(c, "<"+strings.Join(word(c, bytesAlphabet("4aFgG (/%\n<z-"), 4+d), "")+mc.Pick(c, []string{"", ">"}), mc.Pick(c, tails[:2]))
		}},
		{"names", fmt.Sprintf("all words of length <= %d over # digits and other characters in a name", 4+d), func(c *mc.C) *mc.Case {
			return mk(c, mc.Pick(c, []string{"/", "[/", "<</"})+strings.Join(word(c, bytesAlphabet("#4aFg (/ #2"), 4+d), ""), mc.Pick(c, tails[:2]))
		}},
		{"every-byte", "every byte in place of an object, in a name escape, in a hexadecimal string, behind a backslash", func(c *mc.C) *mc.Case {
			b := string([]byte{byte(c.Choose(256))})
			w := mc.Pick(c, []string{b, "[1" + b + "2]", "<</A 1" + b + "/B 2>>", "/a#" + b + "4 ", "/a#4" + b + " ", "<4" + b + "5>", "(\\" + b + ")", "(\\1" + b + ")", "(\\11" + b + ")", "[/N" + b + "(x)]", "[1.5" + b + "3]", "<</A" + b + " 1/B 2>>"})
			return mk(c, w, tl(c))
		}},
		{"truncations", "every prefix of feature-rich objects at end of file and inside a document", func(c *mc.C) *mc.Case {
			w := mc.Pick(c, richObjects)
			return mk(c, w[:c.Choose(len(w)+1)], tl(c))
		}},
		{"edits", "every one-byte deletion, insertion and replacement by structural bytes in feature-rich objects", func(c *mc.C) *mc.Case {
			w := mc.Pick(c, richObjects)
			i := c.Choose(len(w))
			k := c.Choose(25)
			ins := "()<>[]/\\#%1g"
			switch {
			case k == 24:
				w = w[:i] + w[i+1:]
			case k < 12:
				w = w[:i] + ins[k:k+1] + w[i:]
			default:
				w = w[:i] + ins[k-12:k-11] + w[i+1:]
			}
			return mk(c, w, tl(c))
		}},
	}
}

func init() {
	mc.Register(&mc.Prop{
		ID:        "C04",
		Technique: "exhaustive enumeration of malformed byte and token words, truncations and edits, run on the real reader, compared with a tolerant reference reader",
		Scopes: func(th bool) []mc.Scope {
			d := 0
			if th {
				d = 1
			}
			return malScopes(th, d, func(c *mc.C, w, tail string) *mc.Case {
				doc, want, _ := malformed(w, tail)
				cs := valueCase(label("%q%q", w, tail), doc, want)
				cs.Trivial = w == ""
				return cs
			})
		},
	})
}
