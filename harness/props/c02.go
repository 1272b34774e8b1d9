package props

import (
	"fmt"
	"math/big"
	"strings"

	"verif/mc"
	"verif/ref"
)

// what follows a token, and the values it adds to the enclosing array
var follow = []struct {
	s string
	v []V
}{
	{" ", nil}, {"\n", nil}, {"\r\n", nil}, {"\t", nil}, {"\x00", nil}, {"\f", nil},
	{"/N", []V{Name("N")}}, {"(s)", []V{Str("s")}}, {"<41>", []V{Str("A")}}, {"[]", []V{Arr{}}}, {"<<>>", []V{Dict{}}},
	{"%c\n", nil}, {"%c\r", nil}, {"", nil}, {" true", []V{ref.True}}, {" 9", []V{Num(9)}}, {" 9 /R", []V{Num(9), Name("R")}}, {" .5", []V{Num(.5)}},
	{" -3", []V{Num(-3)}}, {" 9 8 R", nil},
}

// decimal is the value of a well-formed number.
func decimal(s string) Num {
	t := s
	if strings.HasSuffix(t, ".") {
		t += "0"
	}
	t = strings.Replace(t, "+.", "+0.", 1)
	t = strings.Replace(t, "-.", "-0.", 1)
	if t[0] == '.' {
		t = "0" + t
	}
	r, ok := new(big.Rat).SetString(t)
	if !ok {
		panic("decimal " + s)
	}
	f, _ := r.Float64()
	return Num(f)
}

func isNumber(s string) bool {
	t := strings.TrimLeft(s, "+-")
	if len(s)-len(t) > 1 || strings.Count(t, ".") > 1 {
		return false
	}
	d := strings.Replace(t, ".", "", 1)
	return d != "" && strings.Trim(d, "0123456789") == ""
}

func nameValue(s string) (Name, bool) { // s without the slash; ok if every # is followed by two digits
	var o []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '#' {
			if i+2 >= len(s) {
				return "", false
			}
			var b int
			if n, _ := fmt.Sscanf(s[i+1:i+3], "%02x", &b); n != 1 || strings.Trim(s[i+1:i+3], "0123456789abcdefABCDEF") != "" {
				return "", false
			}
			o = append(o, byte(b))
			i += 2
		} else {
			o = append(o, s[i])
		}
	}
	return Name(o), true
}

func init() {
	number := func(c *mc.C, s string) *mc.Case {
		if !isNumber(s) {
			return nil
		}
		k := c.Choose(len(follow) + 2)
		v := decimal(s)
		switch k {
		case len(follow): // end of file
			doc := []byte("%PDF-1.7\n1 0 obj\n" + s)
			return valueCase(label("%s at end of file", s), doc, map[int]V{1: v})
		case len(follow) + 1: // dictionary value
			return valueCase(label("%s in dictionary", s), ref.Simple("<</A "+s+"/B "+s+">>"), map[int]V{1: Dict{{K: "A", V: v}, {K: "B", V: v}}})
		}
		f := follow[k]
		if f.s == " 9 8 R" {
			return valueCase(label("%s before a reference", s), ref.Simple("["+s+f.s+"]"), map[int]V{1: Arr{v, Ref{N: 9, G: 8}}})
		}
		if f.s == " 9" && c.Bool() { // the object itself, not in an array
			return valueCase(label("%s as object", s), ref.Simple(s), map[int]V{1: v})
		}
		return valueCase(label("[%s%q]", s, f.s), ref.Simple("["+s+f.s+"]", "(next)"), map[int]V{1: append(Arr{v}, f.v...), 2: Str("next")})
	}
	name := func(c *mc.C, s string) *mc.Case {
		v, ok := nameValue(s)
		if !ok {
			return nil
		}
		k := c.Choose(len(follow) + 3)
		switch k {
		case len(follow):
			return valueCase(label("/%s at end of file", s), []byte("%PDF-1.7\n1 0 obj\n/"+s), map[int]V{1: v})
		case len(follow) + 1: // as key
			return valueCase(label("/%s as key", s), ref.Simple("<</"+s+" 5/Zz(a)>>"), map[int]V{1: Dict{{K: string(v), V: Num(5)}, {K: "Zz", V: Str("a")}}})
		case len(follow) + 2: // as value
			return valueCase(label("/%s as value", s), ref.Simple("<</Aa/"+s+">>"), map[int]V{1: Dict{{K: "Aa", V: v}}})
		}
		f := follow[k]
		if f.s == " 9 8 R" {
			return valueCase(label("/%s before a reference", s), ref.Simple("[/"+s+f.s+"]"), map[int]V{1: Arr{v, Ref{N: 9, G: 8}}})
		}
		return valueCase(label("[/%s%q]", s, f.s), ref.Simple("[/"+s+f.s+"]", "(next)"), map[int]V{1: append(Arr{v}, f.v...), 2: Str("next")})
	}
	mc.Register(&mc.Prop{
		ID:        "C02",
		Technique: "exhaustive enumeration of all number and name lexemes over structural alphabets in every following context, run on the real reader, compared with exact decimal arithmetic and a reference decoder",
		Scopes: func(th bool) []mc.Scope {
			d := 0
			if th {
				d = 1
			}
			return []mc.Scope{
				{"numbers", fmt.Sprintf("all lexemes of length <= %d over + - . 0 1 9 in 22 contexts", 5+d), func(c *mc.C) *mc.Case {
					return number(c, strings.Join(word(c, bytesAlphabet("+-.019"), 5+d), ""))
				}},
				{"digits", "every pair of digits on every side of the point, signs, leading zeros", func(c *mc.C) *mc.Case {
					s := mc.Pick(c, []string{"", "+", "-"}) + mc.Pick(c, []string{"", "0", "00"})
					a, b := c.Choose(101), c.Choose(101)
					if a < 100 {
						s += fmt.Sprint(a)
					}
					if b < 100 {
						s += "." + fmt.Sprintf("%02d", b)
					}
					if !isNumber(s) {
						return nil
					}
					return valueCase(label("%s", s), ref.Simple("["+s+"/Z "+s+"]"), map[int]V{1: Arr{decimal(s), Name("Z"), decimal(s)}})
				}},
				{"long-numbers", "integers and fractions of 1 to 40 digits", func(c *mc.C) *mc.Case {
					n, m := c.Choose(41), c.Choose(41)
					dg := mc.Pick(c, []string{"1234567890", "9", "0", "10", "05"})
					rep := func(k int) string { return strings.Repeat(dg, 40)[:k] }
					s := mc.Pick(c, []string{"", "-", "+"}) + rep(n)
					if m > 0 || c.Bool() {
						s += "." + rep(m)
					}
					if !isNumber(s) {
						return nil
					}
					return valueCase(label("%s", s), ref.Simple("["+s+"/Z "+s+"]"), map[int]V{1: Arr{decimal(s), Name("Z"), decimal(s)}})
				}},
				{"names", fmt.Sprintf("all names over A # 2 f G . + - and escapes up to %d pieces in 23 contexts", 3+d), func(c *mc.C) *mc.Case {
					return name(c, strings.Join(word(c, []string{"A", "1", "#20", "#41", "#2f", "#2F", "#00", "#23", "#ff", "#Ff", "+", ".", "R", "\xe9", "obj", "!"}, 3+d), ""))
				}},
				{"name-bytes", "every regular byte in a name, every two-digit code in four letter cases", func(c *mc.C) *mc.Case {
					b := byte(c.Choose(256))
					k := c.Choose(6)
					var s string
					switch k {
					case 0:
						if ref.IsWS(b) || ref.IsDelim(b) || b == '#' {
							return nil
						}
						s = string([]byte{b})
					case 1:
						if ref.IsWS(b) || ref.IsDelim(b) || b == '#' {
							return nil
						}
						s = "x" + string([]byte{b}) + "y"
					case 2:
						s = fmt.Sprintf("#%02x", b)
					case 3:
						s = fmt.Sprintf("#%02X", b)
					case 4:
						s = fmt.Sprintf("a#%02xb", b)
					case 5:
						s = fmt.Sprintf("#%02x#%02X0", b, b)
					}
					v, ok := nameValue(s)
					if !ok {
						return nil
					}
					t := mc.Pick(c, []string{" ", "/Z", "(z)", "]", "%\n"})
					w := map[string]Arr{" ": {v}, "/Z": {v, Name("Z")}, "(z)": {v, Str("z")}, "]": {v}, "%\n": {v}}[t]
					return valueCase(label("/%s %q", s, t), ref.Simple("[/"+s+t+"]"), map[int]V{1: w})
				}},
				{"scale", "names and leading zeros of every length around powers of two", func(c *mc.C) *mc.Case {
					n := mc.Pick(c, sizes)
					k := c.Choose(4)
					var s string
					var v V
					switch k {
					case 0:
						s, v = "/"+strings.Repeat("n", n), Name(strings.Repeat("n", n))
					case 1:
						s, v = "/"+strings.Repeat("#41", n), Name(strings.Repeat("A", n))
					case 2:
						s, v = "-"+strings.Repeat("0", n)+"12", Num(-12)
					case 3:
						if n > 300 {
							return nil
						}
						s, v = "1."+strings.Repeat("0", n), Num(1)
					}
					return valueCase(label("kind %d size %d", k, n), ref.Simple("["+s+"/Z]", s+" ", "(next)"), map[int]V{1: Arr{v, Name("Z")}, 2: v, 3: Str("next")})
				}},
				{"headers", "object numbers and generations with leading zeros and separators in headers, tables and startxref", func(c *mc.C) *mc.Case {
					n := mc.Pick(c, []int{1, 7, 10, 255, 256, 1000, 65535, 65536, 8388607})
					g := mc.Pick(c, []int{0, 1, 9, 10, 255, 65535})
					z := mc.Pick(c, []string{"", "0", "000"})
					sep := mc.Pick(c, []string{" ", "\n", "\r\n", "%c\n", "\t \x00"})
					table := c.Bool()
					b := ref.NewBuilder()
					b.Pending[n] = ref.Entry{Off: b.Len(), Gen: g, Type: 1}
					b.Max = n
					b.Text(fmt.Sprintf("%s%d%s%s%d%sobj(val)endobj\n", z, n, sep, z, g, sep))
					if table {
						b.Table("")
					}
					return valueCase(label("%s%d %d obj sep %q table %v", z, n, g, sep, table), b.Bytes(), map[int]V{n: Str("val")})
				}},
			}
		},
	})
}
