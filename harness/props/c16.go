package props

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"

	"verif/mc"
	"verif/ref"
)

func pad32(pw string) string {
	return (pw + "\x28\xBF\x4E\x5E\x4E\x75\x8A\x41\x64\x00\x4E\x56\xFF\xFA\x01\x08\x2E\x2E\x00\xB6\xD0\x68\x3E\x80\x2F\x0C\xA9\xFE\x64\x53\x69\x7A")[:32]
}

// loadCase: loading must give exactly this error (nil for success); with run also nothing may be extracted.
func loadCase(lab string, doc []byte, password string, want error, run bool) *mc.Case {
	return &mc.Case{Label: lab, Doc: doc, Run: func() mc.Result {
		_, err := open(doc, password)
		if !errors.Is(err, want) || (want == nil && err != nil) {
			return fail("Load gives %v, expected %v", err, want)
		}
		if run {
			r := extract(doc, password)
			if !errors.Is(r.Err, want) || (want == nil && r.Err != nil) {
				return fail("extraction gives %v, expected %v", r.Err, want)
			}
			if want != nil {
				for n, b := range r.Files {
					if len(b) > 0 {
						return fail("%s holds %s although loading failed with %v", n, q(b), err)
					}
				}
			} else if len(r.Files["raw.pdf"]) == 0 {
				return fail("raw.pdf is empty although loading succeeded")
			}
		}
		return mc.Result{Outcome: mc.Digest(fmt.Sprint(err))}
	}}
}

func init() {
	objs := []eobj{
		{1, 0, Dict{{"URI", Str("http://secret")}, {"JS", Str("secret()")}}, nil, nil, false},
		{2, 0, Dict{{"Note", Str("secret")}}, []byte("secret stream"), nil, false},
	}
	mk := func(e econf, u, ow string, form int) []byte {
		cr := e.crypt(u, ow)
		cr.Setup()
		return edoc(cr, e.cf(), e.method(), form, objs)
	}
	entry := func(doc []byte, key string) (int, int) { // extent of an entry of the encryption dictionary
		i := bytes.Index(doc, []byte("/Filter /Standard"))
		j := i + bytes.Index(doc[i:], []byte(key+" "))
		k := j + len(key) + 1
		if doc[k] == '<' {
			return j, k + bytes.IndexByte(doc[k:], '>') + 1
		}
		return j, k + bytes.IndexByte(doc[k:], ' ')
	}
	pws := append(append([]string{}, passwords...), "User", "use", "user ", "users", "b", "\x00", pad32(""), pad32("a"), strings.Repeat("x", 30), strings.Repeat("x", 32), "0123456789abcdef0123456789abcdeg", "owner", "\xe4\xf6", " ", "password")
	mc.Register(&mc.Prop{
		ID:          "C16",
		Technique:   "exhaustive enumeration of password pairs and of defects of the encryption dictionary; the error of the real loader and the output of a run are compared with the specified outcome",
		Assumptions: []string{"passwords that are equal after padding or truncation to 32 bytes are the same password (the standard security handler cannot distinguish them)"},
		Scopes: func(th bool) []mc.Scope {
			return []mc.Scope{
				{"pairs", "18 configurations x all pairs of 10 user passwords and 25 given passwords", func(c *mc.C) *mc.Case {
					e := mc.Pick(c, econfs)
					u, g := mc.Pick(c, passwords), mc.Pick(c, pws)
					if c.Skip {
						return mc.Stub
					}
					want := error(nil)
					if pad32(u) != pad32(g) {
						want = pdf.EncryptionPasswordError
					}
					return loadCase(label("%v user %q given %q", e, u, g), mk(e, u, "owner", 0), g, want, false)
				}},
				{"extracted", "5 configurations x user passwords x given passwords: a run with the wrong password writes nothing", func(c *mc.C) *mc.Case {
					e := mc.Pick(c, econfsFew)
					u, g := mc.Pick(c, []string{"", "user"}), mc.Pick(c, []string{"", "user", "owner", "x"})
					form := c.Choose(3)
					want := error(nil)
					if pad32(u) != pad32(g) {
						want = pdf.EncryptionPasswordError
					}
					return loadCase(label("%v user %q given %q form %d", e, u, g, form), mk(e, u, "owner", form), g, want, true)
				}},
				{"near", "5 configurations x every single bit or character change of the password", func(c *mc.C) *mc.Case {
					e := mc.Pick(c, econfsFew)
					u := mc.Pick(c, []string{"user", "0123456789abcdef0123456789abcdef", "\xff\x00\x80"})
					g := []byte(u)
					i := c.Choose(len(u)*8 + 2)
					if i < len(u)*8 {
						g[i/8] ^= 1 << uint(i%8)
					} else if i == len(u)*8 {
						g = g[:len(g)-1]
					} else {
						g = append([]byte{0}, g...)
					}
					if c.Skip {
						return mc.Stub
					}
					return loadCase(label("%v user %q given %q", e, u, g), mk(e, u, "", 1), string(g), pdf.EncryptionPasswordError, false)
				}},
				{"other entries", "5 configurations x each of 500 other entries with seven values, and 160 values of Type and Subtype, in the encryption dictionary or the trailer, Encrypt direct or by reference, the right or a wrong password", func(c *mc.C) *mc.Case {
					e := mc.Pick(c, econfsFew)
					k := c.Choose(len(stdKeys) + 2*len(stdTypes))
					x, key := "", ""
					if k < len(stdKeys) {
						key = stdKeys[k]
						x = " /" + key + " " + mc.Pick(c, []string{"1", "/Standard", "/Other", "(text)", "null", "[1 2]", "<</Filter /Standard>>"}) + " "
					} else {
						k -= len(stdKeys)
						key = []string{"Type", "Subtype"}[k%2]
						x = " /" + key + " /" + stdTypes[k/2] + " "
					}
					trailer, form := c.Bool(), c.Choose(2)
					given := mc.Pick(c, []string{"user", "wrong"})
					own := "Filter V R Length O U P EncryptMetadata CF StmF StrF EFF"
					if trailer {
						own = "Encrypt ID Size Prev Root"
					}
					if strings.Contains(" "+own+" ", " "+key+" ") {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					cr := e.crypt("user", "owner")
					cr.Setup()
					o := []eobj{{1, 0, Dict{{"A", Str("some text")}}, nil, nil, false}}
					cf, change := e.cf(), func(b *ref.Builder, t string) string { return t }
					if trailer {
						change = func(b *ref.Builder, t string) string { return t + x }
					} else {
						cf += x
					}
					doc := edocWith(cr, cf, e.method(), form, o, change)
					lab := label("%v%s in trailer %v form %d given %s", e, x, trailer, form, given)
					if given == "user" {
						return checkObjs(lab, doc, given, o)
					}
					return loadCase(lab, doc, given, pdf.EncryptionPasswordError, false)
				}},
				{"plain", "unencrypted documents (Encrypt absent or null) with every password", func(c *mc.C) *mc.Case {
					g := mc.Pick(c, pws)
					k := c.Choose(3)
					no := mc.Pick(c, []string{"", " /Encrypt null"})
					b := ref.NewBuilder()
					b.Obj(1, 0, "<</URI (u) /Encrypt (not in the trailer)>>")
					switch k {
					case 0:
						b.Table("/Root 1 0 R" + no)
					case 1:
						b.XrefStream(5, "/Root 1 0 R /ID [(a) (b)]"+no)
					case 2:
					}
					return loadCase(label("given %q form %d%s", g, k, no), b.Bytes(), g, nil, true)
				}},
				{"unsupported", "handlers, versions and revisions outside the supported ones x Encrypt direct or by reference x right and wrong passwords", func(c *mc.C) *mc.Case {
					e := mc.Pick(c, econfsFew)
					form := c.Choose(2)
					g := mc.Pick(c, []string{"user", "wrong", ""})
					var from, to string
					switch c.Choose(3) {
					case 0:
						from, to = "/Filter /Standard", "/Filter "+mc.Pick(c, []string{"/Adobe.PubSec", "/standard", "/Standard2", "/Foo", "/", "/Adobe.PPKLite", "(Standard)"})
					case 1:
						from, to = fmt.Sprintf("/V %d ", e.v), fmt.Sprintf("/V %d ", mc.Pick(c, []int{0, 3, 5, 6, 7, -1, 100, 65537, -4}))
					case 2:
						from, to = fmt.Sprintf("/R %d ", e.r), fmt.Sprintf("/R %d ", mc.Pick(c, []int{0, 1, 5, 6, 7, -2, 100, 65538}))
					}
					doc := mk(e, "user", "", form)
					if form == 0 { // keep offsets
						for len(to) < len(from) {
							to += " "
						}
					}
					doc = bytes.Replace(doc, []byte(from), []byte(to), 1)
					return loadCase(label("%v %s given %q form %d", e, to, g, form), doc, g, pdf.EncryptionUnsupported, true)
				}},
				{"missing", "required entries absent or of a wrong type or empty, directly and through references", func(c *mc.C) *mc.Case {
					e := mc.Pick(c, econfs)
					key := mc.Pick(c, []string{"/O", "/U", "/P", "/ID"})
					bad := mc.Pick(c, []string{"", "null", "/Name", "99 0 R", "<<>>", "true", "[]", "[1]", "[null (x)]", "7", "(s)", "1 0 R"})
					g := mc.Pick(c, []string{"user", "wrong"})
					if c.Skip {
						return mc.Stub
					}
					doc := mk(e, "user", "", 1)
					var i, j int
					if key == "/ID" {
						i = bytes.LastIndex(doc, []byte("/ID ["))
						j = i + bytes.IndexByte(doc[i:], ']') + 1
						if bad == "[(x)]" {
							return nil
						}
					} else {
						i, j = entry(doc, key)
						// values of the right type are not missing
						if key == "/P" && bad == "7" || key != "/P" && bad == "(s)" && !(key == "/U" && e.r >= 3) {
							return nil
						}
					}
					ins := ""
					if bad != "" {
						ins = key + " " + bad
					}
					doc = splice(doc, i, j-i, ins)
					return loadCase(label("%v %s %s given %q", e, key, bad, g), doc, g, pdf.EncryptionError, true)
				}},
				{"short-U", "U entries of every length below the bytes that are compared (revision 3 and 4)", func(c *mc.C) *mc.Case {
					e := mc.Pick(c, econfs[1:])
					n := c.Choose(16)
					if e.r < 3 {
						return nil
					}
					doc := mk(e, "user", "", 1)
					i, j := entry(doc, "/U")
					doc = splice(doc, i, j-i, "/U <"+strings.Repeat("41", n)+">")
					return loadCase(label("%v U of %d bytes", e, n), doc, "user", pdf.EncryptionError, true)
				}},
				{"short-U-2", "U entries of every length below 32, with the right first bytes (revision 2): neither the right nor another password is accepted", func(c *mc.C) *mc.Case {
					e := mc.Pick(c, econfs)
					n := c.Choose(32)
					g := mc.Pick(c, []string{"user", "wrong", ""})
					if e.r != 2 {
						return nil
					}
					doc := mk(e, "user", "", 1)
					i, j := entry(doc, "/U")
					doc = splice(doc, i, j-i, string(doc[i:i+4+2*n])+">")
					return &mc.Case{Label: label("%v U of %d bytes given %q", e, n, g), Doc: doc, Run: func() mc.Result {
						if _, err := open(doc, g); !errors.Is(err, pdf.EncryptionPasswordError) && !errors.Is(err, pdf.EncryptionError) {
							return fail("Load gives %v although U is cut off", err)
						}
						return mc.Result{}
					}}
				}},
				{"U-tail", "only the first 16 bytes of U count (revision 3 and 4)", func(c *mc.C) *mc.Case {
					e := mc.Pick(c, econfs[1:])
					if e.r < 3 {
						return nil
					}
					doc := mk(e, "user", "", 1)
					i, j := entry(doc, "/U")
					u := string(doc[i:j])
					k := c.Choose(3)
					switch k {
					case 0:
						u = u[:4+32] + ">"
					case 1:
						u = u[:4+32] + strings.Repeat("ff", 16) + ">"
					case 2: // damage of each compared byte
						b := []byte(u)
						at := 4 + c.Choose(32)
						if b[at] == '0' {
							b[at] = '1'
						} else {
							b[at] = '0'
						}
						return loadCase(label("%v U damaged at %d", e, at), splice(doc, i, j-i, string(b)), "user", pdf.EncryptionPasswordError, false)
					}
					return loadCase(label("%v U tail %d", e, k), splice(doc, i, j-i, u), "user", nil, false)
				}},
				{"identifiers", "18 configurations x identifiers of 0 to 1000 bytes x 7 spellings of the trailer's ID x right and wrong passwords", func(c *mc.C) *mc.Case {
					e := mc.Pick(c, econfs)
					id := mc.Pick(c, []string{"", "x", "\x00", "0123456789abcdef", "\xff\xfe(\\", strings.Repeat("id", 17), strings.Repeat("long", 250)})
					k := c.Choose(7)
					g := mc.Pick(c, []string{"user", "wrong", "", "owner"})
					form := c.Choose(3)
					if c.Skip {
						return mc.Stub
					}
					cr := e.crypt("user", "owner")
					cr.ID = id
					cr.Setup()
					b := ref.NewBuilder()
					v := cr.EncryptValue(e.method(), 1, 0, Dict{{"URI", Str("http://secret")}})
					b.Obj(1, 0, ref.Write(v))
					b.Obj(20, 0, ref.HexLit(id)) // strings that are referenced from the trailer are not encrypted
					h := ref.HexLit(id)
					ids := []string{"[" + h + h + "]", "[" + h + "]", "[" + h + " (other) (more) 7]", "[" + ref.Lit(id) + ref.Lit("") + "]", "[" + h + " null]", "[\n" + h + "\r\n<>]", "[" + h + "[]]"}[k]
					t := cr.Trailer(cr.Dict(e.cf()))
					if form > 0 {
						b.Obj(9000, 0, cr.Dict(e.cf()))
						t = cr.Trailer("9000 0 R")
					}
					i := strings.Index(t, "/ID [")
					t = t[:i] + "/ID " + ids + t[i+strings.IndexByte(t[i:], ']')+1:]
					if form == 2 {
						b.XrefStream(9001, t)
					} else {
						b.Table(t)
					}
					want := error(nil)
					if g != "user" {
						want = pdf.EncryptionPasswordError
					}
					return loadCase(label("%v id %q spelling %d given %q form %d", e, id, k, g, form), b.Bytes(), g, want, true)
				}},
				{"damaged", "every bit of the compared part of U and of the O and ID entries the key depends on, and every bit of P: the right password is not accepted any more", func(c *mc.C) *mc.Case {
					e := mc.Pick(c, econfs)
					key := mc.Pick(c, []string{"/U", "/O", "/ID", "/P"})
					size := map[string]int{"/U": 32, "/O": 32, "/ID": 16, "/P": 4}[key]
					if key == "/U" && e.r >= 3 {
						size = 16
					}
					at := c.Choose(size * 8)
					if c.Skip {
						return mc.Stub
					}
					doc := mk(e, "user", "own", 1)
					if key == "/P" {
						i, j := entry(doc, key)
						var p int64
						fmt.Sscan(string(doc[i+3:j]), &p)
						doc = splice(doc, i, j-i, fmt.Sprintf("/P %d", int32(uint32(p)^1<<uint(at))))
					} else {
						var i int
						if key == "/ID" {
							i = bytes.LastIndex(doc, []byte("/ID ["))
							i += bytes.IndexByte(doc[i:], '<') + 1
						} else {
							i, _ = entry(doc, key)
							i += bytes.IndexByte(doc[i:], '<') + 1
						}
						if len(doc) < i+2*size || bytes.IndexByte(doc[i:i+2*size], '>') >= 0 {
							return nil
						}
						d := append([]byte{}, doc...)
						var b byte
						fmt.Sscanf(string(d[i+at/8*2:i+at/8*2+2]), "%02x", &b)
						copy(d[i+at/8*2:], fmt.Sprintf("%02x", b^1<<uint(at%8)))
						doc = d
					}
					return loadCase(label("%v bit %d of %s", e, at, key), doc, "user", pdf.EncryptionPasswordError, false)
				}},
				{"encrypt", "Encrypt entries that are no dictionary", func(c *mc.C) *mc.Case {
					e := mc.Pick(c, econfsFew)
					bad := mc.Pick(c, []string{"99 0 R", "7", "(s)", "[1 2]", "/Standard", "true", "2.5", "3 0 R"})
					cr := e.crypt("user", "")
					cr.Setup()
					b := ref.NewBuilder()
					b.Obj(1, 0, "<</URI (secret)>>")
					b.Obj(3, 0, "(string)")
					if c.Bool() {
						b.Table(cr.Trailer(bad))
					} else {
						b.XrefStream(8, cr.Trailer(bad))
					}
					return loadCase(label("%v Encrypt %s", e, bad), b.Bytes(), mc.Pick(c, []string{"", "user"}), pdf.EncryptionError, true)
				}},
			}
		},
	})
}
