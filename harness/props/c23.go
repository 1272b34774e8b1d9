package props

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"regexp"
	"runtime/metrics"
	"strconv"
	"strings"
	"time"

	"github.com/KarmaPenny/pdfparser/pdf"

	"verif/mc"
	"verif/ref"
)

// allocated is the number of bytes the process has allocated so far.
func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// exhaust loads a document, fetches every object and extracts everything.
func exhaust(doc []byte, password string, full bool) {
	p := pdf.NewParser(bytes.NewReader(doc), nil)
	p.Load(password)
	nums := map[int]bool{0: true, 1: true, 2: true, -1: true}
	for n := range p.Xref {
		nums[n] = true
	}
	i := 0
	for _, n := range keys(nums) {
		if i++; i > 3000 {
			break
		}
		o := p.GetObject(n)
		_ = o.String()
		if d, ok := o.Value.(pdf.Dictionary); ok && i < 40 {
			pdf.NewFont(d)
			for k := range d {
				d.GetStream(k)
				d.GetPageTree(k)
				d.GetNameTreeMap(k)
			}
		}
	}
	if full {
		extract(doc, password)
	}
}

// calm is a run that must end normally within the given limits.
func calm(lab string, doc []byte, password string, full bool, limit uint64) *mc.Case {
	return &mc.Case{Label: lab, Doc: doc, Run: func() mc.Result {
		t, a := time.Now(), allocated()
		exhaust(doc, password, full)
		a, d := allocated()-a, time.Since(t)
		if os.Getenv("MC_METER") != "" && (a > 20<<20 || d > time.Second) {
			fmt.Fprintf(meterFile(), "METER %d bytes doc, %d MB, %v: %s\n", len(doc), a>>20, d, lab)
		}
		if a > limit {
			return fail("%d bytes of input made the parser allocate %d MB", len(doc), a>>20)
		}
		if d > 20*time.Second {
			return fail("%d bytes of input kept the parser busy for %v", len(doc), d)
		}
		sz := uint64(0)
		for ; a > 0; a /= 2 {
			sz++
		}
		return mc.Result{Outcome: sz}
	}}
}

const calmLimit = 128 << 20

// base23 is a feature-rich document.
type base23 struct {
	name, pw string
	doc      []byte
}

var bases23 = func() []base23 {
	cm := []byte("/CMapName /X def 1 begincodespacerange <00> <ff> endcodespacerange\n2 beginbfchar <01> <0041> <02> <0042> endbfchar\n2 beginbfrange <10> <1f> <0061> <20> <22> [<0078> <0079> <007a>] endbfrange endcmap")
	txt := []byte("q BT /F1 12 Tf 1 0 0 1 7 7 Tm (\x01\x02) Tj [(a) -120 <1011>] TJ (x\\)y) ' 1 2 (z) \" T* ET Q /M <</A [1]>> BDC BT /F9 1 Tf (n) Tj")
	content := func(b *ref.Builder) {
		b.Obj(1, 0, "<</Type /Catalog /Pages 2 0 R /Names <</EmbeddedFiles <</Kids [5 0 R] /Names [(a) 6 0 R]>> /URLS <</Names [(http://x) 0]>> /JavaScript <</Names [(j) 7 0 R]>>>> /OpenAction 7 0 R /AA <</WC 8 0 R>> /AcroForm <</XFA [(t) 9 0 R (u) 10 0 R]>> /URI <</Base (http://b)>> /Outlines <</First 12 0 R>>>>")
		b.Obj(2, 0, "<</Type /Pages /Kids [3 0 R 4 0 R] /Count 2 /Resources <</Font <</F1 11 0 R>>>>>>")
		b.Obj(3, 0, "<</Type /Page /Parent 2 0 R /Contents [20 0 R 21 0 R] /Annots [<</A <</S /URI /URI (http://u#1)>>>>]>>")
		b.Obj(4, 0, "<</Type /Page /Parent 2 0 R /Contents 20 0 R /MediaBox [0 0 612.5 -.79]>>")
		b.Obj(5, 0, "<</Limits [(b) (c)] /Names [(b) <</F (f\\101\\)) /EF <</F 9 0 R>>>> (c) (x) (d) <</FS /URL /F (http://f)>>]>>")
		b.Obj(6, 0, "<</Type /Filespec /F <612f#> /EF <</F 10 0 R>> /Desc null /K#20 true>>")
		b.Obj(7, 0, "<</S /JavaScript /JS 9 0 R /Next [8 0 R <</S /Launch /Win <</F (w) /P (p)>>>>]>>")
		b.Obj(8, 0, "<</S /Launch /F <</F (l)>> /Next 7 0 R>>")
		b.Obj(11, 0, "<</Type /Font /ToUnicode 22 0 R>>")
		b.Obj(12, 0, "<</Title (o) /A 8 0 R /Next 12 0 R /D [3 0 R /XYZ 0 1.5 null]>>")
		b.Stream(9, 0, "/Type /EmbeddedFile /Filter [/ASCIIHexDecode /RunLengthDecode]", []byte("04 68 65 6c 6c 6f fe 21 80>"))
		b.Stream(10, 0, "/Filter 13 0 R /DecodeParms [null 14 0 R]", append(ref.A85Encode(ref.Zlib(pngPad([]byte("0123456789abcdefghij"), 5), 6), true), "~>"...))
		b.Obj(13, 0, "[/ASCII85Decode /FlateDecode]")
		b.Obj(14, 0, "<</Predictor 12 /Columns 5 /Colors 1 /BitsPerComponent 8>>")
		b.Stream(15, 0, "/Filter [/ASCIIHexDecode /LZWDecode] /DecodeParms [null <</EarlyChange 0 /Predictor 2 /Colors 2 /BitsPerComponent 4 /Columns 3>>]", []byte("800b6050220c0c8501>"))
		b.Stream(20, 0, "", txt)
		b.Stream(21, 0, "", []byte("BT (second) Tj ET"))
		b.Stream(22, 0, "", cm)
	}
	var l []base23
	b := ref.NewBuilder()
	content(b)
	b.Table("/Root 1 0 R")
	b.Obj(8, 0, "<</S /URI /URI (http://second)>>")
	b.Free(12, 1)
	b.Table("/Root 1 0 R")
	l = append(l, base23{"tables", "", b.Bytes()})

	// cross-reference streams, hexadecimal so that every field can be edited
	b = ref.NewBuilder()
	b.Obj(1, 0, "<</Type /Catalog /Pages 2 0 R>>")
	b.Obj(2, 0, "<</Kids [3 0 R]>>")
	b.Obj(3, 0, "<</Contents 4 0 R>>")
	b.Stream(4, 0, "", []byte("BT (x) Tj ET"))
	m := map[int]ref.Entry{}
	for k, v := range b.Pending {
		m[k] = v
	}
	first := b.Len()
	m[9] = ref.Entry{Off: first, Type: 1}
	d := ref.XrefData(m, [][2]int{{1, 4}, {9, 1}}, [3]int{1, 2, 1})
	fmt.Fprintf(&b.B, "9 0 obj\n<</Type /XRef /Size 10 /W [1 2 1] /Index [1 4 9 1] /Root 1 0 R /Filter /ASCIIHexDecode>>\nstream\n%s>\nendstream\nendobj\n", ref.HexEncode(d, true))
	b.StartXref(first)
	off := b.Len()
	b.Obj(3, 0, "<</Contents [4 0 R] /New true>>")
	second := b.Len()
	d = ref.XrefData(map[int]ref.Entry{3: {Off: off, Type: 1}}, [][2]int{{3, 1}}, [3]int{1, 2, 1})
	fmt.Fprintf(&b.B, "10 0 obj\n<</Type /XRef /Size 11 /W [1 2 1] /Index [3 1] /Prev %d /Root 1 0 R /Filter [/ASCIIHexDecode] /DecodeParms [null]>>\nstream\n%s>\nendstream\nendobj\n", first, ref.HexEncode(d, true))
	b.StartXref(second)
	l = append(l, base23{"xref streams", "", b.Bytes()})

	for _, e := range []econf{{2, 3, 128, "RC4", false}, {4, 4, 128, "AES", false}, {1, 2, 40, "RC4", false}} {
		b = ref.NewBuilder()
		b.Obj(1, 0, "<</Type /Catalog /Pages 2 0 R /URI <</Base (http://base)>>>>")
		b.Obj(2, 0, "<</Kids [3 0 R] /Resources <</Font <</F1 <</ToUnicode 5 0 R>>>>>>>>")
		b.Obj(3, 0, "<</Contents 4 0 R>>")
		b.Stream(4, 0, "", txt)
		b.Stream(5, 0, "", cm)
		b.Stream(6, 0, "/Type /EmbeddedFile", []byte("file"))
		b.Stream(7, 0, "/Filter [/Crypt] /DecodeParms [<</Name /Identity>>]", []byte("plain"))
		cr := e.crypt("user", "owner")
		l = append(l, base23{e.String(), "user", b.Encrypted(cr, e.method(), e.cf()+" /EncryptMetadata true", 8)})
	}
	return l
}()

var extremes = []string{"-1", "0", "1", "2", "7", "9", "16", "17", "255", "65535", "65536", "2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808",
	"18446744073709551616", strings.Repeat("9", 400), "0.5", "-2147483649", "-9223372036854775809", "null", "(x)", "[1 2]", "<<>>", "/N", "1 0 R", ""}

// zeros23 are 40000 bytes behind a row tag for each predictor
var zeros23 = map[int][]byte{}

func init() {
	for _, p := range []int{2, 11, 12, 14} {
		zeros23[p] = ref.Zlib(append([]byte{byte(p) % 10}, bytes.Repeat([]byte{byte(p) % 10}, 39999)...), 9)
	}
}

var digits = regexp.MustCompile(`[0-9]+`)

var tokens23 = []string{"1 0 obj\n", "endobj\n", "<<", ">>", "[", "]", "(", ")", "<", ">", "/Type", "/XRef", "stream\n", "endstream\n", "xref\n", "trailer\n", "startxref\n", "%%EOF\n",
	"0 1\n", "0000000000 00000 n\n", "-", "1 0 R", "%", "\\", "\x00", "/W[1 1 1]", "/Size 3", "/Prev 0", "/Encrypt", "/Filter/FlateDecode"}

var inside23 = []string{"/Kids", "[", "]", "<<", ">>", "1 0 R", "2 0 R", "/Names", "/Pages", "/Contents", "/EmbeddedFiles", "/XFA", "/JS", "/URI", "/A", "/AA", "/F", "/EF", "(s)", "7"}

var text23 = []string{"BT", "ET", "/F1", "Tf", "Tj", "TJ", "'", "\"", "(a\x01)", "[", "]", "<<", ">>", "<01", ">", "5", "]]", "\x80", "%"}

var cmap23 = []string{"beginbfchar", "beginbfrange", "endbfrange", "1", "3", "99999999999999999999", "-1", "<00>", "<01>", "<ff>", "<0000>", "<ffffffffffffffffffff>", "<>", "[", "]", "<0041>", "(x)", "<", "/N"}

// textDoc has one page with the contents and the character map.
func textDoc(contents, cm []byte) []byte {
	b := ref.NewBuilder()
	b.Obj(1, 0, "<</Type /Catalog /Pages 2 0 R>>")
	b.Obj(2, 0, "<</Kids [3 0 R] /Resources <</Font <</F1 <</ToUnicode 5 0 R>>>>>>>>")
	b.Obj(3, 0, "<</Contents 4 0 R>>")
	b.Stream(4, 0, "", contents)
	b.Stream(5, 0, "", cm)
	b.Table("/Root 1 0 R")
	return b.Bytes()
}

var growth = []struct {
	name string
	f    func(n int) []byte
}{
	{"objects", func(n int) []byte {
		b := ref.NewBuilder()
		for i := 1; i <= n; i++ {
			b.Obj(i, 0, "<</A [1 2 (x)]>>")
		}
		b.Table("")
		return b.Bytes()
	}},
	{"unclosed objects", func(n int) []byte { return []byte(strings.Repeat("1 0 obj<</A[", n)) }},
	{"unclosed strings", func(n int) []byte { return []byte(strings.Repeat("1 0 obj(", n)) }},
	{"unclosed streams", func(n int) []byte { return []byte(strings.Repeat("1 0 obj<<>>stream\n", n)) }},
	{"revisions", func(n int) []byte {
		b := ref.NewBuilder()
		for i := 0; i < n; i++ {
			b.Obj(1, 0, fmt.Sprint(i))
			b.Table("")
		}
		return b.Bytes()
	}},
	{"stream revisions", func(n int) []byte {
		b := ref.NewBuilder()
		for i := 0; i < n; i++ {
			b.Obj(1, 0, fmt.Sprint(i))
			b.XrefStream(2+i, "")
		}
		return b.Bytes()
	}},
	{"reference chain", func(n int) []byte {
		b := ref.NewBuilder()
		b.Obj(1, 0, "<</A 2 0 R /Kids 2 0 R /JS 2 0 R>>")
		for i := 2; i <= n; i++ {
			b.Obj(i, 0, fmt.Sprintf("%d 0 R", i+1))
		}
		b.Obj(n+1, 0, "<</S /URI>>")
		b.Table("")
		return b.Bytes()
	}},
	{"tree chain", func(n int) []byte {
		b := ref.NewBuilder()
		b.Obj(1, 0, "<</Pages 2 0 R /EmbeddedFiles 2 0 R /URLS 2 0 R>>")
		for i := 2; i <= n; i++ {
			b.Obj(i, 0, fmt.Sprintf("<</Kids [%d 0 R] /Names [(a) (b)]>>", i+1))
		}
		b.Table("")
		return b.Bytes()
	}},
	{"tree lattice", func(n int) []byte { // every level refers to the next one twice
		b := ref.NewBuilder()
		b.Obj(1, 0, "<</Pages 2 0 R /EmbeddedFiles 2 0 R /URLS 2 0 R /A 2 0 R /Next 2 0 R>>")
		for i := 2; i <= n; i += 2 {
			for k := 0; k < 2; k++ {
				b.Obj(i+k, 0, fmt.Sprintf("<</Kids [%d 0 R %d 0 R] /Names [(a) (b)] /Next [%d 0 R %d 0 R] /A %d 0 R /AA <</X %d 0 R /Y %d 0 R>>>>", i+2, i+3, i+2, i+3, i+3, i+2, i+3))
			}
		}
		b.Table("")
		return b.Bytes()
	}},
	{"tree lattice through direct dictionaries", func(n int) []byte {
		b := ref.NewBuilder()
		b.Obj(1, 0, "<</Pages <</Kids [2 0 R 2 0 R]>> /EmbeddedFiles <</Kids [2 0 R]>>>>")
		for i := 2; i <= n; i++ {
			r := fmt.Sprintf("%d 0 R", i+1)
			b.Obj(i, 0, "<</Kids [<</Kids ["+r+"]>> <</Kids ["+r+"]>> "+r+" "+r+"]>>")
		}
		b.Table("")
		return b.Bytes()
	}},
	{"wide trees", func(n int) []byte {
		b := ref.NewBuilder()
		k := ""
		for i := 2; i <= n; i++ {
			b.Obj(i, 0, "<</Names [(k) (v)] /Contents []>>")
			k += fmt.Sprintf("%d 0 R ", i)
		}
		b.Obj(1, 0, "<</Pages <</Kids ["+k+"]>> /EmbeddedFiles <</Kids ["+k+"]>>>>")
		b.Table("")
		return b.Bytes()
	}},
	{"nested arrays and dictionaries", func(n int) []byte {
		return ref.Simple(strings.Repeat("[<</Kids", n) + strings.Repeat(">>]", n))
	}},
	{"nested trees", func(n int) []byte {
		return ref.Simple("<</EmbeddedFiles " + strings.Repeat("<</Names [(a) (b)] /EmbeddedFiles 1 0 R /Kids [", n/4) + strings.Repeat("]>>", n/4) + ">>")
	}},
	{"nested actions", func(n int) []byte {
		return ref.Simple(strings.Repeat("<</A <</URI (u) /Next [<</AA ", n/8) + strings.Repeat(">>]>>>>", n/8))
	}},
	{"numbers", func(n int) []byte { return ref.Simple("[" + strings.Repeat("1 2 ", n) + "]") }},
	{"references", func(n int) []byte { return ref.Simple("[" + strings.Repeat("1 0 R ", n) + "]") }},
	{"long tokens", func(n int) []byte {
		s := strings.Repeat("41", 10*n)
		return ref.Simple("[/"+s+" ("+s+") <"+s+"> "+s+" 0."+s+" "+strings.Repeat("#41", n)+" /"+strings.Repeat("#41", n)+" ("+strings.Repeat("\\101(", n)+strings.Repeat(")", n)+")]", "("+strings.Repeat("(", n), "%"+s+"\n"+strings.Repeat("%\n", n)+"5")
	}},
	{"filters", func(n int) []byte {
		b := ref.NewBuilder()
		b.Stream(1, 0, "/Filter ["+strings.Repeat("/ASCIIHexDecode /RunLengthDecode ", n)+"] /DecodeParms ["+strings.Repeat("null ", n)+"]", []byte(strings.Repeat("41", n)))
		b.Table("")
		return b.Bytes()
	}},
	{"filters by reference", func(n int) []byte {
		b := ref.NewBuilder()
		b.Stream(1, 0, "/Filter ["+strings.Repeat("2 0 R ", n/4)+"] /DecodeParms ["+strings.Repeat("3 0 R ", n/4)+"]", []byte("41"))
		b.Stream(2, 0, "/Filter [1 0 R]", nil)
		b.Stream(3, 0, "/Filter 1 0 R /DecodeParms 3 0 R", nil)
		b.Table("")
		return b.Bytes()
	}},
	{"text blocks", func(n int) []byte {
		return textDoc([]byte(strings.Repeat("BT /F1 1 Tf (a) Tj [(b) 1 (c)] TJ ET ", n)), nil)
	}},
	{"operands", func(n int) []byte {
		return textDoc([]byte(strings.Repeat("1 (a) ", n)+"Tj BT "+strings.Repeat("1 (a) ", n)+"Tj "+strings.Repeat("[", n)+strings.Repeat("(", n)), nil)
	}},
	{"codes", func(n int) []byte {
		s := ""
		for i := 0; i < n; i++ {
			s += fmt.Sprintf("<%04x> <0041>\n", i)
		}
		return textDoc([]byte("BT /F1 1 Tf ("+strings.Repeat("ab", n)+") Tj"), []byte(fmt.Sprintf("%d beginbfchar %s endbfchar", n, s)))
	}},
	{"ranges", func(n int) []byte {
		s := ""
		for i := 0; i < n; i++ {
			s += fmt.Sprintf("<%04x> <%04x> <0041>\n", 16*i, 16*i+15)
		}
		return textDoc(nil, []byte(fmt.Sprintf("%d beginbfrange %s endbfrange", n, s)))
	}},
	{"range arrays", func(n int) []byte {
		return textDoc(nil, []byte("1 beginbfrange <0000> <ffff> ["+strings.Repeat("<41> ", n)+"] endbfrange"))
	}},
	{"index", func(n int) []byte {
		b := ref.NewBuilder()
		b.Obj(1, 0, "1")
		o := b.Len()
		b.Stream(2, 0, "/Type /XRef /W [1 1 1] /Size 3 /Index ["+strings.Repeat("0 9 ", n)+"]", pattern(27*n))
		b.StartXref(o)
		return b.Bytes()
	}},
	{"sections", func(n int) []byte {
		return []byte("1 0 obj 1 endobj xref\n" + strings.Repeat("1 1\n0000000000 00000 n \n", n) + "trailer <<>>")
	}},
	{"markers", func(n int) []byte {
		return []byte(strings.Repeat("xref startxref trailer %%EOF ", n) + strings.Repeat("1 ", n) + strings.Repeat("%obj\n", n))
	}},
	{"forms", func(n int) []byte {
		b := ref.NewBuilder()
		b.Obj(1, 0, "<</AcroForm <</XFA ["+strings.Repeat("2 0 R ", n)+"]>>>>")
		b.Stream(2, 0, "", []byte("abc"))
		b.Table("")
		return b.Bytes()
	}},
	{"fonts", func(n int) []byte {
		b := ref.NewBuilder()
		t := ""
		for i := 0; i < n; i++ {
			t += fmt.Sprintf("/F%d 5 0 R ", i)
		}
		b.Obj(1, 0, "<</Pages <</Resources <</Font <<"+t+">>>> /Kids [2 0 R]>>>>")
		b.Obj(2, 0, "<</Contents 3 0 R>>")
		b.Stream(3, 0, "", nil)
		b.Obj(5, 0, "<</ToUnicode 6 0 R>>")
		b.Stream(6, 0, "", []byte("1 beginbfchar <01> <41> endbfchar"))
		b.Table("")
		return b.Bytes()
	}},
}

func init() {
	inPos := []struct {
		name string
		f    func(w string) []byte
	}{
		{"file", func(w string) []byte { return []byte(w) }},
		{"object", func(w string) []byte { return []byte("1 0 obj\n" + w) }},
		{"dictionary", func(w string) []byte { return []byte("1 0 obj\n<</A " + w) }},
		{"closed", func(w string) []byte { return []byte("1 0 obj\n<</A " + w + "\nendobj\n2 0 obj 5 endobj") }},
		{"trailer", func(w string) []byte { return []byte("1 0 obj 5 endobj\nxref\n0 0\ntrailer " + w) }},
		{"table", func(w string) []byte { return []byte("1 0 obj 5 endobj\nxref\n" + w) }},
		{"contents", func(w string) []byte { return textDoc([]byte("BT /F1 1 Tf "+w), nil) }},
		{"character map", func(w string) []byte { return textDoc(nil, []byte("2 beginbfrange "+w)) }},
	}
	filterNames := []string{"ASCIIHexDecode", "ASCII85Decode", "RunLengthDecode", "FlateDecode", "LZWDecode"}
	mc.Register(&mc.Prop{
		ID:          "C23",
		Technique:   "exhaustive enumeration of token words, edits, truncations, extreme numbers in every numeric field, nesting depths and growth families; loading, fetching every object and full extraction on the real code in watched worker processes",
		Note:        "Each case must end without panic or fatal error (stack, memory), allocate no more than a fixed amount and finish; growth families may grow quadratically with their size. Decompression bombs are left out.",
		Assumptions: []string{"A case that gives no answer for 45 s, and for 60 s alone in a fresh process, is taken to hang.", "Memory is metered as the bytes allocated during a case."},
		Scopes: func(th bool) []mc.Scope {
			d := 0
			if th {
				d = 1
			}
			words := func(name string, toks []string, max int, sep string, full bool, mk func(w string) []byte) mc.Scope {
				return mc.Scope{Name: name, Bound: fmt.Sprintf("all words of length <= %d over %d tokens", max, len(toks)), Gen: func(c *mc.C) *mc.Case {
					w := word(c, toks, max)
					if c.Skip {
						return mc.Stub
					}
					t := strings.Join(w, sep)
					cs := calm(label("%q", t), mk(t), "", full, calmLimit)
					cs.Trivial = len(w) == 0
					return cs
				}}
			}
			return []mc.Scope{
				words("file words", tokens23, 3+d, "", false, func(w string) []byte { return []byte(w) }),
				words("file words extracted", tokens23, 2+d, "", true, func(w string) []byte { return []byte(w) }),
				words("object words", tokens23, 3, "", false, func(w string) []byte { return []byte("2 0 obj\n" + w) }),
				words("catalogue words", inside23, 3+d, " ", true, func(w string) []byte {
					return ref.Simple("<</Pages 2 0 R "+w, "<</EmbeddedFiles "+w+" /Kids [1 0 R 2 0 R]>>")
				}),
				words("text words", text23, 3+d, " ", true, func(w string) []byte { return textDoc([]byte("BT "+w), []byte("1 beginbfchar <01> <41>")) }),
				words("map words", cmap23, 3+d, " ", true, func(w string) []byte {
					return textDoc([]byte("BT /F1 1 Tf (\x00\x01\xff)Tj"), []byte("2 beginbfrange "+w))
				}),
				{"bytes", "every pair of bytes in eight positions", func(c *mc.C) *mc.Case {
					a := c.Choose(256)
					b := c.Choose(257)
					pos := mc.Pick(c, inPos)
					if !th && (a+b)%8 != 0 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					w := string([]byte{byte(a), byte(b)})
					if b == 256 {
						w = w[:1]
					}
					return calm(label("%s %q", pos.name, w), pos.f(w), "", false, calmLimit)
				}},
				{"edits", "feature-rich documents (plain, two kinds of cross-references, three encryptions), at every offset: cut off, one byte deleted or replaced by or preceded by structural bytes", func(c *mc.C) *mc.Case {
					b := mc.Pick(c, bases23)
					ins := "<>[](/%\\9-\x00\n"
					if th {
						ins += "{#R\xff s~"
					}
					at := c.Choose(len(b.doc))
					k := c.Choose(2 + 2*len(ins))
					if !th && k > 1 && (at+k)%5 != 0 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					var doc []byte
					switch {
					case k == 0:
						doc = b.doc[:at]
					case k == 1:
						doc = splice(b.doc, at, 1, "")
					case k < 2+len(ins):
						doc = splice(b.doc, at, 1, ins[k-2:k-1])
					default:
						doc = splice(b.doc, at, 0, ins[k-2-len(ins):k-1-len(ins)])
					}
					return calm(label("%s at %d edit %d", b.name, at, k), doc, b.pw, true, calmLimit)
				}},
				{"tokens", "the same documents, every token deleted, doubled or replaced by each of 16 tokens", func(c *mc.C) *mc.Case {
					b := mc.Pick(c, bases23)
					loc := tokenRe.FindAllIndex(b.doc, -1)
					li := c.Choose(len(loc))
					l := loc[li]
					k := c.Choose(18)
					if !th && k > 1 && (li+k)%3 != 0 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					ins := ""
					switch {
					case k == 1:
						ins = string(b.doc[l[0]:l[1]]) + " " + string(b.doc[l[0]:l[1]])
					case k > 1:
						ins = []string{"<<", ">>", "[", "]", "(", "null", "1 0 R", "3 0 R", "/Kids", "endobj", "stream\n", "endstream", "xref", "-1", "%", "7 0 obj"}[k-2]
					}
					return calm(label("%s at %d token %d", b.name, l[0], k), splice(b.doc, l[0], l[1]-l[0], ins), b.pw, true, calmLimit)
				}},
				{"numbers", fmt.Sprintf("the same documents, every number replaced by each of %d extreme values", len(extremes)), func(c *mc.C) *mc.Case {
					b := mc.Pick(c, bases23)
					loc := digits.FindAllIndex(b.doc, -1)
					i := c.Choose(len(loc))
					x := mc.Pick(c, extremes)
					if c.Skip {
						return mc.Stub
					}
					return calm(label("%s number %d at %d is %.30s", b.name, i, loc[i][0], x), splice(b.doc, loc[i][0], loc[i][1]-loc[i][0], x), b.pw, true, calmLimit)
				}},
				{"xref stream fields", "cross-reference stream: three widths, section start and length, Size over extreme values, two at a time", func(c *mc.C) *mc.Case {
					v := []string{"1", "2", "1", "0", "3", "4"}
					i := c.Choose(6)
					j := i + c.Choose(6-i)
					v[i] = mc.Pick(c, extremes)
					if j != i {
						v[j] = mc.Pick(c, extremes)
					}
					noIndex := c.Bool()
					if c.Skip {
						return mc.Stub
					}
					b := ref.NewBuilder()
					b.Obj(1, 0, "5")
					o := b.Len()
					ix := "/Index [" + v[3] + " " + v[4] + "]"
					if noIndex {
						ix = ""
					}
					b.Stream(2, 0, "/Type /XRef /W ["+v[0]+" "+v[1]+" "+v[2]+"] "+ix+" /Size "+v[5], pattern(40))
					b.StartXref(o)
					return calm(label("W Index Size %q %v", v, noIndex), b.Bytes(), "", false, calmLimit)
				}},
				{"predictors", "predictor x colours x bits x columns over edge and extreme values x four data lengths x Flate and LZW", func(c *mc.C) *mc.Case {
					pr := mc.Pick(c, []string{"2", "10", "12", "15", "1", "16", "-1"})
					co := mc.Pick(c, []string{"1", "3", "-1", "0", "65535", "65536", "2147483648", "9223372036854775807"})
					bp := mc.Pick(c, []string{"8", "1", "7", "16", "-1", "0", "17", "32", "2147483648", "4611686018427387904"})
					cl := mc.Pick(c, []string{"1", "7", "-1", "0", "2147483647", "2147483648", "4611686018427387904", "1e5"})
					n := mc.Pick(c, []int{1, 2, 9, 100})
					lzw := c.Bool()
					if c.Skip {
						return mc.Stub
					}
					data, f := ref.Zlib(pattern(n), 6), "FlateDecode"
					if lzw {
						data, f = ref.LZWEncode(pattern(n), ref.LZWOpts{Early: 1}), "LZWDecode"
					}
					b := ref.NewBuilder()
					b.Stream(1, 0, "/Filter /"+f+" /DecodeParms <</Predictor "+pr+" /Colors "+co+" /BitsPerComponent "+bp+" /Columns "+cl+">>", data)
					b.Table("")
					return calm(label("%s predictor %s colours %s bits %s columns %s %d bytes", f, pr, co, bp, cl, n), b.Bytes(), "", false, calmLimit)
				}},
				{"predictor overflows", "predictor 2 and the PNG ones x colours and columns of every power of two from 2^28 to 2^63, with and without the next larger number, and small ones x bits: products beyond 32, 63 and 64 bits, 40000 bytes of data", func(c *mc.C) *mc.Case {
					pick := func() string {
						k := c.Choose(5 + 2*36)
						if k < 5 {
							return fmt.Sprint([]int{1, 2, 3, 16, 65535}[k])
						}
						k -= 5
						f := math.Ldexp(1, 28+k/2)
						if k%2 == 1 {
							f = math.Nextafter(f+1, math.Inf(1))
						}
						return strconv.FormatFloat(f, 'f', -1, 64)
					}
					co, cl := pick(), pick()
					bp := mc.Pick(c, []int{8, 16, 1, 4})
					pr := mc.Pick(c, []int{2, 11, 12, 14})
					if c.Skip {
						return mc.Stub
					}
					b := ref.NewBuilder()
					b.Stream(1, 0, fmt.Sprintf("/Filter /FlateDecode /DecodeParms <</Predictor %d /Colors %s /BitsPerComponent %d /Columns %s>>", pr, co, bp, cl), zeros23[pr])
					b.Table("")
					return calm(label("predictor %d colours %s bits %d columns %s", pr, co, bp, cl), b.Bytes(), "", false, calmLimit)
				}},
				{"filter data", "all data of one and two bytes, and of three and four over edge values, in each filter without and with a predictor", func(c *mc.C) *mc.Case {
					f := mc.Pick(c, filterNames)
					pr := c.Bool()
					head := ""
					if f == "FlateDecode" {
						head = mc.Pick(c, []string{"", "\x78\x9c"})
					}
					var w []byte
					if c.Bool() {
						n := 3 + c.Choose(2)
						edge := "\x00\x01\x7f\x80\x81\xff>~z!u9"
						for i := 0; i < n; i++ {
							w = append(w, edge[c.Choose(len(edge))])
						}
					} else {
						w = append(w, byte(c.Choose(256)))
						if k := c.Choose(257); k > 0 {
							w = append(w, byte(k-1))
						}
					}
					if !th && len(w) > 1 && (int(w[0])+int(w[1]))%8 != 0 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					p := ""
					if pr {
						p = " /DecodeParms <</Predictor 12 /Columns 2>>"
					}
					b := ref.NewBuilder()
					b.Stream(1, 0, "/Filter /"+f+p, append([]byte(head), w...))
					b.Table("")
					return calm(label("%s predictor %v %q", f, pr, head+string(w)), b.Bytes(), "", false, calmLimit)
				}},
				{"encryption fields", "V, R, Length, crypt filter length, method, P, lengths of O, U and ID over edge and extreme values, two at a time, with strings and streams of every length up to 49", func(c *mc.C) *mc.Case {
					nums := []string{"-1", "0", "1", "2", "3", "4", "5", "6", "16", "17", "39", "40", "47", "128", "129", "256", "2147483648", "9223372036854775808", "0.5", "(x)"}
					lens := []string{"0", "1", "15", "16", "17", "31", "32", "33", "100", "-"}
					opts := [][]string{nums, nums, nums, nums, {"V2", "AESV2", "None", "AESV3", "X"}, append([]string{"-44", "4294967252"}, nums...), lens, lens, lens}
					e := mc.Pick(c, econfsFew)
					i := c.Choose(len(opts))
					j := i + c.Choose(len(opts)-i)
					vi := mc.Pick(c, opts[i])
					vj := vi
					if j != i {
						vj = mc.Pick(c, opts[j])
					}
					if !th && j != i && (i+j+len(vi)+len(vj))%3 != 0 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					cr := e.crypt("user", "owner")
					cr.Setup()
					m := "V2"
					if e.kind == "AES" {
						m = "AESV2"
					}
					v := []string{fmt.Sprint(e.v), fmt.Sprint(e.r), fmt.Sprint(e.bits), "16", m, "-44", "32", "32", "16"}
					v[i] = vi
					v[j] = vj
					cut := func(s string, k string) string {
						n := 0
						if k == "-" {
							return "null"
						}
						fmt.Sscan(k, &n)
						return ref.HexLit((s + strings.Repeat("x", 100))[:n])
					}
					b := ref.NewBuilder()
					var strs Arr
					for k := 0; k < 50; k++ {
						strs = append(strs, Str(pattern(k)))
					}
					b.Obj(1, 0, ref.Write(strs))
					for k := 0; k < 50; k++ {
						b.Stream(2+k, 0, "", pattern(k))
					}
					b.Obj(90, 0, fmt.Sprintf("<</Filter /Standard /V %s /R %s /Length %s /P %s /O %s /U %s /CF <</StdCF <</CFM /%s /Length %s>>>> /StmF /StdCF /StrF /StdCF>>",
						v[0], v[1], v[2], v[5], cut(string(cr.O), v[6]), cut(string(cr.U), v[7]), v[4], v[3]))
					b.Table("/Encrypt 90 0 R /ID [" + cut(cr.ID, v[8]) + "]")
					return calm(label("%v fields %v", e, v), b.Bytes(), "user", false, calmLimit)
				}},
				{"nesting", "opening tokens repeated 1 to 40, around the nesting limit and 2000 to 200000 times, in a file, object, dictionary, trailer, table, contents and character map", func(c *mc.C) *mc.Case {
					t := mc.Pick(c, []string{"[", "<<", "<</A", "(", "<", "[<<", "<</Kids[", "<</K[<</A ", "%\n", "{", "<</Pages<</EmbeddedFiles", "/A ", "\\", "(\\(", "<</A<</S/Launch/Next", "0 ", "1 0 R "})
					ns := []int{511, 512, 513, 600, 2000, 200000}
					n := c.Choose(40 + len(ns))
					pos := mc.Pick(c, inPos)
					if c.Skip {
						return mc.Stub
					}
					n++
					if n > 40 {
						n = ns[n-41]
					}
					if !th && n > 40 && n < 512 {
						return mc.Drop()
					}
					return calm(label("%d x %q in %s", n, t, pos.name), pos.f(strings.Repeat(t, n)), "", n != 200000, 600<<20)
				}},
				{"range targets", "character map ranges of 1 to 2^32 codes, targets of 1 to 65536 bytes, 1 to 20 ranges, distinct or the same", func(c *mc.C) *mc.Case {
					end := mc.Pick(c, []string{"0000", "00ff", "ffff", "ffffffff", "ffffffffffffffff"})
					l := mc.Pick(c, []int{1, 2, 16, 256, 4096, 65536})
					n := mc.Pick(c, []int{1, 3, 20})
					distinct, array := c.Bool(), c.Bool()
					if !th && n*l > 200000 && len(end) != 4 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					s := ""
					for i := 0; i < n; i++ {
						k := 0
						if distinct {
							k = i
						}
						t := ref.HexLit(string(pattern(l)))
						if array {
							t = "[" + t + "]"
						}
						s += fmt.Sprintf("<%02x%s> <%02x%s> %s\n", k, strings.Repeat("0", len(end)), k, end, t)
					}
					return calm(label("%d ranges up to %s, %d bytes, distinct %v array %v", n, end, l, distinct, array), textDoc([]byte("BT /F1 1 Tf (ab) Tj"), []byte(fmt.Sprintf("%d beginbfrange\n%sendbfrange", n, s))), "", true, calmLimit+200<<20)
				}},
				{"growth", "families of documents of size n = 24, 48, 96, 192, 384 (thorough: 1536)", func(c *mc.C) *mc.Case {
					g := growth[c.Choose(len(growth))]
					return &mc.Case{Label: label("family %s", g.name), Run: func() mc.Result {
						max := 384
						if th {
							max = 1536
						}
						var al []uint64
						var ts []time.Duration
						for n := 24; n <= max; n *= 2 {
							doc := g.f(n)
							best := uint64(1) << 62
							t := time.Now()
							for k := 0; k < 2; k++ {
								a := allocated()
								exhaust(doc, "", true)
								if a = allocated() - a; a < best {
									best = a
								}
							}
							al, ts = append(al, best), append(ts, time.Since(t)/2)
							if os.Getenv("MC_METER") != "" {
								fmt.Fprintf(meterFile(), "METER growth %s %d: %d KB %v\n", g.name, n, best>>10, time.Since(t)/2)
							}
							if k := len(al) - 1; k > 0 && al[k] > 5*al[k-1]+4<<20 {
								return fail("%s: size %d allocates %d KB, size %d allocates %d KB", g.name, n/2, al[k-1]>>10, n, al[k]>>10)
							}
							if ts[len(ts)-1] > 20*time.Second {
								return fail("%s: size %d (%d bytes) takes %v", g.name, n, len(doc), ts[len(ts)-1])
							}
						}
						return mc.Result{Outcome: al[len(al)-1] >> 20}
					}}
				}},
			}
		},
	})
}

var tokenRe = regexp.MustCompile(`[A-Za-z0-9.#+*'"-]+|<<|>>|[][()<>/%]`)

func meterFile() *os.File {
	f, _ := os.OpenFile(os.Getenv("MC_METER"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	return f
}
