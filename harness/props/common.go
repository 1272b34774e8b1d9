// Package props holds one file per property: what is enumerated, and the oracle.
package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"

	"verif/mc"
	"verif/ref"
)

type (
	V    = ref.V
	Num  = ref.Num
	Str  = ref.Str
	Name = ref.Name
	Ref  = ref.Ref
	Arr  = ref.Arr
	Dict = ref.Dict
	KV   = ref.KV
	Key  = ref.Key
)

func q(b []byte) string {
	if len(b) > 160 {
		return fmt.Sprintf("%q...(%d bytes)", b[:160], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func label(format string, a ...interface{}) string {
	s := fmt.Sprintf(format, a...)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

// open loads a document from memory.
func open(doc []byte, password string) (*pdf.Parser, error) {
	p := pdf.NewParser(bytes.NewReader(doc), nil)
	return p, p.Load(password)
}

func fail(format string, a ...interface{}) mc.Result {
	return mc.Result{Fail: fmt.Sprintf(format, a...)}
}

// expectValues loads the document and compares the values of objects.
func expectValues(doc []byte, password string, want map[int]V) mc.Result {
	p, err := open(doc, password)
	if err != nil {
		return fail("Load: %v", err)
	}
	return checkValues(p, want)
}

func checkValues(p *pdf.Parser, want map[int]V) mc.Result {
	var seen []string
	for _, n := range keys(want) {
		got := ref.From(p.GetObject(n).Value)
		if !ref.Equal(got, want[n]) {
			return fail("object %d reads as %s, expected %s", n, ref.Show(got), ref.Show(want[n]))
		}
		seen = append(seen, ref.Show(got))
	}
	return mc.Result{Outcome: mc.Digest(seen...)}
}

func keys[T any](m map[int]T) []int {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

// valueCase: a document whose objects must have the given values.
func valueCase(lab string, doc []byte, want map[int]V) *mc.Case {
	return &mc.Case{Label: lab, Doc: doc, Run: func() mc.Result { return expectValues(doc, "", want) }}
}

// streamCase: object n must have exactly this stream.
func streamCase(lab string, doc []byte, n int, want []byte) *mc.Case {
	return &mc.Case{Label: lab, Doc: doc, Trivial: len(want) == 0, Run: func() mc.Result {
		p, err := open(doc, "")
		if err != nil {
			return fail("Load: %v", err)
		}
		got := p.GetObject(n).Stream
		if !bytes.Equal(got, want) {
			return fail("stream of object %d is %s, expected %s%s", n, q(got), q(want), diffAt(got, want))
		}
		return mc.Result{Outcome: mc.Digest(string(got))}
	}}
}

// bigSizes reach beyond every limit an implementation may be tempted to set.
var bigSizes = []int{150000, 200000, 262143, 262144, 262145, 300000, 500000, 524289, 1000000, 1048575, 1048576, 1048577, 2000000, 2097153, 4194304, 4194305, 5000000, 8388609, 10000001, 16777217}

func diffAt(a, b []byte) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return fmt.Sprintf(" (lengths %d, %d; first difference at %d: %#x, %#x)", len(a), len(b), i, a[i], b[i])
		}
	}
	return fmt.Sprintf(" (lengths %d, %d; one is a prefix of the other)", len(a), len(b))
}

// Report is the output directory of a run.
type Report struct {
	Err   error
	Files map[string][]byte // all files by name
}

func (r *Report) Get(name string) string { return string(r.Files[name]) }

// Lines of a report file.
func (r *Report) Lines(name string) []string { return lines(r.Get(name)) }

func lines(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(s, "\n"), "\n")
}

var reportNames = []string{"commands.txt", "contents.txt", "errors.txt", "files.txt", "javascript.js", "raw.pdf", "urls.txt"}

func scratch() string {
	d := os.Getenv("MC_TMP")
	if d == "" {
		d = filepath.Join(os.TempDir(), "mc")
	}
	os.MkdirAll(d, 0755)
	return d
}

// extract runs pdf.Parse on the document in the scratch directory and reads everything it wrote.
func extract(doc []byte, password string) *Report {
	d := scratch()
	in, out := filepath.Join(d, "in.pdf"), filepath.Join(d, "out")
	if err := os.WriteFile(in, doc, 0644); err != nil {
		panic(err)
	}
	r := &Report{Files: map[string][]byte{}}
	r.Err = pdf.Parse(in, password, out)
	es, _ := os.ReadDir(out)
	for _, e := range es {
		b, err := os.ReadFile(filepath.Join(out, e.Name()))
		if err == nil {
			r.Files[e.Name()] = b
		}
	}
	return r
}

func set(l []string) []string {
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	out := make([]string, 0, len(m))
	for s := range m {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sorted(l []string) []string {
	o := append([]string{}, l...)
	sort.Strings(o)
	return o
}

// word builds a word of length <= max over an alphabet: every length and every word is enumerated.
func word(c *mc.C, alphabet []string, max int) []string {
	var w []string
	for len(w) < max {
		k := c.Choose(len(alphabet) + 1)
		if k == 0 {
			break
		}
		w = append(w, alphabet[k-1])
	}
	return w
}

func bytesAlphabet(s string) []string {
	var a []string
	for i := 0; i < len(s); i++ {
		a = append(a, s[i:i+1])
	}
	return a
}

// pattern is a deterministic, not too regular byte sequence.
func pattern(n int) []byte {
	b := make([]byte, n)
	x := uint32(12345)
	for i := range b {
		x = x*1103515245 + 12345
		b[i] = byte(x >> 16)
	}
	return b
}

var sizes = func() []int {
	var s []int
	for i := 0; i <= 40; i++ {
		s = append(s, i)
	}
	for p := 64; p <= 1<<17; p *= 2 {
		s = append(s, p-1, p, p+1)
	}
	return s
}()
