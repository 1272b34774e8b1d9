package props

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"sync"

	"github.com/KarmaPenny/pdfparser/pdf"

	"verif/mc"
	"verif/ref"
)

// doc28 is a document together with the password it is opened with.
type doc28 struct {
	name, pw string
	doc      []byte
}

// docs28 use the same object numbers for different things.
var docs28 = func() []doc28 {
	variant := func(k int) *ref.Builder {
		s := func(f string) string { return fmt.Sprintf(f, k) }
		b := ref.NewBuilder()
		b.Obj(1, 0, "<</Type /Catalog /Pages 2 0 R /Names <</EmbeddedFiles <</Names [(a) 6 0 R]>>>> /OpenAction 7 0 R /AcroForm <</XFA 9 0 R>>>>")
		b.Obj(2, 0, "<</Type /Pages /Kids [3 0 R 4 0 R] /Count 2 /Resources <</Font <</F1 11 0 R>>>>>>")
		b.Obj(3, 0, "<</Type /Page /Parent 2 0 R /Contents [20 0 R 21 0 R]>>")
		b.Obj(4, 0, "<</Type /Page /Parent 2 0 R /Contents 21 0 R /Resources <</Font <</F1 12 0 R>>>>>>")
		b.Obj(6, 0, s("<</Type /Filespec /F (file%d) /EF <</F 10 0 R>>>>"))
		b.Obj(7, 0, s("<</S /JavaScript /JS (script %d) /Next [<</S /URI /URI (http://"+fmt.Sprint(k)+")>> <</S /Launch /F (run%d)>>]>>"))
		b.Stream(9, 0, "", []byte(s("<form %d/>")))
		switch k % 3 {
		case 0:
			b.Stream(10, 0, "", []byte(s("embedded content %d")))
		case 1:
			b.Stream(10, 0, "/Filter /FlateDecode /DecodeParms <</Predictor 12 /Columns 4>>", ref.Zlib(pngPad([]byte("abcdefgh"), 4), 6))
		case 2:
			b.Stream(10, 0, "/Filter [/ASCIIHexDecode /LZWDecode]", []byte("800b6050220c0c8501>"))
		}
		b.Obj(11, 0, "<</Type /Font /ToUnicode 22 0 R>>")
		b.Obj(12, 0, "<</Type /Font>>")
		b.Stream(20, 0, "", []byte("BT /F1 12 Tf (\x01\x02) Tj ET"))
		b.Stream(21, 0, "", []byte(s("BT /F1 1 Tf (\x02\x03) Tj (plain %d) Tj ET BT (none) Tj ET")))
		b.Stream(22, 0, "", []byte(fmt.Sprintf("1 begincodespacerange <00> <ff> endcodespacerange 2 beginbfchar <01> <00%02x> <02> <00%02x> endbfchar", 0x41+k, 0x51+k)))
		return b
	}
	var l []doc28
	plain := func(k int) {
		b := variant(k)
		if k == 2 {
			b.XrefStream(30, "/Root 1 0 R")
		} else {
			b.Table("/Root 1 0 R")
		}
		l = append(l, doc28{fmt.Sprintf("plain %d", k), "", b.Bytes()})
	}
	crypt := func(k int, e econf, user string, pws ...string) {
		doc := variant(k).Encrypted(e.crypt(user, fmt.Sprintf("owner %d", k)), e.method(), e.cf(), 900)
		for _, pw := range pws {
			l = append(l, doc28{fmt.Sprintf("%s %d %q", e.kind, k, pw), pw, doc})
		}
	}
	plain(0)
	plain(1)
	crypt(3, econfsFew[1], "user", "user", "wrong")
	crypt(4, econfsFew[3], "user", "user")
	crypt(5, econfsFew[3], "", "")
	crypt(6, econfsFew[0], "padded password that is longer than that", "padded password that is longer than that")
	crypt(7, econfsFew[4], "x", "x")
	plain(2)
	d := docs25[len(docs25)-2]
	l = append(l, doc28{d.name, d.pw, d.doc})
	l = append(l, doc28{"damaged table", "", bytes.Replace(l[1].doc, []byte("startxref\n"), []byte("startxref\n7"), 1)})
	return l
}()

// view28 is what a document gives, object by object and, with reports, in the reports.
func view28(rs io.ReadSeeker, pw string, reports string, order func(nums []int) []int) string {
	var out *pdf.Output
	if reports != "" {
		var err error
		if out, err = pdf.NewOutput(reports); err != nil {
			panic(err)
		}
	}
	p := pdf.NewParser(rs, out)
	err := p.Load(pw)
	s := fmt.Sprint(err) + "\n"
	nums := map[int]bool{}
	for n := range p.Xref {
		nums[n] = true
	}
	ns := keys(nums)
	if order != nil {
		ns = order(ns)
	}
	shots := map[int]string{}
	for _, n := range ns {
		o := p.GetObject(n)
		shots[n] = shot(o)
		if reports != "" && err == nil {
			o.Extract(out)
		}
	}
	for _, n := range keys(shots) {
		s += shots[n] + "\n"
	}
	if reports != "" {
		out.Close()
		s += dirView(reports)
	}
	return s
}

// dirView is the content of a directory, each file as a set of lines; raw.pdf, whose dictionaries are in any order,
// as a multiset of bytes.
func dirView(dir string) string {
	s := ""
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
		if e.Name() == "raw.pdf" {
			sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
			s += e.Name() + fmt.Sprintf(" %d bytes, %x\n", len(b), mc.Digest(string(b)))
			continue
		}
		s += e.Name() + fmt.Sprintf("%q", set(lines(string(b)))) + "\n"
	}
	return s
}

// parse28 is what the top-level entry point gives.
func parse28(d doc28, dir string) string {
	in := dir + ".pdf"
	must(os.WriteFile(in, d.doc, 0644))
	err := pdf.Parse(in, d.pw, dir)
	return fmt.Sprint(err) + "\n" + dirView(dir)
}

// fresh28 are the views of each document in a process that has parsed nothing else: objects only, with reports,
// and by the top-level entry point.
var fresh28 [][3]string

func init() {
	mc.Commands["fresh"] = func(a []string) int {
		i, _ := strconv.Atoi(a[0])
		mode, _ := strconv.Atoi(a[1])
		os.Stdout.WriteString(one28(docs28[i], mode, filepath.Join(a[2], fmt.Sprintf("fresh%s.%s", a[0], a[1]))))
		return 0
	}
	// race runs documents concurrently with nothing but their start and end in common.
	mc.Commands["race"] = func(a []string) int {
		runtime.GOMAXPROCS(4)
		var wg sync.WaitGroup
		start := make(chan bool)
		mode, _ := strconv.Atoi(a[0])
		for i, x := range a[2:] {
			k, _ := strconv.Atoi(x)
			wg.Add(1)
			go func(i int) {
				<-start
				one28(docs28[k], mode, filepath.Join(a[1], fmt.Sprintf("race%d", i)))
				wg.Done()
			}(i)
		}
		close(start)
		wg.Wait()
		return 0
	}
	mc.Commands["twin"] = func(a []string) int {
		i, _ := strconv.Atoi(a[0])
		at, _ := strconv.Atoi(a[1])
		os.Stdout.WriteString(one28(twin28(i, at), 1, filepath.Join(a[2], fmt.Sprintf("twin%d.%d", i, at))))
		return 0
	}
	mc.Register(&mc.Prop{
		ID:        "C28",
		Technique: "exhaustive enumeration of sequences of parses, of interleavings of two parsers' calls, and of schedules with up to two preemptions at any read (cooperative scheduling of the real code), each view compared with that of a fresh process; for each pair of documents a concurrent run under the race detector, which shows that no step of one run conflicts with one of the other, so that finer interleavings are equivalent to the explored ones",
		Note:      "Baselines come from fresh processes of the same code: what the results should be is the matter of the other properties. The race detector watches one schedule per pair; what it observes is independence of memory accesses, not their order.",
		Init: func() {
			exe, _ := os.Executable()
			fresh28 = make([][3]string, len(docs28))
			var wg sync.WaitGroup
			sem := make(chan bool, 4)
			for i := range docs28 {
				for m := 0; m < 3; m++ {
					wg.Add(1)
					sem <- true
					go func(i, m int) {
						out, err := exec.Command(exe, "fresh", strconv.Itoa(i), strconv.Itoa(m), scratch()).Output()
						if err != nil {
							out = []byte("fresh process: " + err.Error())
						}
						fresh28[i][m] = string(out)
						<-sem
						wg.Done()
					}(i, m)
				}
			}
			wg.Wait()
		},
		Scopes: func(th bool) []mc.Scope {
			check := func(i, mode int, got string) string {
				if want := fresh28[i][mode]; got != want {
					return fmt.Sprintf("%s (view %d): %s", docs28[i].name, mode, diffLine(got, want))
				}
				return ""
			}
			dir := func(i int) string { return filepath.Join(scratch(), fmt.Sprintf("out28.%d", i)) }
			return []mc.Scope{
				{"sequences", "all sequences of one to three parses (thorough: four) over 11 documents with their passwords (four kinds of encryption, a wrong password, damaged ones), of which the last is viewed object by object, with reports, or through the top-level entry point", func(c *mc.C) *mc.Case {
					n := 1 + c.Choose(3)
					if th {
						n = 1 + c.Choose(4)
					}
					var seq []int
					lab := ""
					for i := 0; i < n; i++ {
						k := c.Choose(len(docs28))
						seq = append(seq, k)
						lab += docs28[k].name + ", "
					}
					mode := c.Choose(3)
					sum := 0
					for _, k := range seq {
						sum += k
					}
					if n == 3 && !th && sum%3 != mode || n == 4 && sum%5 != mode {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					return &mc.Case{Label: lab + fmt.Sprint("view ", mode), Doc: docs28[seq[n-1]].doc, Trivial: n == 1, Run: func() mc.Result {
						for i, k := range seq {
							m := mode
							if i < n-1 && m > 0 && n > 2 {
								m = 0
							}
							if m := check(k, m, one28(docs28[k], m, dir(i))); m != "" {
								return fail("parse %d of %s%s", i, lab, m)
							}
						}
						return mc.Result{Outcome: mc.Digest(lab)}
					}}
				}},
				{"orders", "three documents whose objects are read in every order of their first five objects (thorough: seven), the others before or after them", func(c *mc.C) *mc.Case {
					i := []int{0, 4, 8}[c.Choose(3)]
					n := 5
					if th {
						n = 7
					}
					var perm []int
					left := make([]int, n)
					for i := range left {
						left[i] = i
					}
					for len(left) > 0 {
						k := c.Choose(len(left))
						perm = append(perm, left[k])
						left = append(append([]int{}, left[:k]...), left[k+1:]...)
					}
					rest := c.Bool()
					if c.Skip {
						return mc.Stub
					}
					return &mc.Case{Label: label("%s in order %v, others first %v", docs28[i].name, perm, rest), Doc: docs28[i].doc, Run: func() mc.Result {
						got := view28(bytes.NewReader(docs28[i].doc), docs28[i].pw, dir(0), func(ns []int) []int {
							var a []int
							for _, k := range perm {
								if k < len(ns) {
									a = append(a, ns[k])
								}
							}
							if len(ns) < n {
								return a
							}
							if rest {
								return append(append([]int{}, ns[n:]...), a...)
							}
							return append(a, ns[n:]...)
						})
						return result27of(check(i, 1, got), fmt.Sprint(perm))
					}}
				}},
				{"calls", "every ordered pair of documents, every interleaving of the two parsers' first six calls each (load, four single objects, all remaining objects)", func(c *mc.C) *mc.Case {
					x, y := c.Choose(len(docs28)), c.Choose(len(docs28))
					n := 5
					if th {
						n = 6
					}
					var seq []int
					ca, cb := 0, 0
					for ca < n || cb < n {
						who := 0
						if ca == n {
							who = 1
						} else if cb < n {
							who = c.Choose(2)
						}
						seq = append(seq, who)
						if who == 0 {
							ca++
						} else {
							cb++
						}
					}
					if !th && (x+y)%2 != 0 && seq[0] == 1 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					return &mc.Case{Label: label("%s and %s, calls %v", docs28[x].name, docs28[y].name, seq), Run: func() mc.Result {
						docs := [2]int{x, y}
						var ps [2]*pdf.Parser
						var errs [2]error
						var todo [2][]int
						var shots [2]map[int]string
						var step [2]int
						for _, w := range seq {
							d := docs28[docs[w]]
							step[w]++
							if step[w] == 1 {
								ps[w] = pdf.NewParser(bytes.NewReader(d.doc), nil)
								errs[w] = ps[w].Load(d.pw)
								nums := map[int]bool{}
								for n := range ps[w].Xref {
									nums[n] = true
								}
								todo[w] = keys(nums)
								shots[w] = map[int]string{}
								continue
							}
							for len(todo[w]) > 0 {
								k := todo[w][0]
								todo[w] = todo[w][1:]
								shots[w][k] = shot(ps[w].GetObject(k))
								if step[w] < n {
									break
								}
							}
						}
						for w, i := range docs {
							s := fmt.Sprint(errs[w]) + "\n"
							for _, n := range keys(shots[w]) {
								s += shots[w][n] + "\n"
							}
							if m := check(i, 0, s); m != "" {
								return mc.Result{Fail: m}
							}
						}
						return mc.Result{Outcome: mc.Digest(fmt.Sprint(x, y))}
					}}
				}},
				{"reads", "pairs of five documents (thorough: of all), reads of at most 512 bytes; the first runs up to any of its reads, the second up to any of its reads, the first to its end, the second to its end; object views and reports", func(c *mc.C) *mc.Case {
					list := []int{0, 1, 2, 4, 6}
					if th {
						list = nil
						for i := range docs28 {
							list = append(list, i)
						}
					}
					x, y := mc.Pick(c, list), mc.Pick(c, list)
					i := c.Choose(readCount(x))
					j := c.Choose(readCount(y))
					reports := (i+j)%8 == 0
					if !th && (i*7+j+x)%4 != 0 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					return &mc.Case{Label: label("%s to read %d, %s to read %d, reports %v", docs28[x].name, i, docs28[y].name, j, reports), Run: func() mc.Result {
						got := [2]string{}
						interleave([2]int{x, y}, [2]int{i, j}, reports, &got)
						mode := 0
						if reports {
							mode = 1
						}
						for w, k := range []int{x, y} {
							if m := check(k, mode, got[w]); m != "" {
								return mc.Result{Fail: m}
							}
						}
						return mc.Result{Outcome: mc.Digest(fmt.Sprint(x, y, i, j))}
					}}
				}},
				{"twins", "two documents with long streams and strings (plain, encrypted), each followed by its twin that differs from it in one byte, for every second byte (thorough: every byte) that is a letter or digit, and by itself again", func(c *mc.C) *mc.Case {
					i := c.Choose(2)
					at := c.Choose(len(twins28()[i].doc))
					if b := twins28()[i].doc[at]; b != b&0x7f || bytes.IndexByte([]byte("0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"), b) < 0 || at%2 == 1 && !th {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					return &mc.Case{Label: label("document %d changed at %d", i, at), Doc: twin28(i, at).doc, Run: func() mc.Result {
						exe, _ := os.Executable()
						want, err := exec.Command(exe, "twin", strconv.Itoa(i), strconv.Itoa(at), scratch()).Output()
						if err != nil {
							return fail("fresh process: %v", err)
						}
						first := one28(twins28()[i], 1, dir(0))
						if got := one28(twin28(i, at), 1, dir(1)); got != string(want) {
							return fail("after its twin: %s", diffLine(got, string(want)))
						}
						if got := one28(twins28()[i], 1, dir(2)); got != first {
							return fail("the first document again: %s", diffLine(got, first))
						}
						return mc.Result{Outcome: mc.Digest(string(want))}
					}}
				}},
				{"independence", "every unordered pair of documents (also with itself) run concurrently, object by object, with reports and through the top-level entry point, under the race detector", func(c *mc.C) *mc.Case {
					x := c.Choose(len(docs28))
					y := x + c.Choose(len(docs28)-x)
					mode := c.Choose(3)
					if !th && mode > 0 && (x+y+mode)%2 != 0 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					return &mc.Case{Label: label("%s with %s, view %d", docs28[x].name, docs28[y].name, mode), Run: func() mc.Result {
						cmd := exec.Command(filepath.Join(os.Getenv("VERIF_BUILD"), "hrace"), "race", strconv.Itoa(mode), scratch(), strconv.Itoa(x), strconv.Itoa(y))
						cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
						out, err := cmd.CombinedOutput()
						if err != nil {
							return fail("concurrent run: %v\n%.2000s", err, out)
						}
						return mc.Result{Outcome: mc.Digest(fmt.Sprint(x, y, mode))}
					}}
				}},
			}
		},
	})
}

// one28 gives one view of a document.
func one28(d doc28, mode int, dir string) string {
	switch mode {
	case 1:
		return view28(bytes.NewReader(d.doc), d.pw, dir, nil)
	case 2:
		return parse28(d, dir)
	}
	return view28(bytes.NewReader(d.doc), d.pw, "", nil)
}

const chunk28 = 512

var readCounts = map[int]int{}

func readCount(i int) int {
	if readCounts[i] == 0 {
		s := &source{doc: docs28[i].doc, limit: func(int, int64, int) int { return chunk28 }}
		view28(s, docs28[i].pw, "", nil)
		readCounts[i] = s.reads
	}
	return readCounts[i]
}

// interleave runs two documents in goroutines of which one at a time runs; each is stopped at one of its reads.
func interleave(docs, stop [2]int, reports bool, got *[2]string) {
	var run [2]chan bool
	yield := make(chan int) // the goroutine stopped or ended
	for w := range docs {
		run[w] = make(chan bool)
		go func(w int) {
			<-run[w]
			d := docs28[docs[w]]
			s := &source{doc: d.doc, limit: func(read int, _ int64, _ int) int {
				if read == stop[w] {
					yield <- w
					<-run[w]
				}
				return chunk28
			}}
			dir := ""
			if reports {
				dir = filepath.Join(scratch(), fmt.Sprintf("il%d", w))
			}
			defer func() {
				if r := recover(); r != nil {
					got[w] = fmt.Sprintf("panic: %v", r)
				}
				stop[w] = -1
				yield <- w
			}()
			got[w] = view28(s, d.pw, dir, nil)
		}(w)
	}
	step := func(w int) {
		if stop[w] != -1 || got[w] == "" {
			run[w] <- true
			<-yield
		}
	}
	ended := func(w int) bool { return stop[w] == -1 }
	step(0)
	step(1)
	for w := range docs {
		for !ended(w) {
			step(w)
		}
	}
}

var twinList []doc28

// twins28 are documents of long parts.
func twins28() []doc28 {
	if twinList != nil {
		return twinList
	}
	long := func(s string) string { return s + " " + string(bytes.Repeat([]byte("lorem ipsum "), 6)) + s }
	b := ref.NewBuilder()
	b.Obj(1, 0, "<</Type /Catalog /Pages 2 0 R /Names <</EmbeddedFiles <</Names [(a) 6 0 R]>>>> /OpenAction 7 0 R /AcroForm <</XFA [(x) 9 0 R (y) 8 0 R]>>>>")
	b.Obj(2, 0, "<</Type /Pages /Kids [3 0 R] /Count 1>>")
	b.Obj(3, 0, "<</Type /Page /Parent 2 0 R /Contents [20 0 R] /Resources <</Font <</F1 11 0 R /F2 12 0 R>>>>>>")
	b.Obj(6, 0, "<</Type /Filespec /F (file) /EF <</F 10 0 R>>>>")
	b.Obj(7, 0, "<</S /JavaScript /JS (script()"+long("a")+") /Next [<</S /URI /URI (http://"+long("b")+")>> <</S /Launch /F (run)>>]>>")
	b.Stream(8, 0, "", []byte("<form>"+long("c")+"</form>"))
	b.Stream(9, 0, "", []byte("<form>"+long("d")+"</form>"))
	b.Stream(10, 0, "/Filter /ASCIIHexDecode", ref.HexEncode([]byte(long("e")), false))
	b.Obj(11, 0, "<</Type /Font /ToUnicode 22 0 R>>")
	b.Obj(12, 0, "<</Type /Font /ToUnicode 23 0 R>>")
	b.Stream(20, 0, "", []byte("BT /F1 12 Tf (abcd"+long("f")+") Tj /F2 1 Tf (abcd) Tj ET"))
	for i := 0; i < 2; i++ {
		b.Stream(22+i, 0, "", []byte(fmt.Sprintf("/CIDInit /ProcSet findresource begin begincmap 1 begincodespacerange <00> <ff> endcodespacerange 3 beginbfchar <61> <0041> <62> <00%d1> <63> <63> endbfchar 1 beginbfrange <64> <66> <0067> endbfrange endcmap CMapName currentdict /CMap defineresource pop end end", 4+i)))
	}
	e := econfsFew[1]
	crypted := b.Encrypted(e.crypt("user", "owner"), e.method(), e.cf(), 900)
	b.Table("/Root 1 0 R")
	twinList = []doc28{{"long", "", b.Bytes()}, {"long encrypted", "user", crypted}}
	return twinList
}

// twin28 is a copy of a document with another letter or digit at one place.
func twin28(i, at int) doc28 {
	d := twins28()[i]
	doc := append([]byte{}, d.doc...)
	switch b := doc[at]; {
	case b == '9' || b == 'z' || b == 'Z':
		doc[at] = b - 1
	default:
		doc[at] = b + 1
	}
	return doc28{d.name, d.pw, doc}
}
