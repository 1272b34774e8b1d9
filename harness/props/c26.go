package props

import (
	"crypto/md5"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/KarmaPenny/pdfparser/pdf"

	"verif/mc"
	"verif/ref"
)

// box is a scratch directory in which a run's input, output directory and surroundings lie.
//
//	in.pdf  outside/{keep.txt,sub/deep.txt,empty/}  parent/{sibling.txt,work/}  link -> parent  tmp/
//
// The output directory is parent/out unless a case says otherwise; the working directory is parent/work.
type box struct{ dir string }

func newBox() *box {
	b := &box{filepath.Join(scratch(), "box")}
	filepath.Walk(b.dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.IsDir() {
			os.Chmod(p, 0755)
		}
		return nil
	})
	must(os.RemoveAll(b.dir))
	for _, d := range []string{"outside/sub", "outside/empty", "parent/work", "tmp"} {
		must(os.MkdirAll(b.p(d), 0755))
	}
	b.put("outside/keep.txt", "kept outside")
	b.put("outside/sub/deep.txt", "kept deep")
	b.put("parent/sibling.txt", "kept beside")
	must(os.Symlink("parent", b.p("link")))
	must(os.Chdir(b.p("parent/work")))
	os.Setenv("TMPDIR", b.p("tmp"))
	return b
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func (b *box) p(rel string) string { return b.dir + "/" + rel }

func (b *box) put(rel, content string) {
	must(os.MkdirAll(filepath.Dir(b.p(rel)), 0755))
	must(os.WriteFile(b.p(rel), []byte(content), 0644))
}

// snapshot describes everything in the box; skip is a subtree left out ("" for none).
func (b *box) snapshot(skip string) map[string]string {
	m := map[string]string{}
	filepath.Walk(b.dir, func(p string, i os.FileInfo, err error) error {
		rel := strings.TrimPrefix(strings.TrimPrefix(p, b.dir), "/")
		if rel == skip && skip != "" {
			if err == nil && i.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		if err != nil {
			m[rel] = err.Error()
			return nil
		}
		s := i.Mode().String()
		switch {
		case i.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			s += " -> " + t
		case i.Mode().IsRegular():
			c, _ := os.ReadFile(p)
			s += fmt.Sprintf(" %q %d", c, i.ModTime().UnixNano())
		}
		m[rel] = s
		return nil
	})
	return m
}

// shape is a snapshot without times in which reports are sets of lines and raw.pdf is a multiset of bytes.
func (b *box) shape() map[string]string {
	m := b.snapshot("")
	for p, s := range m {
		if strings.HasPrefix(s, "-") {
			c, _ := os.ReadFile(b.p(p))
			if filepath.Base(p) == "raw.pdf" {
				sort.Slice(c, func(i, j int) bool { return c[i] < c[j] })
				s = s[:10] + fmt.Sprintf(" %d bytes, %x", len(c), mc.Digest(string(c)))
			} else {
				s = s[:10] + fmt.Sprintf(" %q", set(lines(string(c))))
			}
			m[p] = s
		}
	}
	return m
}

// diffTree names one difference between two snapshots.
func diffTree(before, after map[string]string) string {
	var ks []string
	for k := range before {
		ks = append(ks, k)
	}
	for k := range after {
		if _, ok := before[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		a, ok := before[k]
		b, ok2 := after[k]
		switch {
		case !ok:
			return fmt.Sprintf("%s was created: %.200s", k, b)
		case !ok2:
			return fmt.Sprintf("%s was removed: %.200s", k, a)
		case a != b:
			return fmt.Sprintf("%s was changed from %.200s to %.200s", k, a, b)
		}
	}
	return ""
}

// doc26 is a document with the contents that its extraction must leave.
type doc26 struct {
	name, pw string
	doc      []byte
	contents []string
}

func (d *doc26) hashes() map[string]string {
	m := map[string]string{}
	for _, c := range d.contents {
		m[fmt.Sprintf("%x", md5.Sum([]byte(c)))] = c
	}
	return m
}

// complete checks that a directory holds exactly what a successful run leaves.
func (d *doc26) complete(dir string) string {
	i, err := os.Lstat(dir)
	if err != nil || !i.IsDir() {
		return fmt.Sprintf("the output path is no directory after a successful run (%v)", err)
	}
	want := d.hashes()
	es, err := os.ReadDir(dir)
	must(err)
	n := 0
	for _, e := range es {
		if !e.Type().IsRegular() {
			return fmt.Sprintf("%s in the output directory is no regular file", e.Name())
		}
		if isReport(e.Name()) {
			n++
			continue
		}
		c, ok := want[e.Name()]
		if !ok {
			return fmt.Sprintf("unexpected %s in the output directory", e.Name())
		}
		if got, _ := os.ReadFile(filepath.Join(dir, e.Name())); string(got) != c {
			return fmt.Sprintf("%s holds %s, expected %s", e.Name(), q(got), q([]byte(c)))
		}
		delete(want, e.Name())
	}
	if n != len(reportNames) {
		return fmt.Sprintf("only %d of the reports were written", n)
	}
	for h := range want {
		return fmt.Sprintf("content %s is missing", h)
	}
	return ""
}

// rich26 has findings of every kind and files with the given names and contents.
func rich26(names, contents []string) *doc26 {
	d := newActDoc()
	w := &doc26{name: "rich"}
	t := ""
	for i, n := range names {
		c := contents[i]
		w.contents = append(w.contents, c)
		t += fmt.Sprintf("(k%d) <</F %s /EF <</F %s>>>> ", i, ref.Lit(n), d.stream("", []byte(c)))
	}
	w.contents = append(w.contents, "<xfa/>")
	x := d.stream("", []byte("<xfa/>"))
	page := d.obj("<</Type /Page /Contents " + d.stream("", []byte("BT (text) Tj ET")) + " /AA <</O <</S /URI /URI (http://u)>>>>>>")
	d.b.Obj(1, 0, "<</Type /Catalog /Names <</EmbeddedFiles <</Names ["+t+"]>>>> /AcroForm <</XFA "+x+">> /Pages "+
		d.obj("<</Type /Pages /Count 1 /Kids ["+page+"]>>")+
		" /OpenAction [<</S /Launch /F (run.exe)>> <</S /JavaScript /JS (alert)>>]>>")
	d.b.Table("/Root 1 0 R")
	w.doc = d.b.Bytes()
	return w
}

var docs26 = func() []*doc26 {
	empty := &doc26{name: "empty", doc: ref.Simple("<</Type /Catalog>>")}
	rich := rich26([]string{"plain.txt", "sub/dir/f", "contents.txt"}, []string{"content one", "", "content one"})
	d := newActDoc()
	d.b.Obj(1, 0, "<</Type /Catalog /Names <</EmbeddedFiles <</Names [(k) <</F (e) /EF <</F "+d.stream("", []byte("encrypted content"))+">>>>]>>>>>>")
	e := econfsFew[3]
	enc := &doc26{name: "encrypted", pw: "user", doc: d.b.Encrypted(e.crypt("user", "owner"), e.method(), e.cf(), 900), contents: []string{"encrypted content"}}
	return []*doc26{rich, empty, enc}
}()

// prior puts an entry of some kind at a path.
var prior = []struct {
	name string
	put  func(b *box, p string)
}{
	{"file", func(b *box, p string) { must(os.WriteFile(p, []byte("old content"), 0644)) }},
	{"read-only file", func(b *box, p string) { must(os.WriteFile(p, []byte("old content"), 0400)) }},
	{"link to file", func(b *box, p string) { must(os.Symlink(b.p("outside/keep.txt"), p)) }},
	{"link to directory", func(b *box, p string) { must(os.Symlink(b.p("outside"), p)) }},
	{"link to nothing", func(b *box, p string) { must(os.Symlink(b.p("outside/new"), p)) }},
	{"link to empty directory", func(b *box, p string) { must(os.Symlink(b.p("outside/empty"), p)) }},
	{"link to itself", func(b *box, p string) { must(os.Symlink(filepath.Base(p), p)) }},
	{"relative link to input", func(b *box, p string) {
		r, err := filepath.Rel(filepath.Dir(p), b.p("in.pdf"))
		must(err)
		must(os.Symlink(r, p))
	}},
	{"hard link to file", func(b *box, p string) { must(os.Link(b.p("outside/keep.txt"), p)) }},
	{"hard link to input", func(b *box, p string) { must(os.Link(b.p("in.pdf"), p)) }},
	{"empty directory", func(b *box, p string) { must(os.Mkdir(p, 0755)) }},
	{"directory", func(b *box, p string) {
		must(os.MkdirAll(p+"/in/side", 0755))
		must(os.WriteFile(p+"/contents.txt", []byte("old"), 0644))
		must(os.WriteFile(p+"/in/side/f", []byte("old"), 0644))
		must(os.Symlink(b.p("outside"), p+"/in/link"))
		must(os.Symlink(b.p("outside/keep.txt"), p+"/commands.txt"))
	}},
	{"pipe", func(b *box, p string) { must(syscall.Mkfifo(p, 0644)) }},
}

func init() {
	type path struct{ name, form, at string }
	// paths are ways to name the output directory; at is where it really lies, "" if the path may be refused.
	paths := []path{
		{"plain", "$/parent/out", "parent/out"},
		{"trailing slash", "$/parent/out/", "parent/out"},
		{"slashes", "$//parent///out//", "parent/out"},
		{"relative", "../out", "parent/out"},
		{"relative slash", "../out/", "parent/out"},
		{"relative name", "out", "parent/work/out"},
		{"dot name", "./out", "parent/work/out"},
		{"up and down", "$/parent/work/../out", "parent/out"},
		{"through a link", "$/link/out", "parent/out"},
		{"through a link, slash", "$/link/out/", "parent/out"},
		{"deep", "$/parent/out/a/b", "parent/out/a/b"},
		{"hash name", "$/parent/d41d8cd98f00b204e9800998ecf8427e", "parent/d41d8cd98f00b204e9800998ecf8427e"},
		{"odd name", "$/parent/o u%s\nt", "parent/o u%s\nt"},
		{"end dot", "$/parent/out/.", ""},
		{"end dots", "$/parent/out/x/..", ""},
		{"current", ".", ""},
		{"current slash", "./", ""},
		{"empty", "", ""},
		{"parent", "..", "parent"},
		{"below input", "$/in.pdf/out", ""},
		{"below sibling", "$/parent/sibling.txt", "parent/sibling.txt"},
	}
	// run extracts into the path and checks the box; mayFail allows an error.
	run := func(b *box, d *doc26, out, at string, mayFail bool) string {
		before := b.snapshot(at)
		err := pdf.Parse(b.p("in.pdf"), d.pw, out)
		if err != nil {
			if !mayFail {
				return fmt.Sprintf("Parse: %v", err)
			}
			if at == "" {
				at = "nowhere"
			}
		} else if at == "" {
			// it says it has worked: then the directory that the path leads to must be complete
			dir, e := filepath.EvalSymlinks(out)
			if out == "" {
				return "a run without an output directory succeeded"
			}
			if e != nil {
				return fmt.Sprintf("success, but the output path does not exist: %v", e)
			}
			if dir, e = filepath.Abs(dir); e != nil {
				return e.Error()
			}
			at = strings.TrimPrefix(dir, b.dir+"/")
			for k := range before {
				if k == at || strings.HasPrefix(k, at+"/") {
					delete(before, k)
				}
			}
		}
		if err == nil {
			if m := d.complete(b.p(at)); m != "" {
				return m
			}
		}
		after := b.snapshot(at)
		// directories on the way to the output directory may have been created
		for k := range after {
			_, ok := before[k]
			if !ok && (strings.HasPrefix(at, k+"/") || strings.HasSuffix(out, "/x/..") && (k == "parent/out" || strings.HasSuffix(k, "/x"))) {
				delete(after, k)
			}
		}
		if m := diffTree(before, after); m != "" {
			return "outside the output directory (Parse: " + fmt.Sprint(err) + "): " + m
		}
		return ""
	}
	result := func(m string, outcome ...string) mc.Result {
		if m != "" {
			return mc.Result{Fail: m}
		}
		return mc.Result{Outcome: mc.Digest(outcome...)}
	}
	mc.Register(&mc.Prop{
		ID:        "C26",
		Technique: "exhaustive enumeration of prior states of the output path and its content, of forms of the path, of document names and contents and of sequences of runs; the real code run on each, everything around the output directory compared before and after",
		Note:      "Runs as an unprivileged user inside a scratch directory. Paths for which the code refuses (ending in a dot component, empty) must be refused without a change.",
		Scopes: func(th bool) []mc.Scope {
			names := []string{"contents.txt", "raw.pdf", fmt.Sprintf("%x", md5.Sum([]byte("content one"))), fmt.Sprintf("%x", md5.Sum(nil)), ".hidden", "sub"}
			return []mc.Scope{
				{"prior content", "output directories that hold up to two entries (thorough: three): six names (reports, hashes of extracted contents, others) x 13 kinds of entry (files, links in and out, hard links, directories, pipes) x three documents", func(c *mc.C) *mc.Case {
					n := 2
					if th {
						n = 3
					}
					var at, kinds []int
					from := 0
					for len(at) < n && from < len(names) {
						k := c.Choose(len(names) - from + 1)
						if k == 0 {
							break
						}
						from += k
						at = append(at, from-1)
						kinds = append(kinds, c.Choose(len(prior)))
					}
					d := mc.Pick(c, docs26)
					if len(at) == 3 && d != docs26[0] {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					lab := d.name + ":"
					for i := range at {
						lab += " " + names[at[i]] + " is a " + prior[kinds[i]].name + ","
					}
					return &mc.Case{Label: lab, Doc: d.doc, Trivial: len(at) == 0, Run: func() mc.Result {
						b := newBox()
						b.put("in.pdf", string(d.doc))
						must(os.Mkdir(b.p("parent/out"), 0755))
						for i := range at {
							prior[kinds[i]].put(b, b.p("parent/out/"+names[at[i]]))
						}
						return result(run(b, d, b.p("parent/out"), "parent/out", false), lab)
					}}
				}},
				{"output path", "21 forms of the output path x 14 things that are there (nothing, files, links, directories, pipes) x three documents x input path plain, relative or a link", func(c *mc.C) *mc.Case {
					p := mc.Pick(c, paths)
					k := c.Choose(len(prior) + 1)
					d := mc.Pick(c, docs26)
					in := c.Choose(3)
					if c.Skip {
						return mc.Stub
					}
					lab := "nothing"
					if k > 0 {
						lab = prior[k-1].name
					}
					return &mc.Case{Label: label("%s path, %s is there, %s, input %d", p.name, lab, d.name, in), Doc: d.doc, Run: func() mc.Result {
						b := newBox()
						b.put("in.pdf", string(d.doc))
						if in == 2 {
							b.put("outside/real.pdf", string(d.doc))
							must(os.Remove(b.p("in.pdf")))
							must(os.Symlink("outside/real.pdf", b.p("in.pdf")))
						}
						mayFail := p.at == ""
						at := p.at
						if k > 0 {
							// the thing is put where the path leads to
							w := at
							switch {
							case p.name == "deep":
								w = "parent/out"
								mayFail = !strings.HasPrefix(prior[k-1].name, "directory") && !strings.HasPrefix(prior[k-1].name, "empty")
								if mayFail && strings.Contains(prior[k-1].name, "directory") {
									// a link: the output lies in the other directory
									at = "outside/a/b"
									if strings.Contains(prior[k-1].name, "empty") {
										at = "outside/empty/a/b"
									}
									mayFail = false
								}
							case at == "" && strings.Contains(p.form, "out"):
								w = "parent/out"
							case at == "":
								w = "parent/work/contents.txt"
							case p.name == "parent":
								w = "parent/out"
							case p.name == "below sibling":
								must(os.Remove(b.p(w)))
							}
							if strings.HasPrefix(p.form, "$/in.pdf") {
								w = "parent/out"
							}
							prior[k-1].put(b, b.p(w))
						}
						m := run(b, d, strings.ReplaceAll(p.form, "$", b.dir), at, mayFail)
						return result(m, fmt.Sprint(p.name, k))
					}}
				}},
				{"names", "documents whose files are named by words of up to three path parts over six (.., ., names of reports, hashes, existing surroundings), absolute or not, as embedded files, external files or both", func(c *mc.C) *mc.Case {
					w := word(c, []string{"..", ".", "outside", "keep.txt", "contents.txt", "b10a8db164e0754105b7a99be72e3fe5"}, 3)
					abs := c.Choose(3)
					kind := c.Choose(3)
					prev := c.Bool()
					if c.Skip {
						return mc.Stub
					}
					return &mc.Case{Label: label("name %q absolute %d kind %d again %v", w, abs, kind, prev), Run: func() mc.Result {
						b := newBox()
						name := strings.Join(w, "/")
						if abs == 1 {
							name = b.dir + "/" + name
						} else if abs == 2 {
							name = "file://" + b.dir + "/" + name
						}
						d := rich26([]string{name, name + ".x"}, []string{"one " + name, "other"})
						if kind > 0 {
							a := newActDoc()
							e := "<</F " + ref.Lit(name) + ">>"
							if kind == 2 {
								e = "<</F " + ref.Lit(name) + " /P " + ref.Lit(name) + ">>"
							}
							a.b.Obj(1, 0, "<</Type /Catalog /Names <</EmbeddedFiles <</Names [(k) "+e+"]>>>> /OpenAction <</S /Launch /Win "+e+">>>>")
							a.b.Table("/Root 1 0 R")
							d = &doc26{doc: a.b.Bytes()}
						}
						b.put("in.pdf", string(d.doc))
						if prev {
							if m := run(b, d, b.p("parent/out"), "parent/out", false); m != "" {
								return mc.Result{Fail: "first run: " + m}
							}
						}
						return result(run(b, d, b.p("parent/out"), "parent/out", false), name)
					}}
				}},
				{"contents", "documents with up to four embedded files (thorough: five), each with one of six contents (empty, alike, prefixes of each other, large)", func(c *mc.C) *mc.Case {
					n := 4
					if th {
						n = 5
					}
					alphabet := []string{"", "a", "ab", "ab\n", strings.Repeat("large ", 20000), "\x00"}
					w := word(c, alphabet, n)
					if c.Skip {
						return mc.Stub
					}
					lab := ""
					for _, x := range w {
						lab += fmt.Sprintf(" %d", len(x))
					}
					names := []string{"n", "n", "m", "o", "contents.txt"}
					d := rich26(names[:len(w)], w)
					return &mc.Case{Label: "contents" + lab, Doc: d.doc, Trivial: len(w) == 0, Run: func() mc.Result {
						b := newBox()
						b.put("in.pdf", string(d.doc))
						return result(run(b, d, b.p("parent/out"), "parent/out", false), lab)
					}}
				}},
				{"alike", "documents with two to four embedded files of one size from 16 to 8388609 that differ in one byte only: the first, the last, or one in between", func(c *mc.C) *mc.Case {
					n := mc.Pick(c, []int{16, 64, 100, 255, 256, 257, 512, 1000, 1024, 1025, 4096, 4097, 8193, 10000, 32769, 65536, 65537, 100001, 131073, 262145, 524289, 1000001, 1048576, 1048577, 2097153, 4194305, 8388609})
					at := mc.Pick(c, []int{0, 1, n / 2, n - 2, n - 1})
					k := 2 + c.Choose(3)
					if n > 70000 && k > 2 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					var names, w []string
					for i := 0; i < k; i++ {
						x := []byte(strings.Repeat("0123456789abcdef", n/16+1)[:n])
						x[at] = byte('A' + i)
						names, w = append(names, fmt.Sprint("f", i)), append(w, string(x))
					}
					d := rich26(names, w)
					lab := fmt.Sprintf(" %d files of %d bytes, different at %d", k, n, at)
					return &mc.Case{Label: "alike" + lab, Doc: d.doc, Run: func() mc.Result {
						b := newBox()
						b.put("in.pdf", string(d.doc))
						return result(run(b, d, b.p("parent/out"), "parent/out", false), lab)
					}}
				}},
				{"histories", "all sequences of up to three runs (thorough: four) into the same directory over four documents (one needing a password, one that does not load) and two passwords, after each successful run the directory is complete", func(c *mc.C) *mc.Case {
					n := 3
					if th {
						n = 4
					}
					bad := &doc26{name: "bad", doc: []byte("%PDF-1.4\nnothing"), pw: ""}
					wrong := *docs26[2]
					wrong.name, wrong.pw = "wrong password", "x"
					all := append(append([]*doc26{}, docs26...), bad, &wrong, rich26([]string{"q"}, []string{"third content"}))
					var seq []*doc26
					lab := ""
					for len(seq) < n {
						k := c.Choose(len(all) + 1)
						if k == 0 {
							break
						}
						seq = append(seq, all[k-1])
						lab += " " + all[k-1].name
					}
					if c.Skip {
						return mc.Stub
					}
					return &mc.Case{Label: "runs:" + lab, Trivial: len(seq) == 0, Run: func() mc.Result {
						b := newBox()
						for i, d := range seq {
							b.put("in.pdf", string(d.doc))
							fails := d.name == "bad" || d.name == "wrong password"
							if m := run(b, d, b.p("parent/out"), "parent/out", fails); m != "" {
								return fail("run %d (%s): %s", i, d.name, m)
							}
						}
						return mc.Result{Outcome: mc.Digest(lab)}
					}}
				}},
			}
		},
	})
}
