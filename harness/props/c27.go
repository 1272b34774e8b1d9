package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"syscall"

	"github.com/KarmaPenny/pdfparser/pdf"

	"verif/mc"
)

func init() {
	// starts are the states of the box before the run.
	starts := []struct {
		name string
		put  func(b *box)
	}{
		{"nothing", func(b *box) {}},
		{"directory", func(b *box) { prior[11].put(b, b.p("parent/out")) }},
		{"file", func(b *box) { prior[0].put(b, b.p("parent/out")) }},
		{"link", func(b *box) { prior[3].put(b, b.p("parent/out")) }},
		{"deep", func(b *box) { must(os.RemoveAll(b.p("parent"))) }},
	}
	bad := &doc26{name: "bad", doc: []byte("%PDF-1.4\nnothing")}
	wrong := *docs26[2]
	wrong.name, wrong.pw = "wrong password", "x"
	docs := append(append([]*doc26{}, docs26...), bad, &wrong)

	setup := func(start int, d *doc26) *box {
		b := newBox()
		b.put("in.pdf", string(d.doc))
		if starts[start].name == "deep" {
			must(os.Chdir(b.dir))
		}
		starts[start].put(b)
		return b
	}
	// judge looks at a finished run: err is what it returned, faults what was made to fail.
	judge := func(b *box, d *doc26, before map[string]string, failed bool, errText string, open []string, faults []fileOp) string {
		if len(open) > 0 {
			return fmt.Sprintf("open after the run (error %q): %q", errText, open)
		}
		misread := false // what was read may be wrong, so may the extracted contents
		lossy := false   // a failure that may cost parts of the output without being an error
		for _, f := range faults {
			switch {
			case f.call == "open" && f.path == b.p("in.pdf"):
				if !failed {
					return "the input could not be opened, no error was returned"
				}
			case f.call == "open" && f.make && isReport(filepath.Base(f.path)) && !failed:
				return fmt.Sprintf("%s could not be created, no error was returned", filepath.Base(f.path))
			case f.call == "write" || f.call == "read" || f.call == "seek" || f.call == "close" || f.call == "open" && f.make:
				lossy = true
				misread = misread || f.call == "read" || f.call == "seek"
			}
		}
		for _, f := range faults {
			if f.call == "open" && f.path == b.p("in.pdf") {
				if m := diffTree(before, b.snapshot("")); m != "" {
					return "the input could not be opened, still " + m
				}
			}
		}
		outside := map[string]string{}
		for k, v := range before {
			if k != "parent/out" && !strings.HasPrefix(k, "parent/out/") {
				outside[k] = v
			}
		}
		after := b.snapshot("parent/out")
		if _, ok := outside["parent"]; !ok {
			delete(after, "parent")
		}
		if m := diffTree(outside, after); m != "" {
			return "outside the output directory: " + m
		}
		if failed {
			return ""
		}
		if !lossy {
			return d.complete(b.p("parent/out"))
		}
		// whatever could not be written is missing, but nothing else is there
		es, err := os.ReadDir(b.p("parent/out"))
		if err != nil {
			return fmt.Sprintf("no error was returned, but %v", err)
		}
		want := d.hashes()
		n := 0
		for _, e := range es {
			if _, ok := want[e.Name()]; isReport(e.Name()) && e.Type().IsRegular() {
				n++
			} else if !ok && !(misread && len(e.Name()) == 32) {
				return fmt.Sprintf("no error was returned, but %s is in the output directory", e.Name())
			}
		}
		if n != len(reportNames) {
			return fmt.Sprintf("no error was returned, but only %d reports are there", n)
		}
		return ""
	}
	// local runs Parse in this process and lists what it left open.
	local := func(b *box, in, pw, out string) (failed bool, text string, open []string) {
		defer debug.SetGCPercent(debug.SetGCPercent(-1))
		err := pdf.Parse(in, pw, out)
		if err != nil {
			text = err.Error()
		}
		return err != nil, text, openIn(b.dir)
	}
	noTrace := false
	// reads and seeks are counted separately from the other operations
	isData := func(op fileOp) bool { return op.call == "read" || op.call == "seek" }
	counts := map[string][2]int{}
	count := func(start int, d *doc26) [2]int {
		k := fmt.Sprint(start, d.name)
		if _, ok := counts[k]; !ok && !noTrace {
			b := setup(start, d)
			ops, _, ended, err := traced([]string{"faulty", b.p("in.pdf"), d.pw, b.p("parent/out"), b.dir}, b.dir, nil)
			if err == errNoTrace {
				noTrace = true
			} else if err != nil {
				panic(err)
			}
			var n [2]int
			for _, o := range ops {
				if isData(o) {
					n[1]++
				} else {
					n[0]++
				}
			}
			if err == nil && ended != "exit status 0" { // one more, at which nothing fails, shows the failure
				n[0]++
				n[1]++
			}
			counts[k] = n
		}
		return counts[k]
	}
	// injected runs with failures; fault is given how many operations of the same class came before.
	injected := func(lab string, start int, d *doc26, fault func(i int, data bool, op fileOp) syscall.Errno) *mc.Case {
		return &mc.Case{Label: lab, Doc: d.doc, Run: func() mc.Result {
			b := setup(start, d)
			before := b.snapshot("")
			var faults []fileOp
			var n [2]int
			ops, out, ended, err := traced([]string{"faulty", b.p("in.pdf"), d.pw, b.p("parent/out"), b.dir}, b.dir, func(_ int, op fileOp) syscall.Errno {
				k := 0
				if isData(op) {
					k = 1
				}
				n[k]++
				e := fault(n[k]-1, k == 1, op)
				if e != 0 && e != syscall.EINTR { // an interrupted call is repeated
					faults = append(faults, op)
				}
				return e
			})
			if err != nil {
				panic(err)
			}
			var r result27
			if json.Unmarshal([]byte(out), &r) != nil || ended != "exit status 0" {
				return fail("with %v failing the run ended with %s: %.600s", faults, ended, out)
			}
			if m := judge(b, d, before, r.Failed, r.Err, r.Open, faults); m != "" {
				return fail("%s (failing: %v of %d operations, error %q)", m, faults, len(ops), r.Err)
			}
			return mc.Result{Outcome: mc.Digest(r.Err, fmt.Sprint(faults))}
		}}
	}
	errnos := []syscall.Errno{syscall.EIO, syscall.EACCES, syscall.EMFILE, syscall.ENOSPC, syscall.ENOENT, syscall.EINTR, syscall.EPERM, syscall.ENOTDIR}

	mc.Register(&mc.Prop{
		ID:        "C27",
		Technique: "exhaustive enumeration of failing file operations: every system call of a run on the real code (in a process of its own, under ptrace) made to fail in turn, alone, in pairs and from some point on, with eight error codes; every limit of open files and path length; every kind of unusable input and output; open descriptors and the file system compared before and after",
		Note:      "The garbage collector is off during a run so that finalizers close nothing. What a failing read or write of data costs is not claimed. Where processes cannot be traced the first four scopes are empty.",
		Scopes: func(th bool) []mc.Scope {
			return []mc.Scope{
				{"one failure", "five documents (one damaged, one with a wrong password) x five states of the output path x each open, create, list, stat, write, remove and close of the run failing x eight error codes (quick: all eight for one document, two of them for the others)", func(c *mc.C) *mc.Case {
					start := c.Choose(len(starts))
					d := mc.Pick(c, docs)
					n := count(start, d)[0]
					if n == 0 {
						return nil
					}
					at := c.Choose(n)
					k := c.Choose(len(errnos))
					if !th && d != docs[0] && (k+at)%4 != 0 {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					return injected(label("%s, %s, operation %d fails: %v", starts[start].name, d.name, at, errnos[k]), start, d, func(i int, data bool, _ fileOp) syscall.Errno {
						if i == at && !data {
							return errnos[k]
						}
						return 0
					})
				}},
				{"one read fails", "five documents x each read and seek of the run failing with EIO (thorough: and five states of the output path)", func(c *mc.C) *mc.Case {
					start := c.Choose(len(starts))
					if !th && start > 0 {
						return nil
					}
					d := mc.Pick(c, docs)
					n := count(start, d)[1]
					if n == 0 {
						return nil
					}
					at := c.Choose(n)
					all := c.Bool()
					if c.Skip {
						return mc.Stub
					}
					return injected(label("%s, %s, read %d fails, all later %v", starts[start].name, d.name, at, all), start, d, func(i int, data bool, _ fileOp) syscall.Errno {
						if data && (i == at || all && i > at) {
							return syscall.EIO
						}
						return 0
					})
				}},
				{"failing from then on", "five documents x five states x all operations, all that open or create, all that remove, all that write, or all on the output directory fail from one operation on x five error codes", func(c *mc.C) *mc.Case {
					start := c.Choose(len(starts))
					d := mc.Pick(c, docs)
					n := count(start, d)[0]
					if n == 0 {
						return nil
					}
					at := c.Choose(n)
					what := c.Choose(5)
					k := c.Choose(5)
					if !th && (k != (at+what)%5 || d != docs[0] && at%3 != 0) {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					return injected(label("%s, %s, operations of kind %d fail from %d: %v", starts[start].name, d.name, what, at, errnos[k]), start, d, func(i int, data bool, op fileOp) syscall.Errno {
						hit := false
						switch what {
						case 0:
							hit = true
						case 1:
							hit = op.call == "open" || op.call == "mkdir"
						case 2:
							hit = op.call == "unlink"
						case 3:
							hit = op.call == "write" || op.call == "open" && op.make
						case 4:
							hit = strings.Contains(op.path, "/parent/out")
						}
						if i >= at && hit && !data {
							return errnos[k]
						}
						return 0
					})
				}},
				{"two failures", "the document with findings of every kind, five states of the output path, every pair of operations other than reads failing with EIO (thorough: and with ENOENT)", func(c *mc.C) *mc.Case {
					start := c.Choose(len(starts))
					n := count(start, docs[0])[0]
					if n == 0 {
						return nil
					}
					a := c.Choose(n)
					b := a + 1 + c.Choose(n-a)
					k := c.Choose(2)
					if !th && ((a+b+start)%5 != 0 || k > 0) {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					e := []syscall.Errno{syscall.EIO, syscall.ENOENT}[k]
					return injected(label("%s, operations %d and %d fail: %v", starts[start].name, a, b, e), start, docs[0], func(i int, data bool, _ fileOp) syscall.Errno {
						if (i == a || i == b) && !data {
							return e
						}
						return 0
					})
				}},
				{"open files", "five documents x five states of the output path x every limit of open files from none left to 20 left", func(c *mc.C) *mc.Case {
					start := c.Choose(len(starts))
					d := mc.Pick(c, docs)
					left := c.Choose(21)
					if c.Skip {
						return mc.Stub
					}
					return &mc.Case{Label: label("%s, %s, %d open files left", starts[start].name, d.name, left), Doc: d.doc, Run: func() mc.Result {
						b := setup(start, d)
						before := b.snapshot("")
						var old syscall.Rlimit
						must(syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old))
						f, err := os.Open("/dev/null")
						must(err)
						next := int(f.Fd())
						f.Close()
						// descriptors below the limit may be in use, others free: fill the gaps
						must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: uint64(next + left), Max: old.Max}))
						defer debug.SetGCPercent(debug.SetGCPercent(-1))
						perr := pdf.Parse(b.p("in.pdf"), d.pw, b.p("parent/out"))
						must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old))
						text := fmt.Sprint(perr)
						open := openIn(b.dir)
						var faults []fileOp
						if left == 0 {
							faults = append(faults, fileOp{"open", b.p("in.pdf"), false})
						} else if left < 9 && perr == nil {
							// the input and seven reports cannot all be open, unless the code does not keep them open
							faults = append(faults, fileOp{"open", b.p("parent/out/x"), true})
						} else if left < 12 {
							faults = append(faults, fileOp{"open", b.p("parent/out/x"), true})
						}
						return result27of(judge(b, d, before, perr != nil, text, open, faults), text)
					}}
				}},
				{"path length", "output directories whose paths are 4040 to 4110 bytes long, so that each set of report names in turn is too long, x five documents x what was there", func(c *mc.C) *mc.Case {
					n := 4040 + c.Choose(71)
					d := mc.Pick(c, docs)
					there := c.Choose(2)
					if c.Skip {
						return mc.Stub
					}
					return &mc.Case{Label: label("path of %d bytes, %s, there %d", n, d.name, there), Doc: d.doc, Run: func() mc.Result {
						b := newBox()
						b.put("in.pdf", string(d.doc))
						out := b.p("parent/out")
						for len(out) < n {
							k := n - len(out) - 1
							if k > 200 {
								k = 100
							}
							if k == 0 {
								k = 1
							}
							out += "/" + strings.Repeat("d", k)
						}
						if there == 1 {
							os.MkdirAll(filepath.Dir(out), 0755)
							if os.Chdir(filepath.Dir(out)) == nil {
								os.MkdirAll(filepath.Base(out)+"/old", 0755)
								os.Chdir(b.dir)
							}
						}
						before := b.snapshot("parent/out")
						failed, text, open := local(b, b.p("in.pdf"), d.pw, out)
						if len(open) > 0 {
							return fail("open after the run (%s): %q", text, open)
						}
						if m := diffTree(before, b.snapshot("parent/out")); m != "" {
							return fail("outside the output directory: %s", m)
						}
						if !failed {
							for _, r := range reportNames {
								if len(out)+1+len(r) > 4095 {
									return fail("%s cannot be created in a path of %d bytes, no error was returned", r, len(out))
								}
							}
							if m := d.complete(out); m != "" && len(out) < 4040 {
								return fail("%s", m)
							}
						}
						must(os.Chdir(b.dir))
						return mc.Result{Outcome: mc.Digest(text)}
					}}
				}},
				{"unusable input", "13 kinds of input that cannot be opened x 14 things at the output path x four forms of the output path: an error, nothing changed", func(c *mc.C) *mc.Case {
					in := c.Choose(13)
					k := c.Choose(len(prior) + 1)
					form := mc.Pick(c, []string{"$/parent/out", "$/parent/out/", "../out", "$/link/out"})
					if c.Skip {
						return mc.Stub
					}
					lab := "nothing"
					if k > 0 {
						lab = prior[k-1].name
					}
					return &mc.Case{Label: label("input %d, output %s, form %s", in, lab, form), Run: func() mc.Result {
						b := newBox()
						b.put("in.pdf", string(docs26[0].doc))
						must(os.Chmod(b.p("in.pdf"), 0))
						if os.Getuid() == 0 {
							must(os.Remove(b.p("in.pdf")))
						}
						must(os.Symlink("missing", b.p("dangling")))
						must(os.Symlink("loop", b.p("loop")))
						must(os.Symlink("in.pdf", b.p("to-unreadable")))
						if k > 0 {
							if f, err := os.Open(b.p("in.pdf")); err == nil || strings.Contains(prior[k-1].name, "hard link to input") {
								f.Close()
								b.put("in2", "x")
							} else {
								prior[k-1].put(b, b.p("parent/out"))
							}
						}
						must(os.Mkdir(b.p("closed"), 0))
						in := []string{"$/missing", "", "$/in.pdf", "$/dangling", "$/loop", "$/to-unreadable", "$/parent/sibling.txt/in.pdf", "$/missing/in.pdf", "$/" + strings.Repeat("n", 256),
							"$/" + strings.Repeat("n/", 2050), "$/in\x00.pdf", "missing.pdf", "$/parent/sibling.txt/"}[in]
						before := b.snapshot("")
						failed, text, open := local(b, strings.ReplaceAll(in, "$", b.dir), "", strings.ReplaceAll(form, "$", b.dir))
						if !failed {
							return fail("input %q cannot be opened, no error was returned", in)
						}
						if len(open) > 0 {
							return fail("open after the run: %q", open)
						}
						if m := diffTree(before, b.snapshot("")); m != "" {
							return fail("input %q cannot be opened, still %s", in, m)
						}
						return mc.Result{Outcome: mc.Digest(text)}
					}}
				}},
				{"unusable output", "output paths below files, in directories that cannot be written, with content that cannot be removed, too long, empty: an error and everything closed, or a complete output", func(c *mc.C) *mc.Case {
					k := c.Choose(12)
					d := mc.Pick(c, docs)
					mode := []os.FileMode{0, 0555, 0300, 0700, 0600}[c.Choose(5)]
					if c.Skip {
						return mc.Stub
					}
					return &mc.Case{Label: label("output %d mode %o, %s", k, mode, d.name), Doc: d.doc, Run: func() mc.Result {
						b := newBox()
						b.put("in.pdf", string(d.doc))
						at := "parent/out"
						out := b.p(at)
						switch k {
						case 0:
							must(os.Chmod(b.p("parent"), mode))
						case 1:
							prior[11].put(b, out)
							must(os.Chmod(out, mode))
						case 2:
							prior[11].put(b, out)
							must(os.Chmod(b.p("parent"), mode))
						case 3:
							prior[11].put(b, out)
							must(os.Chmod(out+"/in", mode))
						case 4:
							prior[11].put(b, out)
							must(os.Chmod(out+"/in/side", mode))
						case 5:
							prior[0].put(b, out)
							must(os.Chmod(b.p("parent"), mode))
						case 6:
							prior[3].put(b, out)
							must(os.Chmod(b.p("outside"), mode))
						case 7:
							out = b.p("parent/sibling.txt/out")
							at = "none"
						case 8:
							out = ""
							at = "none"
						case 9:
							out = b.p("parent/" + strings.Repeat("n", 256))
							at = "none"
						case 10:
							out = b.p("parent/o\x00ut")
							at = "none"
						case 11:
							must(os.Symlink("parent", b.p("closed")))
							must(os.Chmod(b.p("parent"), mode))
							out = b.p("closed/out")
						}
						before := b.snapshot(at)
						failed, text, open := local(b, b.p("in.pdf"), d.pw, out)
						if len(open) > 0 {
							return fail("open after the run (%s): %q", text, open)
						}
						after := b.snapshot(at)
						for _, p := range []string{"parent", "outside", "parent/out", "parent/out/in", "parent/out/in/side"} {
							os.Chmod(b.p(p), 0755)
						}
						if !failed {
							if at == "none" {
								return fail("output path %q cannot be created, no error was returned", out)
							}
							if m := d.complete(b.p(at)); m != "" {
								return fail("no error was returned, but %s", m)
							}
						}
						if m := diffTree(before, after); m != "" {
							return fail("outside the output directory: %s", m)
						}
						return mc.Result{Outcome: mc.Digest(text)}
					}}
				}},
				{"load errors", "every prefix of three documents and each document with each byte of its trailing 300 changed, with the right and a wrong password: everything is closed afterwards", func(c *mc.C) *mc.Case {
					d := mc.Pick(c, docs26)
					cut := c.Bool()
					n := len(d.doc)
					if !cut && n > 300 {
						n = 300
					}
					at := c.Choose(n)
					pw := mc.Pick(c, []string{d.pw, "wrong"})
					if c.Skip {
						return mc.Stub
					}
					doc := append([]byte{}, d.doc...)
					if cut {
						doc = doc[:at]
					} else {
						doc[len(doc)-n+at] ^= 0x15
					}
					return &mc.Case{Label: label("%s cut %v at %d password %q", d.name, cut, at, pw), Doc: doc, Run: func() mc.Result {
						b := newBox()
						b.put("in.pdf", string(doc))
						_, text, open := local(b, b.p("in.pdf"), pw, b.p("parent/out"))
						if len(open) > 0 {
							return fail("open after the run (%s): %q", text, open)
						}
						return mc.Result{Outcome: mc.Digest(text)}
					}}
				}},
			}
		},
	})
}

func result27of(m, outcome string) mc.Result {
	if m != "" {
		return mc.Result{Fail: m}
	}
	return mc.Result{Outcome: mc.Digest(outcome)}
}
