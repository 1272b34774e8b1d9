package props

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/KarmaPenny/pdfparser/pdf"

	"verif/mc"
)

// cli is what one run of the command gave.
type cli struct {
	code           int
	stdout, stderr string
	ended          string // other than by exiting
}

func runCLI(args []string) cli {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(os.Getenv("VERIF_BUILD"), "pdfparser"), args...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	r := cli{cmd.ProcessState.ExitCode(), o.String(), e.String(), ""}
	if r.code < 0 {
		r.ended = fmt.Sprint(err, " ", cmd.ProcessState)
	}
	return r
}

// wanted is what the options and arguments ask for.
type wanted struct {
	usage     bool // to be refused with the usage
	help      bool // asked for
	force     bool
	pw        string
	file, dir string
}

// readArgs is the model of the option syntax: options start with one or two dashes and come first, "--" ends them,
// values follow or are joined by "=".
func readArgs(args []string) (w wanted) {
	i := 0
	for ; i < len(args); i++ {
		a := args[i]
		if len(a) < 2 || a[0] != '-' {
			break
		}
		if a == "--" {
			i++
			break
		}
		name := strings.TrimPrefix(strings.TrimPrefix(a, "-"), "-")
		val, has := "", false
		if k := strings.Index(name, "="); k >= 0 {
			name, val, has = name[:k], name[k+1:], true
		}
		switch name {
		case "f", "v":
			on := true
			if has {
				switch val {
				case "true", "1", "t", "T", "TRUE", "True":
				case "false", "0", "f", "F", "FALSE", "False":
					on = false
				default:
					w.usage = true
					return
				}
			}
			if name == "f" {
				w.force = on
			}
		case "p":
			if !has {
				if i+1 >= len(args) {
					w.usage = true
					return
				}
				i++
				val = args[i]
			}
			w.pw = val
		case "h", "help":
			w.help = true
			return
		default:
			w.usage = true
			return
		}
	}
	if len(args)-i != 2 {
		w.usage = true
		return
	}
	w.file, w.dir = args[i], args[i+1]
	return
}

func init() {
	bad := &doc26{name: "bad", doc: []byte("%PDF-1.4\n1 0 obj\n<</Type /XRef")}
	docs := append(append([]*doc26{}, docs26...), bad)
	// judge runs the command in a box and compares with the model, and with what the library does in an equal box.
	judge := func(setup func() *box, args []string) mc.Result {
		b := setup()
		w := readArgs(args)
		exists := false
		if !w.usage && !w.help {
			_, err := os.Lstat(w.dir)
			exists = !os.IsNotExist(err)
		}
		refused := w.usage || w.help || exists && !w.force
		var wantTree map[string]string
		wantErr := ""
		if !refused {
			if err := pdf.Parse(w.file, w.pw, w.dir); err != nil {
				wantErr = err.Error()
			}
			wantTree = b.shape()
			b = setup()
		}
		before := b.snapshot("")
		r := runCLI(args)
		if r.ended != "" {
			return fail("the command ended by %s: %.500s", r.ended, r.stderr)
		}
		out := fmt.Sprint(r.code, refused)
		switch {
		case w.help:
			if !strings.Contains(r.stdout+r.stderr, "Usage:") {
				return fail("no usage was printed")
			}
		case w.usage:
			if r.code == 0 {
				return fail("exit status 0 for unusable arguments")
			}
			if !strings.Contains(r.stderr, "Usage:") {
				return fail("no usage on standard error: %.300s", r.stderr)
			}
		}
		if refused {
			if m := diffTree(before, b.snapshot("")); m != "" {
				return fail("nothing should have been done, but %s", m)
			}
			if exists && !w.usage && !w.help && r.stdout+r.stderr == "" {
				return fail("refused without a message")
			}
			return mc.Result{Outcome: mc.Digest(out)}
		}
		if m := diffTree(wantTree, b.shape()); m != "" {
			return fail("the results differ from the library's: %s", m)
		}
		if wantErr != "" && !strings.Contains(r.stderr, wantErr) {
			return fail("the error %q is not on standard error: %.300q", wantErr, r.stderr)
		}
		return mc.Result{Outcome: mc.Digest(out, wantErr, fmt.Sprint(wantTree))}
	}
	setup := func(d *doc26) *box {
		b := newBox()
		b.put("parent/work/in.pdf", string(d.doc))
		b.put("in.pdf", string(d.doc))
		b.put("parent/work/old/contents.txt", "old content")
		b.put("parent/work/old/other", "old content")
		return b
	}
	mc.Register(&mc.Prop{
		ID:        "C29",
		Technique: "exhaustive enumeration of argument vectors up to a length and of prior states of the output path; the built command run on each and compared with a reference model of its options and with the library called directly",
		Note:      "The exit status after a refusal or a load error is not claimed. raw.pdf is compared as a multiset of bytes, the other reports as sets of lines.",
		Scopes: func(th bool) []mc.Scope {
			return []mc.Scope{
				{"arguments", "all argument vectors of up to three words (thorough: four) over 18: options in their spellings, values, an unknown option, end of options, input, new and existing directories", func(c *mc.C) *mc.Case {
					n := 3
					if th {
						n = 4
					}
					w := word(c, []string{"-f", "--f", "-f=false", "-f=x", "-v", "--v=true", "-p", "-p=user", "--p=", "-x", "-h", "--", "-", "in.pdf", "new", "old", "missing.pdf", ""}, n)
					if c.Skip {
						return mc.Stub
					}
					return &mc.Case{Label: label("%q", w), Trivial: len(w) == 0, Run: func() mc.Result { return judge(func() *box { return setup(docs26[0]) }, w) }}
				}},
				{"options", "every sequence of up to three options (thorough: four) of seven x input readable, encrypted, unreadable, missing x output new, existing, a file x no or one further argument", func(c *mc.C) *mc.Case {
					n := 3
					if th {
						n = 4
					}
					w := word(c, []string{"-f", "-f=false", "-v", "-p user", "-p=user", "-p ", "--p wrong"}, n)
					d := docs26[2]
					if c.Bool() {
						d = docs26[0]
					}
					in := mc.Pick(c, []string{"in.pdf", "../../in.pdf", "missing.pdf"})
					out := mc.Pick(c, []string{"new", "old", "in.pdf", "../sibling.txt"})
					more := c.Choose(3)
					if !th && more > 0 && len(w) > 1 || !th && len(w) == 3 && (d != docs26[2] || in != "in.pdf" || out != "old" && out != "new") {
						return nil
					}
					if c.Skip {
						return mc.Stub
					}
					var args []string
					for _, x := range w {
						if k := strings.Index(x, " "); k >= 0 {
							args = append(args, x[:k], x[k+1:])
						} else {
							args = append(args, x)
						}
					}
					args = append(args, []string{"--"}[:more/2]...)
					args = append(args, in, out)
					args = append(args, []string{"-f"}[:more%2]...)
					return &mc.Case{Label: label("%s %q", d.name, args), Doc: d.doc, Run: func() mc.Result { return judge(func() *box { return setup(d) }, args) }}
				}},
				{"passwords", "documents encrypted with each of 12 passwords, opened with each of them given in four ways", func(c *mc.C) *mc.Case {
					l := []string{"", "user", "-f", "--", "-", " ", "a=b", "=", "p\xe4ss", "-p", "%s", strings.Repeat("long", 10)}
					own := mc.Pick(c, l)
					pw := mc.Pick(c, l)
					way := c.Choose(4)
					conf := c.Choose(2)
					if c.Skip {
						return mc.Stub
					}
					e := econfsFew[1+2*conf]
					a := newActDoc()
					a.b.Obj(1, 0, "<</Type /Catalog /OpenAction <</S /URI /URI (http://found)>>>>")
					doc := a.b.Encrypted(e.crypt(own, "owner"), e.method(), e.cf(), 900)
					args := [][]string{{"-p", pw}, {"-p=" + pw}, {"--p", pw}, {"-p", "x", "--p=" + pw}}[way]
					args = append(args, "in.pdf", "new")
					return &mc.Case{Label: label("own %q given %q", own, args), Doc: doc, Run: func() mc.Result {
						r := judge(func() *box { return setup(&doc26{doc: doc}) }, args)
						if r.Fail != "" {
							return r
						}
						u, _ := os.ReadFile("new/urls.txt")
						if own == pw && string(u) != "http://found\n" {
							return fail("the password did not open the document: urls.txt is %q", u)
						}
						return r
					}}
				}},
				{"output path", "14 things at the output path x 16 forms of the path x with or without -f, -v x four documents", func(c *mc.C) *mc.Case {
					k := c.Choose(len(prior) + 1)
					form := mc.Pick(c, []string{"out", "out/", "./out", "$/parent/work/out", "$/link/work/out", "../work/out", "out/.", "out/sub", "out/contents.txt/x", ".", "..", "", "$/in.pdf/out", strings.Repeat("n", 300), "ou*", "-out"})
					force, verbose := c.Bool(), c.Bool()
					d := mc.Pick(c, docs)
					if !th && (d != docs[0] && (verbose || k%3 != 0)) {
						return nil
					}
					if k > 0 && prior[k-1].name == "pipe" && form == "out/sub" {
						return nil // os.RemoveAll opens the parent of its path, which waits for a writer
					}
					if c.Skip {
						return mc.Stub
					}
					lab := "nothing"
					if k > 0 {
						lab = prior[k-1].name
					}
					return &mc.Case{Label: label("%s is there, path %q, force %v verbose %v, %s", lab, form, force, verbose, d.name), Doc: d.doc, Run: func() mc.Result {
						start := func() *box {
							b := setup(d)
							if k > 0 {
								prior[k-1].put(b, b.p("parent/work/out"))
							}
							return b
						}
						b := start()
						args := []string{"-p", d.pw}
						if force {
							args = append(args, "-f")
						}
						if verbose {
							args = append(args, "-v")
						}
						args = append(args, "--", b.p("in.pdf"), strings.ReplaceAll(form, "$", b.dir))
						return judge(start, args)
					}}
				}},
			}
		},
	})
}
