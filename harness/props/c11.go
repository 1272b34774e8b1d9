package props

import (
	"fmt"
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"

	"verif/mc"
	"verif/ref"
)

// hist is one update history: for every revision its kind and what it does to each object.
type hist struct {
	stream []bool // cross-reference stream or table
	op     [][]int
	// layout options
	order  []int // physical order of the revisions
	oneXR  bool  // the cross-reference streams all have the same object number
	split  bool  // one subsection per entry
	free   int   // what the offset field of a free entry holds: 0, the number of the next free object, the offset of the deleted object
	loop   int   // 0: none; k+1: Prev of the oldest revision points at revision k; -1: at the end of file
	gens   int   // which generations objects get (see model); from 4 on the first revision has that one
	eol    string
	nums   []int
	pad    int
	other  string // further entries of the trailers
	point  string // the last pointer's spelling
	tail   string // what follows it
	bodies func(rev, obj int) string
}

const (
	opNone = iota
	opSet
	opDel
)

func (h *hist) String() string {
	var s strings.Builder
	for r := range h.op {
		if h.stream[r] {
			s.WriteString("S")
		} else {
			s.WriteString("T")
		}
		for o, x := range h.op[r] {
			if x == opSet {
				fmt.Fprintf(&s, "+%d", h.nums[o])
			} else if x == opDel {
				fmt.Fprintf(&s, "-%d", h.nums[o])
			}
		}
		s.WriteString(" ")
	}
	fmt.Fprintf(&s, "order %v oneXR %v split %v loop %d gens %d free %d", h.order, h.oneXR, h.split, h.loop, h.gens, h.free)
	if h.other+h.point+h.tail != "" {
		fmt.Fprintf(&s, " other %q pointer %q tail %d %.1q", h.other, h.point, len(h.tail), h.tail)
	}
	return s.String()
}

// model gives the last revision of each object (-1 deleted or never used) and its generation in each revision:
// always 0, counted up by each deletion, counted up only in the free entries (re-added objects start at 0 again),
// or falling from revision to revision.
func (h *hist) model() (last []int, gen [][]int, state string) {
	n := len(h.nums)
	last = make([]int, n)
	cur := make([]int, n)
	for i := range last {
		last[i] = -1
	}
	for r := range h.op {
		g := make([]int, n)
		for o, x := range h.op[r] {
			switch x {
			case opSet:
				last[o] = r
			case opDel:
				last[o] = -1
				if h.gens == 1 || h.gens == 2 {
					cur[o]++
				}
			}
			g[o] = cur[o]
			if h.gens == 2 && x == opSet {
				g[o] = 0
			}
			if h.gens == 3 {
				g[o] = 7 * (len(h.op) - r)
			}
			if h.gens > 3 {
				g[o] = h.gens - r
			}
		}
		gen = append(gen, g)
	}
	return last, gen, fmt.Sprint(last, cur)
}

func (h *hist) xrNum(r int) int {
	if h.oneXR {
		return 50
	}
	return 50 + r
}

func (h *hist) doc() []byte {
	_, gen, _ := h.model()
	eol := h.eol
	if eol == "" {
		eol = " \n"
	}
	return ref.Fix(func(l *ref.Layout) {
		l.Text("%%PDF-1.7\n")
		for _, r := range h.order {
			ents := map[int]ref.Entry{}
			if r == 0 {
				ents[0] = ref.Entry{Gen: 65535}
			}
			for o, x := range h.op[r] {
				switch x {
				case opSet:
					m := fmt.Sprintf("o%d.%d", r, o)
					if h.pad > 0 {
						l.Text("%%%s\n", strings.Repeat("-", h.pad))
					}
					l.Obj(m, h.nums[o], gen[r][o], h.bodies(r, o))
					ents[h.nums[o]] = ref.Entry{Off: l.Off(m), Gen: gen[r][o], Type: 1}
				case opDel:
					ents[h.nums[o]] = ref.Entry{Gen: gen[r][o]}
					if h.free == 2 {
						for k := r - 1; k >= 0; k-- {
							if h.op[k][o] == opSet {
								ents[h.nums[o]] = ref.Entry{Gen: gen[r][o], Off: l.Off(fmt.Sprintf("o%d.%d", k, o))}
								break
							}
						}
					}
				}
			}
			if h.free == 1 { // linked list of free entries
				next := int64(0)
				for n := 60; n >= 0; n-- {
					if e, ok := ents[n]; ok && e.Type == 0 {
						e.Off, next = next, int64(n)
						ents[n] = e
					}
				}
			}
			sec := fmt.Sprintf("x%d", r)
			prev := ""
			if r > 0 {
				prev = fmt.Sprintf("/Prev %010d", l.Off(fmt.Sprintf("x%d", r-1)))
			} else if h.loop > 0 {
				prev = fmt.Sprintf("/Prev %010d", l.Off(fmt.Sprintf("x%d", h.loop-1)))
			} else if h.loop < 0 {
				prev = fmt.Sprintf("/Prev %010d", l.Off("end"))
			}
			rs := ref.Runs(ents)
			if h.split {
				var one [][2]int
				for _, x := range rs {
					for i := 0; i < x[1]; i++ {
						one = append(one, [2]int{x[0] + i, 1})
					}
				}
				rs = one
			}
			if h.stream[r] {
				xn := h.xrNum(r)
				ents[xn] = ref.Entry{Off: l.Off(sec), Type: 1}
				rs = append(rs, [2]int{xn, 1})
				var ix strings.Builder
				for _, x := range rs {
					fmt.Fprintf(&ix, "%d %d ", x[0], x[1])
				}
				l.Obj(sec, xn, 0, ref.StreamBody(fmt.Sprintf("/Type /XRef /Size 60 /W [1 4 2] /Index [%s] /Root 1 0 R /XRev %d %s%s", ix.String(), r, prev, h.other), ref.XrefData(ents, rs, [3]int{1, 4, 2})))
			} else {
				l.Mark(sec)
				l.Text("xref\n")
				for _, x := range rs {
					l.Text("%d %d\n", x[0], x[1])
					for i := x[0]; i < x[0]+x[1]; i++ {
						e := ents[i]
						f := 'f'
						if e.Type == 1 {
							f = 'n'
						}
						l.Text("%010d %05d %c%s", e.Off, e.Gen, f, eol)
					}
				}
				l.Text("trailer\n<</Size 60 /Root 1 0 R %s%s>>\n", prev, h.other)
			}
			l.Text("startxref\n%010d\n%%%%EOF\n", l.Off(sec))
		}
		// a last pointer to the newest section, where its revision is not the last part of the file
		if newest := len(h.op) - 1; h.order[len(h.order)-1] != newest {
			if h.point == "" {
				h.point = "startxref\n%010d\n%%%%EOF\n"
			}
			l.Text(h.point, l.Off(fmt.Sprintf("x%d", newest)))
		}
		l.Text("%s", h.tail)
		l.Mark("end")
	})
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := len(p); i >= 0; i-- {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

func identity(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	return p
}

func (h *hist) mcCase(c *mc.C) *mc.Case {
	last, gen, st := h.model()
	c.State(st)
	if c.Skip {
		return mc.Stub
	}
	doc := h.doc()
	triv := true
	for r := range h.op {
		for _, x := range h.op[r] {
			if x != opNone && r > 0 {
				triv = false
			}
		}
	}
	return &mc.Case{Label: label("%s", h), Doc: doc, Trivial: triv, Run: func() mc.Result {
		p, err := open(doc, "")
		if err != nil {
			return fail("Load: %v", err)
		}
		want := map[int]V{9: ref.Null, 45: ref.Null}
		for o, r := range last {
			want[h.nums[o]] = ref.Null
			if r >= 0 {
				v := ref.Parse([]byte(h.bodies(r, o)))
				want[h.nums[o]] = v
			}
		}
		res := checkValues(p, want)
		if res.Fail == "" {
			for o, r := range last {
				if r >= 0 {
					if g := p.GetObject(h.nums[o]).Generation; g != gen[r][o] {
						return fail("object %d has generation %d, expected %d", h.nums[o], g, gen[r][o])
					}
				}
			}
		}
		// the cross-reference streams are objects too
		xr := map[int]int{}
		for r := range h.op {
			if h.stream[r] {
				xr[h.xrNum(r)] = r
			}
		}
		for _, n := range keys(xr) {
			d, _ := p.GetObject(n).Value.(pdf.Dictionary)
			if v, ok := d.GetInt("XRev"); res.Fail == "" && (!ok || v != xr[n]) {
				return fail("cross-reference stream %d is the one of revision %d, expected revision %d", n, v, xr[n])
			}
		}
		return res
	}}
}

func simpleBody(r, o int) string { return fmt.Sprintf("%d", 100+r*10+o) }
func dictBody(r, o int) string   { return fmt.Sprintf("<</V %d /Rev (%d)>>", 100+r*10+o, r) }

// large11: n objects; then an update that sets (op 0) or deletes (op 1) all of them, every other one, or the last
// ten; then perhaps one that adds an object.
func large11(n int, stream [2]bool, op, which int, third bool) *mc.Case {
	b := ref.NewBuilder()
	vals := make([]V, n+2)
	close := func(s bool, num int) {
		if s {
			b.XrefStream(num, "/Root 1 0 R")
		} else {
			b.Table("/Root 1 0 R")
		}
	}
	for i := 1; i <= n; i++ {
		b.Obj(i, 0, fmt.Sprint(i))
		vals[i] = Num(i)
	}
	close(stream[0], n+5)
	for i := 1; i <= n; i++ {
		if which == 1 && i%2 == 0 || which == 2 && i+10 < n {
			continue
		}
		if op == 1 {
			b.Free(i, 1)
			vals[i] = ref.Null
		} else {
			b.Obj(i, 0, fmt.Sprint(-i))
			vals[i] = Num(-i)
		}
	}
	close(stream[1], n+6)
	vals[n+1] = ref.Null
	if third {
		b.Obj(n+1, 0, "(new)")
		vals[n+1] = Str("new")
		close(stream[0], n+7)
	}
	doc := b.Bytes()
	return &mc.Case{Label: label("%d objects streams %v op %d which %d third %v", n, stream, op, which, third), Doc: doc, Run: func() mc.Result {
		p, err := open(doc, "")
		if err != nil {
			return fail("Load: %v", err)
		}
		for i := 1; i < len(vals); i++ {
			if n > 3000 && i%97 != 0 && i > 20 && i+20 < n && i%4096 > 2 && i%1000 > 1 {
				continue
			}
			if got := ref.From(p.GetObject(i).Value); !ref.Equal(got, vals[i]) {
				return fail("object %d reads as %s, expected %s", i, ref.Show(got), ref.Show(vals[i]))
			}
		}
		return mc.Result{Outcome: uint64(n)}
	}}
}

func init() {
	ops := func(c *mc.C, revs, objs int) *hist {
		h := &hist{order: identity(revs), bodies: simpleBody}
		for o := 0; o < objs; o++ {
			h.nums = append(h.nums, o+1)
		}
		for r := 0; r < revs; r++ {
			h.stream = append(h.stream, c.Bool())
			var l []int
			for o := 0; o < objs; o++ {
				l = append(l, c.Choose(3))
			}
			h.op = append(h.op, l)
		}
		return h
	}
	mc.Register(&mc.Prop{
		ID:        "C11",
		Technique: "exhaustive enumeration of update histories (all operation sequences and section kinds up to a number of revisions) executed on the real loader and compared with an abstract map model",
		Scopes: func(th bool) []mc.Scope {
			revs, objs := 3, 2
			sc := []mc.Scope{
				{"histories", "all histories of 3 revisions x {table, stream} x {none, set, delete} on 2 objects x 4 ways to number the generations x 3 ways to fill free entries", func(c *mc.C) *mc.Case {
					h := ops(c, revs, objs)
					h.gens = c.Choose(4)
					h.free = c.Choose(3)
					return h.mcCase(c)
				}},
				{"objects", "all histories of 2 revisions on 3 objects with a gap in the numbers, one subsection per entry or runs, 3 entry line ends", func(c *mc.C) *mc.Case {
					h := ops(c, 2, 3)
					h.nums = []int{1, 2, 7}
					h.split = c.Bool()
					h.eol = mc.Pick(c, []string{" \n", "\r\n", " \r"})
					h.bodies = dictBody
					h.free = c.Choose(3)
					return h.mcCase(c)
				}},
				{"large", "two or three revisions, tables or streams, of 1 to 70000 objects in one or two subsections: the update replaces or deletes every object, every other one, or the last ones", func(c *mc.C) *mc.Case {
					n := mc.Pick(c, []int{1, 2, 10, 127, 128, 255, 256, 257, 500, 511, 512, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 10001, 16385, 32769, 65535, 65537, 70000})
					kinds := [2]bool{c.Bool(), c.Bool()}
					op := c.Choose(2)
					which := c.Choose(3)
					third := c.Bool()
					if c.Skip {
						return mc.Stub
					}
					return large11(n, kinds, op, which, third)
				}},
				{"identities", "all histories of 2 revisions on one object with one of 19 numbers up to 2^31 - 3 and one of 12 generations up to 65535, counting down, x 3 ways to fill free entries", func(c *mc.C) *mc.Case {
					h := ops(c, 2, 1)
					h.nums = []int{mc.Pick(c, []int{1, 2, 8, 127, 128, 255, 256, 257, 1000, 32768, 65535, 65536, 99999, 100000, 8388607, 8388608, 9999999, 16777216, 1<<31 - 3})}
					h.gens = mc.Pick(c, []int{4, 9, 10, 127, 128, 255, 256, 999, 32767, 32768, 65534, 65535})
					h.free = c.Choose(3)
					return h.mcCase(c)
				}},
				{"long", "all histories of 5 (thorough: 6) revisions on one object, table or stream per revision x 3 ways to number the generations", func(c *mc.C) *mc.Case {
					n := 5
					if th {
						n = 6
					}
					h := ops(c, n, 1)
					h.gens = 1 + c.Choose(3)
					return h.mcCase(c)
				}},
				{"other entries", "histories of 2 revisions on one object, tables or streams, with each of 500 other entries with seven values, and 160 values of Subtype and S, in the trailers", func(c *mc.C) *mc.Case {
					h := ops(c, 2, 1)
					if h.op[0][0] != opSet || h.op[1][0] == opNone {
						return nil
					}
					k := c.Choose(len(stdKeys) + 2*len(stdTypes))
					if k < len(stdKeys) {
						h.other = " /" + stdKeys[k] + " " + mc.Pick(c, []string{"0", "1", "-1", "/Name", "null", "[1 2]", "(text)"})
						if strings.Contains(" Type Size W Index Filter DecodeParms Length Root Prev Encrypt ID ", " "+stdKeys[k]+" ") {
							return nil
						}
					} else {
						k -= len(stdKeys)
						h.other = " /" + []string{"Subtype", "S"}[k%2] + " /" + stdTypes[k/2]
					}
					h.bodies = dictBody
					return h.mcCase(c)
				}},
				{"tails", "histories of 2 and 3 revisions whose newest is not the last part of the file, tables or streams, with the pointer to it in 12 spellings and every number of up to 200 white-space characters (line feeds, blanks, NUL) or other bytes behind it", func(c *mc.C) *mc.Case {
					n := 2 + c.Choose(2)
					h := ops(c, n, 1)
					for _, o := range h.op {
						if o[0] == opNone {
							return nil
						}
					}
					h.order = []int{1, 0}
					if n == 3 {
						h.order = mc.Pick(c, [][]int{{2, 0, 1}, {0, 2, 1}})
					}
					k := c.Choose(201)
					h.tail = strings.Repeat(mc.Pick(c, []string{"\n", " ", "\x00", "x", "\r\n"}), k)
					if len(h.tail) > 200 {
						h.tail = h.tail[:200]
					}
					p := c.Choose(12)
					h.point = []string{"startxref\n%010d\n%%%%EOF\n", "startxref\n%d\n%%%%EOF", "startxref\r%d\r%%%%EOF\r", "startxref\r\n%d\r\n%%%%EOF\r\n", "startxref %d %%%%EOF\n", "startxref  \n %d \n %%%%EOF \n", "startxref\t%d\t%%%%EOF\n", "startxref\n\n\n%d\n\n\n%%%%EOF\n", "startxref\n%020d\n%%%%EOF\n", "startxref%d%%%%EOF\n", "startxref\f%d\f%%%%EOF\n", "startxref \n%d\n%%%%EOF % end\n"}[p]
					if !th && (n == 3 && k%10 != 0 || p > 0 && k%4 > 0) {
						return nil
					}
					h.bodies = dictBody
					return h.mcCase(c)
				}},
				{"layout", "all histories of 3 revisions on one object x all 6 physical orders of the revisions x shared or own cross-reference stream numbers x Prev of the oldest pointing at any revision or the end of file", func(c *mc.C) *mc.Case {
					h := ops(c, 3, 1)
					h.order = mc.Pick(c, permutations(3))
					h.oneXR = c.Bool()
					h.loop = c.Choose(5) - 1
					h.bodies = dictBody
					return h.mcCase(c)
				}},
				{"spread", "all histories of 3 revisions on one object with parts of more than one read buffer between the objects", func(c *mc.C) *mc.Case {
					h := ops(c, 3, 1)
					h.pad = mc.Pick(c, []int{4000, 5000})
					h.bodies = dictBody
					h.loop = c.Choose(4)
					return h.mcCase(c)
				}},
			}
			if th {
				sc = append(sc, mc.Scope{"histories-4", "all histories of 4 revisions on 2 objects", func(c *mc.C) *mc.Case { return ops(c, 4, 2).mcCase(c) }},
					mc.Scope{"objects-3", "all histories of 3 revisions on 3 objects", func(c *mc.C) *mc.Case { return ops(c, 3, 3).mcCase(c) }},
					mc.Scope{"layout-4", "4 revisions on one object in all 24 physical orders", func(c *mc.C) *mc.Case {
						h := ops(c, 4, 1)
						h.order = mc.Pick(c, permutations(4))
						h.oneXR = c.Bool()
						return h.mcCase(c)
					}})
			}
			return sc
		},
	})
}
