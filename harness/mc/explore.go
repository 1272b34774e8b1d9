// Package mc is a small explicit-state / stateless model checker for sequential and
// cooperatively scheduled Go code.  A generator makes choices through a *C; the explorer walks the
// whole choice tree depth first, so every execution within the generator's bounds is run exactly once.
package mc

import (
	"fmt"
	"hash/fnv"
)

// C hands out the choices of one execution.
type C struct {
	prefix []int
	taken  []int
	widths []int
	states map[uint64]struct{} // distinct model states reported by the generator
	vec    bool                // replaying a recorded vector: divergence is an error
	// Skip is set when the case will not be run here (another worker has it): once all choices are made and
	// pruning is decided, an expensive generator may return Stub instead of building the case.
	Skip bool
}

// Choose returns a value in [0,n); every value is explored.
func (c *C) Choose(n int) int {
	if n <= 0 {
		panic("mc: Choose(0)")
	}
	i := len(c.taken)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n {
			panic(fmt.Sprintf("mc: replay diverged at choice %d: %d of %d", i, v, n))
		}
	}
	c.taken = append(c.taken, v)
	c.widths = append(c.widths, n)
	return v
}

// Bool explores false, then true.
func (c *C) Bool() bool { return c.Choose(2) == 1 }

// Pick explores all elements of a list, first element first.
func Pick[T any](c *C, list []T) T { return list[c.Choose(len(list))] }

// State records a model state reached by the current execution (for coverage statistics).
func (c *C) State(key string) {
	if c.states == nil {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(key))
	c.states[h.Sum64()] = struct{}{}
}

// Choices returns the choices made so far.
func (c *C) Choices() []int { return append([]int{}, c.taken...) }

// Result of running one case on the real code.
type Result struct {
	Fail    string // empty: agreed with the reference model
	Outcome uint64 // digest of what was observed, to count distinct outcomes
}

// Case is one fully determined execution.
type Case struct {
	Label   string        // short human readable description, also the identity used by known findings
	Doc     []byte        // input given to the real code, stored in replay files
	Trivial bool          // not counted as non-trivial
	Run     func() Result // runs the real code and compares with the reference model
}

// Stub stands for a case that another worker runs.
var Stub = &Case{Label: "stub"}

// Scope is one bounded space of executions.
type Scope struct {
	Name  string
	Bound string
	Gen   func(c *C) *Case // nil: vector is pruned (not a case)
}

// Prop is one property with all its scopes.
type Prop struct {
	ID          string
	Technique   string
	Note        string
	Assumptions []string
	Scopes      func(thorough bool) []Scope
	Init        func() // run once per worker process
	Procs       int    // worker processes, default 8
}

// Commands are modes of the program that cases start as processes of their own.
var Commands = map[string]func(args []string) int{}

var Registry = map[string]*Prop{}

func Register(p *Prop) { Registry[p.ID] = p }

// TreeStats describes an exhausted choice tree.
type TreeStats struct {
	Positions int // ends of the tree
	Nodes     int
	Edges     int
	Pruned    int // wanted positions without a case
	Depth     int
	States    map[uint64]struct{}
	Done      bool
}

// Walk enumerates the whole tree; visit is called for every case with its position and returns false to stop.
// Cases for which want is false may be stubs.  Positions count pruned ends of the tree, too: a generator may prune
// only once it knows that the case is wanted, and the positions must be the same for every worker.
func Walk(gen func(c *C) *Case, want func(idx int) bool, visit func(idx int, choices []int, cs *Case) bool) *TreeStats {
	st := &TreeStats{States: map[uint64]struct{}{}, Nodes: 1}
	var prefix []int
	from := 0
	buf := make([]int, 0, 64)
	wbuf := make([]int, 0, 64)
	for {
		c := &C{prefix: prefix, taken: buf[:0], widths: wbuf[:0], states: st.States, Skip: !want(st.Positions)}
		cs := gen(c)
		if len(c.taken) < len(prefix) {
			panic("mc: generator is not deterministic")
		}
		buf, wbuf = c.taken, c.widths
		st.Nodes += len(c.taken) - from
		st.Edges += len(c.taken) - from
		if len(c.taken) > st.Depth {
			st.Depth = len(c.taken)
		}
		if cs == nil {
			if !c.Skip {
				st.Pruned++
			}
		} else if !visit(st.Positions, c.taken, cs) {
			return st
		}
		st.Positions++
		i := len(c.taken) - 1
		for i >= 0 && c.taken[i]+1 >= c.widths[i] {
			i--
		}
		if i < 0 {
			st.Done = true
			return st
		}
		prefix = append(prefix[:0], c.taken[:i+1]...)
		prefix[i]++
		from = i
	}
}

// Regenerate rebuilds the case of a recorded choice vector.
func Regenerate(gen func(c *C) *Case, choices []int) *Case {
	c := &C{prefix: choices, vec: true}
	cs := gen(c)
	if len(c.taken) != len(choices) {
		panic("mc: replay diverged: vector length")
	}
	return cs
}

// Digest hashes observations.
func Digest(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// Drop is for a case that turns out unusable only once it is built.
func Drop() *Case {
	return &Case{Label: "dropped", Trivial: true, Run: func() Result { return Result{} }}
}
