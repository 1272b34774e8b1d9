package mc

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

const statusSize = 1 << 16

// status is shared memory telling the parent which case a worker is running, so that a fatal error
// (stack overflow, out of memory, endless loop) can be attributed to it.
type status struct{ mem []byte }

func openStatus(path string) (*status, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(statusSize); err != nil {
		return nil, err
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, statusSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &status{m}, nil
}

func (s *status) u64(i int) *uint64 { return (*uint64)(unsafe.Pointer(&s.mem[i*8])) }

func (s *status) set(scope, idx int, choices []int) {
	atomic.StoreUint64(s.u64(3), 0)
	*s.u64(1) = uint64(scope)
	*s.u64(2) = uint64(idx)
	for i, c := range choices {
		p := 40 + i*2
		if p+2 > len(s.mem) {
			break
		}
		s.mem[p] = byte(c)
		s.mem[p+1] = byte(c >> 8)
	}
	*s.u64(4) = uint64(len(choices))
	atomic.StoreUint64(s.u64(3), 1)
	atomic.AddUint64(s.u64(0), 1)
}

func (s *status) get() (scope, idx int, choices []int, ok bool) {
	if atomic.LoadUint64(s.u64(3)) != 1 {
		return
	}
	n := int(*s.u64(4))
	for i := 0; i < n; i++ {
		choices = append(choices, int(s.mem[40+i*2])|int(s.mem[41+i*2])<<8)
	}
	return int(*s.u64(1)), int(*s.u64(2)), choices, true
}

type msg struct {
	Type       string
	Scope      int
	Idx        int
	Choices    []int    `json:",omitempty"`
	Label      string   `json:",omitempty"`
	Fail       string   `json:",omitempty"`
	Doc        []byte   `json:",omitempty"`
	Reproduced int      `json:",omitempty"`
	Ran        int      `json:",omitempty"`
	NonTrivial int      `json:",omitempty"`
	Positions  int      `json:",omitempty"`
	Nodes      int      `json:",omitempty"`
	Edges      int      `json:",omitempty"`
	States     int      `json:",omitempty"`
	Pruned     int      `json:",omitempty"`
	Depth      int      `json:",omitempty"`
	Outcomes   []uint64 `json:",omitempty"`
	Samples    []string `json:",omitempty"`
	Done       bool     `json:",omitempty"`
	Secs       float64  `json:",omitempty"`
}

const maxFailsPerScope = 3
const MemLimit = 2500 << 20

func limits() {
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(1 << 30) // beyond it, garbage is collected at once
	go func() {
		s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		for {
			time.Sleep(100 * time.Millisecond)
			metrics.Read(s)
			if s[0].Value.Uint64() > MemLimit {
				// garbage does not count
				runtime.GC()
				metrics.Read(s)
			}
			if s[0].Value.Uint64() > MemLimit {
				fmt.Fprintln(os.Stderr, "mc: memory limit exceeded")
				os.Exit(77)
			}
		}
	}()
}

// RunCase runs one case, turning a panic into a failure.
func RunCase(cs *Case) (res Result) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			res.Fail = fmt.Sprintf("panic: %v\n%s", r, st)
		}
	}()
	return cs.Run()
}

// Worker runs its share of all scopes.
func Worker(p *Prop, thorough bool, shard, n int, statusPath string, fromScope, fromIdx int, skip map[[2]int]bool, deadline time.Time) {
	runtime.GOMAXPROCS(2)
	limits()
	st, err := openStatus(statusPath)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if p.Init != nil {
		p.Init()
	}
	out := json.NewEncoder(os.Stdout)
	for si, sc := range p.Scopes(thorough) {
		if si < fromScope {
			continue
		}
		ran, fails, nontrivial := 0, 0, 0
		outcomes := map[uint64]struct{}{}
		var samples []string
		stopped := false
		started := time.Now()
		want := func(idx int) bool {
			return idx%n == shard && !skip[[2]int{si, idx}] && !(si == fromScope && idx < fromIdx)
		}
		ts := Walk(sc.Gen, want, func(idx int, choices []int, cs *Case) bool {
			if !want(idx) {
				return true
			}
			st.set(si, idx, choices)
			ran++
			if !cs.Trivial {
				nontrivial++
			}
			res := RunCase(cs)
			if res.Fail != "" {
				again := 0
				for i := 0; i < 10; i++ {
					if r := RunCase(Regenerate(sc.Gen, choices)); r.Fail != "" {
						again++
					}
				}
				out.Encode(msg{Type: "fail", Scope: si, Idx: idx, Choices: append([]int{}, choices...), Label: cs.Label, Fail: res.Fail, Doc: cs.Doc, Reproduced: again})
				if again > 0 {
					fails++
				}
				if fails >= maxFailsPerScope {
					stopped = true
					return false
				}
			} else if len(outcomes) < 200000 {
				outcomes[res.Outcome] = struct{}{}
			}
			if ran == 1 || ran == 17 || ran == 1001 {
				samples = append(samples, cs.Label)
			}
			if ran%64 == 0 && time.Now().After(deadline) {
				return false
			}
			return true
		})
		_ = stopped
		var oc []uint64
		for o := range outcomes {
			oc = append(oc, o)
		}
		out.Encode(msg{Type: "scope", Scope: si, Ran: ran, NonTrivial: nontrivial, Positions: ts.Positions, Nodes: ts.Nodes, Edges: ts.Edges,
			States: len(ts.States), Pruned: ts.Pruned, Depth: ts.Depth, Outcomes: oc, Samples: samples, Done: ts.Done, Secs: time.Since(started).Seconds()})
	}
	out.Encode(msg{Type: "end"})
}
