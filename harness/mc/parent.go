package mc

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// HangSeconds without any finished case before a worker is considered stuck (confirmed by solo runs).
const HangSeconds = 45

type failure struct {
	scope   int
	choices []int
	label   string
	fail    string
	doc     []byte
	solo    bool
}

type scopeAgg struct {
	ran, nontrivial, positions, nodes, edges, states, pruned, depth int
	outcomes                                                        map[uint64]struct{}
	samples                                                         []string
	done                                                            bool
	reports                                                         int
	secs                                                            float64
}

// Check runs all scopes of a property in worker processes and returns the process exit status.
func Check(p *Prop, thorough bool, seed int, verif string) int {
	start := time.Now()
	tier := "quick"
	limit := 500 * time.Second
	if thorough {
		tier = "thorough"
		limit = 3000 * time.Second
	}
	deadline := start.Add(limit)
	n := p.Procs
	if n == 0 {
		n = 8
	}
	if w, err := strconv.Atoi(os.Getenv("MC_WORKERS")); err == nil && w > 0 { // used by tools/mutate
		n, deadline = w, start.Add(3000*time.Second)
	}
	first := os.Getenv("MC_FIRST") != ""
	exe, _ := os.Executable()
	tmp, err := os.MkdirTemp("", "mc")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	os.Chmod(tmp, 0755)
	scopes := p.Scopes(thorough)
	agg := make([]*scopeAgg, len(scopes))
	for i := range agg {
		agg[i] = &scopeAgg{outcomes: map[uint64]struct{}{}, done: true}
	}
	var mu sync.Mutex
	var fails []failure
	unreproduced := 0
	var unrep []string
	var broken []string
	var wg sync.WaitGroup
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			runtime.LockOSThread() // Pdeathsig is tied to the starting thread
			fromScope, fromIdx := 0, 0
			var skips []string
			for attempt := 0; ; attempt++ {
				sp := filepath.Join(tmp, fmt.Sprintf("status%d.%d", w, attempt))
				st, err := openStatus(sp)
				if err != nil {
					mu.Lock()
					broken = append(broken, err.Error())
					mu.Unlock()
					return
				}
				cmd := exec.Command(exe, "worker", p.ID, tier, strconv.Itoa(w), strconv.Itoa(n), sp, strconv.Itoa(fromScope), strconv.Itoa(fromIdx), strings.Join(skips, ","), strconv.FormatInt(deadline.Unix(), 10))
				var stderr tailBuffer
				cmd.Stderr = &stderr
				contain(cmd, filepath.Join(tmp, fmt.Sprintf("w%d", w)))
				os.Chmod(sp, 0666)
				pipe, _ := cmd.StdoutPipe()
				if err := cmd.Start(); err != nil {
					mu.Lock()
					broken = append(broken, err.Error())
					mu.Unlock()
					return
				}
				ended := false
				failsHere := 0
				stop := make(chan struct{})
				var hung atomic.Bool
				go func() {
					last, since := uint64(0), time.Now()
					for {
						select {
						case <-stop:
							return
						case <-time.After(500 * time.Millisecond):
						}
						if c := atomic.LoadUint64(st.u64(0)); c != last {
							last, since = c, time.Now()
						} else if last > 0 && time.Since(since) > HangSeconds*time.Second {
							hung.Store(true)
							cmd.Process.Kill()
							return
						} else if time.Since(since) > 600*time.Second {
							cmd.Process.Kill()
							return
						}
					}
				}()
				rd := bufio.NewScanner(pipe)
				rd.Buffer(make([]byte, 1<<20), 1<<28)
				for rd.Scan() {
					var m msg
					if json.Unmarshal(rd.Bytes(), &m) != nil {
						continue
					}
					mu.Lock()
					switch m.Type {
					case "fail":
						failsHere++
						if m.Reproduced > 0 {
							if first { // tools/mutate wants no more than the verdict
								fmt.Printf("VIOLATION property=%s\n  scope %s: %s\n  %s\n", p.ID, scopes[m.Scope].Name, m.Label, firstLines(m.Fail, 3))
								os.RemoveAll(tmp)
								os.Exit(1)
							}
							fails = append(fails, failure{m.Scope, m.Choices, m.Label, m.Fail, m.Doc, false})
						} else {
							unreproduced++
							if len(unrep) < 5 {
								unrep = append(unrep, m.Label+": "+m.Fail)
							}
						}
					case "scope":
						a := agg[m.Scope]
						a.ran += m.Ran
						a.nontrivial += m.NonTrivial
						a.reports++
						a.secs += m.Secs
						a.pruned += m.Pruned
						if m.Positions > a.positions {
							a.positions, a.nodes, a.edges, a.states, a.depth = m.Positions, m.Nodes, m.Edges, m.States, m.Depth
						}
						for _, o := range m.Outcomes {
							a.outcomes[o] = struct{}{}
						}
						if len(a.samples) < 4 {
							a.samples = append(a.samples, m.Samples...)
						}
						if !m.Done {
							a.done = false
						}
						fromScope, fromIdx = m.Scope+1, 0
					case "end":
						ended = true
					}
					mu.Unlock()
				}
				err = cmd.Wait()
				close(stop)
				if ended && err == nil {
					return
				}
				// the worker died or hung: attribute to the case in the status memory
				sc, idx, choices, ok := st.get()
				if !ok || sc >= len(scopes) {
					mu.Lock()
					broken = append(broken, fmt.Sprintf("worker %d ended without a case: %v %s", w, err, firstLines(stderr.String(), 12)))
					mu.Unlock()
					return
				}
				what := "the run was ended by a fatal error: " + firstLines(stderr.String(), 12)
				if hung.Load() {
					what = fmt.Sprintf("the case did not finish within %d s", HangSeconds)
				}
				confirmed, detail := confirm(exe, p.ID, tier, sc, choices, tmp)
				cs := safeRegenerate(scopes[sc].Gen, choices)
				mu.Lock()
				if confirmed {
					f := failure{scope: sc, choices: choices, fail: what + "\n" + detail, solo: true}
					if cs != nil {
						f.label, f.doc = cs.Label, cs.Doc
					}
					fails = append(fails, f)
					mu.Unlock()
					return // enough: the violation is reported, the rest of this share is not needed
				}
				unreproduced++
				if len(unrep) < 5 {
					unrep = append(unrep, what)
				}
				mu.Unlock()
				// alone it passed, as did the worker's positions before it
				from := 0
				if sc == fromScope {
					from = fromIdx
				}
				mu.Lock()
				for i := from; i <= idx; i++ {
					if i%n == w {
						agg[sc].ran++
					}
				}
				mu.Unlock()
				skips = append(skips, fmt.Sprintf("%d:%d", sc, idx))
				fromScope, fromIdx = sc, idx+1
				if attempt >= 5 || time.Now().After(deadline) {
					mu.Lock()
					agg[sc].done = false
					mu.Unlock()
					return
				}
			}
		}(w)
	}
	wg.Wait()

	// report
	known := loadKnown(verif, p.ID)
	sort.SliceStable(fails, func(i, j int) bool {
		if fails[i].scope != fails[j].scope {
			return fails[i].scope < fails[j].scope
		}
		return len(fails[i].doc) < len(fails[j].doc)
	})
	// every end of every tree must have been some worker's
	for i, a := range agg {
		if a.done && a.ran+a.pruned != a.positions {
			a.done = false
			broken = append(broken, fmt.Sprintf("scope %s: %d of %d positions were visited", scopes[i].Name, a.ran+a.pruned, a.positions))
		}
	}
	violations := 0
	knownHit := map[string]bool{}
	for _, f := range fails {
		key := scopes[f.scope].Name + "|" + f.label
		if what, ok := known[key]; ok {
			if !knownHit[key] {
				knownHit[key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, what)
			}
			continue
		}
		violations++
		if violations <= 5 {
			path := writeReplay(verif, p, tier, scopes[f.scope].Name, f)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			fmt.Printf("  scope %s: %s\n  %s\n", scopes[f.scope].Name, f.label, strings.ReplaceAll(firstLines(f.fail, 12), "\n", "\n  "))
		}
	}
	writeEvidence(p, tier, seed, verif, scopes, agg, violations, unreproduced, time.Since(start), len(knownHit))
	tot, nodes := 0, 0
	exhaustive := true
	for i := range agg {
		tot += agg[i].ran
		nodes += agg[i].nodes
		exhaustive = exhaustive && agg[i].done
	}
	fmt.Printf("%s %s: %d executions, %d choice-tree states, exhaustive=%v, violations=%d, unreproduced=%d, %.1fs\n", p.ID, tier, tot, nodes, exhaustive, violations, unreproduced, time.Since(start).Seconds())
	for _, u := range unrep {
		fmt.Println("  unreproduced:", firstLines(u, 4))
	}
	if len(broken) > 0 {
		fmt.Println("harness error:", strings.Join(broken, "; "))
		if violations == 0 {
			return 2
		}
	}
	if violations > 0 {
		return 1
	}
	return 0
}

func safeRegenerate(gen func(c *C) *Case, choices []int) (cs *Case) {
	defer func() { recover() }()
	return Regenerate(gen, choices)
}

// confirm runs the case alone in fresh processes; it is confirmed when it fails every time.
func confirm(exe, id, tier string, scope int, choices []int, tmp string) (bool, string) {
	var detail string
	for i := 0; i < 2; i++ {
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		cmd := exec.CommandContext(ctx, exe, "one", id, tier, strconv.Itoa(scope), vec(choices))
		var buf tailBuffer
		cmd.Stdout, cmd.Stderr = &buf, &buf
		d, _ := os.MkdirTemp(tmp, "one")
		contain(cmd, d)
		err := cmd.Run()
		timedOut := ctx.Err() != nil
		cancel()
		os.RemoveAll(d)
		if err == nil {
			return false, ""
		}
		if timedOut {
			detail = "alone in a fresh process it does not finish within 60 s either"
		} else {
			detail = "alone in a fresh process: " + err.Error() + " " + firstLines(buf.String(), 8)
		}
	}
	return true, detail
}

// contain makes the command run in a scratch directory as a user who can write nowhere else.
func contain(cmd *exec.Cmd, dir string) {
	os.MkdirAll(dir, 0755)
	os.Chmod(dir, 0755)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "MC_TMP="+dir, "TMPDIR="+dir)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if canDrop() && os.Chown(dir, Nobody, Nobody) == nil {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: Nobody, Gid: Nobody}
	}
}

// canDrop tells whether processes can be started as Nobody.
var canDrop = sync.OnceValue(func() bool {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "nop")
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: Nobody, Gid: Nobody}}
	return os.Getuid() == 0 && cmd.Run() == nil
})

// Nobody is the user cases run as.
const Nobody = 65534

func vec(choices []int) string {
	s := make([]string, len(choices))
	for i, c := range choices {
		s[i] = strconv.Itoa(c)
	}
	if len(s) == 0 {
		return "-"
	}
	return strings.Join(s, ",")
}

// ParseVec reverses vec.
func ParseVec(s string) []int {
	var out []int
	if s == "-" || s == "" {
		return out
	}
	for _, f := range strings.Split(s, ",") {
		v, err := strconv.Atoi(f)
		if err != nil {
			panic(err)
		}
		out = append(out, v)
	}
	return out
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	for i := range l {
		if len(l[i]) > 600 {
			l[i] = l[i][:600] + "..."
		}
	}
	return strings.Join(l, "\n")
}

type tailBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.b.Len() < 1<<16 {
		t.b.Write(p)
	}
	return len(p), nil
}
func (t *tailBuffer) String() string { t.mu.Lock(); defer t.mu.Unlock(); return t.b.String() }

type replay struct {
	Property, Tier, Scope, Choices, Label, Failure string
	Doc                                            []byte
	DocText                                        string
	HowTo                                          string
}

func writeReplay(verif string, p *Prop, tier, scope string, f failure) string {
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0755)
	sum := sha256.Sum256([]byte(scope + vec(f.choices)))
	path := filepath.Join(dir, p.ID+"-"+hex.EncodeToString(sum[:6])+".json")
	r := replay{p.ID, tier, scope, vec(f.choices), f.label, f.fail, f.doc, fmt.Sprintf("%q", f.doc), "bash /verif/run.sh replay " + path}
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(path, b, 0644)
	return path
}

// Replay runs a replay file once and reports whether it still fails.
func Replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	p := Registry[r.Property]
	if d := os.Getenv("MC_TMP"); d != "" {
		os.Chdir(d)
	}
	if p.Init != nil {
		p.Init()
	}
	limits()
	for _, sc := range p.Scopes(r.Tier == "thorough") {
		if sc.Name == r.Scope {
			cs := Regenerate(sc.Gen, ParseVec(r.Choices))
			fmt.Printf("property %s scope %s\n%s\ninput: %q\n", r.Property, r.Scope, cs.Label, cs.Doc)
			res := RunCase(cs)
			if res.Fail != "" {
				fmt.Println("FAILS:", res.Fail)
				return 1
			}
			fmt.Println("passes")
			return 0
		}
	}
	fmt.Println("no such scope")
	return 2
}

// One runs a single case (used to confirm fatal errors and hangs).
func One(p *Prop, thorough bool, scope int, choices []int) int {
	limits()
	if p.Init != nil {
		p.Init()
	}
	cs := Regenerate(p.Scopes(thorough)[scope].Gen, choices)
	res := RunCase(cs)
	if res.Fail != "" {
		fmt.Println(res.Fail)
		return 1
	}
	return 0
}

// loadKnown reads lines "known: property=<id> key=<scope|label> what=<text>" of known-findings.txt.
func loadKnown(verif, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+id+" key=")
		if i := strings.Index(rest, " what="); i >= 0 {
			out[rest[:i]] = rest[i+6:]
		}
	}
	return out
}

func writeEvidence(p *Prop, tier string, seed int, verif string, scopes []Scope, agg []*scopeAgg, violations, unreproduced int, wall time.Duration, known int) {
	states, trans, ran, nontriv := 0, 0, 0, 0
	outcomes := map[uint64]struct{}{}
	var samples []interface{}
	exhaustive := true
	var per []interface{}
	for i, a := range agg {
		s := a.nodes
		states += s
		trans += a.edges
		ran += a.ran
		nontriv += a.nontrivial
		for o := range a.outcomes {
			outcomes[o] = struct{}{}
		}
		exhaustive = exhaustive && a.done
		for k, x := range a.samples {
			if k < 2 {
				samples = append(samples, scopes[i].Name+": "+x)
			}
		}
		e := map[string]interface{}{"scope": scopes[i].Name, "bound": scopes[i].Bound, "choice_tree_states": a.nodes, "cases": a.positions - a.pruned, "executed_on_impl": a.ran, "pruned": a.pruned, "max_choices": a.depth, "distinct_outcomes": len(a.outcomes), "exhausted": a.done, "worker_s": float64(int(a.secs*10)) / 10}
		if a.states > 0 {
			e["distinct_model_states"] = a.states
		}
		per = append(per, e)
	}
	if len(samples) > 40 {
		samples = samples[:40]
	}
	if samples == nil {
		samples = []interface{}{"none"}
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": ran,
			"evaluations": ran, "distinct_nontrivial": nontriv,
			"rule":              "states and transitions are the nodes and edges of the exhausted choice trees of the reference model; every leaf is a distinct trace, executed on the real code and compared with the model; a trace counts as non-trivial unless its generator marks it trivial (empty input or default everywhere)",
			"distinct_outcomes": len(outcomes), "exhaustive": exhaustive, "scopes": per, "samples": samples,
			"unreproduced_failures": unreproduced, "known_findings_hit": known,
			"technique": p.Technique,
		},
		"assumptions": p.Assumptions, "wall_s": float64(int(wall.Seconds()*100)) / 100, "violations": violations,
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0644)
}
