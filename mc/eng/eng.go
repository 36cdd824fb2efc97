// Package eng is the exploration engine: every property is a list of suites, every suite a finite,
// index-addressable space of cases (inputs, histories, fault points, or thread programs whose schedules
// are explored inside the case). The parent process shards all indices over worker processes, notices
// crashes and hangs, re-runs every failure and writes evidence and replay files.
package eng

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// Suite is one finite space of cases.
type Suite struct {
	Name string
	N    int64
	Run  func(t *T, i int64)
	// Solo suites are run by a single worker (cases which are themselves expensive or share files).
	Solo bool
	// Bound describes the completed bound, for the evidence.
	Bound string
}

// Prop is a property with its suites.
type Prop struct {
	ID     string
	Level  string
	Rule   string
	Assume []string
	Suites func(tier string) []Suite
	// MemLimitMB caps the address space growth of workers (0: 8 GB)
	MemLimitMB int64
	// Workers overrides the number of worker processes
	Workers int
	// HangSec is the time after which one case counts as hanging
	HangSec int
}

var Props = map[string]*Prop{}

func Register(p *Prop) {
	if Props[p.ID] != nil {
		panic("duplicate property " + p.ID)
	}
	Props[p.ID] = p
}

// failure is thrown by T.Failf.
type failure struct{ key, msg string }

// T is given to every case.
type T struct {
	Tier       string
	states     map[uint64]struct{}
	statesCap  bool
	outcomes   map[uint64]struct{}
	Trans      int64
	Execs      int64
	Validated  int64
	Nontrivial int64
	samples    []string
	trace      []string
	Notes      map[string]int64
	Replay     bool
	Fresh      bool // running in a process made for this case alone
	capped     bool
	ntMark     bool
}

var hseed = uint64(1469598103934665603)

// Hash is a fixed 64 bit FNV-1a hash.
func Hash(s string) uint64 {
	h := hseed
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	h ^= h >> 29
	return h
}

var _ = maphash.String

const maxStates = 400000

// State records one observed state (canonical text).
func (t *T) State(s string) {
	if len(t.states) >= maxStates {
		t.statesCap = true
		return
	}
	t.states[Hash(s)] = struct{}{}
}

// StateHash records one observed state by hash.
func (t *T) StateHash(h uint64) {
	if len(t.states) >= maxStates {
		t.statesCap = true
		return
	}
	t.states[h] = struct{}{}
}

// Outcome records one distinct outcome.
func (t *T) Outcome(s string) {
	if len(t.outcomes) < 100000 {
		t.outcomes[Hash(s)] = struct{}{}
	}
}

// Nontriv marks the current case as non-trivial.
func (t *T) Nontriv() { t.ntMark = true }

// Cap notes that a bound inside a case was cut short by a budget.
func (t *T) Cap() { t.capped = true }

// Step counts n operations on the real code.
func (t *T) Step(n int) { t.Trans += int64(n) }

// Note adds to a named counter shown in the evidence.
func (t *T) Note(name string, n int64) { t.Notes[name] += n }

// Tracef appends to the description of the case, kept for replays.
func (t *T) Tracef(f string, a ...any) {
	if len(t.trace) < 4000 {
		t.trace = append(t.trace, fmt.Sprintf(f, a...))
	}
}

// Sample keeps a written-out case for the evidence.
func (t *T) Sample(f string, a ...any) {
	if len(t.samples) < 3 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		t.samples = append(t.samples, s)
	}
}

// WantSample tells whether another sample is of use.
func (t *T) WantSample() bool { return len(t.samples) < 3 }

// Failf ends the case with a violation. key identifies the failing input or history.
func (t *T) Failf(key, f string, a ...any) {
	panic(failure{key, fmt.Sprintf(f, a...)})
}

// Fail is a recorded violation.
type Fail struct {
	Suite int      `json:"suite"`
	Name  string   `json:"name"`
	Index int64    `json:"index"`
	Key   string   `json:"key"`
	Msg   string   `json:"msg"`
	Trace []string `json:"trace"`
}

type suiteStat struct {
	Cases, Execs, Trans, Validated, Nontrivial int64
	Done                                       bool
	Capped                                     bool
}

type result struct {
	Stats     []suiteStat
	Fails     []Fail
	Samples   []string
	Notes     map[string]int64
	StatesCap bool
}

func newT(tier string) *T {
	return &T{Tier: tier, states: map[uint64]struct{}{}, outcomes: map[uint64]struct{}{}, Notes: map[string]int64{}}
}

// runCase runs one case and returns its violation, if any.
func runCase(t *T, s *Suite, i int64) (f *failure) {
	t.trace = t.trace[:0]
	t.ntMark = false
	t.capped = false
	defer func() {
		if r := recover(); r != nil {
			if fl, ok := r.(failure); ok {
				f = &fl
				return
			}
			f = &failure{key: "panic", msg: fmt.Sprintf("panic: %v\n%s", r, firstFrames(debug.Stack()))}
		}
	}()
	s.Run(t, i)
	return nil
}

func firstFrames(b []byte) string {
	ls := strings.Split(string(b), "\n")
	var out []string
	for _, l := range ls {
		if strings.Contains(l, "gotext") || strings.Contains(l, "verif/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 16 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// progress area shared with the parent
type progress struct {
	mem []byte
}

func openProgress(file string) *progress {
	f, err := os.OpenFile(file, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		panic(err)
	}
	f.Truncate(32)
	m, err := syscall.Mmap(int(f.Fd()), 0, 32, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	f.Close()
	return &progress{m}
}

//go:norace
func (p *progress) set(suite int, idx int64) {
	*(*int64)(unsafe.Pointer(&p.mem[0])) = int64(suite)
	*(*int64)(unsafe.Pointer(&p.mem[8])) = idx
	*(*int64)(unsafe.Pointer(&p.mem[16]))++
}

func (p *progress) get() (suite int, idx, count int64) {
	return int(*(*int64)(unsafe.Pointer(&p.mem[0]))), *(*int64)(unsafe.Pointer(&p.mem[8])), *(*int64)(unsafe.Pointer(&p.mem[16]))
}

// Budget is the time a run may take, by tier.
func Budget(tier string) time.Duration {
	if v := os.Getenv("VERIF_BUDGET"); v != "" {
		if n, err := strconv.Atoi(v); err == nil {
			return time.Duration(n) * time.Second
		}
	}
	if tier == "thorough" {
		return 700 * time.Second
	}
	return 150 * time.Second
}

func worker(p *Prop, tier string, w, W int, dir string, start time.Time, skips map[[2]int64]bool, from [2]int64) {
	lim := p.MemLimitMB
	if lim == 0 {
		lim = 6000
	}
	debug.SetMemoryLimit(lim << 20)
	if p.MemLimitMB > 0 {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: uint64(lim) << 20, Max: uint64(lim) << 20})
	}
	t := newT(tier)
	pg := openProgress(filepath.Join(dir, fmt.Sprintf("prog.%d", w)))
	suites := p.Suites(tier)
	res := result{Stats: make([]suiteStat, len(suites)), Notes: t.Notes}
	deadline := start.Add(Budget(tier))
	recorded := map[string]bool{}
	for _, k := range loadKnown(verifDir(), p.ID) {
		recorded[k.key] = true
	}
	for si := range suites {
		s := &suites[si]
		st := &res.Stats[si]
		st.Done = true
		if s.Solo && w != si%W {
			continue
		}
		step, first := int64(W), int64(w)
		if s.Solo {
			step, first = 1, 0
		}
		nf := 0
		keys, newKeys := map[string]int{}, map[string]bool{}
		for i := first; i < s.N; i += step {
			if int64(si) < from[0] || (int64(si) == from[0] && i < from[1]) || skips[[2]int64{int64(si), i}] {
				continue
			}
			if time.Now().After(deadline) {
				st.Done = false
				break
			}
			pg.set(si, i)
			e0, tr0 := t.Execs, t.Trans
			_ = tr0
			f := runCase(t, s, i)
			st.Cases++
			if t.Execs == e0 {
				t.Execs++
			}
			if t.ntMark {
				st.Nontrivial++
			}
			if t.capped {
				st.Capped = true
			}
			if f != nil && recorded[f.key] {
				if keys[f.key]++; keys[f.key] == 1 {
					res.Fails = append(res.Fails, Fail{si, s.Name, i, f.key, f.msg, nil})
				}
				t.Note("cases of recorded findings", 1)
			} else if f != nil {
				nf++
				newKeys[f.key] = true
				// the 1st, 2nd, 4th, ... failure of each kind: earlier cases of the process may be what makes one fail
				keys[f.key]++
				if c := keys[f.key]; c&(c-1) == 0 {
					res.Fails = append(res.Fails, Fail{si, s.Name, i, f.key, f.msg, append([]string(nil), t.trace...)})
				}
				if len(newKeys) >= 12 || nf >= 200 {
					st.Done = false
					break
				}
			}
		}
		st.Execs, st.Trans, st.Validated = t.Execs, t.Trans, t.Validated
		t.Execs, t.Trans, t.Validated = 0, 0, 0
	}
	pg.set(len(suites), 0)
	res.Samples = t.samples
	res.StatesCap = t.statesCap
	b, _ := json.Marshal(res)
	os.WriteFile(filepath.Join(dir, fmt.Sprintf("res.%d.%d.%d", w, from[0], from[1])), b, 0o600)
	dump := func(name string, m map[uint64]struct{}) {
		b := make([]byte, 0, 8*len(m))
		for h := range m {
			b = binary.LittleEndian.AppendUint64(b, h)
		}
		os.WriteFile(filepath.Join(dir, fmt.Sprintf("%s.%d.%d.%d", name, w, from[0], from[1])), b, 0o600)
	}
	dump("states", t.states)
	dump("outs", t.outcomes)
}

// Known findings: lines "known: property=<id> key=<key> <text>".
type known struct{ key, text string }

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func loadKnown(verif, id string) []known {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+id+" key=")
		if !ok {
			continue
		}
		k, txt, _ := strings.Cut(rest, " ")
		out = append(out, known{k, txt})
	}
	return out
}

// Main is the entry point of the checker binaries.
func Main() {
	args := os.Args[1:]
	if len(args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: check ID | replay ID suite index")
		os.Exit(2)
	}
	p := Props[args[1]]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", args[1])
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	switch args[0] {
	case "worker":
		w, _ := strconv.Atoi(args[2])
		W, _ := strconv.Atoi(args[3])
		sec, _ := strconv.ParseInt(args[5], 10, 64)
		fs, _ := strconv.ParseInt(args[6], 10, 64)
		fi, _ := strconv.ParseInt(args[7], 10, 64)
		skips := map[[2]int64]bool{}
		for _, a := range args[8:] {
			var x [2]int64
			fmt.Sscanf(a, "%d:%d", &x[0], &x[1])
			skips[x] = true
		}
		worker(p, tier, w, W, args[4], time.UnixMilli(sec), skips, [2]int64{fs, fi})
	case "one":
		// run one case: exit 0 clean, 3 violation
		si, _ := strconv.Atoi(args[2])
		i, _ := strconv.ParseInt(args[3], 10, 64)
		if p.MemLimitMB > 0 {
			syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: uint64(p.MemLimitMB) << 20, Max: uint64(p.MemLimitMB) << 20})
		}
		suites := p.Suites(tier)
		if si >= len(suites) || i >= suites[si].N {
			fmt.Println("no such case")
			os.Exit(2)
		}
		t := newT(tier)
		t.Replay = true
		f := runCase(t, &suites[si], i)
		if f != nil {
			fmt.Printf("suite %s case %d key=%s\n%s\n", suites[si].Name, i, f.key, f.msg)
			for _, l := range t.trace {
				fmt.Println("  |", l)
			}
			os.Exit(3)
		}
		fmt.Println("case passes")
	case "history":
		// run a case after the ones a worker runs before it: exit 0 when the last one is clean, 3 when it is not
		si, _ := strconv.Atoi(args[2])
		i, _ := strconv.ParseInt(args[3], 10, 64)
		step, _ := strconv.ParseInt(args[4], 10, 64)
		back, _ := strconv.ParseInt(args[5], 10, 64)
		history(p, tier, si, i, step, back)
	case "fresh":
		// the body of a case which needs a process of its own
		for _, s := range p.Suites(tier) {
			if s.Name != args[2] {
				continue
			}
			i, _ := strconv.ParseInt(args[3], 10, 64)
			t := newT(tier)
			t.Fresh = true
			if f := runCase(t, &s, i); f != nil {
				fmt.Printf("%s\nKEY %s\n", f.msg, f.key)
				for _, l := range t.trace {
					fmt.Println("  |", l)
				}
				os.Exit(3)
			}
		}
	case "check":
		os.Exit(parent(p, tier))
	case "list":
		for i, s := range p.Suites(tier) {
			fmt.Printf("%d %s N=%d %s\n", i, s.Name, s.N, s.Bound)
		}
	default:
		os.Exit(2)
	}
}

// history runs a case after the back cases which a worker (one of step) runs before it in its process, or, when
// back is negative, after all it runs before it.
func history(p *Prop, tier string, si int, i, step, back int64) {
	if p.MemLimitMB > 0 {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: uint64(p.MemLimitMB) << 20, Max: uint64(p.MemLimitMB) << 20})
	}
	suites := p.Suites(tier)
	if si >= len(suites) || i >= suites[si].N {
		fmt.Println("no such case")
		os.Exit(2)
	}
	t := newT(tier)
	s := &suites[si]
	w, own := i%step, step
	if s.Solo {
		own = 1
	}
	from := int64(0)
	if back < 0 {
		for k := range suites[:si] {
			if suites[k].Solo {
				continue
			}
			for j := w; j < suites[k].N; j += step {
				runCase(t, &suites[k], j)
			}
		}
	} else if i > back*own {
		from = i - back*own
	}
	for j := from + (i-from)%own; j < i; j += own {
		runCase(t, s, j)
	}
	t.Replay = true
	if f := runCase(t, s, i); f != nil {
		fmt.Printf("suite %s case %d key=%s\n%s\n", s.Name, i, f.key, f.msg)
		for _, l := range t.trace {
			fmt.Println("  |", l)
		}
		os.Exit(3)
	}
	fmt.Println("case passes")
}

func parent(p *Prop, tier string) int {
	start := time.Now()
	verif := verifDir()
	exe, _ := os.Executable()
	dir, err := os.MkdirTemp("", "mc-"+p.ID+"-")
	if err != nil {
		fmt.Println("cannot make scratch:", err)
		return 2
	}
	defer os.RemoveAll(dir)
	os.Setenv("MC_SCRATCH", dir)
	W := runtime.NumCPU()
	if W > 8 {
		W = 8
	}
	if p.Workers > 0 && p.Workers < W {
		W = p.Workers
	}
	suites := p.Suites(tier)
	hang := 60 * time.Second
	if p.HangSec > 0 {
		hang = time.Duration(p.HangSec) * time.Second
	}

	var mu sync.Mutex
	var fails []Fail
	var crashed []Fail
	killedAtEnd := false
	var wg sync.WaitGroup
	for w := 0; w < W; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			pg := openProgress(filepath.Join(dir, fmt.Sprintf("prog.%d", w)))
			from := [2]int64{0, 0}
			for try := 0; try < 8; try++ {
				pg.set(0, 0)
				args := []string{"worker", p.ID, strconv.Itoa(w), strconv.Itoa(W), dir, strconv.FormatInt(start.UnixMilli(), 10), fmt.Sprint(from[0]), fmt.Sprint(from[1])}
				cmd := exec.Command(exe, args...)
				ef, _ := os.Create(filepath.Join(dir, fmt.Sprintf("err.%d.%d", w, try)))
				cmd.Stdout = ef
				cmd.Stderr = ef
				cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
				runtime.LockOSThread()
				if err := cmd.Start(); err != nil {
					fmt.Println("cannot start worker:", err)
					return
				}
				done := make(chan error, 1)
				go func() { done <- cmd.Wait() }()
				var werr error
				hung := false
				_, _, last := pg.get()
				lastT := time.Now()
			loop:
				for {
					select {
					case werr = <-done:
						break loop
					case <-time.After(200 * time.Millisecond):
						_, _, c := pg.get()
						if c != last {
							last, lastT = c, time.Now()
						} else if time.Since(lastT) > hang {
							hung = true
							syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
							werr = <-done
							break loop
						}
						if time.Since(start) > Budget(tier)+hang+20*time.Second {
							killedAtEnd = true
							syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
							<-done
							ef.Close()
							return
						}
					}
				}
				runtime.UnlockOSThread()
				ef.Close()
				si, idx, _ := pg.get()
				rf := filepath.Join(dir, fmt.Sprintf("res.%d.%d.%d", w, from[0], from[1]))
				if _, err := os.Stat(rf); err == nil && !hung {
					return // finished (a race build exits non-zero after reports)
				}
				_ = werr
				if si >= len(suites) {
					fmt.Println("worker ended without result:", werr)
					return
				}
				eb, _ := os.ReadFile(ef.Name())
				msg := tail(string(eb), 3000)
				what := "crash"
				if hung {
					what = "hang"
				}
				mu.Lock()
				crashed = append(crashed, Fail{si, suites[si].Name, idx, what, "the process ended: " + what + "\n" + msg, nil})
				mu.Unlock()
				from = [2]int64{int64(si), idx + 1}
			}
		}(w)
	}
	wg.Wait()

	// merge
	tot := result{Stats: make([]suiteStat, len(suites)), Notes: map[string]int64{}}
	for i := range tot.Stats {
		tot.Stats[i].Done = true
	}
	nres := 0
	states := map[uint64]struct{}{}
	outs := map[uint64]struct{}{}
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
		switch {
		case strings.HasPrefix(e.Name(), "res."):
			var r result
			if json.Unmarshal(b, &r) != nil {
				continue
			}
			nres++
			for i, s := range r.Stats {
				q := &tot.Stats[i]
				q.Cases += s.Cases
				q.Execs += s.Execs
				q.Trans += s.Trans
				q.Validated += s.Validated
				q.Nontrivial += s.Nontrivial
				q.Done = q.Done && s.Done
				q.Capped = q.Capped || s.Capped
			}
			fails = append(fails, r.Fails...)
			if len(tot.Samples) < 8 {
				tot.Samples = append(tot.Samples, r.Samples...)
			}
			for k, v := range r.Notes {
				tot.Notes[k] += v
			}
			tot.StatesCap = tot.StatesCap || r.StatesCap
		case strings.HasPrefix(e.Name(), "states."), strings.HasPrefix(e.Name(), "outs."):
			m := states
			if strings.HasPrefix(e.Name(), "outs.") {
				m = outs
			}
			for len(b) >= 8 {
				m[binary.LittleEndian.Uint64(b)] = struct{}{}
				b = b[8:]
			}
		}
	}
	fails = append(fails, crashed...)
	sort.SliceStable(fails, func(i, j int) bool {
		if fails[i].Suite != fails[j].Suite {
			return fails[i].Suite < fails[j].Suite
		}
		return fails[i].Index < fails[j].Index
	})

	// classify
	kn := loadKnown(verif, p.ID)
	knownSeen := map[string]bool{}
	var fresh []Fail
	for _, f := range fails {
		isKnown := false
		for _, k := range kn {
			if k.key == f.Key {
				isKnown = true
				if !knownSeen[k.key] {
					knownSeen[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.text)
				}
			}
		}
		if !isKnown {
			fresh = append(fresh, f)
		}
	}
	violations := 0
	code := 0
	report := func(f Fail, rep, more, out string) {
		rd := filepath.Join(verif, "replays")
		os.MkdirAll(rd, 0o755)
		path := filepath.Join(rd, fmt.Sprintf("%s-%s-%d.txt", p.ID, strings.NewReplacer(" ", "_", "/", "_").Replace(f.Name), f.Index))
		text := fmt.Sprintf("property: %s\nsuite: %d %s\nindex: %d\ntier: %s\nkey: %s\nreproduced: %s\nreplay with: VERIF_TIER=%s bash /verif/check.sh %s --replay %d %d%s\n\n%s\n\n%s\n",
			p.ID, f.Suite, f.Name, f.Index, tier, f.Key, rep, tier, p.ID, f.Suite, f.Index, more, f.Msg, strings.Join(f.Trace, "\n"))
		text += "\n--- re-run output\n" + out
		os.WriteFile(path, []byte(text), 0o644)
		fmt.Printf("%s case %d (%s): %s\n", f.Name, f.Index, f.Key, firstLines(f.Msg, 12))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	}
	tried := 0
	seenKey := map[string]bool{}
	for _, f := range fresh {
		if tried >= 12 || violations >= 3 || (violations > 0 && time.Since(start) > Budget(tier)/2) {
			break
		}
		if seenKey[f.Name+"/"+f.Key] && violations > 0 {
			continue
		}
		seenKey[f.Name+"/"+f.Key] = true
		tried++
		rep, n := 0, 5
		if f.Key == "hang" {
			n = 2
		}
		var out string
		for k := 0; k < n; k++ {
			bad, o := rerun(exe, hang, "one", p.ID, strconv.Itoa(f.Suite), strconv.FormatInt(f.Index, 10))
			if bad {
				rep++
				out = o
			}
			if strings.HasPrefix(o, "hang:") && n > 2 {
				n = 2 // each takes long
			}
		}
		if rep == 0 {
			fmt.Printf("note: %s case %d (%s) did not reproduce in %d re-runs, not reported: %s\n", f.Name, f.Index, f.Key, n, firstLine(f.Msg))
			continue
		}
		violations++
		code = 1
		report(f, fmt.Sprintf("%d of %d re-runs", rep, n), "", out)
	}
	if violations == 0 {
		// a case may fail only after other ones in the same process: run those again before it
		tries := 0
		limit := time.Now().Add(120 * time.Second)
	search:
		for _, f := range fresh {
			if tries++; tries > 4 || f.Key == "hang" {
				break
			}
			for _, back := range []int64{8, 64, 512, 4096, 1 << 40, -1} {
				left := time.Until(limit)
				if left <= 0 {
					break search
				}
				a := []string{"history", p.ID, strconv.Itoa(f.Suite), strconv.FormatInt(f.Index, 10), strconv.Itoa(W), strconv.FormatInt(back, 10)}
				// a run which takes too long says nothing
				bad, o := rerun(exe, left, a...)
				if !bad || strings.HasPrefix(o, "hang:") {
					continue
				}
				if again, o2 := rerun(exe, left, a...); !again || strings.HasPrefix(o2, "hang:") {
					continue
				}
				violations++
				code = 1
				how := "all cases before it"
				if back >= 0 {
					how = fmt.Sprintf("up to %d cases before it", back)
				}
				f.Msg = fmt.Sprintf("after %s in the same process (every %d.): %s", how, W, f.Msg)
				report(f, "2 of 2 re-runs after the same cases", fmt.Sprintf(" %d %d", W, back), o)
				break search
			}
			fmt.Printf("note: %s case %d (%s) did not reproduce after the cases before it either\n", f.Name, f.Index, f.Key)
		}
	}

	// evidence
	var execs, trans, valid, nontriv, cases int64
	exhaustive := !killedAtEnd && nres > 0
	var sl []map[string]any
	for i, s := range suites {
		st := tot.Stats[i]
		execs += st.Execs
		trans += st.Trans
		valid += st.Validated
		nontriv += st.Nontrivial
		cases += st.Cases
		complete := st.Done && !st.Capped && st.Cases == s.N
		if !complete {
			exhaustive = false
		}
		sl = append(sl, map[string]any{"suite": s.Name, "cases": st.Cases, "of": s.N, "executions": st.Execs, "transitions": st.Trans, "bound": s.Bound, "complete": complete})
	}
	if nres == 0 {
		fmt.Println("no worker finished")
		if code == 0 {
			code = 2
		}
	}
	cov := map[string]any{
		"samples": tot.Samples, "suites": sl, "exhaustive": exhaustive, "rule": p.Rule, "distinct_outcomes": len(outs),
		"states_capped": tot.StatesCap,
	}
	for k, v := range tot.Notes {
		cov[k] = v
	}
	if p.Level == "model_checking" {
		cov["states"] = len(states)
		cov["transitions"] = trans
		cov["traces_validated_against_impl"] = execs
		cov["cases"] = cases
	} else {
		cov["evaluations"] = execs
		cov["distinct_nontrivial"] = min64(nontriv, int64(len(states)))
		cov["distinct_observations"] = len(states)
		cov["operations"] = trans
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{"property": p.ID, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov,
		"assumptions": p.Assume, "wall_s": time.Since(start).Seconds(), "violations": violations}
	if p.Assume == nil {
		delete(ev, "assumptions")
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	fmt.Printf("%s %s: cases=%d executions=%d transitions=%d states=%d outcomes=%d nontrivial=%d exhaustive=%v known=%d violations=%d wall=%.1fs\n",
		p.ID, tier, cases, execs, trans, len(states), len(outs), nontriv, exhaustive, len(knownSeen), violations, time.Since(start).Seconds())
	if os.Getenv("VERIF_VERBOSE") != "" {
		for _, s := range sl {
			b, _ := json.Marshal(s)
			fmt.Println("  ", string(b))
		}
		b, _ := json.Marshal(tot.Notes)
		fmt.Println("  ", string(b))
	}
	return code
}

func rerun(exe string, hang time.Duration, args ...string) (bool, string) {
	cmd := exec.Command(exe, args...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var out strings.Builder
	cmd.Stdout = &out
	cmd.Stderr = &out
	if cmd.Start() != nil {
		return false, ""
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err == nil {
			return false, ""
		}
		// any other end than a clean one: a violation, a crash, or an exit from within the code under test
		if _, ok := err.(*exec.ExitError); ok && !strings.HasPrefix(out.String(), "no such case") {
			return true, tail(out.String(), 6000)
		}
		return false, ""
	case <-time.After(hang):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		return true, "hang: no result within " + hang.String() + "\n" + tail(out.String(), 4000)
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		// the head of a Go crash report says most
		return s[:n]
	}
	return s
}
func firstLine(s string) string {
	s, _, _ = strings.Cut(s, "\n")
	return s
}
func firstLines(s string, n int) string {
	ls := strings.SplitN(s, "\n", n+1)
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}
func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// Digits decodes i in mixed radix (least significant digit last in the result order given).
func Digits(i int64, radix ...int) []int {
	d := make([]int, len(radix))
	for k := len(radix) - 1; k >= 0; k-- {
		d[k] = int(i % int64(radix[k]))
		i /= int64(radix[k])
	}
	return d
}

// Prod multiplies.
func Prod(radix ...int) int64 {
	p := int64(1)
	for _, r := range radix {
		p *= int64(r)
	}
	return p
}

// SeqCount is the number of sequences over n letters of length 1..d, SeqAt decodes the i-th, shortest first.
func SeqCount(n, d int) int64 {
	var t int64
	p := int64(1)
	for k := 1; k <= d; k++ {
		p *= int64(n)
		t += p
	}
	return t
}
func SeqAt(i int64, n int) []int {
	l := 1
	p := int64(n)
	for i >= p {
		i -= p
		p *= int64(n)
		l++
	}
	s := make([]int, l)
	for k := l - 1; k >= 0; k-- {
		s[k] = int(i % int64(n))
		i /= int64(n)
	}
	return s
}
