// Package conc explores the schedules of concurrent uses of the real library.
package conc

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"

	"verif/eng"
	"verif/vmap"
	"verif/vsync"
)

func init() {
	vmap.SetMode(vmap.Sorted)
}

// Res gives the result of an operation once everything has come to an end.
type Res func() string

func str(s string) Res { return func() string { return s } }
func boolean(b bool) Res {
	if b {
		return str("true")
	}
	return str("false")
}

// Op is an operation on an instance X.
type Op[X any] struct {
	Name string
	Do   func(x X) Res
	// Ref are the atomic steps the operation may consist of; nil: it is atomic. The last one gives the result.
	Ref []func(x X, mem *string) Res
	// Split are the steps in a program in which some operation edits what a lookup finds in its first steps; nil: Ref
	Split []func(x X, mem *string) Res
	Edits bool // such an edit
	// Write tells an operation which changes something (to choose programs by)
	Write bool
}

// Prog is a concurrent program: threads of operations on a fresh instance.
type Prog[X any] struct {
	Name    string
	New     func() X
	Final   func(x X) string
	Threads [][]*Op[X]
}

func (p *Prog[X]) String() string {
	var ts []string
	for _, t := range p.Threads {
		var ns []string
		for _, o := range t {
			ns = append(ns, o.Name)
		}
		ts = append(ts, strings.Join(ns, "; "))
	}
	return p.Name + ": " + strings.Join(ts, " || ")
}

type refOrder struct {
	before [8]uint16 // before[a] bit b: operation a ended before operation b began
}

// references runs the operations in every sequential order.
func (p *Prog[X]) references() map[string][]refOrder {
	out := map[string][]refOrder{}
	type stepRef struct{ thread, op, step int }
	nt := len(p.Threads)
	// flatten
	edits := false
	for _, t := range p.Threads {
		for _, o := range t {
			edits = edits || o.Edits
		}
	}
	stepsOf := func(o *Op[X]) []func(x X, mem *string) Res {
		if edits && o.Split != nil {
			return o.Split
		}
		return o.Ref
	}
	var steps [][]stepRef
	id := 0
	ids := make([][]int, nt)
	for ti, t := range p.Threads {
		var l []stepRef
		for oi, o := range t {
			n := len(stepsOf(o))
			if n == 0 {
				n = 1
			}
			for s := 0; s < n; s++ {
				l = append(l, stepRef{ti, oi, s})
			}
			ids[ti] = append(ids[ti], id)
			id++
		}
		steps = append(steps, l)
	}
	total := id
	var order []int
	pos := make([]int, nt)
	var rec func()
	rec = func() {
		done := true
		for ti := range steps {
			if pos[ti] < len(steps[ti]) {
				done = false
				pos[ti]++
				order = append(order, ti)
				rec()
				order = order[:len(order)-1]
				pos[ti]--
			}
		}
		if !done {
			return
		}
		x := p.New()
		res := make([]Res, total)
		mem := make([]string, total)
		first, lastT := make([]int, total), make([]int, total)
		at := make([]int, nt)
		for tm, ti := range order {
			s := steps[ti][at[ti]]
			at[ti]++
			o := p.Threads[ti][s.op]
			k := ids[ti][s.op]
			if s.step == 0 {
				first[k] = tm
			}
			lastT[k] = tm
			if stepsOf(o) == nil {
				res[k] = o.Do(x)
			} else {
				res[k] = stepsOf(o)[s.step](x, &mem[k])
			}
		}
		var r refOrder
		for a := 0; a < total; a++ {
			for b := 0; b < total; b++ {
				if a != b && lastT[a] < first[b] {
					r.before[a] |= 1 << b
				}
			}
		}
		k := p.outcome(x, res)
		out[k] = append(out[k], r)
	}
	rec()
	return out
}

func (p *Prog[X]) outcome(x X, res []Res) string {
	var b strings.Builder
	i := 0
	for ti, t := range p.Threads {
		for _, o := range t {
			r := "(no result)"
			if res[i] != nil {
				r = res[i]()
			}
			if i > 0 {
				b.WriteString("\n\x00")
			}
			fmt.Fprintf(&b, "[%d] %s = %s", ti, o.Name, r)
			i++
		}
	}
	if p.Final != nil {
		b.WriteString("\n\x00finally " + p.Final(x))
	}
	return b.String()
}

// Judge of the results of one execution.
type Judge[X any] func(t *eng.T, p *Prog[X], x X, res []Res, rt refOrder, sched string)

// raceLog is the text of the last report of the race detector.
func raceLog() string {
	for _, kv := range strings.Fields(os.Getenv("GORACE")) {
		if f, ok := strings.CutPrefix(kv, "log_path="); ok {
			b, err := os.ReadFile(fmt.Sprintf("%s.%d", f, os.Getpid()))
			if err != nil {
				return ""
			}
			s := string(b)
			if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
				s = s[i:]
			}
			var keep []string
			for _, l := range strings.Split(s, "\n") {
				if strings.Contains(l, "RACE") || strings.Contains(l, " by ") || strings.Contains(l, "gotext") {
					keep = append(keep, l)
				}
				if len(keep) > 30 {
					break
				}
			}
			return strings.Join(keep, "\n")
		}
	}
	return ""
}

// Explore runs all schedules of the program.
func Explore[X any](t *eng.T, p *Prog[X], max int64, judge Judge[X]) {
	if !vsync.Instrumented() || !vsync.RaceBuild {
		panic("built without instrumentation")
	}
	runtime.GOMAXPROCS(1)
	total := 0
	for _, th := range p.Threads {
		total += len(th)
	}
	var x X
	var res []Res
	var starts, ends []int
	t.Tracef("%s", p)
	prog := func() []func() {
		x = p.New()
		res = make([]Res, total)
		starts, ends = make([]int, total), make([]int, total)
		var bodies []func()
		id := 0
		for _, th := range p.Threads {
			base := id
			id += len(th)
			x := x
			// slots of their own, so that the goroutines share nothing but the instance
			res, starts, ends := res[base:id:id], starts[base:id:id], ends[base:id:id]
			bodies = append(bodies, func() {
				for i, o := range th {
					if i == 0 {
						starts[i] = vsync.Tick()
					} else {
						starts[i] = vsync.Mark(true)
					}
					res[i] = o.Do(x)
					ends[i] = vsync.Mark(false)
				}
			})
		}
		return bodies
	}
	execs, cut, complete := vsync.Explore(max, prog, func(o vsync.Outcome) bool {
		t.Step(o.Points)
		for i, pn := range o.Panics {
			if pn != "" {
				t.Failf("panic "+p.String(), "%s\npanic in goroutine %d: %s\nschedule: %s", p, i, pn, vsync.Schedule())
			}
		}
		if o.Races > 0 {
			t.Failf("race "+p.String(), "%s\ndata race\n%s\nschedule: %s", p, raceLog(), vsync.Schedule())
		}
		if o.Deadlock {
			t.Failf("deadlock "+p.String(), "%s\ndeadlock: %s\nschedule: %s", p, o.Stuck, vsync.Schedule())
		}
		if o.Overflow {
			t.Failf("livelock "+p.String(), "%s\ndoes not come to an end\nschedule: %.2000s", p, vsync.Schedule())
		}
		if o.Pruned || judge == nil {
			return true
		}
		var rt refOrder
		for a := 0; a < total; a++ {
			for b := 0; b < total; b++ {
				if a != b && ends[a] < starts[b] {
					rt.before[a] |= 1 << b
				}
			}
		}
		judge(t, p, x, res, rt, vsync.Schedule())
		return true
	})
	t.Execs += execs
	t.Note("schedules cut short as equivalent to an explored one", cut)
	if !complete {
		t.Cap()
		t.Note("programs not explored to the end", 1)
	}
	if execs > 1 {
		t.Nontriv()
	}
}

// Atomic judges by all sequential orders.
func Atomic[X any](p *Prog[X]) Judge[X] {
	refs := p.references()
	return func(t *eng.T, p *Prog[X], x X, res []Res, rt refOrder, sched string) {
		got := p.outcome(x, res)
		t.State(p.String() + got)
		t.Validated++
		for _, r := range refs[got] {
			ok := true
			for a := range rt.before {
				if rt.before[a]&^r.before[a] != 0 {
					ok = false
				}
			}
			if ok {
				return
			}
		}
		var all []string
		for k, rs := range refs {
			if len(rs) > 0 {
				all = append(all, k)
			}
		}
		sort.Strings(all)
		d := ""
		if len(all) > 0 {
			d = strings.Join(all, "\n--- or\n")
		}
		t.Failf("atomicity "+p.String(), "%s\nno sequential order gives\n%s\nthe orders give\n%s\nschedule: %s", p, clip(got, 3000), clip(d, 5000), sched)
	}
}

func clip(s string, n int) string {
	s = strings.ReplaceAll(s, "\x00", "")
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Observe judges nothing but collects what was reached.
func Observe[X any](t *eng.T, p *Prog[X], x X, res []Res, rt refOrder, sched string) {
	t.State(p.String() + p.outcome(x, res))
}
