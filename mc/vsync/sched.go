// Package vsync stands in for package sync in the code under test. Outside a controlled execution it is
// package sync. In a controlled execution every acquiring operation of a registered goroutine is a point at
// which the schedule decides who goes on; all registered goroutines run one at a time. The real primitives
// of package sync are still used (never blocking), so that the race detector sees the happens-before edges
// of the code under test and no others: the hand-over between goroutines is invisible to it.
package vsync

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"unsafe"
)

func getg() uintptr

const (
	maxT   = 8
	maxObj = 1024
	maxPts = 20000
)

type kind int8

const (
	kNone kind = iota
	kStart
	kEnd
	kLock  // mutex
	kRLock // read lock
	kAnn   // a writer announces itself, keeping new readers out
	kAcq   // the announced writer gets the lock
	kWrite // any other modifying operation
	kRead  // any other reading operation
	kOnce
	kCond
)

var kindName = []string{"-", "start of operation", "end of operation", "Lock", "RLock", "Lock (announce)", "Lock (acquire)", "write", "read", "Once.Do", "Cond.Wait"}

// model is the state of a primitive as the schedule sees it.
type model struct {
	w, pend, r int32
	exec       int64 // execution the object id belongs to
	id         int32
}

type thread struct {
	g     uintptr
	state int8 // 1 waiting at a point, 2 running, 3 done
	kind  kind
	obj   int32
	m     *model
	woken bool
}

type point struct {
	enabled, sleep uint16
	chosen         int8
	kinds          [maxT]kind
	objs           [maxT]int32
}

// the execution going on
var (
	active   bool
	execID   int64
	threads  [maxT]thread
	nthreads int
	nreg     int
	cur      int // whose turn it is, -1: nobody's
	pts      [maxPts]point
	npts     int
	prefix   [maxPts]int8
	nprefix  int
	sleepAt  uint16 // sleep set just after the prefix
	curSleep uint16
	pruned   bool // the rest of this execution was explored before
	deadlock bool
	aborted  bool
	overflow bool
	diverged bool
	nobj     int32
	decided  int
	last     int
	clock    int
)

//go:norace
func self() *thread {
	if !active {
		return nil
	}
	g := getg()
	for i := 0; i < nthreads; i++ {
		if threads[i].g == g && threads[i].state != 3 {
			return &threads[i]
		}
	}
	return nil
}

//go:norace
func (m *model) object() int32 {
	if m == nil {
		return 0
	}
	if m.exec != execID {
		m.exec = execID
		nobj++
		m.id = nobj
	}
	return m.id
}

//go:norace
func (t *thread) enabled() bool {
	if t.state != 1 {
		return false
	}
	switch t.kind {
	case kLock, kOnce:
		return t.m.w == 0
	case kAnn, kRLock:
		return t.m.w == 0 && t.m.pend == 0
	case kAcq:
		return t.m.r == 0
	case kCond:
		return t.woken
	}
	return true
}

// dependent tells whether the order of two pending operations of different goroutines can matter.
//
//go:norace
func dependent(k1 kind, o1 int32, k2 kind, o2 int32) bool {
	if k1 == kStart || k1 == kEnd || k2 == kStart || k2 == kEnd {
		return k1 == kStart && k2 == kEnd || k1 == kEnd && k2 == kStart
	}
	if o1 != o2 {
		return false
	}
	if (k1 == kRLock || k1 == kRead) && (k2 == kRLock || k2 == kRead) {
		return false
	}
	return true
}

// filter keeps the sleeping goroutines whose next operation does not depend on that of the chosen one.
//
//go:norace
func filter(p *point, sleep uint16, chosen int) uint16 {
	var out uint16
	for u := 0; u < maxT; u++ {
		if sleep>>u&1 == 1 && u != chosen && !dependent(p.kinds[u], p.objs[u], p.kinds[chosen], p.objs[chosen]) {
			out |= 1 << u
		}
	}
	return out
}

// decide picks who goes on; called by the goroutine whose turn it is (or by the starter).
//
//go:norace
func decide() {
	var en uint16
	alive := false
	for i := 0; i < nthreads; i++ {
		if threads[i].state != 3 {
			alive = true
		}
		if threads[i].enabled() {
			en |= 1 << i
		}
	}
	if !alive {
		cur = -1
		return
	}
	if en == 0 {
		deadlock = true
		aborted = true
		cur = -1
		return
	}
	ch := -1
	if pruned || overflow {
		for i := 0; i < nthreads; i++ {
			if en>>i&1 == 1 {
				ch = i
				break
			}
		}
		decided++
		if decided > 50*maxPts { // does not come to an end
			deadlock = true
			aborted = true
			cur = -1
			return
		}
	} else if npts >= maxPts {
		overflow = true
		for i := 0; i < nthreads; i++ {
			if en>>i&1 == 1 {
				ch = i
				break
			}
		}
	} else {
		p := &pts[npts]
		p.enabled = en
		for i := 0; i < maxT; i++ {
			if i < nthreads && threads[i].state == 1 {
				p.kinds[i], p.objs[i] = threads[i].kind, threads[i].obj
			} else {
				p.kinds[i], p.objs[i] = kNone, -1
			}
		}
		if npts < nprefix {
			ch = int(prefix[npts])
			if en>>ch&1 == 0 {
				diverged = true
				pruned = true
				for i := 0; i < nthreads; i++ {
					if en>>i&1 == 1 {
						ch = i
						break
					}
				}
			}
			if npts == nprefix-1 {
				curSleep = sleepAt
			}
			p.chosen = int8(ch)
			npts++
		} else {
			p.sleep = curSleep
			can := en &^ curSleep
			if can == 0 {
				pruned = true
				for i := 0; i < nthreads; i++ {
					if en>>i&1 == 1 {
						ch = i
						break
					}
				}
			} else {
				if last >= 0 && can>>last&1 == 1 {
					ch = last
				} else {
					for i := 0; i < nthreads; i++ {
						if can>>i&1 == 1 {
							ch = i
							break
						}
					}
				}
				p.chosen = int8(ch)
				curSleep = filter(p, curSleep, ch)
				npts++
			}
		}
	}
	last = ch
	cur = ch
}

// pass is a point of the calling goroutine. It reports whether the goroutine is under control, and returns
// when it is its turn. The effect on the model is applied before anybody else runs.
//
//go:norace
func pass(k kind, m *model) *thread {
	t := self()
	if t == nil {
		return nil
	}
	if aborted {
		runtime.Goexit()
	}
	t.kind, t.m, t.obj = k, m, m.object()
	t.state = 1
	decide()
	me := int((uintptr(unsafe.Pointer(t)) - uintptr(unsafe.Pointer(&threads[0]))) / unsafe.Sizeof(thread{}))
	await(me)
	t.state = 2
	switch k {
	case kLock, kOnce:
		m.w = 1
	case kRLock:
		m.r++
	case kAnn:
		m.pend = 1
	case kAcq:
		m.pend = 0
		m.w = 1
	case kCond:
		t.woken = false
	}
	return t
}

//go:norace
func await(me int) {
	for cur != me {
		if aborted {
			runtime.Goexit()
		}
		runtime.Gosched()
	}
}

// Mark is the start or end of an operation; it gives the moment it happened.
func Mark(start bool) int {
	if start {
		pass(kStart, nil)
	} else {
		pass(kEnd, nil)
	}
	return tick()
}

//go:norace
func tick() int {
	clock++
	return clock
}

// Tick is the moment of the first operation of a goroutine, which starts when the goroutine first runs.
func Tick() int { return tick() }

//go:norace
func register(i int) {
	threads[i].g = getg()
	threads[i].kind, threads[i].m, threads[i].obj = kStart, nil, 0
	threads[i].state = 1
	nreg++
}

//go:norace
func finish(i int) {
	if aborted {
		threads[i].state = 3
		return
	}
	threads[i].state = 3
	threads[i].kind, threads[i].m = kNone, nil
	decide()
}

//go:norace
func begin(n int) {
	execID++
	nthreads, nreg, npts, cur, last = n, 0, 0, -1, -1
	pruned, deadlock, aborted, overflow, diverged = false, false, false, false, false
	nobj, decided, clock = 0, 0, 0
	curSleep = 0
	for i := range threads {
		threads[i] = thread{}
	}
	active = true
}

//go:norace
func allRegistered(n int) bool { return nreg == n }

//go:norace
func end() {
	active = false
	// objects which outlive the execution keep no model state of an aborted one
}

// Outcome of one execution.
type Outcome struct {
	Pruned, Deadlock, Overflow, Diverged bool
	Races                                int
	Panics                               []string // by thread, "" for none
	Points                               int
	Stuck                                string
}

// run executes the bodies once under the current prefix.
func run(bodies []func()) Outcome {
	n := len(bodies)
	before := Races()
	begin(n)
	panics := make([]string, n)
	var wg sync.WaitGroup
	for i, f := range bodies {
		wg.Add(1)
		go func() {
			defer wg.Done()
			register(i)
			await(i)
			body(i, f, &panics[i])
		}()
	}
	for !allRegistered(n) {
		runtime.Gosched()
	}
	kick()
	wg.Wait()
	stuck := describeStuck()
	end()
	return Outcome{Pruned: pruned, Deadlock: deadlock, Overflow: overflow, Diverged: diverged, Races: Races() - before, Panics: panics, Points: npts, Stuck: stuck}
}

//go:norace
func kick() { decide() }

func body(i int, f func(), p *string) {
	defer finish(i)
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 8192)
			buf = buf[:runtime.Stack(buf, false)]
			var keep []string
			for _, l := range strings.Split(string(buf), "\n") {
				if strings.Contains(l, "gotext") {
					keep = append(keep, strings.TrimSpace(l))
				}
			}
			*p = fmt.Sprintf("%v\n%s", r, strings.Join(keep, "\n"))
		}
	}()
	setRunning(i)
	f()
}

//go:norace
func setRunning(i int) { threads[i].state = 2 }

//go:norace
func describeStuck() string {
	if !deadlock {
		return ""
	}
	s := ""
	for i := 0; i < nthreads; i++ {
		if threads[i].g != 0 && threads[i].kind != kNone && threads[i].m != nil {
			s += fmt.Sprintf("goroutine %d waits at %s of object %d (writer %d, announced %d, readers %d); ", i, kindName[threads[i].kind], threads[i].obj, threads[i].m.w, threads[i].m.pend, threads[i].m.r)
		}
	}
	return s
}

// node of the search
type node struct {
	p    point
	done uint16
}

// Schedule describes an execution's choices.
func Schedule() string {
	var b strings.Builder
	for i := 0; i < npts; i++ {
		p := &pts[i]
		c := p.chosen
		fmt.Fprintf(&b, "%d:%s", c, kindName[p.kinds[c]])
		if p.objs[c] > 0 {
			fmt.Fprintf(&b, " #%d", p.objs[c])
		}
		b.WriteString("; ")
	}
	return b.String()
}

// Explore runs every execution of the program (up to the order of independent operations). prog makes the
// bodies of a fresh instance, check judges an execution after it has come to an end; it returns false to stop.
// The number of executions, of those cut because they were explored before, and whether all were explored
// are returned.
func Explore(max int64, prog func() []func(), check func(o Outcome) bool) (execs, cut int64, complete bool) {
	return explore(max, prog, check)
}

//go:norace
func setPrefix(nodes []node, choice int, sleep uint16) {
	for i := range nodes {
		prefix[i] = nodes[i].p.chosen
	}
	if len(nodes) > 0 {
		prefix[len(nodes)-1] = int8(choice)
	}
	nprefix = len(nodes)
	sleepAt = sleep
}

//go:norace
func takeNodes(nodes []node) []node {
	for i := range nodes {
		if i < npts && (pts[i].enabled != nodes[i].p.enabled || pts[i].kinds != nodes[i].p.kinds || pts[i].objs != nodes[i].p.objs) {
			diverged = true
		}
	}
	for i := len(nodes); i < npts; i++ {
		nodes = append(nodes, node{p: pts[i]})
	}
	return nodes
}

func explore(max int64, prog func() []func(), check func(o Outcome) bool) (execs, cut int64, complete bool) {
	var nodes []node
	setPrefix(nil, 0, 0)
	for {
		bodies := prog()
		o := run(bodies)
		execs++
		if o.Pruned {
			cut++
		}
		if !check(o) {
			return execs, cut, false
		}
		nodes = takeNodes(nodes)
		if isDiverged() {
			return execs, cut, false
		}
		// next branch
		for len(nodes) > 0 {
			nd := &nodes[len(nodes)-1]
			nd.done |= 1 << nd.p.chosen
			can := nd.p.enabled &^ nd.done &^ nd.p.sleep
			if can == 0 {
				nodes = nodes[:len(nodes)-1]
				continue
			}
			t := 0
			for can>>t&1 == 0 {
				t++
			}
			sl := filter(&nd.p, nd.p.sleep|nd.done, t)
			nd.p.chosen = int8(t)
			setPrefix(nodes, t, sl)
			break
		}
		if len(nodes) == 0 {
			return execs, cut, true
		}
		if execs >= max {
			return execs, cut, false
		}
	}
}

//go:norace
func isDiverged() bool { return diverged }

var resets []func()

// RegisterReset is called by instrumented packages: f puts the package variables back to their initial values.
func RegisterReset(f func()) { resets = append(resets, f) }

// ResetPackages puts the variables of all instrumented packages back. It reports whether there are any.
func ResetPackages() bool {
	for _, f := range resets {
		f()
	}
	return len(resets) > 0
}

// Instrumented tells whether the code under test was built to be controlled.
func Instrumented() bool { return len(resets) > 0 && os.Getenv("VERIF_UNCONTROLLED") == "" }
