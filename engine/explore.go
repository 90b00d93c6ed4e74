package main

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// workItem is one input region of one harness still to be executed.
type workItem struct {
	h  int
	it item
}

type harnessState struct {
	name     string
	fn       *ssa.Function
	queue    []item
	active   int
	paths    int64
	asserts  int64
	trivial  int64
	branches int64
	steps    int64
	infeas   int64
	labels   map[string]int64
	covers   map[string]bool
	inconcl  map[string]int
	inconEx  map[string]Model
	fails    map[string][]failure
	nfails   map[string]int
	samples  []witness
	unsup    []witness
	started  bool
	done     bool
	secs     float64
}

type witness struct {
	H     string
	Model Model
	Obs   []obs
}

// Explorer runs the harnesses of one property over a pool of workers.
type Explorer struct {
	P        *Program
	hs       []*harnessState
	mu       sync.Mutex
	cond     *sync.Cond
	deadline time.Time
	tier     int
	nworkers int
	timeout  int
	rng      *rand.Rand
	stats    SolverStats
	domain   int64
	cached   int64
	usedFns  map[*ssa.Function]bool
	usedIntr map[string]bool
	maxItems int
	sampleN  int
	stop     bool
}

func newExplorer(P *Program, names []string, hs map[string]*ssa.Function, tier, nworkers, timeoutMs int, budget time.Duration, seed int64) *Explorer {
	e := &Explorer{P: P, tier: tier, nworkers: nworkers, timeout: timeoutMs, deadline: time.Now().Add(budget),
		rng: rand.New(rand.NewSource(seed)), usedFns: map[*ssa.Function]bool{}, usedIntr: map[string]bool{}, sampleN: 60}
	e.cond = sync.NewCond(&e.mu)
	for _, n := range names {
		e.hs = append(e.hs, &harnessState{name: n, fn: hs[n], queue: []item{{model: Model{}}}, labels: map[string]int64{},
			covers: map[string]bool{}, inconcl: map[string]int{}, inconEx: map[string]Model{}, fails: map[string][]failure{}, nfails: map[string]int{}})
	}
	return e
}

// lateAt is when exploration ends; hurried is set once there is a counterexample.
var (
	lateAt  atomic.Int64
	hurried atomic.Bool
)

func late() bool {
	t := lateAt.Load()
	return t != 0 && time.Now().UnixNano() > t
}

// next hands out work, spreading the workers over the harnesses so that none
// starves when the time is short.
func (e *Explorer) next() (*harnessState, item, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop || late() {
			return nil, item{}, false
		}
		var best *harnessState
		active := 0
		for _, h := range e.hs {
			active += h.active
			if len(h.queue) == 0 {
				continue
			}
			if best == nil || h.secs/float64(1) < best.secs {
				best = h
			}
		}
		if best != nil {
			n := len(best.queue)
			k := n - 1
			if e.rng.Intn(4) == 0 {
				k = e.rng.Intn(n)
			}
			it := best.queue[k]
			best.queue[k] = best.queue[n-1]
			best.queue = best.queue[:n-1]
			best.active++
			return best, it, true
		}
		if active == 0 {
			e.cond.Broadcast()
			return nil, item{}, false
		}
		e.cond.Wait()
	}
}

func (e *Explorer) finish(h *harnessState, p *Path, d time.Duration, in *Interp) {
	e.mu.Lock()
	defer e.mu.Unlock()
	h.active--
	h.secs += d.Seconds()
	h.queue = append(h.queue, p.children...)
	h.asserts += p.asserts
	h.trivial += p.trivial
	h.branches += int64(p.branches)
	h.steps += p.steps
	if p.assumed {
		h.infeas++
	} else {
		h.paths++
	}
	for c := range p.covers {
		h.covers[c] = true
	}
	for _, m := range p.inconcl {
		h.inconcl[m]++
		if _, ok := h.inconEx[m]; !ok {
			h.inconEx[m] = p.final
		}
		if len(h.unsup) < 200 {
			h.unsup = append(h.unsup, witness{H: h.name, Model: p.final})
		}
	}
	if len(p.fails) > 0 && !hurried.Swap(true) {
		// a counterexample: what remains need not take long any more
		if t := time.Now().Add(45 * time.Second); t.Before(e.deadline) {
			e.deadline = t
			lateAt.Store(t.UnixNano())
			time.AfterFunc(time.Until(t)+10*time.Millisecond, func() { e.cond.Broadcast() })
		}
	}
	for _, f := range p.fails {
		h.nfails[f.Label]++
		if len(h.fails[f.Label]) < 12 {
			h.fails[f.Label] = append(h.fails[f.Label], f)
		} else if k := e.rng.Intn(h.nfails[f.Label]); k < 12 && k > 3 {
			h.fails[f.Label][k] = f
		}
	}
	if len(p.fails) == 0 && len(p.inconcl) == 0 && !p.assumed {
		w := witness{H: h.name, Model: p.final, Obs: p.obs}
		if len(h.samples) < e.sampleN {
			h.samples = append(h.samples, w)
		} else if k := e.rng.Intn(int(h.paths)); k < e.sampleN {
			h.samples[k] = w
		}
	}
	e.cond.Broadcast()
}

func (e *Explorer) worker() {
	in := newInterp(e.P, e.timeout)
	in.tier = e.tier
	defer in.s.close()
	for {
		h, it, ok := e.next()
		if !ok {
			break
		}
		t0 := time.Now()
		p := in.runPath(h.fn, it)
		if debugFlag {
			fmt.Fprintf(os.Stderr, "%s path depth=%d branches=%d children=%d fails=%d inconcl=%v %v model=%v\n", h.name, it.depth, p.branches, len(p.children), len(p.fails), p.inconcl, time.Since(t0).Round(time.Microsecond), showModel(p.final))
		}
		e.finish(h, p, time.Since(t0), in)
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	e.stats.Queries += in.s.stats.Queries
	e.stats.Sat += in.s.stats.Sat
	e.stats.Unsat += in.s.stats.Unsat
	e.stats.Unknown += in.s.stats.Unknown
	e.stats.Fallback += in.s.stats.Fallback
	e.stats.Errors += in.s.stats.Errors
	e.stats.Time += in.s.stats.Time
	e.domain += in.stats.domain
	e.cached += in.stats.cached
	for f := range in.usedFns {
		e.usedFns[f] = true
	}
	for f := range in.usedIntr {
		e.usedIntr[f] = true
	}
	for l, n := range in.stats.assertsByLabel {
		_ = l
		_ = n
	}
	e.cond.Broadcast()
}

func (e *Explorer) run() {
	lateAt.Store(e.deadline.UnixNano())
	// wake the waiting workers when the time is up
	tm := time.AfterFunc(time.Until(e.deadline)+10*time.Millisecond, func() { e.cond.Broadcast() })
	defer tm.Stop()
	var wg sync.WaitGroup
	for i := 0; i < e.nworkers; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); e.worker() }()
	}
	wg.Wait()
}

func (h *harnessState) exhausted() bool {
	return len(h.queue) == 0 && h.active == 0 && len(h.inconcl) == 0
}

func showModel(m Model) string {
	// bytes of one string are shown together
	strs := map[string]map[int]byte{}
	var keys []string
	out := map[string]string{}
	for k, v := range m {
		var base string
		var i int
		if k[len(k)-1] == ']' {
			j := len(k) - 2
			for j > 0 && k[j] != '[' {
				j--
			}
			base = k[:j]
			fmt.Sscanf(k[j+1:len(k)-1], "%d", &i)
			if strs[base] == nil {
				strs[base] = map[int]byte{}
				keys = append(keys, base)
			}
			strs[base][i] = byte(v.lo)
			continue
		}
		out[k] = v.String()
		keys = append(keys, k)
	}
	for b, m := range strs {
		n := 0
		for i := range m {
			if i >= n {
				n = i + 1
			}
		}
		bs := make([]byte, n)
		for i := range bs {
			bs[i] = '?'
		}
		for i, c := range m {
			bs[i] = c
		}
		out[b] = fmt.Sprintf("%q", string(bs))
	}
	sort.Strings(keys)
	s := ""
	for _, k := range keys {
		s += " " + k + "=" + out[k]
	}
	return s
}
