package main

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Engine struct {
	p        *Program
	fnCache  sync.Map
	pmsgs    map[string]*pmsg
	deadline time.Time
	tier     int
	verbose  bool
	solver   string
	timeout  int

	mu       sync.Mutex
	cond     *sync.Cond
	hs       []*Harness
	rr       int
	busy     int
	stats    SolverStats
	encoded  map[string]bool
	unknowns int
}

// Harness: one entry function and everything learned about it.
type Harness struct {
	Name, Prop, Pkg, Dir string
	fn                   *ssa.Function
	MaxDecisions         int
	MaxConcretize        int
	MaxSteps             int
	Preempt              int
	MaxPaths             int
	PermuteMaps          bool
	FixedRand            bool
	Thorough             bool
	Sched                bool
	NoReplay             bool

	work    []*WorkItem
	Paths   map[string]int
	Steps   int64
	Decis   int64
	Asserts int64
	Notes   map[string]int
	Reach   map[string]int
	Viol    []*Violation
	nviol   map[string]int
	Samples []*Sample
	Time    time.Duration
	dropped int
	nsample int
	Natural int
}

type ReplayVal struct {
	Name string `json:"n"`
	Kind string `json:"k"`
	Hex  string `json:"h,omitempty"`
	Int  int64  `json:"i"`
}

// Sample: a completed path with a concrete witness and what should be observed.
type Sample struct {
	Harness string      `json:"harness"`
	Vals    []ReplayVal `json:"vals"`
	Expect  []string    `json:"expect"`
	Natural bool        `json:"-"`
}

type Worker struct {
	eng      *Engine
	s        *Solver
	h        *Harness
	unknowns int
	encoded  map[string]bool
	tmpWork  []*WorkItem
}

func (w *Worker) pushWork(it *WorkItem) { w.tmpWork = append(w.tmpWork, it) }

func (e *Engine) next() (*Harness, *WorkItem) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		for k := 0; k < len(e.hs); k++ {
			h := e.hs[(e.rr+k)%len(e.hs)]
			if n := len(h.work); n > 0 {
				it := h.work[n-1]
				h.work = h.work[:n-1]
				e.rr = (e.rr + k + 1) % len(e.hs)
				e.busy++
				return h, it
			}
		}
		if e.busy == 0 {
			e.cond.Broadcast()
			return nil, nil
		}
		e.cond.Wait()
	}
}

func (e *Engine) Run(nworkers int) {
	e.cond = sync.NewCond(&e.mu)
	e.encoded = map[string]bool{}
	for _, h := range e.hs {
		h.work = []*WorkItem{{}}
		h.Paths = map[string]int{}
		h.Notes = map[string]int{}
		h.Reach = map[string]int{}
		h.nviol = map[string]int{}
	}
	var wg sync.WaitGroup
	for i := 0; i < nworkers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &Worker{eng: e, encoded: map[string]bool{}, s: NewSolver(e.solver, e.timeout)}
			defer w.s.Close()
			for {
				h, it := e.next()
				if h == nil {
					break
				}
				w.h = h
				st := time.Now()
				w.runPath(h, it)
				e.mu.Lock()
				h.Time += time.Since(st)
				e.busy--
				if time.Now().After(e.deadline) {
					h.dropped += len(w.tmpWork) + len(h.work)
					h.work = nil
				} else {
					np := 0
					for _, c := range h.Paths {
						np += c
					}
					if np+len(h.work) > h.MaxPaths && h.MaxPaths > 0 {
						h.dropped += len(w.tmpWork)
					} else {
						h.work = append(h.work, w.tmpWork...)
					}
				}
				w.tmpWork = nil
				e.cond.Broadcast()
				e.mu.Unlock()
			}
			e.mu.Lock()
			s := w.s.Stats
			e.stats.Queries += s.Queries
			e.stats.Sat += s.Sat
			e.stats.Unsat += s.Unsat
			e.stats.Unknown += s.Unknown
			e.stats.Lemmas += s.Lemmas
			e.stats.Time += s.Time
			if s.MaxQuery > e.stats.MaxQuery {
				e.stats.MaxQuery = s.MaxQuery
			}
			for k := range w.encoded {
				e.encoded[k] = true
			}
			e.unknowns += w.unknowns
			e.mu.Unlock()
		}()
	}
	wg.Wait()
}

func (w *Worker) runPath(h *Harness, it *WorkItem) {
	e := w.eng
	ex := &Exec{c: NewCtx(), s: w.s, p: e.p, w: w, h: h, prefix: append([]uint64(nil), it.prefix...), pmodel: it.model,
		model: map[*Term]uint64{}, pcset: map[int32]bool{}, lemmas: map[string]bool{}, appKey: map[string]*App{},
		globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]int{}, side: map[any]any{}, weak: map[*Term]bool{}, start: time.Now(),
		maxSteps: h.MaxSteps, typeCache: map[string]types.Type{}, clock: 1_900_000_000_000_000_000}
	ex.initSched()
	if w.s.dead {
		w.s.Reset()
	}
	w.s.Push()
	depth := len(w.s.emitted)
	kind, msg := "ok", ""
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch r := r.(type) {
			case *pathEnd:
				kind, msg = r.kind, r.msg
			case *goPanic:
				kind, msg = "panic", r.msg+" at "+r.where
				ex.uncaught(r)
			default:
				kind, msg = "unsupported", fmt.Sprintf("internal: %v [%s]", r, ex.stack())
				if e.verbose {
					fmt.Fprintf(os.Stderr, "INTERNAL %v\n%s\n%s\n", r, ex.stack(), debug.Stack())
				}
			}
		}()
		ex.callFn(h.fn, nil, nil)
	}()
	if kind == "ok" && len(ex.incomplete) > 0 {
		kind = "partial"
	}
	var smp *Sample
	if kind == "ok" {
		e.mu.Lock()
		h.nsample++
		n := h.nsample
		take := len(h.Samples) < 6 || (n&(n-1)) == 0 && len(h.Samples) < 14
		e.mu.Unlock()
		if take && !h.NoReplay {
			func() {
				defer func() { recover() }()
				smp = ex.sample()
			}()
		}
	}
	ex.killAll()
	if !w.s.dead && len(w.s.emitted) == depth {
		w.s.Pop()
	} else {
		w.s.Reset()
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	h.Paths[kind]++
	if kind != "ok" && kind != "assume" && kind != "panic" {
		h.Notes[kind+": "+msg]++
	}
	for _, n := range ex.incomplete {
		h.Notes["incomplete: "+n]++
	}
	for _, r := range ex.reached {
		h.Reach[r]++
	}
	h.Steps += int64(ex.steps)
	h.Decis += int64(len(ex.trace))
	h.Asserts += int64(ex.asserts)
	for _, v := range ex.viol {
		h.nviol[v.Label+v.Known]++
		if h.nviol[v.Label+v.Known] <= 6 {
			h.Viol = append(h.Viol, v)
		}
	}
	if smp != nil {
		h.Samples = append(h.Samples, smp)
	}
	if e.verbose {
		fmt.Fprintf(os.Stderr, "path %s %s %s dec=%d steps=%d %v %s\n", h.Name, kind, msg, len(ex.trace), ex.steps, time.Since(ex.start).Round(time.Millisecond), strings.Join(ex.reached, ","))
	}
}

func (ex *Exec) uncaught(p *goPanic) {
	ex.abort = nil
	if strings.HasPrefix(p.msg, "vfcrash") {
		return
	}
	ex.recordViolation(ex.c.T, "panic: "+p.msg, "panic", p.where, "")
}

// recordViolation asks the solver for a model of pc ∧ bad; returns true if one exists.
func (ex *Exec) recordViolation(bad *Term, label, kind, where, known string) bool {
	res, m := ex.solve(bad)
	if res == Unknown {
		ex.note("solver unknown on assertion " + label)
		return false
	}
	if res == Unsat {
		return false
	}
	e := ex.w.eng
	e.mu.Lock()
	n := ex.h.nviol[label+known]
	e.mu.Unlock()
	nat := false
	if n < 4 {
		if m2, ok := ex.naturalize(bad, m); ok {
			m, nat = m2, true
		}
	}
	ex.viol = append(ex.viol, &Violation{Harness: ex.h.Name, Label: label, Kind: kind, Where: where, Known: known, Vals: ex.replayVals(m), Natural: nat})
	return true
}

// realModel recomputes every idealised application with the real function.
func (ex *Exec) realModel(m map[*Term]uint64) map[*Term]uint64 {
	r := make(map[*Term]uint64, len(m))
	for t, v := range m {
		if t.app == nil {
			r[t] = v
		}
	}
	return r
}

func (ex *Exec) modelGetter(m map[*Term]uint64) func(*Term) uint64 {
	var get func(v *Term) uint64
	get = func(v *Term) uint64 {
		if x, ok := m[v]; ok {
			return x
		}
		if v.app != nil {
			ex.evalApp(v.app, m, get)
			return m[v]
		}
		return 0
	}
	return get
}

func (ex *Exec) holds(extra *Term, m map[*Term]uint64) bool {
	ex.c.gen++
	get := ex.modelGetter(m)
	ok := ex.c.Eval(extra, get) == 1
	for _, t := range ex.pc {
		if !ok {
			break
		}
		ok = ex.c.Eval(t, get) == 1
	}
	ex.c.gen++
	return ok
}

// naturalize looks for a model of pc ∧ extra in which the idealised functions take their real values.
func (ex *Exec) naturalize(extra *Term, m map[*Term]uint64) (map[*Term]uint64, bool) {
	r := ex.realModel(m)
	if ex.holds(extra, r) {
		return r, true
	}
	if len(ex.apps) == 0 || len(ex.apps) > 2000 || ex.s.dead {
		return nil, false
	}
	ex.syncSolver()
	ex.s.Push()
	defer func() {
		if !ex.s.dead {
			ex.s.Pop()
		}
	}()
	ex.s.Assert(extra)
	c := ex.c
	for iter := 0; iter < 24; iter++ {
		// pin the applications to their real values at the arguments of this model
		r := ex.realModel(m)
		ex.c.gen++
		get := ex.modelGetter(r)
		type pin struct{ t *Term }
		var pins []*Term
		for _, a := range ex.apps {
			var ins, outs []*Term
			fresh := a.outs
			if a.inverse {
				fresh = a.args[len(a.args)-1]
			}
			isF := map[*Term]bool{}
			for _, t := range fresh {
				if t.op == OpVar && t.app == a {
					isF[t] = true
					outs = append(outs, c.Eq(t, c.Const(get(t), t.w)))
				}
			}
			if len(outs) == 0 {
				continue
			}
			for _, as := range append(append([][]*Term(nil), a.args...), a.outs) {
				for _, t := range as {
					if !isF[t] {
						ins = append(ins, c.Eq(t, c.Const(c.Eval(t, get), t.w)))
					}
				}
			}
			pins = append(pins, c.Or(c.Not(c.And(ins...)), c.And(outs...)))
		}
		ex.c.gen++
		for _, p := range pins {
			ex.s.Assert(p)
		}
		if time.Now().After(ex.w.eng.deadline) {
			return nil, false
		}
		if ex.s.Check() != Sat {
			return nil, false
		}
		m = ex.s.Values()
		if m == nil {
			return nil, false
		}
		r = ex.realModel(m)
		if ex.holds(extra, r) {
			return r, true
		}
	}
	return nil, false
}

func (ex *Exec) replayVals(m map[*Term]uint64) []ReplayVal {
	ex.c.gen++
	get := ex.modelGetter(m)
	var out []ReplayVal
	for _, n := range ex.nondets {
		v := ReplayVal{Name: n.Name, Kind: n.Kind}
		switch n.Kind {
		case "bytes", "rand":
			b := make([]byte, len(n.Terms))
			for i, t := range n.Terms {
				b[i] = byte(ex.c.Eval(t, get))
			}
			v.Hex = hex.EncodeToString(b)
			v.Int = int64(len(b))
		default:
			x := ex.c.Eval(n.Terms[0], get)
			v.Int = sx(x, n.Terms[0].w)
			if n.Terms[0].w == 0 {
				v.Int = int64(x)
			}
		}
		out = append(out, v)
	}
	ex.c.gen++
	return out
}

type obsRec struct {
	label string
	terms []*Term
	text  string
	str   bool
}

func (ex *Exec) sample() *Sample {
	res, m := ex.solve(ex.c.T)
	if res != Sat {
		return nil
	}
	m2, ok := ex.naturalize(ex.c.T, m)
	if !ok {
		return nil
	}
	s := &Sample{Harness: ex.h.Name, Vals: ex.replayVals(m2), Natural: true}
	ex.c.gen++
	get := ex.modelGetter(m2)
	for _, o := range ex.obs {
		l := o.label
		if o.terms != nil {
			l += "="
			for _, t := range o.terms {
				l += fmt.Sprintf("%0*x", (int(t.w)+3)/4, ex.c.Eval(t, get))
			}
		}
		s.Expect = append(s.Expect, l)
	}
	ex.c.gen++
	return s
}

func sortedNotes(m map[string]int) []string {
	var out []string
	for k, v := range m {
		out = append(out, fmt.Sprintf("%dx %s", v, k))
	}
	sort.Strings(out)
	return out
}
