package main

// Path-wise symbolic executor for go/ssa. Each path is executed from the
// start under a recorded prefix of decisions (stateless exploration).

import (
	"fmt"
	"go/token"
	"go/types"
	"math/bits"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- path endings (host panics) ----
type pathEnd struct {
	kind string // "assume", "unsupported", "bound", "exit", "done", "kill"
	msg  string
}

// Go-level panic of the program under test
type goPanic struct {
	v     Value
	msg   string
	where string
}

type NondetRec struct {
	Name  string
	Kind  string // bytes, int, bool, choose
	Terms []*Term
	W     uint8
}

type Violation struct {
	Harness string
	Label   string
	Kind    string // assert, panic
	Where   string
	Known   string
	Vals    []ReplayVal
	Natural bool
}

type WorkItem struct {
	prefix []uint64
	model  map[string]uint64
}

type frame struct {
	ex        *Exec
	caller    *frame
	fn        *ssa.Function
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	env       map[ssa.Value]Value
	defers    []*deferred
	result    Value
	panicking bool
	panicV    *goPanic
	rundefers bool
	callpos   token.Pos
}

type deferred struct {
	fn   Value
	args []Value
	inv  *ssa.CallCommon
}

type Exec struct {
	wsConns           map[*Value]Value
	ndraw             int
	evalIdxs          []*evalIdx
	distinct          map[[2]int]bool
	c                 *Ctx
	s                 *Solver
	p                 *Program
	w                 *Worker
	h                 *Harness
	prefix            []uint64
	pos               int
	trace             []uint64
	pmodel            map[string]uint64
	vague             bool
	model             map[*Term]uint64
	mgen              bool
	pc                []*Term
	pcset             map[int32]bool
	nassert           int
	lemmas            map[string]bool
	nvars             int
	apps              []*App
	appKey            map[string]*App
	nondets           []*NondetRec
	globals           map[*ssa.Global]*Value
	inited            map[*ssa.Package]int
	steps             int
	mustEnd           bool
	maxSteps          int
	depth             int
	reached           []string
	obs               []obsRec
	lastPanic         string
	noTimers          bool
	faultArmed        bool
	drawMask, drawVal uint64
	crashed           bool
	weak              map[*Term]bool
	weakDraws         map[weakKey]*Term
	weakSeed          *Term
	weakPos           int
	freeDraws         bool
	weakN             int
	asserts           int
	viol              []*Violation
	incomplete        []string
	cur               *G
	gs                []*G
	killed            bool
	abort             any
	schedOn           bool
	preempts          int
	side              map[any]any // side tables for natives (mutex state, ...)
	fs                *FS
	curFr             *frame
	typeCache         map[string]types.Type
	jsonTab           []jsonSnap
	clock             int64
	rngN              int
	deadlineNoted     bool
	crashArmed        bool
	exitOK            bool
	start             time.Time
}

func (ex *Exec) unsupported(f string, a ...any) {
	msg := fmt.Sprintf(f, a...)
	panic(&pathEnd{"unsupported", msg + " [" + ex.stack() + "]"})
}

func (ex *Exec) stack() string {
	var out []string
	for fr, n := ex.curFr, 0; fr != nil && n < 8; fr, n = fr.caller, n+1 {
		pos := ""
		if fr.callpos.IsValid() {
			q := ex.p.prog.Fset.Position(fr.callpos)
			pos = fmt.Sprintf(":%d", q.Line)
		}
		out = append(out, fr.fn.String()+pos)
	}
	return strings.Join(out, " < ")
}

func (ex *Exec) where() string {
	for fr := ex.curFr; fr != nil; fr = fr.caller {
		if fr.fn.Pkg != nil && strings.HasPrefix(fr.fn.Pkg.Pkg.Path(), modPath) && fr.callpos.IsValid() {
			q := ex.p.prog.Fset.Position(fr.callpos)
			return fmt.Sprintf("%s:%d in %s", strings.TrimPrefix(q.Filename, ex.p.repo+"/"), q.Line, fr.fn.String())
		}
	}
	return "?"
}

// ---- decisions ----

func (ex *Exec) addPC(t *Term) {
	if t == ex.c.T {
		return
	}
	if ex.pcset[t.id] {
		return
	}
	ex.pcset[t.id] = true
	if t.op == OpAnd {
		for _, a := range t.args {
			ex.pcset[a.id] = true
		}
	}
	ex.pc = append(ex.pc, t)
}

func (ex *Exec) syncSolver() {
	for ; ex.nassert < len(ex.pc); ex.nassert++ {
		ex.s.Assert(ex.pc[ex.nassert])
	}
}

func (ex *Exec) newVar(w uint8) *Term {
	ex.nvars++
	name := fmt.Sprintf("x%d", ex.nvars)
	v := ex.c.Var(name, w)
	if x, ok := ex.pmodel[name]; ok {
		ex.model[v] = x
	}
	return v
}

func (ex *Exec) get(v *Term) uint64 {
	if x, ok := ex.model[v]; ok {
		return x
	}
	if v.app != nil {
		ex.evalApp(v.app, ex.model, ex.get)
		return ex.model[v]
	}
	return 0
}

func (ex *Exec) eval(t *Term) uint64 { return ex.c.Eval(t, ex.get) }

func (ex *Exec) setModel(m map[*Term]uint64) {
	ex.model = m
	ex.c.gen++
}

func (ex *Exec) namedModel(m map[*Term]uint64) map[string]uint64 {
	r := make(map[string]uint64, len(m))
	for t, v := range m {
		r[t.name] = v
	}
	return r
}

// solve checks pc ∧ extra (with lazily instantiated function axioms).
func (ex *Exec) solve(extra *Term) (Res, map[*Term]uint64) {
	if extra == ex.c.F {
		return Unsat, nil
	}
	if ex.pcset[ex.c.Not(extra).id] {
		return Unsat, nil
	}
	if ex.s.dead {
		ex.s.Reset()
		ex.s.Push()
		ex.nassert = 0
	}
	ex.syncSolver()
	ex.s.Push()
	ex.s.Assert(extra)
	var keep []*Term
	var res Res
	var model map[*Term]uint64
	for iter := 0; ; iter++ {
		res = ex.s.Check()
		if res != Sat {
			break
		}
		vals := ex.s.Values()
		if vals == nil {
			res = Unknown
			break
		}
		lem := ex.checkAxioms(vals)
		ex.c.gen++
		if len(lem) == 0 {
			model = vals
			break
		}
		if iter > 400 {
			res = Unknown
			break
		}
		ex.s.Stats.Lemmas += len(lem)
		for _, l := range lem {
			ex.s.Assert(l)
			keep = append(keep, l)
		}
	}
	if !ex.s.dead {
		ex.s.Pop()
	}
	for _, l := range keep {
		ex.addPC(l)
	}
	if res == Unknown {
		ex.w.unknowns++
	}
	return res, model
}

// branch decides a symbolic condition on this path.
func (ex *Exec) branch(cond *Term) bool {
	if cond.isConst() {
		return cond.val == 1
	}
	if ex.pcset[cond.id] {
		return true
	}
	if ex.pcset[ex.c.Not(cond).id] {
		return false
	}
	if ex.pos < len(ex.prefix) {
		d := ex.prefix[ex.pos] == 1
		ex.pos++
		ex.trace = append(ex.trace, b2u(d))
		if d {
			ex.addPC(cond)
		} else {
			ex.addPC(ex.c.Not(cond))
		}
		return d
	}
	ex.checkBudget()
	v := ex.eval(cond) == 1
	this, other := cond, ex.c.Not(cond)
	if !v {
		this, other = other, this
	}
	res, m := ex.solve(other)
	if dbgBranch {
		fmt.Fprintf(os.Stderr, "BRANCH %v %s %s\n", res, ex.where(), ex.c.show(cond))
	}
	switch res {
	case Sat:
		np := append(append([]uint64(nil), ex.trace...), b2u(!v))
		ex.w.pushWork(&WorkItem{np, ex.namedModel(m)})
	case Unknown:
		ex.note("solver unknown on a branch at " + ex.where())
	}
	ex.pos++
	ex.prefix = append(ex.prefix, b2u(v))
	ex.trace = append(ex.trace, b2u(v))
	ex.addPC(this)
	return v
}

var dbgBranch = os.Getenv("GOSYM_BRANCH") != ""

func (ex *Exec) checkBudget() {
	if len(ex.trace) > ex.h.MaxDecisions {
		ex.endless()
		panic(&pathEnd{"bound", fmt.Sprintf("more than %d symbolic decisions on one path", ex.h.MaxDecisions)})
	}
	if time.Now().After(ex.w.eng.deadline) {
		panic(&pathEnd{"bound", "time budget"})
	}
}

// endless reports a path that ran into a work bound inside vfMustEnd; the
// replay confirms it by running into its time limit.
func (ex *Exec) endless() {
	if ex.mustEnd {
		ex.mustEnd = false
		ex.recordViolation(ex.c.T, "panic: no result after more work than any genuine input needs", "panic", ex.where(), "")
	}
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (ex *Exec) note(s string) { ex.incomplete = append(ex.incomplete, s) }

// choose is a pure nondeterministic choice among n alternatives.
func (ex *Exec) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if ex.pos < len(ex.prefix) {
		v := ex.prefix[ex.pos]
		ex.pos++
		ex.trace = append(ex.trace, v)
		return int(v)
	}
	ex.checkBudget()
	m := ex.namedModel(ex.model)
	for i := n - 1; i >= 1; i-- {
		np := append(append([]uint64(nil), ex.trace...), uint64(i))
		ex.w.pushWork(&WorkItem{np, m})
	}
	ex.pos++
	ex.prefix = append(ex.prefix, 0)
	ex.trace = append(ex.trace, 0)
	return 0
}

// concretize forks over the feasible values of t.
func (ex *Exec) concretize(t *Term) uint64 {
	for i := 0; ; i++ {
		if t.isConst() {
			return t.val
		}
		if i > ex.h.MaxConcretize {
			panic(&pathEnd{"bound", fmt.Sprintf("more than %d values of a concretized term at %s", ex.h.MaxConcretize, ex.where())})
		}
		var v uint64
		if ex.pos < len(ex.prefix) {
			v = ex.prefix[ex.pos]
		} else {
			v = ex.eval(t)
			ex.prefix = append(ex.prefix, v)
			if os.Getenv("GOSYM_DBG") != "" {
				for _, q := range ex.pc {
					if ex.eval(q) != 1 {
						fmt.Fprintln(os.Stderr, "MODEL VIOLATES", ex.c.show(q), "model", len(ex.model), "pmodel", len(ex.pmodel), "trace", ex.trace)
					}
				}
			}
		}
		ex.pos++
		ex.trace = append(ex.trace, v)
		if ex.branch(ex.c.Eq(t, ex.c.Const(v, t.w))) {
			return v
		}
	}
}

func (ex *Exec) concInt(v Value) int {
	t := v.(*Term)
	return int(sx(ex.concretize(t), t.w))
}

// ---- Go panics ----

func (ex *Exec) rtErrType() types.Type {
	if t := ex.p.pkgs["runtime"]; t != nil {
		if o := t.Type("errorString"); o != nil {
			return o.Type()
		}
	}
	ex.unsupported("no runtime.errorString")
	return nil
}

func (ex *Exec) goPanicRT(msg string) {
	panic(&goPanic{v: Iface{ex.rtErrType(), str(msg)}, msg: "runtime error: " + msg, where: ex.where()})
}

func (ex *Exec) nilDeref() {
	ex.goPanicRT("invalid memory address or nil pointer dereference")
}

// ---- calls ----

func (ex *Exec) callValue(fn Value, args []Value) Value {
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			ex.nilDeref()
		}
		return ex.callFn(f, args, nil)
	case *Closure:
		return ex.callFn(f.fn, args, f.env)
	case *NativeFn:
		return f.fn(ex, args)
	}
	panic(fmt.Sprintf("callValue %T", fn))
}

func (ex *Exec) callFn(fn *ssa.Function, args []Value, env []Value) Value {
	ent := ex.w.eng.lookup(fn)
	if ent.native != nil {
		if ent.ensureInit && fn.Pkg != nil {
			ex.ensureInit(fn.Pkg)
		}
		if v := ent.native(ex, args); v != declined {
			return v
		}
		return ex.callBodyEnv(fn, args, env, ent.repo)
	}
	if ent.noop {
		return ex.zero(fn.Signature.Results())
	}
	if ent.deny != "" {
		ex.unsupported("call to %s (%s)", fn, ent.deny)
	}
	return ex.callBodyEnv(fn, args, env, ent.repo)
}

func (ex *Exec) callBody(fn *ssa.Function, args []Value) Value {
	return ex.callBodyEnv(fn, args, nil, false)
}

func (ex *Exec) callBodyEnv(fn *ssa.Function, args []Value, env []Value, repo bool) Value {
	if len(fn.Blocks) == 0 {
		ex.unsupported("no body: %s", fn)
	}
	if fn.Pkg != nil && fn.Synthetic != "package initializer" {
		ex.ensureInit(fn.Pkg)
	}
	ex.depth++
	if ex.depth > 400 {
		if ex.depth > 2000 {
			panic(&pathEnd{"bound", "call depth > 2000 at " + fn.String()})
		}
	}
	if repo {
		ex.w.encoded[fn.String()] = true
	}
	fr := &frame{ex: ex, caller: ex.curFr, fn: fn, env: make(map[ssa.Value]Value, 32)}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = env[i]
	}
	for _, l := range fn.Locals {
		v := new(Value)
		*v = ex.zero(deref(l.Type()))
		fr.env[l] = v
	}
	ex.curFr = fr
	fr.block = fn.Blocks[0]
	for fr.block != nil {
		fr.run()
	}
	ex.curFr = fr.caller
	ex.depth--
	return fr.result
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// run executes blocks until return or panic; handles Go panics via defers.
func (fr *frame) run() {
	ex := fr.ex
	depth := ex.depth
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		r := recover()
		if r == nil {
			return
		}
		gp, ok := r.(*goPanic)
		if !ok {
			panic(r)
		}
		// Go-level panic: run defers of this frame
		ex.curFr = fr
		ex.depth = depth
		fr.panicking = true
		fr.panicV = gp
		fr.runDefers()
		// recovered (runDefers re-panics otherwise)
		fr.block = fr.fn.Recover
		if fr.block == nil {
			fr.result = ex.zero(fr.fn.Signature.Results())
		}
	}()
	for {
		if ex.depth != depth {
			ex.depth = depth
		}
		blk := fr.block
		next := fr.execBlock(blk)
		if next == nil {
			fr.block = nil
			return
		}
		fr.prev, fr.block = blk, next
	}
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panicV)
	}
}

func (fr *frame) runDefer(d *deferred) {
	ex := fr.ex
	ok := false
	depth := ex.depth
	defer func() {
		if ok {
			return
		}
		r := recover()
		gp, isGo := r.(*goPanic)
		if !isGo {
			panic(r)
		}
		// deferred call panicked: replaces current panic
		ex.curFr = fr
		ex.depth = depth
		fr.panicking = true
		fr.panicV = gp
	}()
	if b, isB := d.fn.(*ssa.Builtin); isB {
		fr.builtin(b, d.args, nil, d.inv)
	} else {
		ex.callValue(d.fn, d.args)
	}
	ok = true
}

func (fr *frame) get(v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return fr.ex.constValue(v)
	case *ssa.Function:
		return v
	case *ssa.Builtin:
		return v
	case *ssa.Global:
		return fr.ex.global(v)
	}
	r, ok := fr.env[v]
	if !ok {
		panic(fmt.Sprintf("get: no value for %s %T in %s", v.Name(), v, fr.fn))
	}
	return r
}

func (ex *Exec) global(g *ssa.Global) Value {
	if p, ok := ex.globals[g]; ok {
		return p
	}
	if g.Pkg != nil && ex.inited[g.Pkg] == 0 {
		ex.ensureInit(g.Pkg)
		if p, ok := ex.globals[g]; ok {
			return p
		}
	}
	p := new(Value)
	if nv, ok := globalOverrides[g.Pkg.Pkg.Path()+"."+g.Name()]; ok {
		*p = nv(ex, deref(g.Type()))
	} else if ex.inited[g.Pkg] == 3 && !strings.HasPrefix(g.Name(), "init$") {
		*p = &badPtr{g.String()}
	} else {
		*p = ex.zero(deref(g.Type()))
	}
	ex.globals[g] = p
	return p
}

// ensureInit runs a package initializer on first use (imports are initialized lazily).
func (ex *Exec) ensureInit(p *ssa.Package) {
	if ex.inited[p] != 0 {
		return
	}
	if !initAllowed(p.Pkg.Path()) {
		ex.inited[p] = 3
		return
	}
	ex.inited[p] = 1
	// globals with overrides first
	fn := p.Func("init")
	save := ex.curFr
	d := ex.depth
	ex.callBodyEnv(fn, nil, nil, false)
	ex.curFr = save
	ex.depth = d
	ex.inited[p] = 2
}

func (fr *frame) execBlock(b *ssa.BasicBlock) *ssa.BasicBlock {
	ex := fr.ex
	// phis in parallel
	i := 0
	if len(b.Instrs) > 0 {
		if _, ok := b.Instrs[0].(*ssa.Phi); ok {
			var idx = -1
			for k, p := range b.Preds {
				if p == fr.prev {
					idx = k
					break
				}
			}
			var vals []Value
			for ; i < len(b.Instrs); i++ {
				ph, ok := b.Instrs[i].(*ssa.Phi)
				if !ok {
					break
				}
				vals = append(vals, fr.get(ph.Edges[idx]))
			}
			for k := 0; k < i; k++ {
				fr.env[b.Instrs[k].(*ssa.Phi)] = vals[k]
			}
		}
	}
	for ; i < len(b.Instrs); i++ {
		ex.steps++
		if ex.steps > ex.maxSteps {
			ex.endless()
			panic(&pathEnd{"bound", "step budget on one path"})
		}
		if ex.steps&0xffff == 0 && time.Now().After(ex.w.eng.deadline) {
			panic(&pathEnd{"bound", "time budget"})
		}
		in := b.Instrs[i]
		if p := in.Pos(); p.IsValid() {
			fr.callpos = p
		}
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			fr.env[in] = fr.unop(in)
		case *ssa.BinOp:
			fr.env[in] = fr.ex.binop(in.Op, in.X.Type(), in.Y.Type(), fr.get(in.X), fr.get(in.Y))
		case *ssa.Call:
			fn, args := fr.prepareCall(&in.Call)
			if bi, ok := fn.(*ssa.Builtin); ok {
				fr.env[in] = fr.builtin(bi, args, in, &in.Call)
			} else {
				fr.env[in] = ex.callValue(fn, args)
			}
			ex.curFr = fr
		case *ssa.ChangeInterface:
			fr.env[in] = fr.get(in.X)
		case *ssa.ChangeType:
			fr.env[in] = fr.get(in.X)
		case *ssa.Convert:
			fr.env[in] = ex.conv(in.Type(), in.X.Type(), fr.get(in.X))
		case *ssa.MultiConvert:
			fr.env[in] = ex.conv(in.Type(), in.X.Type(), fr.get(in.X))
		case *ssa.SliceToArrayPointer:
			s := fr.get(in.X).(Slice)
			at := deref(in.Type()).Underlying().(*types.Array)
			if int64(len(s)) < at.Len() {
				ex.goPanicRT(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(s), at.Len()))
			}
			v := new(Value)
			*v = Array(s[:at.Len():at.Len()])
			if s == nil {
				fr.env[in] = (*Value)(nil)
			} else {
				fr.env[in] = v
			}
		case *ssa.MakeInterface:
			fr.env[in] = Iface{in.X.Type(), copyVal(fr.get(in.X))}
		case *ssa.Extract:
			fr.env[in] = fr.get(in.Tuple).(Tuple)[in.Index]
		case *ssa.Slice:
			fr.env[in] = fr.sliceOp(in)
		case *ssa.Return:
			switch len(in.Results) {
			case 0:
			case 1:
				fr.result = copyVal(fr.get(in.Results[0]))
			default:
				t := make(Tuple, len(in.Results))
				for k, r := range in.Results {
					t[k] = copyVal(fr.get(r))
				}
				fr.result = t
			}
			return nil
		case *ssa.RunDefers:
			fr.runDefers()
		case *ssa.Panic:
			v := fr.get(in.X)
			panic(&goPanic{v: v, msg: ex.describe(v), where: ex.where()})
		case *ssa.Send:
			ex.chanSend(fr.get(in.Chan), fr.get(in.X))
		case *ssa.Store:
			if ex.schedOn {
				// others may run before what is stored can be seen
				shared := false
				switch x := in.Addr.(type) {
				case *ssa.FieldAddr:
					_, fresh := x.X.(*ssa.Alloc)
					shared = !fresh
				case *ssa.Global:
					shared = true
				}
				if shared {
					if pk := fr.fn.Pkg; pk != nil && strings.HasPrefix(pk.Pkg.Path(), modPath) && !strings.HasPrefix(fr.fn.Name(), "V") {
						ex.yieldPoint()
					}
				}
			}
			fr.storeTo(fr.get(in.Addr), fr.get(in.Val))
		case *ssa.If:
			c := fr.get(in.Cond).(*Term)
			if ex.branch(c) {
				return b.Succs[0]
			}
			return b.Succs[1]
		case *ssa.Jump:
			return b.Succs[0]
		case *ssa.Defer:
			fn, args := fr.prepareCall(&in.Call)
			fr.defers = append(fr.defers, &deferred{fn: fn, args: args, inv: &in.Call})
		case *ssa.Go:
			fn, args := fr.prepareCall(&in.Call)
			ex.spawn(fn, args)
			ex.curFr = fr
		case *ssa.MakeChan:
			fr.env[in] = &Chan{cap: ex.concInt(fr.get(in.Size)), et: in.Type().Underlying().(*types.Chan).Elem()}
		case *ssa.Alloc:
			v := new(Value)
			*v = ex.zero(deref(in.Type()))
			if in.Heap {
				fr.env[in] = v
			} else {
				// re-zero local (loops)
				if old, ok := fr.env[in].(*Value); ok && old != nil {
					*old = *v
				} else {
					fr.env[in] = v
				}
			}
		case *ssa.MakeSlice:
			n := ex.makeLen(fr.get(in.Len))
			cp := n
			if in.Cap != in.Len {
				cp = ex.makeLen(fr.get(in.Cap))
			}
			if n < 0 || n > cp {
				ex.goPanicRT("makeslice: len out of range")
			}
			if cp > 1<<24 {
				panic(&pathEnd{"bound", fmt.Sprintf("allocation of %d elements", cp)})
			}
			et := in.Type().Underlying().(*types.Slice).Elem()
			s := ex.makeSlice(et, cp)
			fr.env[in] = s[:n]
		case *ssa.MakeMap:
			mt := in.Type().Underlying().(*types.Map)
			fr.env[in] = newMap(mt.Key(), mt.Elem())
		case *ssa.Range:
			fr.env[in] = ex.rangeIter(fr.get(in.X), in.X.Type())
		case *ssa.Next:
			fr.env[in] = fr.next(in)
		case *ssa.FieldAddr:
			p := fr.ptr(fr.get(in.X))
			st, ok := (*p).(Struct)
			if !ok {
				ex.unsupported("FieldAddr on %T", *p)
			}
			fr.env[in] = &st[in.Field]
		case *ssa.Field:
			fr.env[in] = fr.get(in.X).(Struct)[in.Field]
		case *ssa.IndexAddr:
			fr.env[in] = fr.indexAddr(fr.get(in.X), fr.get(in.Index).(*Term), in.Index.Type())
		case *ssa.Index:
			x := fr.get(in.X)
			idx := ex.wide(fr.get(in.Index).(*Term), in.Index.Type())
			switch x := x.(type) {
			case Array:
				fr.env[in] = ex.readIndex(x, idx)
			case Str:
				fr.env[in] = ex.strIndex(x, idx)
			default:
				panic(fmt.Sprintf("Index %T", x))
			}
		case *ssa.Lookup:
			x := fr.get(in.X)
			switch x := x.(type) {
			case Str:
				fr.env[in] = ex.strIndex(x, ex.wide(fr.get(in.Index).(*Term), in.Index.Type()))
			case *Map:
				e := x.find(ex, fr.get(in.Index))
				var v Value
				if e != nil {
					v = copyVal(e.v)
				} else {
					v = ex.zero(in.X.Type().Underlying().(*types.Map).Elem())
				}
				if in.CommaOk {
					v = Tuple{v, ex.c.Bool(e != nil)}
				}
				fr.env[in] = v
			default:
				ex.unsupported("Lookup on %T", x)
			}
		case *ssa.MapUpdate:
			m, ok := fr.get(in.Map).(*Map)
			if !ok {
				ex.unsupported("map update on %T", fr.get(in.Map))
			}
			if m == nil {
				panic(&goPanic{v: Iface{ex.rtErrType(), str("assignment to entry in nil map")}, msg: "assignment to entry in nil map", where: ex.where()})
			}
			m.set(ex, fr.get(in.Key), fr.get(in.Value))
		case *ssa.TypeAssert:
			fr.env[in] = fr.typeAssert(in, fr.get(in.X).(Iface))
		case *ssa.MakeClosure:
			var env []Value
			for _, b := range in.Bindings {
				env = append(env, fr.get(b))
			}
			fr.env[in] = &Closure{in.Fn.(*ssa.Function), env}
		case *ssa.Select:
			fr.env[in] = fr.selectOp(in)
		default:
			panic(fmt.Sprintf("instr %T", in))
		}
	}
	panic("block fell through")
}

func (ex *Exec) makeSlice(et types.Type, n int) Slice {
	s := make(Slice, n)
	if n == 0 {
		return s
	}
	switch et.Underlying().(type) {
	case *types.Struct, *types.Array:
		for i := range s {
			s[i] = ex.zero(et)
		}
	default:
		z := ex.zero(et)
		for i := range s {
			s[i] = z
		}
	}
	return s
}

// makeLen: a (possibly symbolic) size. Huge feasible sizes are reported as out of bound.
func (ex *Exec) makeLen(v Value) int {
	t := v.(*Term)
	if t.isConst() {
		return int(sx(t.val, t.w))
	}
	return int(sx(ex.concretize(t), t.w))
}

func (fr *frame) ptr(v Value) *Value {
	switch p := v.(type) {
	case *Value:
		if p == nil {
			fr.ex.nilDeref()
		}
		if b, ok := (*p).(*badPtr); ok {
			fr.ex.unsupported("uninitialized global %s", b.why)
		}
		return p
	case *ElemPtr:
		i := fr.ex.concretize(p.idx)
		return &p.arr[i]
	case *Native:
		fr.ex.unsupported("deref of native %s", p.kind)
	}
	panic(fmt.Sprintf("ptr %T in %s", v, fr.fn))
}

func (fr *frame) storeTo(addr, v Value) {
	ex := fr.ex
	if ep, ok := addr.(*ElemPtr); ok {
		nv, isT := v.(*Term)
		if isT {
			for i := range ep.arr {
				o := ep.arr[i].(*Term)
				ep.arr[i] = ex.c.Ite(ex.c.Eq(ep.idx, ex.c.Const(uint64(i), ep.idx.w)), nv, o)
			}
			return
		}
	}
	if p, ok := addr.(*Value); ok && p != nil {
		ex.store(p, v)
		return
	}
	ex.store(fr.ptr(addr), v)
}

func (ex *Exec) wide(t *Term, ty types.Type) *Term {
	if t.w == 64 {
		return t
	}
	b := ty.Underlying().(*types.Basic)
	if _, s := bitWidth(b); s {
		return ex.c.Sext(t, 64)
	}
	return ex.c.Zext(t, 64)
}

func (ex *Exec) checkIndex(idx *Term, n int) {
	if idx.isConst() {
		if idx.val >= uint64(n) {
			ex.goPanicRT(fmt.Sprintf("index out of range [%d] with length %d", int64(idx.val), n))
		}
		return
	}
	if !ex.branch(ex.c.Cmp(OpUlt, idx, ex.c.Const(uint64(n), 64))) {
		ex.goPanicRT(fmt.Sprintf("index out of range with length %d", n))
	}
}

func (ex *Exec) readIndex(arr []Value, idx *Term) Value {
	ex.checkIndex(idx, len(arr))
	return ex.readAt(arr, idx)
}

func (ex *Exec) readAt(arr []Value, idx *Term) Value {
	if idx.isConst() {
		return copyVal(arr[idx.val])
	}
	ts := make([]*Term, len(arr))
	for i, v := range arr {
		t, ok := v.(*Term)
		if !ok {
			return copyVal(arr[ex.concretize(idx)])
		}
		ts[i] = t
	}
	return ex.selectTree(ts, idx)
}

// selectTree builds a balanced multiplexer on the index bits.
func (ex *Exec) selectTree(ts []*Term, idx *Term) *Term {
	nb := 0
	for 1<<nb < len(ts) {
		nb++
	}
	var rec func(lo, bit int) *Term
	rec = func(lo, bit int) *Term {
		if lo >= len(ts) {
			return ts[len(ts)-1]
		}
		if bit < 0 {
			return ts[lo]
		}
		a := rec(lo, bit-1)
		if lo+1<<bit >= len(ts) {
			return a
		}
		b := rec(lo+1<<bit, bit-1)
		if a == b {
			return a
		}
		return ex.c.Ite(ex.c.Eq(ex.c.Extract(idx, uint8(bit), uint8(bit)), ex.c.Const(1, 1)), b, a)
	}
	if nb == 0 {
		return ts[0]
	}
	return rec(0, nb-1)
}

func (ex *Exec) strIndex(s Str, idx *Term) Value {
	ex.checkIndex(idx, s.Len())
	b := ex.strBytes(s)
	if idx.isConst() {
		return b[idx.val]
	}
	return ex.selectTree(b, idx)
}

func (fr *frame) indexAddr(x Value, idx *Term, it types.Type) Value {
	ex := fr.ex
	idx = ex.wide(idx, it)
	var arr []Value
	switch x := x.(type) {
	case Slice:
		arr = x
	default:
		p := fr.ptr(x)
		a, ok := (*p).(Array)
		if !ok {
			ex.unsupported("IndexAddr on %T", *p)
		}
		arr = a
	}
	ex.checkIndex(idx, len(arr))
	if idx.isConst() {
		return &arr[idx.val]
	}
	if _, ok := arr[0].(*Term); ok {
		return &ElemPtr{arr, idx}
	}
	return &arr[ex.concretize(idx)]
}

func (fr *frame) unop(in *ssa.UnOp) Value {
	ex := fr.ex
	x := fr.get(in.X)
	switch in.Op {
	case token.ARROW:
		v, ok := ex.chanRecv(x, in.X.Type().Underlying().(*types.Chan).Elem())
		if in.CommaOk {
			return Tuple{v, ex.c.Bool(ok)}
		}
		return v
	case token.SUB:
		switch x := x.(type) {
		case *Term:
			return ex.c.Neg(x)
		case Float:
			return -x
		}
	case token.MUL:
		if ep, ok := x.(*ElemPtr); ok {
			return ex.readAt(ep.arr, ep.idx)
		}
		p := fr.ptr(x)
		v := *p
		// benign type puns through unsafe
		switch v := v.(type) {
		case *badPtr:
			ex.unsupported("uninitialized global %s", v.why)
		case Slice:
			if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return mkStr(terms(v))
			}
		case *Term:
			if b, ok := in.Type().Underlying().(*types.Basic); ok {
				if w, _ := bitWidth(b); w != 255 && w != v.w {
					ex.unsupported("type-punned load")
				}
			}
		}
		return copyVal(v)
	case token.NOT:
		return ex.c.Not(x.(*Term))
	case token.XOR:
		return ex.c.BNot(x.(*Term))
	}
	panic(fmt.Sprintf("unop %v %T", in.Op, x))
}

func terms(s []Value) []*Term {
	out := make([]*Term, len(s))
	for i, v := range s {
		out[i] = v.(*Term)
	}
	return out
}

func fromTerms(ts []*Term) Slice {
	out := make(Slice, len(ts))
	for i, t := range ts {
		out[i] = t
	}
	return out
}

func (ex *Exec) bytesVal(b []byte) Slice {
	out := make(Slice, len(b))
	for i, x := range b {
		out[i] = ex.c.bytes[x]
	}
	return out
}

func (ex *Exec) binop(op token.Token, t, ty types.Type, x, y Value) Value {
	c := ex.c
	switch op {
	case token.EQL:
		return ex.equals(t, x, y)
	case token.NEQ:
		return c.Not(ex.equals(t, x, y))
	}
	switch x := x.(type) {
	case *Term:
		y := y.(*Term)
		b, ok := t.Underlying().(*types.Basic)
		if !ok {
			ex.unsupported("binop on type %v", t)
		}
		_, signed := bitWidth(b)
		switch op {
		case token.ADD:
			return c.bin(OpAdd, x, y)
		case token.SUB:
			return c.bin(OpSub, x, y)
		case token.MUL:
			return c.bin(OpMul, x, y)
		case token.QUO, token.REM:
			if ex.branch(c.Eq(y, c.Const(0, y.w))) {
				ex.goPanicRT("integer divide by zero")
			}
			o := OpUdiv
			if op == token.REM {
				o = OpUrem
			}
			if signed {
				if op == token.REM {
					o = OpSrem
				} else {
					o = OpSdiv
				}
			}
			if v := ex.divConst(o, x, y); v != nil {
				return v
			}
			return c.bin(o, x, y)
		case token.AND:
			return c.bin(OpBAnd, x, y)
		case token.OR:
			return c.bin(OpBOr, x, y)
		case token.XOR:
			return c.bin(OpXor, x, y)
		case token.AND_NOT:
			return c.bin(OpBAnd, x, c.BNot(y))
		case token.SHL, token.SHR:
			if yb, ok := ty.Underlying().(*types.Basic); ok {
				if _, ysigned := bitWidth(yb); ysigned {
					if ex.branch(c.Cmp(OpSlt, y, c.Const(0, y.w))) {
						ex.goPanicRT("negative shift amount")
					}
				}
			}
			// bring count to width of x, saturating
			var sh *Term
			if y.w > x.w {
				over := c.Not(c.Cmp(OpUlt, y, c.Const(uint64(x.w), y.w)))
				sh = c.Ite(over, c.Const(uint64(x.w), x.w), c.Extract(y, x.w-1, 0))
			} else {
				sh = c.Zext(y, x.w)
			}
			if op == token.SHL {
				return c.bin(OpShl, x, sh)
			}
			if signed {
				return c.bin(OpAshr, x, sh)
			}
			return c.bin(OpLshr, x, sh)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if op == token.GTR || op == token.GEQ {
				x, y = y, x
			}
			strict := op == token.LSS || op == token.GTR
			switch {
			case signed && strict:
				return c.Cmp(OpSlt, x, y)
			case signed:
				return c.Cmp(OpSle, x, y)
			case strict:
				return c.Cmp(OpUlt, x, y)
			}
			return c.Cmp(OpUle, x, y)
		case token.LAND:
			return c.And(x, y)
		case token.LOR:
			return c.Or(x, y)
		}
	case Str:
		y := y.(Str)
		switch op {
		case token.ADD:
			if x.b == nil && y.b == nil {
				return Str{s: x.s + y.s}
			}
			return mkStr(append(append([]*Term(nil), ex.strBytes(x)...), ex.strBytes(y)...))
		}
		a, b := ex.strBytes(x), ex.strBytes(y)
		switch op {
		case token.LSS:
			return ex.bytesLess(a, b)
		case token.GTR:
			return ex.bytesLess(b, a)
		case token.LEQ:
			return c.Not(ex.bytesLess(b, a))
		case token.GEQ:
			return c.Not(ex.bytesLess(a, b))
		}
	case Float:
		y := y.(Float)
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		case token.LSS:
			return c.Bool(x < y)
		case token.LEQ:
			return c.Bool(x <= y)
		case token.GTR:
			return c.Bool(x > y)
		case token.GEQ:
			return c.Bool(x >= y)
		}
	}
	panic(fmt.Sprintf("binop %v %T %T", op, x, y))
}

func (ex *Exec) conv(dst, src types.Type, x Value) Value {
	ud, us := dst.Underlying(), src.Underlying()
	if _, ok := ud.(*types.Pointer); ok {
		return x
	}
	if tp, ok := us.(*types.Interface); ok && tp != nil {
		if _, isT := x.(Iface); isT {
			return x
		}
	}
	switch ud := ud.(type) {
	case *types.Basic:
		if ud.Kind() == types.UnsafePointer {
			return x
		}
		switch x := x.(type) {
		case *Term:
			sb, _ := us.(*types.Basic)
			if ud.Info()&types.IsString != 0 {
				r := rune(sx(ex.concretize(x), x.w))
				return str(string(r))
			}
			if ud.Info()&types.IsFloat != 0 {
				v := ex.concretize(x)
				if _, s := bitWidth(sb); s {
					return Float(float64(sx(v, x.w)))
				}
				return Float(float64(v))
			}
			w, _ := bitWidth(ud)
			if w == x.w {
				return x
			}
			if w < x.w {
				return ex.c.Extract(x, w-1, 0)
			}
			if _, s := bitWidth(sb); s {
				return ex.c.Sext(x, w)
			}
			return ex.c.Zext(x, w)
		case Float:
			if ud.Info()&types.IsInteger != 0 {
				w, s := bitWidth(ud)
				if s {
					return ex.c.Const(uint64(int64(x)), w)
				}
				return ex.c.Const(uint64(x), w)
			}
			if ud.Kind() == types.Float32 {
				return Float(float32(x))
			}
			return x
		case Cplx:
			return x
		case Str:
			return x
		case Slice:
			if ud.Info()&types.IsString != 0 {
				et := us.(*types.Slice).Elem().Underlying().(*types.Basic)
				if et.Kind() == types.Uint8 {
					return mkStr(terms(x))
				}
				var out []*Term
				for _, r := range x {
					r := r.(*Term)
					if ex.branch(ex.c.Cmp(OpUlt, r, ex.c.Const(0x80, 32))) {
						out = append(out, ex.c.Extract(r, 7, 0))
						continue
					}
					for _, b := range []byte(string(rune(sx(ex.concretize(r), 32)))) {
						out = append(out, ex.c.Const(uint64(b), 8))
					}
				}
				return mkStr(out)
			}
		case *Value, *Native:
			if ud.Kind() == types.Uintptr {
				ex.unsupported("pointer to uintptr")
			}
			return x
		}
	case *types.Slice:
		switch x := x.(type) {
		case Str:
			et := ud.Elem().Underlying().(*types.Basic)
			if et.Kind() == types.Uint8 {
				return fromTerms(ex.strBytes(x))
			}
			var out Slice = Slice{}
			if x.b != nil {
				f := ex.p.pkgs["unicode/utf8"].Func("DecodeRuneInString")
				for i := 0; i < len(x.b); {
					if ex.branch(ex.c.Cmp(OpUlt, x.b[i], ex.c.Const(0x80, 8))) {
						out = append(out, ex.c.Zext(x.b[i], 32))
						i++
						continue
					}
					cur := ex.curFr
					r := ex.callFn(f, []Value{mkStr(x.b[i:])}, nil).(Tuple)
					ex.curFr = cur
					out = append(out, r[0])
					i += ex.concInt(r[1])
				}
				return out
			}
			for _, r := range x.s {
				out = append(out, ex.c.Const(uint64(r), 32))
			}
			return out
		case Slice:
			return x
		}
	case *types.Array:
		if s, ok := x.(Slice); ok {
			if int64(len(s)) < ud.Len() {
				ex.goPanicRT("cannot convert slice to array: length")
			}
			return copyVal(Array(s[:ud.Len()]))
		}
	default:
		return x
	}
	panic(fmt.Sprintf("conv %v -> %v (%T)", src, dst, x))
}

func (fr *frame) sliceOp(in *ssa.Slice) Value {
	ex := fr.ex
	x := fr.get(in.X)
	bound := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return ex.wide(fr.get(v).(*Term), v.Type())
	}
	lo, hi, mx := bound(in.Low), bound(in.High), bound(in.Max)
	var n, cp int
	var arr []Value
	var s Str
	isStr := false
	switch x := x.(type) {
	case Str:
		s, isStr = x, true
		n, cp = x.Len(), x.Len()
	case Slice:
		arr = x
		n, cp = len(x), cap(x)
	default:
		p := fr.ptr(x)
		a, ok := (*p).(Array)
		if !ok {
			ex.unsupported("slice of %T", *p)
		}
		arr = a
		n, cp = len(a), len(a)
	}
	c := ex.c
	cv := func(i int) *Term { return c.Const(uint64(i), 64) }
	if lo == nil {
		lo = cv(0)
	}
	if hi == nil {
		hi = cv(n)
	}
	m := cv(cp)
	if mx != nil {
		m = mx
	}
	// 0 <= lo <= hi <= max <= cap, as unsigned compares (negative becomes huge)
	ok := c.And(c.Cmp(OpUle, lo, hi), c.Cmp(OpUle, hi, m), c.Cmp(OpUle, m, cv(cp)))
	if !ex.branch(ok) {
		ex.goPanicRT(fmt.Sprintf("slice bounds out of range [%s:%s] with capacity %d", tstr(lo), tstr(hi), cp))
	}
	l, h := int(ex.concretize(lo)), int(ex.concretize(hi))
	if isStr {
		if s.b != nil {
			return mkStr(s.b[l:h])
		}
		return Str{s: s.s[l:h]}
	}
	mm := int(ex.concretize(m))
	if arr == nil {
		return Slice(nil)
	}
	if h > n {
		// spare capacity left by append holds zeros
		full := arr[:h]
		for i := n; i < h; i++ {
			if full[i] == nil {
				full[i] = ex.zero(in.Type().Underlying().(*types.Slice).Elem())
			}
		}
	}
	return Slice(arr[l:h:mm])
}

func tstr(t *Term) string {
	if t.isConst() {
		return fmt.Sprint(int64(t.val))
	}
	return "?"
}

func (fr *frame) prepareCall(cc *ssa.CallCommon) (Value, []Value) {
	ex := fr.ex
	var args []Value
	if cc.IsInvoke() {
		iv, ok := fr.get(cc.Value).(Iface)
		if !ok {
			panic(fmt.Sprintf("invoke on %T", fr.get(cc.Value)))
		}
		if iv.t == nil {
			ex.nilDeref()
		}
		for _, a := range cc.Args {
			args = append(args, fr.get(a))
		}
		if n, ok := iv.v.(*Native); ok {
			name := cc.Method.Name()
			return &NativeFn{n.kind + "." + name, func(ex *Exec, a []Value) Value {
				return ex.nativeMethod(n, name, a)
			}}, args
		}
		f := ex.p.prog.LookupMethod(iv.t, cc.Method.Pkg(), cc.Method.Name())
		if f == nil {
			ex.unsupported("method %s not found on %v", cc.Method.Name(), iv.t)
		}
		return f, append([]Value{iv.v}, args...)
	}
	for _, a := range cc.Args {
		args = append(args, copyVal(fr.get(a)))
	}
	return fr.get(cc.Value), args
}

func (fr *frame) typeAssert(in *ssa.TypeAssert, x Iface) Value {
	ex := fr.ex
	ok := false
	var v Value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if x.t != nil {
			if n, isN := x.v.(*Native); isN {
				ok = true
				for i := 0; i < it.NumMethods(); i++ {
					if !nativeHas(n.kind, it.Method(i).Name()) {
						ok = false
					}
				}
			} else {
				ok = ex.implements(x.t, it)
			}
		}
		if ok {
			v = x
		}
	} else if x.t != nil && types.Identical(x.t, in.AssertedType) {
		ok = true
		v = copyVal(x.v)
	}
	if !ok {
		if !in.CommaOk {
			msg := fmt.Sprintf("interface conversion: interface is %v, not %v", x.t, in.AssertedType)
			panic(&goPanic{v: Iface{ex.rtErrType(), str(msg)}, msg: msg, where: ex.where()})
		}
		v = ex.zero(in.AssertedType)
	}
	if in.CommaOk {
		return Tuple{v, ex.c.Bool(ok)}
	}
	return v
}

func (ex *Exec) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

type mapIter struct {
	ents []*mapEntry
	i    int
}
type strIter struct {
	s Str
	i int
}

func (ex *Exec) rangeIter(x Value, t types.Type) Value {
	switch x := x.(type) {
	case *Map:
		it := &mapIter{}
		if x != nil {
			it.ents = append(it.ents, x.entries...)
			if ex.h.PermuteMaps {
				// nondeterministic order
				for i := 0; i < len(it.ents)-1; i++ {
					j := i + ex.choose(len(it.ents)-i)
					it.ents[i], it.ents[j] = it.ents[j], it.ents[i]
				}
			}
		}
		return it
	case Str:
		return &strIter{s: x}
	}
	panic(fmt.Sprintf("range %T", x))
}

func (fr *frame) next(in *ssa.Next) Value {
	ex := fr.ex
	switch it := fr.get(in.Iter).(type) {
	case *mapIter:
		for it.i < len(it.ents) {
			e := it.ents[it.i]
			it.i++
			if e.deleted {
				continue
			}
			return Tuple{ex.c.T, copyVal(e.k), copyVal(e.v)}
		}
		tt := in.Type().(*types.Tuple)
		z := func(i int) Value {
			if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return ex.zero(tt.At(i).Type())
		}
		return Tuple{ex.c.F, z(1), z(2)}
	case *strIter:
		n := it.s.Len()
		if it.i >= n {
			return Tuple{ex.c.F, ex.c.Const(0, 64), ex.c.Const(0, 32)}
		}
		i := it.i
		if it.s.b == nil {
			for k, r := range it.s.s[i:] {
				_ = k
				sz := len(string(r))
				if r == 0xfffd {
					// may be an invalid byte
					sz = decodeSize(it.s.s[i:])
				}
				it.i += sz
				return Tuple{ex.c.T, ex.c.Const(uint64(i), 64), ex.c.Const(uint64(r), 32)}
			}
		}
		b := it.s.b[i]
		if ex.branch(ex.c.Cmp(OpUlt, b, ex.c.Const(0x80, 8))) {
			it.i++
			return Tuple{ex.c.T, ex.c.Const(uint64(i), 64), ex.c.Zext(b, 32)}
		}
		f := ex.p.pkgs["unicode/utf8"].Func("DecodeRuneInString")
		r := ex.callFn(f, []Value{mkStr(it.s.b[i:])}, nil).(Tuple)
		ex.curFr = fr
		it.i += ex.concInt(r[1])
		return Tuple{ex.c.T, ex.c.Const(uint64(i), 64), r[0]}
	}
	panic("next")
}

func (ex *Exec) describe(v Value) string {
	switch v := v.(type) {
	case Iface:
		if v.t == nil {
			return "nil"
		}
		if s, ok := v.v.(Str); ok {
			return s.String()
		}
		if p, ok := v.v.(*Value); ok && p != nil {
			if st, ok := (*p).(Struct); ok && len(st) > 0 {
				if s, ok := st[0].(Str); ok {
					return v.t.String() + ":" + s.String()
				}
			}
		}
		return v.t.String() + ":" + ex.describe(v.v)
	case Str:
		return v.String()
	case *Term:
		return tstr(v)
	}
	return fmt.Sprintf("%T", v)
}

func (s Str) String() string {
	if s.b == nil {
		return s.s
	}
	x := make([]byte, len(s.b))
	for i, t := range s.b {
		x[i] = '?'
		if t.isConst() {
			x[i] = byte(t.val)
		}
	}
	return string(x)
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type divKey struct {
	t *Term
	k uint64
}

// divConst names quotient and remainder of a division by a constant with
// fresh variables tied to them by x = q*k + r: much easier for the solver than
// its division circuit.
func (ex *Exec) divConst(o Op, x, y *Term) *Term {
	c := ex.c
	if x.isConst() || !y.isConst() || y.val < 2 || y.val&(y.val-1) == 0 {
		return nil
	}
	k := y.val
	z := c.leadZero(x)
	if o == OpSdiv || o == OpSrem {
		if z == 0 || c.leadZero(y) == 0 {
			return nil
		}
	} else if z == 0 && x.w == 64 {
		return nil
	}
	w := x.w - z // significant bits
	mx := uint64(1)<<w - 1
	if w == 64 {
		return nil
	}
	if k > mx {
		if o == OpSdiv || o == OpUdiv {
			return c.Const(0, x.w)
		}
		return x
	}
	key := divKey{x, k}
	qr, ok := ex.side[key].([2]*Term)
	if !ok {
		cur := ex.eval(x)
		q, r := ex.newVar(uint8(bits.Len64(mx/k))), ex.newVar(uint8(bits.Len64(k-1)))
		ex.model[q], ex.model[r] = cur/k, cur%k
		ex.setModel(ex.model)
		ex.addPC(c.Cmp(OpUle, q, c.Const(mx/k, q.w)))
		ex.addPC(c.Cmp(OpUlt, r, c.Const(k, r.w)))
		ww := w + 1
		xs := c.Zext(c.Extract(x, w-1, 0), ww)
		ex.addPC(c.Eq(c.bin(OpAdd, c.bin(OpMul, c.Zext(q, ww), c.Const(k, ww)), c.Zext(r, ww)), xs))
		qr = [2]*Term{q, r}
		ex.side[key] = qr
		ex.side[remKey{r}] = k - 1
	}
	if o == OpSdiv || o == OpUdiv {
		return c.Zext(qr[0], x.w)
	}
	return c.Zext(qr[1], x.w)
}
