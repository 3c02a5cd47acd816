package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Cooperative goroutines: one host goroutine per interpreted goroutine, one baton.

type G struct {
	id    int
	wake  chan struct{}
	ready func() bool // nil: runnable
	done  bool
	fr    *frame
	depth int
}

type sendItem struct {
	v     Value
	taken bool
}
type Chan struct {
	buf     []Value
	cap     int
	closed  bool
	sendq   []*sendItem
	recvers int
	et      types.Type
	timer   bool // time.After: may fire at any scheduling point
}

func (ex *Exec) initSched() {
	g := &G{id: 0, wake: make(chan struct{}, 1)}
	ex.cur = g
	ex.gs = []*G{g}
}

func (ex *Exec) spawn(fn Value, args []Value) {
	g := &G{id: len(ex.gs), wake: make(chan struct{}, 1)}
	ex.gs = append(ex.gs, g)
	go func() {
		<-g.wake
		defer func() {
			r := recover()
			g.done = true
			if ex.killed {
				return
			}
			if r != nil {
				ex.abort = r
				ex.cur = ex.gs[0]
				ex.gs[0].wake <- struct{}{}
				return
			}
			ex.finishG()
		}()
		if ex.killed {
			panic(&pathEnd{"kill", ""})
		}
		ex.curFr, ex.depth = nil, 0
		if b, ok := fn.(*ssa.Builtin); ok {
			ex.unsupported("go builtin %s", b.Name())
		}
		ex.callValue(fn, args)
	}()
	ex.yieldPoint()
}

// finishG hands the baton to some other goroutine after the current one ended.
func (ex *Exec) finishG() {
	defer func() {
		if r := recover(); r != nil && !ex.killed {
			ex.abort = r
			ex.cur = ex.gs[0]
			ex.gs[0].wake <- struct{}{}
		}
	}()
	n := ex.pick(nil)
	if n == nil {
		ex.abort = &goPanic{v: Iface{ex.rtErrType(), str("all goroutines are asleep - deadlock!")}, msg: "deadlock: all goroutines are asleep"}
		n = ex.gs[0]
	}
	ex.cur = n
	n.wake <- struct{}{}
}

func (g *G) runnable() bool { return !g.done && (g.ready == nil || g.ready()) }

// pick chooses the next runnable goroutine (nondeterministically when scheduling is explored).
func (ex *Exec) pick(prefer *G) *G {
	var rs []*G
	if prefer != nil && prefer.runnable() {
		rs = append(rs, prefer)
	}
	for _, g := range ex.gs {
		if g != prefer && g.runnable() {
			rs = append(rs, g)
		}
	}
	if len(rs) == 0 {
		return nil
	}
	if ex.schedOn && len(rs) > 1 {
		return rs[ex.choose(len(rs))]
	}
	return rs[0]
}

func (ex *Exec) switchTo(n *G) {
	me := ex.cur
	if n == me {
		return
	}
	me.fr, me.depth = ex.curFr, ex.depth
	ex.cur = n
	n.wake <- struct{}{}
	<-me.wake
	if ex.killed {
		panic(&pathEnd{"kill", ""})
	}
	if ex.abort != nil && me.id == 0 {
		a := ex.abort
		ex.abort = nil
		panic(a)
	}
	ex.curFr, ex.depth = me.fr, me.depth
}

// yieldPoint: a place where another goroutine may run.
func (ex *Exec) yieldPoint() {
	if !ex.schedOn || len(ex.gs) == 1 || ex.preempts >= ex.h.Preempt {
		return
	}
	if fr := ex.curFr; fr != nil && strings.Contains(fr.fn.RelString(nil), ".Vf") {
		return // the fake's own steps need no other orders
	}
	n := ex.pick(ex.cur)
	if n != nil && n != ex.cur {
		// taking the turn away is bounded; giving it up is not
		ex.preempts++
	}
	ex.switchTo(n)
}

// block waits until ready() holds.
func (ex *Exec) block(ready func() bool) {
	if ex.schedOn {
		ex.yieldPoint()
	}
	for !ready() {
		me := ex.cur
		me.ready = ready
		n := ex.pick(nil)
		if n == nil {
			me.ready = nil
			if me.id == 0 {
				ex.deadlock()
			}
			ex.abort = &goPanic{v: Iface{ex.rtErrType(), str("deadlock")}, msg: "deadlock: all goroutines are asleep", where: ex.where()}
			n = ex.gs[0]
		}
		ex.switchTo(n)
		me.ready = nil
	}
}

func (ex *Exec) deadlock() {
	panic(&goPanic{v: Iface{ex.rtErrType(), str("all goroutines are asleep - deadlock!")}, msg: "deadlock: all goroutines are asleep", where: ex.where()})
}

func (ex *Exec) killAll() {
	ex.killed = true
	for _, g := range ex.gs[1:] {
		if !g.done {
			select {
			case g.wake <- struct{}{}:
			default:
			}
		}
	}
}

func (ex *Exec) chanSend(chv Value, v Value) {
	ch := chv.(*Chan)
	if ch == nil {
		ex.block(func() bool { return false })
	}
	ex.yieldPoint()
	if ch.closed {
		panic(&goPanic{v: Iface{ex.rtErrType(), str("send on closed channel")}, msg: "send on closed channel", where: ex.where()})
	}
	if ch.cap > 0 {
		ex.block(func() bool { return len(ch.buf) < ch.cap || ch.closed })
		if ch.closed {
			panic(&goPanic{v: Iface{ex.rtErrType(), str("send on closed channel")}, msg: "send on closed channel", where: ex.where()})
		}
		ch.buf = append(ch.buf, copyVal(v))
		return
	}
	it := &sendItem{v: copyVal(v)}
	ch.sendq = append(ch.sendq, it)
	ex.block(func() bool { return it.taken || ch.closed })
	if !it.taken {
		panic(&goPanic{v: Iface{ex.rtErrType(), str("send on closed channel")}, msg: "send on closed channel", where: ex.where()})
	}
}

func (ch *Chan) canRecv() bool {
	return len(ch.buf) > 0 || len(ch.sendq) > 0 || ch.closed || ch.timer
}

func (ch *Chan) take(ex *Exec) (Value, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		return v, true
	}
	if len(ch.sendq) > 0 {
		it := ch.sendq[0]
		ch.sendq = ch.sendq[1:]
		it.taken = true
		return it.v, true
	}
	if ch.timer {
		ch.timer = false
		return ex.zero(ch.et), true
	}
	return ex.zero(ch.et), false
}

func (ex *Exec) chanRecv(chv Value, et types.Type) (Value, bool) {
	ch, _ := chv.(*Chan)
	if ch == nil {
		ex.block(func() bool { return false })
	}
	ch.recvers++
	ex.block(ch.canRecv)
	ch.recvers--
	return ch.take(ex)
}

func (fr *frame) selectOp(in *ssa.Select) Value {
	ex := fr.ex
	type st struct {
		ch   *Chan
		send bool
		v    Value
	}
	var sts []st
	for _, s := range in.States {
		x := st{send: s.Dir == types.SendOnly}
		x.ch, _ = fr.get(s.Chan).(*Chan)
		if x.send {
			x.v = fr.get(s.Send)
		}
		sts = append(sts, x)
	}
	readyList := func() []int {
		var r []int
		for i, s := range sts {
			if s.ch == nil {
				continue
			}
			if s.send {
				if s.ch.closed || (s.ch.cap > 0 && len(s.ch.buf) < s.ch.cap) || (s.ch.cap == 0 && s.ch.recvers > len(s.ch.sendq)) {
					r = append(r, i)
				}
			} else if s.ch.canRecv() {
				r = append(r, i)
			}
		}
		return r
	}
	for _, s := range sts {
		if s.ch != nil && !s.send {
			s.ch.recvers++
		}
	}
	if in.Blocking {
		ex.block(func() bool { return len(readyList()) > 0 })
	} else {
		ex.yieldPoint()
	}
	for _, s := range sts {
		if s.ch != nil && !s.send {
			s.ch.recvers--
		}
	}
	ex.curFr = fr
	r := readyList()
	chosen := -1
	if len(r) > 0 {
		// timers last: they are only taken when chosen
		chosen = r[ex.choose(len(r))]
	}
	res := Tuple{ex.c.Const(uint64(int64(chosen)), 64), ex.c.F}
	for i, s := range sts {
		if s.send {
			if i == chosen {
				if s.ch.closed {
					panic(&goPanic{v: Iface{ex.rtErrType(), str("send on closed channel")}, msg: "send on closed channel", where: ex.where()})
				}
				if s.ch.cap > 0 {
					s.ch.buf = append(s.ch.buf, copyVal(s.v))
				} else {
					s.ch.sendq = append(s.ch.sendq, &sendItem{v: copyVal(s.v)})
				}
			}
			continue
		}
		if i == chosen {
			v, ok := s.ch.take(ex)
			res[1] = ex.c.Bool(ok)
			res = append(res, v)
		} else {
			et := in.States[i].Chan.Type().Underlying().(*types.Chan).Elem()
			res = append(res, ex.zero(et))
		}
	}
	return res
}
