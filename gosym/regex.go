package main

import (
	"regexp/syntax"
)

func (ex *Exec) nfaMatch(re string, b []*Term) *Term {
	rx, err := syntax.Parse(re, syntax.Perl)
	if err != nil {
		ex.unsupported("regexp %v", err)
	}
	prog, err := syntax.Compile(rx.Simplify())
	if err != nil {
		ex.unsupported("regexp %v", err)
	}
	c := ex.c
	n := len(prog.Inst)
	matched := c.F
	cur := make([]*Term, n)
	clear := func() []*Term {
		x := make([]*Term, n)
		for i := range x {
			x[i] = c.F
		}
		return x
	}
	cur = clear()
	for pos := 0; pos <= len(b); pos++ {
		// closure; unanchored start at every position
		reach := clear()
		var add func(pc int, g *Term, seen map[int]bool)
		add = func(pc int, g *Term, seen map[int]bool) {
			if g == c.F || seen[pc] {
				return
			}
			seen[pc] = true
			in := prog.Inst[pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				add(int(in.Out), g, seen)
				add(int(in.Arg), g, seen)
			case syntax.InstCapture, syntax.InstNop:
				add(int(in.Out), g, seen)
			case syntax.InstEmptyWidth:
				op := syntax.EmptyOp(in.Arg)
				ok := true
				if op&(syntax.EmptyBeginText|syntax.EmptyBeginLine) != 0 && pos != 0 {
					ok = false
				}
				if op&(syntax.EmptyEndText|syntax.EmptyEndLine) != 0 && pos != len(b) {
					ok = false
				}
				if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
					ex.unsupported("regexp word boundary")
				}
				if ok {
					add(int(in.Out), g, seen)
				}
			case syntax.InstMatch:
				matched = c.Or(matched, g)
			case syntax.InstFail:
			default:
				reach[pc] = c.Or(reach[pc], g)
			}
			delete(seen, pc)
		}
		for pc := range cur {
			if cur[pc] != c.F {
				add(pc, cur[pc], map[int]bool{})
			}
		}
		add(prog.Start, c.T, map[int]bool{})
		if pos == len(b) {
			break
		}
		nxt := clear()
		for pc := range reach {
			if reach[pc] == c.F {
				continue
			}
			in := &prog.Inst[pc]
			cond := c.F
			switch in.Op {
			case syntax.InstRuneAny:
				cond = c.T
			case syntax.InstRuneAnyNotNL:
				cond = c.Not(c.Eq(b[pos], c.bytes['\n']))
			default:
				// bytes >= 0x80 are treated as single runes: only ASCII classes are exact
				for v := 0; v < 128; {
					if !in.MatchRune(rune(v)) {
						v++
						continue
					}
					lo := v
					for v < 128 && in.MatchRune(rune(v)) {
						v++
					}
					cond = c.Or(cond, c.And(c.Cmp(OpUle, c.bytes[lo], b[pos]), c.Cmp(OpUle, b[pos], c.bytes[v-1])))
				}
			}
			nxt[in.Out] = c.Or(nxt[in.Out], c.And(reach[pc], cond))
		}
		cur = nxt
	}
	return matched
}
