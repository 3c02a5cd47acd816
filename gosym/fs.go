package main

import (
	"go/types"
	"path"
	"sort"
	"strings"
)

// In-memory file system. Paths are usually concrete; symbolic paths are compared symbolically.
type FSNode struct {
	path Str
	dir  bool
	data []*Term
	mode uint64
}
type FS struct {
	nodes  []*FSNode
	ops    int
	writes int
	tmpN   int
}

type FSHandle struct {
	n      *FSNode
	off    int
	write  bool
	closed bool
	append bool
	path   Str
	dirpos int
}

func (ex *Exec) fsState() *FS {
	if ex.fs == nil {
		ex.fs = &FS{}
		ex.fs.nodes = append(ex.fs.nodes, &FSNode{path: str("/"), dir: true}, &FSNode{path: str("."), dir: true})
	}
	return ex.fs
}

func (ex *Exec) cleanPath(s Str) Str {
	if s.b == nil {
		return str(path.Clean(s.s))
	}
	// run the real path.Clean symbolically
	f := ex.p.pkgs["path"].Func("Clean")
	save, d := ex.curFr, ex.depth
	r := ex.callFn(f, []Value{s}, nil).(Str)
	ex.curFr, ex.depth = save, d
	return r
}

func (ex *Exec) fsFind(p Str) *FSNode {
	fs := ex.fsState()
	for _, n := range fs.nodes {
		if ex.branch(ex.strEq(n.path, p)) {
			return n
		}
	}
	return nil
}

func (ex *Exec) parentExists(p Str) bool {
	var dir Str
	if p.b == nil {
		dir = str(path.Dir(p.s))
	} else {
		f := ex.p.pkgs["path"].Func("Dir")
		save, d := ex.curFr, ex.depth
		dir = ex.callFn(f, []Value{p}, nil).(Str)
		ex.curFr, ex.depth = save, d
	}
	n := ex.fsFind(dir)
	return n != nil && n.dir
}

// crashNow ends the simulated process: deferred calls still unwind, but no
// file operation has an effect any more.
func (ex *Exec) crashNow(what string) {
	ex.crashArmed, ex.crashed = false, true
	panic(&goPanic{v: Iface{ex.rtErrType(), str("vfcrash")}, msg: "vfcrash " + what, where: ex.where()})
}

// crashPoint: the process may stop here (when the harness armed crashes).
func (ex *Exec) crashPoint(what string) {
	if ex.crashed {
		panic(&goPanic{v: Iface{ex.rtErrType(), str("vfcrash")}, msg: "vfcrash", where: ex.where()})
	}
	if !ex.crashArmed {
		return
	}
	if ex.choose(2) == 1 {
		ex.crashNow("at " + what)
	}
}

func (ex *Exec) pathErr(op string, p Str, msg string) Value {
	// *fs.PathError{Op, Path, Err}
	pk := ex.p.pkgs["io/fs"]
	if pk == nil {
		return ex.mkError(op + ": " + msg)
	}
	pt := pk.Type("PathError").Type()
	v := new(Value)
	var inner Value
	switch msg {
	case "no such file or directory":
		inner = ex.global(pk.Var("ErrNotExist"))
		inner = *(inner.(*Value))
	case "file exists":
		inner = *(ex.global(pk.Var("ErrExist")).(*Value))
	default:
		inner = ex.mkError(msg)
	}
	*v = Struct{str(op), p, inner}
	return Iface{types.NewPointer(pt), v}
}

func (ex *Exec) fsRead(p Str) ([]*Term, Value) {
	q := ex.cleanPath(p)
	n := ex.fsFind(q)
	if n == nil {
		return nil, ex.pathErr("open", p, "no such file or directory")
	}
	if n.dir {
		return nil, ex.pathErr("read", p, "is a directory")
	}
	return n.data, nil
}

func (ex *Exec) fsCreate(p Str, trunc bool) (*FSNode, Value) {
	q := ex.cleanPath(p)
	if q.Len() == 0 {
		return nil, ex.pathErr("open", p, "no such file or directory")
	}
	n := ex.fsFind(q)
	if n != nil {
		if n.dir {
			return nil, ex.pathErr("open", p, "is a directory")
		}
		if trunc {
			n.data = nil
		}
		return n, nil
	}
	if !ex.parentExists(q) {
		return nil, ex.pathErr("open", p, "no such file or directory")
	}
	n = &FSNode{path: q}
	ex.fsState().nodes = append(ex.fsState().nodes, n)
	return n, nil
}

func (ex *Exec) fsWriteData(n *FSNode, off int, data []*Term) {
	if ex.crashed {
		ex.crashPoint("write")
	}
	// a crash may leave any prefix of this write
	if ex.crashArmed {
		k := ex.choose(3) // 0: complete, 1: nothing, 2: a proper prefix
		if k == 1 {
			ex.crashNow("before write")
		}
		if k == 2 && len(data) > 0 {
			cut := 1
			if len(data) > 2 {
				cut = []int{1, len(data) / 2, len(data) - 1}[ex.choose(3)]
			}
			n.data = append(append([]*Term(nil), n.data[:min(off, len(n.data))]...), data[:cut]...)
			ex.crashNow("in write")
		}
	}
	nd := append([]*Term(nil), n.data...)
	for len(nd) < off {
		nd = append(nd, ex.c.bytes[0])
	}
	for i, b := range data {
		if off+i < len(nd) {
			nd[off+i] = b
		} else {
			nd = append(nd, b)
		}
	}
	n.data = nd
}

func (ex *Exec) fsRemove(p Str) Value {
	q := ex.cleanPath(p)
	ex.crashPoint("remove")
	fs := ex.fsState()
	n := ex.fsFind(q)
	if n == nil {
		return ex.pathErr("remove", p, "no such file or directory")
	}
	if n.dir {
		for _, m := range fs.nodes {
			if m != n && m.path.b == nil && n.path.b == nil && strings.HasPrefix(m.path.s, n.path.s+"/") {
				return ex.pathErr("remove", p, "directory not empty")
			}
		}
	}
	for i, m := range fs.nodes {
		if m == n {
			fs.nodes = append(append([]*FSNode(nil), fs.nodes[:i]...), fs.nodes[i+1:]...)
			break
		}
	}
	return Iface{}
}

func (ex *Exec) fsRename(a, b Str) Value {
	qa, qb := ex.cleanPath(a), ex.cleanPath(b)
	ex.crashPoint("rename")
	fs := ex.fsState()
	na := ex.fsFind(qa)
	if na == nil {
		return ex.pathErr("rename", a, "no such file or directory")
	}
	if !ex.parentExists(qb) {
		return ex.pathErr("rename", a, "no such file or directory")
	}
	nb := ex.fsFind(qb)
	if na == nb {
		return Iface{}
	}
	if nb != nil && nb.dir {
		return ex.pathErr("rename", a, "file exists")
	}
	if nb != nil && na.dir {
		return ex.pathErr("rename", a, "not a directory")
	}
	if na.dir && qa.b == nil && qb.b == nil {
		for _, n := range fs.nodes {
			if n != na && n.path.b == nil && strings.HasPrefix(n.path.s, qa.s+"/") {
				n.path = Str{s: qb.s + n.path.s[len(qa.s):]}
			}
		}
	}
	if nb != nil {
		for i, m := range fs.nodes {
			if m == nb {
				fs.nodes = append(append([]*FSNode(nil), fs.nodes[:i]...), fs.nodes[i+1:]...)
				break
			}
		}
	}
	na.path = qb
	return Iface{}
}

// children of a directory with concrete names, sorted
func (ex *Exec) fsChildren(dir string) []*FSNode {
	var out []*FSNode
	for _, n := range ex.fsState().nodes {
		if n.path.b != nil {
			// symbolic names: only the base part may be symbolic
			k := -1
			for i, t := range n.path.b {
				if t.isConst() && t.val == '/' {
					k = i
				}
			}
			ok := k >= 0 && allConst(n.path.b[:k]) && string(constBytes(n.path.b[:k])) == dir
			if ok {
				out = append(out, n)
			}
			continue
		}
		if n.path.s != dir && path.Dir(n.path.s) == dir && n.path.s != "." && n.path.s != "/" {
			out = append(out, n)
		}
	}
	sym := false
	for _, n := range out {
		sym = sym || n.path.b != nil
	}
	if !sym {
		sort.SliceStable(out, func(i, j int) bool { return out[i].path.String() < out[j].path.String() })
		return out
	}
	// insertion sort deciding each comparison of symbolic names
	for i := 1; i < len(out); i++ {
		for j := i; j > 0; j-- {
			a, b := out[j-1].base(), out[j].base()
			if !ex.branch(ex.bytesLess(ex.strBytes(b), ex.strBytes(a))) {
				break
			}
			out[j-1], out[j] = out[j], out[j-1]
		}
	}
	return out
}

func (n *FSNode) base() Str {
	if n.path.b == nil {
		return str(path.Base(n.path.s))
	}
	k := 0
	for i, t := range n.path.b {
		if t.isConst() && t.val == '/' {
			k = i + 1
		}
	}
	return mkStr(n.path.b[k:])
}

func (ex *Exec) fsMkdirAll(p Str) Value {
	q := ex.cleanPath(p)
	if q.b != nil {
		ex.unsupported("mkdir of symbolic path")
	}
	parts := strings.Split(q.s, "/")
	cur := ""
	for i, x := range parts {
		if i == 0 {
			cur = x
			if x == "" {
				continue
			}
		} else {
			cur += "/" + x
		}
		n := ex.fsFind(str(cur))
		if n == nil {
			ex.fsState().nodes = append(ex.fsState().nodes, &FSNode{path: str(cur), dir: true})
		} else if !n.dir {
			return ex.pathErr("mkdir", p, "not a directory")
		}
	}
	return Iface{}
}
