package main

import (
	"fmt"
	"go/types"
	"path"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- sync ----
type mutexSt struct {
	locked  bool
	readers int
}
type wgSt struct{ n int }
type onceSt struct{ done bool }

func (ex *Exec) sideOf(p Value, mk func() any) any {
	pv, ok := p.(*Value)
	if !ok || pv == nil {
		ex.nilDeref()
	}
	if x, ok := ex.side[pv]; ok {
		return x
	}
	x := mk()
	ex.side[pv] = x
	return x
}

func (ex *Exec) timeVal() Value {
	// time.Time{wall, ext, loc}: build through time.Unix
	return ex.callBody(ex.p.pkgs["time"].Func("Unix"), []Value{ex.c.Const(uint64(ex.clock/1_000_000_000), 64), ex.c.Const(uint64(ex.clock%1_000_000_000), 64)})
}

func (ex *Exec) timeType(n string) types.Type { return ex.p.pkgs["time"].Type(n).Type() }

func okT(ex *Exec, v Value) Value { return Tuple{v, nilErr()} }

func init() {
	mu := func(ex *Exec, p Value) *mutexSt { return ex.sideOf(p, func() any { return &mutexSt{} }).(*mutexSt) }
	def("(*sync.Mutex).Lock (*sync.RWMutex).Lock", func(ex *Exec, a []Value) Value {
		m := mu(ex, a[0])
		ex.block(func() bool { return !m.locked && m.readers == 0 })
		m.locked = true
		return nil
	})
	def("(*sync.Mutex).TryLock (*sync.RWMutex).TryLock", func(ex *Exec, a []Value) Value {
		m := mu(ex, a[0])
		ex.yieldPoint()
		if m.locked || m.readers > 0 {
			return ex.c.F
		}
		m.locked = true
		return ex.c.T
	})
	def("(*sync.Mutex).Unlock (*sync.RWMutex).Unlock", func(ex *Exec, a []Value) Value {
		m := mu(ex, a[0])
		if !m.locked {
			panic(&goPanic{v: Iface{ex.rtErrType(), str("sync: unlock of unlocked mutex")}, msg: "fatal: sync: unlock of unlocked mutex", where: ex.where()})
		}
		m.locked = false
		return nil
	})
	def("(*sync.RWMutex).RLock", func(ex *Exec, a []Value) Value {
		m := mu(ex, a[0])
		ex.block(func() bool { return !m.locked })
		m.readers++
		return nil
	})
	def("(*sync.RWMutex).RUnlock", func(ex *Exec, a []Value) Value {
		m := mu(ex, a[0])
		if m.readers == 0 {
			panic(&goPanic{v: Iface{ex.rtErrType(), str("sync: RUnlock of unlocked RWMutex")}, msg: "fatal: sync: RUnlock of unlocked RWMutex", where: ex.where()})
		}
		m.readers--
		return nil
	})
	wg := func(ex *Exec, p Value) *wgSt { return ex.sideOf(p, func() any { return &wgSt{} }).(*wgSt) }
	def("(*sync.WaitGroup).Add", func(ex *Exec, a []Value) Value {
		w := wg(ex, a[0])
		w.n += ex.concInt(a[1])
		if w.n < 0 {
			ex.libPanic("sync: negative WaitGroup counter")
		}
		return nil
	})
	def("(*sync.WaitGroup).Done", func(ex *Exec, a []Value) Value {
		w := wg(ex, a[0])
		w.n--
		if w.n < 0 {
			ex.libPanic("sync: negative WaitGroup counter")
		}
		ex.yieldPoint()
		return nil
	})
	def("(*sync.WaitGroup).Wait", func(ex *Exec, a []Value) Value {
		w := wg(ex, a[0])
		ex.block(func() bool { return w.n == 0 })
		return nil
	})
	def("(*sync.WaitGroup).Go", func(ex *Exec, a []Value) Value {
		w := wg(ex, a[0])
		w.n++
		f := a[1]
		ex.spawn(&NativeFn{"wg.Go", func(ex *Exec, _ []Value) Value {
			ex.callValue(f, nil)
			w.n--
			return nil
		}}, nil)
		return nil
	})
	def("(*sync.Once).Do", func(ex *Exec, a []Value) Value {
		o := ex.sideOf(a[0], func() any { return &onceSt{} }).(*onceSt)
		if !o.done {
			o.done = true
			ex.callValue(a[1], nil)
		}
		return nil
	})
	onceVal := func(ex *Exec, a []Value) Value {
		f := a[0]
		var got Value
		done := false
		return &NativeFn{"once", func(ex *Exec, _ []Value) Value {
			if !done {
				done = true
				got = ex.callValue(f, nil)
			}
			return got
		}}
	}
	def("sync.OnceFunc sync.OnceValue sync.OnceValues", onceVal)
	def("(*sync.Pool).Get", func(ex *Exec, a []Value) Value {
		st := (*(a[0].(*Value))).(Struct)
		f := st[len(st)-1]
		if fn, ok := f.(*ssa.Function); ok && fn == nil {
			return Iface{}
		}
		return ex.callValue(f, nil)
	})
	def("(*sync.Pool).Put", nop)
	smap := func(ex *Exec, p Value) *Map {
		return ex.sideOf(p, func() any { return newMap(types.NewInterfaceType(nil, nil), types.NewInterfaceType(nil, nil)) }).(*Map)
	}
	def("(*sync.Map).Load", func(ex *Exec, a []Value) Value {
		if e := smap(ex, a[0]).find(ex, a[1]); e != nil {
			return Tuple{e.v, ex.c.T}
		}
		return Tuple{Iface{}, ex.c.F}
	})
	def("(*sync.Map).Store", func(ex *Exec, a []Value) Value { smap(ex, a[0]).set(ex, a[1], a[2]); return nil })
	def("(*sync.Map).Delete", func(ex *Exec, a []Value) Value { smap(ex, a[0]).del(ex, a[1]); return nil })
	def("(*sync.Map).LoadAndDelete", func(ex *Exec, a []Value) Value {
		m := smap(ex, a[0])
		if e := m.find(ex, a[1]); e != nil {
			v := e.v
			m.del(ex, a[1])
			return Tuple{v, ex.c.T}
		}
		return Tuple{Iface{}, ex.c.F}
	})
	def("(*sync.Map).LoadOrStore", func(ex *Exec, a []Value) Value {
		m := smap(ex, a[0])
		if e := m.find(ex, a[1]); e != nil {
			return Tuple{e.v, ex.c.T}
		}
		m.set(ex, a[1], a[2])
		return Tuple{a[2], ex.c.F}
	})
	// atomics
	for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		def("sync/atomic.Load"+w, func(ex *Exec, a []Value) Value { ex.yieldPoint(); return *(a[0].(*Value)) })
		def("sync/atomic.Store"+w, func(ex *Exec, a []Value) Value { ex.yieldPoint(); *(a[0].(*Value)) = a[1]; return nil })
		def("sync/atomic.Add"+w, func(ex *Exec, a []Value) Value {
			ex.yieldPoint()
			p := a[0].(*Value)
			*p = ex.c.bin(OpAdd, (*p).(*Term), a[1].(*Term))
			return *p
		})
		def("sync/atomic.CompareAndSwap"+w, func(ex *Exec, a []Value) Value {
			ex.yieldPoint()
			p := a[0].(*Value)
			if ex.branch(ex.c.Eq((*p).(*Term), a[1].(*Term))) {
				*p = a[2]
				return ex.c.T
			}
			return ex.c.F
		})
		fld := func(p Value) *Value {
			st := (*(p.(*Value))).(Struct)
			return &st[len(st)-1]
		}
		def("(*sync/atomic."+w+").Load", func(ex *Exec, a []Value) Value { ex.yieldPoint(); return *fld(a[0]) })
		def("(*sync/atomic."+w+").Store", func(ex *Exec, a []Value) Value { ex.yieldPoint(); *fld(a[0]) = a[1]; return nil })
		def("(*sync/atomic."+w+").Add", func(ex *Exec, a []Value) Value {
			ex.yieldPoint()
			p := fld(a[0])
			*p = ex.c.bin(OpAdd, (*p).(*Term), a[1].(*Term))
			return *p
		})
		def("(*sync/atomic."+w+").CompareAndSwap", func(ex *Exec, a []Value) Value {
			ex.yieldPoint()
			p := fld(a[0])
			if ex.branch(ex.c.Eq((*p).(*Term), a[1].(*Term))) {
				*p = a[2]
				return ex.c.T
			}
			return ex.c.F
		})
	}
	def("(*sync/atomic.Bool).Load", func(ex *Exec, a []Value) Value {
		st := (*(a[0].(*Value))).(Struct)
		return ex.c.Not(ex.c.Eq(st[len(st)-1].(*Term), ex.c.Const(0, 32)))
	})
	def("(*sync/atomic.Bool).Store", func(ex *Exec, a []Value) Value {
		st := (*(a[0].(*Value))).(Struct)
		st[len(st)-1] = ex.c.Ite(a[1].(*Term), ex.c.Const(1, 32), ex.c.Const(0, 32))
		return nil
	})

	// time
	def("time.Now", func(ex *Exec, a []Value) Value {
		ex.clock += 1000
		return ex.timeVal()
	})
	def("time.Sleep", func(ex *Exec, a []Value) Value { ex.yieldPoint(); return nil })
	mkTimer := func(tick bool) nativeFunc {
		return func(ex *Exec, a []Value) Value {
			nm := "Timer"
			if tick {
				nm = "Ticker"
			}
			t := ex.timeType(nm)
			st := ex.zero(t).(Struct)
			tt := t.Underlying().(*types.Struct)
			for i := 0; i < tt.NumFields(); i++ {
				if tt.Field(i).Name() == "C" {
					st[i] = &Chan{cap: 1, et: ex.timeType("Time"), timer: !ex.noTimers}
				}
			}
			v := new(Value)
			*v = st
			return v
		}
	}
	def("time.NewTicker", mkTimer(true))
	def("time.NewTimer", mkTimer(false))
	def("time.After time.Tick", func(ex *Exec, a []Value) Value {
		return &Chan{cap: 1, et: ex.timeType("Time"), timer: !ex.noTimers}
	})
	def("(*time.Ticker).Stop (*time.Ticker).Reset", nop)
	def("(*time.Timer).Stop (*time.Timer).Reset", func(ex *Exec, a []Value) Value { return ex.c.T })
	def("time.runtimeNano", func(ex *Exec, a []Value) Value { return ex.c.Const(1000, 64) })
	def("time.now", func(ex *Exec, a []Value) Value { ex.unsupported("runtime clock"); return nil })
	def("time.Since", func(ex *Exec, a []Value) Value { return ex.c.Const(1000, 64) })
	def("time.initLocal", nop)
	def("(time.Time).String (*time.Time).String", func(ex *Exec, a []Value) Value { return str("<time>") })
	def("(time.Time).Format", func(ex *Exec, a []Value) Value { return str("<time>") })

	// file system
	def("os.ReadFile io/ioutil.ReadFile", func(ex *Exec, a []Value) Value {
		d, e := ex.fsRead(a[0].(Str))
		if e != nil {
			return Tuple{Slice(nil), e}
		}
		return okT(ex, fromTerms(append([]*Term(nil), d...)))
	})
	def("os.WriteFile io/ioutil.WriteFile", func(ex *Exec, a []Value) Value {
		ex.crashPoint("writefile")
		if e := ex.fsFault("write"); e != nil {
			return e
		}
		n, e := ex.fsCreate(a[0].(Str), true)
		if e != nil {
			return e
		}
		ex.fsWriteData(n, 0, bs(a[1]))
		ex.crashPoint("writefile-done")
		return nilErr()
	})
	def("os.Remove", func(ex *Exec, a []Value) Value {
		if ex.crashed {
			ex.crashPoint("remove")
		}
		if e := ex.fsFault("remove"); e != nil {
			return e
		}
		return ex.fsRemove(a[0].(Str))
	})
	def("os.RemoveAll", func(ex *Exec, a []Value) Value {
		p := ex.cleanPath(a[0].(Str))
		ex.crashPoint("removeall")
		fs := ex.fsState()
		var keep []*FSNode
		for _, n := range fs.nodes {
			if n.path.b == nil && p.b == nil && (n.path.s == p.s || strings.HasPrefix(n.path.s, p.s+"/")) {
				continue
			}
			keep = append(keep, n)
		}
		fs.nodes = keep
		return nilErr()
	})
	def("os.Rename", func(ex *Exec, a []Value) Value {
		if e := ex.fsFault("rename"); e != nil {
			return e
		}
		return ex.fsRename(a[0].(Str), a[1].(Str))
	})
	def("os.MkdirAll os.Mkdir", func(ex *Exec, a []Value) Value { return ex.fsMkdirAll(a[0].(Str)) })
	def("os.MkdirTemp io/ioutil.TempDir", func(ex *Exec, a []Value) Value {
		ex.fsState().tmpN++
		d := str(fmt.Sprintf("/tmp/d%d", ex.fs.tmpN))
		ex.fsMkdirAll(d)
		return okT(ex, d)
	})
	def("os.IsNotExist", func(ex *Exec, a []Value) Value { return ex.c.Bool(ex.isPathErr(a[0].(Iface), "ErrNotExist")) })
	def("os.IsExist", func(ex *Exec, a []Value) Value { return ex.c.Bool(ex.isPathErr(a[0].(Iface), "ErrExist")) })
	def("os.Stat os.Lstat", func(ex *Exec, a []Value) Value {
		n := ex.fsFind(ex.cleanPath(a[0].(Str)))
		if n == nil {
			return Tuple{Iface{}, ex.pathErr("stat", a[0].(Str), "no such file or directory")}
		}
		return okT(ex, ex.nativeIface("fileinfo", n))
	})
	def("os.Open", func(ex *Exec, a []Value) Value {
		n := ex.fsFind(ex.cleanPath(a[0].(Str)))
		if n == nil {
			return Tuple{(*Value)(nil), ex.pathErr("open", a[0].(Str), "no such file or directory")}
		}
		return okT(ex, &Native{kind: "file", data: &FSHandle{n: n, path: a[0].(Str)}})
	})
	def("os.Create", func(ex *Exec, a []Value) Value {
		ex.crashPoint("create")
		if e := ex.fsFault("create"); e != nil {
			return Tuple{(*Value)(nil), e}
		}
		n, e := ex.fsCreate(a[0].(Str), true)
		if e != nil {
			return Tuple{(*Value)(nil), e}
		}
		return okT(ex, &Native{kind: "file", data: &FSHandle{n: n, write: true, path: a[0].(Str)}})
	})
	def("os.OpenFile", func(ex *Exec, a []Value) Value {
		fl := ex.concInt(a[1])
		const wronly, rdwr, app, creat, excl, trunc = 1, 2, 0x400, 0x40, 0x80, 0x200
		n := ex.fsFind(ex.cleanPath(a[0].(Str)))
		if n == nil && fl&creat == 0 {
			return Tuple{(*Value)(nil), ex.pathErr("open", a[0].(Str), "no such file or directory")}
		}
		if n != nil && fl&excl != 0 && fl&creat != 0 {
			return Tuple{(*Value)(nil), ex.pathErr("open", a[0].(Str), "file exists")}
		}
		if fl&(wronly|rdwr) != 0 {
			ex.crashPoint("openfile")
			if e := ex.fsFault("open"); e != nil {
				return Tuple{(*Value)(nil), e}
			}
			var e Value
			n, e = ex.fsCreate(a[0].(Str), fl&trunc != 0)
			if e != nil {
				return Tuple{(*Value)(nil), e}
			}
		}
		return okT(ex, &Native{kind: "file", data: &FSHandle{n: n, write: fl&(wronly|rdwr) != 0, append: fl&app != 0, path: a[0].(Str)}})
	})
	def("os.CreateTemp io/ioutil.TempFile", func(ex *Exec, a []Value) Value {
		ex.crashPoint("createtemp")
		if e := ex.fsFault("create"); e != nil {
			return Tuple{(*Value)(nil), e}
		}
		dir := a[0].(Str)
		if dir.Len() == 0 {
			dir = str("/tmp")
			ex.fsMkdirAll(dir)
		}
		ex.fsState().tmpN++
		pat := ex.constStr(a[1])
		num := fmt.Sprintf("%09d", 123456700+ex.fs.tmpN)
		if i := strings.LastIndexByte(pat, '*'); i >= 0 {
			pat = pat[:i] + num + pat[i+1:]
		} else {
			pat += num
		}
		p := ex.cat(ex.cat(dir, str("/")), str(pat))
		n, e := ex.fsCreate(p, true)
		if e != nil {
			return Tuple{(*Value)(nil), e}
		}
		return okT(ex, &Native{kind: "file", data: &FSHandle{n: n, write: true, path: p}})
	})
	fh := func(v Value) *FSHandle { return v.(*Native).data.(*FSHandle) }
	fileM := func(m string) nativeFunc {
		return func(ex *Exec, a []Value) Value {
			n, ok := a[0].(*Native)
			if !ok {
				ex.nilDeref()
			}
			return ex.nativeMethod(n, m, a[1:])
		}
	}
	for _, m := range []string{"Read", "Write", "WriteString", "Close", "Sync", "Name", "Stat", "Chmod"} {
		def("(*os.File)."+m, fileM(m))
	}
	_ = fh
	nativeMeths["file"] = map[string]nmeth{
		"Read": func(ex *Exec, n *Native, a []Value) Value {
			h := n.data.(*FSHandle)
			d := a[0].(Slice)
			if h.n.dir {
				return Tuple{ex.intV(0), ex.pathErr("read", h.path, "is a directory")}
			}
			if len(d) == 0 {
				return okT(ex, ex.intV(0))
			}
			if h.off >= len(h.n.data) {
				return Tuple{ex.intV(0), *(ex.global(ex.p.pkgs["io"].Var("EOF")).(*Value))}
			}
			k := min(len(d), len(h.n.data)-h.off)
			setBytes(d, h.n.data[h.off:h.off+k])
			h.off += k
			return okT(ex, ex.intV(k))
		},
		"Write": func(ex *Exec, n *Native, a []Value) Value { return fileWrite(ex, n, bs(a[0])) },
		"WriteString": func(ex *Exec, n *Native, a []Value) Value {
			return fileWrite(ex, n, ex.strBytes(a[0].(Str)))
		},
		"Close": func(ex *Exec, n *Native, a []Value) Value { n.data.(*FSHandle).closed = true; return nilErr() },
		"Sync":  func(ex *Exec, n *Native, a []Value) Value { ex.crashPoint("sync"); return nilErr() },
		"Chmod": func(ex *Exec, n *Native, a []Value) Value { return nilErr() },
		"Name":  func(ex *Exec, n *Native, a []Value) Value { return n.data.(*FSHandle).path },
		"Stat": func(ex *Exec, n *Native, a []Value) Value {
			return okT(ex, ex.nativeIface("fileinfo", n.data.(*FSHandle).n))
		},
	}
	nativeMeths["fileinfo"] = map[string]nmeth{
		"IsDir": func(ex *Exec, n *Native, a []Value) Value { return ex.c.Bool(n.data.(*FSNode).dir) },
		"Name":  func(ex *Exec, n *Native, a []Value) Value { return n.data.(*FSNode).base() },
		"Size":  func(ex *Exec, n *Native, a []Value) Value { return ex.intV(len(n.data.(*FSNode).data)) },
		"Mode":  func(ex *Exec, n *Native, a []Value) Value { return ex.c.Const(0o600, 32) },
	}
	def("os.ReadDir io/ioutil.ReadDir", func(ex *Exec, a []Value) Value {
		p := ex.cleanPath(a[0].(Str))
		n := ex.fsFind(p)
		if n == nil {
			return Tuple{Slice(nil), ex.pathErr("open", a[0].(Str), "no such file or directory")}
		}
		out := Slice{}
		for _, c := range ex.fsChildren(p.String()) {
			out = append(out, ex.nativeIface("fileinfo", c))
		}
		return okT(ex, out)
	})
	def("path/filepath.Walk", func(ex *Exec, a []Value) Value {
		root := a[0].(Str)
		n := ex.fsFind(ex.cleanPath(root))
		if n == nil {
			return ex.callValue(a[1], []Value{root, Iface{}, ex.pathErr("lstat", root, "no such file or directory")})
		}
		return ex.fsWalk(root, n, a[1])
	})
	def("os.Getenv", func(ex *Exec, a []Value) Value { return str("") })
	def("os.Getpid", func(ex *Exec, a []Value) Value { return ex.intV(4242) })
	def("os.Getuid", func(ex *Exec, a []Value) Value { return ex.intV(1000) })
	def("os.Getgid", func(ex *Exec, a []Value) Value { return ex.intV(1000) })
	def("os.TempDir", func(ex *Exec, a []Value) Value { ex.fsMkdirAll(str("/tmp")); return str("/tmp") })
	def("os.Getwd", func(ex *Exec, a []Value) Value { return okT(ex, str("/")) })
	def("os.Exit", func(ex *Exec, a []Value) Value {
		panic(&goPanic{v: Iface{ex.rtErrType(), str("vfexit")}, msg: "process exit", where: ex.where()})
	})

	// http
	def("(*net/http.Client).Do", func(ex *Exec, a []Value) Value {
		cl := a[0].(*Value)
		if cl == nil {
			ex.nilDeref()
		}
		st := (*cl).(Struct)
		tr := st[0].(Iface)
		if tr.t == nil || types.TypeString(tr.t, nil) == "*net/http.Transport" {
			// a connection of its own: it reaches the fake server of the harness
			if pk := ex.p.pkgs[modPath+"/transport"]; pk != nil {
				if f := pk.Func("VfRoundTrip"); f != nil {
					return ex.callValue(f, []Value{a[1]})
				}
			}
			ex.unsupported("http.Client without a fake server")
		}
		return ex.invoke(tr, "RoundTrip", a[1])
	})
	// the backend process: the harness' package crayfish may have a stand-in
	def(modPath+"/crayfish.Run", func(ex *Exec, a []Value) Value {
		if f := ex.p.pkgs[modPath+"/crayfish"].Func("VfRun"); f != nil {
			return ex.callValue(f, nil)
		}
		ex.unsupported("backend process without a stand-in")
		return nil
	})
	// websockets: the harness' package utils has the fake
	wsFn := func(ex *Exec, name string) *ssa.Function {
		if pk := ex.p.pkgs[modPath+"/utils"]; pk != nil {
			if f := pk.Func(name); f != nil {
				return f
			}
		}
		ex.unsupported("websocket without a fake server")
		return nil
	}
	wsConn := func(ex *Exec, v Value) Value {
		c, _ := v.(*Value)
		if c == nil {
			ex.nilDeref()
		}
		return ex.wsConns[c]
	}
	def("(*github.com/gorilla/websocket.Dialer).Dial", func(ex *Exec, a []Value) Value {
		r := ex.callValue(wsFn(ex, "VfWsDial"), []Value{a[1]}).(Tuple)
		if e, _ := r[1].(Iface); e.t != nil {
			return Tuple{(*Value)(nil), (*Value)(nil), r[1]}
		}
		c := new(Value)
		*c = ex.zero(ex.p.pkgs["github.com/gorilla/websocket"].Type("Conn").Type())
		if ex.wsConns == nil {
			ex.wsConns = map[*Value]Value{}
		}
		ex.wsConns[c] = r[0]
		return Tuple{c, (*Value)(nil), r[1]}
	})
	def("(*github.com/gorilla/websocket.Conn).ReadMessage", func(ex *Exec, a []Value) Value {
		return ex.callValue(wsFn(ex, "VfWsRead"), []Value{wsConn(ex, a[0])})
	})
	def("(*github.com/gorilla/websocket.Conn).WriteMessage", func(ex *Exec, a []Value) Value {
		return ex.callValue(wsFn(ex, "VfWsWrite"), []Value{wsConn(ex, a[0]), a[1], a[2]})
	})
	def("(*github.com/gorilla/websocket.Conn).Close", func(ex *Exec, a []Value) Value {
		return ex.callValue(wsFn(ex, "VfWsClose"), []Value{wsConn(ex, a[0])})
	})
	def("(*github.com/gorilla/websocket.Conn).SetReadDeadline (*github.com/gorilla/websocket.Conn).SetWriteDeadline", func(ex *Exec, a []Value) Value {
		wsConn(ex, a[0])
		return Iface{}
	})
	def("(*github.com/gorilla/websocket.Conn).SetPongHandler (*github.com/gorilla/websocket.Conn).SetPingHandler (*github.com/gorilla/websocket.Conn).SetCloseHandler (*github.com/gorilla/websocket.Conn).SetReadLimit", func(ex *Exec, a []Value) Value {
		wsConn(ex, a[0])
		return nil
	})
	def("github.com/gorilla/websocket.IsUnexpectedCloseError github.com/gorilla/websocket.IsCloseError", func(ex *Exec, a []Value) Value { return ex.c.F })
	def("os.FindProcess", func(ex *Exec, a []Value) Value {
		v := new(Value)
		*v = ex.zero(ex.p.pkgs["os"].Type("Process").Type())
		return Tuple{v, Iface{}}
	})
	def("(*os.Process).Signal (*os.Process).Kill", func(ex *Exec, a []Value) Value {
		if c, _ := a[0].(*Value); c == nil {
			ex.nilDeref()
		}
		return Iface{}
	})
	def("(*net/http.Transport).Clone", func(ex *Exec, a []Value) Value {
		v := new(Value)
		*v = copyVal(*a[0].(*Value))
		return v
	})
	def("(net/textproto.MIMEHeader).Get", func(ex *Exec, a []Value) Value {
		m, _ := a[0].(*Map)
		if e := m.find(ex, ex.canonHdr(a[1].(Str))); e != nil {
			if s := e.v.(Slice); len(s) > 0 {
				return s[0]
			}
		}
		return Str{}
	})
	def("(net/textproto.MIMEHeader).Set", func(ex *Exec, a []Value) Value {
		a[0].(*Map).set(ex, ex.canonHdr(a[1].(Str)), Slice{a[2]})
		return nil
	})
	def("(net/textproto.MIMEHeader).Add", func(ex *Exec, a []Value) Value {
		m := a[0].(*Map)
		k := ex.canonHdr(a[1].(Str))
		if e := m.find(ex, k); e != nil {
			e.v = append(append(Slice{}, e.v.(Slice)...), a[2])
		} else {
			m.set(ex, k, Slice{a[2]})
		}
		return nil
	})
	def("(net/textproto.MIMEHeader).Del", func(ex *Exec, a []Value) Value {
		m, _ := a[0].(*Map)
		m.del(ex, ex.canonHdr(a[1].(Str)))
		return nil
	})
	def("net/textproto.CanonicalMIMEHeaderKey", func(ex *Exec, a []Value) Value { return ex.canonHdr(a[0].(Str)) })
	def("net/http.NewRequest", func(ex *Exec, a []Value) Value { return ex.newRequest(a[0].(Str), a[1].(Str), a[2].(Iface)) })
	def("net/http.NewRequestWithContext", func(ex *Exec, a []Value) Value {
		return ex.newRequest(a[1].(Str), a[2].(Str), a[3].(Iface))
	})
	def("net/http.ProxyFromEnvironment", func(ex *Exec, a []Value) Value { return Tuple{(*Value)(nil), Iface{}} })
	def("net/http.StatusText", func(ex *Exec, a []Value) Value { return str("status") })
	def("crypto/x509.NewCertPool", func(ex *Exec, a []Value) Value { return &Native{kind: "certpool"} })
	def("(*crypto/x509.CertPool).AppendCertsFromPEM", func(ex *Exec, a []Value) Value { return ex.c.T })
}

func (ex *Exec) canonHdr(s Str) Str {
	if s.b != nil {
		ex.unsupported("symbolic header name")
	}
	up := true
	b := []byte(s.s)
	for i, c := range b {
		if up && c >= 'a' && c <= 'z' {
			b[i] = c - 32
		} else if !up && c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
		up = c == '-'
	}
	return str(string(b))
}

func (ex *Exec) fieldIdx(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (ex *Exec) newRequest(method, url Str, body Iface) Value {
	t := ex.p.pkgs["net/http"].Type("Request").Type()
	// parse the URL with the real parser
	u := ex.callNamed("net/url", "Parse", url).(Tuple)
	if e := u[1].(Iface); e.t != nil {
		return Tuple{(*Value)(nil), e}
	}
	st := ex.zero(t).(Struct)
	if method.Len() == 0 {
		method = str("GET")
	}
	st[ex.fieldIdx(t, "Method")] = method
	st[ex.fieldIdx(t, "URL")] = u[0]
	hm := newMap(types.Typ[types.String], types.NewSlice(types.Typ[types.String]))
	st[ex.fieldIdx(t, "Header")] = hm
	up := u[0].(*Value)
	ut := ex.p.pkgs["net/url"].Type("URL").Type()
	st[ex.fieldIdx(t, "Host")] = (*up).(Struct)[ex.fieldIdx(ut, "Host")]
	st[ex.fieldIdx(t, "ProtoMajor")] = ex.intV(1)
	st[ex.fieldIdx(t, "ProtoMinor")] = ex.intV(1)
	if body.t != nil {
		rc := body
		if !ex.hasMethod(body.t, "Close") {
			if _, isN := body.v.(*Native); !isN {
				rc = ex.callNamed("io", "NopCloser", body).(Iface)
			}
		}
		st[ex.fieldIdx(t, "Body")] = rc
		if ex.hasMethod(body.t, "Len") {
			st[ex.fieldIdx(t, "ContentLength")] = ex.invoke(body, "Len")
		}
	}
	v := new(Value)
	*v = st
	return okT(ex, v)
}

func fileWrite(ex *Exec, n *Native, b []*Term) Value {
	h := n.data.(*FSHandle)
	if h.closed || !h.write {
		return Tuple{ex.intV(0), ex.pathErr("write", h.path, "bad file descriptor")}
	}
	if e := ex.fsFault("write"); e != nil {
		return Tuple{ex.intV(0), e}
	}
	if h.append {
		h.off = len(h.n.data)
	}
	ex.fsWriteData(h.n, h.off, b)
	h.off += len(b)
	return okT(ex, ex.intV(len(b)))
}

// fsFault: an armed fault makes one operation fail.
func (ex *Exec) fsFault(op string) Value {
	if !ex.faultArmed {
		return nil
	}
	if ex.choose(2) == 1 {
		ex.faultArmed = false
		return ex.pathErr(op, str("x"), "input/output error")
	}
	return nil
}

func (ex *Exec) isPathErr(e Iface, which string) bool {
	if e.t == nil {
		return false
	}
	want := *(ex.global(ex.p.pkgs["io/fs"].Var(which)).(*Value))
	return ex.errorsIs(e, want.(Iface))
}

func (ex *Exec) fsWalk(p Str, n *FSNode, f Value) Value {
	fr, d := ex.curFr, ex.depth
	r := ex.callValue(f, []Value{p, ex.nativeIface("fileinfo", n), Iface{}}).(Iface)
	ex.curFr, ex.depth = fr, d
	if r.t != nil {
		skip := *(ex.global(ex.p.pkgs["io/fs"].Var("SkipDir")).(*Value))
		if n.dir && ex.branch(ex.equals(r.t, r, skip)) {
			return Iface{}
		}
		return r
	}
	if !n.dir {
		return Iface{}
	}
	for _, c := range ex.fsChildren(n.path.String()) {
		var cp Str
		if p.b == nil && c.path.b == nil {
			cp = str(path.Join(p.s, path.Base(c.path.s)))
		} else {
			cp = ex.cat(ex.cat(p, str("/")), c.base())
		}
		r := ex.fsWalk(cp, c, f).(Iface)
		if r.t != nil {
			return r
		}
	}
	return Iface{}
}
