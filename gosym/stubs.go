package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type nativeFunc func(ex *Exec, a []Value) Value

type fnEntry struct {
	native     nativeFunc
	noop       bool
	deny       string
	repo       bool
	ensureInit bool
}

var engMu sync.Mutex

// packages whose functions are empty (logging)
var noopPkgs = map[string]bool{"github.com/sirupsen/logrus": true}

// packages that must not be executed symbolically
var denyPkgs = map[string]bool{
	"reflect": true, "internal/reflectlite": true, "syscall": true, "runtime": true, "os": true, "net": true,
	"net/http": true, "encoding/json": true, "gopkg.in/yaml.v2": true, "github.com/go-yaml/yaml": true,
	"crypto/tls": true, "crypto/x509": true, "os/exec": true, "os/signal": true, "internal/poll": true,
	"google.golang.org/protobuf/proto": true, "github.com/golang/protobuf/proto": true,
	"google.golang.org/protobuf/runtime/protoimpl": true, "google.golang.org/protobuf/internal/impl": true,
	"testing": true, "github.com/gorilla/websocket": true, "github.com/go-redis/redis": true,
	"regexp": true, "regexp/syntax": true,
}

var initOK = map[string]bool{
	"errors": true, "io": true, "bytes": true, "strings": true, "strconv": true, "sort": true, "encoding/base64": true,
	"encoding/hex": true, "encoding/binary": true, "unicode": true, "unicode/utf8": true, "path": true, "path/filepath": true,
	"math": true, "math/bits": true, "time": true, "io/fs": true, "internal/oserror": true, "context": true, "bufio": true, "slices": true, "maps": true,
	"net/url": true, "net/textproto": true, "mime/quotedprintable": true, "hash": true, "golang.org/x/crypto/hkdf": true,
	"golang.org/x/crypto/pbkdf2": true, "cmp": true, "iter": true, "internal/bytealg": true, "container/list": true, "text/tabwriter": true,
	"github.com/satori/go.uuid": true, "github.com/nanu-c/zkgroup": true, "golang.org/x/text/encoding": true, "golang.org/x/text/encoding/charmap": true,
	"golang.org/x/text/transform": true, "golang.org/x/text/encoding/internal/identifier": true, "golang.org/x/text/encoding/internal": true,
	"io/ioutil": true, "github.com/Blackoverflow/gcmsiv": false, "internal/stringslite": true, "internal/byteorder": true,
	"fmt": true, "encoding": true, "math/rand": false, "math/big": true, "html": true, "mime": false, "unique": false, "internal/itoa": true, "internal/strconv": true,
}

func initAllowed(path string) bool {
	if strings.HasPrefix(path, modPath) {
		return !strings.HasSuffix(path, "/protobuf")
	}
	return initOK[path]
}

var globalOverrides map[string]func(ex *Exec, t types.Type) Value

func init() {
	globalOverrides = map[string]func(ex *Exec, t types.Type) Value{
		"crypto/rand.Reader": func(ex *Exec, t types.Type) Value { return ex.nativeIface("randReader", nil) },
		"os.Args":            func(ex *Exec, t types.Type) Value { return Slice{str("prog")} },
		"os.Stdout":          func(ex *Exec, t types.Type) Value { return &Native{kind: "devnull"} },
		"os.Stderr":          func(ex *Exec, t types.Type) Value { return &Native{kind: "devnull"} },
		"os.Stdin":           func(ex *Exec, t types.Type) Value { return &Native{kind: "devnull"} },
		"os.ErrNotExist": func(ex *Exec, t types.Type) Value {
			return *(ex.global(ex.p.pkgs["io/fs"].Var("ErrNotExist")).(*Value))
		},
		"os.ErrExist": func(ex *Exec, t types.Type) Value { return *(ex.global(ex.p.pkgs["io/fs"].Var("ErrExist")).(*Value)) },
		"net/http.DefaultTransport": func(ex *Exec, t types.Type) Value {
			tt := ex.p.pkgs["net/http"].Type("Transport").Type()
			v := new(Value)
			*v = ex.zero(tt)
			return Iface{types.NewPointer(tt), v}
		},
		"net/http.DefaultClient":      func(ex *Exec, t types.Type) Value { return (*Value)(nil) },
		"net/http.ErrUseLastResponse": func(ex *Exec, t types.Type) Value { return ex.mkError("net/http: use last response") },
		"net/http.NoBody":             func(ex *Exec, t types.Type) Value { return ex.zero(t) },
		"internal/cpu.X86":            func(ex *Exec, t types.Type) Value { return ex.zero(t) },
		"internal/bytealg.MaxLen":     func(ex *Exec, t types.Type) Value { return ex.c.Const(0, 64) },
	}
}

func (e *Engine) lookup(fn *ssa.Function) *fnEntry {
	if x, ok := e.fnCache.Load(fn); ok {
		return x.(*fnEntry)
	}
	ent := &fnEntry{}
	name := fn.String()
	if o := fn.Origin(); o != nil && o != fn {
		name = o.String()
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	} else if fn.Parent() != nil && fn.Parent().Pkg != nil {
		pkg = fn.Parent().Pkg.Pkg.Path()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		pkg = o.Pkg.Pkg.Path()
	}
	if pkg == "" {
		// wrappers: take the receiver's package
		if r := fn.Signature.Recv(); r != nil {
			if n, ok := types.Unalias(deref(r.Type())).(*types.Named); ok && n.Obj().Pkg() != nil {
				pkg = n.Obj().Pkg().Path()
			}
		}
	}
	ent.repo = strings.HasPrefix(pkg, modPath)
	if nf, ok := natives[name]; ok {
		ent.native = nf
	} else if ent.repo && strings.HasPrefix(fn.Name(), "vf") && intrinsics[fn.Name()] != nil && fn.Signature.Recv() == nil {
		ent.native = intrinsics[fn.Name()]
		ent.repo = false
	} else if fn.Synthetic == "package initializer" {
		// imports are initialized lazily, by ensureInit
		ent.native = func(ex *Exec, a []Value) Value { return nil }
	} else if noopPkgs[pkg] {
		n := fn.Name()
		if strings.HasPrefix(n, "Fatal") || strings.HasPrefix(n, "Panic") {
			ent.native = func(ex *Exec, a []Value) Value {
				panic(&goPanic{v: Iface{ex.rtErrType(), str("vfexit: " + n)}, msg: "process exit through log." + n, where: ex.where()})
			}
		} else if n == "WithFields" || n == "WithField" || n == "WithError" || n == "New" || n == "StandardLogger" {
			ent.native = func(ex *Exec, a []Value) Value {
				v := new(Value)
				*v = ex.zero(deref(fn.Signature.Results().At(0).Type()))
				return v
			}
		} else {
			ent.noop = true
		}
	} else if denyPkgs[pkg] && !(fn.Synthetic != "" && len(fn.Blocks) > 0 && pkg == "") && !allowFns[name] {
		ent.deny = "not modelled"
	} else if ent.repo && strings.HasSuffix(pkg, "/protobuf") && (fn.Name() == "ProtoReflect" || fn.Name() == "Descriptor" || fn.Name() == "EnumDescriptor") {
		ent.deny = "protobuf reflection"
	} else if ent.repo && strings.HasSuffix(pkg, "/protobuf") && (fn.Name() == "String") {
		ent.native = func(ex *Exec, a []Value) Value { return str("<pb>") }
	} else if ent.repo && strings.HasSuffix(pkg, "/protobuf") && fn.Name() == "Reset" {
		ent.native = func(ex *Exec, a []Value) Value {
			p := a[0].(*Value)
			*p = ex.zero(deref(fn.Signature.Recv().Type()))
			return nil
		}
	}
	e.fnCache.Store(fn, ent)
	return ent
}

// individual functions of denied packages that are plain Go
var allowFns = map[string]bool{
	"(net/http.Header).Get": true, "(net/http.Header).Set": true, "(net/http.Header).Add": true, "(net/http.Header).Del": true,
	"(net/http.Header).Values": true, "(net/http.Header).Clone": true,
	"net/http.NewRequest": true, "net/http.NewRequestWithContext": true, "(*net/http.Request).SetBasicAuth": true, "(*net/http.Request).BasicAuth": true,
	"net/http.basicAuth": true, "net/http.parseBasicAuth": true, "net/http.validMethod": true, "net/http.removeEmptyPort": true, "net/http.hasPort": true,
	"net/http.StatusText": true, "(*net/http.Request).Context": true, "(*net/http.Request).WithContext": true,
	"net/http.isToken": true, "net/http.init": false, "os.IsNotExist": false,
	"(*net/http.Transport).Clone": false, "net/http.ProxyURL": true, "net/http.ProxyURL$1": true, "net/http.isDomainOrSubdomain": true,
}

// ---- helpers ----

func (ex *Exec) mkError(msg string) Value { return ex.mkErrorStr(str(msg)) }
func (ex *Exec) mkErrorStr(s Str) Value {
	t := ex.p.pkgs["errors"].Type("errorString").Type()
	v := new(Value)
	*v = Struct{s}
	return Iface{types.NewPointer(t), v}
}

var nativeTypes = map[string]types.Type{}

func (ex *Exec) nativeIface(kind string, data any) Value {
	engMu.Lock()
	t, ok := nativeTypes[kind]
	if !ok {
		t = types.NewPointer(types.NewNamed(types.NewTypeName(token.NoPos, nil, "native_"+kind, nil), types.NewStruct(nil, nil), nil))
		nativeTypes[kind] = t
	}
	engMu.Unlock()
	return Iface{t, &Native{kind: kind, data: data}}
}

func nilErr() Value { return Iface{} }

func (ex *Exec) freshBytes(n int) []*Term {
	out := make([]*Term, n)
	for i := range out {
		out[i] = ex.newVar(8)
	}
	return out
}

func (ex *Exec) intV(i int) *Term { return ex.c.Const(uint64(int64(i)), 64) }

func (ex *Exec) callNamed(pkg, fn string, args ...Value) Value {
	save, d := ex.curFr, ex.depth
	f := ex.p.pkgs[pkg].Func(fn)
	r := ex.callFn(f, args, nil)
	ex.curFr, ex.depth = save, d
	return r
}

func (ex *Exec) invoke(iv Iface, name string, args ...Value) Value {
	if iv.t == nil {
		ex.nilDeref()
	}
	if n, ok := iv.v.(*Native); ok {
		return ex.nativeMethod(n, name, args)
	}
	ms := ex.p.prog.MethodSets.MethodSet(iv.t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			f := ex.p.prog.MethodValue(ms.At(i))
			save, d := ex.curFr, ex.depth
			r := ex.callFn(f, append([]Value{iv.v}, args...), nil)
			ex.curFr, ex.depth = save, d
			return r
		}
	}
	ex.unsupported("invoke %s on %v", name, iv.t)
	return nil
}

func (ex *Exec) hasMethod(t types.Type, name string) bool {
	ms := ex.p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

// ---- formatting ----

func (ex *Exec) fmtInt(t *Term, signed bool, base int) Str { return ex.fmtIntMin(t, signed, base, 1) }

// fmtIntMin formats an integer with at least min digits; symbolic values fork
// over sign and number of digits, and the digits stay symbolic.
func (ex *Exec) fmtIntMin(t *Term, signed bool, base, min int) Str {
	c := ex.c
	pad := func(s string) Str {
		neg := strings.HasPrefix(s, "-")
		s = strings.TrimPrefix(s, "-")
		for len(s) < min {
			s = "0" + s
		}
		if neg {
			s = "-" + s
		}
		return str(s)
	}
	if t.isConst() {
		if signed {
			return pad(strconv.FormatInt(sx(t.val, t.w), base))
		}
		return pad(strconv.FormatUint(t.val, base))
	}
	if ex.vague {
		return str("?")
	}
	if base != 10 && base != 16 {
		ex.unsupported("symbolic number in base %d", base)
	}
	neg := false
	if signed && c.leadZero(t) == 0 {
		if ex.branch(c.Cmp(OpSlt, t, c.Const(0, t.w))) {
			neg = true
			t = c.bin(OpSub, c.Const(0, t.w), t)
		}
	}
	b := uint64(base)
	lim := uint64(1)
	mx := uint64(1)<<t.w - 1
	if t.w == 64 {
		mx = ^uint64(0)
	}
	n := 0
	for n < min || n == 0 {
		lim *= b
		n++
		if lim > mx/b {
			break
		}
	}
	if z := c.leadZero(t); z > 0 && z < t.w {
		mx = uint64(1)<<(t.w-z) - 1
	}
	if r, ok := ex.remBound(t); ok && r < mx {
		mx = r
	}
	for lim <= mx && ex.branch(c.Not(c.Cmp(OpUlt, t, c.Const(lim, t.w)))) {
		n++
		if lim > mx/b {
			break
		}
		lim *= b
	}
	for n < min {
		n++
	}
	out := make([]*Term, n)
	if base == 10 && n <= 19 {
		for i, d := range ex.decDigits(t, n) {
			out[i] = c.bin(OpAdd, d, c.Const('0', 8))
		}
		if neg {
			out = append([]*Term{c.bytes['-']}, out...)
		}
		return mkStr(out)
	}
	div := uint64(1)
	over := false
	for i := n - 1; i >= 0; i-- {
		if over || div > mx {
			out[i] = c.bytes['0']
			continue
		}
		d := c.bin(OpUrem, c.bin(OpUdiv, t, c.Const(div, t.w)), c.Const(b, t.w))
		d8 := d
		if d.w > 8 {
			d8 = c.Extract(d, 7, 0)
		}
		if base == 10 {
			out[i] = c.bin(OpAdd, d8, c.Const('0', 8))
		} else {
			out[i] = c.Ite(c.Cmp(OpUlt, d8, c.Const(10, 8)), c.bin(OpAdd, d8, c.Const('0', 8)), c.bin(OpAdd, d8, c.Const('a'-10, 8)))
		}
		if div > mx/b {
			over = true
		} else {
			div *= b
		}
	}
	if neg {
		out = append([]*Term{c.bytes['-']}, out...)
	}
	return mkStr(out)
}

// remBound is a bound known for the remainder of a division by a constant.
func (ex *Exec) remBound(t *Term) (uint64, bool) {
	if z := ex.c.leadZero(t); z > 0 && z < t.w {
		t = ex.c.Extract(t, t.w-z-1, 0)
	}
	b, ok := ex.side[remKey{t}].(uint64)
	return b, ok
}

type remKey struct{ t *Term }

type digitKey struct {
	t *Term
	n int
}

// decDigits names the n decimal digits of t (which is below 10^n) by fresh
// variables tied to it by t = ((d0*10)+d1)*10+..., the form parsers compute.
func (ex *Exec) decDigits(t *Term, n int) []*Term {
	k := digitKey{t, n}
	if d, ok := ex.side[k]; ok {
		return d.([]*Term)
	}
	c := ex.c
	if ds := ex.knownDigits(t); ds != nil {
		for len(ds) > n { // t < 10^n
			ds = ds[1:]
		}
		for len(ds) < n {
			ds = append([]*Term{c.Const(0, 8)}, ds...)
		}
		return ds
	}
	cur := ex.eval(t)
	ds := make([]*Term, n)
	for i := n - 1; i >= 0; i-- {
		ds[i] = ex.newVar(8)
		ex.model[ds[i]] = cur % 10
		cur /= 10
	}
	ex.setModel(ex.model)
	v := c.Const(0, 64)
	for i, d := range ds {
		ex.addPC(c.Cmp(OpUle, d, c.Const(9, 8)))
		dz := c.Zext(d, 64)
		if i == 0 {
			v = dz
		} else {
			v = c.bin(OpAdd, c.bin(OpMul, v, c.Const(10, 64)), dz)
		}
	}
	ex.addPC(c.Eq(v, c.Zext(t, 64)))
	ex.side[k] = ds
	return ds
}

func (ex *Exec) fmtValue(verb rune, flags string, t types.Type, v Value, depth int) Str {
	if depth > 6 {
		return str("...")
	}
	if iv, ok := v.(Iface); ok {
		if iv.t == nil {
			return str("<nil>")
		}
		return ex.fmtValue(verb, flags, iv.t, iv.v, depth)
	}
	if n, ok := v.(*Native); ok {
		return str("<" + n.kind + ">")
	}
	if verb == 'T' {
		return str(t.String())
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		if ex.hasMethod(t, "Error") && depth < 4 {
			if p, ok := v.(*Value); !ok || p != nil {
				return ex.fmtQ(verb, ex.invoke(Iface{t, v}, "Error").(Str))
			}
		} else if ex.hasMethod(t, "String") && depth < 4 {
			if p, ok := v.(*Value); !ok || p != nil {
				if r, ok := ex.invoke(Iface{t, v}, "String").(Str); ok {
					return ex.fmtQ(verb, r)
				}
			}
		}
	}
	switch x := v.(type) {
	case *Term:
		if x.w == 0 {
			if x.isConst() {
				return str(strconv.FormatBool(x.val == 1))
			}
			if ex.branch(x) {
				return str("true")
			}
			return str("false")
		}
		b, _ := t.Underlying().(*types.Basic)
		signed := false
		if b != nil {
			_, signed = bitWidth(b)
		}
		switch verb {
		case 'd', 'v':
			return ex.fmtInt(x, signed, 10)
		case 'x':
			return ex.fmtInt(x, signed, 16)
		case 'X':
			s := ex.fmtInt(x, signed, 16)
			if s.b == nil {
				return str(strings.ToUpper(s.s))
			}
		case 'c':
			return ex.conv(types.Typ[types.String], types.Typ[types.Int32], ex.c.Zext(x, 32)).(Str)
		case 's':
			return str("%!s(int=" + ex.fmtInt(x, signed, 10).String() + ")")
		}
		return str("%!" + string(verb) + "(int)")
	case Str:
		switch verb {
		case 'x', 'X':
			return ex.hexStr(ex.strBytes(x), verb == 'X')
		}
		return ex.fmtQ(verb, x)
	case Float:
		return str(fmt.Sprintf("%"+flags+string(verb), float64(x)))
	case Slice:
		if et, ok := t.Underlying().(*types.Slice); ok {
			if b, ok := et.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				switch verb {
				case 's':
					return mkStr(terms(x))
				case 'x', 'X':
					return ex.hexStr(terms(x), verb == 'X')
				}
			}
			out := str("[")
			for i, e := range x {
				if i > 0 {
					out = ex.cat(out, str(" "))
				}
				out = ex.cat(out, ex.fmtValue(verb, flags, et.Elem(), e, depth+1))
			}
			return ex.cat(out, str("]"))
		}
	case Array:
		at := t.Underlying().(*types.Array)
		if b, ok := at.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && (verb == 'x' || verb == 'X') {
			return ex.hexStr(terms(x), verb == 'X')
		}
		out := str("[")
		for i, e := range x {
			if i > 0 {
				out = ex.cat(out, str(" "))
			}
			out = ex.cat(out, ex.fmtValue(verb, flags, at.Elem(), e, depth+1))
		}
		return ex.cat(out, str("]"))
	case *Value:
		if x == nil {
			return str("<nil>")
		}
		return str("0xc000000000")
	}
	return str(fmt.Sprintf("<%T>", v))
}

func (ex *Exec) fmtQ(verb rune, s Str) Str {
	if verb == 'q' {
		if s.b == nil {
			return str(strconv.Quote(s.s))
		}
		return ex.cat(ex.cat(str("\""), s), str("\""))
	}
	return s
}

func (ex *Exec) hexStr(b []*Term, upper bool) Str {
	digits := "0123456789abcdef"
	if upper {
		digits = "0123456789ABCDEF"
	}
	tab := make([]*Term, 16)
	for i := range tab {
		tab[i] = ex.c.bytes[digits[i]]
	}
	var out []*Term
	for _, t := range b {
		out = append(out, ex.selTab(tab, ex.c.Extract(t, 7, 4)), ex.selTab(tab, ex.c.Extract(t, 3, 0)))
	}
	return mkStr(out)
}
func (ex *Exec) selTab(tab []*Term, idx *Term) *Term {
	if idx.isConst() {
		return tab[idx.val]
	}
	return ex.selectTree(tab, ex.c.Zext(idx, 64))
}

func (ex *Exec) cat(a, b Str) Str {
	if a.b == nil && b.b == nil {
		return str(a.s + b.s)
	}
	return mkStr(append(append([]*Term(nil), ex.strBytes(a)...), ex.strBytes(b)...))
}

func (ex *Exec) sprintf(format Str, args Slice) Str {
	if format.b != nil {
		// symbolic format: treat verbs conservatively as text
		return format
	}
	f := format.s
	out := Str{}
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = ex.cat(out, str(f[i:]))
			break
		}
		out = ex.cat(out, str(f[i:i+j]))
		i += j + 1
		if i >= len(f) {
			out = ex.cat(out, str("%!(NOVERB)"))
			break
		}
		st := i
		for i < len(f) && strings.IndexByte("+-# 0", f[i]) >= 0 {
			i++
		}
		fl := f[st:i]
		ws := i
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			i++
		}
		width := 0
		if i > ws {
			width, _ = strconv.Atoi(f[ws:i])
		}
		if i < len(f) && f[i] == '.' {
			i++
			for i < len(f) && f[i] >= '0' && f[i] <= '9' {
				i++
			}
		}
		if i >= len(f) {
			out = ex.cat(out, str("%!(NOVERB)"))
			break
		}
		verb := rune(f[i])
		flags := f[st:i]
		i++
		if verb == '%' {
			out = ex.cat(out, str("%"))
			continue
		}
		if ai >= len(args) {
			out = ex.cat(out, str("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := args[ai]
		ai++
		iv, _ := a.(Iface)
		vb := verb
		if vb == 'w' {
			vb = 'v'
		}
		var s Str
		if t, ok := iv.v.(*Term); ok && vb == 'd' && t.w > 1 && width > 0 && strings.Contains(fl, "0") && !strings.Contains(fl, "-") {
			_, signed := bitWidth(iv.t.Underlying().(*types.Basic))
			s = ex.fmtIntMin(t, signed, 10, width)
			if s.Len() > width && s.b == nil && s.s[0] == '-' && s.s[1] == '0' {
				s = str("-" + s.s[2:])
			}
		} else {
			s = ex.fmtValue(vb, flags, iv.t, a, 0)
		}
		if strings.Contains(fl, "+") && (verb == 'd') && !strings.HasPrefix(s.String(), "-") {
			s = ex.cat(str("+"), s)
		}
		for s.Len() < width {
			if strings.Contains(fl, "-") {
				s = ex.cat(s, str(" "))
			} else if strings.Contains(fl, "0") {
				if s.Len() > 0 && s.b == nil && s.s[0] == '-' {
					s = str("-0" + s.s[1:])
				} else {
					s = ex.cat(str("0"), s)
				}
			} else {
				s = ex.cat(str(" "), s)
			}
		}
		out = ex.cat(out, s)
	}
	return out
}

// errorf builds an error; symbolic numbers in the text are not rendered
// (nothing observes the text of such errors).
func (ex *Exec) errorf(format Str, args Slice) Value {
	ex.vague = true
	defer func() { ex.vague = false }()
	s := ex.sprintf(format, args)
	if format.b == nil && strings.Contains(format.s, "%w") {
		for _, a := range args {
			if iv, ok := a.(Iface); ok && iv.t != nil && ex.hasMethod(iv.t, "Error") {
				t := ex.p.pkgs["fmt"].Type("wrapError").Type()
				v := new(Value)
				*v = Struct{s, iv}
				return Iface{types.NewPointer(t), v}
			}
		}
	}
	return ex.mkErrorStr(s)
}

// ---- symbolic regular expressions: Thompson simulation over Bool terms ----

func (ex *Exec) regexMatch(re string, s Str) *Term {
	if s.b == nil {
		r, err := regexp.Compile(re)
		if err != nil {
			ex.unsupported("regexp %v", err)
		}
		return ex.c.Bool(r.MatchString(s.s))
	}
	return ex.nfaMatch(re, ex.strBytes(s))
}

// ---- error inspection ----

func (ex *Exec) errUnwrap(iv Iface) Iface {
	if iv.t == nil || !ex.hasMethod(iv.t, "Unwrap") {
		return Iface{}
	}
	r, ok := ex.invoke(iv, "Unwrap").(Iface)
	if !ok {
		return Iface{}
	}
	return r
}
func (ex *Exec) errorsIs(e, target Iface) bool {
	for i := 0; i < 20; i++ {
		if e.t == nil || target.t == nil {
			return e.t == nil && target.t == nil
		}
		if types.Comparable(target.t) && types.Identical(e.t, target.t) && ex.branch(ex.equals(e.t, e.v, target.v)) {
			return true
		}
		if ex.hasMethod(e.t, "Is") {
			if ex.branch(ex.invoke(e, "Is", target).(*Term)) {
				return true
			}
		}
		e = ex.errUnwrap(e)
		if e.t == nil {
			return false
		}
	}
	return false
}
