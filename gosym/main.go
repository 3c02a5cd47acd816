package main

import (
	"bytes"
	_ "embed"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

//go:embed rt.go.txt
var rtSrc string

//go:embed vfos.go.txt
var vfosSrc string

//go:embed zkmodel.go.txt
var zkSrc string

type harnessFile struct {
	dir, name, path string
	src             []byte
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOTOOLCHAIN=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "CGO_ENABLED=1")
}

func fatal(code int, f string, a ...any) {
	fmt.Fprintf(os.Stderr, "gosym: "+f+"\n", a...)
	os.Exit(code)
}

func scanHarness(verif, prop string) ([]harnessFile, []string) {
	root := filepath.Join(verif, "harness")
	ds, err := os.ReadDir(root)
	if err != nil {
		fatal(2, "%v", err)
	}
	var out []harnessFile
	var dirs []string
	lp := strings.ToLower(prop)
	rel := func(n string) string {
		if n == "root" {
			return ""
		}
		return strings.ReplaceAll(n, "__", "/")
	}
	// a common file named common_X.go is used by the files that say
	// "//vf:use X" (same package) or "//vf:use pkg/path/X"
	common := map[string]harnessFile{}
	for _, d := range ds {
		fs, _ := os.ReadDir(filepath.Join(root, d.Name()))
		mine := false
		for _, f := range fs {
			if !strings.HasSuffix(f.Name(), ".go") {
				continue
			}
			hf := harnessFile{dir: rel(d.Name()), name: f.Name(), path: filepath.Join(root, d.Name(), f.Name())}
			if strings.HasPrefix(f.Name(), "common_") {
				common[hf.dir+"/"+strings.TrimSuffix(strings.TrimPrefix(f.Name(), "common_"), ".go")] = hf
			} else if strings.HasPrefix(f.Name(), lp+"_") || f.Name() == lp+".go" {
				mine = true
				out = append(out, hf)
			}
		}
		if mine {
			dirs = append(dirs, rel(d.Name()))
		}
	}
	used := map[string]bool{}
	for i := 0; i < len(out); i++ {
		b, _ := os.ReadFile(out[i].path)
		for _, u := range useRx.FindAllStringSubmatch(string(b), -1) {
			k := u[1]
			if !strings.Contains(k, "/") {
				k = out[i].dir + "/" + k
			}
			hf, ok := common[k]
			if !ok {
				fatal(2, "%s uses %s, which does not exist", out[i].path, k)
			}
			if !used[k] {
				used[k] = true
				out = append(out, hf)
			}
		}
	}
	for i := range out {
		out[i].src, err = os.ReadFile(out[i].path)
		if err != nil {
			fatal(2, "%v", err)
		}
	}
	return out, dirs
}

var useRx = regexp.MustCompile(`(?m)^//vf:use ([\w/]+)`)

var pruned []string

// pruneHarness removes the harness declarations named by type errors.
func pruneHarness(errs, repo string, files []harnessFile) bool {
	any := false
	rx := regexp.MustCompile(`(?m)^(?:-: )?(?:# .*\n)?([^\s:]+/zz_vf_[^:\s]+\.go):(\d+):(\d+): (.*)$`)
	type cut struct{ a, b int }
	for i := range files {
		f := &files[i]
		path := filepath.Join(repo, f.dir, "zz_vf_"+f.name)
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, path, f.src, 0)
		if err != nil {
			continue
		}
		cuts := map[cut]string{}
		for _, m := range rx.FindAllStringSubmatch(errs, -1) {
			if m[1] != path {
				continue
			}
			ln, _ := strconv.Atoi(m[2])
			for _, d := range af.Decls {
				a, b := fs.Position(d.Pos()), fs.Position(d.End())
				if ln < a.Line || ln > b.Line {
					continue
				}
				if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
					for _, sp := range gd.Specs {
						x, y := fs.Position(sp.Pos()), fs.Position(sp.End())
						if x.Line == ln && strings.Contains(m[4], "imported and not used") {
							cuts[cut{x.Offset, y.Offset}] = ""
						}
					}
					continue
				}
				cuts[cut{a.Offset, b.Offset}] = fmt.Sprintf("%s:%d: %s", f.name, ln, m[4])
			}
		}
		for c, why := range cuts {
			any = true
			for k := c.a; k < c.b; k++ {
				if f.src[k] != '\n' {
					f.src[k] = ' '
				}
			}
			if why != "" {
				pruned = append(pruned, why)
			}
		}
		if len(cuts) > 0 {
			f.path = ""
		}
	}
	return any
}

func pkgNameOf(src []byte) string {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", src, parser.PackageClauseOnly)
	if err != nil {
		fatal(2, "%v", err)
	}
	return f.Name.Name
}

type knownFinding struct{ prop, id, text string }

func loadKnown(path, prop string) (map[string]string, []string) {
	m := map[string]string{}
	var fixed []string
	b, err := os.ReadFile(path)
	if err != nil {
		return m, nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "finding: property="+prop+" id=") {
			r := strings.TrimPrefix(l, "finding: property="+prop+" id=")
			id, text, _ := strings.Cut(r, " ")
			m[id] = text
		}
		if strings.HasPrefix(l, "fixed: property="+prop+" ") {
			fixed = append(fixed, l)
		}
	}
	return m, fixed
}

func main() {
	if len(os.Args) < 2 {
		fatal(2, "usage: gosym check|replay ...")
	}
	cmd := os.Args[1]
	fl := flag.NewFlagSet("gosym", flag.ExitOnError)
	prop := fl.String("property", "", "property id")
	tier := fl.String("tier", "quick", "quick|thorough")
	repo := fl.String("repo", "/repo", "")
	verif := fl.String("verif", "/verif", "")
	only := fl.String("only", "", "regexp on harness names")
	verbose := fl.Bool("v", false, "")
	noreplay := fl.Bool("noreplay", false, "")
	budget := fl.Int("budget", 0, "seconds")
	workers := fl.Int("j", 0, "")
	file := fl.String("file", "", "replay file")
	fl.Parse(os.Args[2:])
	switch cmd {
	case "check":
		check(*prop, *tier, *repo, *verif, *only, *verbose, *noreplay, *budget, *workers)
	case "replay":
		replayCmd(*file, *repo, *verif)
	default:
		fatal(2, "unknown command")
	}
}

type replayFile struct {
	Property string      `json:"property"`
	Package  string      `json:"package"`
	Harness  string      `json:"harness"`
	Label    string      `json:"label"`
	Kind     string      `json:"kind"`
	Where    string      `json:"where"`
	Tier     string      `json:"tier"`
	Vals     []ReplayVal `json:"vals"`
	Native   string      `json:"native_result"`
}

func check(prop, tier, repo, verif, only string, verbose, noreplay bool, budget, nw int) {
	start := time.Now()
	if nw == 0 {
		nw = runtime.NumCPU()
	}
	files, dirs := scanHarness(verif, prop)
	if len(files) == 0 {
		fatal(2, "no harness for %s", prop)
	}
	overlay := map[string][]byte{}
	for _, d := range dirs {
		for _, f := range files {
			if f.dir == d {
				overlay[filepath.Join(repo, d, "zz_vf_rt.go")] = []byte(strings.Replace(rtSrc, "PKGNAME", pkgNameOf(f.src), 1))
			}
		}
	}
	for _, f := range files {
		overlay[filepath.Join(repo, f.dir, "zz_vf_"+f.name)] = f.src
	}
	for _, f := range files {
		if usesOwnServer(f.src) {
			for p, b := range ownServer(repo) {
				overlay[p] = b
			}
		}
	}
	p, err := Load(repo, dirs, overlay)
	for i := 0; err != nil && i < 12; i++ {
		// a renamed or re-typed internal function takes only the harness functions that use it with it
		if !pruneHarness(err.Error(), repo, files) {
			break
		}
		for _, f := range files {
			overlay[filepath.Join(repo, f.dir, "zz_vf_"+f.name)] = f.src
		}
		p, err = Load(repo, dirs, overlay)
	}
	if err != nil {
		fatal(2, "the harnesses do not build against the current tree: %v", err)
	}
	loadT := time.Since(start)
	e := &Engine{p: p, pmsgs: map[string]*pmsg{}, verbose: verbose, solver: "z3-new", timeout: 20000}
	if s := os.Getenv("VF_SOLVER"); s != "" {
		e.solver = s
	}
	secs := 150
	if tier == "thorough" {
		e.tier = 1
		secs = 600
	}
	if budget > 0 {
		secs = budget
	}
	rx := regexp.MustCompile("^V" + prop + "_")
	rxOnly := regexp.MustCompile(only)
	for _, d := range dirs {
		pp := modPath
		if d != "" {
			pp += "/" + d
		}
		sp := p.pkgs[pp]
		if sp == nil {
			fatal(2, "package %s not loaded", pp)
		}
		docs := map[string]string{}
		for _, f := range files {
			if f.dir == d {
				for k, v := range harnessDocs(f.src) {
					docs[k] = v
				}
			}
		}
		for n, m := range sp.Members {
			fn, ok := m.(*ssa.Function)
			if !ok || !rx.MatchString(n) || !rxOnly.MatchString(n) {
				continue
			}
			h := &Harness{Name: n, Prop: prop, Pkg: pp, Dir: d, fn: fn, MaxDecisions: 3000, MaxConcretize: 70, MaxSteps: 40_000_000, MaxPaths: 200000, Preempt: 2}
			for _, l := range strings.Split(docs[n], "\n") {
				l = strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(l), "//"))
				if !strings.HasPrefix(l, "vf:") {
					continue
				}
				k, v, _ := strings.Cut(strings.TrimPrefix(l, "vf:"), "=")
				iv, _ := strconv.Atoi(v)
				switch k {
				case "thorough":
					h.Thorough = true
				case "fixedrand":
					h.FixedRand = true
				case "permute":
					h.PermuteMaps = true
				case "noreplay":
					h.NoReplay = true
				case "decisions":
					h.MaxDecisions = iv
				case "steps":
					h.MaxSteps = iv
				case "paths":
					h.MaxPaths = iv
				case "preempt":
					h.Preempt = iv
				case "concretize":
					h.MaxConcretize = iv
				default:
					fatal(2, "%s: unknown option %s", n, k)
				}
			}
			if tier == "thorough" {
				h.Preempt++
			} else if h.Thorough {
				continue
			}
			e.hs = append(e.hs, h)
		}
	}
	sort.Slice(e.hs, func(i, j int) bool { return e.hs[i].Name < e.hs[j].Name })
	if len(e.hs) == 0 {
		fatal(2, "no harness functions for %s", prop)
	}
	e.deadline = time.Now().Add(time.Duration(secs) * time.Second)
	e.Run(nw)
	exploreT := time.Since(start) - loadT

	// native replay
	var rep *replayer
	validated, diverged := 0, []string{}
	known, fixed := loadKnown(filepath.Join(verif, "known_findings.txt"), prop)
	violations := 0
	knownSeen := map[string]int{}
	var unconfirmed []string
	type repOut struct{ line string }
	var lines []string
	if !noreplay {
		rep = newReplayer(repo, files, tier)
		defer rep.close()
		for _, h := range e.hs {
			// violations first
			byKey := map[string][]*Violation{}
			var keys []string
			for _, v := range h.Viol {
				k := v.Label + "\x00" + v.Known
				if v.Kind == "panic" {
					// one report per kind of crash and place
					k = regexp.MustCompile(`-?[0-9]+`).ReplaceAllString(v.Label, "#") + v.Where + "\x00" + v.Known
				}
				if byKey[k] == nil {
					keys = append(keys, k)
				}
				byKey[k] = append(byKey[k], v)
			}
			for _, k := range keys {
				vs := byKey[k]
				sort.SliceStable(vs, func(i, j int) bool { return vs[i].Natural && !vs[j].Natural })
				var conf *Violation
				var res *nativeRes
				why := ""
				for _, v := range vs {
					r, err := rep.run(h, []*Sample{{Harness: v.Harness, Vals: v.Vals}})
					if err != nil {
						fatal(2, "native replay: %v", err)
					}
					if reproduces(v, r[0]) {
						conf, res = v, r[0]
						break
					}
					why = r[0].Status + " " + firstLine(r[0].Msg)
					if os.Getenv("GOSYM_DBG") != "" {
						fmt.Println(r[0].Msg, r[0].Failed)
					}
				}
				if conf == nil {
					unconfirmed = append(unconfirmed, fmt.Sprintf("%s: %s (%s): counterexample of the idealised model does not reproduce natively: %s", h.Name, vs[0].Label, vs[0].Where, why))
					continue
				}
				if conf.Known != "" {
					if _, ok := known[conf.Known]; ok {
						knownSeen[conf.Known]++
						continue
					}
				}
				violations++
				rp := filepath.Join(verif, "evidence", fmt.Sprintf("replay-%s-%s-%d.json", prop, h.Name, violations))
				rf := replayFile{Property: prop, Package: h.Dir, Harness: h.Name, Label: conf.Label, Kind: conf.Kind, Where: conf.Where, Tier: tier, Vals: conf.Vals, Native: res.Status + " " + strings.Join(res.Failed, "; ") + " " + res.Msg}
				jb, _ := json.MarshalIndent(rf, "", " ")
				os.MkdirAll(filepath.Dir(rp), 0755)
				os.WriteFile(rp, jb, 0644)
				lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, rp))
				lines = append(lines, fmt.Sprintf("  harness %s: %s (%s) at %s; native: %s %s", h.Name, conf.Label, conf.Kind, conf.Where, res.Status, firstLine(res.Msg)))
			}
		}
		// witnesses of good paths
		for _, h := range e.hs {
			if h.NoReplay || len(h.Samples) == 0 || rep.crashes(h.Dir) {
				continue
			}
			rs, err := rep.run(h, h.Samples)
			if err != nil {
				diverged = append(diverged, h.Name+": "+err.Error())
				continue
			}
			for i, r := range rs {
				s := h.Samples[i]
				if r.Status == "ok" && len(r.Failed) == 0 && strings.Join(r.Obs, "\n") == strings.Join(s.Expect, "\n") {
					validated++
					h.Natural++
				} else {
					d := fmt.Sprintf("%s: native run of a symbolic path differs: %s %s %v", h.Name, r.Status, firstLine(r.Msg), r.Failed)
					if r.Status == "ok" {
						for k := 0; k < len(r.Obs) || k < len(s.Expect); k++ {
							a, b := "-", "-"
							if k < len(s.Expect) {
								a = s.Expect[k]
							}
							if k < len(r.Obs) {
								b = r.Obs[k]
							}
							if a != b {
								d += fmt.Sprintf(" at observation %d: symbolic %.80s native %.80s", k, a, b)
								break
							}
						}
					}
					if os.Getenv("GOSYM_DBG") != "" {
						jb, _ := json.Marshal(s.Vals)
						fmt.Fprintln(os.Stderr, d, string(jb), r.Msg)
					}
					diverged = append(diverged, d)
				}
			}
		}
	}
	for id, text := range known {
		if knownSeen[id] > 0 {
			lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s %s", prop, id, text))
		} else {
			lines = append(lines, fmt.Sprintf("note: known finding %s of %s was not seen in this run", id, prop))
		}
	}
	writeEvidence(e, prop, tier, verif, start, loadT, exploreT, violations, validated, diverged, unconfirmed, known, knownSeen, fixed, noreplay)
	for _, h := range e.hs {
		np := 0
		for _, c := range h.Paths {
			np += c
		}
		fmt.Printf("%s %s: paths %v reach %v steps %d decisions %d asserts %d validated %d/%d worker-time %v dropped %d\n", prop, h.Name, h.Paths, h.Reach, h.Steps, h.Decis, h.Asserts, h.Natural, len(h.Samples), h.Time.Round(time.Millisecond), h.dropped)
		for _, n := range sortedNotes(h.Notes) {
			fmt.Printf("  bound/unsupported: %.400s\n", n)
		}
		if noreplay {
			for _, v := range h.Viol {
				fmt.Printf("  candidate: %s at %s natural=%v known=%s\n", v.Label, v.Where, v.Natural, v.Known)
			}
		}
	}
	for _, u := range pruned {
		fmt.Println("  not built against this tree:", u)
	}
	for _, u := range unconfirmed {
		fmt.Println("  unconfirmed:", u)
	}
	for _, u := range diverged {
		fmt.Println("  diverged:", u)
	}
	fmt.Printf("queries %d (sat %d unsat %d unknown %d) solver %v max %v lemmas %d load %v explore %v total %v\n", e.stats.Queries, e.stats.Sat, e.stats.Unsat, e.stats.Unknown, e.stats.Time.Round(time.Millisecond), e.stats.MaxQuery.Round(time.Millisecond), e.stats.Lemmas, loadT.Round(time.Millisecond), exploreT.Round(time.Millisecond), time.Since(start).Round(time.Millisecond))
	for _, l := range lines {
		fmt.Println(l)
	}
	if violations > 0 {
		if rep != nil {
			rep.close()
		}
		os.Exit(1)
	}
}

func firstLine(s string) string {
	s, _, _ = strings.Cut(s, "\n")
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

func reproduces(v *Violation, r *nativeRes) bool {
	if v.Kind == "panic" {
		return r.Status == "panic"
	}
	for _, f := range r.Failed {
		if f == v.Label {
			return true
		}
	}
	return false
}

func harnessDocs(src []byte) map[string]string {
	out := map[string]string{}
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", src, parser.ParseComments)
	if err != nil {
		return out
	}
	for _, d := range f.Decls {
		if fd, ok := d.(interface{ Pos() token.Pos }); ok {
			_ = fd
		}
	}
	// directives: comment lines immediately before "func NAME"
	lines := strings.Split(string(src), "\n")
	rx := regexp.MustCompile(`^func (V\w+)\(`)
	for i, l := range lines {
		if m := rx.FindStringSubmatch(l); m != nil {
			var c []string
			for k := i - 1; k >= 0 && strings.HasPrefix(lines[k], "//"); k-- {
				c = append(c, lines[k])
			}
			out[m[1]] = strings.Join(c, "\n")
		}
	}
	return out
}

// ---- native replay ----

type nativeRes struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Failed []string `json:"failed"`
	Obs    []string `json:"obs"`
}

type replayer struct {
	repo  string
	files []harnessFile
	tmp   string
	bins  map[string]string
	tier  string
}

func newReplayer(repo string, files []harnessFile, tier string) *replayer {
	t, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fatal(2, "%v", err)
	}
	return &replayer{repo: repo, files: files, tmp: t, bins: map[string]string{}, tier: tier}
}

func (r *replayer) close() { os.RemoveAll(r.tmp) }

func (r *replayer) build(dir string) (string, error) {
	if b, ok := r.bins[dir]; ok {
		return b, nil
	}
	rep := map[string]string{}
	var names []string
	pkg := ""
	key := strings.ReplaceAll(dir, "/", "_")
	needed := map[string]bool{}
	for more := true; more; {
		more = false
		for _, f := range r.files {
			if f.dir != dir && !needed[f.dir+"/"+f.name] {
				continue
			}
			for _, u := range useRx.FindAllStringSubmatch(string(f.src), -1) {
				k := f.dir + "/common_" + u[1] + ".go"
				if i := strings.LastIndex(u[1], "/"); i >= 0 {
					k = u[1][:i] + "/common_" + u[1][i+1:] + ".go"
				}
				more = more || !needed[k]
				needed[k] = true
			}
		}
	}
	for _, f := range r.files {
		fp := f.path
		if fp == "" {
			fp = filepath.Join(r.tmp, key+"_"+strings.ReplaceAll(f.dir, "/", "_")+"_"+f.name)
			os.WriteFile(fp, f.src, 0600)
		}
		if f.dir != dir {
			// shared code of another package; it has no runtime there
			if needed[f.dir+"/"+f.name] {
				rep[filepath.Join(r.repo, f.dir, "zz_vf_"+f.name)] = fp
			}
			continue
		}
		rep[filepath.Join(r.repo, dir, "zz_vf_"+f.name)] = fp
		pkg = pkgNameOf(f.src)
		for _, m := range regexp.MustCompile(`(?m)^func (VC\w+)\(\)`).FindAllStringSubmatch(string(f.src), -1) {
			names = append(names, m[1])
		}
	}
	rt := filepath.Join(r.tmp, key+"_rt.go")
	os.WriteFile(rt, []byte(strings.Replace(rtSrc, "PKGNAME", pkg, 1)), 0600)
	rep[filepath.Join(r.repo, dir, "zz_vf_rt.go")] = rt
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport \"testing\"\n\nfunc TestVF(t *testing.T) {\n\tvfMain(map[string]func(){\n", pkg)
	for _, n := range names {
		fmt.Fprintf(&sb, "\t\t%q: %s,\n", n, n)
	}
	sb.WriteString("\t})\n}\n")
	mt := filepath.Join(r.tmp, key+"_main_test.go")
	os.WriteFile(mt, []byte(sb.String()), 0600)
	rep[filepath.Join(r.repo, dir, "zz_vf_main_test.go")] = mt
	if r.crashes(dir) {
		mod := modulePath(r.repo)
		vo := filepath.Join(r.tmp, "vfos.go")
		os.WriteFile(vo, []byte(vfosSrc), 0600)
		rep[filepath.Join(r.repo, "zzvfos", "vfos.go")] = vo
		cr := filepath.Join(r.tmp, key+"_crash.go")
		os.WriteFile(cr, []byte("package "+pkg+"\n\nimport \""+mod+"/zzvfos\"\n\nfunc init() { vfOS = (*vfOSState)(zzvfos.S) }\n"), 0600)
		rep[filepath.Join(r.repo, dir, "zz_vf_crash.go")] = cr
		n := 0
		filepath.Walk(r.repo, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() && (fi.Name() == ".git" || fi.Name() == "vendor" || fi.Name() == "testdata") {
				return filepath.SkipDir
			}
			if fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			if b, err := os.ReadFile(p); err == nil {
				if nb := redirectFS(b, mod); nb != nil {
					n++
					np := filepath.Join(r.tmp, fmt.Sprintf("%s_fs%d_%s", key, n, filepath.Base(p)))
					os.WriteFile(np, nb, 0600)
					rep[p] = np
				}
			}
			return nil
		})
	}
	if r.uses(dir, "vfSched(true)") {
		srcs, _ := filepath.Glob(filepath.Join(r.repo, dir, "*.go"))
		for i, p := range srcs {
			if b, err := os.ReadFile(p); err == nil && !strings.HasSuffix(p, "_test.go") {
				np := filepath.Join(r.tmp, fmt.Sprintf("%s_pt%d_%s", key, i, filepath.Base(p)))
				os.WriteFile(np, insertPoints(b), 0600)
				rep[p] = np
			}
		}
	}
	if needed["crayfish/common_backend.go"] {
		// no backend process is started natively either
		srcs, _ := filepath.Glob(filepath.Join(r.repo, "crayfish", "*.go"))
		for i, p := range srcs {
			from := p
			if rep[p] != "" {
				from = rep[p]
			}
			b, err := os.ReadFile(from)
			if err != nil || !bytes.Contains(b, []byte("\nfunc Run() {")) {
				continue
			}
			np := filepath.Join(r.tmp, fmt.Sprintf("%s_run%d.go", key, i))
			os.WriteFile(np, bytes.Replace(b, []byte("\nfunc Run() {"), []byte("\nfunc Run() { VfRun() }\n\nfunc vfRealRun() {"), 1), 0600)
			rep[p] = np
		}
	}
	for _, f := range r.files {
		if usesOwnServer(f.src) && (f.dir == dir || needed[f.dir+"/"+f.name]) {
			for p, b := range ownServer(r.repo) {
				if from := rep[p]; from != "" {
					fb, err := os.ReadFile(from)
					if err != nil {
						continue
					}
					b = asOwnServer(fb)
				}
				np := filepath.Join(r.tmp, key+"_own_"+filepath.Base(p))
				os.WriteFile(np, b, 0600)
				rep[p] = np
			}
		}
	}
	ts, _ := filepath.Glob(filepath.Join(r.repo, dir, "*_test.go"))
	for _, t := range ts {
		rep[t] = ""
	}
	ov := filepath.Join(r.tmp, key+"_overlay.json")
	jb, _ := json.Marshal(map[string]any{"Replace": rep})
	os.WriteFile(ov, jb, 0600)
	bin := filepath.Join(r.tmp, key+".test")
	target := "./" + dir
	c := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ov, "-o", bin, target)
	c.Dir = r.repo
	c.Env = goEnv()
	if out, err := c.CombinedOutput(); err != nil {
		return "", fmt.Errorf("go test -c: %v\n%s", err, out)
	}
	r.bins[dir] = bin
	return bin, nil
}

func (r *replayer) run(h *Harness, cases []*Sample) ([]*nativeRes, error) {
	bin, err := r.build(h.Dir)
	if err != nil {
		return nil, err
	}
	in, out := filepath.Join(r.tmp, "in.json"), filepath.Join(r.tmp, "out.json")
	jb, _ := json.Marshal(cases)
	os.WriteFile(in, jb, 0600)
	os.Remove(out)
	scratch := filepath.Join(r.tmp, "work")
	os.RemoveAll(scratch)
	os.MkdirAll(scratch, 0700)
	c := exec.Command("timeout", "-k", "5", "120", bin, "-test.run", "^TestVF$", "-test.timeout", "110s")
	c.Dir = scratch
	t := "0"
	if r.tier == "thorough" {
		t = "1"
	}
	c.Env = append(goEnv(), "VF_IN="+in, "VF_OUT="+out, "VF_TIER="+t, "TMPDIR="+scratch, "HOME="+scratch, "LD_LIBRARY_PATH="+zkLib(r.repo))
	if r.uses(h.Dir, "vfSched(true)") {
		n := "5"
		if len(cases) == 1 {
			n = "80"
		}
		c.Env = append(c.Env, "VF_JITTER="+n)
	}
	if r.crashes(h.Dir) {
		c.Env = append(c.Env, "VF_CRASH=1")
	}
	txt, rerr := c.CombinedOutput()
	b, err := os.ReadFile(out)
	if err != nil {
		if len(cases) == 1 {
			return []*nativeRes{{Status: "panic", Msg: fmt.Sprintf("process ended: %v\n%.2000s", rerr, txt)}}, nil
		}
		// isolate
		var all []*nativeRes
		for _, k := range cases {
			x, err := r.run(h, []*Sample{k})
			if err != nil {
				return nil, err
			}
			all = append(all, x...)
		}
		return all, nil
	}
	var res []*nativeRes
	if err := json.Unmarshal(b, &res); err != nil {
		return nil, err
	}
	if len(res) != len(cases) {
		return nil, fmt.Errorf("replay returned %d results for %d cases", len(res), len(cases))
	}
	return res, nil
}

func (r *replayer) uses(dir, what string) bool {
	for _, f := range r.files {
		if f.dir == dir && strings.Contains(string(f.src), what) {
			return true
		}
	}
	return false
}

// insertPoints puts a call of vfPoint before every statement.
func insertPoints(src []byte) []byte {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, 0)
	if err != nil {
		return src
	}
	at, clauses := map[int]bool{}, map[*ast.BlockStmt]bool{}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.LabeledStmt); !ok {
				at[fs.Position(s.Pos()).Offset] = true
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			if !clauses[x] {
				list(x.List)
			}
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.SwitchStmt:
			clauses[x.Body] = true
		case *ast.TypeSwitchStmt:
			clauses[x.Body] = true
		case *ast.SelectStmt:
			clauses[x.Body] = true
		}
		return true
	})
	var out []byte
	for i, b := range src {
		if at[i] {
			out = append(out, "vfPoint(); "...)
		}
		out = append(out, b)
	}
	return out
}

// crashes: the harness of this package stops the process in the middle of
// file operations.
func (r *replayer) crashes(dir string) bool {
	for _, f := range r.files {
		if f.dir == dir && strings.Contains(string(f.src), "vfCrash(") {
			return true
		}
	}
	return false
}

// redirectFS sends the file operations of a source file through the native
// runtime, which can stop the process at any of them.
func redirectFS(src []byte, mod string) []byte {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, 0)
	if err != nil {
		return nil
	}
	ops := map[string]string{"os.WriteFile": "WriteFile", "ioutil.WriteFile": "WriteFile", "os.Remove": "Remove", "os.RemoveAll": "RemoveAll", "os.Rename": "Rename", "os.Create": "Create", "os.OpenFile": "OpenFile", "os.CreateTemp": "CreateTemp", "ioutil.TempFile": "CreateTemp", "os.Truncate": "Truncate"}
	type edit struct {
		a, b int
		s    string
	}
	var es []edit
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok {
				if o, ok := ops[x.Name+"."+s.Sel.Name]; ok {
					es = append(es, edit{fs.Position(s.Pos()).Offset, fs.Position(s.End()).Offset, "zzvfos." + o})
					used[x.Name] = true
				}
			}
		}
		return true
	})
	if len(es) == 0 {
		return nil
	}
	out := string(src)
	for i := len(es) - 1; i >= 0; i-- {
		out = out[:es[i].a] + es[i].s + out[es[i].b:]
	}
	p := fs.Position(f.Name.End()).Offset
	out = out[:p] + "; import \"" + mod + "/zzvfos\"" + out[p:]
	if used["os"] {
		out += "\nvar _ = os.Args\n"
	}
	if used["ioutil"] {
		out += "\nvar _ = ioutil.Discard\n"
	}
	return []byte(out)
}

func modulePath(repo string) string {
	b, _ := os.ReadFile(filepath.Join(repo, "go.mod"))
	if m := regexp.MustCompile(`(?m)^module (\S+)`).FindSubmatch(b); m != nil {
		return string(m[1])
	}
	return ""
}

var zkDir string

func zkLib(repo string) string {
	if zkDir == "" {
		c := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", "github.com/nanu-c/zkgroup")
		c.Dir = repo
		c.Env = goEnv()
		b, _ := c.Output()
		zkDir = strings.TrimSpace(string(b)) + "/lib"
	}
	return zkDir
}

func replayCmd(file, repo, verif string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal(2, "%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fatal(2, "%v", err)
	}
	files, _ := scanHarness(verif, rf.Property)
	rep := newReplayer(repo, files, rf.Tier)
	defer rep.close()
	rs, err := rep.run(&Harness{Name: rf.Harness, Dir: rf.Package}, []*Sample{{Harness: rf.Harness, Vals: rf.Vals}})
	if err != nil {
		fatal(2, "%v", err)
	}
	fmt.Printf("status %s\nfailed %v\n%s\n", rs[0].Status, rs[0].Failed, rs[0].Msg)
	if reproduces(&Violation{Kind: rf.Kind, Label: rf.Label}, rs[0]) {
		fmt.Println("REPRODUCED")
		rep.close()
		os.Exit(1)
	}
}

func writeEvidence(e *Engine, prop, tier, verif string, start time.Time, loadT, exploreT time.Duration, violations, validated int, diverged, unconfirmed []string, known map[string]string, knownSeen map[string]int, fixed []string, noreplay bool) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	states, trans := int64(0), int64(0)
	var hsum []map[string]any
	complete := true
	var samples []any
	var bounds []string
	for _, h := range e.hs {
		np := 0
		for k, c := range h.Paths {
			np += c
			if k != "ok" && k != "assume" && k != "panic" {
				complete = false
			}
		}
		if h.dropped > 0 {
			complete = false
			bounds = append(bounds, fmt.Sprintf("%s: %d unexplored branches when the budget ended", h.Name, h.dropped))
		}
		states += int64(np) + h.Decis
		trans += h.Steps
		hsum = append(hsum, map[string]any{"harness": h.Name, "package": h.Pkg, "paths": h.Paths, "reached": h.Reach, "ssa_instructions": h.Steps,
			"decisions": h.Decis, "assertions_discharged": h.Asserts, "witnesses_replayed_natively": h.Natural, "incomplete": sortedNotes(h.Notes),
			"unexplored": h.dropped, "bounds": fmt.Sprintf("<=%d decisions, <=%d instructions per path, <=%d values per concretised term; sizes as written in the harness", h.MaxDecisions, h.MaxSteps, h.MaxConcretize)})
		for i, s := range h.Samples {
			if i < 1 && len(samples) < 6 {
				samples = append(samples, map[string]any{"harness": s.Harness, "inputs": s.Vals, "observed": s.Expect})
			}
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "no complete path was sampled")
	}
	enc := sortedKeys(e.encoded)
	var kf []string
	for id := range known {
		kf = append(kf, fmt.Sprintf("%s seen %d times", id, knownSeen[id]))
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": time.Since(start).Seconds(), "violations": violations,
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
			"meaning":             "states: symbolic path nodes (paths plus decisions) each standing for every input on that path; transitions: SSA instructions executed symbolically; traces_validated: path witnesses re-run against the compiled code with equal observations",
			"functions_encoded":   enc,
			"functions_encoded_n": len(enc),
			"harnesses":           hsum,
			"solver":              e.solver, "solver_queries": e.stats.Queries, "sat": e.stats.Sat, "unsat": e.stats.Unsat, "unknown": e.stats.Unknown,
			"solver_time_s": e.stats.Time.Seconds(), "longest_query_s": e.stats.MaxQuery.Seconds(), "axiom_instances": e.stats.Lemmas,
			"load_s": loadT.Seconds(), "explore_s": exploreT.Seconds(),
			"exhaustive_within_bounds": complete, "reduced_coverage": bounds, "diverged_witnesses": diverged, "harness_code_not_built": pruned, "unconfirmed_counterexamples": unconfirmed,
			"known_findings": kf, "fixed_findings": fixed, "native_replay": !noreplay,
		},
		"assumptions": []string{
			"hashes, MACs, AES, GCM and X25519 are idealised (uninterpreted, with functionality, inversion and collision-freedom axioms instantiated on demand); constant arguments use the real functions",
			"randomness from crypto/rand is an arbitrary value; files live in an in-memory file system; JSON/YAML text is represented by an opaque token for the encoded tree; protobuf is encoded by a wire-format codec driven by the generated struct tags",
			"every reported violation is reproduced by running the compiled repository code on the solver's values",
		},
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	jb, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), jb, 0644); err != nil {
		fatal(2, "%v", err)
	}
}
