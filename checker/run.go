package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Config of one check run.
type Config struct {
	prop, tier, repo, verif string
	seed                    int64
	rounds                  int
	edgeBudget              int // evaluation steps spent on boundary points per obligation
	timeout                 time.Duration
}

type PairRes struct {
	Name    string `json:"name"`
	Verdict string `json:"verdict"` // equal, differs, undecided, unmodelled
	How     string `json:"how,omitempty"`
	Detail  string `json:"detail,omitempty"`
	Got     string `json:"got,omitempty"`
	Want    string `json:"want,omitempty"`
	Where   string `json:"where,omitempty"`
	Tried   int    `json:"tried,omitempty"`
	Edges   int    `json:"edges,omitempty"`
}

type FnRes struct {
	Fn     string         `json:"fn"`
	Entry  []string       `json:"entry"`
	Pairs  []PairRes      `json:"pairs"`
	Calls  []string       `json:"calls"`
	Sites  int            `json:"sites"`
	Obls   int            `json:"obls"`
	Bads   map[string]int `json:"bads,omitempty"`
	Wall   float64        `json:"wall"`
	Failed string         `json:"failed,omitempty"`
	sig    *types.Tuple
}

// specFiles are the driver sources for a property: /verif/spec/common.go and every file
// defining a function of the property.
func specOverlay(cfg *Config, drop map[string]bool) (map[string][]byte, []string, error) {
	dir := filepath.Join(cfg.verif, "spec")
	es, err := os.ReadDir(dir)
	if err != nil {
		return nil, nil, err
	}
	ov := map[string][]byte{}
	var fns []string
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			return nil, nil, err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, e.Name(), b, parser.ParseComments)
		if err != nil {
			return nil, nil, err
		}
		use := e.Name() == "common.go"
		var mine []string
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			if belongs(fd.Name.Name, cfg.prop) && !drop[fd.Name.Name] && (cfg.tier == "thorough" || !heavy(fd, cfg.prop)) {
				mine = append(mine, fd.Name.Name)
				use = true
			}
			if drop[fd.Name.Name] {
				// blank out a driver that no longer type-checks, keeping positions
				blank(b, fset.Position(fd.Pos()).Offset, fset.Position(fd.End()).Offset)
			}
		}
		if use {
			ov[filepath.Join(cfg.repo, "zzverif", e.Name())] = b
			fns = append(fns, mine...)
		}
	}
	if len(fns) > 0 {
		if err := inPackage(cfg, drop, ov); err != nil {
			return nil, nil, err
		}
	}
	sort.Strings(fns)
	return ov, fns, nil
}

// inPackage adds the property's accessors, spec/inpkg/<property>.<package>.go: exported names for
// unexported functions a driver has to call. They live in the overlay only.
func inPackage(cfg *Config, drop map[string]bool, ov map[string][]byte) error {
	m, _ := filepath.Glob(filepath.Join(cfg.verif, "spec", "inpkg", cfg.prop+".*.src"))
	for _, n := range m {
		b, err := os.ReadFile(n)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, n, b, 0)
		if err != nil {
			return err
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && drop[fd.Name.Name] {
				blank(b, fset.Position(fd.Pos()).Offset, fset.Position(fd.End()).Offset)
			}
		}
		pkg := strings.Split(filepath.Base(n), ".")[1]
		ov[filepath.Join(cfg.repo, filepath.FromSlash(strings.ReplaceAll(pkg, "_", "/")), inPkgFile)] = b
	}
	return nil
}

const inPkgFile = "zz_verif_accessors.go"

func blank(b []byte, lo, hi int) {
	for i := lo; i < hi; i++ {
		if b[i] != '\n' {
			b[i] = ' '
		}
	}
}

// heavy drivers run in the thorough tier only.
func heavy(fd *ast.FuncDecl, prop string) bool {
	if fd.Doc != nil {
		for _, c := range fd.Doc.List {
			if c.Text == "//zz:thorough" || c.Text == "//zz:thorough "+prop {
				return true
			}
		}
	}
	return false
}

// belongs: C18_x is a driver of C18; X_x drives the whole-library properties.
func belongs(name, prop string) bool {
	if strings.HasPrefix(name, prop+"_") {
		return true
	}
	switch prop {
	case "C03", "C07":
		return strings.HasPrefix(name, "X_")
	case "C08":
		return strings.HasPrefix(name, "X_") && !strings.HasPrefix(name, "X_ta_")
	}
	return false
}

func worker(cfg *Config) {
	debug.SetMaxStack(2 << 30)
	anyTimes = cfg.prop == "C14" || cfg.prop == "C13" || cfg.prop == "C12"
	drop := map[string]bool{}
	for _, n := range strings.Split(os.Getenv("CK_DROP"), ",") {
		drop[n] = true
	}
	ov, _, err := specOverlay(cfg, drop)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	p, err := loadProgram(cfg.repo, ov, goEnv())
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	sp := p.ssa[modPath+"/zzverif"]
	in := bufio.NewScanner(os.Stdin)
	out := bufio.NewWriter(os.Stdout)
	for in.Scan() {
		fn, _ := sp.Members[in.Text()].(*ssa.Function)
		var r *FnRes
		if fn == nil {
			r = &FnRes{Fn: in.Text(), Failed: "no such driver"}
		} else {
			r = runDriver(cfg, p, fn)
		}
		b, _ := json.Marshal(r)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

func seedOf(parts ...interface{}) int64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	return int64(h.Sum64() >> 1)
}

func runDriver(cfg *Config, p *Program, fn *ssa.Function) (res *FnRes) {
	t0 := time.Now()
	res = &FnRes{Fn: fn.Name(), Bads: map[string]int{}}
	defer func() {
		res.Wall = time.Since(t0).Seconds()
		for k := range res.Bads {
			if strings.HasPrefix(k, "lost:") {
				// an effect could not be modelled: nothing the graph says is evidence
				for i := range res.Pairs {
					if res.Pairs[i].Verdict == "differs" {
						res.Pairs[i].Verdict = "unmodelled"
						res.Pairs[i].Detail = k + "; " + res.Pairs[i].Detail
					}
				}
			}
		}
		if r := recover(); r != nil {
			res.Failed = fmt.Sprint("panic: ", r)
			if os.Getenv("CK_TRACE") != "" {
				debug.PrintStack()
			}
		}
	}()
	ev := newEv(p)
	ev.shallow = strings.HasPrefix(fn.Name(), "C12_")
	var args []Val
	for _, q := range fn.Params {
		args = append(args, ev.inputVal(q.Name(), q.Type(), nil, false))
	}
	if strings.Contains(fn.Name(), "_shape_") {
		res.Entry = entries(p, fn)
		res.shapeOp(p, fn)
		return
	}
	ev.rawInserts = strings.HasPrefix(fn.Name(), "C17_")
	v, f, m, ok := ev.evalFunc(nil, fn, args, nil, nil, newFacts(), Mem{})
	for n := range ev.calls {
		if !strings.Contains(n, "/zzverif.") {
			res.Calls = append(res.Calls, strings.ReplaceAll(n, modPath+"/", ""))
		}
	}
	sort.Strings(res.Calls)
	res.Entry = entries(p, fn)
	res.Sites = ev.sites
	res.Obls = len(ev.obls)
	for k, n := range ev.bads {
		res.Bads[k] = n
	}
	switch {
	case strings.HasPrefix(fn.Name(), "C12_safe"):
		res.panics(cfg, p, ev)
		return
	case fn.Name() == "C27_schedule":
		res.Bads = map[string]int{} // a rule over the SSA, the extraction plays no part
		res.schedule(p, fn)
		return
	case fn.Name() == "C15_order":
		res.Bads = map[string]int{}
		res.streamOrder(p, fn)
		return
	case strings.HasPrefix(fn.Name(), "X_"):
		res.sig = fn.Signature.Results()
		res.safety(cfg, p, ev, v, f, m, ok)
		return
	}
	if !ok {
		res.Failed = "never returns"
		return
	}
	vs, isT := v.(TupleV)
	if !isT {
		vs = TupleV{v}
	}
	rt := fn.Signature.Results()
	c := &comparer{ev: ev, m: m}
	if rt.Len() == 1 {
		if t, ok := vs[0].(*Term); ok && t.sort == SBool {
			c.add("claim", f, t, tTrue)
		} else {
			c.fail("claim", "not a boolean: "+valString(vs[0]), f)
		}
	} else {
		for i := 0; i+1 < rt.Len(); i += 2 {
			n := rt.At(i).Name()
			if n == "" {
				n = fmt.Sprintf("result%d", i/2)
			}
			c.eq(n, f, vs[i], vs[i+1], rt.At(i).Type(), 0)
		}
	}
	for _, pr := range c.out {
		res.Pairs = append(res.Pairs, decide(cfg, fn.Name(), pr))
	}
	if strings.HasPrefix(fn.Name(), "C15_") {
		res.panics(cfg, p, ev)
	}
	return
}

func decide(cfg *Config, fn string, pr *Pair) PairRes {
	r := PairRes{Name: pr.name}
	if pr.bad != "" {
		r.Verdict, r.Detail = "unmodelled", pr.bad
		return r
	}
	a, b := pr.facts.simp(pr.a), pr.facts.simp(pr.b)
	if a == b {
		r.Verdict, r.How = "equal", "normal form"
		return r
	}
	if a.bad || b.bad {
		// a component may still be well defined where the opaque part is not reached
		r.Detail = "opaque part"
	}
	w, st := separate(pr.facts.lits(), a, b, cfg.rounds, seedOf(cfg.seed, fn, pr.name))
	r.Tried = st.agreed
	if w != nil {
		r.Verdict = "differs"
		r.Detail = fmt.Sprintf("at %s: extracted %s, required %s", w.text, w.a, w.b)
		r.Got, r.Want = cutTo(a.String(), cutLen), cutTo(b.String(), cutLen)
		return r
	}
	if proveEq(pr.facts, a, b) {
		r.Verdict, r.How = "equal", "case split / induction"
		return r
	}
	if ts := edgeTargets(a, b); len(ts) > 0 && !a.bad && !b.bad {
		sm := newSampler(pr.facts.lits(), []*Term{a, b})
		w, n := sm.edges(a, b, ts, cfg.rounds*2, cfg.edgeBudget, seedOf(cfg.seed, fn, pr.name, "edge"))
		r.Edges = n
		if w != nil {
			r.Verdict = "differs"
			r.Detail = fmt.Sprintf("at %s: extracted %s, required %s", w.text, w.a, w.b)
			r.Got, r.Want = cutTo(a.String(), cutLen), cutTo(b.String(), cutLen)
			return r
		}
	}
	r.Verdict = "undecided"
	r.Detail = fmt.Sprintf("%s not separated on %d points (%v) and %d boundary points", r.Detail, st.agreed, st.why, r.Edges)
	r.Got, r.Want = cutTo(a.String(), cutLen), cutTo(b.String(), cutLen)
	return r
}

func cutTo(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// entries are the repository functions called directly by the driver.
func entries(p *Program, fn *ssa.Function) []string {
	seen := map[string]bool{}
	var out []string
	var walk func(f *ssa.Function, d int)
	walk = func(f *ssa.Function, d int) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g != nil && g.Pkg == nil && g.Origin() != nil {
					g = g.Origin()
				}
				if g == nil || g.Pkg == nil {
					continue
				}
				if strings.HasSuffix(g.Pkg.Pkg.Path(), "/zzverif") {
					if d < 3 {
						walk(g, d+1)
					}
					continue
				}
				if !inModule(g) {
					continue
				}
				s := p.pos(g.Pos()) + " " + strings.ReplaceAll(g.String(), modPath+"/", "")
				if !seen[s] {
					seen[s] = true
					out = append(out, s)
				}
			}
		}
	}
	walk(fn, 0)
	return out
}

// ---- parent

type job struct {
	fn  string
	res *FnRes
}

func runAll(cfg *Config, fns []string, drop []string) []*FnRes {
	nw := 8
	if len(fns) < nw {
		nw = len(fns)
	}
	queue := make(chan string, len(fns))
	for _, f := range fns {
		queue <- f
	}
	close(queue)
	var mu sync.Mutex
	var out []*FnRes
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *proc
			for f := range queue {
				if w == nil {
					w = startWorker(cfg, drop, 24000/nw)
				}
				r, alive := w.do(f, cfg.timeout)
				if !alive {
					w.kill()
					w = nil
				}
				mu.Lock()
				out = append(out, r)
				mu.Unlock()
			}
			if w != nil {
				w.kill()
			}
		}()
	}
	wg.Wait()
	// a worker the machine ended (memory) gets a second run on its own
	for i, r := range out {
		if r.Failed == "worker died" {
			w := startWorker(cfg, drop, 24000)
			out[i], _ = w.do(r.Fn, cfg.timeout)
			w.kill()
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Fn < out[j].Fn })
	return out
}

type proc struct {
	cmd   *exec.Cmd
	in    *bufio.Writer
	lines chan string
	n     int
}

func startWorker(cfg *Config, drop []string, mem int) *proc {
	if mem > 9000 {
		mem = 9000
	}
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "-worker", "-prop", cfg.prop, "-tier", cfg.tier, "-repo", cfg.repo, "-verif", cfg.verif, "-seed", fmt.Sprint(cfg.seed))
	cmd.Env = append(os.Environ(), "CK_DROP="+strings.Join(drop, ","), fmt.Sprintf("GOMEMLIMIT=%dMiB", mem), "GOGC=400")
	cmd.Stderr = os.Stderr
	in, _ := cmd.StdinPipe()
	outp, _ := cmd.StdoutPipe()
	p := &proc{cmd: cmd, in: bufio.NewWriter(in), lines: make(chan string, 4)}
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	go func() {
		rd := bufio.NewReaderSize(outp, 1<<20)
		for {
			s, err := rd.ReadString('\n')
			if s != "" {
				p.lines <- s
			}
			if err != nil {
				close(p.lines)
				return
			}
		}
	}()
	return p
}

func (p *proc) do(fn string, timeout time.Duration) (*FnRes, bool) {
	p.n++
	fmt.Fprintln(p.in, fn)
	p.in.Flush()
	extra := time.Duration(0)
	if p.n == 1 {
		extra = 120 * time.Second // loading
	}
	t := time.Now()
	select {
	case s, ok := <-p.lines:
		if !ok {
			return &FnRes{Fn: fn, Failed: "worker died", Wall: time.Since(t).Seconds()}, false
		}
		r := &FnRes{}
		if err := json.Unmarshal([]byte(s), r); err != nil {
			return &FnRes{Fn: fn, Failed: err.Error()}, false
		}
		return r, p.n < 40
	case <-time.After(timeout + extra):
		return &FnRes{Fn: fn, Failed: "time limit", Wall: time.Since(t).Seconds()}, false
	}
}

func (p *proc) kill() {
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

var cutLen = func() int {
	if os.Getenv("CK_FULL") != "" {
		return 20000
	}
	return 700
}()
