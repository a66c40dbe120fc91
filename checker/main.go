package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
)

// goEnv makes the loader run /repo's own toolchain (Go 1.22), offline.
func goEnv() []string {
	for k, v := range map[string]string{
		"PATH":        "/usr/lib/go-1.22/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOPROXY":     "off",
		"GOTOOLCHAIN": "local",
		"GOFLAGS":     "-mod=readonly -buildvcs=false",
		"GOWORK":      "off",
	} {
		os.Setenv(k, v)
	}
	os.Unsetenv("GOROOT")
	return os.Environ()
}

func main() {
	if len(os.Args) > 2 && os.Args[1] == "-eval" {
		profile()
		b, err := os.ReadFile(os.Args[2])
		p, err := loadProgram("/repo", map[string][]byte{"/repo/zzverif/d.go": b}, goEnv())
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		debugEval(p, modPath+"/zzverif")
		return
	}
	cfg := &Config{}
	isWorker := flag.Bool("worker", false, "")
	only := flag.String("only", "", "drivers whose name contains this")
	verbose := flag.Bool("v", false, "")
	flag.StringVar(&cfg.prop, "prop", "", "")
	flag.StringVar(&cfg.tier, "tier", "quick", "")
	flag.StringVar(&cfg.repo, "repo", "/repo", "")
	flag.StringVar(&cfg.verif, "verif", "/verif", "")
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	flag.Int64Var(&cfg.seed, "seed", seed, "")
	flag.Parse()
	cfg.rounds = 24
	cfg.edgeBudget = 2000000
	cfg.timeout = 100 * time.Second
	if cfg.tier == "thorough" {
		cfg.rounds = 160
		cfg.edgeBudget = 20000000
		cfg.timeout = 280 * time.Second
	}
	if *isWorker {
		profile()
		worker(cfg)
		return
	}
	start := time.Now()
	out := &Report{cfg: cfg}
	fns, drop := loadDrivers(cfg)
	if *only != "" {
		var k []string
		for _, f := range fns {
			for _, o := range strings.Split(*only, ",") {
				if strings.Contains(f, o) {
					k = append(k, f)
					break
				}
			}
		}
		fns = k
	}
	for _, d := range drop {
		if strings.HasPrefix(d, cfg.prop+"_") || !strings.HasPrefix(d, "C") {
			out.dropped = append(out.dropped, d)
		}
	}
	if len(fns) > 0 {
		out.fns = runAll(cfg, fns, drop)
	}
	if *verbose {
		out.dump()
	}
	out.finish(time.Since(start))
}

// loadDrivers type-checks the drivers of a property against the current tree; drivers that
// no longer type-check (an exported name is gone) are dropped and counted.
func loadDrivers(cfg *Config) ([]string, []string) {
	drop := map[string]bool{}
	for round := 0; ; round++ {
		ov, fns, err := specOverlay(cfg, drop)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		if len(fns) == 0 {
			return nil, keys(drop)
		}
		pc := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: cfg.repo, Env: goEnv(), Overlay: ov}
		pkgs, err := packages.Load(pc, "./...")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		n := 0
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			for _, e := range p.TypeErrors {
				ps := e.Fset.Position(e.Pos)
				if strings.Contains(ps.Filename, "/zzverif/") || filepath.Base(ps.Filename) == inPkgFile {
					if f := enclosing(ov[ps.Filename], ps.Line); f != "" && !drop[f] {
						if os.Getenv("CK_DROP") != "" {
							fmt.Fprintln(os.Stderr, "dropped", f, e.Msg)
						}
						drop[f] = true
						n++
					}
				}
			}
		})
		if n == 0 || round > 5 {
			return fns, keys(drop)
		}
	}
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func enclosing(src []byte, line int) string {
	ls := strings.Split(string(src), "\n")
	for i := line - 1; i >= 0 && i < len(ls); i-- {
		if strings.HasPrefix(ls[i], "func ") {
			s := strings.TrimPrefix(ls[i], "func ")
			if j := strings.IndexAny(s, "(["); j > 0 {
				return s[:j]
			}
			return ""
		}
	}
	return ""
}

// Report gathers the results and writes evidence.
type Report struct {
	cfg     *Config
	fns     []*FnRes
	dropped []string
	viol    []Violation
	known   []string
	notes   []string
	extra   map[string]interface{}
}

type Violation struct{ id, text string }

func (r *Report) dump() {
	cov := os.Getenv("CK_COV")
	for _, f := range r.fns {
		if cov != "" {
			n := map[string]int{}
			for _, p := range f.Pairs {
				n[p.Verdict]++
			}
			fmt.Printf("COV %s %d/%d %s\n", f.Fn, n["equal"], len(f.Pairs), strings.Join(f.Calls, " "))
		}
		fmt.Printf("%s %.1fs calls=%d sites=%d obls=%d bads=%v %s\n", f.Fn, f.Wall, len(f.Calls), f.Sites, f.Obls, f.Bads, f.Failed)
		for _, p := range f.Pairs {
			fmt.Printf("   %-10s %s [%s] %s\n", p.Verdict, p.Name, p.How, p.Detail)
			if p.Verdict == "differs" || p.Verdict == "undecided" {
				fmt.Printf("        got  %s\n        want %s\n", cutTo(p.Got, cutLen-400), cutTo(p.Want, cutLen-400))
			}
		}
	}
}

func (r *Report) finish(wall time.Duration) {
	kf := loadKnown(r.cfg)
	count := map[string]int{}
	how := map[string]int{}
	funcs := map[string]bool{}
	sites, failed := 0, 0
	var undecided, failedFns, samples []string
	for _, f := range r.fns {
		for _, c := range f.Calls {
			funcs[c] = true
		}
		sites += f.Sites
		if f.Failed != "" {
			failed++
			failedFns = append(failedFns, f.Fn+": "+f.Failed)
		}
		for _, p := range f.Pairs {
			count[p.Verdict]++
			if p.Verdict == "equal" {
				how[p.How]++
				if len(samples) < 6 {
					samples = append(samples, fmt.Sprintf("%s %s: equal by %s (%s)", f.Fn, p.Name, p.How, strings.Join(f.Entry, ", ")))
				}
			}
			id := f.Fn + "/" + p.Name
			if p.Where != "" {
				id = p.Where
			}
			switch p.Verdict {
			case "differs":
				if k := kf.match(r.cfg.prop, id); k != "" {
					r.known = append(r.known, k)
				} else {
					r.viol = append(r.viol, Violation{id, violationText(r.cfg.prop, f, p)})
				}
			case "undecided", "unmodelled":
				if len(undecided) < 40 {
					undecided = append(undecided, fmt.Sprintf("%s: %s", id, cutTo(p.Detail, 160)))
				}
			}
		}
	}
	seen := map[string]bool{}
	for _, k := range r.known {
		if !seen[k] {
			seen[k] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.cfg.prop, k)
		}
	}
	dir := filepath.Join(r.cfg.verif, "evidence")
	os.MkdirAll(filepath.Join(dir, "replay"), 0o755)
	var viols []map[string]string
	for i, v := range r.viol {
		path := filepath.Join(dir, "replay", fmt.Sprintf("%s-%d.txt", r.cfg.prop, i))
		os.WriteFile(path, []byte(v.text), 0o644)
		if i < 20 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.cfg.prop, path)
			fmt.Println("  " + strings.ReplaceAll(cutTo(v.text, 900), "\n", "\n  "))
		}
		viols = append(viols, map[string]string{"id": v.id, "replay": path})
	}
	total := 0
	for _, n := range count {
		total += n
	}
	cov := map[string]interface{}{
		"explanation":             explanation[r.cfg.prop],
		"drivers":                 len(r.fns),
		"drivers_failed":          failedFns,
		"drivers_dropped":         r.dropped,
		"functions_analysed":      len(funcs),
		"instruction_sites":       sites,
		"obligations":             total,
		"equal":                   count["equal"],
		"equal_by":                how,
		"differs":                 count["differs"],
		"undecided":               count["undecided"],
		"unmodelled":              count["unmodelled"],
		"undecided_or_unmodelled": undecided,
		"samples":                 samples,
		"known_findings":          r.known,
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	evd := map[string]interface{}{
		"property": r.cfg.prop, "tier": r.cfg.tier, "seed": r.cfg.seed, "level": "other",
		"coverage": cov, "wall_s": wall.Seconds(),
		"assumptions": []string{
			"floating point is treated as exact real arithmetic; candles are market shaped (positive prices, low <= open,close <= high, increasing times)",
			"a difference of normal forms is reported only with an assignment of the free symbols that separates the two terms; differences without one count as undecided",
		},
		"violations": len(viols),
	}
	b, _ := json.MarshalIndent(evd, "", " ")
	os.WriteFile(filepath.Join(dir, r.cfg.prop+".json"), b, 0o644)
	fmt.Printf("%s: %d drivers, %d functions, %d obligations: %d equal, %d differ (%d known), %d undecided, %d unmodelled, %d drivers failed, %.0fs\n",
		r.cfg.prop, len(r.fns), len(funcs), total, count["equal"], count["differs"], len(seen), count["undecided"], count["unmodelled"], failed, wall.Seconds())
	if len(r.dropped) > 0 {
		fmt.Printf("%s: not analysed, the tree has no such declarations: %s\n", r.cfg.prop, strings.Join(r.dropped, " "))
	}
	if len(r.viol) > 0 {
		os.Exit(1)
	}
	if total == 0 && r.extra == nil {
		fmt.Printf("%s: nothing could be analysed\n", r.cfg.prop)
		os.Exit(2)
	}
}

func violationText(prop string, f *FnRes, p PairRes) string {
	var b strings.Builder
	rule := rules[prop]
	if rule == "" {
		rule = "the extracted value graph of " + p.Name + " must equal its specification"
	}
	fmt.Fprintf(&b, "rule: %s\n", rule)
	fmt.Fprintf(&b, "driver: %s\n", f.Fn)
	if p.Where != "" {
		fmt.Fprintf(&b, "site: %s\n", p.Where)
	}
	fmt.Fprintf(&b, "code: %s\n", strings.Join(f.Entry, "; "))
	fmt.Fprintf(&b, "%s\n", p.Detail)
	if p.Got != "" {
		fmt.Fprintf(&b, "extracted: %s\nrequired:  %s\n", p.Got, p.Want)
	}
	fmt.Fprintf(&b, "functions analysed: %s\n", strings.Join(f.Calls, ", "))
	return b.String()
}

type knownFindings struct{ lines [][2]string }

// loadKnown reads known_findings.txt: "finding: property=<id> site=<id> <text>" lines.
func loadKnown(cfg *Config) *knownFindings {
	k := &knownFindings{}
	b, err := os.ReadFile(filepath.Join(cfg.verif, "known_findings.txt"))
	if err != nil {
		return k
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+cfg.prop+" site=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property="+cfg.prop+" site=")
		if i := strings.Index(l, " :: "); i > 0 {
			k.lines = append(k.lines, [2]string{l[:i], l[i+4:]})
		}
	}
	return k
}

func (k *knownFindings) match(prop, id string) string {
	for _, l := range k.lines {
		if l[0] == id {
			return l[0] + " " + l[1]
		}
	}
	return ""
}
