// vgen generates and discharges the verification conditions of the contracts
// in /verif/contracts against the current source of the repository.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type result struct {
	obl *Obl
	ok  bool
}

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification tree")
	only := flag.String("only", "", "verify only this contract")
	noDrv := flag.Bool("nodriver", false, "skip the driver")
	verbose := flag.Bool("v", false, "print obligations")
	flag.Parse()
	if f := os.Getenv("VGEN_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
		rc := check(*prop, *tier, *repo, *verif, *only, *noDrv, *verbose)
		pprof.StopCPUProfile()
		os.Exit(rc)
	}
	os.Exit(check(*prop, *tier, *repo, *verif, *only, *noDrv, *verbose))
}

// propFiles lists the contract files that belong to prop.
func propFiles(dir, prop string) (map[string]bool, []string) {
	all, _ := listContracts(dir)
	has := map[string]bool{}
	pats := map[string]bool{}
	for rel, f := range all {
		b, err := os.ReadFile(f)
		if err != nil || strings.HasPrefix(rel, "internal/vf/") {
			continue
		}
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "//vf:props ") {
				for _, w := range strings.Fields(l)[1:] {
					if w == prop {
						has[rel] = true
						pats["./"+filepath.Dir(rel)] = true
					}
				}
			}
			if strings.HasPrefix(l, "//vf:package ") && has[rel] {
				pats[strings.Fields(l)[1]] = true
			}
		}
	}
	var out []string
	for p := range pats {
		out = append(out, p)
	}
	sort.Strings(out)
	return has, out
}

func check(prop, tier, repo, verif, only string, noDrv, verbose bool) int {
	start := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	secs := 20
	if tier == "thorough" {
		secs = 60
	}
	deadline := start.Add(560 * time.Second)
	if tier == "thorough" {
		deadline = start.Add(800 * time.Second)
	}
	drv := make(chan *driverRes, 1)
	go func() {
		if noDrv {
			drv <- &driverRes{}
			return
		}
		drv <- runDriver(repo, verif, prop, tier)
	}()

	var fails []string
	var execs []*Exec
	var obls []*Obl
	has, _ := propFiles(filepath.Join(verif, "contracts"), prop)
	p := (*Program)(nil)
	var notes []string
	nContr := 0
	trustedSet := map[string]bool{}
	inl, byC, mod, ext := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	underContract := []string{}
	nameOf := map[*Obl]string{}
	dup := map[string]*Obl{}
	alias := map[*Obl]*Obl{}
	// discharge
	var wg sync.WaitGroup
	ch := make(chan *Obl, 1<<20)
	var mu sync.Mutex
	nfail := 0
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for o := range ch {
				s := secs
				if o.expectFail {
					s = 1
				}
				mu.Lock()
				if nfail >= 3 && s > 3 {
					s = 3
				}
				if nfail >= 12 {
					s = 1
				}
				enough := nfail >= 25
				nm := nameOf[o]
				mu.Unlock()
				if enough && !o.expectFail {
					o.res = solverRes{"unknown", "none", 0, "not tried: too many obligations have failed already"}
				} else if time.Now().After(deadline) {
					o.res = solverRes{"unknown", "none", 0, "time is up"}
				} else if o.expectFail {
					o.res = proveQuick(o.pc, o.goal)
				} else {
					o.res = prove(nm, o.pc, o.goal, s, tier == "thorough")
				}
				if o.res.verdict != "unsat" && !o.expectFail {
					mu.Lock()
					nfail++
					mu.Unlock()
				}
			}
		}()
	}
	submit := func(x *Exec) {
		for i, o := range x.obls {
			mu.Lock()
			nameOf[o] = fmt.Sprintf("%s#%d %s: %s", o.fn, i, o.kind, o.label)
			mu.Unlock()
			obls = append(obls, o)
			k := oblKey(o)
			if d, ok := dup[k]; ok && !o.expectFail {
				alias[o] = d
				continue
			}
			dup[k] = o
			ch <- o
		}
		execs = append(execs, x)
	}
	if len(has) > 0 {
		var err error
		p, err = load(repo, filepath.Join(verif, "contracts"), []string{"./internal/...", "./gen/go/rq/...", "go.opentelemetry.io/proto/otlp/common/v1", "go.opentelemetry.io/proto/otlp/resource/v1", "go.opentelemetry.io/proto/otlp/logs/v1", "go.opentelemetry.io/proto/otlp/metrics/v1", "go.opentelemetry.io/proto/otlp/trace/v1", "go.opentelemetry.io/proto/otlp/collector/logs/v1", "go.opentelemetry.io/proto/otlp/collector/metrics/v1", "go.opentelemetry.io/proto/otlp/collector/trace/v1", "github.com/gernest/roaring/shardwidth"})
		if err != nil {
			fails = append(fails, "engine: "+err.Error())
		} else {
			for _, d := range p.dropped {
				f, _, _ := strings.Cut(d, ":")
				if has[f] {
					fails = append(fails, "contract "+d)
				} else {
					notes = append(notes, "contract file of other properties left out: "+d)
				}
			}
			for _, e := range p.evalAxioms() {
				fails = append(fails, "engine: "+e)
			}
			for _, c := range p.cs {
				if !c.listed(prop) || (only != "" && c.name != only) {
					continue
				}
				if c.trusted {
					trustedSet["contract assumed without a proof: "+shortName(c.target)] = true
					continue
				}
				if c.pool {
					nContr++
					x := verifyPool(p, prop, c)
					submit(x)
					underContract = append(underContract, "pool of "+shortName(typeKey(c.params[0].Type())))
					continue
				}
				if c.ssaFn == nil || c.ssaFn.Blocks == nil {
					if c.optional {
						notes = append(notes, "helper "+shortName(c.target)+" is gone, its callers are verified without its contract")
						continue
					}
					fails = append(fails, "function under contract is gone: "+shortName(c.target))
					continue
				}
				nContr++
				t0 := time.Now()
				x := verify(p, prop, c)
				if verbose {
					fmt.Printf("executed %s: %d obligations, %d exits, %.1fs %v (feasibility so far: %d calls %.1fs)\n", c.name, len(x.obls), x.exits, time.Since(t0).Seconds(), x.errs, feasCount.Load(), float64(feasNs.Load())/1e9)
				}
				submit(x)
				underContract = append(underContract, shortName(c.target))
			}
		}
	}
	for _, x := range execs {
		for _, e := range x.errs {
			fails = append(fails, "engine: "+x.fnName()+": "+e)
		}
		for _, n := range sortedKeys(x.notes) {
			notes = append(notes, n)
		}
		for k := range x.inlined {
			inl[shortName(k)] = true
		}
		for k := range x.byContr {
			byC[shortName(k)] = true
		}
		for k := range x.models {
			mod[k] = true
		}
		for k := range x.externals {
			ext[k] = true
		}
		for k := range x.trusted {
			trustedSet["contract assumed without a proof: "+shortName(k)] = true
		}
	}
	close(ch)
	wg.Wait()
	// A few obligations left open may just have been short of time.
	open := []*Obl{}
	for _, o := range obls {
		if !o.expectFail && alias[o] == nil && o.res.verdict == "unknown" {
			open = append(open, o)
		}
	}
	if len(open) <= 4 && len(fails) == 0 && os.Getenv("VGEN_FAST") == "" {
		for _, o := range open {
			left := int(time.Until(deadline).Seconds())
			if left < 20 {
				break
			}
			o.res = proveLong(nameOf[o], o.pc, o.goal, min(left, 100))
			if o.res.verdict != "unsat" {
				break
			}
		}
	}
	for o, d := range alias {
		o.res = d.res
	}
	total, done := 0, 0
	reach := map[string][2]int{}
	byKind := map[string]int{}
	var failed []*Obl
	slow := 0.0
	for _, o := range obls {
		if o.expectFail {
			k := o.fn + "|" + o.label + "|" + o.pos
			r := reach[k]
			r[0]++
			if o.res.verdict == "unsat" {
				r[1]++
			}
			reach[k] = r
			continue
		}
		total++
		byKind[o.kind]++
		if o.res.secs > slow {
			slow = o.res.secs
		}
		if o.res.verdict == "unsat" {
			done++
			if verbose && o.res.secs > 1 {
				fmt.Printf("ok %.1fs %s %s\n", o.res.secs, nameOf[o], o.res.backend)
			}
			continue
		}
		failed = append(failed, o)
		d := fmt.Sprintf("obligation %s", nameOf[o])
		if o.pos != "" {
			d += " at " + o.pos
		}
		fails = append(fails, d+" ("+o.res.verdict+")")
	}
	lemmas, _ := filepath.Glob(filepath.Join(verif, "contracts", "lemmas", prop+"*.smt2"))
	for _, f := range lemmas {
		b, _ := os.ReadFile(f)
		total++
		byKind["lemma"]++
		v := "unknown"
		if v, _ = runSolver("cvc5", []string{"--strings-exp", "--lang", "smt2"}, string(b), time.Duration(secs*5)*time.Second); v != "unsat" {
			v, _ = runSolver("z3", []string{"-in", "-smt2"}, string(b), time.Duration(secs)*time.Second)
		}
		if v == "unsat" {
			done++
		} else {
			fails = append(fails, "lemma "+filepath.Base(f)+" ("+v+")")
		}
	}
	for _, k := range sortedKeys(reach) {
		if r := reach[k]; r[0] == r[1] {
			fails = append(fails, "vacuous: the assumptions contradict each other at "+k)
		}
	}
	if nContr > 0 && total == 0 && len(fails) == 0 {
		fails = append(fails, "engine: no obligations were generated")
	}
	d := <-drv
	if d.infra != "" {
		notes = append(notes, "bounded driver gave no answer: "+d.infra)
	}

	// report
	os.MkdirAll(filepath.Join(verif, "evidence", "replay"), 0755)
	replay := filepath.Join(verif, "evidence", "replay", prop+".txt")
	os.Remove(replay)
	known := readKnown(filepath.Join(verif, "known-findings.txt"), prop)
	rc := 0
	for _, k := range d.known {
		id, txt, _ := strings.Cut(k, " ")
		if known[strings.TrimPrefix(id, "id=")] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, txt)
		} else {
			d.failed = true
			d.out = k + "\n" + d.out
		}
	}
	if d.failed || len(fails) > 0 {
		rc = 1
		var b strings.Builder
		fmt.Fprintf(&b, "property %s is violated\n\n", prop)
		for _, f := range fails {
			fmt.Fprintf(&b, "FAILED %s\n", f)
		}
		if d.failed {
			fmt.Fprintf(&b, "\nfailing input, found by running the real code:\n%s\n\nreproduce with:\n%s\n", d.out, d.cmd)
		}
		for i, o := range failed {
			if i >= 6 {
				break
			}
			out := o.res.out
			if len(out) > 4000 {
				out = out[:4000]
			}
			fmt.Fprintf(&b, "\n==== %s\nsolver (%s): %s\n%s\ngoal: %s\n", nameOf[o], o.res.backend, o.res.verdict, out, cut(o.goal.String(), 3000))
		}
		os.WriteFile(replay, []byte(b.String()), 0644)
		if d.failed {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replay)
		}
		for i, f := range fails {
			if i >= 20 {
				fmt.Printf("  ... and %d more\n", len(fails)-i)
				break
			}
			fmt.Println("  " + f)
		}
		if d.failed {
			fmt.Println(indent(cut(d.out, 3000)))
		}
	}
	ev := map[string]any{}
	level := "proof"
	if nContr == 0 {
		level = "exploration"
	}
	var tb []string
	tb = append(tb, "vgen condition generator (/verif/vgen), golang.org/x/tools/go/ssa v0.52.0", "Z3 5.3.2, cvc5 1.1.2, Z3 4.8.12", "Go type checker and memory model for data-race free code")
	tb = append(tb, sortedKeys(trustedSet)...)
	for _, m := range sortedKeys(mod) {
		tb = append(tb, "library model: "+m)
	}
	cov := map[string]any{
		"obligations": total, "discharged": done,
		"checker_cmd":  fmt.Sprintf("/verif/check.sh %s %s", prop, tier),
		"trusted_base": tb,
	}
	if level == "proof" {
		sort.Strings(underContract)
		cov["functions_under_contract"] = underContract
		cov["functions_verified_by_inlining"] = sortedKeys(inl)
		cov["calls_by_contract"] = sortedKeys(byC)
		cov["obligations_by_kind"] = byKind
		cov["discharged_by"] = backends
		cov["solver_seconds"] = round(float64(solverNs.Load()) / 1e9)
		cov["slowest_obligation_seconds"] = round(slow)
		cov["solver_runs"] = solverRuns.Load()
		cov["vacuity_guards"] = len(reach)
		cov["havocked_external_functions"] = sortedKeys(ext)
	}
	if len(d.stats) > 0 || level != "proof" {
		cov["bounded_driver"] = d.stats
		cov["evaluations"] = d.stats["cases"]
		cov["distinct_nontrivial"] = d.stats["distinct"]
		cov["rule"] = "generated and enumerated inputs run through the real code and compared with an independent oracle (bounded, never counted as proved); distinct counts different inputs"
		cov["samples"] = d.samples
	}
	if p != nil {
		for _, a := range p.axiomNames {
			_ = a
		}
	}
	notes = append(notes, "machine integers are exact (wrapping), floats are uninterpreted except for comparison with themselves", "calls of append for non byte slices are modelled as copying", "goroutines: only lock discipline is checked, interleavings are reduced to lock sections")
	ev["property"], ev["tier"], ev["seed"], ev["level"] = prop, tier, seed, level
	ev["coverage"] = cov
	ev["assumptions"] = uniq(notes)
	ev["wall_s"] = round(time.Since(start).Seconds())
	n := 0
	if rc != 0 {
		n = len(fails)
		if d.failed {
			n++
		}
	}
	ev["violations"] = n
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0644)
	if rc == 0 {
		fmt.Printf("%s: %d/%d obligations of %d functions discharged, %v driver cases, %.0fs\n", prop, done, total, nContr, d.stats["cases"], time.Since(start).Seconds())
	}
	return rc
}

func (c *Contract) listed(prop string) bool {
	for _, p := range c.props {
		if p == prop {
			return true
		}
	}
	return false
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }
func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + " ..."
	}
	return s
}
func indent(s string) string { return "  " + strings.ReplaceAll(strings.TrimSpace(s), "\n", "\n  ") }
func uniq(a []string) []string {
	m := map[string]bool{}
	for _, s := range a {
		m[s] = true
	}
	return sortedKeys(m)
}

func oblKey(o *Obl) string {
	var b strings.Builder
	b.WriteString(itoa(o.goal.id))
	for _, t := range o.pc {
		b.WriteByte(',')
		b.WriteString(itoa(t.id))
	}
	return b.String()
}

func proveQuick(pc []*Term, goal *Term) solverRes {
	st := time.Now()
	sc := buildScript(append(append([]*Term{}, pc...), Not(goal)), true)
	v, _ := runSolver("z3-new", []string{"-in", "-smt2", "-T:1"}, "(set-option :smt.auto_config false)\n(set-option :smt.mbqi false)\n"+sc+"(check-sat)\n", 3*time.Second)
	return solverRes{v, "z3-new", time.Since(st).Seconds(), ""}
}

func readKnown(f, prop string) map[string]bool {
	out := map[string]bool{}
	b, _ := os.ReadFile(f)
	re := regexp.MustCompile(`^known: property=(\S+) id=(\S+)`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil && m[1] == prop {
			out[m[2]] = true
		}
	}
	return out
}

// ---- bounded drivers

type driverRes struct {
	failed  bool
	infra   string
	out     string
	cmd     string
	stats   map[string]int
	samples []string
	known   []string
}

// runDriver runs the bounded validation of a property on the real code.
func runDriver(repo, verif, prop, tier string) *driverRes {
	r := &driverRes{stats: map[string]int{}}
	dir := filepath.Join(verif, "drivers", prop)
	if _, err := os.Stat(dir); err != nil {
		return r
	}
	rep := map[string]string{}
	pkgs := map[string]bool{}
	files, _ := listContracts(dir)
	race := false
	for rel, f := range files {
		b, _ := os.ReadFile(f)
		if strings.Contains(string(b), "//verif:race") {
			race = true
		}
		d := filepath.Dir(rel)
		pkgs["./"+d] = true
		rep[filepath.Join(repo, d, "zz_verif_"+strings.TrimSuffix(filepath.Base(rel), ".go")+"_test.go")] = f
	}
	lib, _ := filepath.Glob(filepath.Join(verif, "drivers", "lib", "*.go"))
	for _, f := range lib {
		rep[filepath.Join(repo, "internal", "zzvt", filepath.Base(f))] = f
	}
	lib, _ = filepath.Glob(filepath.Join(verif, "drivers", "libst", "*.go"))
	for _, f := range lib {
		rep[filepath.Join(repo, "internal", "zzst", filepath.Base(f))] = f
	}
	tmp, err := os.MkdirTemp("", "vdrv")
	if err != nil {
		r.infra = err.Error()
		return r
	}
	defer os.RemoveAll(tmp)
	// tests of the repository itself are left out
	for d := range pkgs {
		ms, _ := filepath.Glob(filepath.Join(repo, d, "*_test.go"))
		for _, m := range ms {
			if _, ok := rep[m]; !ok {
				rep[m] = ""
			}
		}
	}
	ov := filepath.Join(tmp, "overlay.json")
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	os.WriteFile(ov, b, 0644)
	args := []string{"test", "-overlay", ov, "-count=1", "-v", "-vet=off", "-timeout", "420s", "-run", "^TestVerif"}
	if race {
		args = append(args, "-race")
	}
	ps := sortedKeys(pkgs)
	args = append(args, ps...)
	cmd := exec.Command("bash", "-c", `if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi; exec go "$@"`, "go")
	cmd.Args = append(cmd.Args, args...)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "VERIF_TIER="+tier, "TMPDIR="+tmp)
	out, err := cmd.CombinedOutput()
	s := string(out)
	r.cmd = fmt.Sprintf("%s/check.sh %s %s   (drivers in %s, VERIF_SEED=%s)", verif, prop, tier, dir, os.Getenv("VERIF_SEED"))
	var keep []string
	built := false
	for _, l := range strings.Split(s, "\n") {
		t := strings.TrimSpace(l)
		if i := strings.Index(t, "VERIFSTAT "); i >= 0 {
			for _, kv := range strings.Fields(t[i+10:]) {
				k, v, _ := strings.Cut(kv, "=")
				n, _ := strconv.Atoi(v)
				r.stats[k] += n
			}
			continue
		}
		if i := strings.Index(t, "VERIFSAMPLE "); i >= 0 {
			if len(r.samples) < 6 {
				r.samples = append(r.samples, cut(t[i+12:], 400))
			}
			continue
		}
		if i := strings.Index(t, "VERIFKNOWN "); i >= 0 {
			r.known = append(r.known, t[i+11:])
			continue
		}
		if strings.HasPrefix(t, "=== RUN") {
			built = true
		}
		if strings.HasPrefix(t, "=== ") {
			continue
		}
		keep = append(keep, l)
	}
	r.out = cut(strings.TrimSpace(strings.Join(keep, "\n")), 8000)
	if err != nil {
		if strings.Contains(s, "--- FAIL") || strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:") || strings.Contains(s, "DATA RACE") {
			r.failed = true
		} else {
			r.infra = cut(s, 1500)
		}
		if strings.Contains(s, "test timed out") || built && strings.Contains(s, "signal: killed") {
			r.failed = true
		}
	}
	_ = built
	return r
}
