package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type knownFinding struct {
	Property   string `json:"property"`
	Contract   string `json:"contract"`
	Obligation string `json:"obligation"`
	What       string `json:"what"`
	Status     string `json:"status"` // "known" or "fixed: ..."
}

func main() {
	prop := flag.String("prop", "", "property id")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	only := flag.String("contract", "", "verify only contracts matching this regular expression")
	list := flag.Bool("list", false, "list contracts")
	noRun := flag.Bool("norun", false, "skip concrete runs")
	noProof := flag.Bool("noproof", false, "skip proofs")
	flag.Parse()
	os.Exit(run(*prop, *repo, *verif, *only, *list, *noRun, *noProof))
}

func getenv(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func run(prop, repo, verif, only string, list, noRun, noProof bool) int {
	t0 := time.Now()
	tier := getenv("VERIF_TIER", "quick")
	seed, _ := strconv.Atoi(getenv("VERIF_SEED", "1"))
	dir := filepath.Join(verif, "contracts")
	p, err := loadProgram(repo, dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	for _, s := range p.errs {
		fmt.Fprintln(os.Stderr, "note:", s)
	}
	if list {
		for _, c := range p.contracts {
			fmt.Println(c.name, c.fn.Name(), c.props)
		}
		return 0
	}
	byName := map[string]*Contract{}
	var todo []*Contract
	var re *regexp.Regexp
	if only != "" {
		re = regexp.MustCompile(only)
	}
	for _, c := range p.contracts {
		byName[c.name] = c
		if re != nil && !re.MatchString(c.name) && !re.MatchString(c.fn.Name()) {
			continue
		}
		if prop == "" {
			todo = append(todo, c)
			continue
		}
		for _, q := range c.props {
			if q == prop {
				todo = append(todo, c)
				break
			}
		}
	}
	if len(todo) == 0 {
		fmt.Fprintln(os.Stderr, "error: no contracts for", prop)
		return 2
	}
	lim := limits{obl: 4 * time.Second, fallback: 20 * time.Second, contract: 400 * time.Second}
	if tier == "thorough" {
		lim = limits{obl: 20 * time.Second, fallback: 90 * time.Second, contract: 1500 * time.Second}
	}
	lim.end = t0.Add(lim.contract + lim.contract/5)
	mult := 1
	if tier == "thorough" {
		mult = 20
	}
	// bounded stand-ins run beside the proofs; a failing input they find
	// settles the property, so the proofs are then cut short
	early := map[string]*replayRes{}
	solid := make(chan bool)
	ranBounded := make(chan bool)
	rep := &report{prop: prop, tier: tier, seed: seed, p: p, verif: verif, todo: todo}
	go func() {
		defer close(ranBounded)
		var bs []*Contract
		br := map[string]int{}
		for _, c := range todo {
			if c.bounded {
				bs = append(bs, c)
				br[c.name] = c.runs * mult
			}
		}
		if len(bs) == 0 || noRun {
			return
		}
		early = p.concreteRun(bs, nil, br, uint64(seed), dir, time.Duration(180*mult)*time.Second)
		for n, r := range early {
			if r.Failure != "" && rep.known(n, r.Failure) == nil {
				close(solid)
				return
			}
		}
	}()
	results := map[string]*ContractResult{}
	var trusted []string
	pending := todo
	seen := map[string]bool{}
	for _, c := range todo {
		seen[c.name] = true
	}
	for len(pending) > 0 && !noProof {
		var batch []*Contract
		for _, c := range pending {
			if c.bounded {
				continue
			}
			if c.trusted || c.funcTyp != "" || (c.iface != "") {
				trusted = append(trusted, c.name)
				continue
			}
			batch = append(batch, c)
		}
		pending = nil
		for _, r := range verifyAll(p, batch, lim, solid) {
			results[r.Name] = r
			for _, u := range r.Used {
				if !seen[u] && re == nil {
					seen[u] = true
					if c := byName[u]; c != nil {
						pending = append(pending, c)
					}
				}
			}
		}
	}
	rep.results, rep.trusted = results, trusted
	<-ranBounded
	settled := false
	select {
	case <-solid:
		settled = true
	default:
	}
	// concrete runs of the others when an obligation failed
	runs := map[string]int{}
	cex := map[string][][]Input{}
	var cts []*Contract
	failed := false
	for _, r := range results {
		if len(r.failed()) > 0 {
			failed = true
		}
	}
	for _, c := range todo {
		if failed && !c.bounded {
			runs[c.name] = 20000
			cts = append(cts, c)
		}
	}
	for _, r := range results {
		if len(r.failed()) == 0 {
			continue
		}
		in := false
		for _, c := range cts {
			if c == r.ct {
				in = true
			}
		}
		if !in {
			cts = append(cts, r.ct)
			runs[r.ct.name] = 20000
		}
		for _, o := range r.failed() {
			if len(o.Inputs) > 0 {
				cex[r.Name] = append(cex[r.Name], o.Inputs)
			}
		}
	}
	sort.Slice(cts, func(i, j int) bool { return cts[i].name < cts[j].name })
	rep.replays = early
	if len(cts) > 0 && !noRun && !settled {
		for n, r := range p.concreteRun(cts, cex, runs, uint64(seed), dir, 240*time.Second) {
			rep.replays[n] = r
		}
	}
	rep.wall = time.Since(t0).Seconds()
	return rep.finish()
}

func verifyAll(p *Program, cts []*Contract, lim limits, solid chan bool) []*ContractResult {
	out := make([]*ContractResult, len(cts))
	sem := make(chan bool, max(1, runtime.NumCPU()))
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i, c := range cts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			r := verifyContract(p, c, lim)
			mu.Lock()
			out[i] = r
			mu.Unlock()
		}()
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-solid:
		select {
		case <-done:
		case <-time.After(10 * time.Second):
		}
	}
	mu.Lock()
	defer mu.Unlock()
	var got []*ContractResult
	for _, r := range out {
		if r != nil {
			got = append(got, r)
		}
	}
	return got
}

type report struct {
	prop, tier string
	seed       int
	p          *Program
	results    map[string]*ContractResult
	trusted    []string
	todo       []*Contract
	verif      string
	wall       float64
	replays    map[string]*replayRes
	findings   []knownFinding
}

// known finds the known finding for a failure.
func (r *report) known(contract, obl string) *knownFinding {
	if r.findings == nil {
		r.findings = r.loadKnown()
	}
	for i, k := range r.findings {
		if k.Status == "known" && k.Property == r.prop && k.Contract == contract && k.Obligation == obl {
			return &r.findings[i]
		}
	}
	return nil
}

func (r *report) finish() int {
	var names []string
	for n := range r.results {
		names = append(names, n)
	}
	sort.Strings(names)
	total, proved := 0, 0
	backends := map[string]int{}
	var maxSec, solver float64
	assume := map[string]bool{}
	inlined := map[string]bool{}
	nonterm := map[string]bool{}
	covers, invs := 0, 0
	var failures []OblResult
	failedIn := map[string][]OblResult{}
	funcs := []string{}
	lemmas := []string{}
	for _, n := range names {
		cr := r.results[n]
		if cr.ct.lemma {
			lemmas = append(lemmas, n)
		} else {
			funcs = append(funcs, n)
		}
		covers += cr.Covers
		invs += cr.Invs
		solver += cr.SolverSec
		for _, o := range cr.Obls {
			total++
			if o.Seconds > maxSec {
				maxSec = o.Seconds
			}
			if o.Status == "proved" {
				proved++
				backends[o.Backend]++
			} else {
				failures = append(failures, o)
				failedIn[n] = append(failedIn[n], o)
			}
		}
		for _, s := range cr.Notes {
			assume[s] = true
		}
		for _, s := range cr.Inlined {
			inlined[strings.ReplaceAll(s, modPath+"/", "")] = true
		}
		for _, s := range cr.NonTerm {
			nonterm[strings.ReplaceAll(s, modPath+"/", "")] = true
		}
		if r.prop == "" || os.Getenv("GOVER_VERBOSE") != "" {
			fmt.Printf("%-60s %d/%d obligations, %d covers, %.1fs (solver %.1fs)\n", n, len(cr.Obls)-len(cr.failed()), len(cr.Obls), cr.Covers, cr.Wall, cr.SolverSec)
			for _, o := range cr.failed() {
				fmt.Printf("    %s: %s [%s] %s\n", strings.ToUpper(o.Status), o.Name, o.Pos, o.Detail)
				for _, in := range o.Inputs {
					fmt.Printf("        %s = %s\n", in.Name, in.Go)
				}
			}
		}
	}
	bad := 0
	var lines []string
	isKnown := r.known
	type vio struct {
		contract string
		obls     []OblResult
		rp       *replayRes
	}
	var vios []vio
	for _, n := range names {
		var left []OblResult
		for _, o := range failedIn[n] {
			if k := isKnown(n, o.Name); k != nil {
				lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", r.prop, k.What))
				continue
			}
			left = append(left, o)
		}
		if len(left) > 0 {
			vios = append(vios, vio{n, left, r.replays[n]})
		}
	}
	bounded := map[string]any{}
	var rnames []string
	for n := range r.replays {
		rnames = append(rnames, n)
	}
	sort.Strings(rnames)
	for _, n := range rnames {
		rp := r.replays[n]
		if r.results[n] == nil {
			bounded[n] = map[string]any{"inputs_run": rp.Ran, "skipped_by_precondition": rp.Skipped, "failure": rp.Failure, "error": rp.Error}
			if rp.Failure != "" || rp.Error != "" {
				if k := isKnown(n, rp.Failure); k != nil {
					lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", r.prop, k.What))
					continue
				}
				vios = append(vios, vio{n, []OblResult{{Name: n + ": bounded: " + rp.Failure, Status: "failed", Detail: rp.Error}}, rp})
			}
		}
		if r.prop == "" || os.Getenv("GOVER_VERBOSE") != "" {
			fmt.Printf("run %s: %d inputs, %d skipped, failure %q input %s %s\n", n, rp.Ran, rp.Skipped, rp.Failure, rp.Input, rp.Error)
		}
	}
	// a failing concrete input of any contract of the property serves as replay
	var anyFail *replayRes
	for _, n := range rnames {
		if r.replays[n].Failure != "" && isKnown(n, r.replays[n].Failure) == nil {
			anyFail = r.replays[n]
			break
		}
	}
	seen := map[string]bool{}
	for _, l := range lines {
		if !seen[l] {
			seen[l] = true
			fmt.Println(l)
		}
	}
	if len(vios) > 0 {
		bad = 1
		os.MkdirAll(filepath.Join(r.verif, "evidence", "replay"), 0o755)
		path := filepath.Join(r.verif, "evidence", "replay", r.prop+".txt")
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\n", r.prop)
		found := false
		if anyFail != nil {
			found = true
			fmt.Fprintf(&b, "failing input on the real code: contract %s\n  %s\n  input: %s\n  seed: %d\n  replay: VERIF_SEED=%d /verif/bin/gover -prop %s\n", anyFail.Contract, anyFail.Failure, anyFail.Input, anyFail.Seed, r.seed, r.prop)
		}
		for _, v := range vios {
			for _, o := range v.obls {
				fmt.Fprintf(&b, "failed obligation: %s\n  at %s\n  status: %s %s\n", o.Name, o.Pos, o.Status, o.Detail)
				for _, in := range o.Inputs {
					fmt.Fprintf(&b, "  counterexample %s = %s\n", in.Name, in.Go)
				}
			}
			if v.rp != nil && (v.rp.Failure != "" || v.rp.Error != "") {
				fmt.Fprintf(&b, "  concrete run: %s %s\n  input: %s\n", v.rp.Failure, v.rp.Error, v.rp.Input)
				if v.rp.Error != "" && strings.Contains(v.rp.Error, "exit status") && v.rp.Error != "no generator for a parameter" {
					found = true
				}
			}
			fmt.Printf("failed obligation: %s (%s)\n", v.obls[0].Name, v.obls[0].Status)
		}
		os.WriteFile(path, []byte(b.String()), 0o644)
		suffix := ""
		if !found {
			suffix = " no-failing-input-found"
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", r.prop, path, suffix)
	}
	if r.prop != "" {
		var as []string
		for k := range assume {
			as = append(as, k)
		}
		sort.Strings(as)
		sort.Strings(r.trusted)
		for _, t := range r.trusted {
			as = append(as, "assumed contract: "+t)
		}
		for _, k := range sortedKeys(nonterm) {
			as = append(as, "termination not shown for loop "+k)
		}
		as = append(as, standingAssumptions...)
		level := "proof"
		if total == 0 {
			level = "exploration"
		}
		ev := map[string]any{
			"property": r.prop, "tier": r.tier, "seed": r.seed, "level": level, "wall_s": r.wall,
			"assumptions": as, "violations": len(vios),
			"coverage": map[string]any{
				"obligations": total, "discharged": proved, "checker_cmd": fmt.Sprintf("VERIF_TIER=%s /verif/bin/gover -prop %s", r.tier, r.prop),
				"trusted_base":             []string{"gover (verification condition generator in /verif/gover)", "golang.org/x/tools/go/ssa v0.52.0", "Go type checker", "z3 5.3.2", "z3 4.8.12", "cvc5 1.1.2"},
				"functions_under_contract": funcs, "lemmas": lemmas, "functions_inlined": sortedKeys(inlined),
				"backends": backends, "solver_s": solver, "max_obligation_s": maxSec, "cover_checks": covers, "loop_invariants": invs,
				"bounded": bounded, "solver_queries": solverStats.queries,
			},
		}
		j, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(r.verif, "evidence"), 0o755)
		os.WriteFile(filepath.Join(r.verif, "evidence", r.prop+".json"), append(j, '\n'), 0o644)
		fmt.Printf("%s: %d/%d obligations discharged, %d functions under contract, %d lemmas, %d bounded runs, %.1f s\n", r.prop, proved, total, len(funcs), len(lemmas), len(bounded), r.wall)
	}
	return bad
}

var standingAssumptions = []string{
	"slices have at most 2^34 elements, strings and maps at most 2^40",
	"memory allocation does not fail; append never shares the old backing array",
	"interfaces declared by the module hold only types of the module, non-nil pointers for pointer types",
	"references passed in do not alias package level tables",
	"no data races; the functions run single threaded",
}

func (r *report) loadKnown() []knownFinding {
	b, err := os.ReadFile(filepath.Join(r.verif, "known_findings.json"))
	if err != nil {
		return nil
	}
	var ks []knownFinding
	if err := json.Unmarshal(b, &ks); err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
	}
	return ks
}
