package main

// Concrete execution of contracts against the real code: replay of verifier
// counterexamples and a search for failing inputs.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type replayRes struct {
	Contract string `json:"contract"`
	Kind     string `json:"kind"` // counterexample, search, bounded
	Ran      int    `json:"ran"`
	Skipped  int    `json:"skipped"`
	Failure  string `json:"failure,omitempty"`
	Input    string `json:"input,omitempty"`
	Seed     uint64 `json:"seed,omitempty"`
	Error    string `json:"error,omitempty"`
}

// genExpr gives the Go expression that generates a value of type t, or "".
func (p *Program) genExpr(ct *Contract, t types.Type) string {
	pk := ct.fn.Pkg
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if f := pk.Func("gen_" + n.Obj().Name()); f != nil {
			return "gen_" + n.Obj().Name() + "(g)"
		}
	}
	if pt, ok := types.Unalias(t).(*types.Pointer); ok {
		if n, ok := types.Unalias(pt.Elem()).(*types.Named); ok {
			if f := pk.Func("genp_" + n.Obj().Name()); f != nil {
				return "genp_" + n.Obj().Name() + "(g)"
			}
		}
	}
	q := func(p *types.Package) string {
		if p == pk.Pkg {
			return ""
		}
		return p.Name()
	}
	ts := types.TypeString(t, q)
	if sl, ok := under(t).(*types.Slice); ok {
		if n, ok := types.Unalias(sl.Elem()).(*types.Named); ok {
			if f := pk.Func("gens_" + n.Obj().Name()); f != nil {
				return "gens_" + n.Obj().Name() + "(g)"
			}
		}
		if b, ok := under(sl.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
			return "g.Bytes(24)"
		}
		return ""
	}
	b, ok := under(t).(*types.Basic)
	if !ok {
		return ""
	}
	if strings.Contains(ts, ".") {
		return ""
	}
	switch b.Kind() {
	case types.Bool:
		return ts + "(g.Bool())"
	case types.String:
		return ts + "(g.String())"
	case types.Float32:
		return "math.Float32frombits(uint32(g.Bits(32)))"
	case types.Float64:
		return "math.Float64frombits(g.Bits(64))"
	}
	if b.Info()&types.IsInteger != 0 {
		s, _ := scalarSort(t)
		return fmt.Sprintf("%s(g.Bits(%d))", ts, s.width())
	}
	return ""
}

// concreteRun executes contracts concretely.
func (p *Program) concreteRun(cts []*Contract, cex map[string][][]Input, runs map[string]int, seed uint64, contractsDir string, timeout time.Duration) map[string]*replayRes {
	out := map[string]*replayRes{}
	byPkg := map[string][]*Contract{}
	for _, ct := range cts {
		if ct.funcTyp != "" || ct.iface != "" || ct.trusted {
			continue
		}
		path := ct.fn.Pkg.Pkg.Path()
		byPkg[path] = append(byPkg[path], ct)
	}
	tmp, err := os.MkdirTemp("", "gover-replay-")
	if err != nil {
		return out
	}
	defer os.RemoveAll(tmp)
	var paths []string
	for k := range byPkg {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, path := range paths {
		p.runPkg(path, byPkg[path], cex, runs, seed, contractsDir, tmp, timeout, out)
	}
	return out
}

func (p *Program) runPkg(path string, cts []*Contract, cex map[string][][]Input, runs map[string]int, seed uint64, contractsDir, tmp string, timeout time.Duration, out map[string]*replayRes) {
	rel := strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
	pkName := cts[0].fn.Pkg.Pkg.Name()
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"encoding/json\"\n\t\"fmt\"\n\t\"math\"\n\t\"os\"\n\t\"runtime\"\n\t\"sync\"\n\t\"testing\"\n\t\"time\"\n\n\t\"%s/internal/vspec\"\n", pkName, modPath)
	b.WriteString(")\n\nvar _ = math.Pi\nvar _ = fmt.Sprint\nvar _ = time.Now\n")
	b.WriteString(`
type zzRes struct {
	Contract string ` + "`json:\"contract\"`" + `
	Kind string ` + "`json:\"kind\"`" + `
	Ran int ` + "`json:\"ran\"`" + `
	Skipped int ` + "`json:\"skipped\"`" + `
	Failure string ` + "`json:\"failure\"`" + `
	Input string ` + "`json:\"input\"`" + `
	Seed uint64 ` + "`json:\"seed\"`" + `
}

func zzShow(v any) string {
	s := fmt.Sprintf("%#v", v)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func zzEmit(r zzRes) {
	f, err := os.OpenFile(os.Getenv("ZZ_OUT"), os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0o644)
	if err != nil {
		panic(err)
	}
	j, _ := json.Marshal(r)
	f.Write(append(j, '\n'))
	f.Close()
}

// zzGuard runs one contract. An input that does not come back, or that fills
// the memory, is reported and the process ends.
func zzGuard(r *zzRes, begun *time.Time, shown *string, seed *uint64, f func()) {
	done := make(chan bool)
	go func() { f(); close(done) }()
	tick := time.NewTicker(20 * time.Millisecond)
	defer tick.Stop()
	var ms runtime.MemStats
	for n := 0; ; n++ {
		select {
		case <-done:
			return
		case <-tick.C:
		}
		if n%5 == 0 {
			runtime.ReadMemStats(&ms)
		}
		zzMu.Lock()
		late, in, sd := time.Since(*begun), *shown, *seed
		zzMu.Unlock()
		bad := ""
		if ms.HeapAlloc > 6<<30 {
			bad = "the memory is exhausted"
		}
		if late > 60*time.Second {
			bad = "the call does not return"
		}
		if bad != "" {
			zzEmit(zzRes{Contract: r.Contract, Kind: "search", Ran: r.Ran, Failure: bad, Input: in, Seed: sd})
			os.Exit(1)
		}
	}
}

var zzMu sync.Mutex
var zzAt *os.File

// zzMark notes the input about to be run, for a crash that ends the process.
func zzMark(contract string, seed uint64) {
	if zzAt == nil {
		zzAt, _ = os.Create(os.Getenv("ZZ_OUT") + ".at")
	}
	zzAt.WriteAt([]byte(fmt.Sprintf("%-120s %020d", contract, seed)), 0)
}

func TestZZVerif(t *testing.T) {
`)
	n := 0
	slice := max(5, int(timeout.Seconds()*0.8)/len(cts))
	for _, ct := range cts {
		name := ct.fn.Name()
		// verifier counterexamples
		for _, in := range cex[ct.name] {
			var as []string
			ok := len(in) == len(ct.fn.Params)
			for _, i := range in {
				if !i.Known {
					ok = false
				}
				as = append(as, i.Go)
			}
			if !ok {
				continue
			}
			n++
			var shown []string
			for i, a := range as {
				shown = append(shown, ct.fn.Params[i].Name()+"="+a)
			}
			fmt.Fprintf(&b, "\tif res := vspec.Try(func() { %s(%s) }); res != \"\" && res != \"skip\" {\n\t\tzzEmit(zzRes{Contract: %q, Kind: \"counterexample\", Ran: 1, Failure: res, Input: %q})\n\t}\n", name, strings.Join(as, ", "), ct.name, strings.Join(shown, ", "))
		}
		runsN := runs[ct.name]
		if runsN == 0 {
			continue
		}
		var gens []string
		ok := true
		for _, prm := range ct.fn.Params {
			g := p.genExpr(ct, prm.Type())
			if g == "" {
				ok = false
			}
			gens = append(gens, g)
		}
		if !ok {
			out[ct.name] = &replayRes{Contract: ct.name, Kind: "search", Error: "no generator for a parameter"}
			continue
		}
		n++
		fmt.Fprintf(&b, "\tfunc() {\n\t\tr := &zzRes{Contract: %q, Kind: \"search\"}\n\t\tvar began, start = time.Now(), time.Now()\n\t\tvar in string\n\t\tvar sd uint64\n\t\tzzGuard(r, &began, &in, &sd, func() {\n\t\tfor i := uint64(0); i < %d; i++ {\n\t\t\tif time.Since(start) > %d*time.Second {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\tg := vspec.NewGen(%d + i)\n\t\t\tg.Size = 1 + int(i%%6)\n", ct.name, runsN, slice, seed*1000003)
		var vs, show []string
		for i, g := range gens {
			fmt.Fprintf(&b, "\t\t\tv%d := %s\n", i, g)
			vs = append(vs, fmt.Sprintf("v%d", i))
			show = append(show, fmt.Sprintf("\" %s=\"+zzShow(v%d)", ct.fn.Params[i].Name(), i))
		}
		if len(show) == 0 {
			show = []string{`""`}
		}
		fmt.Fprintf(&b, "\t\t\tr.Ran++\n\t\t\tshown := %s\n\t\t\tzzMu.Lock()\n\t\t\tbegan, in, sd = time.Now(), shown, %d+i\n\t\t\tzzMu.Unlock()\n\t\t\tzzMark(r.Contract, sd)\n\t\t\tres := vspec.Try(func() { %s(%s) })\n\t\t\tif res == \"skip\" {\n\t\t\t\tr.Skipped++\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tif res != \"\" {\n\t\t\t\tr.Failure, r.Input, r.Seed = res, shown, %d+i\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\t\t})\n\t\tzzEmit(*r)\n\t}()\n", strings.Join(show, "+"), seed*1000003, name, strings.Join(vs, ", "), seed*1000003)
	}
	b.WriteString("}\n")
	if n == 0 {
		return
	}
	testFile := filepath.Join(tmp, strings.ReplaceAll(rel, "/", "_")+"_zz_verif_test.go")
	if err := os.WriteFile(testFile, b.Bytes(), 0o644); err != nil {
		return
	}
	ov := map[string]string{}
	for dst, src := range overlayFiles(contractsDir, p.repo) {
		if p.dropped[src] {
			continue
		}
		ov[dst] = src
	}
	ov[filepath.Join(p.repo, rel, "zz_verif_test.go")] = testFile
	ovFile := filepath.Join(tmp, "overlay.json")
	if err := writeOverlayJSON(ovFile, ov); err != nil {
		return
	}
	outFile := filepath.Join(tmp, strings.ReplaceAll(rel, "/", "_")+".out")
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "test", "-overlay", ovFile, "-vet=off", "-count=1", "-timeout", fmt.Sprintf("%ds", int(timeout.Seconds())), "-run", "^TestZZVerif$", "./"+rel)
	cmd.Dir = p.repo
	scratch := filepath.Join(tmp, "run")
	os.MkdirAll(scratch, 0o755)
	cmd.Env = append(os.Environ(), "ZZ_OUT="+outFile, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOMEMLIMIT=4GiB")
	txt, err := cmd.CombinedOutput()
	data, _ := os.ReadFile(outFile)
	for _, line := range strings.Split(string(data), "\n") {
		if line == "" {
			continue
		}
		var r replayRes
		if json.Unmarshal([]byte(line), &r) != nil {
			continue
		}
		if old := out[r.Contract]; old != nil && old.Failure != "" {
			old.Ran += r.Ran
			continue
		}
		rr := r
		out[r.Contract] = &rr
	}
	if err != nil {
		// a crash or a hang of the code under test
		at, _ := os.ReadFile(outFile + ".at")
		if i := bytes.Index(txt, []byte("fatal error:")); i >= 0 && len(at) > 120 {
			name := strings.TrimSpace(string(at[:120]))
			var sd uint64
			fmt.Sscan(string(at[121:]), &sd)
			line, _, _ := strings.Cut(string(txt[i:]), "\n")
			if out[name] == nil {
				out[name] = &replayRes{Contract: name, Kind: "search", Ran: 1, Failure: "the process crashed: " + line, Seed: sd}
			}
			return
		}
		for _, ct := range cts {
			if out[ct.name] == nil && runs[ct.name] > 0 {
				msg := string(txt)
				if len(msg) > 4000 {
					msg = msg[:4000]
				}
				out[ct.name] = &replayRes{Contract: ct.name, Kind: "search", Error: err.Error() + "\n" + msg}
				break
			}
		}
	}
}
