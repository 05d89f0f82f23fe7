package main

// Loading /repo together with the contract files, and static information.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/patrickhuber/go-wasm"

type Contract struct {
	lazy bool
	name    string // reported name: pkg.Target
	fn      *ssa.Function
	target  *ssa.Function // nil for lemmas and function-type contracts
	funcTyp string        // function type contract
	iface   string        // interface method contract "pkg.Iface.Method"
	lemma   bool
	trusted bool // contract on code outside the repository, assumed
	pure    bool
	inline  map[*ssa.Function]bool
	hide    map[*ssa.Function]bool // specification functions kept folded
	props   []string
	file    string
	bounded bool // executed on generated inputs only
	runs    int
}

type LoopInv struct {
	fn    *ssa.Function
	for_  string // function name filter (optional)
	depth int    // nesting depth + 1, 0 for any

	measure bool // an integer that every iteration decreases
}

type Program struct {
	prog      *ssa.Program
	pkgs      []*packages.Package
	byTarget  map[*ssa.Function]*Contract
	byType    map[string]*Contract
	byIface   map[string]*Contract
	byHarness map[*ssa.Function]*Contract
	contracts []*Contract
	specs     map[*ssa.Function]bool
	opaque    map[*ssa.Function]bool
	defs      map[*ssa.Function]bool // not recursive, always unfolded
	invs      []*LoopInv
	errType   types.Type
	rtErrType types.Type
	maxRec    int
	named     []types.Type // concrete named types of the module and go-types instances
	mu        sync.Mutex
	infos     map[*ssa.Function]*fnInfo
	repo      string
	errs      []string
	dropped   map[string]bool
	targets   map[string]bool // requested directive targets that were not found
}

type implRes struct {
	ts     []types.Type
	closed bool
}

type panicCtx struct {
	pv    *Term
	depth int
}

type PExec struct {
	*Program
	reg      *Registry
	impl     map[string]implRes
	curPanic *panicCtx
}

func overlayFiles(contracts, repo string) map[string]string {
	m := map[string]string{}
	filepath.Walk(contracts, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(contracts, p)
			m[filepath.Join(repo, rel)] = p
		}
		return nil
	})
	return m
}

// loadProgram loads the repository with the contracts.  A contract file that no
// longer type checks against the repository is left out and reported.
func loadProgram(repo, contracts string) (*Program, error) {
	dropped := map[string]bool{}
	var notes []string
	for {
		p, bad, err := loadOnce(repo, contracts, dropped)
		if err == nil || len(bad) == 0 {
			if p != nil {
				p.dropped = dropped
				p.errs = append(p.errs, notes...)
			}
			return p, err
		}
		for _, b := range bad {
			dropped[b] = true
			notes = append(notes, "contract file left out: "+b+": "+err.Error())
		}
	}
}

func loadOnce(repo, contracts string, dropped map[string]bool) (*Program, []string, error) {
	ov := map[string][]byte{}
	srcOf := map[string]string{}
	for dst, src := range overlayFiles(contracts, repo) {
		if strings.HasSuffix(src, "_test.go") || dropped[src] {
			continue
		}
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, nil, err
		}
		ov[dst] = b
		srcOf[dst] = src
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, nil, err
	}
	p := &Program{pkgs: pkgs, byTarget: map[*ssa.Function]*Contract{}, byType: map[string]*Contract{}, byIface: map[string]*Contract{}, byHarness: map[*ssa.Function]*Contract{},
		specs: map[*ssa.Function]bool{}, opaque: map[*ssa.Function]bool{}, defs: map[*ssa.Function]bool{}, infos: map[*ssa.Function]*fnInfo{}, repo: repo, maxRec: 0}
	var bad []string
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		for _, e := range pk.Errors {
			f := e.Pos
			if i := strings.Index(f, ":"); i >= 0 {
				f = f[:i]
			}
			if src, ok := srcOf[f]; ok {
				bad = append(bad, src)
			}
			if len(p.errs) < 20 {
				p.errs = append(p.errs, e.Error())
			}
		}
	})
	if len(p.errs) > 0 {
		return p, bad, fmt.Errorf("load: %s", strings.Join(p.errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.prog = prog
	for _, pk := range prog.AllPackages() {
		switch pk.Pkg.Path() {
		case "errors":
			p.errType = types.NewPointer(pk.Type("errorString").Type())
		case "runtime":
			p.rtErrType = types.NewPointer(pk.Type("TypeAssertionError").Type())
		}
	}
	p.collectNamed()
	for _, pk := range pkgs {
		for i, f := range pk.Syntax {
			fname := pk.CompiledGoFiles[i]
			if _, ok := ov[fname]; !ok {
				continue
			}
			p.directives(pk, f, fname)
		}
	}
	sort.Slice(p.contracts, func(i, j int) bool { return p.contracts[i].name < p.contracts[j].name })
	return p, nil, nil
}

func (p *Program) collectNamed() {
	seen := map[string]bool{}
	add := func(t types.Type) {
		k := typeStr(t)
		if !seen[k] {
			seen[k] = true
			p.named = append(p.named, t)
		}
	}
	for _, t := range p.prog.RuntimeTypes() {
		if n, ok := types.Unalias(t).(*types.Named); ok {
			if o := n.Obj().Pkg(); o != nil && strings.HasPrefix(o.Path(), "github.com/patrickhuber/") && !types.IsInterface(n) {
				add(n)
			}
		}
		if pt, ok := types.Unalias(t).(*types.Pointer); ok {
			if n, ok := types.Unalias(pt.Elem()).(*types.Named); ok {
				if o := n.Obj().Pkg(); o != nil && strings.HasPrefix(o.Path(), "github.com/patrickhuber/") && !types.IsInterface(n) {
					add(n)
				}
			}
		}
	}
	for _, pk := range p.prog.AllPackages() {
		if !strings.HasPrefix(pk.Pkg.Path(), modPath) {
			continue
		}
		for _, m := range pk.Members {
			if t, ok := m.(*ssa.Type); ok && !types.IsInterface(t.Type()) {
				if n, ok := types.Unalias(t.Type()).(*types.Named); ok && n.TypeParams().Len() == 0 {
					add(n)
				}
			}
		}
	}
	sort.Slice(p.named, func(i, j int) bool { return typeStr(p.named[i]) < typeStr(p.named[j]) })
}

// implementers lists the concrete types that may be stored in interface t.
// Interfaces declared by the module (and go-types' Option/Result) are a closed
// world; everything else is open.
func (p *PExec) implementers(t types.Type) ([]types.Type, bool) {
	k := typeStr(t)
	if r, ok := p.impl[k]; ok {
		return r.ts, r.closed
	}
	r := implRes{}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "github.com/patrickhuber/") {
		it := under(t).(*types.Interface)
		if it.NumMethods() > 0 {
			r.closed = true
			usePtr := map[string]bool{}
			for _, c := range p.named {
				if types.Implements(c, it) && !p.ptrOnly(c) {
					r.ts = append(r.ts, c)
				} else if types.Implements(types.NewPointer(c), it) {
					r.ts = append(r.ts, types.NewPointer(c))
				}
			}
			_ = usePtr
		}
	}
	p.impl[k] = r
	return r.ts, r.closed
}

// ptrOnly: a type whose values are used in interfaces through pointers although
// the value method set suffices (embedded interface markers).
func (p *Program) ptrOnly(t types.Type) bool { return p.ptrUse(t) }

func (p *Program) ptrUse(t types.Type) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.targets == nil {
		p.targets = map[string]bool{}
		for fn := range ssautil.AllFunctions(p.prog) {
			if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if mi, ok := in.(*ssa.MakeInterface); ok {
						p.targets[typeStr(mi.X.Type())] = true
					}
				}
			}
		}
	}
	return p.targets[typeStr(types.NewPointer(t))] && !p.targets[typeStr(t)]
}

func (p *Program) isRepo(fn *ssa.Function) bool {
	pk := fn.Pkg
	if pk == nil {
		if o := fn.Origin(); o != nil {
			pk = o.Pkg
		}
	}
	if pk == nil || !strings.HasPrefix(pk.Pkg.Path(), modPath) {
		return false
	}
	if strings.HasPrefix(fn.Name(), "contract_") || strings.Contains(p.prog.Fset.Position(fn.Pos()).Filename, "zz_") {
		return false
	}
	return true
}

func (p *Program) directives(pk *packages.Package, f *ast.File, fname string) {
	sp := p.prog.Package(pk.Types)
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Doc == nil || fd.Recv != nil {
			continue
		}
		fn := sp.Func(fd.Name.Name)
		var c *Contract
		short := strings.TrimPrefix(strings.TrimPrefix(pk.PkgPath, modPath), "/")
		var props []string
		for _, cm := range fd.Doc.List {
			txt, ok := strings.CutPrefix(cm.Text, "//verif:")
			if !ok {
				continue
			}
			fs := strings.Fields(txt)
			switch fs[0] {
			case "contract", "trusted":
				t := p.findTarget(pk, fs[1])
				if t == nil {
					p.errs = append(p.errs, fmt.Sprintf("contract target %s.%s not found", short, fs[1]))
					continue
				}
				c = &Contract{name: short + "." + fs[1], fn: fn, target: t, file: fname, trusted: fs[0] == "trusted"}
				p.byTarget[t] = c
			case "functype":
				c = &Contract{name: short + ".functype." + fs[1], fn: fn, file: fname, trusted: true}
				o := pk.Types.Scope().Lookup(fs[1])
				if o == nil {
					p.errs = append(p.errs, fmt.Sprintf("function type %s.%s not found", short, fs[1]))
					continue
				}
				c.funcTyp = typeStr(o.Type())
				p.byType[c.funcTyp] = c
			case "functype-of": // the type of the first parameter
				c = &Contract{name: short + ".functype." + fn.Name(), fn: fn, file: fname, trusted: true}
				c.funcTyp = typeStr(fn.Params[0].Type())
				p.byType[c.funcTyp] = c
			case "iface":
				c = &Contract{name: short + ".iface." + fs[1], fn: fn, file: fname, trusted: len(fs) > 2 && fs[2] == "trusted", iface: fs[1]}
				p.byIface[fs[1]] = c
			case "bounded": // executed concretely, not proved
				c = &Contract{name: short + ".bounded." + strings.TrimPrefix(fd.Name.Name, "bounded_"), fn: fn, bounded: true, file: fname, runs: 3000}
				if len(fs) > 1 {
					fmt.Sscan(fs[1], &c.runs)
				}
			case "lemma":
				c = &Contract{name: short + ".lemma." + strings.TrimPrefix(fd.Name.Name, "lemma_"), fn: fn, lemma: true, file: fname}
			case "props":
				props = fs[1:]
			case "lazy": // take both ways of every branch without asking
				if c != nil {
					c.lazy = true
				}
			case "inline": // bodies instead of contracts for these functions
				for _, n := range fs[1:] {
					if t := p.findTarget(pk, n); t != nil && c != nil {
						if c.inline == nil {
							c.inline = map[*ssa.Function]bool{}
						}
						c.inline[t] = true
					}
				}
			case "hide": // keep the definitions of these functions out
				for _, n := range fs[1:] {
					if t := p.findTarget(pk, n); t != nil && c != nil {
						if c.hide == nil {
							c.hide = map[*ssa.Function]bool{}
						}
						c.hide[t] = true
					}
				}
			case "spec":
				p.specs[fn] = true
			case "def":
				p.specs[fn] = true
				p.defs[fn] = true
			case "opaque":
				p.specs[fn] = true
				p.opaque[fn] = true
			case "pure":
				if c != nil {
					c.pure = true
				}
			case "loop", "measure":
				li := &LoopInv{fn: fn, measure: fs[0] == "measure"}
				if len(fs) > 1 {
					li.for_ = fs[1]
					if k := strings.IndexByte(li.for_, '#'); k >= 0 {
						// only loops at this nesting depth of their function
						if d, err := strconv.Atoi(li.for_[k+1:]); err == nil {
							li.depth = d + 1
						}
						li.for_ = li.for_[:k]
					}
				}
				p.invs = append(p.invs, li)
			default:
				p.errs = append(p.errs, "unknown directive "+cm.Text)
			}
		}
		if c != nil {
			c.props = props
			p.byHarness[fn] = c
			p.contracts = append(p.contracts, c)
		}
	}
}

func (p *Program) findTarget(pk *packages.Package, name string) *ssa.Function {
	scope := pk.Types.Scope()
	// qualified: path/to/pkg:Name for trusted external targets
	if i := strings.Index(name, ":"); i >= 0 {
		for _, sp := range p.prog.AllPackages() {
			if sp.Pkg.Path() == name[:i] {
				scope = sp.Pkg.Scope()
				name = name[i+1:]
				break
			}
		}
	}
	if i := strings.Index(name, "."); i >= 0 {
		o := scope.Lookup(name[:i])
		if o == nil {
			return nil
		}
		m, _, _ := types.LookupFieldOrMethod(types.NewPointer(o.Type()), true, pk.Types, name[i+1:])
		if m == nil {
			m, _, _ = types.LookupFieldOrMethod(types.NewPointer(o.Type()), true, o.Pkg(), name[i+1:])
		}
		f, ok := m.(*types.Func)
		if !ok {
			return nil
		}
		return p.prog.FuncValue(f)
	}
	o, ok := scope.Lookup(name).(*types.Func)
	if !ok {
		return nil
	}
	return p.prog.FuncValue(o)
}

// ---- control flow information

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	fn    *ssa.Function
	loops map[*ssa.BasicBlock]*loopInfo
	ipdom map[*ssa.BasicBlock]*ssa.BasicBlock
	cond  map[*ssa.BasicBlock]bool
	plain bool // a condition of a contract file without loops
}

// ours: is fn a function of the module?
func (p *Program) ours(fn *ssa.Function) bool {
	return fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
}

// near: a function of the repository or of the author's other modules.
func (p *Program) near(fn *ssa.Function) bool {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath[:strings.LastIndexByte(modPath, '/')+1])
}

// conditional: is the branch at the end of b one within a condition of a
// contract file, which has no effect but its value?
func (p *Program) conditional(i *fnInfo, b *ssa.BasicBlock) bool {
	j := i.ipdom[b]
	if j == nil || !strings.Contains(p.prog.Fset.Position(i.fn.Pos()).Filename, "zz_") {
		return false
	}
	p.mu.Lock()
	r, ok := i.cond[b]
	p.mu.Unlock()
	if ok {
		return r
	}
	seen := map[*ssa.BasicBlock]bool{j: true}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if seen[x] {
			return true
		}
		seen[x] = true
		if len(seen) > 20 {
			return false
		}
		for _, in := range x.Instrs {
			switch y := in.(type) {
			case *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.Field, *ssa.Extract, *ssa.If, *ssa.Jump, *ssa.Phi, *ssa.Convert, *ssa.ChangeType:
			case *ssa.Call:
				if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					continue
				}
				f := y.Call.StaticCallee()
				if f == nil || len(f.Blocks) == 0 || f == i.fn || !p.info(f).plain {
					return false
				}
			default:
				return false
			}
		}
		for _, s := range x.Succs {
			if s.Dominates(x) || !walk(s) {
				return false
			}
		}
		return true
	}
	r = walk(b.Succs[0]) && walk(b.Succs[1])
	p.mu.Lock()
	i.cond[b] = r
	p.mu.Unlock()
	return r
}

func (p *Program) info(fn *ssa.Function) *fnInfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i, ok := p.infos[fn]; ok {
		return i
	}
	i := &fnInfo{fn: fn, cond: map[*ssa.BasicBlock]bool{}, loops: map[*ssa.BasicBlock]*loopInfo{}, ipdom: map[*ssa.BasicBlock]*ssa.BasicBlock{}}
	p.infos[fn] = i
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				lp := i.loops[s]
				if lp == nil {
					lp = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					i.loops[s] = lp
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if lp.body[x] {
						continue
					}
					lp.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	if rs := fn.Signature.Results(); rs.Len() == 1 && len(i.loops) == 0 && strings.Contains(p.prog.Fset.Position(fn.Pos()).Filename, "zz_") {
		_, basic := under(rs.At(0).Type()).(*types.Basic)
		nm := strings.ToLower(fn.Name())
		i.plain = basic && (strings.HasPrefix(nm, "zz") || strings.HasPrefix(nm, "loop_"))
	}
	// post-dominators by iteration on sets (functions are small)
	n := len(fn.Blocks)
	full := make([]bool, n+1)
	for k := range full {
		full[k] = true
	}
	pd := make([][]bool, n)
	for k := range pd {
		pd[k] = append([]bool(nil), full...)
	}
	for changed := true; changed; {
		changed = false
		for k := n - 1; k >= 0; k-- {
			b := fn.Blocks[k]
			nw := make([]bool, n+1)
			if len(b.Succs) == 0 {
				nw[n] = true
			} else {
				copy(nw, pd[b.Succs[0].Index])
				for _, s := range b.Succs[1:] {
					for q := range nw {
						nw[q] = nw[q] && pd[s.Index][q]
					}
				}
			}
			nw[k] = true
			for q := range nw {
				if nw[q] != pd[k][q] {
					changed = true
				}
			}
			pd[k] = nw
		}
	}
	count := func(s []bool) int {
		c := 0
		for _, x := range s {
			if x {
				c++
			}
		}
		return c
	}
	for k, b := range fn.Blocks {
		best := -1
		bc := -1
		for q := 0; q < n; q++ {
			if q != k && pd[k][q] {
				if c := count(pd[q]); c > bc {
					bc = c
					best = q
				}
			}
		}
		if best >= 0 {
			i.ipdom[b] = fn.Blocks[best]
		}
	}
	return i
}

// sameLoop: every loop containing b also contains j and vice versa.
func (i *fnInfo) sameLoop(b, j *ssa.BasicBlock) bool {
	for _, lp := range i.loops {
		if lp.body[b] != lp.body[j] {
			return false
		}
	}
	return true
}

// outside: every loop containing b contains the loop lp and vice versa.
func (i *fnInfo) outside(b *ssa.BasicBlock, lp *loopInfo) bool {
	for _, l := range i.loops {
		if l != lp && l.body[b] != l.body[lp.header] {
			return false
		}
	}
	return true
}

// loopAhead: is a loop that does not contain j reached from j?
func (i *fnInfo) loopAhead(j *ssa.BasicBlock) bool {
	if i.loops[j] != nil {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		if lp := i.loops[b]; lp != nil {
			if !lp.body[j] {
				return true
			}
			if b != j {
				return false
			}
		}
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(j)
}

func writeOverlayJSON(path string, m map[string]string) error {
	b, err := json.MarshalIndent(map[string]any{"Replace": m}, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}
