package runtime

import (
	"github.com/patrickhuber/go-wasm/address"
	"github.com/patrickhuber/go-wasm/api"
	"github.com/patrickhuber/go-wasm/instance"
	"github.com/patrickhuber/go-wasm/internal/vspec"
)

func genp_Store(g *vspec.Gen) *Store {
	s := &Store{}
	for n := g.Int(4); n > 0; n-- {
		s.Funcs = append(s.Funcs, &api.Func{})
	}
	if g.Bool() {
		s.Funcs = append(make([]instance.Function, 0, len(s.Funcs)+g.Int(3)), s.Funcs...)
	}
	return s
}

func genp_Module(g *vspec.Gen) *api.Module {
	m := &api.Module{}
	for n := g.Int(5); n > 0; n-- {
		m.Funcs = append(m.Funcs, &api.Func{})
	}
	return m
}


type zzIndex int

func gen_zzIndex(g *vspec.Gen) zzIndex { return zzIndex(g.Int(5)) }

//verif:loop NewModuleInstance
func loop_Appended(moduleInstance *ModuleInstance, store *Store, next int, before zzIndex) bool {
	return len(store.Funcs) == int(before)+next && len(moduleInstance.FunctionAddresses) == next
}

//verif:loop NewModuleInstance
func loop_Addresses(moduleInstance *ModuleInstance, next int, before zzIndex) bool {
	return vspec.Forall(0, next, func(i int) bool { return moduleInstance.FunctionAddresses[i] == address.Function(int(before)+i) })
}

//verif:loop NewModuleInstance
func loop_Functions(store *Store, next int, before zzIndex, module *api.Module) bool {
	return vspec.Forall(0, next, func(i int) bool { return store.Funcs[int(before)+i] == any(module.Funcs[i]) })
}

type zzOld struct {
	k int
	f instance.Function
}

//verif:loop NewModuleInstance
func loop_Kept(store *Store, o zzOld, next int) bool { return store.Funcs[o.k] == o.f && next >= 0 }

// Instantiation of a module in a store.
//
//verif:lemma
//verif:props C15
func lemma_NewModuleInstance(store *Store, module *api.Module, k zzIndex) {
	vspec.Requires(store != nil && module != nil)
	before := len(store.Funcs)
	funcs := module.Funcs
	n := len(funcs)
	vspec.Requires(before+n < 1<<32)
	var o zzOld
	if k >= 0 && int(k) < before {
		o = zzOld{int(k), store.Funcs[k]}
		vspec.Bind(o)
	}
	vspec.Bind(zzIndex(before))
	mi, err := NewModuleInstance(store, module)
	vspec.Ensures("no error", err == nil && mi != nil)
	vspec.Ensures("the functions are appended", len(store.Funcs) == before+n)
	vspec.Ensures("one address per function", len(mi.FunctionAddresses) == n)
	if k >= 0 && int(k) < before {
		vspec.Ensures("existing functions stay in place", store.Funcs[k] == o.f)
	}
	vspec.Ensures("each address is that of its function", vspec.Forall(0, n, func(i int) bool { return mi.FunctionAddresses[i] == address.Function(before+i) }))
	vspec.Ensures("each function is in the store at its place", vspec.Forall(0, n, func(i int) bool { return store.Funcs[before+i] == any(funcs[i]) }))
}

// spFind is the first position from i on of an export called name.
//
//verif:spec
func spFind(es []ExportInstance, i int, name string) int {
	if i >= len(es) || es[i].Name == name {
		return i
	}
	return spFind(es, i+1, name)
}

//verif:loop GetExport
func loop_NotYet(m *ModuleInstance, next int, name string) bool {
	return spFind(m.Exports, 0, name) == spFind(m.Exports, next, name)
}

type zzName struct{ s string }

func gen_zzName(g *vspec.Gen) zzName { return zzName{g.Pick("a", "b", "c", "", "A")} }

func genp_ModuleInstance(g *vspec.Gen) *ModuleInstance {
	m := &ModuleInstance{}
	for n := g.Int(5); n > 0; n-- {
		m.Exports = append(m.Exports, ExportInstance{Name: gen_zzName(g).s, Value: address.Function(g.Int(9))})
	}
	return m
}

// Looking up an export.
//
//verif:lemma
//verif:props C15
func lemma_GetExport(m *ModuleInstance, n zzName) {
	vspec.Requires(m != nil)
	e, ok := m.GetExport(n.s)
	f := spFind(m.Exports, 0, n.s)
	vspec.Ensures("found exactly when there is one", ok == (f < len(m.Exports)))
	if ok && f >= 0 && f < len(m.Exports) {
		vspec.Ensures("the first export of that name", e == m.Exports[f])
	}
}
