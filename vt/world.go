package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// initState evaluates the package initialisers abstractly, so that variables
// which only their initialiser writes have known content.
func (w *World) initState() *State {
	if w.gcells != nil {
		return w.gcells
	}
	x := newExec(w)
	x.quiet = 1
	st := &State{}
	w.gcells = st
	order := []string{"/errors", "/f", "/locale", "/plurals/parser", "/plurals", "/translator", "", "/cmd/xtemplate/internal", "/cmd/xtemplate"}
	known := map[string]bool{}
	for _, o := range order {
		known[modPath+o] = true
	}
	var rest []string
	for p := range w.ssaPkgs {
		if !known[p] {
			rest = append(rest, strings.TrimPrefix(p, modPath))
		}
	}
	sortStrings(rest)
	for _, o := range append(rest, order...) {
		p := w.ssaPkgs[modPath+o]
		if p == nil || o == "/plurals/parser" {
			continue
		}
		in := p.Func("init")
		if in == nil {
			continue
		}
		// the initialiser body, without the initialisers of imported packages
		x.models = map[string]model{}
		for _, imp := range p.Pkg.Imports() {
			x.models[imp.Path()+".init"] = func(x *Exec, cs *callSite) []callOut { return one(cs.st, mkTuple()) }
		}
		guard, _ := p.Members["init$guard"].(*ssa.Global)
		s := st.clone()
		if guard != nil {
			s.cells = s.cells.Set(mkGlobal(guard).id, kBool(false))
		}
		w.gcells = s
		for _, r := range x.callFn(nil, s, in, nil, nil, nil, nil, nil, false) {
			if r.kind == oRet {
				st = r.st
				break
			}
		}
	}
	out := st.clone()
	out.trace = nil
	out.facts = PMap[bool]{}
	out.eqs = PMap[*Term]{}
	out.zone = PMap[zedge]{}
	// only variables that nothing but the initialiser can change keep their value
	var drop []int
	st.cells.Each(func(k int, v *Term) {
		a := terms[k-1]
		if a.op != OGlobal {
			return
		}
		g := a.obj.(*ssa.Global)
		for _, f := range w.gwriters[g] {
			if f.Synthetic != "package initializer" {
				drop = append(drop, k)
				return
			}
		}
	})
	for _, k := range drop {
		out.cells = out.cells.Del(k)
	}
	w.dropMutable(out)
	// everything reachable from a package variable is shared
	e := newExec(w)
	out.cells.Each(func(k int, v *Term) { e.escape(out, v) })
	w.gcells = out
	w.firstTerm = len(terms)
	return out
}

// dropMutable forgets the content of shared objects that code other than the
// initialisers may change.
func (w *World) dropMutable(s *State) {
	fields := map[string]bool{}  // written field and element classes
	pointees := map[int]bool{}   // types written through a pointer
	handed := map[int]bool{}     // types handed to code outside the repository
	maps := map[int]types.Type{} // types of maps that are changed
	for fn := range w.all {
		if !w.isRepo(fn) || fn.Synthetic == "package initializer" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					switch a := in.Addr.(type) {
					case *ssa.FieldAddr:
						fields[fmt.Sprintf("F%d.%d", typeID(derefT(a.X.Type())), a.Field)] = true
						// the store may set a struct field by field
						markFields(fields, in.Val.Type())
					case *ssa.IndexAddr:
						fields[fmt.Sprintf("E%d", typeID(in.Val.Type()))] = true
						markFields(fields, in.Val.Type())
					case *ssa.Global, *ssa.Alloc:
					default:
						pointees[typeID(in.Val.Type())] = true
						markFields(fields, in.Val.Type())
					}
				case *ssa.MapUpdate:
					maps[typeID(in.Map.Type().Underlying())] = in.Map.Type()
				case ssa.CallInstruction:
					com := in.Common()
					if bi, ok := com.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "delete", "clear":
							t := com.Args[0].Type().Underlying()
							maps[typeID(t)] = t
							if sl, ok := t.(*types.Slice); ok {
								fields[fmt.Sprintf("E%d", typeID(sl.Elem()))] = true
							}
						case "copy", "append":
							if sl, ok := com.Args[0].Type().Underlying().(*types.Slice); ok {
								fields[fmt.Sprintf("E%d", typeID(sl.Elem()))] = true
								markFields(fields, sl.Elem())
							}
						}
						continue
					}
					if f := com.StaticCallee(); f != nil && (w.isRepo(f) || readOnlyPkgs[pkgPath(f)] && !writesArgs(fnName(f))) {
						continue
					}
					for _, a := range com.Args {
						if mi, ok := a.(*ssa.MakeInterface); ok {
							a = mi.X
						}
						switch u := a.Type().Underlying().(type) {
						case *types.Pointer:
							handed[typeID(u.Elem())] = true
						case *types.Slice:
							fields[fmt.Sprintf("E%d", typeID(u.Elem()))] = true
						case *types.Map:
							maps[typeID(u)] = u
						}
					}
				}
			}
		}
	}
	var drop []int
	lost := map[int]bool{}
	s.cells.Each(func(k int, v *Term) {
		a := terms[k-1]
		r := rootOf(a)
		if r.op == OGlobal && a == r {
			if v.typ != nil {
				if sl, ok := v.typ.Underlying().(*types.Slice); ok && fields[fmt.Sprintf("E%d", typeID(sl.Elem()))] {
					drop = append(drop, k)
				}
			}
			v.mentions(func(t *Term) bool {
				if t.op == OAlloc && t.typ != nil && written(fields, pointees, handed, derefT(t.typ)) {
					lost[t.id] = true
				}
				return false
			})
			return
		}
		hit := fields[classOf(a, v.typ)] || v.typ != nil && pointees[typeID(v.typ)]
		for b := a; ; b = b.args[0] {
			if b.op == OField && handed[typeID(b.typ)] {
				hit = true
			}
			if b.op != OField && b.op != OIndex {
				break
			}
		}
		if hit {
			drop = append(drop, k)
			if r.op == OAlloc {
				lost[r.id] = true
			}
			return
		}
		v.mentions(func(t *Term) bool {
			if t.op == OAlloc && t.typ != nil && written(fields, pointees, handed, derefT(t.typ)) {
				lost[t.id] = true
			}
			return false
		})
	})
	s.cells.Each(func(k int, v *Term) {
		if r := rootOf(terms[k-1]); lost[r.id] {
			drop = append(drop, k)
		}
	})
	for _, k := range drop {
		s.cells = s.cells.Del(k)
	}
	for id := range lost {
		s.epochs = s.epochs.Set(classID("A"+fmt.Sprint(id)), kSym(fmt.Sprintf("shared%d", id), tInt))
	}
	var dropM []int
	s.maps.Each(func(id int, m *mapSt) {
		t := terms[id-1]
		if t.typ == nil {
			return
		}
		if _, ok := maps[typeID(t.typ.Underlying())]; ok {
			dropM = append(dropM, id)
		}
	})
	for _, id := range dropM {
		s.maps = s.maps.Del(id)
	}
}

func pkgPath(f *ssa.Function) string {
	if p := fnPkg(f); p != nil {
		return p.Path()
	}
	return ""
}

// written: some component of a T may be written.
func written(fields map[string]bool, pointees, handed map[int]bool, t types.Type) bool {
	if handed[typeID(t)] || pointees[typeID(t)] {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if fields[fmt.Sprintf("F%d.%d", typeID(t), i)] || written(fields, pointees, handed, u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return fields[fmt.Sprintf("E%d", typeID(u.Elem()))] || written(fields, pointees, handed, u.Elem())
	}
	return false
}

// markFields marks the fields of a struct value as written.
func markFields(fields map[string]bool, t types.Type) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		fields[fmt.Sprintf("F%d.%d", typeID(t), i)] = true
		markFields(fields, st.Field(i).Type())
	}
}

func (w *World) globalConst(addr *Term, x *Exec) *Term { return nil }

// newState is the state before an analysed entry point runs.
func (w *World) newState() *State {
	s := w.initState().clone()
	s.counters = PMap[int]{}
	return s
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// syncElem is the one concrete type stored in a package-level sync.Map that
// does not leave its package, or nil.
func (w *World) syncElem(m *Term) types.Type {
	if m.op != OGlobal {
		return nil
	}
	g := m.obj.(*ssa.Global)
	if g.Object() == nil || g.Object().Exported() {
		return nil
	}
	var et types.Type
	for fn := range w.all {
		if !w.isRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				uses := false
				for _, op := range in.Operands(nil) {
					uses = uses || *op == g
				}
				if !uses {
					continue
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil || len(c.Common().Args) == 0 || c.Common().Args[0] != g {
					return nil
				}
				switch c.Common().StaticCallee().Name() {
				case "Load", "Delete", "Clear", "Range":
				case "Store", "LoadOrStore":
					mi, ok := c.Common().Args[2].(*ssa.MakeInterface)
					if !ok || et != nil && !types.Identical(et, mi.X.Type()) {
						return nil
					}
					et = mi.X.Type()
				default:
					return nil
				}
			}
		}
	}
	return et
}
