package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- P31: text from outside is data, never a format ----

func init() {
	register(&Rule{id: "P31", min: 30, run: ruleFormats,
		rule: "Interprocedural taint analysis over the SSA form: the format of every call to a printf-like function is traced back through concatenations, phis, variables, fields, results and parameters of all callers; its only sources may be constants and translations of constant messages without arguments. Formats that callers of the public API hand over are theirs."})
}

type fmtFlow struct {
	c       *Check
	sinks   map[*ssa.Parameter]bool // parameters used as format
	work    []*ssa.Parameter
	busy    map[ssa.Value]bool
	stores  map[string][]ssa.Value // field or element class → stored values
	callers map[*ssa.Function][]ssa.CallInstruction
	dyn     []ssa.CallInstruction // calls of function values and interface methods
	taken   map[*ssa.Function]bool
}

// formatParam is the index of the format among the arguments of a call of a
// function with this signature, -1 if it has none.
func formatParam(sig *types.Signature, recv bool) int {
	n := sig.Params().Len()
	if !sig.Variadic() || n < 2 {
		return -1
	}
	sl, ok := sig.Params().At(n - 1).Type().(*types.Slice)
	if !ok {
		return -1
	}
	if i, ok := sl.Elem().Underlying().(*types.Interface); !ok || !i.Empty() {
		return -1
	}
	if b, ok := sig.Params().At(n - 2).Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
		return -1
	}
	i := n - 2
	if recv {
		i++
	}
	return i
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// lookup: an exported function or method of the root package that translates.
func (c *Check) lookupFn(f *ssa.Function) bool {
	return f != nil && pkgPath(f) == modPath && f.Object() != nil && f.Object().Exported() && formatParam(f.Signature, false) >= 0
}

func ruleFormats(c *Check) {
	fl := &fmtFlow{c: c, sinks: map[*ssa.Parameter]bool{}, busy: map[ssa.Value]bool{}, stores: map[string][]ssa.Value{},
		callers: map[*ssa.Function][]ssa.CallInstruction{}, taken: map[*ssa.Function]bool{}}
	var fns []*ssa.Function
	for fn := range c.w.all {
		if c.w.isRepo(fn) && fn.Synthetic == "" || fn.Synthetic == "package initializer" && c.w.isRepo(fn) {
			if strings.HasSuffix(pkgPath(fn), "/plurals/parser") {
				continue
			}
			fns = append(fns, fn)
		}
	}
	sortFns(fns)
	for _, fn := range fns {
		c.analysed[fnName(fn)] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if k := cellClass(in.Addr); k != "" {
						fl.stores[k] = append(fl.stores[k], in.Val)
					}
				case *ssa.MapUpdate:
					k := fmt.Sprintf("M%d", typeID(in.Map.Type().Underlying()))
					fl.stores[k] = append(fl.stores[k], in.Value)
				}
				call, _ := in.(ssa.CallInstruction)
				if call != nil {
					if f := call.Common().StaticCallee(); f != nil {
						fl.callers[f] = append(fl.callers[f], call)
					} else if _, bi := call.Common().Value.(*ssa.Builtin); !bi {
						fl.dyn = append(fl.dyn, call)
					}
				}
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && (call == nil || *op != call.Common().Value) {
						fl.taken[f] = true
					}
				}
			}
		}
	}
	for _, fn := range fns {
		if fl.exempt(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := call.Common()
				f := com.StaticCallee()
				if f == nil || c.w.isRepo(f) {
					// a message handed to the translation functions by the tool
					if c.lookupFn(f) && pkgPath(fn) != modPath {
						for i, p := range f.Params {
							if isStringT(p.Type()) {
								fl.site(fn, call, com.Args[i], fnName(f))
							}
						}
					}
					continue
				}
				if pkgPath(f) == "log/slog" {
					continue
				}
				if i := formatParam(f.Signature, f.Signature.Recv() != nil); i >= 0 && i < len(com.Args) {
					fl.site(fn, call, com.Args[i], fnName(f))
				}
			}
		}
	}
	for len(fl.work) > 0 {
		p := fl.work[len(fl.work)-1]
		fl.work = fl.work[:len(fl.work)-1]
		fl.param(p)
	}
}

func (fl *fmtFlow) site(fn *ssa.Function, call ssa.CallInstruction, v ssa.Value, callee string) {
	msg := fl.source(v)
	fl.c.put("format", fnName(fn)+" → "+callee, msg == "", instrPos(call.(ssa.Instruction), fn), fmt.Sprintf("the format of %s is %s: a %% in it would be interpreted", callee, msg))
}

func paramIndex(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if p == q {
			return i
		}
	}
	return -1
}

// param checks what the callers of a function give for a format parameter.
func (fl *fmtFlow) param(p *ssa.Parameter) {
	fn, i := p.Parent(), paramIndex(p)
	name := fnName(fn)
	// who calls from outside knows that a function with a format and arguments formats
	outside := fn.Object() != nil && fn.Object().Exported() || len(fl.callers[fn]) == 0 && !fl.taken[fn] && fn.Parent() == nil
	if outside {
		at := formatParam(fn.Signature, fn.Signature.Recv() != nil)
		fl.c.assert(at == i, "format", name+": "+p.Name(), fn.Pos(), "the parameter %s, given from outside, is used as a format", p.Name())
	}
	for _, call := range fl.callers[fn] {
		if i < len(call.Common().Args) {
			from := call.(ssa.Instruction).Parent()
			fl.site(from, call, call.Common().Args[i], name)
		}
	}
	for _, call := range fl.dyn {
		com := call.Common()
		from := call.(ssa.Instruction).Parent()
		if com.IsInvoke() {
			if com.Method.Name() == fn.Name() && fn.Signature.Recv() != nil && i >= 1 && i-1 < len(com.Args) {
				if it, ok := com.Value.Type().Underlying().(*types.Interface); ok && types.Implements(fn.Signature.Recv().Type(), it) {
					fl.site(from, call, com.Args[i-1], name)
				}
			}
			continue
		}
		if fl.taken[fn] || fn.Parent() != nil {
			if types.Identical(com.Value.Type().Underlying(), types.NewSignatureType(nil, nil, nil, fn.Signature.Params(), fn.Signature.Results(), fn.Signature.Variadic())) && i < len(com.Args) {
				fl.site(from, call, com.Args[i], name)
			}
		}
	}
}

// cellClass names the storage an address denotes, flow-insensitively.
func cellClass(a ssa.Value) string {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		return fmt.Sprintf("F%d.%d", typeID(derefT(a.X.Type())), a.Field)
	case *ssa.IndexAddr:
		// the elements of one array or literal are told apart by its root
		if r, ok := a.X.(*ssa.Alloc); ok {
			return fmt.Sprintf("A%p", r)
		}
		switch b := a.X.(type) {
		case *ssa.Slice:
			if r, ok := b.X.(*ssa.Alloc); ok {
				return fmt.Sprintf("A%p", r)
			}
		case *ssa.UnOp:
			if g, ok := b.X.(*ssa.Global); ok && b.Op == token.MUL {
				return "EG" + g.String()
			}
		case *ssa.Global:
			return "EG" + b.String()
		}
		return fmt.Sprintf("E%d", typeID(derefT(a.Type())))
	case *ssa.Alloc:
		return fmt.Sprintf("A%p", a)
	case *ssa.Global:
		return "G" + a.String()
	}
	return ""
}

// source says why v may hold text from outside; "" if it cannot.
func (fl *fmtFlow) source(v ssa.Value) string {
	if fl.busy[v] {
		return ""
	}
	fl.busy[v] = true
	defer delete(fl.busy, v)
	switch v := v.(type) {
	case *ssa.Const:
		return ""
	case *ssa.BinOp:
		if v.Op == token.ADD {
			if m := fl.source(v.X); m != "" {
				return m
			}
			return fl.source(v.Y)
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if m := fl.source(e); m != "" {
				return m
			}
		}
		return ""
	case *ssa.ChangeType:
		return fl.source(v.X)
	case *ssa.Convert:
		if isStringT(v.X.Type()) {
			return fl.source(v.X)
		}
	case *ssa.Slice:
		if isStringT(v.X.Type()) {
			return fl.source(v.X)
		}
	case *ssa.Parameter:
		if fl.exempt(v.Parent()) {
			return ""
		}
		if !fl.sinks[v] {
			fl.sinks[v] = true
			fl.work = append(fl.work, v)
		}
		return ""
	case *ssa.FreeVar:
		return fl.free(v)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return fl.load(v.X)
		}
	case *ssa.Field:
		return fl.cell(fmt.Sprintf("F%d.%d", typeID(v.X.Type()), v.Field), v)
	case *ssa.Lookup:
		if m, ok := v.X.Type().Underlying().(*types.Map); ok {
			return fl.cell(fmt.Sprintf("M%d", typeID(m)), v)
		}
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.Call:
			return fl.result(t, v.Index)
		case *ssa.Lookup:
			return fl.source(t)
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok {
				if m, ok := r.X.Type().Underlying().(*types.Map); ok && v.Index == 2 {
					return fl.cell(fmt.Sprintf("M%d", typeID(m)), v)
				}
			}
		}
	case *ssa.Call:
		return fl.result(v, 0)
	}
	return "not a constant: " + describe(v)
}

// exempt: the formatting of translated messages; their formats come from the
// caller of the library or from the catalogue by purpose.
func (fl *fmtFlow) exempt(fn *ssa.Function) bool { return pkgPath(fn) == modPath+"/f" }

func (fl *fmtFlow) cell(class string, v ssa.Value) string {
	vs := fl.stores[class]
	if len(vs) == 0 {
		return "not a constant: " + describe(v)
	}
	for _, s := range vs {
		if m := fl.source(s); m != "" {
			return m
		}
	}
	return ""
}

func (fl *fmtFlow) load(a ssa.Value) string {
	switch a := a.(type) {
	case *ssa.Global:
		if pkgPathOf(a) == "" || !strings.HasPrefix(a.Pkg.Pkg.Path(), modPath) {
			break
		}
		return fl.cell("G"+a.String(), a)
	case *ssa.FreeVar:
		return fl.free(a)
	case *ssa.Alloc:
		if vs := fl.stores[cellClass(a)]; len(vs) == 0 {
			return "" // the zero value
		}
		return fl.cell(cellClass(a), a)
	case *ssa.FieldAddr, *ssa.IndexAddr:
		k := cellClass(a)
		if !strings.HasPrefix(k, "EG") {
			return fl.cell(k, a)
		}
		// the literal a package variable starts with, and what is stored later
		for _, v := range fl.stores[k] {
			if m := fl.source(v); m != "" {
				return m
			}
		}
		for _, v := range fl.stores[k[1:]] {
			sl, ok := v.(*ssa.Slice)
			if !ok {
				return "not a constant: " + describe(a)
			}
			r, ok := sl.X.(*ssa.Alloc)
			if !ok {
				return "not a constant: " + describe(a)
			}
			if m := fl.cell(fmt.Sprintf("A%p", r), a); m != "" {
				return m
			}
		}
		return ""
	}
	return "not a constant: " + describe(a)
}

func pkgPathOf(g *ssa.Global) string {
	if g.Pkg == nil {
		return ""
	}
	return g.Pkg.Pkg.Path()
}

// free follows a captured variable to what the enclosing function binds.
func (fl *fmtFlow) free(v *ssa.FreeVar) string {
	fn := v.Parent()
	i := -1
	for k, f := range fn.FreeVars {
		if f == v {
			i = k
		}
	}
	found := false
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != fn || i < 0 {
				continue
			}
			found = true
			bound := mc.Bindings[i]
			m := ""
			if _, ptr := bound.Type().Underlying().(*types.Pointer); ptr {
				m = fl.load(bound)
			} else {
				m = fl.source(bound)
			}
			if m != "" {
				return m
			}
		}
	}
	if !found {
		return "not a constant: " + describe(v)
	}
	return ""
}

// keepsText: library functions whose result consists of their arguments' text.
var keepsText = map[string]bool{"strings.TrimSpace": true, "strings.ReplaceAll": true, "strings.Replace": true, "strings.ToLower": true, "strings.ToUpper": true, "strings.Repeat": true,
	"strings.Trim": true, "strings.TrimRight": true, "strings.TrimLeft": true, "strings.TrimSuffix": true, "strings.TrimPrefix": true, "strconv.Itoa": true, "strconv.FormatInt": true}

func (fl *fmtFlow) result(call *ssa.Call, i int) string {
	com := call.Common()
	f := com.StaticCallee()
	if f == nil {
		return "not a constant: the result of " + describe(com.Value)
	}
	if keepsText[fnName(f)] {
		for _, a := range com.Args {
			if isStringT(a.Type()) {
				if m := fl.source(a); m != "" {
					return m
				}
			}
		}
		return ""
	}
	if fl.c.lookupFn(f) {
		// a translation; its arguments would become part of the format
		if n := len(com.Args); n > 0 {
			if k, ok := com.Args[n-1].(*ssa.Const); !ok || !k.IsNil() {
				return "a translation with arguments already filled in"
			}
		}
		return "" // the message itself is checked at the call
	}
	if !fl.c.w.isRepo(f) || len(f.Blocks) == 0 {
		return "the result of " + fnName(f)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok || i >= len(r.Results) {
				continue
			}
			v := r.Results[i]
			if p, ok := v.(*ssa.Parameter); ok {
				if m := fl.source(com.Args[paramIndex(p)]); m != "" {
					return m
				}
				continue
			}
			if m := fl.source(v); m != "" {
				return m
			}
		}
	}
	return ""
}

func sortFns(fns []*ssa.Function) {
	names := map[*ssa.Function]string{}
	for _, f := range fns {
		names[f] = f.String()
	}
	for i := 1; i < len(fns); i++ {
		for j := i; j > 0 && names[fns[j]] < names[fns[j-1]]; j-- {
			fns[j], fns[j-1] = fns[j-1], fns[j]
		}
	}
}
