package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// site evaluates the callee and the arguments of a call.
func (x *Exec) site(fr *Frame, c cur, instr ssa.Instruction, com *ssa.CallCommon) *callSite {
	cs := &callSite{fr: fr, st: c.st, instr: instr, com: com, pan: c.pan, recov: c.recov, guard: fr.guarded || hasRecoverDefer(c.defers)}
	cs.typ = resultType(com.Signature())
	if com.IsInvoke() {
		recv := x.val(fr, c, com.Value)
		cs.name = com.Method.FullName()
		cs.args = []*Term{recv}
		if recv.op == OIface {
			if fn := x.w.prog.LookupMethod(recv.typ, com.Method.Pkg(), com.Method.Name()); fn != nil {
				cs.fnT = mkFunc(fn)
				cs.name = canon(fn)
				cs.args[0] = recv.args[0]
			}
		}
	} else if b, ok := com.Value.(*ssa.Builtin); ok {
		cs.name = "builtin " + b.Name()
	} else {
		f := x.val(fr, c, com.Value)
		cs.fnT = f
		switch f.op {
		case OFunc, OClosure:
			cs.name = canon(f.obj.(*ssa.Function))
		default:
			cs.name = "dynamic " + types.TypeString(com.Value.Type(), shortQual)
		}
	}
	for _, a := range com.Args {
		cs.args = append(cs.args, x.val(fr, c, a))
	}
	return cs
}

func resultType(sig *types.Signature) types.Type {
	r := sig.Results()
	switch r.Len() {
	case 1:
		return r.At(0).Type()
	}
	return r
}

func one(st *State, r *Term) []callOut { return []callOut{{st: st, res: r, kind: oRet}} }

func (cs *callSite) fn() *ssa.Function {
	if cs.fnT != nil && (cs.fnT.op == OFunc || cs.fnT.op == OClosure) {
		return cs.fnT.obj.(*ssa.Function)
	}
	return nil
}

// event records an external or opaque call.
func (x *Exec) event(cs *callSite, kind string, res *Term) {
	ev := &Event{kind: kind, name: cs.name, args: cs.args, pos: instrPos(cs.instr, cs.fr.fn), fn: fnName(cs.fr.fn), st: cs.st.clone()}
	if res != nil {
		ev.res = []*Term{res}
	}
	cs.st.add(ev)
}

func (x *Exec) invoke(cs *callSite) []callOut {
	cs.st = cs.st.clone()
	if strings.HasPrefix(cs.name, "builtin ") {
		return x.builtin(cs)
	}
	if x.onInvoke != nil {
		if outs, ok := x.onInvoke(x, cs); ok {
			return outs
		}
	}
	fn := cs.fn()
	if fn == nil && cs.com != nil && cs.com.IsInvoke() {
		if !x.nonNil(cs.st, cs.args[0]) {
			c := cur{st: cs.st}
			var ok bool
			if c, ok = x.needNonNil(cs.fr, c, cs.instr, "method "+cs.com.Method.Name()+" of "+describe(cs.com.Value), cs.args[0]); !ok {
				return nil
			}
			cs.st = c.st
		}
	}
	if x.pureOpaque[cs.name] {
		r := mkCall(cs.name, cs.typ, x.values(cs.st, cs.args)...)
		x.event(cs, "call", r)
		return one(cs.st, r)
	}
	if x.opaque[cs.name] {
		return x.opaqueCall(cs, fn)
	}
	if m := x.models[cs.name]; m != nil {
		return m(x, cs)
	}
	if m := models[cs.name]; m != nil {
		x.extCalls[cs.name]++
		return m(x, cs)
	}
	if fn != nil && len(fn.Blocks) > 0 && !foreign(fn, cs.fr.fn) && (x.w.isRepo(fn) || fn.Synthetic != "" && fnPkg(fn) == nil || inlineExternal(fn)) {
		n := 0
		for _, f := range x.stack {
			if f == fn {
				n++
			}
		}
		if n > 0 || len(x.stack) > 40 {
			return x.recursive(cs, fn)
		}
		binds := []*Term(nil)
		if cs.fnT.op == OClosure {
			binds = cs.fnT.args
		}
		return x.callFn(cs.fr, cs.st, fn, cs.args, binds, cs.instr, cs.pan, cs.recov, cs.guard)
	}
	if fn == nil && cs.fnT != nil {
		c := cur{st: cs.st}
		var ok bool
		if c, ok = x.needNonNil(cs.fr, c, cs.instr, "call of function value "+describe(cs.com.Value), cs.fnT); !ok {
			return nil
		}
		cs.st = c.st
		cs.name = "dynamic"
		cs.args = append([]*Term{cs.fnT}, cs.args...)
	}
	return x.external(cs)
}

// foreign: the generated recogniser is, seen from other packages, part of the
// grammar runtime.
func foreign(fn, from *ssa.Function) bool {
	p := fnPkg(fn)
	if p == nil || p.Path() != modPath+"/plurals/parser" {
		return false
	}
	q := fnPkg(from)
	return q == nil || q.Path() != p.Path()
}

// inlineExternal: wrappers generated by the compiler for promoted methods and
// small pure helpers of the standard library are analysed like repository code.
func inlineExternal(fn *ssa.Function) bool {
	if strings.HasPrefix(fn.Synthetic, "wrapper") || strings.HasPrefix(fn.Synthetic, "bound") || strings.HasPrefix(fn.Synthetic, "thunk") {
		return true
	}
	switch canon(fn) {
	case "cmp.Compare", "cmp.Less", "slices.Contains", "slices.Index", "slices.Equal", "slices.Reverse", "cmp.Or", "slices.ContainsFunc", "slices.IndexFunc":
		return true
	}
	return false
}

// recursive treats a call back into an active function as unknown.
func (x *Exec) recursive(cs *callSite, fn *ssa.Function) []callOut {
	r := x.icall(cs.fr, cs.st, cs.instr, cs.name, cs.typ, cs.args)
	x.event(cs, "rec", r)
	if x.quiet == 0 {
		for i := len(x.stack) - 1; i >= 0; i-- {
			if x.stack[i] == fn {
				x.recs = append(x.recs, recCall{fn: fn, entry: x.stackArgs[i], args: cs.args, st: cs.st.clone(), instr: cs.instr, in: cs.fr.fn})
				break
			}
		}
	}
	x.havocMods(cs, fn)
	return one(cs.st, r)
}

func (x *Exec) opaqueCall(cs *callSite, fn *ssa.Function) []callOut {
	r := x.icall(cs.fr, cs.st, cs.instr, cs.name, cs.typ, cs.args)
	before := cs.st.clone()
	x.event(cs, "call", r)
	if fn != nil && x.w.isRepo(fn) {
		x.havocMods(cs, fn)
	}
	x.bufTouched(cs, cs.st)
	cs.st.trace.ev.st, cs.st.trace.ev.after = before, cs.st.clone()
	return one(cs.st, r)
}

// modSet is what a function may write, transitively.
type modSet struct {
	classes map[string]bool
	maps    map[string]bool
	all     bool
}

func (w *World) mods(fn *ssa.Function) *modSet {
	if m, ok := w.modsMemo[fn]; ok {
		return m
	}
	m := &modSet{classes: map[string]bool{}, maps: map[string]bool{}}
	w.modsMemo[fn] = m
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || !w.isRepo(f) && f.Synthetic == "" {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
				switch i := in.(type) {
				case *ssa.Store:
					vt := i.Val.Type()
					switch a := i.Addr.(type) {
					case *ssa.FieldAddr:
						m.classes[fmt.Sprintf("F%d.%d", typeID(derefT(a.X.Type())), a.Field)] = true
					case *ssa.IndexAddr:
						m.classes[fmt.Sprintf("E%d", typeID(derefT(a.Type())))] = true
					case *ssa.Global:
						m.classes["G"+a.String()] = true
					default:
						m.classes[fmt.Sprintf("P%d", typeID(vt))] = true
					}
					if st, ok := vt.Underlying().(*types.Struct); ok {
						for k := 0; k < st.NumFields(); k++ {
							m.classes[fmt.Sprintf("F%d.%d", typeID(vt), k)] = true
						}
					}
				case *ssa.MapUpdate:
					m.maps[mapClass(i.Map.Type())] = true
				case *ssa.Call:
					if bi, ok := i.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						m.maps[mapClass(i.Call.Args[0].Type())] = true
					}
					if i.Call.IsInvoke() {
						for _, g := range w.implementers(i.Call.Value.Type(), i.Call.Method) {
							visit(g)
						}
					}
				}
			}
		}
	}
	visit(fn)
	return m
}

// implementers lists the repository's methods an interface call may reach.
func (w *World) implementers(it types.Type, m *types.Func) []*ssa.Function {
	var out []*ssa.Function
	iface, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for _, p := range w.ssaPkgs {
		for _, mem := range p.Members {
			tn, ok := mem.(*ssa.Type)
			if !ok {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if types.IsInterface(t) || !types.Implements(t, iface) {
					continue
				}
				if f := w.prog.LookupMethod(t, m.Pkg(), m.Name()); f != nil {
					out = append(out, f)
				}
			}
		}
	}
	return out
}

// havocMods forgets everything fn may write.
func (x *Exec) havocMods(cs *callSite, fn *ssa.Function) {
	s := cs.st
	for _, a := range cs.args {
		x.escape(s, a)
	}
	ms := x.w.mods(fn)
	for c := range ms.classes {
		e := mk(Term{op: OSym, s: "e" + x.freshKey(cs.fr, s, cs.instr, "mod"+c), owners: x.own()})
		s.epochs = s.epochs.Set(classID(c), e)
	}
	for c := range ms.maps {
		e := mk(Term{op: OSym, s: "e" + x.freshKey(cs.fr, s, cs.instr, "mod"+c), owners: x.own()})
		s.epochs = s.epochs.Set(classID(c), e)
	}
	var hit []int
	s.cells.Each(func(k int, v *Term) {
		a := terms[k-1]
		r := rootOf(a)
		if r.op == OAlloc {
			if _, esc := s.escaped.Get(r.id); !esc {
				return
			}
		}
		if ms.classes[classOf(a, cellType(a, v))] || a.op == OCall {
			hit = append(hit, k)
		}
	})
	for _, k := range hit {
		a := terms[k-1]
		v, _ := s.cells.Get(k)
		s.cells = s.cells.Set(k, x.initTerm(s, a, cellType(a, v)))
	}
	var mh []int
	s.maps.Each(func(id int, o *mapSt) {
		t := terms[id-1]
		if t.typ == nil || !ms.maps[mapClass(t.typ)] {
			return
		}
		if t.op == OAlloc {
			if _, esc := s.escaped.Get(t.id); !esc {
				return
			}
		}
		mh = append(mh, id)
	})
	for _, id := range mh {
		t := terms[id-1]
		s.maps = s.maps.Set(id, &mapSt{ver: mkCall("ver", nil, t, s.epoch(mapClass(t.typ)))})
	}
}

// values makes the memory behind argument lists explicit: a variadic slice of
// known length becomes the tuple of its elements.
func (x *Exec) values(s *State, args []*Term) []*Term {
	out := make([]*Term, len(args))
	for i, a := range args {
		out[i] = x.value(s, a)
	}
	return out
}

func (x *Exec) value(s *State, a *Term) *Term {
	if el, ok := x.elems(s, a); ok {
		return mk(Term{op: OTuple, args: el, typ: a.typ})
	}
	return a
}

// elems lists the elements of a slice of known content.
func (x *Exec) elems(s *State, a *Term) ([]*Term, bool) {
	var et types.Type
	if a.typ != nil {
		if sl, ok := a.typ.Underlying().(*types.Slice); ok {
			et = sl.Elem()
		}
	}
	switch a.op {
	case OConst:
		if a.isNil() {
			return nil, true
		}
	case OSlice:
		lo, ok1 := a.args[1].intVal()
		hi, ok2 := a.args[2].intVal()
		if ok1 && ok2 && hi >= lo && hi-lo <= 64 && et != nil && a.args[0].op == OAlloc {
			var out []*Term
			for k := lo; k < hi; k++ {
				out = append(out, x.load(s, mkIndexAddr(a.args[0], kInt(k), et), et))
			}
			return out, true
		}
	case OMkSlice:
		if n, ok := a.args[0].intVal(); ok && et != nil && n <= 16 {
			var out []*Term
			for k := int64(0); k < n; k++ {
				out = append(out, x.load(s, mkIndexAddr(a, kInt(k), et), et))
			}
			return out, true
		}
	case OAppend:
		base, ok := x.elems(s, a.args[0])
		if !ok {
			return nil, false
		}
		out := append([]*Term{}, base...)
		for k, e := range a.args[1:] {
			if e.op == OSpread {
				sub, ok := x.elems(s, e.args[0])
				if !ok {
					return nil, false
				}
				out = append(out, sub...)
				continue
			}
			if et != nil {
				if v, ok := s.cells.Get(mkIndexAddr(a, kInt(int64(len(base)+k)), et).id); ok {
					e = v
				}
			}
			out = append(out, e)
		}
		return out, true
	}
	return nil, false
}

func (x *Exec) builtin(cs *callSite) []callOut {
	name := strings.TrimPrefix(cs.name, "builtin ")
	s := cs.st
	a := cs.args
	switch name {
	case "len":
		t := cs.com.Args[0].Type().Underlying()
		switch t := t.(type) {
		case *types.Map:
			ms := x.mapState(s, a[0], t)
			if ms.writes == nil {
				if ms.empty {
					return one(s, kInt(0))
				}
				n := mkCall("maplen", tInt, ms.ver)
				x.assume(s, mkLt(n, kInt(0), tInt), false)
				return one(s, n)
			}
			r := x.freshSym(cs.fr, s, cs.instr, "maplen", tInt)
			x.assume(s, mkLt(r, kInt(0), tInt), false)
			return one(s, r)
		case *types.Pointer:
			return one(s, kInt(t.Elem().Underlying().(*types.Array).Len()))
		case *types.Array:
			return one(s, kInt(t.Len()))
		}
		return one(s, mkLen(a[0]))
	case "cap":
		if t, ok := cs.com.Args[0].Type().Underlying().(*types.Pointer); ok {
			return one(s, kInt(t.Elem().Underlying().(*types.Array).Len()))
		}
		return one(s, mkCap(a[0]))
	case "append":
		r := x.doAppend(cs, a[0], a[1], cs.com.Args[1].Type())
		return one(cs.st, r)
	case "copy":
		if a[0].typ != nil {
			if sl, ok := cs.com.Args[0].Type().Underlying().(*types.Slice); ok {
				x.havocElems(cs.fr, s, a[0], sl.Elem(), cs.instr, "copy")
			}
		}
		x.event(cs, "copy", nil)
		r := x.freshSym(cs.fr, s, cs.instr, "copied", tInt)
		x.assume(s, mkLt(r, kInt(0), tInt), false)
		x.assume(s, mkLt(mkLen(a[0]), r, tInt), false)
		x.assume(s, mkLt(mkLen(a[1]), r, tInt), false)
		return one(s, r)
	case "delete":
		mt := cs.com.Args[0].Type().Underlying().(*types.Map)
		if a[0].isNil() {
			return one(s, mkTuple())
		}
		x.mapWrite(cs.fr, s, a[0], a[1], nil, true, mt, cs.instr)
		return one(s, mkTuple())
	case "clear":
		if mt, ok := cs.com.Args[0].Type().Underlying().(*types.Map); ok {
			x.mapWrite(cs.fr, s, a[0], kNil(), nil, true, mt, cs.instr)
			s.maps = s.maps.Set(a[0].id, &mapSt{empty: true})
			return one(s, mkTuple())
		}
		x.undecided("clear in %s", fnName(cs.fr.fn))
		return one(s, mkTuple())
	case "recover":
		if cs.pan != nil && cs.recov != nil {
			*cs.recov = true
			v := cs.pan
			s.add(&Event{kind: "recover", args: []*Term{v}, pos: instrPos(cs.instr, cs.fr.fn), fn: fnName(cs.fr.fn)})
			return one(s, v)
		}
		return one(s, kNil())
	case "min", "max":
		if len(a) == 2 {
			lt := mkLt(a[0], a[1], cs.typ)
			t, f := s.clone(), s
			var out []callOut
			p, q := a[0], a[1]
			if name == "max" {
				p, q = q, p
			}
			if x.assume(t, lt, true) {
				out = append(out, callOut{st: t, res: p, kind: oRet})
			}
			if x.assume(f, lt, false) {
				out = append(out, callOut{st: f, res: q, kind: oRet})
			}
			return out
		}
	case "ssa:wrapnilchk":
		return one(s, a[0])
	case "print", "println":
		x.event(cs, "call", nil)
		return one(s, mkTuple())
	}
	x.undecided("builtin %s in %s", name, fnName(cs.fr.fn))
	return one(s, x.freshSym(cs.fr, s, cs.instr, name, cs.typ))
}

func (x *Exec) doAppend(cs *callSite, base, more *Term, mt types.Type) *Term {
	s := cs.st
	var items []*Term
	if isString(mt) {
		items = []*Term{mk(Term{op: OSpread, args: []*Term{more}, typ: mt})}
	} else if el, ok := x.elems(s, more); ok {
		items = el
	} else {
		items = []*Term{mk(Term{op: OSpread, args: []*Term{more}, typ: mt})}
	}
	if len(items) == 0 {
		return base
	}
	if sl, ok := cs.typ.Underlying().(*types.Slice); ok && nonNilElem(sl.Elem()) {
		for _, it := range items {
			if it.op != OSpread {
				c, ok := x.needNonNil(cs.fr, cur{st: s}, cs.instr, "element appended to []"+types.TypeString(sl.Elem(), shortQual), it)
				if ok {
					s = c.st
					cs.st = s
				}
			}
		}
	}
	r := mkAppend(base, items, cs.typ)
	s.add(&Event{kind: "append", args: append([]*Term{base}, items...), res: []*Term{r}, pos: instrPos(cs.instr, cs.fr.fn), fn: fnName(cs.fr.fn)})
	if n, ok := mkLen(base).intVal(); !ok || n != 0 || !base.isNil() {
		if len(items) > 40 {
			x.undecided("long append in %s", fnName(cs.fr.fn))
		}
	}
	return r
}

// ---- external calls ----

// readOnlyPkgs never write through their arguments.
var readOnlyPkgs = map[string]bool{"strings": true, "strconv": true, "errors": true, "unicode": true, "unicode/utf8": true, "path": true, "path/filepath": true,
	"regexp": true, "golang.org/x/text/language": true, "golang.org/x/text/internal/language": true, "time": true, "math": true, "context": true, "runtime/debug": true, "os": true, "net/http": true,
	"github.com/cockroachdb/errors": true, "github.com/Xuanwo/go-locale": true, "io/fs": true, "text/template/parse": true, "html/template": true, "text/template": true, "flag": true, "fmt": true, "maps": true, "slices": true, "math/bits": true, "cmp": true, "net/textproto": true, "log": true, "html": true, "github.com/cockroachdb/errors/errutil": true, "iter": true, "net/url": true}

// pureExternal: the result depends on the argument values only.
func pureExternal(name string) bool {
	switch name {
	case "(context.Context).Value", "(*html/template.Template).Name", "(net/http.Header).Get", "(*net/http.Request).Cookie",
		"(io/fs.DirEntry).IsDir", "(io/fs.DirEntry).Name", "(io/fs.FileInfo).Name", "(io/fs.FileInfo).IsDir", "(io/fs.FileInfo).Size",
		"(golang.org/x/text/language.Tag).Base", "(golang.org/x/text/language.Tag).Region", "(golang.org/x/text/language.Tag).Script", "(golang.org/x/text/language.Tag).String", "(golang.org/x/text/language.Tag).Raw",
		"golang.org/x/text/language.Make", "golang.org/x/text/language.Parse", "golang.org/x/text/language.NewMatcher", "golang.org/x/text/language.ParseAcceptLanguage", "golang.org/x/text/language.MustParse",
		"(golang.org/x/text/language.Matcher).Match", "github.com/Xuanwo/go-locale.Detect", "(github.com/antlr4-go/antlr/v4.Token).GetText", "context.WithValue", "context.Background", "context.TODO",
		"regexp.MustCompile", "(*bytes.Reader).Size", "path/filepath.Join", "path.Join", "path.Ext", "path/filepath.Ext", "path/filepath.Base", "path.Base",
		"slices.Clone", "maps.Clone", "slices.Concat", "unicode/utf8.RuneCountInString", "unicode/utf8.ValidString", "go/token.IsIdentifier", "go/token.IsKeyword",
		"(golang.org/x/text/language.Base).String", "(golang.org/x/text/language.Region).String":
		return true
	}
	return strings.HasPrefix(name, "strings.") && !strings.HasPrefix(name, "strings.New") || strings.HasPrefix(name, "strconv.") && !strings.HasPrefix(name, "strconv.Append") || strings.HasPrefix(name, "(*regexp.Regexp).") && !strings.Contains(name, "Func") ||
		strings.HasPrefix(name, "unicode.")
}

func (x *Exec) external(cs *callSite) []callOut {
	x.extCalls[cs.name]++
	if pureExternal(cs.name) {
		r := pureCall(cs.name, cs.typ, x.values(cs.st, cs.args))
		if x.watchPure[cs.name] {
			x.event(cs, "call", r)
		}
		return one(cs.st, r)
	}
	s := cs.st
	before := s.clone()
	pkg := ""
	if f := cs.fn(); f != nil {
		if p := fnPkg(f); p != nil {
			pkg = p.Path()
		}
	} else if cs.com != nil && cs.com.IsInvoke() && cs.com.Method.Pkg() != nil {
		pkg = cs.com.Method.Pkg().Path()
	}
	outs := []callOut{}
	if strings.HasPrefix(pkg, "github.com/antlr4-go") || strings.HasPrefix(pkg, modPath+"/plurals/parser") {
		// the grammar runtime reports some errors by panicking
		p := s.clone()
		pv := x.freshSym(cs.fr, p, cs.instr, "panic", tAny)
		x.assume(p, mkEq(pv, kNil()), false)
		ok := cs.guard
		x.oblige(cs.fr, cs.instr, "panic", "panic of "+cs.name, ok, p, "may panic")
		p.add(&Event{kind: "mayPanic", name: cs.name, fn: fnName(cs.fr.fn)})
		outs = append(outs, callOut{st: p, kind: oPanic, pv: pv})
	}
	for i, a := range cs.args {
		x.escape(s, a)
		if a.op == OClosure || a.op == OFunc {
			// a callback: it may run any number of times
			x.hof(cs, a)
			s = cs.st
		}
		_ = i
		if !readOnlyPkgs[pkg] || writesArgs(cs.name) {
			x.havocReach(cs, a)
		}
	}
	x.bufTouched(cs, s)
	r := x.icall(cs.fr, s, cs.instr, cs.name, cs.typ, cs.args)
	x.event(cs, "call", r)
	s.trace.ev.st, s.trace.ev.after = before, s.clone() // as the callee saw and left it
	return append(outs, callOut{st: s, res: r, kind: oRet})
}

// writesArgs: what writes through its arguments all the same.
func writesArgs(n string) bool {
	for _, p := range []string{"fmt.Sscan", "fmt.Fscan", "fmt.Scan", "fmt.Append", "strconv.Append", "unicode/utf8.AppendRune", "unicode/utf8.EncodeRune", "(*os.File).Read", "(io/fs.File).Read",
		"(net/textproto.MIMEHeader).Set", "(net/textproto.MIMEHeader).Add", "(net/textproto.MIMEHeader).Del", "(net/url.Values).Set", "(net/url.Values).Add", "(net/url.Values).Del"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return mutator(n) || strings.HasSuffix(n, "errors.As")
}

// havocReach forgets the content of everything an argument leads to.
func (x *Exec) havocReach(cs *callSite, a *Term) {
	s := cs.st
	seen := map[*Term]bool{}
	var visit func(t *Term)
	object := func(p *Term, typ types.Type) {
		r := rootOf(p)
		if seen[r] {
			return
		}
		seen[r] = true
		if r.typ != nil && isBytes(r.typ) {
			x.newContent(cs.fr, s, cs.instr, r)
		}
		var hit []int
		s.cells.Each(func(k int, v *Term) {
			if rootOf(terms[k-1]) == r {
				hit = append(hit, k)
			}
		})
		for _, k := range hit {
			if v, ok := s.cells.Get(k); ok && v != nil {
				visit(v)
			}
		}
		if r.op == OAlloc {
			e := mk(Term{op: OSym, s: "e" + x.freshKey(cs.fr, s, cs.instr, "ext"), owners: x.own()})
			s.epochs = s.epochs.Set(classID("A"+fmt.Sprint(r.id)), e)
			for _, k := range hit {
				s.cells = s.cells.Del(k)
			}
			return
		}
		// older memory: what is behind other names of it is not known either
		if r.op != OGlobal || len(hit) > 0 {
			x.clobber(cs, p, derefT(typ), 0)
		}
		for _, k := range hit {
			s.cells = s.cells.Del(k)
		}
	}
	visit = func(t *Term) {
		switch t.op {
		case OIface, OStruct, OTuple, OSpread, OClosure, OConv:
			for _, u := range t.args {
				visit(u)
			}
			return
		case OSlice, OAppend:
			for _, u := range t.args {
				if u.typ == nil || !isInteger(u.typ) {
					visit(u)
				}
			}
		case OCall:
			if t.s == "array" {
				for _, u := range t.args {
					visit(u)
				}
			}
		}
		if t.typ == nil || t.isNil() {
			return
		}
		switch u := t.typ.Underlying().(type) {
		case *types.Pointer:
			object(t, t.typ)
		case *types.Slice:
			x.havocElems(cs.fr, s, t, u.Elem(), cs.instr, "ext")
			if t.op == OSlice && t.args[0].op == OAlloc {
				object(t.args[0], t.args[0].typ)
			}
		case *types.Map:
			e := mk(Term{op: OSym, s: "e" + x.freshKey(cs.fr, s, cs.instr, "ext"), owners: x.own()})
			s.maps = s.maps.Set(t.id, &mapSt{ver: mkCall("ver", nil, t, e)})
			if t.op != OAlloc {
				s.epochs = s.epochs.Set(classID(mapClass(u)), e)
			}
		default:
			if t.op == OAlloc {
				object(t, types.NewPointer(t.typ))
			}
		}
	}
	visit(a)
}

// clobber forgets what is at an address, under any name.
func (x *Exec) clobber(cs *callSite, addr *Term, vt types.Type, d int) {
	s := cs.st
	if vt == nil || d > 3 {
		return
	}
	if st, ok := vt.Underlying().(*types.Struct); ok {
		if n, ok := vt.(*types.Named); ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			return // the fields of a foreign type are read by nobody here
		}
		for i := 0; i < st.NumFields(); i++ {
			x.clobber(cs, mkField(addr, vt, i), st.Field(i).Type(), d+1)
		}
		return
	}
	if _, ok := vt.Underlying().(*types.Array); ok {
		return
	}
	var hit []int
	s.cells.Each(func(k int, _ *Term) {
		if o := terms[k-1]; o != addr && o.op == addr.op && x.mayAlias(s, addr, o) {
			hit = append(hit, k)
		}
	})
	if addr.op != OGlobal {
		e := mk(Term{op: OSym, s: "e" + x.freshKey(cs.fr, s, cs.instr, "ext"), owners: x.own()})
		s.epochs = s.epochs.Set(classID(classOf(addr, vt)), e)
	}
	for _, k := range hit {
		s.cells = s.cells.Set(k, x.initTerm(s, terms[k-1], vt))
	}
	s.cells = s.cells.Set(addr.id, x.freshSym(cs.fr, s, cs.instr, "ext", vt))
}

// hof runs a callback an arbitrary number of times with unknown arguments.
func (x *Exec) hof(cs *callSite, f *Term) {
	fn := f.obj.(*ssa.Function)
	if len(fn.Blocks) == 0 || !x.w.isRepo(fn) {
		return
	}
	for _, g := range x.stack {
		if g == fn {
			return
		}
	}
	outs := x.callbackLoop(cs, f, nil)
	if len(outs) == 1 {
		cs.st = outs[0].st
		return
	}
	// several exit states: keep them apart only through the loop mark
	if len(outs) > 1 {
		x.undecided("callback of %s leaves several states", cs.name)
		cs.st = outs[0].st
	}
}

// callbackLoop abstracts "the callee calls f zero or more times". each builds
// the argument lists of one call; the callback's result decides whether the
// iteration continues (nil error) when stop is given.
func (x *Exec) callbackLoop(cs *callSite, f *Term, each func(st *State) []hofArg) []callOut {
	fn := f.obj.(*ssa.Function)
	var binds []*Term
	if f.op == OClosure {
		binds = f.args
	}
	inst := intern(x.instIDs, "hof|"+x.freshKey(cs.fr, cs.st, cs.instr, "hof"))
	entry := cs.st
	var panics []callOut
	body := func(st *State, _ []*Term) ([]*BackIter, []outcome) {
		done := st.clone()
		exits := []outcome{{kind: oEdge, c: cur{st: done}}}
		var backs []*BackIter
		var argsets []hofArg
		if each != nil {
			argsets = each(st)
		} else {
			var as []*Term
			for k := 0; k < fn.Signature.Params().Len(); k++ {
				as = append(as, x.freshSym(cs.fr, st, cs.instr, fmt.Sprintf("cb%d", k), fn.Signature.Params().At(k).Type()))
			}
			argsets = []hofArg{{st: st, args: as}}
		}
		for _, a := range argsets {
			if len(fn.Params) != len(a.args) {
				x.undecided("callback %s has unexpected parameters", fnName(fn))
				continue
			}
			for _, o := range x.callFn(cs.fr, a.st.clone(), fn, a.args, binds, cs.instr, nil, nil, cs.guard) {
				switch o.kind {
				case oRet:
					if a.stop != nil {
						for _, so := range a.stop(o.st, o.res) {
							if so.back {
								backs = append(backs, &BackIter{st: so.st, trace: so.st.trace})
							} else {
								exits = append(exits, outcome{kind: oEdge, c: cur{st: so.st}, res: []*Term{so.res}})
							}
						}
						continue
					}
					backs = append(backs, &BackIter{st: o.st, trace: o.st.trace})
				case oPanic:
					if x.quiet == 0 {
						panics = append(panics, o)
					}
				case oExit:
					if x.quiet == 0 {
						panics = append(panics, o)
					}
				}
			}
		}
		return backs, exits
	}
	var outs []callOut
	exits, m := x.fixpoint(cs.name, inst, entry, nil, nil, nil, body)
	if m != nil && x.quiet == 0 {
		x.hofMarks = append(x.hofMarks, m)
	}
	for _, e := range exits {
		var r *Term
		if len(e.res) == 1 {
			r = e.res[0]
		}
		outs = append(outs, callOut{st: e.c.st, res: r, kind: oRet})
	}
	return append(outs, panics...)
}

type hofArg struct {
	st   *State
	args []*Term
	stop func(st *State, res *Term) []hofStop
}
type hofStop struct {
	st   *State
	back bool
	res  *Term
}
