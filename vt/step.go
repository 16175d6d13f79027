package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) set(c cur, v ssa.Value, t *Term) cur {
	c.env = c.env.Set(x.w.valID(v), t)
	return c
}

// need records an obligation and continues under the assumption that it holds.
func (x *Exec) need(fr *Frame, c cur, instr ssa.Instruction, kind, what string, cond *Term) (cur, bool) {
	v, known := x.truth(c.st, cond)
	ok := known && v
	if !ok {
		why := "not established: " + cond.String()
		if known {
			why = "always violated: " + cond.String()
		}
		x.oblige(fr, instr, kind, what, false, c.st, why)
	} else {
		x.oblige(fr, instr, kind, what, true, c.st, "")
		return c, true
	}
	c.st = c.st.clone()
	return c, x.assume(c.st, cond, true)
}

func (x *Exec) needNonNil(fr *Frame, c cur, instr ssa.Instruction, what string, p *Term) (cur, bool) {
	if x.nonNil(c.st, p) {
		x.oblige(fr, instr, "nil", what, true, c.st, "")
		return c, true
	}
	return x.need(fr, c, instr, "nil", what, mkNot(mkEq(p, kNil())))
}

func (x *Exec) needLE(fr *Frame, c cur, instr ssa.Instruction, kind, what string, a, b *Term, k int64) (cur, bool) {
	// a <= b + k
	if x.proveLE(c.st, a, b, k) {
		x.oblige(fr, instr, kind, what, true, c.st, "")
		return c, true
	}
	x.oblige(fr, instr, kind, what, false, c.st, fmt.Sprintf("not established: %v <= %v%+d", a, b, k))
	c.st = c.st.clone()
	l := linSub(x.zl(c.st, b), x.zl(c.st, a))
	l.k += k
	return c, x.addNonneg(c.st, l)
}

func (x *Exec) step(fr *Frame, c cur, instr ssa.Instruction) []cur {
	one := func(c cur) []cur { return []cur{c} }
	var ok bool
	switch i := instr.(type) {
	case *ssa.Alloc:
		a := x.alloc(fr, c.st, i, i.Comment, i.Type())
		return one(x.set(c, i, a))
	case *ssa.UnOp:
		v := x.val(fr, c, i.X)
		switch i.Op {
		case token.MUL:
			if c, ok = x.needNonNil(fr, c, i, "dereference of "+describe(i.X), v); !ok {
				return nil
			}
			r := x.load(c.st, v, i.Type())
			if v.op == OGlobal {
				c.st.add(&Event{kind: "globalread", name: v.s, args: []*Term{r}, pos: i.Pos(), fn: fnName(fr.fn)})
			}
			if x.logReads != nil && !x.fresh(v) && x.logReads[classOf(v, i.Type())] {
				c.st.add(&Event{kind: "read", args: []*Term{v}, pos: i.Pos(), fn: fnName(fr.fn)})
			}
			return one(x.set(c, i, r))
		case token.NOT:
			return one(x.set(c, i, mkNot(v)))
		case token.SUB:
			if isInteger(i.Type()) {
				return one(x.set(c, i, mkSub(kIntT(0, i.Type()), v, i.Type())))
			}
			return one(x.set(c, i, mk(Term{op: OUn, s: "-", args: []*Term{v}, typ: i.Type()})))
		case token.XOR:
			if isInteger(i.Type()) && !isUnsigned(i.Type()) { // ^v == -v-1
				return one(x.set(c, i, mkSub(kIntT(-1, i.Type()), v, i.Type())))
			}
			return one(x.set(c, i, mk(Term{op: OUn, s: "^", args: []*Term{v}, typ: i.Type()})))
		}
		x.undecided("operation %s in %s", i.Op, fnName(fr.fn))
		return one(x.set(c, i, x.freshSym(fr, c.st, i, "op", i.Type())))
	case *ssa.BinOp:
		a, b := x.val(fr, c, i.X), x.val(fr, c, i.Y)
		switch i.Op {
		case token.QUO, token.REM:
			if isInteger(i.Type()) {
				if c, ok = x.need(fr, c, i, "div", "division by "+describe(i.Y), mkNot(mkEq(b, kIntT(0, i.Y.Type())))); !ok {
					return nil
				}
			}
		case token.SHL, token.SHR:
			if !isUnsigned(i.Y.Type()) {
				if c, ok = x.needLE(fr, c, i, "shift", "shift count "+describe(i.Y), kInt(0), b, 0); !ok {
					return nil
				}
			}
		}
		return one(x.set(c, i, mkBin(i.Op, a, b, i.Type(), i.X.Type())))
	case *ssa.ChangeType:
		return one(x.set(c, i, x.val(fr, c, i.X)))
	case *ssa.ChangeInterface:
		return one(x.set(c, i, x.val(fr, c, i.X)))
	case *ssa.Convert:
		return one(x.set(c, i, x.convert(c.st, i.Type(), i.X.Type(), x.val(fr, c, i.X))))
	case *ssa.MultiConvert:
		return one(x.set(c, i, mkConv(i.Type(), x.val(fr, c, i.X))))
	case *ssa.MakeInterface:
		return one(x.set(c, i, mkIface(i.X.Type(), x.val(fr, c, i.X))))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range i.Bindings {
			bs = append(bs, x.val(fr, c, b))
		}
		return one(x.set(c, i, mkClosure(i.Fn.(*ssa.Function), bs)))
	case *ssa.MakeMap:
		if i.Reserve != nil && x.memoryBound != nil {
			x.memoryBound(x, fr, c.st, i, x.val(fr, c, i.Reserve))
		}
		a := x.alloc(fr, c.st, i, "map", i.Type())
		c.st.maps = c.st.maps.Set(a.id, &mapSt{empty: true})
		return one(x.set(c, i, a))
	case *ssa.MakeSlice:
		n, k := x.val(fr, c, i.Len), x.val(fr, c, i.Cap)
		if c, ok = x.needLE(fr, c, i, "make", "make length "+describe(i.Len), kInt(0), n, 0); !ok {
			return nil
		}
		if n != k {
			if c, ok = x.needLE(fr, c, i, "make", "make capacity "+describe(i.Cap), n, k, 0); !ok {
				return nil
			}
		}
		if x.memoryBound != nil {
			x.memoryBound(x, fr, c.st, i, k)
		}
		t := mk(Term{op: OMkSlice, s: x.freshKey(fr, c.st, i, "mks"), args: []*Term{n, k}, typ: i.Type(), owners: x.own()})
		return one(x.set(c, i, t))
	case *ssa.MakeChan:
		x.undecided("channel in %s", fnName(fr.fn))
		return one(x.set(c, i, x.freshSym(fr, c.st, i, "chan", i.Type())))
	case *ssa.Extract:
		return one(x.set(c, i, mkExtract(x.val(fr, c, i.Tuple), i.Index, i.Type())))
	case *ssa.Field:
		return one(x.set(c, i, mkFieldV(x.val(fr, c, i.X), i.Field, i.Type(), i.X.Type())))
	case *ssa.FieldAddr:
		p := x.val(fr, c, i.X)
		st := derefT(i.X.Type())
		if c, ok = x.needNonNil(fr, c, i, "field "+fieldName(st, i.Field)+" of "+describe(i.X), p); !ok {
			return nil
		}
		return one(x.set(c, i, mkField(p, st, i.Field)))
	case *ssa.Index:
		b, n := x.val(fr, c, i.X), x.val(fr, c, i.Index)
		if isString(i.X.Type()) {
			return x.strIndex(fr, c, i, i.X, b, n)
		}
		if at, isArr := i.X.Type().Underlying().(*types.Array); isArr {
			if c, ok = x.bounds(fr, c, i, describe(i.X), n, kInt(at.Len())); !ok {
				return nil
			}
		}
		return one(x.set(c, i, mkArrayElem(b, n, i.Type())))
	case *ssa.IndexAddr:
		b, n := x.val(fr, c, i.X), x.val(fr, c, i.Index)
		var ln *Term
		switch u := i.X.Type().Underlying().(type) {
		case *types.Slice:
			ln = mkLen(b)
		case *types.Pointer:
			ln = kInt(u.Elem().Underlying().(*types.Array).Len())
			if c, ok = x.needNonNil(fr, c, i, "index of "+describe(i.X), b); !ok {
				return nil
			}
		default:
			x.undecided("index of %s in %s", i.X.Type(), fnName(fr.fn))
			return nil
		}
		if c, ok = x.bounds(fr, c, i, describe(i.X), n, ln); !ok {
			return nil
		}
		return one(x.set(c, i, mkIndexAddr(b, n, derefT(i.Type()))))
	case *ssa.Slice:
		return x.slice(fr, c, i)
	case *ssa.Store:
		a, v := x.val(fr, c, i.Addr), x.val(fr, c, i.Val)
		if c, ok = x.needNonNil(fr, c, i, "store to "+describe(i.Addr), a); !ok {
			return nil
		}
		if a.op == OIndex && nonNilElem(i.Val.Type()) {
			if c, ok = x.needNonNil(fr, c, i, "element stored in []"+types.TypeString(i.Val.Type(), shortQual), v); !ok {
				return nil
			}
		}
		x.store(fr, c.st, a, v, i.Val.Type(), i)
		return one(c)
	case *ssa.TypeAssert:
		return x.typeAssert(fr, c, i)
	case *ssa.MapUpdate:
		m, k, v := x.val(fr, c, i.Map), x.val(fr, c, i.Key), x.val(fr, c, i.Value)
		if c, ok = x.needNonNil(fr, c, i, "assignment to map "+describe(i.Map), m); !ok {
			return nil
		}
		mt := i.Map.Type().Underlying().(*types.Map)
		if x.nonNilMapElem(mt) {
			if c, ok = x.needNonNil(fr, c, i, "value stored in "+types.TypeString(mt, shortQual), v); !ok {
				return nil
			}
		}
		x.mapWrite(fr, c.st, m, k, v, false, mt, i)
		return one(c)
	case *ssa.Range:
		v := x.val(fr, c, i.X)
		return one(x.set(c, i, mk(Term{op: OICall, s: "range#" + x.freshKey(fr, c.st, i, "range"), args: []*Term{v}, owners: x.own()})))
	case *ssa.Next:
		return x.next(fr, c, i)
	case *ssa.DebugRef:
		return one(c)
	}
	x.undecided("instruction %T in %s", instr, fnName(fr.fn))
	if v, isV := instr.(ssa.Value); isV {
		return one(x.set(c, v, x.freshSym(fr, c.st, instr, "unknown", v.Type())))
	}
	return one(c)
}

func (x *Exec) bounds(fr *Frame, c cur, i ssa.Instruction, what string, n, ln *Term) (cur, bool) {
	var ok bool
	if c, ok = x.needLE(fr, c, i, "index", "index of "+what+" not negative", kInt(0), n, 0); !ok {
		return c, false
	}
	return x.needLE(fr, c, i, "index", "index of "+what+" below its length", n, ln, -1)
}

func (x *Exec) strIndex(fr *Frame, c cur, i ssa.Instruction, xv ssa.Value, b, n *Term) []cur {
	var ok bool
	if c, ok = x.bounds(fr, c, i, describe(xv), n, mkLen(b)); !ok {
		return nil
	}
	v := i.(ssa.Value)
	if s, isC := b.strVal(); isC {
		if k, isK := n.intVal(); isK && k >= 0 && k < int64(len(s)) {
			return []cur{x.set(c, v, kIntT(int64(s[k]), v.Type()))}
		}
	}
	if b.op == OSub { // s[lo:hi][i] is s[lo+i]
		n = mkAdd(b.args[1], n, tInt)
		b = b.args[0]
	}
	return []cur{x.set(c, v, mk(Term{op: OStrIdx, args: []*Term{b, n}, typ: v.Type()}))}
}

func (x *Exec) convert(s *State, to, from types.Type, v *Term) *Term {
	if isString(to) && isBytes(from) {
		if v.op == OConv && len(v.args) == 1 && v.args[0].typ != nil && isString(v.args[0].typ) {
			return v.args[0]
		}
		if t, ok := s.cells.Get(contentAddr(v).id); ok {
			if v == rootOf(v) {
				return t
			}
			if v.op == OSlice && v.args[0] == rootOf(v) {
				return mkSubstr(t, v.args[1], v.args[2])
			}
			return mkCall("bytes2str", tStr, t, v)
		}
	}
	if isString(to) && isInteger(from) {
		return mkCall("rune2str", tStr, v)
	}
	return mkConv(to, v)
}

func (x *Exec) slice(fr *Frame, c cur, i *ssa.Slice) []cur {
	b := x.val(fr, c, i.X)
	var ok bool
	var ln, cp *Term
	arr := false
	str := isString(i.X.Type())
	switch u := i.X.Type().Underlying().(type) {
	case *types.Pointer:
		n := u.Elem().Underlying().(*types.Array).Len()
		ln, cp = kInt(n), kInt(n)
		arr = true
		if c, ok = x.needNonNil(fr, c, i, "slice of "+describe(i.X), b); !ok {
			return nil
		}
	case *types.Slice:
		ln, cp = mkLen(b), mkCap(b)
	default:
		ln = mkLen(b)
		cp = ln
	}
	lo, hi := kInt(0), ln
	if i.Low != nil {
		lo = x.val(fr, c, i.Low)
	}
	if i.High != nil {
		hi = x.val(fr, c, i.High)
	}
	var max *Term
	what := describe(i.X)
	if i.Max != nil {
		max = x.val(fr, c, i.Max)
		if c, ok = x.needLE(fr, c, i, "slice", "slice of "+what+": max within capacity", max, cp, 0); !ok {
			return nil
		}
		if c, ok = x.needLE(fr, c, i, "slice", "slice of "+what+": high below max", hi, max, 0); !ok {
			return nil
		}
	} else if i.High != nil {
		bound := cp
		if !str && !arr && x.proveLE(c.st, hi, ln, 0) {
			bound = ln
		}
		if c, ok = x.needLE(fr, c, i, "slice", "slice of "+what+": high within bounds", hi, bound, 0); !ok {
			return nil
		}
	}
	if i.Low != nil {
		if c, ok = x.needLE(fr, c, i, "slice", "slice of "+what+": low not negative", kInt(0), lo, 0); !ok {
			return nil
		}
	}
	if i.Low != nil || i.High != nil {
		if c, ok = x.needLE(fr, c, i, "slice", "slice of "+what+": low at most high", lo, hi, 0); !ok {
			return nil
		}
	}
	if str {
		return []cur{x.set(c, i, mkSubstr(b, lo, hi))}
	}
	if b.isNil() {
		return []cur{x.set(c, i, b)}
	}
	if !arr && max == nil && hi == ln && lo == kInt(0) {
		return []cur{x.set(c, i, b)} // s[:] is s
	}
	return []cur{x.set(c, i, mkSlice(b, lo, hi, max, i.Type()))}
}

func (x *Exec) typeAssert(fr *Frame, c cur, i *ssa.TypeAssert) []cur {
	v := x.val(fr, c, i.X)
	to := i.AssertedType
	get := func() *Term {
		if types.IsInterface(to) {
			return v
		}
		if v.op == OIface {
			return v.args[0]
		}
		return mk(Term{op: OAssert, args: []*Term{v}, typ: to})
	}
	var cond *Term
	if v.isNil() {
		cond = kBool(false)
	} else if v.op == OIface {
		if types.IsInterface(to) {
			cond = kBool(types.Implements(v.typ, to.Underlying().(*types.Interface)))
		} else {
			cond = kBool(types.Identical(v.typ, to))
		}
	} else if types.IsInterface(to) && types.Implements(i.X.Type(), to.Underlying().(*types.Interface)) {
		cond = mkNot(mkEq(v, kNil()))
	} else {
		cond = mk(Term{op: OTypeIs, args: []*Term{v}, typ: to})
	}
	if !i.CommaOk {
		var ok bool
		if c, ok = x.need(fr, c, i, "assert", "type assertion of "+describe(i.X)+" to "+types.TypeString(to, shortQual), cond); !ok {
			return nil
		}
		return []cur{x.set(c, i, get())}
	}
	t, f := c, c
	t.st, f.st = c.st.clone(), c.st.clone()
	var out []cur
	if x.assume(t.st, cond, true) {
		out = append(out, x.set(t, i, mkTuple(get(), kBool(true))))
	}
	if x.assume(f.st, cond, false) {
		z := zeroOf(to)
		out = append(out, x.set(f, i, mkTuple(z, kBool(false))))
	}
	return out
}

// ---- maps ----

// nonNilMapElem: maps of the repository whose values are never nil (checked at
// every store, assumed at every read).
func (x *Exec) nonNilMapElem(mt *types.Map) bool {
	_, isFn := mt.Elem().Underlying().(*types.Signature)
	return isFn || nonNilElem(mt.Elem())
}

// nonNilElem: element types whose maps and slices never hold nil (checked at
// every store and append, assumed at every read).
func nonNilElem(t types.Type) bool {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		switch types.TypeString(types.Unalias(p.Elem()), nil) {
		case modPath + "/translator.Entry", modPath + ".Translation":
			return true
		}
		return false
	}
	return types.TypeString(t, nil) == modPath+"/translator.Translator"
}

func mapClass(mt types.Type) string { return fmt.Sprintf("M%d", typeID(mt.Underlying())) }

func (x *Exec) mapState(s *State, m *Term, mt types.Type) *mapSt {
	if ms, ok := s.maps.Get(m.id); ok {
		return ms
	}
	if m.isNil() {
		return &mapSt{empty: true}
	}
	return &mapSt{ver: mkCall("ver", nil, m, s.epoch(mapClass(mt)))}
}

func (x *Exec) mapWrite(fr *Frame, s *State, m, k, v *Term, del bool, mt *types.Map, instr ssa.Instruction) {
	ms := x.mapState(s, m, mt)
	fresh := false
	if m.op == OAlloc {
		_, esc := s.escaped.Get(m.id)
		fresh = !esc
	}
	if !fresh {
		// other maps of the same type may be the same map
		e := mk(Term{op: OSym, s: "e" + x.freshKey(fr, s, instr, "epoch"), owners: x.own()})
		s.epochs = s.epochs.Set(classID(mapClass(mt)), e)
		var hit []int
		s.maps.Each(func(id int, o *mapSt) {
			t := terms[id-1]
			if t == m || t.typ == nil || !types.Identical(t.typ.Underlying(), mt) {
				return
			}
			if t.op == OAlloc {
				if _, esc := s.escaped.Get(t.id); !esc || m.op == OAlloc {
					return
				}
			}
			if b, known := x.truth(s, mkEq(t, m)); known && !b {
				return
			}
			hit = append(hit, id)
		})
		for _, id := range hit {
			s.maps = s.maps.Set(id, &mapSt{ver: mkCall("ver", nil, terms[id-1], e)})
		}
		x.escape(s, k)
		if v != nil {
			x.escape(s, v)
		}
	}
	n := &mapSt{empty: ms.empty, ver: ms.ver, writes: &mapW{prev: ms.writes, k: k, v: v, del: del}}
	s.maps = s.maps.Set(m.id, n)
	kind := "mapset"
	args := []*Term{m, k, v}
	if del {
		kind = "mapdel"
		args = []*Term{m, k}
	}
	s.add(&Event{kind: kind, args: args, pos: instrPos(instr, fr.fn), fn: fnName(fr.fn), st: s.clone()})
}

type mapRes struct {
	st *State
	ok bool
	v  *Term
}

// mapGet enumerates the possible results of m[k].
func (x *Exec) mapGet(s *State, m, k *Term, mt *types.Map) []mapRes {
	ms := x.mapState(s, m, mt)
	var out []mapRes
	st := s.clone()
	for w := ms.writes; w != nil; w = w.prev {
		eq := mkEq(k, w.k)
		b, known := x.truth(st, eq)
		if known && !b {
			continue
		}
		hit := mapRes{v: w.v, ok: !w.del}
		if w.del {
			hit.v = zeroOf(mt.Elem())
		}
		if known {
			hit.st = st
			return append(out, hit)
		}
		t := st.clone()
		if x.assume(t, eq, true) {
			hit.st = t
			out = append(out, hit)
		}
		if !x.assume(st, eq, false) {
			return out
		}
	}
	if ms.empty {
		return append(out, mapRes{st: st, ok: false, v: zeroOf(mt.Elem())})
	}
	okT := mk(Term{op: OMapOk, args: []*Term{ms.ver, k}, typ: tBool})
	t := st.clone()
	if x.assume(t, okT, true) {
		v := mk(Term{op: OMapVal, args: []*Term{ms.ver, k}, typ: mt.Elem()})
		if x.nonNilMapElem(mt) {
			x.assume(t, mkEq(v, kNil()), false)
		}
		x.assume(t, mkEq(m, kNil()), false)
		out = append(out, mapRes{st: t, ok: true, v: v})
	}
	if x.assume(st, okT, false) {
		out = append(out, mapRes{st: st, ok: false, v: zeroOf(mt.Elem())})
	}
	return out
}

func (x *Exec) lookup(fr *Frame, c cur, i *ssa.Lookup) []cur {
	m, k := x.val(fr, c, i.X), x.val(fr, c, i.Index)
	mt, ok := i.X.Type().Underlying().(*types.Map)
	if !ok {
		return x.strIndex(fr, c, i, i.X, m, k)
	}
	var out []cur
	for _, r := range x.mapGet(c.st, m, k, mt) {
		c2 := c
		c2.st = r.st
		if i.CommaOk {
			out = append(out, x.set(c2, i, mkTuple(r.v, kBool(r.ok))))
		} else {
			out = append(out, x.set(c2, i, r.v))
		}
	}
	return out
}

func (x *Exec) next(fr *Frame, c cur, i *ssa.Next) []cur {
	out := x.next0(fr, c, i)
	if n := len(x.watch); n > 0 && len(out) > 1 && x.watch[n-1].fr == fr && x.watch[n-1].header == i.Block() {
		x.watch[n-1].undecided = true
		return nil
	}
	return out
}

func (x *Exec) next0(fr *Frame, c cur, i *ssa.Next) []cur {
	it := x.val(fr, c, i.Iter)
	src := it.args[0]
	if i.IsString {
		ok := x.freshSym(fr, c.st, i, "more", tBool)
		idx := x.freshSym(fr, c.st, i, "idx", tInt)
		r := x.freshSym(fr, c.st, i, "rune", types.Typ[types.Int32])
		t, f := c, c
		t.st, f.st = c.st.clone(), c.st.clone()
		var out []cur
		if x.assume(t.st, ok, true) {
			x.assume(t.st, mkLt(idx, kInt(0), tInt), false)
			x.assume(t.st, mkLt(idx, mkLen(src), tInt), true)
			out = append(out, x.set(t, i, mkTuple(kBool(true), idx, r)))
		}
		if x.assume(f.st, ok, false) {
			out = append(out, x.set(f, i, mkTuple(kBool(false), kInt(0), kIntT(0, types.Typ[types.Int32]))))
		}
		return out
	}
	var mt *types.Map
	if src.typ != nil {
		mt, _ = src.typ.Underlying().(*types.Map)
	}
	if mt == nil {
		if r, isR := i.Iter.(*ssa.Range); isR {
			mt = r.X.Type().Underlying().(*types.Map)
		}
	}
	zero := mkTuple(kBool(false), zeroOf(mt.Key()), zeroOf(mt.Elem()))
	ms := x.mapState(c.st, src, mt)
	if ms.empty && ms.writes == nil {
		return []cur{x.set(c, i, zero)}
	}
	var out []cur
	okT := x.freshSym(fr, c.st, i, "more", tBool)
	f := c
	f.st = c.st.clone()
	if x.assume(f.st, okT, false) {
		f.st.add(&Event{kind: "mapdone", args: []*Term{src, ms.ver}, fn: fnName(fr.fn)})
		out = append(out, x.set(f, i, zero))
	}
	t := c
	t.st = c.st.clone()
	if x.assume(t.st, okT, true) {
		k := x.freshSym(fr, t.st, i, "key", mt.Key())
		for _, r := range x.mapGet(t.st, src, k, mt) {
			if !r.ok {
				continue
			}
			c2 := t
			c2.st = r.st
			c2.st.add(&Event{kind: "mapiter", args: []*Term{src, k, r.v}, fn: fnName(fr.fn)})
			out = append(out, x.set(c2, i, mkTuple(kBool(true), k, r.v)))
		}
	}
	return out
}

// describe names an SSA value for messages and obligation keys.
func describe(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.Parameter:
		return v.Name()
	case *ssa.FreeVar:
		return v.Name()
	case *ssa.Const:
		return v.String()
	case *ssa.Global:
		return v.Name()
	case *ssa.FieldAddr:
		return describe(v.X) + "." + fieldName(derefT(v.X.Type()), v.Field)
	case *ssa.Field:
		return describe(v.X) + "." + fieldName(v.X.Type(), v.Field)
	case *ssa.IndexAddr:
		return describe(v.X) + "[]"
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return describe(v.X)
		}
		return v.Op.String() + describe(v.X)
	case *ssa.Extract:
		return describe(v.Tuple)
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil {
			return f.Name() + "()"
		}
		return "call"
	case *ssa.Phi:
		if v.Comment != "" {
			return v.Comment
		}
		return "phi"
	case *ssa.Alloc:
		return v.Comment
	case *ssa.Lookup:
		return describe(v.X) + "[]"
	case *ssa.TypeAssert:
		return describe(v.X)
	case *ssa.Slice:
		return describe(v.X) + "[:]"
	case *ssa.MakeInterface:
		return describe(v.X)
	case *ssa.BinOp:
		return describe(v.X) + v.Op.String() + describe(v.Y)
	case *ssa.Convert:
		return describe(v.X)
	}
	return v.Type().String()
}
