package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- P38: a binary catalogue is read as what its tables say ----

func init() {
	register(&Rule{id: "P38", min: 12, run: ruleMoRead,
		rule: "Abstract interpretation of the binary reader over all contents with the position of the reader as part of the state, so that every number and text read is known by the place it comes from. The count and the tables are the header words of the format in the byte order of the magic number; the i-th round of the loop over the entries takes the texts the i-th rows of the two tables point at, takes context, id, plural and forms apart at their separators, and stores exactly one entry under its key; the loop ends behind the last row, and the only contents rejected are cut, of an unknown kind or with impossible lengths."})
}

func posCell(r *Term) *Term { return mk(Term{op: OCall, s: "pos", args: []*Term{r}, typ: tInt}) }

// source is the content a reader reads.
func source(r *Term) *Term {
	for r.op == OIface {
		r = r.args[0]
	}
	if r.op == OICall && (callName(r) == "bytes.NewReader") && len(r.args) > 0 {
		return r.args[0]
	}
	return nil
}

// orderOf names a byte order.
func orderOf(t *Term) *Term {
	if t.op == OIface && t.typ != nil {
		switch types.TypeString(t.typ, nil) {
		case "encoding/binary.littleEndian":
			return kStr("little")
		case "encoding/binary.bigEndian":
			return kStr("big")
		}
	}
	return t
}

// moModels makes what is read a function of the place it is read from.
func moModels(x *Exec) {
	bare := func(r *Term) *Term {
		for r.op == OIface {
			r = r.args[0]
		}
		return r
	}
	at := func(x *Exec, st *State, r *Term) *Term {
		if p, ok := st.cells.Get(posCell(r).id); ok {
			return p
		}
		return kInt(0)
	}
	move := func(st *State, r, p *Term) { st.cells = st.cells.Set(posCell(r).id, p) }
	if x.models == nil {
		x.models = map[string]model{}
	}
	note := func(cs *callSite, pos, n, err *Term) {
		cs.st.add(&Event{kind: "moread", name: cs.name, args: []*Term{pos, n, err}, pos: instrPos(cs.instr, cs.fr.fn), fn: fnName(cs.fr.fn), st: cs.st.clone()})
	}
	lost := func(x *Exec, cs *callSite, st *State, r *Term) {
		move(st, r, x.freshSym(cs.fr, st, cs.instr, "pos", tInt))
	}
	x.models["bytes.NewReader"] = func(x *Exec, cs *callSite) []callOut {
		r := x.icall(cs.fr, cs.st, cs.instr, cs.name, cs.typ, cs.args)
		move(cs.st, r, kInt(0))
		return one(cs.st, r)
	}
	x.models["(*bytes.Reader).Seek"] = func(x *Exec, cs *callSite) []callOut {
		r, off := bare(cs.args[0]), unconv(cs.args[1])
		res := x.icall(cs.fr, cs.st, cs.instr, cs.name, cs.typ, cs.args)
		x.event(cs, "call", res)
		e := mkExtract(res, 1, tErr)
		note(cs, off, kInt(0), e)
		return x.bool2(cs, mkEq(e, kNil()), func(st *State) *Term {
			switch w, _ := cs.args[2].intVal(); {
			case cs.args[2] == kInt(0):
				move(st, r, off)
			case w == 1 && cs.args[2].isConst():
				move(st, r, mkAdd(at(x, st, r), off, tInt))
			default:
				lost(x, cs, st, r)
			}
			return mkTuple(mkExtract(res, 0, types.Typ[types.Int64]), kNil())
		}, func(st *State) *Term {
			return mkTuple(mkExtract(res, 0, types.Typ[types.Int64]), e)
		})
	}
	// fill stores what stands at pos into the object at addr.
	var fill func(cs *callSite, st *State, src, ord, addr, pos *Term, t types.Type) (*Term, bool)
	fill = func(cs *callSite, st *State, src, ord, addr, pos *Term, t types.Type) (*Term, bool) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				ok := false
				if pos, ok = fill(cs, st, src, ord, mkField(addr, t, i), pos, u.Field(i).Type()); !ok {
					return nil, false
				}
			}
			return pos, true
		case *types.Array:
			for i := int64(0); i < u.Len() && u.Len() <= maxArray; i++ {
				ok := false
				if pos, ok = fill(cs, st, src, ord, mkIndexAddr(addr, kInt(i), u.Elem()), pos, u.Elem()); !ok {
					return nil, false
				}
			}
			return pos, u.Len() <= maxArray
		case *types.Basic:
			n := binSize[u.Name()]
			if n == 0 {
				return nil, false
			}
			cs.fr = cs.fr
			x.store(cs.fr, st, addr, mkCall("rd", t, src, orderOf(ord), pos), t, cs.instr)
			return mkAdd(pos, kInt(n), tInt), true
		}
		return nil, false
	}
	chunk := func(cs *callSite, st *State, src, sl, pos *Term) *Term {
		x.havocElems(cs.fr, st, sl, types.Typ[types.Uint8], cs.instr, "read")
		n := unconv(mkLen(sl))
		st.cells = st.cells.Set(contentAddr(sl).id, mkCall("chunk", tStr, src, pos, n))
		return mkAdd(pos, n, tInt)
	}
	x.models["(*bytes.Reader).Size"] = func(x *Exec, cs *callSite) []callOut {
		if src := source(bare(cs.args[0])); src != nil {
			return one(cs.st, mkConv(cs.typ, mkLen(src)))
		}
		return one(cs.st, x.icall(cs.fr, cs.st, cs.instr, cs.name, cs.typ, cs.args))
	}
	// what is behind the first separator
	x.models["strings.SplitN"] = func(x *Exec, cs *callSite) []callOut {
		s, sep := cs.args[0], cs.args[1]
		if n, ok := cs.args[2].intVal(); !ok || n != 2 || !sep.isConst() || sep == kStr("") {
			return one(cs.st, pureCall(cs.name, cs.typ, cs.args))
		}
		idx := pureCall("strings.Index", tInt, []*Term{s, sep})
		list := func(ts ...*Term) *Term {
			return mk(Term{op: OAppend, args: append([]*Term{kNil()}, ts...), typ: cs.typ})
		}
		return x.bool2(cs, mkLt(idx, kInt(0), tInt), func(*State) *Term { return list(s) }, func(st *State) *Term {
			return list(mkSubstr(s, kInt(0), idx), mkSubstr(s, mkAdd(idx, mkLen(sep), tInt), mkLen(s)))
		})
	}
	x.models["encoding/binary.Read"] = func(x *Exec, cs *callSite) []callOut {
		r, ord, v := bare(cs.args[0]), cs.args[1], cs.args[2]
		res := x.icall(cs.fr, cs.st, cs.instr, cs.name, tErr, cs.args)
		x.event(cs, "call", res)
		src := source(r)
		if n := sizeOf(x, cs.st, v); n != nil {
			note(cs, at(x, cs.st, r), n, res)
		}
		return x.bool2(cs, mkEq(res, kNil()), func(st *State) *Term {
			pos := at(x, st, r)
			var to *Term
			ok := false
			if v.op == OIface && src != nil {
				val := v.args[0]
				switch u := v.typ.Underlying().(type) {
				case *types.Pointer:
					if sl, is := u.Elem().Underlying().(*types.Slice); is {
						if isByte(sl.Elem()) {
							b := x.load(st, val, u.Elem())
							if rootOf(b) == b {
								to, ok = chunk(cs, st, src, b, pos), true
							}
						}
					} else {
						to, ok = fill(cs, st, src, ord, val, pos, u.Elem())
					}
				case *types.Slice:
					if isByte(u.Elem()) && rootOf(val) == val {
						to, ok = chunk(cs, st, src, val, pos), true
					}
				}
			}
			if !ok {
				x.undecided("binary.Read of this kind in %s", fnName(cs.fr.fn))
				to = x.freshSym(cs.fr, st, cs.instr, "pos", tInt)
			}
			move(st, r, to)
			return kNil()
		}, func(st *State) *Term {
			lost(x, cs, st, r)
			return res
		})
	}
	x.models["io.ReadFull"] = func(x *Exec, cs *callSite) []callOut {
		r, sl := bare(cs.args[0]), cs.args[1]
		res := x.icall(cs.fr, cs.st, cs.instr, cs.name, cs.typ, cs.args)
		x.event(cs, "call", res)
		src := source(r)
		e := mkExtract(res, 1, tErr)
		note(cs, at(x, cs.st, r), mkLen(sl), e)
		return x.bool2(cs, mkEq(e, kNil()), func(st *State) *Term {
			if src == nil || rootOf(sl) != sl {
				x.undecided("io.ReadFull of this kind in %s", fnName(cs.fr.fn))
				lost(x, cs, st, r)
			} else {
				move(st, r, chunk(cs, st, src, sl, at(x, st, r)))
			}
			return mkTuple(mkLen(sl), kNil())
		}, func(st *State) *Term {
			lost(x, cs, st, r)
			return mkTuple(mkExtract(res, 0, tInt), e)
		})
	}
	x.models["(*bytes.Reader).ReadAt"] = func(x *Exec, cs *callSite) []callOut {
		r, sl, off := bare(cs.args[0]), cs.args[1], unconv(cs.args[2])
		res := x.icall(cs.fr, cs.st, cs.instr, cs.name, cs.typ, cs.args)
		x.event(cs, "call", res)
		src := source(r)
		e := mkExtract(res, 1, tErr)
		note(cs, off, mkLen(sl), e)
		return x.bool2(cs, mkEq(e, kNil()), func(st *State) *Term {
			if src == nil || rootOf(sl) != sl {
				x.undecided("ReadAt of this kind in %s", fnName(cs.fr.fn))
			} else {
				chunk(cs, st, src, sl, off)
			}
			return mkTuple(mkLen(sl), kNil())
		}, func(st *State) *Term {
			x.havocElems(cs.fr, st, sl, types.Typ[types.Uint8], cs.instr, "read")
			return mkTuple(mkExtract(res, 0, tInt), e)
		})
	}
}

type moReader struct {
	c    *Check
	s    *Scen
	ef   *entryF
	fn   *ssa.Function
	name string
	src  *Term
	file *Term
	ft   types.Type
	ei   int

	before *Trace // what was done before the loop looked at
}

func ruleMoRead(c *Check) {
	ef := c.entryT()
	ft := c.w.typ("translator", "File")
	if ef == nil || ft == nil {
		c.fail("anchor", "catalogue types", 0, "the types of catalogue and entry are gone")
		return
	}
	ei := c.field(ft, "entries", "map[string]*t/translator.Entry")
	fn := c.fn("translator", "ReadMo")
	if ei < 0 || fn == nil {
		return
	}
	s := c.run(fn, scenOpt{setup: moModels})
	r := &moReader{c: c, s: s, ef: ef, fn: fn, name: fnName(fn), src: s.args[0], ft: ft, ei: ei}
	r.run()
}

func (r *moReader) assert(ok bool, rule, what string, pos token.Pos, f string, a ...any) {
	r.c.assert(ok, rule, r.name+": "+what, pos, f, a...)
}

// sizeOf: how many bytes are read into what v points to.
func sizeOf(x *Exec, st *State, v *Term) *Term {
	if v.op != OIface {
		return nil
	}
	t, val := v.typ, v.args[0]
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		if _, ok := t.Underlying().(*types.Slice); ok {
			val = x.load(st, val, t)
		}
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		if isByte(sl.Elem()) {
			return mkLen(val)
		}
		return nil
	}
	if n := binBytes(t); n > 0 {
		return kInt(n)
	}
	return nil
}

func binBytes(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return binSize[u.Name()]
	case *types.Array:
		return u.Len() * binBytes(u.Elem())
	case *types.Struct:
		n := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			k := binBytes(u.Field(i).Type())
			if k == 0 {
				return 0
			}
			n += k
		}
		return n
	}
	return 0
}

// strip drops integer conversions everywhere.
func strip(t *Term) *Term {
	return subst(t, func(u *Term) *Term {
		if u.op == OConv && len(u.args) == 1 && isInteger(u.typ) && u.args[0].typ != nil && isInteger(u.args[0].typ) {
			return strip(u.args[0])
		}
		return nil
	})
}

// diff is a-b when that is a constant.
func diff(a, b *Term) (int64, bool) { return mkSub(strip(a), strip(b), tInt).intVal() }

func scale8(t *Term) *Term { return mkScale(strip(t), 8, tInt) }

// head is a header word.
func (r *moReader) head(ord *Term, pos int64) *Term {
	t := types.Type(types.Typ[types.Uint32])
	if pos == 4 || pos == 6 {
		t = types.Typ[types.Uint16]
	}
	return mkCall("rd", t, r.src, ord, kInt(pos))
}

// order: the byte order the magic number asks for; unknown: neither of the two.
func (r *moReader) order(st *State) (ord *Term, unknown bool) {
	for _, read := range []string{"little", "big"} {
		w := r.head(kStr(read), 0)
		other := map[string]string{"little": "big", "big": "little"}[read]
		no := 0
		for _, m := range []struct {
			v   int64
			ord string
		}{{0x950412de, read}, {0xde120495, other}} {
			if v, k := r.s.x.truth(st, mkEq(w, kIntT(m.v, w.typ))); k {
				if v {
					return kStr(m.ord), false
				}
				no++
			}
		}
		unknown = unknown || no == 2
	}
	return nil, unknown
}

// linear: what t is at the first round of m and by how much it grows each round.
func (r *moReader) linear(m *LoopMark, p *LoopPart, b *BackIter, t *Term) (init *Term, step int64, ok bool) {
	first, next := map[int]*Term{}, map[int]*Term{}
	for _, v := range r.s.varsOf(m) {
		if w := r.s.varAt(p, v); w != nil && w.ownedBy(m.inst) {
			first[w.id], next[w.id] = r.s.varInit(m, v), r.s.varNext(b, v)
		}
	}
	by := func(tab map[int]*Term) *Term {
		return strip(subst(t, func(u *Term) *Term { return tab[u.id] }))
	}
	init = by(first)
	if inLoop(init, m.inst) {
		return nil, 0, false
	}
	step, ok = diff(by(next), t)
	return init, step, ok
}

// loopsBefore lists the loops that were left on the way to st.
func (r *moReader) loopsBefore(st *State) []*LoopMark {
	var out []*LoopMark
	seen := map[*LoopMark]bool{}
	for _, t := range []*Trace{st.trace, r.before} {
		for _, e := range t.events() {
			if e.kind == "loop" && e.loop != nil && !seen[e.loop] {
				seen[e.loop] = true
				out = append(out, e.loop)
			}
		}
	}
	return out
}

// place: where in the content the number t stands, and its byte order.
func (r *moReader) place(st *State, t *Term) (pos, ord *Term) {
	t = unconv(st.norm(t))
	if t.op == OCall && t.s == "rd" && t.args[0] == r.src {
		return strip(t.args[2]), t.args[1]
	}
	if t.op != OInit {
		return nil, nil
	}
	a := t.args[0]
	field := -1
	if a.op == OField {
		field, a = a.i, a.args[0]
	}
	if a.op != OIndex {
		return nil, nil
	}
	list, idx := st.norm(a.args[0]), strip(st.norm(a.args[1]))
	for _, m := range r.loopsBefore(st) {
		for _, p := range m.parts {
			for _, v := range r.s.varsOf(m) {
				if v.typ == nil || r.s.varAt(p, v) != list {
					continue
				}
				if _, ok := v.typ.Underlying().(*types.Slice); !ok {
					continue
				}
				// a list that grows by one row a round
				i := r.s.varInit(m, v)
				if !r.s.x.proveLE(m.entry, mkLen(i), kInt(0), 0) {
					return nil, nil
				}
				for _, p := range m.parts {
					for _, b := range p.backs {
						its := r.s.x.items(b.st, r.s.varNext(b, v))
						if len(its) == 0 || len(its) > 2 || len(its) == 2 && (its[0].op != OSpread || its[0].args[0] != r.s.varAt(p, v)) {
							return nil, nil
						}
						el := its[len(its)-1]
						if field >= 0 {
							if el.op != OStruct || field >= len(el.args) {
								return nil, nil
							}
							el = el.args[field]
						}
						at, o := r.rowOf(m, p, b, el, list, idx)
						if at == nil || pos != nil && (at != pos || o != ord) {
							return nil, nil
						}
						pos, ord = at, o
					}
				}
				return pos, ord
			}
		}
	}
	if list.op != OMkSlice {
		return nil, nil
	}
	// a list whose i-th row is stored in the i-th round
	for _, m := range r.loopsBefore(st) {
		for _, p := range m.parts {
			for _, b := range p.backs {
				b.st.cells.Each(func(k int, w *Term) {
					a := terms[k-1]
					f := -1
					if a.op == OField {
						f, a = a.i, a.args[0]
					}
					if f != field || a.op != OIndex || b.st.norm(a.args[0]) != list || !inLoop(a.args[1], m.inst) {
						return
					}
					j, step, ok := r.linear(m, p, b, a.args[1])
					if !ok || step != 1 || !r.s.x.proveLE(m.entry, j, kInt(0), 0) || !r.s.x.proveLE(m.entry, kInt(0), j, 0) {
						return
					}
					// all of them
					if !r.s.x.proveLE(st, mkLen(list), a.args[1], 0) && !r.s.x.proveLE(st, strip(mkLen(list)), strip(a.args[1]), 0) {
						if n, o := r.count(st); n == nil || !r.s.x.proveLE(st, n, strip(a.args[1]), 0) && !r.s.x.proveLE(st, n, a.args[1], 0) {
							_ = o
							return
						}
					}
					pos, ord = r.rowOf(m, p, b, w, nil, idx)
				})
			}
		}
	}
	return pos, ord
}

// rowOf: el is read once a round, 8 bytes on each time; the place of that of round idx.
func (r *moReader) rowOf(m *LoopMark, p *LoopPart, b *BackIter, el, list, idx *Term) (pos, ord *Term) {
	el = unconv(b.st.norm(el))
	if el.op != OCall || el.s != "rd" || el.args[0] != r.src {
		return nil, nil
	}
	i, step, ok := r.linear(m, p, b, el.args[2])
	if !ok || step != 8 {
		return nil, nil
	}
	return mkAdd(i, scale8(idx), tInt), el.args[1]
}

// count is the number of entries.
func (r *moReader) count(st *State) (n, ord *Term) {
	ord, _ = r.order(st)
	if ord == nil {
		return nil, nil
	}
	return r.head(ord, 8), ord
}

// row: the number t stands in a row of a table ("id" or "str"), at byte 0 or 4.
func (r *moReader) row(st *State, t, ord *Term) (tab string, idx *Term, at int64, why string) {
	pos, o := r.place(st, t)
	if pos == nil {
		return "", nil, 0, fmt.Sprintf("where %v stands is not known", t)
	}
	if o != ord {
		return "", nil, 0, fmt.Sprintf("%v is read with byte order %v", t, o)
	}
	for _, k := range []struct {
		n string
		p int64
	}{{"id", 12}, {"str", 16}} {
		d := linOf(mkSub(pos, r.head(ord, k.p), tInt))
		bad := false
		for id, c := range d.v {
			bad = bad || c%8 != 0 || terms[id-1] == r.head(ord, 12) || terms[id-1] == r.head(ord, 16)
		}
		off := ((d.k % 8) + 8) % 8
		if bad || off != 0 && off != 4 {
			continue
		}
		e := lin{v: map[int]int64{}, k: (d.k - off) / 8}
		for id, c := range d.v {
			e.v[id] = c / 8
		}
		return k.n, e.term(tInt), off, ""
	}
	return "", nil, 0, fmt.Sprintf("%v is read at %v, which is in neither table", t, pos)
}

// text: t is the text a row points at.
func (r *moReader) text(st *State, t, ord *Term) (tab string, idx *Term, why string) {
	if t.op != OCall || t.s != "chunk" || t.args[0] != r.src {
		return "", nil, fmt.Sprintf("%v is not read from the content", t)
	}
	t1, i1, a1, why := r.row(st, t.args[1], ord)
	if why != "" {
		return "", nil, why
	}
	t2, i2, a2, why := r.row(st, t.args[2], ord)
	if why != "" {
		return "", nil, why
	}
	if t1 != t2 || i1 != i2 || a1 != 4 || a2 != 0 {
		return "", nil, fmt.Sprintf("%v: its offset is byte %d of row %v of the %s table, its length byte %d of row %v of the %s table", t, a1, i1, t1, a2, i2, t2)
	}
	return t1, i1, ""
}

// index: idx is the number of the round of m.
func (r *moReader) index(m *LoopMark, p *LoopPart, idx *Term) bool {
	ok := len(p.backs) > 0
	for _, b := range p.backs {
		i, step, is := r.linear(m, p, b, idx)
		n, c := int64(1), false
		if is {
			n, c = i.intVal()
		}
		ok = ok && is && step == 1 && c && n == 0
	}
	return ok
}

func (r *moReader) isEntries(t *Term) bool {
	mt := r.ft.Underlying().(*types.Struct).Field(r.ei).Type()
	return t.typ != nil && types.Identical(t.typ.Underlying(), mt.Underlying())
}

// atoms lists the texts in t.
func chunks(ts ...*Term) []*Term {
	var out []*Term
	seen := map[int]bool{}
	for _, t := range ts {
		t.mentions(func(u *Term) bool {
			if u.op == OCall && u.s == "chunk" && !seen[u.id] {
				seen[u.id] = true
				out = append(out, u)
			}
			return false
		})
	}
	return out
}

func (r *moReader) run() {
	c, s := r.c, r.s
	orders := map[string]bool{}
	for i := range s.outs {
		o := &s.outs[i]
		if o.kind != oRet || o.res == nil || o.res.op != OTuple || len(o.res.args) != 2 {
			continue
		}
		if !s.x.isNilKnown(o.st, o.res.args[1]) {
			r.rejected(o)
			continue
		}
		f := o.st.norm(o.res.args[0])
		if r.file == nil {
			r.file = f
		}
		r.assert(f == r.file && s.x.nonNil(o.st, f), "result", "one catalogue is returned", r.fn.Pos(), "%v and %v are returned", f, r.file)
	}
	if r.file == nil {
		c.fail("result", r.name+": one catalogue is returned", r.fn.Pos(), "no outcome is a catalogue")
		return
	}
	// the loop over the entries
	loops := map[*LoopMark]bool{}
	for _, m := range s.x.marks {
		for _, p := range m.parts {
			for _, b := range p.backs {
				for _, e := range b.trace.events() {
					if (e.kind == "mapset" || e.kind == "mapdel") && r.isEntries(e.args[0]) {
						loops[m] = true
					}
				}
			}
		}
	}
	if len(loops) == 0 {
		c.fail("anchor", r.name+": loop over the entries", r.fn.Pos(), "no loop stores entries")
		return
	}
	for _, m := range s.x.marks {
		if loops[m] {
			r.entries(m)
		}
	}
	for i := range s.outs {
		o := &s.outs[i]
		if o.kind != oRet || o.res == nil || o.res.op != OTuple || len(o.res.args) != 2 || !s.x.isNilKnown(o.st, o.res.args[1]) {
			continue
		}
		ord, _ := r.order(o.st)
		if ord == nil {
			c.fail("kind", r.name+": the byte order is that of the magic number", r.fn.Pos(), "a catalogue is returned though the magic number is not known\n%s", o.st.factString())
			continue
		}
		orders[ord.String()] = true
		for _, w := range []struct {
			n string
			p int64
		}{{"major", 4}, {"minor", 6}} {
			h := r.head(ord, w.p)
			r.assert(s.x.proveLE(o.st, h, kIntT(1, h.typ), 0) || r.zeroOrOne(o.st, h), "kind", "the "+w.n+" revision is 0 or 1", r.fn.Pos(), "a catalogue is returned whatever its revision\n%s", o.st.factString())
		}
		// it was read to its end
		evs := o.st.trace.events()
		at := -1
		var m *LoopMark
		var part *LoopPart
		for i, e := range evs {
			if e.kind == "loop" && e.loop != nil && loops[e.loop] {
				r.assert(m == nil, "end", "the entries are read once", r.fn.Pos(), "the entries are read in more than one loop")
				at, m, part = i, e.loop, e.part
			}
		}
		if m == nil {
			n, _ := r.count(o.st)
			r.assert(s.x.proveLE(o.st, n, kIntT(0, n.typ), 0), "end", "reading ends behind the last row", r.fn.Pos(), "a catalogue is returned without its entries\n%s", o.st.factString())
			continue
		}
		for _, e := range evs[at+1:] {
			if (e.kind == "mapset" || e.kind == "mapdel") && r.isEntries(e.args[0]) {
				c.fail("end", r.name+": entries stay as read", e.pos, "the entries are changed behind the last row")
			}
		}
		for _, e := range evs[:at] {
			if e.kind == "mapset" && r.isEntries(e.args[0]) {
				c.fail("end", r.name+": entries stay as read", e.pos, "an entry is stored that is not a row of the tables")
			}
		}
		now := o.st.norm(s.at(o.st, r.file, r.ft, r.ei))
		was := o.st.norm(s.at(part.init, r.file, r.ft, r.ei))
		r.assert(now == was, "end", "entries stay as read", r.fn.Pos(), "the catalogue holds %v, the entries read are %v", now, was)
		idx := r.number(m, part)
		n, _ := r.count(o.st)
		r.assert(idx != nil && (s.x.proveLE(o.st, n, idx, 0) || s.x.proveLE(o.st, strip(n), strip(idx), 0)), "end", "reading ends behind the last row", r.fn.Pos(), "reading ends behind %v entries, there are %v\n%s", idx, n, o.st.factString())
	}
	for _, k := range []string{"little", "big"} {
		r.assert(orders[kStr(k).String()], "kind", k+"-endian catalogues are read", r.fn.Pos(), "no catalogue of this byte order is accepted")
	}
}

func (r *moReader) zeroOrOne(st *State, h *Term) bool {
	for _, n := range []int64{0, 1} {
		if v, k := r.s.x.truth(st, mkEq(h, kIntT(n, h.typ))); k && v {
			return true
		}
	}
	return false
}

// number: a term for the number of rounds of m done so far.
func (r *moReader) number(m *LoopMark, p *LoopPart) *Term {
	for _, v := range r.s.varsOf(m) {
		w := r.s.varAt(p, v)
		if v.typ == nil || w == nil || !w.ownedBy(m.inst) {
			continue
		}
		_, list := v.typ.Underlying().(*types.Slice)
		if !list && !isInteger(v.typ) {
			continue
		}
		ok := true
		n := int64(0)
		for _, p := range m.parts {
			for _, b := range p.backs {
				if list {
					its := r.s.x.items(b.st, r.s.varNext(b, v))
					ok = ok && len(its) == 2 && its[0].op == OSpread && its[0].args[0] == r.s.varAt(p, v) && r.s.x.proveLE(m.entry, mkLen(r.s.varInit(m, v)), kInt(0), 0)
					continue
				}
				i, step, is := r.linear(m, p, b, r.s.varAt(p, v))
				k, c := int64(0), false
				if is {
					k, c = i.intVal()
				}
				ok = ok && is && step == 1 && c
				n = k
			}
		}
		if ok && list {
			return mkLen(w)
		}
		if ok {
			return mkAdd(w, kInt(-n), v.typ)
		}
	}
	return nil
}

// entries decides the loop over the rows.
func (r *moReader) entries(m *LoopMark) {
	c, s, ef := r.c, r.s, r.ef
	pos := m.loop.header.Instrs[0].Pos()
	ord, _ := r.order(m.entry)
	if ord == nil {
		c.fail("kind", r.name+": the byte order is that of the magic number", pos, "entries are read though the magic number is not known")
		return
	}
	r.before = m.entry.trace
	defer func() { r.before = nil }()
	init := m.entry.norm(s.at(m.entry, r.file, r.ft, r.ei))
	ms := s.x.mapState(m.entry, init, r.ft.Underlying().(*types.Struct).Field(r.ei).Type().Underlying().(*types.Map))
	r.assert(s.x.isNilKnown(m.entry, init) || ms.empty && ms.writes == nil, "entry", "the catalogue is empty at first", pos, "it holds %v", init)
	for _, p := range m.parts {
		for _, b := range p.backs {
			r.round(m, p, b, ord, ef, pos)
		}
	}
}

func (r *moReader) round(m *LoopMark, p *LoopPart, b *BackIter, ord *Term, ef *entryF, pos token.Pos) {
	s, st := r.s, b.st
	var set *Event
	n := 0
	nested := false
	for _, e := range b.trace.events() {
		if (e.kind == "mapset" || e.kind == "mapdel") && r.isEntries(e.args[0]) {
			n++
			set = e
			nested = nested || e.kind == "mapdel"
		}
	}
	r.assert(n == 1 && !nested, "entry", "a row is one entry", pos, "a round stores %d entries\n%s", n, st.factString())
	if n != 1 || nested {
		return
	}
	old, now := st.norm(s.at(p.init, r.file, r.ft, r.ei)), st.norm(s.at(st, r.file, r.ft, r.ei))
	r.assert(st.norm(set.args[0]) == now && (old == now || s.x.isNilKnown(st, old)), "entry", "the entries read before stay", pos, "the catalogue held %v, the entry goes to %v and the catalogue holds %v", old, st.norm(set.args[0]), now)
	v := st.norm(set.args[2])
	if !baseOf(v).ownedBy(m.inst) {
		r.assert(false, "entry", "a row is one entry", pos, "the same entry %v is stored for all rows", v)
		return
	}
	field := func(i int) *Term { return st.norm(s.at(st, v, ef.t, i)) }
	ctxt, id, id2, str, stN, pl := field(ef.ctxt), field(ef.id), field(ef.id2), field(ef.str), field(ef.stN), field(ef.pl)
	// the two texts
	var T, S *Term
	all := []*Term{ctxt, id, id2, str, stN}
	st.cells.Each(func(k int, w *Term) {
		if w.op == OCall && w.s == "chunk" && w.ownedBy(m.inst) {
			all = append(all, w)
		}
	})
	for _, t := range chunks(all...) {
		tab, idx, why := r.text(st, t, ord)
		if why != "" {
			r.assert(false, "text", "a text is where its row says", pos, "%s", why)
			return
		}
		if !r.index(m, p, idx) {
			r.assert(false, "text", "the i-th entry is made of the i-th rows", pos, "the %s is taken from row %v", tab, idx)
			return
		}
		r.assert(true, "text", "a text is where its row says", pos, "")
		r.assert(true, "text", "the i-th entry is made of the i-th rows", pos, "")
		u := &T
		if tab == "str" {
			u = &S
		}
		if *u != nil && *u != t {
			r.assert(false, "text", "a text is where its row says", pos, "%v and %v", *u, t)
			return
		}
		*u = t
	}
	if T == nil || S == nil {
		r.assert(false, "entry", "an entry has id and translation", pos, "id: %v, context: %v, translation: %v %v", id, ctxt, str, stN)
		return
	}
	r.assert(true, "entry", "an entry has id and translation", pos, "")
	has := func(t *Term, sep string) (i *Term, yes, known bool) {
		i = pureCall("strings.Index", tInt, []*Term{t, kStr(sep)})
		no, k := s.x.truth(st, mkLt(i, kInt(0), tInt))
		return i, !no, k
	}
	wantCtxt, rest := kStr(""), T
	i, yes, known := has(T, "\x04")
	if !known {
		r.assert(false, "entry", "context and id are taken apart", pos, "the id may have a context that stays in it\n%s", st.factString())
		return
	}
	if yes {
		wantCtxt, rest = mkSubstr(T, kInt(0), i), mkSubstr(T, mkAdd(i, kInt(1), tInt), mkLen(T))
	}
	r.assert(ctxt == st.norm(wantCtxt), "entry", "context and id are taken apart", pos, "the context is %v, it should be %v", ctxt, wantCtxt)
	wantID, wantPl := rest, kStr("")
	i, yes, known = has(rest, "\x00")
	if !known {
		r.assert(false, "entry", "id and plural are taken apart", pos, "the id may have a plural that stays in it\n%s", st.factString())
		return
	}
	if yes {
		wantID, wantPl = mkSubstr(rest, kInt(0), i), mkSubstr(rest, mkAdd(i, kInt(1), tInt), mkLen(rest))
	}
	r.assert(id == st.norm(wantID) && id2 == st.norm(wantPl), "entry", "id and plural are taken apart", pos, "id and plural are %v and %v, they should be %v and %v", id, id2, wantID, wantPl)
	r.assert(s.same(st, pl, kBool(yes)), "entry", "entries with a plural are marked", pos, "the mark is %v", pl)
	if yes {
		ok := splitOf(stN, st.norm(S), "\x00") && str == kStr("")
		r.assert(ok, "entry", "the forms are taken apart", pos, "the translation is %v, the forms are %v", str, stN)
	} else {
		r.assert(str == st.norm(S) && s.x.proveLE(st, mkLen(stN), kInt(0), 0), "entry", "a single translation is kept whole", pos, "the translation is %v, the forms are %v", str, stN)
	}
	key := r.c.method(types.NewPointer(ef.t), "Key")
	if key == nil {
		return
	}
	for _, res := range s.eval(st, key, v) {
		r.assert(res.st.norm(res.t) == res.st.norm(set.args[1]), "entry", "an entry is found under its key", pos, "the entry is kept under %v, its key is %v", res.st.norm(set.args[1]), res.st.norm(res.t))
	}
}

// rejected: the content is cut, of an unknown kind or has impossible lengths.
func (r *moReader) rejected(o *callOut) {
	s, st := r.s, o.st
	what := "only impossible contents are rejected"
	ord, unknown := r.order(st)
	if unknown {
		r.assert(true, "rejects", what, r.fn.Pos(), "")
		return
	}
	if ord != nil {
		for _, p := range []int64{4, 6} {
			h := r.head(ord, p)
			no := 0
			for _, n := range []int64{0, 1} {
				if v, k := s.x.truth(st, mkEq(h, kIntT(n, h.typ))); k && !v {
					no++
				}
			}
			if no == 2 || s.x.proveLE(st, kIntT(2, h.typ), h, 0) {
				r.assert(true, "rejects", what, r.fn.Pos(), "")
				return
			}
		}
	}
	why := "no read failed and no number of the content is impossible"
	var parts []*LoopPart
	var marks []*LoopMark
	for _, e := range st.trace.events() {
		if e.kind == "loop" && e.loop != nil {
			marks, parts = append(marks, e.loop), append(parts, e.part)
		}
		if e.kind != "moread" {
			continue
		}
		err := e.args[2]
		if v, k := s.x.truth(st, mkEq(err, kNil())); k && !v {
			if e.args[1] == nil || e.args[1] == kInt(0) || r.needed(st, ord, strip(st.norm(e.args[0])), strip(st.norm(e.args[1])), marks, parts) {
				r.assert(true, "rejects", what, r.fn.Pos(), "")
				return
			}
			why = fmt.Sprintf("the %v bytes at %v need not be there", e.args[1], e.args[0])
		}
	}
	ok := false
	size := strip(mkLen(r.src))
	st.facts.Each(func(id int, v bool) {
		t := terms[id-1]
		if t.op != OLt || ok {
			return
		}
		a, b := strip(st.norm(t.args[0])), strip(st.norm(t.args[1]))
		d := mkSub(b, a, tInt) // at least 1
		min := int64(1)
		if !v {
			d, min = mkSub(a, b, tInt), 0
		}
		l := linOf(d)
		if l.v[size.id] != -1 {
			return
		}
		// the content ends before end
		end := mkAdd(mkAdd(d, size, tInt), kInt(1-min), tInt)
		if n, c := end.intVal(); c {
			ok = n <= 28
			return
		}
		ok = ord != nil && r.end(st, ord, end)
	})
	r.assert(ok, "rejects", what, r.fn.Pos(), "%v is returned though %s\n%s", o.res.args[1], why, st.factString())
}

// needed: the n bytes at p belong to the catalogue.
func (r *moReader) needed(st *State, ord, p, n *Term, ms []*LoopMark, ps []*LoopPart) bool {
	end := mkAdd(p, n, tInt)
	if k, ok := end.intVal(); ok {
		return k <= 28
	}
	if ord == nil {
		return false
	}
	if r.end(st, ord, end) {
		return true
	}
	// a row of a table, read in a loop over them
	for k, m := range ms {
		if !inLoop(p, m.inst) {
			continue
		}
		for _, b := range ps[k].backs {
			i, step, ok := r.linear(m, ps[k], b, p)
			if !ok || step != 8 {
				return false
			}
			num := r.number(m, ps[k])
			cnt, _ := r.count(st)
			if num == nil || !r.s.x.proveLE(st, mkAdd(num, kInt(1), num.typ), cnt, 0) && !r.s.x.proveLE(st, mkAdd(strip(num), kInt(1), tInt), strip(cnt), 0) {
				return false
			}
			for _, h := range []int64{12, 16} {
				if d, ok := diff(mkAdd(i, n, tInt), r.head(ord, h)); ok && d >= 0 && d <= 8 {
					return true
				}
			}
			return false
		}
	}
	return false
}

// end: what a header or row says must lie before end.
func (r *moReader) end(st *State, ord, end *Term) bool {
	l := linOf(end)
	if l.k > 0 {
		return false
	}
	var ts []*Term
	for id, c := range l.v {
		t := terms[id-1]
		if c == 0 {
			continue
		}
		if c == 8 && t == r.head(ord, 8) { // the table itself
			continue
		}
		if c != 1 {
			return false
		}
		ts = append(ts, t)
	}
	is := func(t *Term) bool { return t == r.head(ord, 12) || t == r.head(ord, 16) || t == r.head(ord, 8) }
	switch len(ts) {
	case 0:
		return true
	case 1:
		if is(ts[0]) {
			return true
		}
		_, _, _, why := r.row(st, ts[0], ord)
		return why == ""
	case 2:
		t1, i1, a1, w1 := r.row(st, ts[0], ord)
		t2, i2, a2, w2 := r.row(st, ts[1], ord)
		return w1 == "" && w2 == "" && t1 == t2 && i1 == i2 && a1 != a2
	}
	return false
}
