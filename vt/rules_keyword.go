package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- P41: keyword declarations ----

func init() {
	register(&Rule{id: "P41", min: 12, run: ruleKeywords,
		rule: "Abstract interpretation of ParseKeywords, the round of the loop over the parts compared with a decision table of five forms (name; name:i; name:i,j; name:ic,j; name:ic,j,k). A round that goes on must append exactly one keyword whose fields are the name and the decimal numbers at the positions of one form, every condition of which is established; a round that ends with an error must contradict every form; the loop visits the parts from the first to the last. Texts are identified by what they are a part of (list, index, trimmed, suffix taken off), through in-place trimming loops as well."})
}

// kwText says what a text of the keyword declaration is.
type kwText struct {
	kind string // part, name, positions, pos
	k    int64
	chop bool // the c at the end is off
	trim bool
	all  bool // trimmed when it is the whole part
}

type kwQ struct {
	s    *Scen
	str  *Term
	fn   *ssa.Function
	cell map[*Term]*Term // symbols that stand for a memory cell behind a loop
	trim map[*LoopMark]bool
	list map[*Term]*Term // lists made by trimming every element of another
}

func (q *kwQ) what(st *State, t *Term) kwText {
	if w := q.whatIs(st, t); w.kind != "" {
		return w
	}
	return q.whatIs(st, st.norm(t))
}

func (q *kwQ) whatIs(st *State, t *Term) kwText {
	no := kwText{}
	if t.op == OConv && len(t.args) == 1 {
		t = t.args[0]
	}
	switch t.op {
	case OCall:
		switch t.s {
		case "strings.TrimSpace":
			w := q.what(st, t.args[0])
			w.trim = true
			return w
		case "strings.TrimSuffix":
			if c, ok := t.args[1].strVal(); ok && c == "c" {
				return q.chop(q.what(st, t.args[0]))
			}
		}
		return no
	case OExtract:
		if n := t.args[0]; n.op == OCall && n.s == "strings.CutSuffix" && t.i == 0 {
			if c, ok := n.args[1].strVal(); ok && c == "c" {
				return q.chop(q.what(st, n.args[0]))
			}
		}
		return no
	case OSub:
		x, lo, hi := t.args[0], st.norm(t.args[1]), st.norm(t.args[2])
		from, okL := lo.intVal()
		if okL && from == 0 && hi == mkAdd(mkLen(x), kInt(-1), tInt) {
			return q.chop(q.what(st, x))
		}
		// before and after the first colon
		idx := mkCall("strings.Index", tInt, x, kStr(":"))
		if w := q.what(st, x); w.kind == "part" {
			if okL && from == 0 && hi == idx {
				return kwText{kind: "name", all: w.trim}
			}
			if lo == mkAdd(idx, kInt(1), tInt) && hi == mkLen(x) {
				return kwText{kind: "positions"}
			}
		}
		return no
	case OSym:
		if a := q.cell[t]; a != nil {
			return q.element(st, a, t)
		}
		return no
	case OInit:
		if t.args[0].op == OIndex {
			return q.element(st, t.args[0], t)
		}
	}
	return no
}

func (q *kwQ) chop(w kwText) kwText {
	if w.kind == "pos" && w.trim && !w.chop {
		w.chop = true
		return w
	}
	return kwText{}
}

// element: t was read at a.
func (q *kwQ) element(st *State, a, t *Term) kwText {
	list, idx := st.norm(a.args[0]), st.norm(a.args[1])
	made := q.list[list]
	if made != nil {
		list = made
	}
	if list.op != OCall || list.s != "strings.Split" {
		return kwText{}
	}
	sep, _ := st.norm(list.args[1]).strVal()
	k, fixed := idx.intVal()
	switch {
	case sep == ";" && st.norm(list.args[0]) == q.str:
		return kwText{kind: "part"}
	case sep == ":" && fixed && q.what(st, list.args[0]).kind == "part":
		if k == 0 {
			return kwText{kind: "name", all: q.what(st, list.args[0]).trim}
		}
		if k == 1 {
			return kwText{kind: "positions"}
		}
	case sep == "," && fixed && q.what(st, list.args[0]).kind == "positions":
		return kwText{kind: "pos", k: k, trim: made != nil || q.trimmedList(st, list, a, t)}
	}
	return kwText{}
}

// trimmedList: a loop that trims every element of list in place is behind, and
// t is what the element is now.
func (q *kwQ) trimmedList(st *State, list, a, t *Term) bool {
	for tr := st.trace; tr != nil; tr = tr.prev {
		if e := tr.ev; e.kind == "loop" && q.trim[e.loop] {
			for _, p := range e.loop.parts {
				if v, ok := p.init.cells.Get(a.id); ok && v == t {
					return true
				}
			}
			return st.norm(q.s.x.load(st, a, tStr)) == t
		}
	}
	return false
}

// tri is what a path knows of a condition: 1 true, -1 false, 0 nothing.
func (q *kwQ) tri(st *State, t *Term) int {
	if v, k := q.s.x.truth(st, t); k {
		if v {
			return 1
		}
		return -1
	}
	return 0
}

type kwConds struct {
	nP   map[int64]int
	nL   map[int64]int
	name int
	s    int
	num  map[kwText]int
}

func (q *kwQ) conds(st *State) *kwConds {
	c := &kwConds{nP: map[int64]int{}, nL: map[int64]int{}, num: map[kwText]int{}}
	seen := map[*Term]bool{}
	look := func(t *Term, f *Term, v bool) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch {
		case t.op == OCall && t.s == "strings.Split" || q.list[t] != nil:
			list := t
			if q.list[t] != nil {
				list = q.list[t]
			}
			sep, _ := st.norm(list.args[1]).strVal()
			w := q.what(st, list.args[0])
			for n := int64(1); n <= 3; n++ {
				r := q.tri(st, mkEq(mkLen(t), kInt(n)))
				if r == 0 {
					continue
				}
				if sep == ":" && w.kind == "part" {
					c.nP[n] = r
				}
				if sep == "," && w.kind == "positions" {
					c.nL[n] = r
				}
			}
		case t.op == OCall && t.s == "strings.Index":
			if sep, _ := st.norm(t.args[1]).strVal(); sep != ":" {
				return
			}
			none := q.tri(st, mkLt(t, kInt(0), tInt))
			switch q.what(st, t.args[0]).kind {
			case "part": // no colon: one piece
				c.nP[1] = none
				if none > 0 {
					c.nP[2] = -1
				}
			case "positions": // another colon: more than two
				if c.nP[2] == 0 {
					c.nP[2] = none
				}
			}
		case t.op == OCall && t.s == "strings.HasSuffix" || t.op == OExtract && t.i == 1 && t.args[0].op == OCall && t.args[0].s == "strings.CutSuffix":
			call := t
			if t.op == OExtract {
				call = t.args[0]
			}
			if sfx, _ := st.norm(call.args[1]).strVal(); sfx != "c" {
				return
			}
			if w := q.what(st, call.args[0]); w.kind == "pos" && w.k == 0 && w.trim && !w.chop {
				c.s = q.tri(st, t)
			}
		case t.op == OCall && isParsed(t):
			if w := q.number(st, t); w.kind != "" {
				c.num[w] = q.tri(st, mkEq(mkExtract(t, 1, tErr), kNil()))
			}
		case t.op == OEq && t.args[1].op == OConst:
			if e, ok := t.args[1].strVal(); ok && e == "" {
				if w := q.what(st, t.args[0]); w.kind == "name" && (w.trim || w.all) || w.kind == "part" && w.trim {
					r := -q.tri(st, t)
					if (w.kind == "part" || !w.trim) && r > 0 && c.nP[1] <= 0 {
						return // only a part without a colon is its name
					}
					c.name = r
				}
			}
		}
	}
	for pass := 0; pass < 2; pass++ {
		seen = map[*Term]bool{}
		st.facts.Each(func(id int, v bool) {
			f := terms[id-1]
			f.mentions(func(u *Term) bool { look(u, f, v); return false })
		})
	}
	return c
}

// number: t reads a decimal number from one of the positions.
func (q *kwQ) number(st *State, t *Term) kwText {
	if b, ok := st.norm(t.args[1]).intVal(); !ok || b != 10 {
		return kwText{}
	}
	if b, ok := st.norm(t.args[2]).intVal(); !ok || b != 0 && b < 32 {
		return kwText{}
	}
	if w := q.what(st, t.args[0]); w.kind == "pos" && w.trim {
		return w
	}
	return kwText{}
}

type kwForm struct {
	name             string
	nP, nL           int64
	suffix           int
	ctxt, id, plural *kwText
}

func posText(k int64, chop bool) *kwText { return &kwText{kind: "pos", k: k, chop: chop, trim: true} }

var kwForms = []kwForm{
	{name: "name", nP: 1},
	{name: "name:id", nP: 2, nL: 1, id: posText(0, false)},
	{name: "name:id,plural", nP: 2, nL: 2, suffix: -1, id: posText(0, false), plural: posText(1, false)},
	{name: "name:context c,id", nP: 2, nL: 2, suffix: 1, ctxt: posText(0, true), id: posText(1, false)},
	{name: "name:context c,id,plural", nP: 2, nL: 3, suffix: 1, ctxt: posText(0, true), id: posText(1, false), plural: posText(2, false)},
}

// list gives what is known of each condition of the form.
func (f kwForm) list(c *kwConds) []cond3 {
	out := []cond3{{fmt.Sprintf("%d pieces at ':'", f.nP), c.nP[f.nP]}, {"a name", c.name}}
	if f.nL > 0 {
		out = append(out, cond3{fmt.Sprintf("%d positions", f.nL), c.nL[f.nL]})
	}
	if f.suffix != 0 {
		out = append(out, cond3{"whether the first position ends with c", f.suffix * c.s})
	}
	for _, w := range []*kwText{f.ctxt, f.id, f.plural} {
		if w != nil {
			out = append(out, cond3{fmt.Sprintf("position %d is a number", w.k+1), c.num[*w]})
		}
	}
	return out
}

type cond3 struct {
	what string
	v    int
}

func ruleKeywords(c *Check) {
	f := c.fn(toolPkg, "ParseKeywords")
	kt := c.w.typ(toolPkg, "Keyword")
	if f == nil || kt == nil || len(f.Params) != 1 {
		c.fail("anchor", "ParseKeywords", 0, "ParseKeywords or Keyword has changed its form")
		return
	}
	fn, fc, fi, fp := c.field(kt, "Name", ""), c.field(kt, "MsgCtxt", ""), c.field(kt, "MsgID", ""), c.field(kt, "MsgID2", "")
	if fn < 0 || fc < 0 || fi < 0 || fp < 0 {
		return
	}
	var opaque []string
	for _, g := range c.exported("") {
		opaque = append(opaque, canon(g))
	}
	s := c.run(f, scenOpt{opaque: opaque, setup: nonNilGlobal(c)})
	if s == nil {
		return
	}
	x := s.x
	q := &kwQ{s: s, str: s.args[0], fn: f, cell: map[*Term]*Term{}, trim: map[*LoopMark]bool{}, list: map[*Term]*Term{}}
	isList := func(sep string) func(*Term) bool {
		return func(t *Term) bool {
			if t.op != OCall || t.s != "strings.Split" {
				return false
			}
			p, _ := t.args[1].strVal()
			return p == sep
		}
	}
	parts := func(t *Term) bool { return isList(";")(t) && t.args[0] == q.str }
	// memory cells behind loops
	for _, m := range x.marks {
		for _, p := range m.parts {
			p.init.cells.Each(func(id int, v *Term) {
				if v.op == OSym && terms[id-1].op == OIndex {
					q.cell[v] = terms[id-1]
				}
			})
		}
	}
	// every write to an element of a list of texts trims a position in place
	trims := map[*LoopMark]bool{}
	type wr struct {
		st *State
		e  *Event
	}
	var later []wr
	s.eachPath(func(tr *Trace, st *State, back *LoopMark, out *callOut) {
		for _, e := range tr.events() {
			if e.kind != "store" || e.args[0].op != OIndex || e.args[1].typ == nil || !isString(e.args[1].typ) {
				continue
			}
			a := e.args[0]
			list := st.norm(a.args[0])
			if rootOf(a).op == OAlloc {
				continue
			}
			v := st.norm(e.args[1])
			good := isList(",")(list) && v.op == OCall && v.s == "strings.TrimSpace"
			if good {
				l, i := elemOf(st, st.norm(v.args[0]))
				good = l == list && i == st.norm(a.args[1])
			}
			if !good {
				later = append(later, wr{st, e})
				continue
			}
			c.ok("lists", "elements of lists written in "+e.fn, e.pos)
			if back != nil {
				trims[back] = true
			}
		}
	})
	for m := range trims {
		if s.sweeps(m, isList(",")) == "" {
			one := true
			for _, p := range m.parts {
				for _, b := range p.backs {
					n := 0
					for _, e := range b.trace.events() {
						if e.kind == "store" && e.args[0].op == OIndex && isList(",")(b.st.norm(e.args[0].args[0])) {
							n++
						}
					}
					one = one && n == 1
				}
			}
			q.trim[m] = one
		}
	}
	// or takes its c off
	for i := range later {
		w := &later[i]
		v := w.st.norm(w.e.args[1])
		to, from := q.element(w.st, w.e.args[0], v), q.what(w.st, v)
		c.put("lists", "elements of lists written in "+w.e.fn, from.kind == "pos" && to.kind == "pos" && to.k == from.k, w.e.pos, fmt.Sprintf("an element of a list of texts becomes %v", w.e.args[1]))
	}
	// lists of the trimmed elements of another list
	for _, m := range x.marks {
		for k, t := range m.typs {
			sl, ok := t.Underlying().(*types.Slice)
			if !ok || !isString(sl.Elem()) || k >= len(m.inits) {
				continue
			}
			if n, ok := mkLen(m.inits[k]).intVal(); !m.inits[k].isNil() && (!ok || n != 0) {
				continue
			}
			var base *Term
			good := s.sweeps(m, isList(",")) == ""
			for _, p := range m.parts {
				for _, b := range p.backs {
					next := b.st.norm(b.phis[k])
					if next.op != OAppend || next.args[0] != p.phis[k] || len(next.args) != 2 || next.args[1].op != OCall || next.args[1].s != "strings.TrimSpace" {
						good = false
						continue
					}
					l, i := elemOf(b.st, b.st.norm(next.args[1].args[0]))
					at := false
					for j, u := range m.typs {
						if isInteger(u) && j < len(m.inits) {
							if n, ok := m.inits[j].intVal(); ok && i == mkAdd(p.phis[j], kInt(-n), tInt) {
								at = true
							}
						}
					}
					good = good && at && l != nil && isList(",")(l)
					base = l
				}
			}
			if good && base != nil {
				for _, p := range m.parts {
					q.list[p.phis[k]] = base
				}
			}
		}
	}
	// the loop over the parts
	var main *LoopMark
	for _, m := range x.marks {
		for k, t := range m.typs {
			if sl, ok := t.Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), kt) && k < len(m.inits) {
				if main == nil || len(m.parts) > 0 {
					main = m
				}
			}
		}
	}
	if main == nil {
		c.fail("parts", "loop over the parts", f.Pos(), "no loop collects keywords")
		return
	}
	var done []*State
	for i := range s.outs {
		if o := &s.outs[i]; o.kind == oRet && o.res.op == OTuple && x.isNilKnown(o.st, o.res.args[1]) {
			done = append(done, o.st)
		}
	}
	why := "never succeeds"
	if len(done) > 0 {
		why = s.sweeps(main, parts, done...)
	}
	c.put("parts", "every part is looked at, in order", why == "", f.Pos(), why)
	rk := -1
	for k, t := range main.typs {
		if sl, ok := t.Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), kt) {
			rk = k
		}
	}
	init := main.inits[rk]
	if n, ok := mkLen(init).intVal(); !init.isNil() && (!ok || n != 0) {
		c.fail("parts", "the list starts empty", f.Pos(), "the list of keywords starts as %v", init)
	} else {
		c.ok("parts", "the list starts empty", f.Pos())
	}
	used := map[string]bool{}
	for _, p := range main.parts {
		for _, b := range p.backs {
			st := b.st
			next := st.norm(b.phis[rk])
			if next.op != OAppend || next.args[0] != p.phis[rk] || len(next.args) != 2 || next.args[1].op != OStruct {
				c.fail("form", "one keyword for every part", f.Pos(), "a round leaves the list of keywords as %v", next)
				continue
			}
			c.ok("form", "one keyword for every part", f.Pos())
			k := next.args[1]
			cs := q.conds(st)
			num := func(t *Term) (kwText, bool, int64) {
				t = st.norm(t)
				if n, ok := t.intVal(); ok {
					return kwText{}, true, n
				}
				t = unconv(t)
				if t.op == OExtract && t.i == 0 && isParsed(t.args[0]) {
					if w := q.number(st, t.args[0]); w.kind != "" {
						return w, true, 0
					}
				}
				return kwText{}, false, 0
			}
			same := func(t *Term, want *kwText, def int64) bool {
				w, ok, n := num(t)
				if !ok {
					return false
				}
				if want == nil {
					return w.kind == "" && n == def
				}
				return w == *want
			}
			var bad []string
			found := false
			for _, form := range kwForms {
				name := q.what(st, k.args[fn])
				okName := name.trim && name.kind == "name" || (name.trim || name.all) && form.nP == 1 && (name.kind == "name" || name.kind == "part")
				idDef := int64(0)
				if form.id == nil {
					idDef = 1
				}
				if !okName || !same(k.args[fc], form.ctxt, 0) || !same(k.args[fi], form.id, idDef) || !same(k.args[fp], form.plural, 0) {
					continue
				}
				missing := ""
				for _, cd := range form.list(cs) {
					if cd.v <= 0 {
						missing = cd.what
					}
				}
				if missing == "" {
					found = true
					used[form.name] = true
					c.ok("form", form.name, f.Pos())
					break
				}
				bad = append(bad, form.name+" without knowing: "+missing)
			}
			if !found {
				c.fail("form", "keyword of a part", f.Pos(), "the keyword %v is not that of any form %s\n%s", k, strings.Join(bad, "; "), st.factString())
			}
		}
	}
	for _, form := range kwForms {
		c.assert(used[form.name], "form", form.name+" is accepted", f.Pos(), "no round accepts this form")
	}
	errs := 0
	for i := range s.outs {
		o := &s.outs[i]
		if o.kind != oRet || o.res.op != OTuple {
			c.fail("result", "ParseKeywords", f.Pos(), "panics or exits")
			continue
		}
		if x.isNilKnown(o.st, o.res.args[1]) {
			good := false
			for _, p := range main.parts {
				good = good || o.st.norm(o.res.args[0]) == o.st.norm(p.phis[rk])
			}
			c.put("result", "all keywords are returned", good, f.Pos(), fmt.Sprintf("returns %v", o.res.args[0]))
			continue
		}
		if v, kn := x.truth(o.st, mkEq(o.res.args[1], kNil())); !kn || v {
			c.fail("result", "error or list", f.Pos(), "it is not known whether %v is an error", o.res.args[1])
			continue
		}
		errs++
		cs := q.conds(o.st)
		for _, form := range kwForms {
			no := false
			for _, cd := range form.list(cs) {
				no = no || cd.v < 0
			}
			c.put("reject", "no declaration is rejected: "+form.name, no, f.Pos(), fmt.Sprintf("a declaration of the form %s may be rejected\n%s", form.name, o.st.factString()))
		}
	}
	c.assert(errs > 0, "reject", "ill-formed declarations", f.Pos(), "no path reports an error")
}
