package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{id: "P03", min: 10, run: ruleTermination,
		rule:   "Every loop and every recursive call reachable from the catalogue readers, the lookups and the writers is an obligation: the loop-invariant and difference-bound domains must exhibit one measure (a loop variable, memory cell or length) that on every back edge strictly moves towards a bound the loop does not change, or the loop ranges over a finite collection; a recursive call must shrink one of its arguments.",
		assume: []string{"calls to the standard library return", "a map is not extended while it is ranged over"}})
}

func ruleTermination(c *Check) {
	var xs []*Exec
	done := map[*ssa.Function]bool{}
	add := func(s *Scen) {
		if s != nil {
			xs = append(xs, s.x)
		}
	}
	for _, fn := range c.readers() {
		add(c.run(fn, scenOpt{}))
	}
	for _, m := range []string{"SaveAsPo", "SaveAsPot", "SaveAsMo", "SortedEntry"} {
		add(c.run(c.fn("translator", "*File."+m), scenOpt{opaque: saveOpaque(c, m), pure: c.splitters()}))
	}
	for _, n := range c.splitterFns() {
		if !done[n] {
			done[n] = true
			add(c.run(n, scenOpt{}))
		}
	}
	for _, m := range []string{"X", "XN64"} {
		add(c.run(c.fn("translator", "*File."+m), scenOpt{pure: []string{pathEval}}))
	}
	for _, m := range []string{"Locales", "HasDomain", "Domains", "D", "MostMatchLocale"} {
		add(c.run(c.fn("", "*Translations."+m), scenOpt{}))
	}
	for i := 0; i < len(xs); i++ {
		x := xs[i]
		for _, m := range x.marks {
			c.loopEnds(x, m)
		}
		for _, r := range x.recs {
			if !done[r.fn] {
				// analysed on its own, for all arguments
				done[r.fn] = true
				add(c.run(r.fn, scenOpt{}))
			}
		}
	}
	// recursion: one argument shrinks at every call
	for _, x := range xs {
		by := map[*ssa.Function][]recCall{}
		var fns []*ssa.Function
		for _, r := range x.recs {
			if by[r.fn] == nil {
				fns = append(fns, r.fn)
			}
			by[r.fn] = append(by[r.fn], r)
		}
		sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
		for _, fn := range fns {
			c.recursionEnds(x, fn, by[fn])
		}
	}
}

// saveOpaque: the writers format one entry at a time; the pieces they call are
// analysed on their own.
func saveOpaque(c *Check, m string) []string {
	if m == "SortedEntry" {
		return nil
	}
	return []string{"(*" + modPath + "/translator.File).SortedEntry"}
}

// splitterFns: the functions of package translator that cut a text into lines
// (string, numbers → []string) for the writers.
func (c *Check) splitterFns() []*ssa.Function {
	var out []*ssa.Function
	p := c.w.ssaPkgs[modPath+"/translator"]
	if p == nil {
		return nil
	}
	var names []string
	for n := range p.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f, ok := p.Members[n].(*ssa.Function)
		if !ok || len(f.Blocks) == 0 {
			continue
		}
		sg := f.Signature
		if sg.Results().Len() != 1 || types.TypeString(sg.Results().At(0).Type(), nil) != "[]string" || sg.Params().Len() < 1 || !isString(sg.Params().At(0).Type()) {
			continue
		}
		ok = true
		for i := 1; i < sg.Params().Len(); i++ {
			t := sg.Params().At(i).Type()
			b, _ := t.Underlying().(*types.Basic)
			ok = ok && b != nil && b.Info()&(types.IsInteger|types.IsBoolean) != 0
		}
		if ok {
			out = append(out, f)
		}
	}
	return out
}

func (c *Check) splitters() []string {
	var out []string
	for _, f := range c.splitterFns() {
		out = append(out, canon(f))
	}
	return out
}

type measure struct {
	name string
	at   func(st *State, phis []*Term) *Term
}

// loopEnds: one measure decreases or increases towards a bound on all back edges.
func (c *Check) loopEnds(x *Exec, m *LoopMark) {
	name := m.name
	if m.loop != nil {
		name = fnName(m.loop.header.Parent())
	}
	what := fmt.Sprintf("loop in %s", name)
	if m.loop != nil && rangesOver(m.loop) {
		c.ok("loop-ends", what+" over a finite collection", m.loop.header.Instrs[0].Pos())
		return
	}
	if m.loop == nil {
		c.ok("loop-ends", "callbacks of "+m.name, 0)
		return
	}
	pos := instrPos(m.loop.header.Instrs[0], m.loop.header.Parent())
	backs := 0
	for _, p := range m.parts {
		backs += len(p.backs)
	}
	if backs == 0 {
		c.ok("loop-ends", what, pos)
		return
	}
	var cands []measure
	num := func(t types.Type) bool {
		if t == nil {
			return false
		}
		switch t.Underlying().(type) {
		case *types.Slice:
			return true
		}
		return isInteger(t) || isString(t)
	}
	val := func(t *Term) *Term {
		if t == nil || t.typ == nil {
			return nil
		}
		if isInteger(t.typ) {
			return t
		}
		return mkLen(t)
	}
	for k, t := range m.typs {
		if num(t) {
			k := k
			n := m.names[k]
			cands = append(cands, measure{n, func(st *State, phis []*Term) *Term {
				v := phis[k]
				if isInteger(m.typs[k]) {
					return v
				}
				return mkLen(v)
			}})
		}
	}
	seen := map[int]bool{}
	for _, p := range m.parts {
		p.init.cells.Each(func(id int, v *Term) {
			a := terms[id-1]
			if seen[id] || v == nil || !num(cellType(a, v)) {
				return
			}
			seen[id] = true
			ct := cellType(a, v)
			cands = append(cands, measure{a.String(), func(st *State, phis []*Term) *Term {
				v, ok := st.cells.Get(id)
				if !ok {
					return nil
				}
				if isInteger(ct) {
					return v
				}
				return val(v)
			}})
		})
	}
	for _, cd := range cands {
		for _, up := range []bool{true, false} {
			ok := true
			for _, p := range m.parts {
				v0 := cd.at(p.init, p.phis)
				for _, b := range p.backs {
					if v0 == nil || !ok {
						ok = false
						break
					}
					v1 := cd.at(b.st, b.phis)
					if v1 == nil || !x.moves(b.st, v0, v1, up, m.inst) {
						ok = false
						break
					}
				}
				if !ok {
					break
				}
			}
			if ok {
				c.ok("loop-ends", what, pos)
				return
			}
		}
	}
	// or some pair of partitions alternates with a measure growing overall: not needed here
	c.fail("loop-ends", what, pos, "no variable moves strictly towards a fixed bound on every way round this loop: it may run forever on some input")
}

// moves: v1 is strictly beyond v0 and v0 is bounded in that direction by
// something the loop does not change.
func (x *Exec) moves(st *State, v0, v1 *Term, up bool, inst int) bool {
	a, b := v0, v1
	if !up {
		a, b = v1, v0
	}
	if !x.proveLE(st, a, b, -1) {
		return false
	}
	fixed := func(t *Term) bool {
		for _, o := range t.owners {
			if o == inst {
				return false
			}
		}
		return true
	}
	for _, v := range []*Term{v0, v1} {
		l := x.zl(st, v)
		id, _, ok := single(l)
		if !ok {
			if len(l.v) == 0 {
				return true
			}
			continue
		}
		var d map[int]int64
		if up {
			d = x.distTo(st, id, []int{id})
		} else {
			d = x.distFrom(st, id, []int{id})
		}
		for q := range d {
			if q == id {
				continue
			}
			if q == 0 || fixed(terms[q-1]) {
				return true
			}
		}
		if !up && terms[id-1].op == OLen {
			return true
		}
	}
	return false
}

func rangesOver(l *Loop) bool {
	for _, in := range l.header.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			if r, ok := n.Iter.(*ssa.Range); ok && !l.body[r.Block()] {
				return true
			}
		}
	}
	return false
}

func (c *Check) recursionEnds(x *Exec, fn *ssa.Function, rs []recCall) {
	for k := range fn.Params {
		t := fn.Params[k].Type()
		_, isSlice := t.Underlying().(*types.Slice)
		if !isInteger(t) && !isString(t) && !isSlice {
			continue
		}
		ok := true
		for _, r := range rs {
			a, e := r.args[k], r.entry[k]
			if !isInteger(t) {
				a, e = mkLen(a), mkLen(e)
			}
			if !x.proveLE(r.st, a, e, -1) || isInteger(t) && !x.proveLE(r.st, kInt(0), e, 0) {
				ok = false
				break
			}
		}
		if ok {
			c.ok("recursion-ends", fnName(fn), fn.Pos())
			return
		}
	}
	c.fail("recursion-ends", fnName(fn), fn.Pos(), "no argument of the recursive function shrinks at every one of its %d recursive calls: the recursion may not end on some input", len(rs))
}
