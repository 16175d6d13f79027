package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- P26: wrapping a text loses nothing ----

func init() {
	register(&Rule{id: "P26", min: 2, run: ruleWrap,
		rule: "Inductive proof by abstract interpretation of every function the writers cut texts with: on each path the pieces of the result, recursive results standing for their argument and loops for an invariant checked on entry and on every way round, concatenate to exactly the text; the result has at least one piece."})
}

// isStrings: t is []string.
func isStrings(t types.Type) bool {
	return t != nil && types.TypeString(t.Underlying(), nil) == "[]string"
}

// usedSplitters: the functions that cut texts for the writers.
func (c *Check) usedSplitters() []*ssa.Function {
	all := map[*ssa.Function]bool{}
	for _, f := range c.splitterFns() {
		all[f] = true
	}
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !c.w.isRepo(f) || f.Name() == "SortedEntry" {
			return
		}
		seen[f] = true
		if all[f] {
			out = append(out, f)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					switch g := (*op).(type) {
					case *ssa.Function:
						visit(g)
					case *ssa.MakeClosure:
						visit(g.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	for _, m := range []string{"SaveAsPo", "SaveAsPot"} {
		visit(c.fn("translator", "*File."+m))
	}
	sortFns(out)
	return out
}

func ruleWrap(c *Check) {
	fns := c.usedSplitters()
	if len(fns) == 0 {
		c.fail("anchor", "splitter", 0, "no function cuts the texts that the writers write")
		return
	}
	splits := map[string]bool{}
	var names []string
	for _, f := range fns {
		splits[canon(f)] = true
		names = append(names, canon(f))
	}
	for _, f := range fns {
		var others []string
		for _, n := range names {
			if n != canon(f) {
				others = append(others, n)
			}
		}
		f := f
		s := c.run(f, scenOpt{pure: others, pre: func(x *Exec, st *State, args []*Term) {
			for i, p := range f.Params {
				if isInteger(p.Type()) && c.neverNegative(p, map[*ssa.Parameter]bool{}) {
					x.assume(st, mkLt(args[i], kInt(0), tInt), false)
				}
			}
		}})
		if s == nil {
			continue
		}
		j := &joiner{s: s, splits: splits, inv: map[*Term]*Term{}, lower: map[*Term]*Term{}}
		pos := f.Pos()
		for i := range s.outs {
			o := &s.outs[i]
			if o.kind != oRet {
				c.fail("lossless", fnName(f)+": the pieces make up the text", pos, "a path panics: %v", o.pv)
				continue
			}
			j.loops(o.st)
			got, ok := j.join(o.st, o.res, 0)
			text := s.args[0]
			c.assert(ok && j.equal(o.st, got, text), "lossless", fnName(f)+": the pieces make up the text", pos,
				"the pieces concatenate to %v instead of %v on the path\n%s", got, text, o.st.factString())
			st := o.st
			for x := range j.cuts {
				st, _ = s.refine(st, []cond{not(mkLt(mkLen(x), kInt(1), tInt))})
				if st == nil {
					break
				}
			}
			// pieces that make up a text which is not empty are not none
			some := st == nil || ok && s.x.proveLE(st, kInt(1), mkLen(text), 0) || s.x.proveLE(st, kInt(1), j.atLeast(st, o.res), 0)
			c.assert(some, "lossless", fnName(f)+": at least one piece", pos,
				"the result may be empty, and a keyword without any text would be written: %v", o.st.norm(o.res))
		}
		c.assert(len(s.outs) > 0, "lossless", fnName(f)+": the pieces make up the text", pos, "no outcome")
	}
}

// joiner concatenates the elements of a []string term.
type joiner struct {
	s       *Scen
	splits  map[string]bool
	inv     map[*Term]*Term // slice of a loop → what its pieces make up
	done    map[*LoopMark]bool
	lower   map[*Term]*Term // slice of a loop → a lower bound of its length
	bounded map[*Term]bool  // positions shown not to pass the end
	cuts    map[*Term]bool  // cut texts that loops go over
}

// neverNegative: every caller gives a constant that is not negative.
func (c *Check) neverNegative(p *ssa.Parameter, seen map[*ssa.Parameter]bool) bool {
	if seen[p] {
		return true
	}
	seen[p] = true
	i := paramIndex(p)
	var good func(v ssa.Value) bool
	good = func(v ssa.Value) bool {
		switch v := v.(type) {
		case *ssa.Const:
			return v.Value != nil && v.Int64() >= 0
		case *ssa.Parameter:
			return isInteger(v.Type()) && c.neverNegative(v, seen)
		case *ssa.BinOp:
			return v.Op.String() == "+" && good(v.X) && good(v.Y)
		}
		return false
	}
	n := 0
	for fn := range c.w.all {
		if !c.w.isRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok && call.Common().StaticCallee() == p.Parent() {
					n++
					if !good(call.Common().Args[i]) {
						return false
					}
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op == p.Parent() {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

func front(text, rest *Term) *Term { return mkCall("front", tStr, text, rest) }
func upto(x, i *Term) *Term        { return mkCall("joined", tStr, x, i) }

// join gives the concatenation of the elements of t.
func (j *joiner) join(st *State, t *Term, depth int) (*Term, bool) {
	t = st.norm(t)
	if depth > 12 {
		return t, false
	}
	if v, ok := j.inv[t]; ok {
		return v, true
	}
	switch t.op {
	case OConst:
		if t.isNil() {
			return kStr(""), true
		}
	case OMkSlice:
		if n, ok := t.args[0].intVal(); ok && n == 0 {
			return kStr(""), true
		}
	case OSlice:
		lo, ok1 := st.norm(t.args[1]).intVal()
		hi, ok2 := st.norm(t.args[2]).intVal()
		if ok1 && ok2 && lo <= hi && hi-lo <= 16 && t.args[0].op == OAlloc {
			var parts []*Term
			for k := lo; k < hi; k++ {
				parts = append(parts, st.norm(j.s.x.load(st, mkIndexAddr(t.args[0], kInt(k), tStr), tStr)))
			}
			return mkConcat(parts...), true
		}
		if ok1 && lo == 0 && j.s.same(st, t.args[2], mkLen(t.args[0])) {
			return j.join(st, t.args[0], depth+1)
		}
	case OAppend:
		v, ok := j.join(st, t.args[0], depth+1)
		if !ok {
			return t, false
		}
		parts := []*Term{v}
		for _, a := range t.args[1:] {
			if a.op != OSpread {
				parts = append(parts, st.norm(a))
				continue
			}
			v, ok := j.join(st, a.args[0], depth+1)
			if !ok {
				return a, false
			}
			parts = append(parts, v)
		}
		return j.concat(st, parts...), true
	case OCall, OICall:
		if v, ok := j.whole(t); ok {
			return v, true
		}
	}
	return t, false
}

// whole: a call that cuts its first argument without losing anything.
func (j *joiner) whole(t *Term) (*Term, bool) {
	if t.op != OCall && t.op != OICall || len(t.args) == 0 {
		return nil, false
	}
	switch t.s {
	case "strings.SplitAfter", "strings.SplitAfterN":
		sep, ok := t.args[1].strVal()
		if len(t.args) == 3 {
			n, k := t.args[2].intVal()
			ok = ok && k && n != 0
		}
		return t.args[0], ok && sep != ""
	}
	if j.splits[t.s] || j.splits[icallName(t)] {
		return t.args[0], true
	}
	return nil, false
}

// icallName is the function of an opaque call result.
func icallName(t *Term) string {
	s := t.s
	for i := 0; i < len(s); i++ {
		if s[i] == '#' || s[i] == '@' {
			return s[:i]
		}
	}
	return s
}

// concat puts texts together and applies the loop facts.
func (j *joiner) concat(st *State, parts ...*Term) *Term {
	var flat []*Term
	for _, p := range parts {
		flat = append(flat, concatParts(st.norm(p))...)
	}
	for {
		changed := false
		for k := 0; k+1 < len(flat) && !changed; k++ {
			a, b := flat[k], flat[k+1]
			join := func(t *Term, n int) {
				rest := append([]*Term{}, flat[k+n:]...)
				flat = append(append(append([]*Term{}, flat[:k]...), concatParts(t)...), rest...)
				changed = true
			}
			switch {
			case j.first(st, a) != nil:
				join(upto(j.first(st, a), kInt(1)), 1)
			case a.op == OCall && a.s == "front":
				// front(text, rest) ++ rest = text
				for n := 2; k+n <= len(flat); n++ {
					if j.equal(st, mkConcat(flat[k+1:k+n]...), a.args[1]) {
						join(a.args[0], n)
						break
					}
				}
			case a.op == OCall && a.s == "joined" && j.s.same(st, b, st.norm(j.s.x.load(st, mkIndexAddr(a.args[0], a.args[1], tStr), tStr))):
				join(upto(a.args[0], st.norm(mkAdd(a.args[1], kInt(1), tInt))), 2)
			case a.op == OSub && b.op == OSub && a.args[0] == b.args[0] && j.s.same(st, a.args[2], b.args[1]):
				join(mkSubstr(a.args[0], a.args[1], b.args[2]), 2)
			}
		}
		if !changed {
			break
		}
	}
	if n := len(flat); n > 0 && j.first(st, flat[n-1]) != nil {
		flat[n-1] = upto(j.first(st, flat[n-1]), kInt(1))
	}
	for k, p := range flat {
		if p.op == OCall && p.s == "front" && j.s.same(st, p.args[1], kStr("")) {
			flat[k] = p.args[0]
		}
		if p.op == OCall && p.s == "joined" {
			if j.s.same(st, p.args[1], mkLen(p.args[0])) {
				if v, ok := j.whole(p.args[0]); ok {
					flat[k] = v
				}
			} else if last := mkSub(mkLen(p.args[0]), kInt(1), tInt); j.s.x.proveLE(st, last, p.args[1], 0) && (j.bounded[p] || j.s.same(st, last, p.args[1])) &&
				(j.s.x.proveLE(st, mkLen(p.args[0]), p.args[1], 0) || j.s.same(st, st.norm(j.s.x.load(st, mkIndexAddr(p.args[0], last, tStr), tStr)), kStr(""))) {
				if v, ok := j.whole(p.args[0]); ok {
					flat[k] = v
				}
			} else if j.s.same(st, p.args[1], kInt(0)) {
				flat[k] = kStr("")
			}
		}
		if p.op == OSub && j.s.same(st, p.args[1], kInt(0)) && j.s.same(st, p.args[2], mkLen(p.args[0])) {
			flat[k] = p.args[0]
		}
		if p.op == OSub && j.bounded[p] && j.s.same(st, p.args[1], kInt(0)) && j.s.x.proveLE(st, mkLen(p.args[0]), p.args[2], 0) {
			flat[k] = p.args[0]
		}
		if p.op == OSub && j.s.same(st, p.args[1], p.args[2]) {
			flat[k] = kStr("")
		}
	}
	return mkConcat(flat...)
}

// first: t is the first element of a cut text.
func (j *joiner) first(st *State, t *Term) *Term {
	if t.op != OInit || t.args[0].op != OIndex || !j.s.same(st, t.args[0].args[1], kInt(0)) {
		return nil
	}
	x := t.args[0].args[0]
	if _, ok := j.whole(x); ok {
		return x
	}
	return nil
}

func (j *joiner) equal(st *State, a, b *Term) bool {
	if a == b || j.s.same(st, a, b) {
		return true
	}
	x, y := j.drop(st, j.concat(st, a)), j.drop(st, j.concat(st, b))
	return x == y || j.s.same(st, x, y)
}

// drop removes what is known to be empty.
func (j *joiner) drop(st *State, t *Term) *Term {
	var keep []*Term
	for _, p := range concatParts(t) {
		if j.s.same(st, p, kStr("")) || j.s.same(st, mkLen(p), kInt(0)) {
			continue
		}
		keep = append(keep, p)
	}
	return mkConcat(keep...)
}

// atLeast is a lower bound of the number of elements.
func (j *joiner) atLeast(st *State, t *Term) *Term {
	t = st.norm(t)
	if n, ok := j.lower[t]; ok {
		return n
	}
	switch t.op {
	case OAppend:
		n := j.atLeast(st, t.args[0])
		for _, a := range t.args[1:] {
			if a.op == OSpread {
				n = mkAdd(n, j.atLeast(st, a.args[0]), tInt)
			} else {
				n = mkAdd(n, kInt(1), tInt)
			}
		}
		return n
	case OCall, OICall:
		if _, ok := j.whole(t); ok {
			return kInt(1) // shown for each of them; SplitAfter never yields none for a non-empty separator
		}
	}
	return mkLen(t)
}

// loops finds, for every loop on the way, what the pieces collected so far
// make up.
func (j *joiner) loops(st *State) {
	if j.done == nil {
		j.done = map[*LoopMark]bool{}
	}
	for _, e := range st.trace.events() {
		if e.kind == "loop" && e.loop != nil && !j.done[e.loop] {
			j.done[e.loop] = true
			j.loop(e.loop)
		}
	}
}

func (j *joiner) loop(m *LoopMark) {
	if len(m.parts) == 0 {
		return
	}
	if j.cuts == nil {
		j.cuts = map[*Term]bool{}
	}
	for x := range j.ranged(m, 0) {
		j.cuts[x] = true
	}
	for r, t := range m.typs {
		if !isStrings(t) {
			continue
		}
		for _, try := range j.invariants(m, r) {
			if j.holds(m, r, try) {
				for _, p := range m.parts {
					v := try.pieces(p.init, p.phis)
					j.inv[p.phis[r]] = v
					for _, q := range concatParts(v) {
						if q.op == OCall && q.s == "front" {
							q = q.args[0]
						}
						j.bound(m, q, p)
					}
				}
				break
			}
		}
		// every round adds a piece
		for k, kt := range m.typs {
			if !isInteger(kt) {
				continue
			}
			for _, p := range m.parts {
				j.lower[p.phis[r]] = mkSub(p.phis[k], m.inits[k], tInt)
			}
			good := true
			for _, p := range m.parts {
				for _, b := range p.backs {
					good = good && j.s.x.proveLE(b.st, mkSub(b.phis[k], m.inits[k], tInt), j.atLeast(b.st, b.phis[r]), 0)
				}
			}
			if good {
				break
			}
			for _, p := range m.parts {
				delete(j.lower, p.phis[r])
			}
		}
	}
}

// bound shows that the position in a prefix does not pass the end.
func (j *joiner) bound(m *LoopMark, q *Term, p *LoopPart) {
	var pos, end *Term
	switch {
	case q.op == OCall && q.s == "joined":
		pos, end = q.args[1], mkLen(q.args[0])
	case q.op == OSub:
		pos, end = q.args[2], mkLen(q.args[0])
	default:
		return
	}
	at := func(phis []*Term) *Term {
		return subst(pos, func(t *Term) *Term {
			for i, v := range p.phis {
				if t == v {
					return phis[i]
				}
			}
			return nil
		})
	}
	good := j.s.x.proveLE(m.entry, at(m.inits), end, 0)
	for _, p2 := range m.parts {
		for _, b := range p2.backs {
			good = good && j.s.x.proveLE(b.st, at(b.phis), end, 0)
		}
	}
	if good {
		if j.bounded == nil {
			j.bounded = map[*Term]bool{}
		}
		j.bounded[q] = true
	}
}

type invariant struct {
	what   string
	lhs    func(st *State, v *Term, phis []*Term) *Term // pieces and what is left, concatenated
	rhs    func(st *State, phis []*Term) *Term
	pieces func(st *State, phis []*Term) *Term // what the pieces make up if it holds
}

func (j *joiner) invariants(m *LoopMark, r int) []invariant {
	var out []invariant
	v0, ok := j.join(m.entry, m.inits[r], 0)
	if !ok {
		return nil
	}
	for i, t := range m.typs {
		switch {
		case i == r:
		case isString(t):
			// pieces ++ rest stays the same
			whole := j.concat(m.entry, v0, m.inits[i])
			out = append(out, invariant{
				what:   m.names[r] + "+" + m.names[i],
				lhs:    func(st *State, v *Term, phis []*Term) *Term { return j.concat(st, v, phis[i]) },
				rhs:    func(*State, []*Term) *Term { return whole },
				pieces: func(_ *State, phis []*Term) *Term { return front(whole, phis[i]) },
			})
			// pieces ++ word = the elements before position k
			for k, kt := range m.typs {
				if !isInteger(kt) {
					continue
				}
				for x := range j.ranged(m, k) {
					x := x
					at := func(phis []*Term) *Term { return upto(x, mkSub(phis[k], m.inits[k], tInt)) }
					out = append(out, invariant{
						what:   m.names[r] + "+" + m.names[i] + "=" + x.String() + "[:" + m.names[k] + "]",
						lhs:    func(st *State, v *Term, phis []*Term) *Term { return j.concat(st, v, phis[i]) },
						rhs:    func(_ *State, phis []*Term) *Term { return at(phis) },
						pieces: func(_ *State, phis []*Term) *Term { return front(at(phis), phis[i]) },
					})
				}
			}
		case isInteger(t):
			// pieces = the text up to a position
			sub := func(phis []*Term) *Term {
				return mkSubstr(j.s.args[0], kInt(0), phis[i])
			}
			out = append(out, invariant{
				what:   m.names[r] + "=text[:" + m.names[i] + "]",
				lhs:    func(_ *State, v *Term, _ []*Term) *Term { return v },
				rhs:    func(_ *State, phis []*Term) *Term { return sub(phis) },
				pieces: func(_ *State, phis []*Term) *Term { return sub(phis) },
			})
			for x := range j.ranged(m, i) {
				x := x
				at := func(phis []*Term) *Term { return upto(x, mkSub(phis[i], m.inits[i], tInt)) }
				out = append(out, invariant{
					what:   m.names[r] + "=" + x.String() + "[:" + m.names[i] + "]",
					lhs:    func(_ *State, v *Term, _ []*Term) *Term { return v },
					rhs:    func(_ *State, phis []*Term) *Term { return at(phis) },
					pieces: func(_ *State, phis []*Term) *Term { return at(phis) },
				})
			}
		}
	}
	return out
}

// ranged: the cut texts whose elements the rounds may visit.
func (j *joiner) ranged(m *LoopMark, k int) map[*Term]bool {
	out := map[*Term]bool{}
	for _, p := range m.parts {
		for _, b := range p.backs {
			for _, v := range b.phis {
				v.mentions(func(t *Term) bool {
					if t.op == OCall || t.op == OICall {
						if _, ok := j.whole(t); ok {
							out[t] = true
						}
					}
					return false
				})
			}
		}
	}
	return out
}

// holds: an invariant is true on entry and kept by every round.
func (j *joiner) holds(m *LoopMark, r int, iv invariant) bool {
	v0, ok := j.join(m.entry, m.inits[r], 0)
	if !ok || !j.equal(m.entry, iv.lhs(m.entry, v0, m.inits), iv.rhs(m.entry, m.inits)) {
		return false
	}
	for _, p := range m.parts {
		j.inv[p.phis[r]] = iv.pieces(p.init, p.phis)
	}
	good := true
	for _, p := range m.parts {
		for _, b := range p.backs {
			v, ok := j.join(b.st, b.phis[r], 0)
			if !ok || !j.equal(b.st, iv.lhs(b.st, v, b.phis), iv.rhs(b.st, b.phis)) {
				good = false
			}
		}
	}
	if !good {
		for _, p := range m.parts {
			delete(j.inv, p.phis[r])
		}
	}
	return good
}

var _ = fmt.Sprint
