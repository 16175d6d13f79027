package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp/syntax"
	"sort"
	"strings"
)

// State is one abstract state: heap cells, path facts and numeric relations.
type State struct {
	cells    PMap[*Term]  // address term -> content
	facts    PMap[bool]   // boolean term -> truth
	eqs      PMap[*Term]  // term -> equal constant
	zone     PMap[zedge]  // difference constraints
	maps     PMap[*mapSt] // map term -> known content
	epochs   PMap[*Term]  // memory class -> epoch
	escaped  PMap[bool]   // allocations reachable from unknown memory
	counters PMap[int]    // call site -> dynamic occurrence
	trace    *Trace
	gexprs   *gexpr // general linear facts
	dead     bool
}

type zedge struct {
	a, b int // a - b <= c  (0 is the constant zero)
	c    int64
}
type gexpr struct {
	prev *gexpr
	l    lin
}

// mapSt is what is known about a map's content: a base version plus newer writes.
type mapSt struct {
	empty  bool  // base is empty
	ver    *Term // otherwise: version of the base
	writes *mapW
}
type mapW struct {
	prev *mapW
	k, v *Term
	del  bool
}

// Trace is the (persistent) list of effects of a path, newest first.
type Trace struct {
	prev *Trace
	ev   *Event
}

// Event is one effect.
type Event struct {
	kind  string // call store mapset mapdel append loop globalread panic exit go defer
	name  string
	args  []*Term
	res   []*Term
	pos   token.Pos
	fn    string // function in which it happens
	loop  *LoopMark
	part  *LoopPart // the invariant partition in which the loop ended
	st    *State    // snapshot (for calls)
	after *State    // and after them
}

// LoopMark summarises an abstracted loop: for every invariant partition the
// iterations that go round again.
type LoopMark struct {
	name  string
	inst  int
	parts []*LoopPart
	loop  *Loop
	names []string
	typs  []types.Type
	inits []*Term // values of the loop variables at entry
	entry *State
}
type LoopPart struct {
	init  *State
	phis  []*Term
	backs []*BackIter
}
type BackIter struct {
	st    *State
	phis  []*Term
	trace *Trace
	to    *LoopPart // where the next iteration starts
}

func (s *State) clone() *State { c := *s; return &c }

func (s *State) add(e *Event) { s.trace = &Trace{s.trace, e} }

// happened is a trace of events together with the state behind them.
type happened struct {
	tr *Trace
	st *State
}

// before lists what may have happened before the end of the trace: the trace
// itself and the iterations of its loops from which the exit can be reached.
func (t *Trace) before(st *State) []happened {
	out := []happened{{t, st}}
	for u := t; u != nil; u = u.prev {
		e := u.ev
		if e.loop == nil {
			continue
		}
		reach := map[*LoopPart]bool{e.part: true}
		for grown := true; grown; {
			grown = false
			for _, p := range e.loop.parts {
				for _, b := range p.backs {
					if (b.to == nil || e.part == nil || reach[b.to]) && !reach[p] {
						reach[p], grown = true, true
					}
				}
			}
		}
		for _, p := range e.loop.parts {
			for _, b := range p.backs {
				if b.to == nil || e.part == nil || reach[b.to] {
					out = append(out, b.trace.before(b.st)...)
				}
			}
		}
	}
	return out
}

// events lists a trace oldest first.
func (t *Trace) events() []*Event {
	var r []*Event
	for ; t != nil; t = t.prev {
		r = append(r, t.ev)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

const zshift = 31

func zkey(a, b int) int { return a<<zshift | b }

const lenMax = 1 << 47 // no object in a 64-bit address space is longer

// intrinsic lists the difference constraints that hold of a numeric term by
// construction.
func (x *Exec) intrinsic(t *Term) []zedge {
	var out []zedge
	le := func(a, b int, c int64) { out = append(out, zedge{a, b, c}) }
	if t.op == OLen || t.op == OCap {
		le(0, t.id, 0)
		le(t.id, 0, lenMax)
	} else if t.typ != nil && isInteger(t.typ) {
		lo, hi, ok := intRange(t.typ)
		if lo > -1<<62 {
			le(0, t.id, -lo)
		}
		if ok && hi < 1<<62 {
			le(t.id, 0, hi)
		}
	}
	upper := func(a, b *Term, c int64) { // a - b <= c
		la, lb := linOf(a), linOf(b)
		ia, ka, ok1 := single(la)
		ib, kb, ok2 := single(lb)
		if ok1 && ok2 {
			le(ia, ib, c-ka+kb)
		}
	}
	switch t.op {
	case OCap:
		upper(mkLen(t.args[0]), t, 0)
	case OLen:
		a := t.args[0]
		if a.op == OConv && len(a.args) == 1 {
			break
		}
		if a.op == OCall {
			switch a.s {
			case "strings.TrimSpace", "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimRight", "strings.TrimLeft", "strings.Trim", "strings.TrimFunc":
				upper(t, mkLen(a.args[0]), 0)
			case "strings.Split":
				if s, ok := a.args[1].strVal(); ok && s != "" {
					le(0, t.id, -1)
				}
			case "(*regexp.Regexp).FindStringSubmatch":
				if g := groupsOf(a.args[0]); g > 0 {
					le(t.id, 0, g)
				}
			}
		}
		if a.op == OInit && a.args[0].op == OIndex {
			// an element of all matches: the text and its groups
			if m := a.args[0].args[0]; m.op == OCall && m.s == "(*regexp.Regexp).FindAllStringSubmatch" {
				if g := groupsOf(m.args[0]); g > 0 {
					le(t.id, 0, g)
					le(0, t.id, -g)
				}
			}
		}
		if a.op == OMkSlice || a.op == OSlice {
			break
		}
	case OCall:
		switch t.s {
		case "strings.Index", "strings.LastIndex", "strings.IndexByte", "strings.LastIndexByte", "strings.IndexAny", "strings.IndexRune":
			le(0, t.id, 1)
			le(t.id, 0, lenMax)
			nonEmpty := true
			if t.s == "strings.Index" || t.s == "strings.LastIndex" {
				s, ok := t.args[1].strVal()
				nonEmpty = ok && s != ""
			}
			if nonEmpty {
				upper(t, mkLen(t.args[0]), -1)
			} else {
				upper(t, mkLen(t.args[0]), 0)
			}
		}
	case OBin:
		switch t.s {
		case "%":
			if c, ok := t.args[1].intVal(); ok && c > 0 {
				le(t.id, 0, c-1)
				le(0, t.id, c-1)
			}
		}
	case OExtract:
		if n := t.args[0]; n.op == OCall && n.s == matcherMatch && t.i == 1 {
			le(0, t.id, 0)
		}
	}
	for _, f := range x.axioms {
		out = append(out, f(t)...)
	}
	return out
}

// single views a linear form as one variable (or zero) plus a constant.
func single(l lin) (id int, k int64, ok bool) {
	n := 0
	for v, c := range l.v {
		if c == 0 {
			continue
		}
		if c != 1 {
			return 0, 0, false
		}
		id = v
		n++
	}
	return id, l.k, n <= 1
}

// zgraph is the constraint graph of a zone, with memoised shortest paths.
type zgraph struct {
	x    *Exec
	fwd  map[int][]gedge // a - b <= c as edge b -> a
	rev  map[int][]gedge // and reversed
	seen map[int]bool
	df   map[int]map[int]int64
	dr   map[int]map[int]int64
}
type gedge struct {
	to int
	c  int64
}

func (g *zgraph) addEdge(e zedge) {
	g.fwd[e.b] = append(g.fwd[e.b], gedge{e.a, e.c})
	g.rev[e.a] = append(g.rev[e.a], gedge{e.b, e.c})
	g.addVar(e.a)
	g.addVar(e.b)
}

func (g *zgraph) addVar(id int) {
	if g.seen[id] {
		return
	}
	g.seen[id] = true
	if es := g.x.intrinsicMemo(id); len(es) > 0 {
		if len(g.df) > 0 {
			g.df = map[int]map[int]int64{}
		}
		if len(g.dr) > 0 {
			g.dr = map[int]map[int]int64{}
		}
		for _, e := range es {
			g.addEdge(e)
		}
	}
}

func (x *Exec) graph(s *State) *zgraph {
	if g, ok := x.graphs[s.zone.root]; ok {
		return g
	}
	g := &zgraph{x: x, fwd: map[int][]gedge{}, rev: map[int][]gedge{}, seen: map[int]bool{0: true}, df: map[int]map[int]int64{}, dr: map[int]map[int]int64{}}
	s.zone.Each(func(_ int, e zedge) { g.addEdge(e) })
	if len(x.graphs) > 400 {
		x.graphs = map[*pnode[zedge]]*zgraph{}
	}
	x.graphs[s.zone.root] = g
	return g
}

func (g *zgraph) paths(src int, rev bool) map[int]int64 {
	g.addVar(src)
	memo, adj := g.df, g.fwd
	if rev {
		memo, adj = g.dr, g.rev
	}
	if d, ok := memo[src]; ok {
		return d
	}
	d := map[int]int64{src: 0}
	queue := []int{src}
	inq := map[int]bool{src: true}
	for steps := 0; len(queue) > 0 && steps < 20000; steps++ {
		u := queue[0]
		queue = queue[1:]
		inq[u] = false
		if u == src && d[u] < 0 {
			break // contradictory state
		}
		for _, e := range adj[u] {
			n := d[u] + e.c
			if o, ok := d[e.to]; !ok || n < o {
				d[e.to] = n
				if !inq[e.to] {
					inq[e.to] = true
					queue = append(queue, e.to)
				}
			}
		}
	}
	memo[src] = d
	return d
}

// dist returns the least c with a - b <= c derivable, if any.
func (x *Exec) dist(s *State, a, b int) (int64, bool) {
	if a == b {
		return 0, true
	}
	g := x.graph(s)
	g.addVar(a)
	g.addVar(b)
	if p, ok := g.dr[a]; ok {
		d, ok := p[b]
		return d, ok
	}
	d, ok := g.paths(b, false)[a]
	return d, ok
}

func (x *Exec) intrinsicMemo(id int) []zedge {
	if e, ok := x.intr[id]; ok {
		return e
	}
	x.intr[id] = nil
	e := x.intrinsic(terms[id-1])
	x.intr[id] = e
	return e
}

// zl is the exact linear value of an integer term: sums are opened only where
// they provably do not overflow.
func (x *Exec) zl(s *State, t *Term) lin {
	if n, ok := t.intVal(); ok {
		return lin{v: map[int]int64{}, k: n}
	}
	if t.op == OConv && len(t.args) == 1 && t.args[0].typ != nil && isInteger(t.args[0].typ) && isInteger(t.typ) {
		in := t.args[0]
		if widens(in.typ, t.typ) {
			return x.zl(s, in)
		}
		// a narrowing conversion keeps the value when it is in range
		lo, hi, ok := intRange(t.typ)
		l := x.zl(s, in)
		if !ok {
			hi = 1<<63 - 1
		}
		if a, okA := x.lower(s, l); okA && a >= lo {
			if b, okB := x.upperB(s, l); okB && b <= hi {
				return l
			}
		}
		return lin{v: map[int]int64{t.id: 1}}
	}
	if t.op == OLin {
		r := lin{v: map[int]int64{}, k: t.k}
		for i, a := range t.args {
			l := x.zl(s, a)
			for id, c := range l.v {
				r.v[id] += c * t.coef[i]
			}
			r.k += l.k * t.coef[i]
		}
		lo, hi, ok := intRange(t.typ)
		if !ok {
			hi = 1<<63 - 1
		}
		a, okA := x.lower(s, r)
		b, okB := x.upperB(s, r)
		inA, inB := okA && a >= lo, okB && b <= hi
		// relations of more than two values may bound the sum
		if !inA && s.gexprs != nil {
			d := lin{v: r.v, k: r.k - max(lo, -1<<62)}
			inA = x.nonneg(s, d, 1)
		}
		if inA && !inB && s.gexprs != nil {
			d := lin{v: map[int]int64{}, k: min(hi, 1<<62) - r.k}
			for id, c := range r.v {
				d.v[id] = -c
			}
			inB = x.nonneg(s, d, 1)
		}
		if inA && inB {
			return r
		}
		return lin{v: map[int]int64{t.id: 1}}
	}
	if s.eqs.Len() > 0 {
		if n := s.norm(t); n != t {
			return x.zl(s, n)
		}
	}
	return lin{v: map[int]int64{t.id: 1}}
}

func (x *Exec) upperB(s *State, l lin) (int64, bool) {
	sum := l.k
	for id, c := range l.v {
		if c == 0 {
			continue
		}
		var b int64
		var ok bool
		if c > 0 {
			b, ok = x.dist(s, id, 0)
		} else {
			b, ok = x.dist(s, 0, id) // -id <= b
			c = -c
		}
		if !ok || c > 1<<14 || b > 1<<62/c || b < -(1<<62/c) {
			return 0, false
		}
		sum += c * b
		if sum > 1<<62 || sum < -1<<62 {
			return 0, false
		}
	}
	return sum, true
}

func (x *Exec) lower(s *State, l lin) (int64, bool) {
	n := lin{v: map[int]int64{}, k: -l.k}
	for id, c := range l.v {
		n.v[id] = -c
	}
	b, ok := x.upperB(s, n)
	return -b, ok
}

// nonneg proves l >= 0.
func (x *Exec) nonneg(s *State, l lin, depth int) bool {
	var pos, neg []int
	for id, c := range l.v {
		for ; c > 0; c-- {
			pos = append(pos, id)
		}
		for ; c < 0; c++ {
			neg = append(neg, id)
		}
		if len(pos)+len(neg) > 6 {
			return false
		}
	}
	sort.Ints(pos)
	sort.Ints(neg)
	// l = sum pos - sum neg + k >= 0 : pair every neg with a pos or zero
	var rec func(pos, neg []int, k int64) bool
	rec = func(pos, neg []int, k int64) bool {
		if len(neg) == 0 {
			for _, p := range pos {
				b, ok := x.dist(s, 0, p) // -p <= b
				if !ok {
					return false
				}
				k -= b
			}
			return k >= 0
		}
		n := neg[0]
		for i, p := range pos {
			if b, ok := x.dist(s, n, p); ok { // n - p <= b
				rest := append(append([]int{}, pos[:i]...), pos[i+1:]...)
				if rec(rest, neg[1:], k-b) {
					return true
				}
			}
		}
		if b, ok := x.dist(s, n, 0); ok {
			return rec(pos, neg[1:], k-b)
		}
		return false
	}
	if rec(pos, neg, l.k) {
		return true
	}
	if depth > 0 {
		// an index found in a text lies inside it
		for _, id := range neg {
			t := terms[id-1]
			if t.op != OCall || !strings.HasPrefix(t.s, "strings.Index") && !strings.HasPrefix(t.s, "strings.LastIndex") || len(t.args) == 0 {
				continue
			}
			ll := linOf(mkLen(t.args[0]))
			if len(ll.v) < 2 {
				continue
			}
			d := lin{v: map[int]int64{}, k: l.k + 1}
			for v, c := range l.v {
				d.v[v] += c
			}
			d.v[id]++
			for v, c := range ll.v {
				d.v[v] -= c
			}
			d.k -= ll.k
			if x.nonneg(s, d, depth-1) {
				return true
			}
		}
		for g := s.gexprs; g != nil; g = g.prev {
			d := lin{v: map[int]int64{}, k: l.k - g.l.k}
			for id, c := range l.v {
				d.v[id] += c
			}
			for id, c := range g.l.v {
				d.v[id] -= c
			}
			if x.nonneg(s, d, 0) {
				return true
			}
		}
	}
	return false
}

func linSub(a, b lin) lin {
	d := lin{v: map[int]int64{}, k: a.k - b.k}
	for id, c := range a.v {
		d.v[id] += c
	}
	for id, c := range b.v {
		d.v[id] -= c
	}
	for id, c := range d.v {
		if c == 0 {
			delete(d.v, id)
		}
	}
	return d
}

// proveLE proves a <= b + c.
func (x *Exec) proveLE(s *State, a, b *Term, c int64) bool {
	l := linSub(x.zl(s, b), x.zl(s, a))
	l.k += c
	return x.nonneg(s, l, 1)
}

// addLE records l >= 0.
func (x *Exec) addNonneg(s *State, l lin) bool {
	// contradiction: -l - 1 >= 0 provable
	n := lin{v: map[int]int64{}, k: -l.k - 1}
	for id, c := range l.v {
		n.v[id] = -c
	}
	if x.nonneg(s, n, 1) {
		return false
	}
	var p, q int
	np, nq := 0, 0
	for id, c := range l.v {
		switch c {
		case 0:
		case 1:
			p = id
			np++
		case -1:
			q = id
			nq++
		default:
			np = 9
		}
	}
	if np <= 1 && nq <= 1 {
		// p - q + k >= 0  =>  q - p <= k
		k := zkey(q, p)
		if e, ok := s.zone.Get(k); !ok || l.k < e.c {
			s.zone = s.zone.Set(k, zedge{q, p, l.k})
		}
		return true
	}
	s.gexprs = &gexpr{s.gexprs, l}
	return true
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case OLin:
		r := kIntT(t.k, t.typ)
		for i, a := range args {
			r = mkAdd(r, mkScale(a, t.coef[i], t.typ), t.typ)
		}
		return r
	case ONot:
		return mkNot(args[0])
	case OEq:
		return mkEq(args[0], args[1])
	case OLt:
		return mkLt(args[0], args[1], t.typ)
	case OBin:
		if tok, ok := tokOf[t.s]; ok {
			return mkBin(tok, args[0], args[1], t.typ, t.typ)
		}
	case OConv:
		return mkConv(t.typ, args[0])
	case OLen:
		return mkLen(args[0])
	case OCap:
		return mkCap(args[0])
	case OSub:
		return mkSubstr(args[0], args[1], args[2])
	case OConcat:
		return mkConcat(args...)
	case OExtract:
		return mkExtract(args[0], t.i, t.typ)
	case OCall:
		return pureCall(t.s, t.typ, args)
	case OFieldV:
		st, _ := t.obj.(types.Type)
		return mkFieldV(args[0], t.i, t.typ, st)
	case OIndex:
		return mkIndexAddr(args[0], args[1], t.typ)
	case OAppend:
		return mkAppend(args[0], args[1:], t.typ)
	}
	n := *t
	n.args = args
	if t.op == OSym || t.op == OAlloc || t.op == OICall {
		n.owners = append([]int{}, t.owners...)
	} else {
		n.owners = nil
	}
	return mk(n)
}

var tokOf = map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL, "/": token.QUO, "%": token.REM, "&": token.AND, "|": token.OR, "^": token.XOR, "<<": token.SHL, ">>": token.SHR, "&^": token.AND_NOT}

// subst rewrites t bottom-up with f (f returns nil to keep).
func subst(t *Term, f func(*Term) *Term) *Term { return substM(t, f, map[int]*Term{}) }

func substM(t *Term, f func(*Term) *Term, memo map[int]*Term) *Term {
	var w func(*Term) *Term
	w = func(t *Term) *Term {
		if r, ok := memo[t.id]; ok {
			return r
		}
		if r := f(t); r != nil {
			memo[t.id] = r
			return r
		}
		r := t
		if len(t.args) > 0 {
			changed := false
			args := make([]*Term, len(t.args))
			for i, a := range t.args {
				args[i] = w(a)
				if args[i] != a {
					changed = true
				}
			}
			if changed {
				r = rebuild(t, args)
			}
		}
		memo[t.id] = r
		return r
	}
	return w(t)
}

var normMemo = map[*pnode[*Term]]map[int]*Term{}

// norm rewrites t with the constant equalities of s.
func (s *State) norm(t *Term) *Term {
	if s.eqs.Len() == 0 || t.op == OConst {
		return t
	}
	m := normMemo[s.eqs.root]
	if m == nil {
		if len(normMemo) > 300 {
			normMemo = map[*pnode[*Term]]map[int]*Term{}
		}
		m = map[int]*Term{}
		normMemo[s.eqs.root] = m
	}
	return substM(t, func(u *Term) *Term {
		if c, ok := s.eqs.Get(u.id); ok {
			return c
		}
		return nil
	}, m)
}

// truth decides a boolean term in s, if it can.
func (x *Exec) truth(s *State, t *Term) (val, known bool) {
	if b, ok := t.boolVal(); ok {
		return b, true
	}
	if b, ok := s.facts.Get(t.id); ok {
		return b, true
	}
	if t.op == ONot {
		v, k := x.truth(s, t.args[0])
		return !v, k
	}
	if n := s.norm(t); n != t {
		return x.truth(s, n)
	}
	switch t.op {
	case OMapOk:
		// the same version at an equal key
		k := t.args[1]
		if k.isConst() {
			break
		}
		s.facts.Each(func(id int, v bool) {
			f := terms[id-1]
			if !v || known || f.op != OEq || f.args[0] != k && f.args[1] != k {
				return
			}
			o := f.args[0]
			if o == k {
				o = f.args[1]
			}
			if b, ok := s.facts.Get(mk(Term{op: OMapOk, args: []*Term{t.args[0], o}, typ: tBool}).id); ok {
				val, known = b, true
			}
		})
		if known {
			return val, true
		}
	case OEq:
		a, b := t.args[0], t.args[1]
		if a.op == OMapVal && b.op == OMapVal && a.args[0] == b.args[0] {
			if v, k := x.truth(s, mkEq(a.args[1], b.args[1])); k && v {
				return true, true
			}
		}
		if b.isNil() {
			if x.nonNil(s, a) {
				return false, true
			}
			return false, false
		}
		if isIntTerm(a) && isIntTerm(b) {
			if x.proveLE(s, a, b, -1) || x.proveLE(s, b, a, -1) {
				return false, true
			}
			if x.proveLE(s, a, b, 0) && x.proveLE(s, b, a, 0) {
				return true, true
			}
		}
		if c, ok := b.strVal(); ok {
			// x != "" follows from its length
			if n := mkLen(a); c == "" && n.op != OConst {
				if x.proveLE(s, kInt(1), n, 0) {
					return false, true
				}
				if x.proveLE(s, n, kInt(0), 0) {
					return true, true
				}
			}
		}
		if a.op == OIface && b.op != OIface || b.op == OIface && a.op != OIface {
			o := a
			if a.op == OIface {
				o = b
			}
			if o.op == OInit && o.args[0].op == OGlobal { // a sentinel of another package
				i := a
				if i == o {
					i = b
				}
				if intrinsicNonNil(i.args[0]) && i.args[0].op == OAlloc {
					return false, true
				}
			}
		}
		if x.nonNil(s, a) && x.isNilKnown(s, b) || x.nonNil(s, b) && x.isNilKnown(s, a) {
			return false, true
		}
	case OLt:
		if t.typ != nil && isInteger(t.typ) {
			if x.proveLE(s, t.args[0], t.args[1], -1) {
				return true, true
			}
			if x.proveLE(s, t.args[1], t.args[0], 0) {
				return false, true
			}
		}
	case OCall:
		return x.truthCall(s, t)
	case OTypeIs:
		return x.truthTypeIs(s, t)
	}
	return false, false
}

func (x *Exec) truthTypeIs(s *State, t *Term) (bool, bool) {
	v := t.args[0]
	if v.op == OIface {
		return sameType(v.typ, t.typ), true
	}
	if x.isNilKnown(s, v) {
		return false, true
	}
	// a known other concrete dynamic type
	res, known := false, false
	s.facts.Each(func(k int, b bool) {
		f := terms[k-1]
		if f.op == OTypeIs && f.args[0] == v && b && !types.IsInterface(f.typ) && !types.IsInterface(t.typ) && !sameType(f.typ, t.typ) {
			res, known = false, true
		}
	})
	return res, known
}

func (x *Exec) isNilKnown(s *State, t *Term) bool {
	if t.isNil() {
		return true
	}
	b, ok := s.facts.Get(mkEq(t, kNil()).id)
	return ok && b
}

// nonNil proves that t is not nil in s.
func (x *Exec) nonNil(s *State, t *Term) bool {
	if t.isConst() {
		return t.c != nil
	}
	if intrinsicNonNil(t) {
		return true
	}
	e := mkEq(t, kNil())
	if b, ok := e.boolVal(); ok {
		return !b
	}
	if b, ok := s.facts.Get(e.id); ok {
		return !b
	}
	switch t.op {
	case OExtract:
		c := t.args[0]
		if c.op == OCall || c.op == OICall {
			// (value, error) convention of the standard and third-party libraries
			if n, ok := tupleLen(c); ok && n >= 2 && t.i < n-1 {
				tt := c.typ.(*types.Tuple)
				if types.Identical(tt.At(n-1).Type(), tErr) {
					last := mkExtract(c, n-1, tErr)
					return x.isNilKnown(s, last)
				}
			}
		}
	case OInit:
		if x.nonNilInit != nil && x.nonNilInit(s, t) {
			return true
		}
		if a := t.args[0]; a.op == OGlobal {
			return x.globalNonNil(a)
		}
		if t.args[0].op == OIndex && t.typ != nil && nonNilElem(t.typ) {
			return true
		}
	case OMapVal:
		if x.nonNilMapVal != nil && x.nonNilMapVal(s, t) {
			return true
		}
	case OAssert:
		if !types.IsInterface(t.typ) {
			if _, ok := t.typ.Underlying().(*types.Pointer); !ok {
				return true
			}
			if x.nonNilInit != nil && x.nonNilInit(s, t) {
				return true
			}
		}
	case OConv:
		if len(t.args) == 1 {
			return x.nonNil(s, t.args[0])
		}
	}
	// a slice known to be non-empty is not nil
	if t.typ != nil {
		if _, ok := t.typ.Underlying().(*types.Slice); ok {
			return x.proveLE(s, kInt(1), mkLen(t), 0)
		}
		if types.IsInterface(t.typ) {
			found := false
			s.facts.Each(func(k int, b bool) {
				f := terms[k-1]
				if f.op == OTypeIs && f.args[0] == t && b {
					found = true
				}
			})
			return found
		}
	}
	return false
}

func tupleLen(c *Term) (int, bool) {
	tt, ok := c.typ.(*types.Tuple)
	if !ok {
		return 0, false
	}
	return tt.Len(), true
}

// assume adds the fact t == val; false if contradictory.
func (x *Exec) assume(s *State, t *Term, val bool) bool {
	for t.op == ONot {
		t = t.args[0]
		val = !val
	}
	if v, known := x.truth(s, t); known {
		if v != val {
			return false
		}
		if _, isC := t.boolVal(); isC {
			return true
		}
		// still record it: it may be known only through a derived argument
		if _, ok := s.facts.Get(t.id); ok {
			return true
		}
	}
	if n := s.norm(t); n != t {
		if b, ok := n.boolVal(); ok {
			if b != val {
				return false
			}
		} else {
			s.facts = s.facts.Set(t.id, val)
			return x.assume(s, n, val)
		}
	}
	s.facts = s.facts.Set(t.id, val)
	switch t.op {
	case OEq:
		a, b := t.args[0], t.args[1]
		if val && b.isConst() && !a.isConst() {
			s.eqs = s.eqs.Set(a.id, b)
			// an equality with a constant may decide earlier facts
			if !x.recheck(s, a) {
				return false
			}
		}
		if val && !a.isConst() {
			ok := true
			s.facts.Each(func(id int, v bool) {
				f := terms[id-1]
				if ok && f.op == OMapOk && (f.args[1] == a || f.args[1] == b) {
					o := a
					if f.args[1] == a {
						o = b
					}
					if w, known := s.facts.Get(mk(Term{op: OMapOk, args: []*Term{f.args[0], o}, typ: tBool}).id); known && w != v {
						ok = false
					}
				}
			})
			if !ok {
				return false
			}
		}
		if isIntTerm(a) && isIntTerm(b) {
			la, lb := x.zl(s, a), x.zl(s, b)
			if val {
				if !x.addNonneg(s, linSub(la, lb)) || !x.addNonneg(s, linSub(lb, la)) {
					return false
				}
			} else {
				d := linSub(la, lb)
				if x.nonneg(s, d, 1) { // a >= b and a != b
					d.k--
					if !x.addNonneg(s, d) {
						return false
					}
				} else if e := linSub(lb, la); x.nonneg(s, e, 1) {
					e.k--
					if !x.addNonneg(s, e) {
						return false
					}
				}
			}
		}
		if c, ok := b.strVal(); ok {
			if val && a.op == OConcat {
				// nothing left for the other parts
				rest := len(c)
				for _, p := range a.args {
					if k, ok := p.strVal(); ok {
						rest -= len(k)
					}
				}
				for _, p := range a.args {
					if !p.isConst() && rest == 0 && !x.assume(s, mkEq(p, kStr("")), true) {
						return false
					}
				}
			}
			n := mkLen(a)
			if n.op != OConst {
				if val {
					ln := linOf(n)
					l := lin{v: map[int]int64{}, k: int64(len(c))}
					if !x.addNonneg(s, linSub(ln, l)) || !x.addNonneg(s, linSub(l, ln)) {
						return false
					}
				} else if c == "" {
					l := linOf(n)
					l.k--
					if !x.addNonneg(s, l) {
						return false
					}
				}
			}
		}
		if b.isNil() && a.op == OCall && a.s == "(*regexp.Regexp).FindStringSubmatch" {
			if g := groupsOf(a.args[0]); g > 0 {
				k := lin{v: map[int]int64{}, k: g}
				if val {
					k.k = 0
				}
				n := linOf(mkLen(a))
				if !x.addNonneg(s, linSub(n, k)) || !x.addNonneg(s, linSub(k, n)) {
					return false
				}
			}
		}
		if isIntTerm(a) && !x.matchAxiom(s, a) {
			return false
		}
		if val {
			if a.op == OExtract && b.isNil() && a.args[0].op == OCall {
				return x.okAxioms(s, a.args[0])
			}
		}
	case OLt:
		if t.typ != nil && isInteger(t.typ) {
			la, lb := x.zl(s, t.args[0]), x.zl(s, t.args[1])
			var l lin
			if val { // a + 1 <= b
				l = linSub(lb, la)
				l.k--
			} else {
				l = linSub(la, lb)
			}
			if !x.addNonneg(s, l) {
				return false
			}
			x.indexAxiom(s, t.args[0])
			x.indexAxiom(s, t.args[1])
			if !x.matchAxiom(s, t.args[0]) || !x.matchAxiom(s, t.args[1]) {
				return false
			}
		}
	case OCall:
		return x.assumeCall(s, t, val)
	}
	return true
}

// groupsOf: the length of a match of a fixed pattern (its text and its groups);
// 0 if the pattern is not known.
func groupsOf(re *Term) int64 {
	if re.op != OCall || re.s != "regexp.MustCompile" {
		return 0
	}
	pat, ok := re.args[0].strVal()
	if !ok {
		return 0
	}
	r, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return 0
	}
	return int64(r.MaxCap()) + 1
}

// matchAxiom: a match that is not empty has all its groups.
func (x *Exec) matchAxiom(s *State, t *Term) bool {
	if t.op != OLen || t.args[0].op != OCall || t.args[0].s != "(*regexp.Regexp).FindStringSubmatch" {
		return true
	}
	g := groupsOf(t.args[0].args[0])
	if g == 0 || !x.proveLE(s, kInt(1), t, 0) {
		return true
	}
	l := linOf(t)
	l.k -= g
	return x.addNonneg(s, l)
}

// indexAxiom: a non-negative strings.Index result leaves room for the needle.
func (x *Exec) indexAxiom(s *State, t *Term) {
	if t.op == OCall && (t.s == "strings.Index" || t.s == "strings.LastIndex") && x.proveLE(s, kInt(0), t, 0) {
		l := linSub(linOf(mkLen(t.args[0])), linOf(t))
		l = linSub(l, linOf(mkLen(t.args[1])))
		x.addNonneg(s, l)
	}
}

// recheck carries what is known about terms that mention a, which now has a
// constant value, over to their simplified form.
func (x *Exec) recheck(s *State, a *Term) bool {
	ok := true
	type kv struct {
		t *Term
		b bool
	}
	var upd []kv
	has := func(t *Term) bool { return t.mentions(func(u *Term) bool { return u == a }) }
	s.facts.Each(func(k int, b bool) {
		f := terms[k-1]
		if !ok || !has(f) {
			return
		}
		n := s.norm(f)
		if c, isC := n.boolVal(); isC {
			if c != b {
				ok = false
			}
		} else if n != f {
			upd = append(upd, kv{n, b})
		}
	})
	if !ok {
		return false
	}
	vars := map[int]bool{}
	s.zone.Each(func(_ int, e zedge) {
		for _, v := range []int{e.a, e.b} {
			if v != 0 && !vars[v] {
				vars[v] = true
			}
		}
	})
	var vs []int
	for v := range vars {
		vs = append(vs, v)
	}
	sort.Ints(vs)
	for _, v := range vs {
		t := terms[v-1]
		if t == a || !has(t) {
			continue
		}
		n := s.norm(t)
		if n == t {
			continue
		}
		l := lin{v: map[int]int64{v: 1}}
		m := x.zl(s, n)
		if !x.addNonneg(s, linSub(l, m)) || !x.addNonneg(s, linSub(m, l)) {
			return false
		}
	}
	for _, u := range upd {
		if b, known := s.facts.Get(u.t.id); known {
			if b != u.b {
				return false
			}
			continue
		}
		if !x.assume(s, u.t, u.b) {
			return false
		}
	}
	return true
}

func (s *State) dump() string {
	var b strings.Builder
	s.facts.Each(func(k int, v bool) { fmt.Fprintf(&b, "  fact %v = %v\n", terms[k-1], v) })
	s.eqs.Each(func(k int, v *Term) { fmt.Fprintf(&b, "  eq %v = %v\n", terms[k-1], v) })
	s.zone.Each(func(_ int, e zedge) {
		n := func(i int) string {
			if i == 0 {
				return "0"
			}
			return terms[i-1].String()
		}
		fmt.Fprintf(&b, "  zone %s - %s <= %d\n", n(e.a), n(e.b), e.c)
	})
	s.cells.Each(func(k int, v *Term) { fmt.Fprintf(&b, "  cell %v = %v\n", terms[k-1], v) })
	return b.String()
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return kStr("")
		case u.Info()&types.IsBoolean != 0:
			return kBool(false)
		case u.Info()&types.IsInteger != 0:
			return kIntT(0, t)
		case u.Info()&types.IsFloat != 0:
			return kConst(constant.MakeFloat64(0), t)
		}
		return kNil()
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, zeroOf(u.Field(i).Type()))
		}
		return mkStruct(t, fs)
	case *types.Array:
		if u.Len() <= maxArray {
			var fs []*Term
			for i := int64(0); i < u.Len(); i++ {
				fs = append(fs, zeroOf(u.Elem()))
			}
			return mkCall("array", t, fs...)
		}
		return mkCall("zero", t)
	case *types.Tuple:
		var fs []*Term
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, zeroOf(u.At(i).Type()))
		}
		return mkTuple(fs...)
	}
	return kNil()
}
