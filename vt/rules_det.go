package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- P23: the same catalogue or template always gives the same output ----

func init() {
	register(&Rule{id: "P23", min: 6, run: ruleDeterminism,
		rule: "Inventory of every source of unordered or varying data reachable from the writers and from a run of the tool (map iteration, template lists, clock, random numbers, goroutines). Each map loop is interpreted abstractly: it is left only when all entries are done, and each round either adds to a map under its own key, or to a list that is sorted before any use; the comparison is decided to be a strict total order by enumerating all relations of its keys over three elements, one key being unique."})
}

const addEntryName = "(*" + modPath + "/translator.File).AddEntry"

// varying: calls whose result differs from run to run.
func varying(n string) bool {
	for _, p := range []string{"math/rand", "crypto/rand", "time.Now", "time.Since", "os.Getpid", "os.Getppid", "os.MkdirTemp", "os.CreateTemp", "os.Hostname", "os.Getwd", "runtime.Num", "hash/maphash"} {
		if strings.HasPrefix(n, p) || strings.HasPrefix(n, "("+p) || strings.HasPrefix(n, "(*"+p) {
			return true
		}
	}
	return false
}

func unordered(n string) bool {
	if i := strings.IndexByte(n, '['); i > 0 {
		n = n[:i]
	}
	switch n {
	case "maps.Keys", "maps.Values", "maps.All", "(*html/template.Template).Templates", "(*text/template.Template).Templates", "(*sync.Map).Range", "(reflect.Value).MapKeys", "(reflect.Value).MapRange":
		return true
	}
	return false
}

// from: the functions reachable by calls, closures and references.
func (c *Check) from(roots ...*ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !c.w.isRepo(f) || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					switch g := (*op).(type) {
					case *ssa.Function:
						visit(g)
					case *ssa.MakeClosure:
						visit(g.Fn.(*ssa.Function))
					}
				}
				// a method found through the dynamic type
				if cl, ok := in.(ssa.CallInstruction); ok && cl.Common().IsInvoke() {
					for g := range c.w.all {
						if g.Signature.Recv() != nil && g.Name() == cl.Common().Method.Name() && c.w.isRepo(g) && types.Implements(g.Signature.Recv().Type(), cl.Common().Value.Type().Underlying().(*types.Interface)) {
							visit(g)
						}
					}
				}
				if mi, ok := in.(*ssa.MakeInterface); ok {
					// sort.Sort calls the methods
					if n, ok := mi.X.Type().(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
						for i := 0; i < n.NumMethods(); i++ {
							visit(c.w.prog.FuncValue(n.Method(i)))
						}
					}
				}
			}
		}
	}
	for _, f := range roots {
		visit(f)
	}
	return sortedFns(seen)
}

func ruleDeterminism(c *Check) {
	var roots []*ssa.Function
	for _, n := range []string{"SaveAsPo", "SaveAsPot", "SaveAsMo", "SortedEntry"} {
		roots = append(roots, c.fn("translator", "*File."+n))
	}
	run := c.fn(toolPkg, "Run")
	roots = append(roots, run)
	for _, r := range roots {
		if r == nil {
			return
		}
	}
	fns := c.from(roots...)
	d := &determinism{c: c, callers: map[*ssa.Function][]*ssa.Function{}, roots: map[*ssa.Function]bool{}, et: c.w.typ("translator", "Entry")}
	if d.et == nil {
		return
	}
	for _, r := range roots {
		d.roots[r] = true
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cl, ok := in.(ssa.CallInstruction); ok {
					if g := cl.Common().StaticCallee(); g != nil {
						d.callers[g] = append(d.callers[g], f)
					}
				}
			}
		}
	}
	var clock []*ssa.Function
	n := 0
	for _, f := range fns {
		src := ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Range:
					if _, ok := i.X.Type().Underlying().(*types.Map); ok {
						src = "a map"
					}
				case *ssa.Go:
					c.fail("source", fnName(f)+": starts a goroutine", i.Pos(), "the order of its effects is not determined")
				case *ssa.Select:
					c.fail("source", fnName(f)+": selects", i.Pos(), "the choice is not determined")
				}
				if cl, ok := in.(ssa.CallInstruction); ok {
					g := cl.Common().StaticCallee()
					if g == nil {
						continue
					}
					g = origin(g)
					switch {
					case g.String() == "time.Now":
						clock = append(clock, f)
					case varying(g.String()):
						c.fail("source", fnName(f)+": "+g.String(), in.Pos(), "the result is different in every run")
					case unordered(g.String()):
						src = g.String()
					}
				}
			}
		}
		c.ok("source", fnName(f)+": inventory", f.Pos())
		if src != "" {
			n++
			d.decide(f, src)
		}
	}
	c.assert(n >= 2, "source", "unordered data", 0, "the table of entries is never gone through")
	d.clock(clock)
}

func origin(f *ssa.Function) *ssa.Function {
	if o := f.Origin(); o != nil {
		return o
	}
	return f
}

type determinism struct {
	c       *Check
	callers map[*ssa.Function][]*ssa.Function
	roots   map[*ssa.Function]bool
	et      types.Type
}

// decide: the unordered data in f, or in its callers if it hands a list on.
func (d *determinism) decide(f *ssa.Function, src string) {
	c := d.c
	top := []*ssa.Function{f}
	for depth := 0; ; depth++ {
		bad, handed := "", false
		for _, t := range top {
			b, h := d.try(t, f)
			if b != "" && bad == "" {
				bad = b
			}
			handed = handed || h
		}
		if bad == "" {
			c.ok("order", fnName(f)+": "+src, f.Pos())
			return
		}
		var up []*ssa.Function
		seen := map[*ssa.Function]bool{}
		for _, t := range top {
			if t.Parent() != nil && !seen[t.Parent()] {
				seen[t.Parent()] = true
				up = append(up, t.Parent())
			}
			for _, g := range d.callers[t] {
				if !seen[g] {
					seen[g] = true
					up = append(up, g)
				}
			}
		}
		if !handed || depth >= 2 || len(up) == 0 {
			c.fail("order", fnName(f)+": "+src, f.Pos(), "%s", bad)
			return
		}
		top = up
	}
}

// try runs top and looks at the loops of f in it. handed: f yields an unsorted
// list, so the caller must sort it.
func (d *determinism) try(top, f *ssa.Function) (bad string, handed bool) {
	c := d.c
	op := append(c.opaqueTool(), c.savers()...)
	var pure []string
	for g := range c.w.all {
		if g.Signature.Recv() != nil && types.Identical(g.Signature.Recv().Type(), types.NewPointer(d.et)) {
			pure = append(pure, canon(g))
		}
	}
	sort.Strings(pure)
	var keep []string
	for _, o := range op {
		if o != canon(top) && o != canon(f) {
			keep = append(keep, o)
		}
	}
	e := &extractor{c: c}
	s := c.run(top, scenOpt{opaque: keep, pure: pure, setup: nonNilGlobal(c), pre: func(x *Exec, st *State, args []*Term) {
		for i, p := range top.Params {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				x.assume(st, mkEq(args[i], kNil()), false)
			}
		}
		e.ready(top)(x, st, args)
	}})
	if s == nil {
		return "cannot be analysed", false
	}
	name := fnName(f)
	hit := 0
	set := func(h bool, format string, a ...any) {
		if bad == "" || !h && handed {
			bad, handed = fmt.Sprintf(format, a...), h
		}
	}
	sorts := map[*Event]string{}
	sorted := func(evs []*Event, from int, isList func(*Term) bool) string {
		for i := from; i < len(evs); i++ {
			ev := evs[i]
			if ev.kind == "sort" && len(ev.args) > 0 && isList(ifaceVal(ev.args[0])) {
				if _, ok := sorts[ev]; !ok {
					sorts[ev] = s.totalOrder(ev)
				}
				return sorts[ev]
			}
			if ev.kind == "call" && strings.HasPrefix(ev.name, "slices.Collect") && len(ev.res) > 0 && isList(ev.args[0]) {
				l := ev.res[0]
				isList = func(t *Term) bool { return t == l }
				continue
			}
			used := false
			for _, a := range ev.args {
				a.mentions(func(u *Term) bool { used = used || isList(u); return false })
			}
			if ev.kind == "store" || ev.kind == "append" {
				used = false
			}
			if ev.kind == "loop" {
				for _, in := range inside(ev) {
					for _, a := range in.args {
						a.mentions(func(u *Term) bool { used = used || isList(u); return false })
					}
				}
			}
			if used {
				return "it is used before it is sorted (" + ev.kind + " " + ev.name + ")"
			}
		}
		return "unsorted"
	}
	s.eachPath(func(tr *Trace, st *State, back *LoopMark, out *callOut) {
		evs := tr.events()
		for i, ev := range evs {
			if ev.kind == "call" && unordered(ev.name) && ev.fn == name && len(ev.res) > 0 {
				hit++
				list := ev.res[0]
				if list.op == OCall && strings.HasPrefix(ev.name, "maps.") {
					continue
				}
				m := sorted(evs, i+1, func(t *Term) bool { return t == list })
				if m != "" {
					set(m == "unsorted" && out != nil && out.res != nil && st.norm(out.res).mentions(func(u *Term) bool { return u == list }), "the list of %s: %s", ev.name, m)
				}
			}
			if ev.kind != "loop" || ev.loop == nil {
				continue
			}
			over := d.mapOf(ev.loop, name)
			if over == nil {
				continue
			}
			hit++
			done := false
			for _, e := range evs[i:] {
				if e.kind == "mapdone" && e.args[0] == over {
					done = true
				}
			}
			if !done {
				set(false, "the loop may stop before all entries are done, and which ones were depends on the order")
			}
			lists, why := d.rounds(s, ev.loop)
			if why != "" {
				set(false, "%s", why)
			}
			for l := range lists {
				m := sorted(evs, i+1, func(t *Term) bool { return t == l })
				if m == "unsorted" && s.short(st, l) {
					m = ""
				}
				if m != "" {
					set(m == "unsorted", "the list that is collected in no order: %s", m)
				}
			}
		}
	})
	// lists made from maps without a loop
	s.eachPath(func(tr *Trace, st *State, back *LoopMark, out *callOut) {
		if out == nil {
			return
		}
		look := func(t *Term) bool {
			return t.mentions(func(u *Term) bool {
				return (u.op == OCall || u.op == OICall) && (strings.HasPrefix(u.s, "maps.Keys") || strings.HasPrefix(u.s, "maps.Values"))
			})
		}
		for i, ev := range tr.events() {
			if ev.kind == "sort" && len(ev.args) > 0 && look(ev.args[0]) {
				hit++
				if m := s.totalOrder(ev); m != "" {
					set(false, "%s", m)
				}
				continue
			}
			for _, a := range ev.args {
				if look(a) {
					hit++
					l := a
					if m := sorted(tr.events(), i, func(t *Term) bool { return t == l }); m != "" && !strings.Contains(fmt.Sprint(a), "slices.Sorted") {
						set(false, "the keys of a map: %s", m)
					}
				}
			}
		}
	})
	if hit == 0 {
		return "the use of the unordered data is not found", true
	}
	return
}

// short: a list that has one element at most is in order.
func (s *Scen) short(st *State, l *Term) bool {
	v, k := s.x.truth(st, mkLt(mkLen(l), kInt(2), tInt))
	return s.x.isNilKnown(st, l) || k && v
}

// savers: the functions of the translator that are not looked into.
func (c *Check) savers() []string {
	var out []string
	for _, n := range []string{"SaveAsPo", "SaveAsPot", "SaveAsMo"} {
		out = append(out, "(*"+modPath+"/translator.File)."+n)
	}
	return out
}

// mapOf: the map that a loop of this function goes through.
func (d *determinism) mapOf(m *LoopMark, fn string) *Term {
	for _, p := range m.parts {
		for _, b := range p.backs {
			for _, e := range b.trace.events() {
				if e.kind == "mapiter" && e.fn == fn {
					return e.args[0]
				}
				if e.kind == "loop" {
					break
				}
			}
		}
	}
	return nil
}

// rounds: what the rounds of a map loop do does not depend on their order,
// except for the lists they build.
func (d *determinism) rounds(s *Scen, m *LoopMark) (lists map[*Term]bool, why string) {
	x := s.x
	lists = map[*Term]bool{}
	for _, p := range m.parts {
		for _, b := range p.backs {
			var key, val *Term
			for _, e := range b.trace.events() {
				if e.kind == "mapiter" && key == nil {
					key, val = e.args[1], e.args[2]
				}
			}
			// what decides in this round is not what earlier rounds have left
			b.st.facts.Each(func(id int, v bool) {
				if _, had := p.init.facts.Get(id); had {
					return
				}
				if l := d.leftOver(s, m, p, b, terms[id-1], key); l != nil {
					why = fmt.Sprintf("a round depends on %v, which earlier rounds have changed", l)
				}
			})
			change := func(what string, old, now *Term) {
				now = b.st.norm(now)
				switch {
				case now == old:
				case now.isConst() && now.c != nil:
					// the same in every round: checked over all rounds below
				case now.op == OAppend && now.args[0] == old:
					lists[old] = true
				case isInteger(now.typ) && now.op == OLin && commutes(now, old):
				default:
					why = fmt.Sprintf("%s becomes %v, which depends on the order of the rounds", what, now)
				}
			}
			for k := range p.phis {
				if k < len(b.phis) && k < len(m.names) {
					change(m.names[k], p.phis[k], b.phis[k])
				}
			}
			for _, top := range b.trace.events() {
				for _, e := range inside(top) {
					switch e.kind {
					case "store":
						if _, before := p.init.cells.Get(e.args[0].id); !before && x.fresh(e.args[0]) {
							continue // made in this round
						}
						old := x.load(p.init, e.args[0], e.args[1].typ)
						change(addrName(e.args[0]), old, x.load(b.st, e.args[0], e.args[1].typ))
					case "mapset":
						if _, before := p.init.maps.Get(e.args[0].id); !before && x.fresh(e.args[0]) {
							continue
						}
						if !s.same(b.st, e.args[1], key) && !e.args[2].isConst() && e.args[2].op != OFunc {
							why = fmt.Sprintf("the map %s is set at %v, so the order of the rounds decides which value stays", addrName(e.args[0]), e.args[1])
						}
					case "mapdel":
						if !s.same(b.st, e.args[1], key) {
							why = "entries are deleted under another key"
						}
					case "call", "rec":
						if e.name == addEntryName && val != nil && s.same(b.st, e.args[1], val) {
							continue // entries have different keys
						}
						if x.fresh(e.args[0]) || strings.HasPrefix(e.name, "(*"+modPath+"/translator.Entry)") {
							continue
						}
						why = fmt.Sprintf("calls %s in the order of the rounds", e.name)
					case "write", "fmt":
						if e.kind == "write" {
							why = "writes in the order of the rounds"
						}
					case "panic", "go", "exit", "defer":
						why = e.kind + " in a round"
					}
				}
			}
		}
	}
	// nor does what a round does depend on a flag that earlier ones have set
	var kinds map[string]bool
	for _, p := range m.parts {
		mine := map[string]bool{}
		for _, b := range p.backs {
			k := ""
			for _, e := range b.trace.events() {
				if e.kind == "mapset" || e.kind == "append" || e.kind == "call" {
					k += e.kind + " " + e.name + ";"
				}
			}
			mine[k] = true
		}
		if kinds != nil && fmt.Sprint(kinds) != fmt.Sprint(mine) {
			why = "what a round does depends on what earlier rounds have found"
		}
		kinds = mine
	}
	// a constant that a variable is set to is the same in all rounds
	for k := range m.inits {
		vals := map[*Term]bool{}
		for _, p := range m.parts {
			for _, b := range p.backs {
				if k < len(b.phis) && k < len(p.phis) {
					if v := b.st.norm(b.phis[k]); v.isConst() && v != p.phis[k] {
						vals[v] = true
					}
				}
			}
		}
		if len(vals) > 1 {
			why = fmt.Sprintf("variable %s is set to different values", m.names[k])
		}
	}
	return
}

// leftOver: a part of the condition t that other rounds have changed, apart
// from the entry of a map under this round's key.
func (d *determinism) leftOver(s *Scen, m *LoopMark, p *LoopPart, b *BackIter, t, key *Term) *Term {
	changed := func(u *Term) bool {
		for k, ph := range p.phis {
			if ph == u && u.op == OSym {
				for _, q := range m.parts {
					for _, bb := range q.backs {
						if k < len(bb.phis) && k < len(q.phis) && bb.st.norm(bb.phis[k]) != q.phis[k] {
							return true
						}
					}
				}
			}
		}
		hit := false
		p.init.cells.Each(func(id int, v *Term) {
			if v == u && u.op == OSym && inLoop(u, m.inst) {
				hit = true
			}
		})
		p.init.maps.Each(func(id int, ms *mapSt) {
			if ms.ver == u && u.op == OSym && inLoop(u, m.inst) {
				hit = true
			}
			// its size
			if terms[id-1] == u && ms.ver != nil && inLoop(ms.ver, m.inst) && u != nil {
				hit = true
			}
		})
		return hit
	}
	var bad *Term
	var walk func(u *Term)
	walk = func(u *Term) {
		if (u.op == OMapOk || u.op == OMapVal) && s.same(b.st, u.args[1], key) {
			return
		}
		if changed(u) {
			bad = u
			return
		}
		for _, a := range u.args {
			walk(a)
		}
	}
	walk(t)
	return bad
}

// commutes: now = old + something without old.
func commutes(now, old *Term) bool {
	n := 0
	for i, a := range now.args {
		if a == old {
			if now.coef[i] != 1 {
				return false
			}
			n++
			continue
		}
		if a.mentions(func(u *Term) bool { return u == old }) {
			return false
		}
	}
	return n == 1
}

// clock: the time of day appears in the creation date of a template only.
func (d *determinism) clock(fns []*ssa.Function) {
	c := d.c
	e := newExtractor(c)
	if e == nil {
		return
	}
	covered := map[string]bool{}
	isNow := func(t *Term) bool {
		return t.mentions(func(u *Term) bool { return (u.op == OICall || u.op == OCall) && strings.HasPrefix(u.s, "time.Now") })
	}
	var leaf func(t *Term, ok bool) bool
	leaf = func(t *Term, ok bool) bool {
		if t.op == OConcat {
			for _, a := range t.args {
				if v, is := a.strVal(); is {
					if i := strings.LastIndexByte(v, '\n'); i >= 0 {
						ok, v = false, v[i+1:]
					}
					if strings.HasPrefix(v, "POT-Creation-Date: ") {
						ok = true
					}
					continue
				}
				if isNow(a) && !leaf(a, ok) {
					return false
				}
			}
			return true
		}
		if ok || !isNow(t) {
			return true
		}
		if t.op == OCall && strings.HasPrefix(t.s, "strings.Join") || t.op == OAppend || t.op == OTuple || t.op == OSpread {
			for _, a := range t.args {
				if isNow(a) && !leaf(a, false) {
					return false
				}
			}
			return true
		}
		return false
	}
	for _, f := range e.fns {
		calls := false
		for g := range e.calls[f] {
			calls = calls || canon(g) == saveAsPot
		}
		if !calls || f.Synthetic != "" {
			continue
		}
		s := c.run(f, scenOpt{opaque: c.opaqueTool(), pre: e.ready(f), setup: nonNilGlobal(c)})
		if s == nil {
			continue
		}
		s.eachPath(func(tr *Trace, st *State, back *LoopMark, out *callOut) {
			for _, ev := range tr.events() {
				switch {
				case strings.HasPrefix(ev.name, "time.Now"):
					covered[ev.fn] = true
				case ev.kind == "store" && len(ev.args) > 1 && isNow(ev.args[1]):
					covered[ev.fn] = true
				case ev.kind == "call" && ev.name == addEntryName:
					stt := d.et.Underlying().(*types.Struct)
					for i := 0; i < stt.NumFields(); i++ {
						v := ev.st.norm(s.at(ev.st, ev.args[1], d.et, i))
						if !isNow(v) {
							// the elements of a list
							v = s.listed(ev.st, v)
						}
						c.assert(leaf(v, false), "clock", ev.fn+": the time of day is only in the creation date", ev.pos, "it is in %v", v)
					}
				}
			}
		})
	}
	for _, f := range fns {
		c.assert(covered[fnName(f)], "clock", fnName(f)+": reads the clock", f.Pos(), "outside of the header of the template")
	}
}

// listed: a list as the tuple of its elements where they are known.
func (s *Scen) listed(st *State, t *Term) *Term {
	if t.typ == nil {
		return t
	}
	if _, ok := t.typ.Underlying().(*types.Slice); !ok {
		return t
	}
	if items := s.x.items(st, t); items != nil {
		return mkTuple(items...)
	}
	return t
}

// ---- total orders ----

// totalOrder: the comparison of a sort event is a strict total order on the
// elements of the list ("" if so).
func (s *Scen) totalOrder(ev *Event) string {
	x := s.x
	switch ev.name {
	case "sort.Strings", "sort.Ints", "slices.Sort", "slices.Sorted":
		return ""
	}
	n := ev.name
	if i := strings.IndexByte(n, '['); i > 0 {
		n = n[:i]
	}
	switch n {
	case "slices.Sort", "slices.Sorted":
		return ""
	}
	st := ev.st
	list := ifaceVal(ev.args[0])
	sl, ok := list.typ.Underlying().(*types.Slice)
	if !ok {
		return "sorts something that is no list"
	}
	et := sl.Elem()
	var fn *ssa.Function
	var binds, as []*Term
	i, j := kSym("cmp:i", tInt), kSym("cmp:j", tInt)
	st = st.clone()
	for _, v := range []*Term{i, j} {
		x.assume(st, mkLt(v, kInt(0), tInt), false)
		x.assume(st, mkLt(v, mkLen(list), tInt), true)
	}
	ai := x.load(st, mkIndexAddr(list, i, et), et)
	aj := x.load(st, mkIndexAddr(list, j, et), et)
	if _, ok := et.Underlying().(*types.Pointer); ok {
		x.assume(st, mkEq(ai, kNil()), false)
		x.assume(st, mkEq(aj, kNil()), false)
	}
	switch {
	case len(ev.args) > 1 && (ev.args[1].op == OClosure || ev.args[1].op == OFunc):
		fn = ev.args[1].obj.(*ssa.Function)
		if ev.args[1].op == OClosure {
			binds = ev.args[1].args
		}
		if isInteger(fn.Signature.Params().At(0).Type()) && !isInteger(et) {
			as = []*Term{i, j}
		} else {
			as = []*Term{ai, aj}
		}
	case len(ev.args) == 1 && ev.args[0].op == OIface:
		// a type with a method Less
		nt, ok := ev.args[0].typ.(*types.Named)
		if !ok {
			nt, _ = list.typ.(*types.Named)
		}
		if nt == nil {
			return "the comparison is not found"
		}
		for k := 0; k < nt.NumMethods(); k++ {
			if nt.Method(k).Name() == "Less" {
				fn = x.w.prog.FuncValue(nt.Method(k))
			}
		}
		as = []*Term{list, i, j}
	}
	if fn == nil || len(fn.Blocks) == 0 {
		return "the comparison is not found"
	}
	x.quiet++
	defer func() { x.quiet-- }()
	var outs []callOut
	for _, o := range x.callFn(nil, st.clone(), fn, as, binds, nil, nil, nil, false) {
		if o.kind == oRet {
			outs = append(outs, o)
		}
	}
	o := &orderer{s: s, ai: ai, aj: aj, i: i, j: j, ids: map[*Term]int{}}
	return o.decide(st, outs)
}

type point []int // the rank of an element in each key

type test struct {
	coord int
	eval  func(a, b int) bool
}

type orderer struct {
	s            *Scen
	ai, aj, i, j *Term
	ids          map[*Term]int
	keys         []*Term
	bools        []bool
}

func (o *orderer) sides(t *Term) (a, b bool) {
	t.mentions(func(u *Term) bool {
		a = a || u == o.ai || u == o.i
		b = b || u == o.aj || u == o.j
		return false
	})
	return
}

// mine: t as a key of one element; side tells which (0: i, 1: j).
func (o *orderer) mine(t *Term) (key *Term, side int, ok bool) {
	a, b := o.sides(t)
	if a == b {
		return nil, 0, false
	}
	elem, idx := kSym("cmp:element", o.ai.typ), kSym("cmp:index", tInt)
	if b {
		side = 1
	}
	return subst(t, func(u *Term) *Term {
		switch u {
		case o.ai, o.aj:
			return elem
		case o.i, o.j:
			return idx
		}
		return nil
	}), side, true
}

func (o *orderer) coord(key *Term, b bool) int {
	if n, ok := o.ids[key]; ok {
		return n
	}
	n := len(o.keys)
	b = b || key.typ != nil && isBoolean(key.typ)
	o.ids[key] = n
	o.keys = append(o.keys, key)
	o.bools = append(o.bools, b)
	return n
}

// threeWay: a comparison call.
func threeWay(t *Term) bool {
	if t.op != OCall && t.op != OICall || len(t.args) != 2 {
		return false
	}
	n := t.s
	for _, c := range "[#" {
		if i := strings.IndexRune(n, c); i > 0 {
			n = n[:i]
		}
	}
	return n == "strings.Compare" || n == "cmp.Compare" || n == "bytes.Compare"
}

func sgn(a, b int) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

// test reads a condition as a test on the ranks of the two elements.
func (o *orderer) test(t *Term) (*test, bool) {
	if t.op == ONot {
		r, ok := o.test(t.args[0])
		if !ok {
			return nil, false
		}
		return &test{r.coord, func(a, b int) bool { return !r.eval(a, b) }}, true
	}
	if t.op == OEq || t.op == OLt {
		l, r := t.args[0], t.args[1]
		// the sign of a comparison
		for k, u := range t.args {
			c, isC := t.args[1-k].intVal()
			if !isC || !threeWay(u) {
				continue
			}
			key, flip, ok := o.pair(u.args[0], u.args[1])
			if !ok {
				return nil, false
			}
			k, eq := k, t.op == OEq
			return &test{o.coord(key, false), func(a, b int) bool {
				if flip {
					a, b = b, a
				}
				s := int64(sgn(a, b))
				switch {
				case eq:
					return s == c
				case k == 0:
					return s < c
				}
				return c < s
			}}, true
		}
		if key, flip, ok := o.pair(l, r); ok {
			if t.op == OEq {
				return &test{o.coord(key, false), func(a, b int) bool { return a == b }}, true
			}
			return &test{o.coord(key, false), func(a, b int) bool {
				if flip {
					a, b = b, a
				}
				return a < b
			}}, true
		}
	}
	if t.typ != nil && isBoolean(t.typ) || t.op == OEq || t.op == OLt {
		if key, side, ok := o.mine(t); ok {
			return &test{o.coord(key, true), func(a, b int) bool {
				if side == 1 {
					a = b
				}
				return a == 1
			}}, true
		}
	}
	return nil, false
}

// pair: l and r are the same key of the two elements.
func (o *orderer) pair(l, r *Term) (key *Term, flip, ok bool) {
	kl, sl, ok1 := o.mine(l)
	kr, sr, ok2 := o.mine(r)
	if !ok1 || !ok2 || kl != kr || sl == sr {
		return nil, false, false
	}
	return kl, sl == 1, true
}

// unique: no two elements of a list have this key in common.
func (o *orderer) unique(key *Term) bool {
	if key.op == OSym && key.s == "cmp:element" {
		return true
	}
	if key.op == OCall && (key.s == "(*"+modPath+"/translator.Entry).Key" || key.s == "(*html/template.Template).Name" || key.s == "(*text/template.Template).Name") {
		return key.args[0].op == OSym && key.args[0].s == "cmp:element"
	}
	if key.op == OConcat && len(key.args) == 3 {
		et := o.s.c.w.typ("translator", "Entry")
		if v, ok := key.args[1].strVal(); ok && v == "\x04" && et != nil {
			want := []string{"MsgCtxt", "", "MsgID"}
			for k, w := range want {
				a := key.args[k]
				if w == "" {
					continue
				}
				if a.op != OInit || a.args[0].op != OField || a.args[0].args[0].op != OSym || a.args[0].args[0].s != "cmp:element" || fieldName(et, a.args[0].i) != w {
					return false
				}
			}
			return true
		}
	}
	return false
}

func (o *orderer) decide(base *State, outs []callOut) string {
	type rule struct {
		conds []*test
		res   *test
		val   bool
	}
	var rules []rule
	for _, out := range outs {
		var r rule
		bad := ""
		add := func(t *Term, v bool) {
			if a, b := o.sides(t); !a && !b {
				return
			}
			// bounds of the indexes
			plain := true
			t.mentions(func(u *Term) bool {
				plain = plain && u != o.ai && u != o.aj && !(u.op == OIndex && (u.args[1] == o.i || u.args[1] == o.j))
				return false
			})
			if plain {
				return
			}
			ts, ok := o.test(t)
			if !ok {
				bad = fmt.Sprintf("the comparison depends on %v", t)
				return
			}
			r.conds = append(r.conds, &test{ts.coord, func(a, b int) bool { return ts.eval(a, b) == v }})
		}
		out.st.facts.Each(func(id int, v bool) {
			if _, had := base.facts.Get(id); !had {
				add(terms[id-1], v)
			}
		})
		out.st.eqs.Each(func(id int, v *Term) {
			if _, had := base.eqs.Get(id); !had {
				t := mkEq(terms[id-1], v)
				if _, known := out.st.facts.Get(t.id); !known && !t.isConst() {
					add(t, true)
				}
			}
		})
		if bad != "" {
			return bad
		}
		res := out.st.norm(out.res)
		if v, kn := o.s.x.truth(out.st, res); kn && isBoolean(typeOr(out.res)) {
			r.val = v
		} else if c, ok := res.intVal(); ok {
			r.val = c < 0
		} else if threeWay(res) {
			t, ok := o.test(mkLt(res, kInt(0), tInt))
			if !ok {
				return fmt.Sprintf("the comparison yields %v", res)
			}
			r.res = t
		} else if res.op == OUn || res.op == OLin && len(res.args) == 1 && res.coef[0] == -1 && res.k == 0 && threeWay(res.args[0]) {
			t, ok := o.test(mkLt(kInt(0), res.args[0], tInt))
			if !ok {
				return fmt.Sprintf("the comparison yields %v", res)
			}
			r.res = t
		} else {
			t, ok := o.test(res)
			if !ok {
				return fmt.Sprintf("the comparison yields %v", res)
			}
			r.res = t
		}
		rules = append(rules, r)
	}
	k := len(o.keys)
	if k == 0 || k > 4 {
		return fmt.Sprintf("the comparison uses %d keys", k)
	}
	uniq := -1
	for n, key := range o.keys {
		if o.unique(key) {
			uniq = n
		}
	}
	if uniq < 0 {
		return fmt.Sprintf("elements that agree in %v come in any order", o.keys)
	}
	bad := ""
	less := func(a, b point) (v, ok bool) {
		seen := false
		for _, r := range rules {
			fits := true
			for _, t := range r.conds {
				fits = fits && t.eval(a[t.coord], b[t.coord])
			}
			if !fits {
				continue
			}
			w := r.val
			if r.res != nil {
				w = r.res.eval(a[r.res.coord], b[r.res.coord])
			}
			if seen && w != v {
				return false, false
			}
			v, seen = w, true
		}
		return v, seen
	}
	// all points
	var pts []point
	var gen func(p point)
	gen = func(p point) {
		if len(p) == k {
			pts = append(pts, append(point{}, p...))
			return
		}
		n := 3
		if o.bools[len(p)] {
			n = 2
		}
		for v := 0; v < n; v++ {
			gen(append(p, v))
		}
	}
	gen(nil)
	show := func(a point) string {
		return fmt.Sprint([]int(a))
	}
	memo := make([][]bool, len(pts))
	for i, a := range pts {
		memo[i] = make([]bool, len(pts))
		for j, b := range pts {
			v, ok := less(a, b)
			if !ok {
				return fmt.Sprintf("the comparison of elements with keys %v ranked %s and %s is not decided", o.keys, show(a), show(b))
			}
			memo[i][j] = v
		}
	}
	for i, a := range pts {
		for j, b := range pts {
			if a[uniq] == b[uniq] {
				continue
			}
			if memo[i][j] == memo[j][i] {
				bad = fmt.Sprintf("elements with keys %v ranked %s and %s are not ordered either way or both ways", o.keys, show(a), show(b))
			}
			for l, c := range pts {
				if a[uniq] != c[uniq] && b[uniq] != c[uniq] && memo[i][j] && memo[j][l] && !memo[i][l] {
					bad = "the comparison is not transitive"
				}
			}
		}
	}
	return bad
}

func typeOr(t *Term) types.Type {
	if t.typ == nil {
		return tInt
	}
	return t.typ
}
