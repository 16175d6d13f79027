package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{id: "P28", min: 9, run: ruleTraverse,
		rule: "Structural induction over the parse trees of text/template: each function of the extractor that walks them is analysed for every node type it can be handed; on every path every child that can hold a call is handed to a function with the same obligation, lists element by element to their end; the run does so for every template of every file that matches."})
	register(&Rule{id: "P29", min: 8, run: ruleExtract,
		rule: "Abstract interpretation of the keyword matching: in every round over the keywords an entry is recorded if and only if the name matches and the declared argument positions hold literal strings, with exactly these strings as context, id and plural; the walk asks for every named argument, with the piped literal behind the others. The place recorded is the file read and the line of the node, handed down unchanged through every function of the walk."})
}

const parsePkg = "text/template/parse"

// kids: which parts of a node can hold calls, by field, and the kind of thing
// they are. Other node types have no such part.
var kids = map[string]map[string]string{
	"ListNode":     {"Nodes": "nodes"},
	"ActionNode":   {"Pipe": "PipeNode"},
	"BranchNode":   {"Pipe": "PipeNode", "List": "ListNode", "ElseList": "ListNode"},
	"IfNode":       {"BranchNode": "BranchNode"},
	"RangeNode":    {"BranchNode": "BranchNode"},
	"WithNode":     {"BranchNode": "BranchNode"},
	"TemplateNode": {"Pipe": "PipeNode"},
	"PipeNode":     {"Cmds": "cmds"},
	"CommandNode":  {"Args": "args"},
	"ChainNode":    {"Node": "operand"},
}

// what a node list or an operand can be (as the parser builds them)
var kindsOf = map[string][]string{
	"nodes":   {"ActionNode", "IfNode", "RangeNode", "WithNode", "TemplateNode"},
	"cmds":    {"CommandNode"},
	"args":    {"PipeNode", "ChainNode"},
	"operand": {"PipeNode"},
}

type extractor struct {
	c        *Check
	fns      []*ssa.Function
	calls    map[*ssa.Function]map[*ssa.Function]bool
	visitors map[*ssa.Function]bool // walk the tree, recursively
	matchers map[*ssa.Function]bool // compare with the keywords
	literals map[*ssa.Function]bool // the text of a literal
	adders   map[*ssa.Function]bool // record an entry
	printers map[*ssa.Function]bool
	todo     []visitJob
	done     map[string]bool
	roles    map[*ssa.Function]*matcherRole
	base     *Scen
	naming   bool // the keyword matching is asked about, too
	demands  []demand
	demanded map[demand]bool
}

// visitJob: function f is handed a thing of this kind as parameter p.
type visitJob struct {
	f    *ssa.Function
	p    int
	kind string
	at   int // the parameter that says which element of the list p it is; -1: all of p
	el   int // and one that holds this element as well, or -1
}

type matcherRole struct{ name, idx, list int }

func (c *Check) parseType(name string) types.Type {
	p := c.w.prog.ImportedPackage(parsePkg)
	if p == nil {
		return nil
	}
	if o := p.Pkg.Scope().Lookup(name); o != nil {
		return o.Type()
	}
	return nil
}

func isParse(t types.Type) bool { return strings.Contains(t.String(), parsePkg+".") }

// newExtractor sorts the functions of the tool by what they do.
func newExtractor(c *Check) *extractor {
	e := &extractor{c: c, calls: map[*ssa.Function]map[*ssa.Function]bool{}, visitors: map[*ssa.Function]bool{}, matchers: map[*ssa.Function]bool{},
		literals: map[*ssa.Function]bool{}, adders: map[*ssa.Function]bool{}, printers: map[*ssa.Function]bool{}, done: map[string]bool{},
		roles: map[*ssa.Function]*matcherRole{}, demanded: map[demand]bool{}}
	for f := range c.w.all {
		if pkgPath(f) == toolPath && len(f.Blocks) > 0 {
			e.fns = append(e.fns, f)
		}
	}
	sortFns(e.fns)
	entry := c.w.typ("translator", "Entry")
	node, _ := c.parseType("Node").(*types.Named)
	if entry == nil || node == nil {
		c.fail("anchor", "extractor", 0, "the entry or node type is gone")
		return nil
	}
	for _, f := range e.fns {
		m := map[*ssa.Function]bool{}
		e.calls[f] = m
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					switch g := (*op).(type) {
					case *ssa.Function:
						m[g] = true
					case *ssa.MakeClosure:
						m[g.Fn.(*ssa.Function)] = true
					}
				}
				if u, ok := in.(*ssa.MapUpdate); ok && types.Identical(u.Value.Type(), types.NewPointer(entry)) {
					e.adders[f] = true
				}
			}
		}
		n := len(f.Params)
		if n > 0 && f.Signature.Variadic() && f.Signature.Results().Len() == 0 {
			e.printers[f] = true
		}
	}
	reach := func(from *ssa.Function, goal func(*ssa.Function) bool) bool {
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function) bool
		walk = func(f *ssa.Function) bool {
			for g := range e.calls[f] {
				if goal(g) {
					return true
				}
				if !seen[g] {
					seen[g] = true
					if walk(g) {
						return true
					}
				}
			}
			return false
		}
		return walk(from)
	}
	adds := func(f *ssa.Function) bool {
		return e.adders[f] || reach(f, func(g *ssa.Function) bool { return e.adders[g] })
	}
	cyclic := func(f *ssa.Function) bool { return reach(f, func(g *ssa.Function) bool { return g == f }) }
	takesNode := func(f *ssa.Function) bool {
		for _, p := range f.Params {
			if isParse(p.Type()) {
				return true
			}
		}
		return false
	}
	for _, f := range e.fns {
		if !takesNode(f) {
			continue
		}
		switch {
		case adds(f) && cyclic(f):
			e.visitors[f] = true
		case !adds(f) && f.Signature.Results().Len() == 2 && isString(f.Signature.Results().At(0).Type()) && isBoolean(f.Signature.Results().At(1).Type()):
			e.literals[f] = true
		}
	}
	for v := range e.visitors {
		for g := range e.calls[v] {
			if !e.visitors[g] && !e.adders[g] && takesNode(g) && adds(g) {
				e.matchers[g] = true
			}
		}
	}
	// what hands on to a matcher is a step on the way to it
	var steps []*ssa.Function
	for m := range e.matchers {
		for g := range e.calls[m] {
			if g != m && e.matchers[g] {
				steps = append(steps, m)
				break
			}
		}
	}
	if len(steps) < len(e.matchers) {
		for _, m := range steps {
			delete(e.matchers, m)
		}
	}
	for n, m := range map[string]map[*ssa.Function]bool{"visitor": e.visitors, "keyword matcher": e.matchers, "literal reader": e.literals, "recorder": e.adders} {
		if len(m) == 0 {
			c.fail("anchor", "extractor: "+n, 0, "no function of the extractor is a %s", n)
			return nil
		}
	}
	e.adders = e.recorders()
	return e
}

// still: the tool does not change the trees it walks, so that what it reads
// from them is the same whenever it reads it.
func (e *extractor) still(x *Exec) { x.frozen = isParse }

func (e *extractor) unchanged() {
	c := e.c
	n := 0
	for _, f := range e.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var addr ssa.Value
				switch in := in.(type) {
				case *ssa.Store:
					addr = in.Addr
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "copy" || bi.Name() == "clear") {
						addr = in.Call.Args[0]
					}
				}
				if addr == nil {
					continue
				}
				n++
				own, tree, loaded := false, false, false
			chain:
				for {
					switch a := addr.(type) {
					case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
						own = !loaded
						break chain
					case *ssa.FieldAddr:
						tree = tree || isParse(a.X.Type())
						addr = a.X
					case *ssa.IndexAddr:
						tree = tree || isParse(a.X.Type())
						addr = a.X
					case *ssa.Slice:
						addr = a.X
					case *ssa.UnOp:
						// memory that something in memory points to
						tree, loaded = tree || isParse(a.Type()), true
						addr = a.X
					default:
						tree = tree || isParse(addr.Type())
						break chain
					}
				}
				c.assert(!tree || own, "walk", fnName(f)+": the tree is not changed", in.Pos(), "writes to a parse tree")
			}
		}
	}
	c.assert(n > 0, "walk", "the tree is not changed", 0, "no write found at all")
}

func names(ms ...map[*ssa.Function]bool) []string {
	var out []string
	for _, m := range ms {
		for f := range m {
			out = append(out, canon(f))
		}
	}
	sort.Strings(out)
	return out
}

// ready: pointers handed on inside the tool are not nil, nor is what a context
// embeds.
func (e *extractor) ready(f *ssa.Function) func(x *Exec, st *State, args []*Term) {
	return func(x *Exec, st *State, args []*Term) {
		for i, p := range f.Params {
			pt, ok := p.Type().Underlying().(*types.Pointer)
			if !ok || isParse(p.Type()) {
				continue
			}
			x.assume(st, mkEq(args[i], kNil()), false)
			if sct, ok := pt.Elem().Underlying().(*types.Struct); ok {
				for k := 0; k < sct.NumFields(); k++ {
					if _, ok := sct.Field(k).Type().Underlying().(*types.Pointer); ok && sct.Field(k).Embedded() {
						x.assume(st, mkEq(x.load(st, mkField(args[i], pt.Elem(), k), sct.Field(k).Type()), kNil()), false)
					}
				}
			}
		}
	}
}

func (e *extractor) want(f *ssa.Function, p int, kind string, at, el int) {
	j := visitJob{f, p, kind, at, el}
	k := fmt.Sprint(canon(f), p, kind, at, el)
	if !e.done[k] {
		e.done[k] = true
		e.todo = append(e.todo, j)
	}
}

// content lists the parts of the node behind pointer t that must be walked.
type part struct {
	t    *Term
	kind string
	what string
}

func (e *extractor) content(s *Scen, st *State, t *Term, kind string) []part {
	typ := e.c.parseType(kind)
	if typ == nil {
		return nil
	}
	stt := typ.Underlying().(*types.Struct)
	var out []part
	var fields []string
	for n := range kids[kind] {
		fields = append(fields, n)
	}
	sort.Strings(fields)
	for _, n := range fields {
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() != n {
				continue
			}
			k := kids[kind][n]
			if k == "BranchNode" {
				out = append(out, part{mkField(t, typ, i), k, n})
				continue
			}
			out = append(out, part{st.norm(s.at(st, t, typ, i)), k, n})
		}
	}
	return out
}

// visited: on this trace, the thing t of this kind is walked ("" if so).
func (e *extractor) visited(s *Scen, st *State, tr []*Event, t *Term, kind string, d int) string {
	x := s.x
	t = st.norm(t)
	if d > 6 {
		return "too deep"
	}
	if _, isStruct := kids[kind]; isStruct || kind == "operand" {
		if x.isNilKnown(st, t) || t.op == OIface && x.isNilKnown(st, t.args[0]) {
			return ""
		}
	}
	// handed to another walker
	hit := false
	for round := 0; round < 2 && !hit; round++ {
		for _, ev := range tr {
			if ev.kind != "call" && (ev.kind != "rec" || e.same(s, st, ev)) {
				continue
			}
			for v := range e.visitors {
				if canon(v) != ev.name {
					continue
				}
				for i, a := range ev.args {
					if round == 0 && i < len(v.Params) && isParse(v.Params[i].Type()) && isThing(st.norm(unface(st.norm(a))), unface(t)) {
						if ks := kindsOf[kind]; ks != nil && types.IsInterface(v.Params[i].Type()) {
							for _, k := range e.kindsOf(kind) {
								e.want(v, i, k, -1, -1)
							}
						} else if lp, ip := e.listed(st, v, ev, t); lp >= 0 {
							e.want(v, lp, kind, ip, i)
						} else {
							e.want(v, i, kind, -1, -1)
						}
						hit = true
					}
				}
				// or as an element of a list
				if lp, ip := e.listed(st, v, ev, t); round == 1 && lp >= 0 {
					e.want(v, lp, kind, ip, -1)
					hit = true
				}
			}
		}
	}
	if hit {
		return ""
	}
	if kind == "operand" {
		for _, k := range e.kindsOf(kind) {
			if m := e.asKind(s, st, tr, t, k, d); m != "" {
				return m
			}
		}
		return ""
	}
	if e.naming && (named[kind] != "") {
		if m := e.asked(s, st, tr, t, kind); m != "" {
			return m
		}
	}
	if _, ok := kids[kind]; !ok && named[kind] != "" {
		return ""
	}
	if _, ok := kids[kind]; ok {
		// walked in place
		for _, p := range e.content(s, st, t, kind) {
			if m := e.visited(s, st, tr, p.t, p.kind, d+1); m != "" {
				return m
			}
		}
		return ""
	}
	// a list: some loop goes through it
	why := fmt.Sprintf("%v is not walked", t)
	for _, ev := range tr {
		if ev.kind != "loop" {
			continue
		}
		isList := func(l *Term) bool { return l == t || spreads(l, t) }
		if m := s.sweeps(ev.loop, isList, st); m != "" {
			if !strings.HasPrefix(m, "no list") {
				why = m
			}
			continue
		}
		bad := ""
		for _, p := range ev.loop.parts {
			for _, b := range p.backs {
				el, ok := e.elemHere(s, ev.loop, p, b, isList)
				if !ok {
					bad = "the element of a round is not known"
					continue
				}
				for _, k := range e.kindsOf(kind) {
					var m string
					if _, ptr := el.typ.Underlying().(*types.Pointer); ptr {
						st2, ok := s.refine(b.st, []cond{not(eq(el, kNil()))})
						if !ok {
							continue
						}
						m = e.visited(s, st2, b.trace.events(), el, k, d+1)
					} else {
						m = e.asKind(s, b.st, b.trace.events(), el, k, d)
					}
					if m != "" {
						bad = m
					}
				}
			}
		}
		if bad == "" {
			return ""
		}
		why = bad
	}
	return why
}

// isThing: t, or the interface value that t is taken from.
func isThing(a, t *Term) bool {
	return a == t || t.op == OAssert && a == t.args[0]
}

// listed: the call has the list and the number of t in it as arguments.
func (e *extractor) listed(st *State, v *ssa.Function, ev *Event, t *Term) (lp, ip int) {
	if t.op == OAssert {
		t = t.args[0]
	}
	l, at := elemOf(st, t)
	if l == nil {
		return -1, -1
	}
	for i, a := range ev.args {
		if i >= len(v.Params) || st.norm(a) != l {
			continue
		}
		for k, b := range ev.args {
			if k < len(v.Params) && isInteger(v.Params[k].Type()) && st.norm(b) == at {
				return i, k
			}
		}
	}
	return -1, -1
}

// kindsOf: what a list can hold, as far as it matters for this rule.
func (e *extractor) kindsOf(kind string) []string {
	ks := kindsOf[kind]
	if e.naming && (kind == "args") {
		ks = append(append([]string{}, ks...), "IdentifierNode", "FieldNode", "VariableNode")
	}
	return ks
}

// same: a recursive call with the very same arguments gets nowhere.
func (e *extractor) same(s *Scen, st *State, ev *Event) bool {
	if ev.name != canon(s.fn) {
		return false
	}
	for i, a := range ev.args {
		if i < len(s.args) && st.norm(unface(a)) != st.norm(unface(s.args[i])) {
			return false
		}
	}
	return true
}

// asKind: if the interface value el is a node of this kind, it is walked.
func (e *extractor) asKind(s *Scen, st *State, tr []*Event, el *Term, k string, d int) string {
	pt := types.NewPointer(e.c.parseType(k))
	is := mk(Term{op: OTypeIs, args: []*Term{el}, typ: pt})
	ptr := mk(Term{op: OAssert, args: []*Term{el}, typ: pt})
	st2, ok := s.refine(st, []cond{{is, true}, {mkEq(ptr, kNil()), false}, {mkEq(el, kNil()), false}})
	if !ok {
		return ""
	}
	if m := e.visited(s, st2, tr, ptr, k, d+1); m != "" {
		if m2 := e.visited(s, st2, tr, el, k, d+1); m2 != "" {
			return fmt.Sprintf("a %s: %s", k, m)
		}
	}
	return ""
}

func spreads(l, t *Term) bool {
	if l.op != OAppend {
		return false
	}
	for _, i := range appendItems(l) {
		if i.op == OSpread && (i.args[0] == t) {
			return true
		}
	}
	return false
}

// elemHere: the element of the list that this round looks at.
func (e *extractor) elemHere(s *Scen, m *LoopMark, p *LoopPart, b *BackIter, isList func(*Term) bool) (*Term, bool) {
	var el *Term
	look := func(t *Term) {
		t.mentions(func(u *Term) bool {
			if el == nil {
				if l, i := elemOf(b.st, u); l != nil && isList(b.st.norm(l)) {
					for k, typ := range m.typs {
						if !isInteger(typ) || k >= len(m.inits) {
							continue
						}
						if init, ok := m.inits[k].intVal(); ok && b.st.norm(i) == mkAdd(p.phis[k], kInt(-init), tInt) {
							el = u
						}
					}
				}
			}
			return false
		})
	}
	b.st.facts.Each(func(id int, v bool) { look(terms[id-1]) })
	for _, ev := range b.trace.events() {
		for _, a := range ev.args {
			look(a)
		}
	}
	for _, ev := range b.trace.events() {
		if el == nil {
			el = byIndex(s, m, p, b, ev, isList)
		}
	}
	return el, el != nil && el.typ != nil
}

// byIndex: the call is handed the list and the number of this round's element.
func byIndex(s *Scen, m *LoopMark, p *LoopPart, b *BackIter, ev *Event, isList func(*Term) bool) *Term {
	if ev.kind != "call" && ev.kind != "rec" {
		return nil
	}
	for _, l := range ev.args {
		l = b.st.norm(l)
		if l.typ == nil || !isList(l) {
			continue
		}
		sl, ok := l.typ.Underlying().(*types.Slice)
		if !ok {
			continue
		}
		for _, i := range ev.args {
			for k, typ := range m.typs {
				if !isInteger(typ) || k >= len(m.inits) {
					continue
				}
				if init, ok := m.inits[k].intVal(); ok && b.st.norm(i) == mkAdd(p.phis[k], kInt(-init), tInt) {
					return s.x.load(b.st, mkIndexAddr(l, i, sl.Elem()), sl.Elem())
				}
			}
		}
	}
	return nil
}

// walk analyses one visitor for one kind of thing.
func (e *extractor) walk(j visitJob) {
	c := e.c
	f := j.f
	var arg *Term
	sym := func(name, kind string) *Term { return kSym(name, types.NewPointer(c.parseType(kind))) }
	ptyp := f.Params[j.p].Type()
	kind := j.kind
	_, isStruct := kids[kind]
	switch {
	case isStruct && types.IsInterface(ptyp):
		n := sym("node", kind)
		arg = mkIface(n.typ, n)
	case isStruct:
		arg = sym("node", kind)
	default:
		arg = kSym("list", ptyp)
	}
	args := make([]*Term, len(f.Params))
	args[j.p] = arg
	_, isName := named[kind]
	if isName && !isStruct && j.at < 0 {
		if types.IsInterface(ptyp) {
			arg = mkIface(types.NewPointer(c.parseType(kind)), sym("node", kind))
		} else {
			arg = sym("node", kind)
		}
		args[j.p] = arg
	}
	st := c.w.newState()
	if j.at >= 0 {
		arg = kSym("list", ptyp)
		args[j.p], args[j.at] = arg, kSym("index", f.Params[j.at].Type())
		if j.el >= 0 {
			et := ptyp.Underlying().(*types.Slice).Elem()
			args[j.el] = newExec(c.w).load(st, mkIndexAddr(arg, args[j.at], et), et)
			if ps := f.Params[j.el].Type(); types.IsInterface(et) && !types.IsInterface(ps) {
				args[j.el] = mk(Term{op: OAssert, args: []*Term{args[j.el]}, typ: ps})
			}
		}
	}
	others := map[*ssa.Function]bool{}
	for v := range e.visitors {
		if v != f {
			others[v] = true
		}
	}
	s := c.run(f, scenOpt{name: fnName(f) + " of " + kind, st: st, args: args, setup: e.still, opaque: names(others, e.matchers, e.printers, e.adders), pure: names(e.literals), pre: func(x *Exec, st *State, args []*Term) {
		e.ready(f)(x, st, args)
		if j.at >= 0 {
			x.assume(st, mkLt(args[j.at], kInt(0), tInt), false)
			x.assume(st, mkLt(args[j.at], mkLen(arg), tInt), true)
			return
		}
		if isStruct || isName {
			x.assume(st, mkEq(unface(arg), kNil()), false)
		}
	}})
	if s == nil {
		return
	}
	what := fnName(f) + ": every part of a " + kind + " is looked at"
	if e.naming {
		what = fnName(f) + ": the keywords are asked about what a " + kind + " calls"
	}
	n := 0
	for i := range s.outs {
		o := &s.outs[i]
		if o.kind != oRet {
			c.fail("walk", what, f.Pos(), "a path panics or ends the program")
			continue
		}
		n++
		var m string
		t := unface(arg)
		if j.at >= 0 {
			t = s.x.load(s.st0, mkIndexAddr(arg, args[j.at], arg.typ.Underlying().(*types.Slice).Elem()), arg.typ.Underlying().(*types.Slice).Elem())
		}
		if j.at >= 0 && types.IsInterface(t.typ) {
			m = e.asKind(s, o.st, o.st.trace.events(), t, kind, 1)
		} else {
			m = e.visited(s, o.st, o.st.trace.events(), t, kind, 1)
		}
		c.assert(m == "", "walk", what, f.Pos(), "%s", m)
	}
	if n == 0 {
		c.fail("walk", what, f.Pos(), "never returns")
	}
	e.base = s
}

func ruleTraverse(c *Check) {
	e := newExtractor(c)
	if e == nil {
		return
	}
	e.files()
	e.unchanged()
	for len(e.todo) > 0 {
		j := e.todo[0]
		e.todo = e.todo[1:]
		e.walk(j)
	}
}

// files: every file that matches is read and parsed, and every template in it
// is walked.
func (e *extractor) files() {
	c := e.c
	run := c.fn(toolPkg, "Run")
	if run == nil {
		return
	}
	opaque := append(names(e.visitors, e.printers, e.adders), toolPath+".ParseKeywords", saveAsPot, "(*"+modPath+"/translator.File).AddEntry")
	for _, f := range c.exported("") {
		opaque = append(opaque, canon(f))
	}
	s := c.run(run, scenOpt{opaque: opaque, pre: e.ready(run), setup: both(nonNilGlobal(c), func(x *Exec) {
		x.partCounts = true
		e.still(x)
		x.models["os.OpenFile"] = openModel(c)
		x.models["os.Create"] = openModel(c)
	})})
	if s == nil {
		return
	}
	x := s.x
	param := c.w.typ(toolPkg, "Param")
	in := s.at(s.st0, s.args[0], param, c.field(param, "Input", ""))
	left := s.at(s.st0, s.args[0], param, c.field(param, "Left", ""))
	right := s.at(s.st0, s.args[0], param, c.field(param, "Right", ""))
	pos := run.Pos()
	found := 0
	for i := range s.outs {
		o := &s.outs[i]
		if o.kind != oRet {
			continue
		}
		ok, good := s.refine(o.st, []cond{is(eq(o.res, kNil()))})
		if !good || s.listedError(o) {
			continue
		}
		var glob *Event
		for _, ev := range ok.trace.events() {
			if ev.kind == "call" && ev.name == "path/filepath.Glob" {
				glob = ev
			}
		}
		if glob == nil || !s.same(ok, glob.args[0], in) {
			c.fail("files", "the files are those that match the pattern", pos, "the pattern is not looked up")
			continue
		}
		c.ok("files", "the files are those that match the pattern", glob.pos)
		list := extractOf(glob.res[0], 0)
		isList := func(l *Term) bool { return l == list || l == ok.norm(list) }
		why := "no loop goes through the files"
		for _, ev := range ok.trace.events() {
			if ev.kind != "loop" {
				continue
			}
			if m := s.sweeps(ev.loop, isList, ok); m != "" {
				if !strings.HasPrefix(m, "no list") {
					why = m
				}
				continue
			}
			why = ""
			for _, p := range ev.loop.parts {
				for _, b := range p.backs {
					el, okEl := e.elemHere(s, ev.loop, p, b, isList)
					if !okEl {
						why = "the file of a round is not known"
						continue
					}
					if m := e.oneFile(s, ok, ev, b, el, left, right); m != "" {
						why = m
					} else {
						found++
					}
				}
			}
			break
		}
		c.assert(why == "", "files", "every template of every file is walked", pos, "%s", why)
	}
	c.assert(found > 0, "files", "every template of every file is walked", pos, "no file is ever walked")
	_ = x
}

// oneFile: in this round the file is read, its whole text parsed and every
// template walked, unless the run fails.
func (e *extractor) oneFile(s *Scen, end *State, lev *Event, b *BackIter, el, left, right *Term) string {
	x := s.x
	// a round from which success cannot be reached does not matter
	reach := false
	for _, h := range (&Trace{nil, lev}).before(end) {
		if h.st == b.st {
			reach = true
		}
	}
	if !reach {
		return ""
	}
	for _, ev := range b.trace.events() {
		if canFail(ev) && x.nonNil(b.st, errorOf(ev)) {
			return "a file for which " + ev.name + " fails is passed over, and the run may still succeed"
		}
	}
	var read, parse, list *Event
	for _, ev := range b.trace.events() {
		switch {
		case ev.kind != "call":
		case ev.name == "os.ReadFile" && s.same(b.st, ev.args[0], el):
			read = ev
		case strings.HasSuffix(ev.name, "/template.Template).Parse"):
			parse = ev
		case strings.HasSuffix(ev.name, "/template.Template).Templates"):
			list = ev
		}
	}
	if read == nil {
		return "a file that matches is not read"
	}
	text := extractOf(read.res[0], 0)
	if parse == nil || unconv(b.st.norm(parse.args[1])) != b.st.norm(text) {
		return "the text of a file is not parsed as a whole"
	}
	delims := false
	parse.args[0].mentions(func(u *Term) bool {
		if (u.op == OICall || u.op == OCall) && strings.HasSuffix(callName(u), "/template.Template).Delims") && s.same(b.st, u.args[1], left) && s.same(b.st, u.args[2], right) {
			delims = true
		}
		return delims
	})
	if !delims {
		return "the text of a file is not parsed with the given delimiters"
	}
	if list == nil || !s.same(b.st, list.args[0], parse.args[0]) && !s.same(b.st, list.args[0], extractOf(parse.res[0], 0)) {
		return "the templates of a file are not listed"
	}
	all := b.st.norm(list.res[0])
	isList := func(l *Term) bool { return l == all || l == list.res[0] }
	why := "no loop goes through the templates of a file"
	for _, ev := range b.trace.events() {
		if ev.kind != "loop" {
			continue
		}
		if m := s.sweeps(ev.loop, isList, b.st); m != "" {
			if !strings.HasPrefix(m, "no list") {
				why = m
			}
			continue
		}
		why = ""
		for _, p := range ev.loop.parts {
			for _, bb := range p.backs {
				t, ok := e.elemHere(s, ev.loop, p, bb, isList)
				if !ok {
					why = "the template of a round is not known"
					continue
				}
				if m := e.tree(s, bb, t); m != "" {
					why = m
				}
			}
		}
		break
	}
	return why
}

// tree: the root of the template is walked if there is one.
func (e *extractor) tree(s *Scen, b *BackIter, t *Term) string {
	pt, ok := t.typ.Underlying().(*types.Pointer)
	if !ok {
		return "the templates are of another type"
	}
	sct := pt.Elem().Underlying().(*types.Struct)
	for i := 0; i < sct.NumFields(); i++ {
		if sct.Field(i).Name() != "Tree" {
			continue
		}
		tree := s.at(b.st, t, pt.Elem(), i)
		if s.x.isNilKnown(b.st, tree) || s.x.isNilKnown(b.st, t) {
			return ""
		}
		tt := tree.typ.Underlying().(*types.Pointer).Elem()
		tst := tt.Underlying().(*types.Struct)
		for k := 0; k < tst.NumFields(); k++ {
			if tst.Field(k).Name() == "Root" {
				root := s.at(b.st, tree, tt, k)
				return e.visited(s, b.st, b.trace.events(), root, "ListNode", 0)
			}
		}
	}
	return "the root of a template is not found"
}

// named: the nodes that name a function, and the field with the name or names
// (of which the last counts).
var named = map[string]string{"IdentifierNode": "Ident", "FieldNode": "Ident", "VariableNode": "Ident", "ChainNode": "Field"}

// asked: a matcher is asked about the name of the node ptr, with its place in
// the list of arguments.
func (e *extractor) asked(s *Scen, st *State, tr []*Event, ptr *Term, kind string) string {
	typ := e.c.parseType(kind)
	fld := e.c.field(typ, named[kind], "")
	name := s.at(st, ptr, typ, fld)
	if !isString(name.typ) {
		some, ok := s.refine(st, []cond{not(mkLt(mkLen(name), kInt(1), tInt))})
		if !ok {
			return "" // no name
		}
		st = some
	}
	// the name as it is when the matcher is called
	nameIn := func(st *State) *Term {
		name := s.at(st, ptr, typ, fld)
		if !isString(name.typ) {
			name = s.x.load(st, mkIndexAddr(name, mkSub(mkLen(name), kInt(1), tInt), tStr), tStr)
		}
		return name
	}
	node := ptr
	if node.op == OAssert {
		node = node.args[0]
	}
	list, idx := elemOf(st, st.norm(node))
	for _, ev := range tr {
		if ev.kind != "call" {
			continue
		}
		for m := range e.matchers {
			if canon(m) != ev.name {
				continue
			}
			r := &matcherRole{-1, -1, -1}
			slice := false
			for i, a := range ev.args {
				if i >= len(m.Params) {
					continue
				}
				a = st.norm(a)
				switch {
				case isString(m.Params[i].Type()) && (s.same(st, a, nameIn(st)) || ev.st != nil && s.same(st, a, nameIn(ev.st))):
					r.name = i
				case list != nil && a == list:
					r.list = i
				case list != nil && a.op == OSlice && st.norm(a.args[0]) == list && s.same(st, a.args[1], idx):
					r.list, slice = i, true
				case idx != nil && isInteger(m.Params[i].Type()) && s.same(st, a, idx):
					r.idx = i
				}
			}
			if r.name < 0 {
				continue
			}
			if list == nil {
				return "the place of the name among the arguments is not known"
			}
			if r.list < 0 || !slice && r.idx < 0 {
				return fmt.Sprintf("the keywords are compared at another place than %v", idx)
			}
			if slice {
				r.idx = -1
			}
			if o := e.roles[m]; o != nil && *o != *r {
				return "the matcher is asked in different ways"
			}
			e.roles[m] = r
			return e.piped(s, st, ev, list)
		}
	}
	return fmt.Sprintf("no keyword is compared with the name of %v", ptr)
}

// piped: the arguments are those of the command, followed by the literal that is
// piped into it if there is one.
func (e *extractor) piped(s *Scen, st *State, ev *Event, list *Term) string {
	x := s.x
	cmdT := e.c.parseType("CommandNode")
	argsOf := e.c.field(cmdT, "Args", "")
	own, extra := list, []*Term(nil)
	if list.op == OAppend {
		its := appendItems(list)
		for len(its) > 1 && its[0].op == OSpread && x.proveLE(st, mkLen(its[0].args[0]), kInt(0), 0) {
			its = its[1:]
		}
		if its[0].op != OSpread {
			return "something stands before the arguments of the command"
		}
		own, extra = st.norm(its[0].args[0]), its[1:]
	}
	// the command is an element of a list of commands
	if own.op != OInit || own.args[0].op != OField || own.args[0].i != argsOf {
		return fmt.Sprintf("the keywords are compared with other arguments than the command's: %v", list)
	}
	cmds, i := elemOf(st, own.args[0].args[0])
	if cmds == nil {
		return "" // where the command comes from is not known here
	}
	pt := types.NewPointer(cmdT)
	var lit *ssa.Function
	for f := range e.literals {
		if len(f.Params) == 1 {
			lit = f
		}
	}
	if lit == nil {
		return "no function reads the text of a literal"
	}
	prev := x.load(s.st0, mkIndexAddr(cmds, mkSub(i, kInt(1), tInt), pt), pt)
	pargs := s.at(s.st0, prev, cmdT, argsOf)
	node := pargs.typ.Underlying().(*types.Slice).Elem()
	first := x.load(s.st0, mkIndexAddr(pargs, kInt(0), node), node)
	isLit := mkExtract(mkCall(canon(lit), lit.Signature.Results(), first), 1, tBool)
	conds := []cond{not(mkLt(i, kInt(1), tInt)), not(mkEq(prev, kNil())), is(mkEq(mkLen(pargs), kInt(1))), is(isLit)}
	switch len(extra) {
	case 0:
		if _, may := s.refine(st, append(conds, not(mkEq(first, kNil())))); may {
			return "a literal that is piped into a command is not counted as its last argument"
		}
	case 1:
		if st.norm(extra[0]) != st.norm(first) {
			return fmt.Sprintf("%v is taken for the piped argument", extra[0])
		}
		for _, c := range conds {
			if _, may := s.refine(st, []cond{{c.t, !c.v}}); may {
				return "an argument is added that is not the literal piped into the command"
			}
		}
	default:
		return "several arguments are added"
	}
	return ""
}

func ruleExtract(c *Check) {
	e := newExtractor(c)
	if e == nil {
		return
	}
	e.naming = true
	e.unchanged()
	for _, f := range e.fns {
		// everything a walker of commands can be handed
		if !e.visitors[f] {
			continue
		}
		for i, p := range f.Params {
			if p.Type().String() == "[]*"+parsePkg+".CommandNode" {
				e.want(f, i, "cmds", -1, -1)
			}
		}
	}
	if len(e.todo) == 0 {
		c.fail("anchor", "extractor: commands", 0, "no function walks the commands of a pipe")
	}
	for len(e.todo) > 0 {
		j := e.todo[0]
		e.todo = e.todo[1:]
		_, st := kids[j.kind]
		if st && named[j.kind] == "" && j.kind != "CommandNode" {
			continue // P28
		}
		e.walk(j)
	}
	for _, m := range sortedFns(e.matchers) {
		e.match(m)
	}
	e.places()
	e.literal()
	e.keywords()
}

// keywords: what the walk compares names with are the keywords that were
// given, all of them and as they were parsed.
func (e *extractor) keywords() {
	c := e.c
	run := c.fn(toolPkg, "Run")
	ctxT, param := c.w.typ(toolPkg, "Context"), c.w.typ(toolPkg, "Param")
	if run == nil || ctxT == nil || param == nil {
		return
	}
	const what = "the keywords compared with are those given"
	fails := toolPath + ".ParseKeywords"
	opaque := append(names(e.visitors, e.printers, e.adders), fails, saveAsPot, "(*"+modPath+"/translator.File).AddEntry")
	for _, f := range c.exported("") {
		opaque = append(opaque, canon(f))
	}
	s := c.run(run, scenOpt{opaque: opaque, pre: e.ready(run), setup: both(nonNilGlobal(c), func(x *Exec) {
		e.still(x)
		x.models["os.OpenFile"] = openModel(c)
		x.models["os.Create"] = openModel(c)
	})})
	if s == nil {
		return
	}
	given := s.at(s.st0, s.args[0], param, c.field(param, "Keyword", ""))
	isVisit := map[string]bool{}
	for _, n := range names(e.visitors) {
		isVisit[n] = true
	}
	found, why := 0, ""
	seen := map[*Trace]bool{}
	var scan func(tr *Trace, parse *Event)
	scan = func(tr *Trace, parse *Event) {
		if tr == nil || seen[tr] {
			return
		}
		seen[tr] = true
		for _, ev := range tr.events() {
			switch {
			case ev.kind == "loop":
				for _, p := range ev.loop.parts {
					for _, b := range p.backs {
						scan(b.trace, parse)
					}
				}
			case ev.kind != "call":
			case ev.name == fails:
				parse = ev
			case isVisit[ev.name] && ev.st != nil:
				for _, a := range ev.args {
					if !types.Identical(a.typ, types.NewPointer(ctxT)) {
						continue
					}
					found++
					switch {
					case parse == nil:
						why = "no keywords were parsed before the walk"
					case !s.same(ev.st, parse.args[0], given):
						why = "what is parsed is not the list of keywords given"
					default:
						keys := s.at(ev.st, a, ctxT, c.field(ctxT, "Keywords", ""))
						if ev.st.norm(keys) != ev.st.norm(extractOf(parse.res[0], 0)) {
							why = fmt.Sprintf("%v is compared with, not the list parsed", keys)
						}
					}
				}
			}
		}
	}
	for i := range s.outs {
		scan(s.outs[i].st.trace, nil)
	}
	c.assert(found > 0 && why == "", "match", what, run.Pos(), "%s", why)
}

// match: what a matcher does with the name, the list of arguments and the place
// of the name in it that it is handed.
func (e *extractor) match(m *ssa.Function) {
	c := e.c
	r := e.roles[m]
	if r == nil {
		return // nobody asks it
	}
	kw := c.w.typ(toolPkg, "Keyword")
	ctxT := c.w.typ(toolPkg, "Context")
	entryT := c.w.typ("translator", "Entry")
	if kw == nil || ctxT == nil || entryT == nil {
		c.fail("anchor", "keyword matcher", m.Pos(), "the keyword, context or entry type is gone")
		return
	}
	var lit *ssa.Function
	for f := range e.literals {
		if len(f.Params) == 1 {
			if lit != nil && f != lit && e.calls[f][lit] {
				lit = f
			} else if lit == nil {
				lit = f
			}
		}
	}
	s := c.run(m, scenOpt{setup: e.still, opaque: names(e.printers, e.adders), pure: names(e.literals), pre: func(x *Exec, st *State, args []*Term) {
		e.ready(m)(x, st, args)
		if r.idx >= 0 {
			x.assume(st, mkLt(args[r.idx], kInt(0), tInt), false)
			x.assume(st, mkLt(args[r.idx], mkLen(args[r.list]), tInt), true)
		} else {
			x.assume(st, mkLt(mkLen(args[r.list]), kInt(1), tInt), false)
		}
	}})
	if s == nil {
		return
	}
	x := s.x
	what := fnName(m)
	pos := m.Pos()
	ctx := -1
	for i, p := range m.Params {
		if types.Identical(p.Type(), types.NewPointer(ctxT)) {
			ctx = i
		}
	}
	if ctx < 0 || lit == nil {
		c.fail("match", what+": all keywords are tried", pos, "the keywords or the reader of literals are not found")
		return
	}
	keys := s.at(s.st0, s.args[ctx], ctxT, c.field(ctxT, "Keywords", ""))
	list, name := s.args[r.list], s.args[r.name]
	at := kInt(0)
	if r.idx >= 0 {
		at = s.args[r.idx]
	}
	node := list.typ.Underlying().(*types.Slice).Elem()
	fld := func(n string) int { return c.field(kw, n, "") }
	posOf := []int{fld("MsgCtxt"), fld("MsgID"), fld("MsgID2")}
	litOf := func(st *State, p *Term) *Term {
		return mkCall(canon(lit), lit.Signature.Results(), x.load(st, mkIndexAddr(list, mkAdd(at, p, tInt), node), node))
	}
	// want: the keyword at k matches here; used says which positions are declared
	want := func(st *State, k *Term, used []bool) []cond {
		cs := []cond{is(mkEq(s.at(st, k, kw, fld("Name")), name))}
		var texts [3]*Term
		for i, f := range posOf {
			p := s.at(st, k, kw, f)
			if !used[i] {
				texts[i] = kStr("")
				cs = append(cs, not(mkLt(kInt(0), p, tInt)))
				continue
			}
			l := litOf(s.st0, p)
			texts[i] = mkExtract(l, 0, tStr)
			cs = append(cs, is(mkLt(kInt(0), p, tInt)), is(mkLt(p, mkSub(mkLen(list), at, tInt), tInt)), is(mkExtract(l, 1, tBool)))
		}
		return cs
	}
	header := func(st *State, k *Term, used []bool) (c, id *Term) {
		c, id = kStr(""), kStr("")
		if used[0] {
			c = mkExtract(litOf(s.st0, s.at(st, k, kw, posOf[0])), 0, tStr)
		}
		if used[1] {
			id = mkExtract(litOf(s.st0, s.at(st, k, kw, posOf[1])), 0, tStr)
		}
		return
	}
	isList := func(l *Term) bool { return l == keys || l == s.st0.norm(keys) }
	adds := func(tr *Trace) []*Event {
		var out []*Event
		for _, ev := range tr.events() {
			if ev.kind == "call" {
				for a := range e.adders {
					if canon(a) == ev.name {
						out = append(out, ev)
					}
				}
			}
		}
		return out
	}
	rounds := map[*BackIter]bool{}
	s.each("match", what+": all keywords are tried", func(o *callOut) string {
		why := "no loop goes through the keywords"
		for _, ev := range o.st.trace.events() {
			if ev.kind != "loop" {
				continue
			}
			if w := s.sweeps(ev.loop, isList, o.st); w != "" {
				if !strings.HasPrefix(w, "no list") {
					why = w
				}
				continue
			}
			why = ""
			for _, p := range ev.loop.parts {
				for _, b := range p.backs {
					el, ok := e.elemAddr(s, ev.loop, p, b, isList)
					if !ok {
						why = "the keyword of a round is not known"
						continue
					}
					if rounds[b] {
						continue
					}
					rounds[b] = true
					e.round(s, b, el, kw, entryT, want, header, adds(b.trace), name, r)
				}
			}
			break
		}
		if why != "" && len(adds(o.st.trace)) == 0 {
			// no keyword can match on this path
			k := mkIndexAddr(keys, x.freshSym(nil, o.st, nil, "any", tInt), kw)
			for u := 0; u < 8; u++ {
				used := []bool{u&1 != 0, u&2 != 0, u&4 != 0}
				if _, ok := s.refine(o.st, want(o.st, k, used)); ok && used[1] {
					return why
				}
			}
			why = ""
		}
		return why
	})
}

// elemAddr: the address of the element that this round looks at.
func (e *extractor) elemAddr(s *Scen, m *LoopMark, p *LoopPart, b *BackIter, isList func(*Term) bool) (*Term, bool) {
	for k, typ := range m.typs {
		if !isInteger(typ) || k >= len(m.inits) {
			continue
		}
		init, ok := m.inits[k].intVal()
		if !ok || k >= len(b.phis) || b.st.norm(b.phis[k]) != mkAdd(p.phis[k], kInt(1), tInt) {
			continue
		}
		want := mkAdd(p.phis[k], kInt(-init), tInt)
		var addr *Term
		look := func(t *Term) {
			t.mentions(func(u *Term) bool {
				if l, i := indexOf(b.st, u); l != nil && isList(l) && i == want {
					addr = u
				}
				return false
			})
		}
		b.st.facts.Each(func(id int, v bool) { look(terms[id-1]) })
		for _, ev := range b.trace.events() {
			for _, a := range ev.args {
				look(a)
			}
		}
		if addr != nil {
			return addr, true
		}
	}
	return nil, false
}

// round: an entry is recorded if and only if the keyword at k matches, with the
// texts at the declared positions.
func (e *extractor) round(s *Scen, b *BackIter, k *Term, kw, entryT types.Type, want func(*State, *Term, []bool) []cond, header func(*State, *Term, []bool) (*Term, *Term), adds []*Event, name *Term, r *matcherRole) {
	c, x := e.c, s.x
	what := fnName(s.fn)
	pos := s.fn.Pos()
	if len(adds) > 1 {
		c.fail("match", what+": one match, one entry", pos, "a round records two entries")
		return
	}
	var at []*Term
	for _, n := range []string{"MsgCtxt", "MsgID", "MsgID2"} {
		at = append(at, s.at(b.st, k, kw, c.field(kw, n, "")))
	}
	for u := 0; u < 8; u++ {
		used := []bool{u&1 != 0, u&2 != 0, u&4 != 0}
		// the declared positions
		var decl []cond
		for i, p := range at {
			decl = append(decl, cond{mkLt(kInt(0), p, tInt), used[i]})
		}
		st, ok := s.refine(b.st, decl)
		if !ok {
			continue
		}
		// positions known to be the same hold the same literal
		one := func(t *Term) *Term {
			return subst(t, func(u *Term) *Term {
				for i, p := range at {
					if u == p {
						for _, q := range at[:i] {
							if v, k := x.truth(st, mkEq(p, q)); k && v {
								return q
							}
						}
					}
				}
				return nil
			})
		}
		ctxt, id := header(b.st, k, used)
		all := want(b.st, k, used)
		b.st.facts.Each(func(id int, v bool) {
			if t := terms[id-1]; ok && one(t) != t && !x.assume(st, one(t), v) {
				ok = false
			}
		})
		if !ok {
			continue
		}
		ctxt, id = one(ctxt), one(id)
		for i := range all {
			all[i].t = one(all[i].t)
		}
		if len(adds) == 0 {
			// nothing recorded: then it does not match
			if !used[1] {
				continue
			}
			for _, none := range [][]cond{{not(mkEq(id, kStr("")))}, {is(mkEq(id, kStr(""))), not(mkEq(ctxt, kStr("")))}} {
				_, may := s.refine(st, append(append([]cond{}, all...), none...))
				c.assert(!may, "match", what+": a match is recorded", pos, "nothing is recorded on a path where the keyword matches (context used: %v, plural used: %v)", used[0], used[2])
			}
			continue
		}
		ev := adds[0]
		c.assert(used[1], "match", what+": only a match is recorded", ev.pos, "an entry is recorded for a keyword without a position of the id")
		for _, w := range all {
			_, may := s.refine(st, []cond{{w.t, !w.v}})
			c.assert(!may, "match", what+": only a match is recorded", ev.pos, "an entry is recorded although %v may not be %v", w.t, w.v)
		}
		if _, may := s.refine(st, []cond{is(mkEq(ctxt, kStr(""))), is(mkEq(id, kStr("")))}); may {
			c.fail("match", what+": no entry takes the key of the header", ev.pos, "an entry with an empty id and no context is recorded")
		} else {
			c.ok("match", what+": no entry takes the key of the header", ev.pos)
		}
		var en *Term
		for _, a := range ev.args {
			if a = st.norm(a); a.typ != nil && types.Identical(a.typ, types.NewPointer(entryT)) || baseIsEntry(a, entryT) {
				en = a
			}
		}
		if en == nil || ev.st == nil {
			c.fail("match", what+": the entry holds the texts", ev.pos, "the entry recorded is not known")
			continue
		}
		texts := map[string]*Term{"MsgCtxt": ctxt, "MsgID": id, "MsgID2": kStr("")}
		if used[2] {
			l := all[len(all)-1].t // the literal of the plural
			texts["MsgID2"] = mkExtract(l.args[0], 0, tStr)
		}
		for _, f := range []string{"MsgCtxt", "MsgID", "MsgID2"} {
			got := s.at(ev.st, en, entryT, c.field(entryT, f, ""))
			c.assert(s.same(st, one(st.norm(got)), one(texts[f])), "match", what+": the entry holds the texts at the declared positions", ev.pos, "%s is %v, it should be %v", f, got, texts[f])
		}
		pl := st.norm(s.at(ev.st, en, entryT, c.field(entryT, "IsPlural", "")))
		v, known := x.truth(st, pl)
		c.assert(known && v == used[2], "match", what+": an entry is plural iff a plural position is declared", ev.pos, "IsPlural is %v", pl)
		cm := st.norm(s.at(ev.st, en, entryT, c.field(entryT, "MsgCmts", "")))
		named := false
		for _, it := range x.items(ev.st, cm) {
			named = named || e.reference(s, st, ev, it)
		}
		c.assert(named, "match", what+": the entry names its place in the source", ev.pos, "the comments are %v", cm)
	}
}

// items lists what a slice is known to hold; what is not known stays a spread.
func (x *Exec) items(st *State, l *Term) []*Term {
	var out []*Term
	for _, it := range appendItems(l) {
		if it.op == OSpread {
			if el, ok := x.elems(st, it.args[0]); ok {
				out = append(out, el...)
				continue
			}
		}
		out = append(out, it)
	}
	return out
}

func baseIsEntry(a *Term, entryT types.Type) bool {
	return a.op == OAlloc && a.typ != nil && types.Identical(a.typ, entryT)
}

// literal: strings, also in parentheses, are literals with their text; nothing
// else is.
func (e *extractor) literal() {
	c := e.c
	for _, f := range sortedFns(e.literals) {
		if len(f.Params) != 1 || !types.IsInterface(f.Params[0].Type()) {
			continue
		}
		what := fnName(f)
		run := func(kind string, arg *Term, pre func(x *Exec, st *State)) *Scen {
			return c.run(f, scenOpt{name: what + " of " + kind, setup: e.still, args: []*Term{arg}, pure: names(e.literals), opaque: names(e.printers), pre: func(x *Exec, st *State, args []*Term) {
				if pre != nil {
					pre(x, st)
				}
			}})
		}
		ptr := func(kind string) (*Term, *Term) {
			t := kSym("node", types.NewPointer(c.parseType(kind)))
			return t, mkIface(t.typ, t)
		}
		str, arg := ptr("StringNode")
		s := run("a string", arg, func(x *Exec, st *State) { x.assume(st, mkEq(str, kNil()), false) })
		s.each("literal", what+": a string is its text", func(o *callOut) string {
			typ := c.parseType("StringNode")
			text := s.at(o.st, str, typ, c.field(typ, "Text", ""))
			if v, known := s.x.truth(o.st, extractOf(o.res, 1)); !known || !v {
				return "a string does not count as a literal"
			}
			if got := extractOf(o.res, 0); !s.same(o.st, got, text) {
				return fmt.Sprintf("its text is %v", got)
			}
			return ""
		})
		pipe, parg := ptr("PipeNode")
		p := run("a pipe", parg, func(x *Exec, st *State) { x.assume(st, mkEq(pipe, kNil()), false) })
		p.each("literal", what+": parentheses around a literal do not matter, any other pipe is no literal", func(o *callOut) string {
			x := p.x
			pt, ct := c.parseType("PipeNode"), c.parseType("CommandNode")
			cmds := p.at(p.st0, pipe, pt, c.field(pt, "Cmds", ""))
			cmd := x.load(p.st0, mkIndexAddr(cmds, kInt(0), types.NewPointer(ct)), types.NewPointer(ct))
			args := p.at(p.st0, cmd, ct, c.field(ct, "Args", ""))
			node := args.typ.Underlying().(*types.Slice).Elem()
			inner := mkCall(canon(f), f.Signature.Results(), x.load(p.st0, mkIndexAddr(args, kInt(0), node), node))
			one := []cond{is(mkEq(mkLen(cmds), kInt(1))), not(mkEq(cmd, kNil())), is(mkEq(mkLen(args), kInt(1)))}
			ok := extractOf(o.res, 1)
			// on this path it is such a pipe, or it is none
			if st, may := p.refine(o.st, one); may {
				if !p.same(st, ok, mkExtract(inner, 1, tBool)) {
					return fmt.Sprintf("a literal in parentheses is a literal: %v", ok)
				}
				if v, known := x.truth(st, mkExtract(inner, 1, tBool)); (!known || v) && !p.same(st, extractOf(o.res, 0), mkExtract(inner, 0, tStr)) {
					return fmt.Sprintf("the text in parentheses is %v", extractOf(o.res, 0))
				}
			}
			for _, w := range one {
				if st, may := p.refine(o.st, []cond{{w.t, !w.v}}); may {
					if v, known := x.truth(st, ok); !known || v {
						return "a pipe of several commands or arguments counts as a literal"
					}
				}
			}
			return ""
		})
		any := kSym("node", f.Params[0].Type())
		a := run("another node", any, func(x *Exec, st *State) {
			for _, k := range []string{"StringNode", "PipeNode"} {
				x.assume(st, mk(Term{op: OTypeIs, args: []*Term{any}, typ: types.NewPointer(c.parseType(k))}), false)
			}
		})
		a.each("literal", what+": nothing else is a literal", func(o *callOut) string {
			if v, known := a.x.truth(o.st, extractOf(o.res, 1)); !known || v {
				return "a node that is no string counts as a literal"
			}
			return ""
		})
	}
}

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sortFns(out)
	return out
}
