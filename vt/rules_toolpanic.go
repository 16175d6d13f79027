package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- P42: the extraction tool does not panic ----

func init() {
	register(&Rule{id: "P42", min: 40, run: ruleToolPanics,
		rule:   "Every run-time-panic site (nil pointer, index, type assertion, nil map, division, explicit panic) reachable from the tool's Run is an obligation for the interval/difference-bound and nullness domains. Functions that walk parse trees recursively are analysed by themselves under a precondition inferred for their parameters (not nil; an index inside a list), which must hold at every call. Names registered as template functions must be identifiers: known from a pattern whose language is contained in that of identifiers, or taken from a table of such names.",
		assume: []string{"trees built by the template parser hold no nil nodes in their lists; nested calls of a template are not so deep that the stack is exhausted"}})
}

// toolPre is one precondition of a function that is analysed by itself.
type toolPre struct {
	kind string // nonnil, base, range, from0
	p, q int    // parameter; list, or embedded field
}

type toolMod struct {
	c    *Check
	e    *extractor
	pre  map[*ssa.Function]map[toolPre]bool
	funs map[string]*ssa.Function
}

func (m *toolMod) candidates(f *ssa.Function) map[toolPre]bool {
	out := map[toolPre]bool{}
	for i, p := range f.Params {
		switch t := p.Type().Underlying().(type) {
		case *types.Pointer:
			out[toolPre{"nonnil", i, -1}] = true
			if sct, ok := t.Elem().Underlying().(*types.Struct); ok && !isParse(p.Type()) {
				for k := 0; k < sct.NumFields(); k++ {
					_, ptr := sct.Field(k).Type().Underlying().(*types.Pointer)
					_, mp := sct.Field(k).Type().Underlying().(*types.Map)
					if ptr && sct.Field(k).Embedded() || mp {
						out[toolPre{"base", i, k}] = true
					}
				}
			}
		case *types.Interface:
			out[toolPre{"nonnil", i, -1}] = true
		case *types.Map:
			out[toolPre{"nonnil", i, -1}] = true
		case *types.Slice:
			for j, q := range f.Params {
				if isInteger(q.Type()) {
					out[toolPre{"range", j, i}] = true
				}
			}
			out[toolPre{"some", i, -1}] = true
		default:
			if isInteger(p.Type()) {
				out[toolPre{"from0", i, -1}] = true
			}
		}
	}
	return out
}

func (m *toolMod) assume(f *ssa.Function) func(x *Exec, st *State, args []*Term) {
	return func(x *Exec, st *State, args []*Term) {
		for _, c := range sortedPre(m.pre[f]) {
			for _, cd := range m.terms(x, st, f, c, args) {
				x.assume(st, cd.t, cd.v)
			}
		}
	}
}

// terms states the precondition of arguments.
func (m *toolMod) terms(x *Exec, st *State, f *ssa.Function, c toolPre, args []*Term) []cond {
	if c.p >= len(args) || c.q >= len(args) && c.kind == "range" {
		return []cond{is(kBool(false))}
	}
	switch c.kind {
	case "nonnil":
		return []cond{not(mkEq(args[c.p], kNil()))}
	case "base":
		el := derefT(f.Params[c.p].Type())
		ft := el.Underlying().(*types.Struct).Field(c.q).Type()
		return []cond{not(mkEq(x.load(st, mkField(args[c.p], el, c.q), ft), kNil()))}
	case "range":
		return []cond{is(mkLt(args[c.p], mkLen(args[c.q]), tInt))}
	case "from0":
		return []cond{not(mkLt(args[c.p], kInt(0), tInt))}
	case "some":
		return []cond{not(mkLt(mkLen(args[c.p]), kInt(1), tInt))}
	}
	return nil
}

func (m *toolMod) holds(x *Exec, st *State, f *ssa.Function, c toolPre, args []*Term) bool {
	st = st.clone()
	for _, cd := range m.terms(x, st, f, c, args) {
		if c.kind == "nonnil" && x.nonNil(st, args[c.p]) {
			continue
		}
		if v, k := x.truth(st, cd.t); !k || v != cd.v {
			return false
		}
	}
	return true
}

func sortedPre(m map[toolPre]bool) []toolPre {
	var out []toolPre
	for c := range m {
		out = append(out, c)
	}
	// not nil before what is behind the pointer
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if (a.kind == "nonnil") != (b.kind == "nonnil") {
			return a.kind == "nonnil"
		}
		return fmt.Sprint(a) < fmt.Sprint(b)
	})
	return out
}

// treeNonNil: what the parser never leaves nil.
func treeNonNil(s *State, t *Term) bool {
	if t.typ == nil {
		return false
	}
	switch t.op {
	case OAssert:
		// a node in a list
		n := t.args[0]
		return isParse(t.typ) && n.op == OInit && n.args[0].op == OIndex
	case OInit:
		a := t.args[0]
		if a.op == OField && isParse(t.typ) {
			return treeField(a, map[string]string{"ActionNode": "Pipe", "BranchNode": "Pipe List"})
		}
		if a.op != OIndex {
			return false
		}
		if strings.HasSuffix(t.typ.String(), "html/template.Template") {
			l := s.norm(a.args[0])
			return l.op == OCall && strings.HasSuffix(l.s, "template.Template).Templates") || l.op == OICall && strings.HasSuffix(callName(l), "template.Template).Templates")
		}
		return isParse(t.typ)
	}
	return false
}

// treeField: a is the address of one of these fields of a node.
func treeField(a *Term, fields map[string]string) bool {
	if a.typ == nil || !isParse(a.typ) {
		return false
	}
	n := a.typ.String()
	n = n[strings.LastIndexByte(n, '.')+1:]
	sct, ok := a.typ.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for _, f := range strings.Fields(fields[n]) {
		if int(a.i) < sct.NumFields() && sct.Field(int(a.i)).Name() == f {
			return true
		}
	}
	return false
}

// treeLists: lists the parser never leaves empty.
func treeLists(t *Term) []zedge {
	if t.op != OLen || t.args[0].op != OInit || t.args[0].args[0].op != OField {
		return nil
	}
	if !treeField(t.args[0].args[0], map[string]string{"FieldNode": "Ident", "VariableNode": "Ident", "ChainNode": "Field", "CommandNode": "Args", "PipeNode": "Cmds"}) {
		return nil
	}
	return []zedge{{0, t.id, -1}}
}

// recursive: f may call itself.
func (e *extractor) recursive(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function) bool
	walk = func(g *ssa.Function) bool {
		for h := range e.calls[g] {
			if h == f {
				return true
			}
			if !seen[h] {
				seen[h] = true
				if walk(h) {
					return true
				}
			}
		}
		return false
	}
	return walk(f)
}

const goodNames = `^[\pL_][\pL\p{Nd}_]*$`

var goodName = regexp.MustCompile(goodNames)

// nameOK: k is an identifier.
func (m *toolMod) nameOK(s *Scen, st *State, k *Term, sets map[*Term][]*Event, busy map[*Term]bool) string {
	k = st.norm(k)
	if v, ok := k.strVal(); ok {
		if goodName.MatchString(v) {
			return ""
		}
		return fmt.Sprintf("%q is not an identifier", v)
	}
	if l, _ := elemOf(st, k); l != nil && l.op == OCall && l.s == "(*regexp.Regexp).FindAllString" {
		if p, ok := patternOf(l.args[0]); ok {
			if good, why := subPattern("^(?:"+p+")$", goodNames); !good {
				return "the pattern " + p + " also finds what is not an identifier: " + why
			}
			return ""
		}
	}
	// a key of another table
	for tr := st.trace; tr != nil; tr = tr.prev {
		if e := tr.ev; e.kind == "mapiter" && e.args[1] == k {
			t := st.norm(e.args[0])
			if busy[t] {
				return ""
			}
			busy[t] = true
			if rootOf(t).op != OAlloc {
				return fmt.Sprintf("the names of %v are not known", t)
			}
			for _, w := range sets[t] {
				if why := m.nameOK(s, w.st, w.args[1], sets, busy); why != "" {
					return why
				}
			}
			return ""
		}
	}
	found := false
	try := func(c *Term) {
		if found || c.op != OCall || len(c.args) == 0 {
			return
		}
		switch c.s {
		case "(*regexp.Regexp).MatchString":
			if p, ok := patternOf(c.args[0]); ok && st.norm(c.args[1]) == k {
				if v, kn := s.x.truth(st, c); kn && v {
					found, _ = subPattern(p, goodNames)
				}
			}
		case "go/token.IsIdentifier", "go/token.IsKeyword":
			if v, kn := s.x.truth(st, c); kn && v && st.norm(c.args[0]) == k {
				found = true
			}
		}
	}
	st.facts.Each(func(id int, v bool) {
		terms[id-1].mentions(func(u *Term) bool { try(u); return false })
	})
	if found {
		return ""
	}
	return fmt.Sprintf("nothing says that %v is an identifier", k)
}

func patternOf(re *Term) (string, bool) {
	if re.op != OCall || re.s != "regexp.MustCompile" {
		return "", false
	}
	return re.args[0].strVal()
}

func ruleToolPanics(c *Check) {
	e := newExtractor(c)
	if e == nil {
		return
	}
	run := c.fn(toolPkg, "Run")
	if run == nil {
		return
	}
	m := &toolMod{c: c, e: e, pre: map[*ssa.Function]map[toolPre]bool{}, funs: map[string]*ssa.Function{}}
	var mods []*ssa.Function
	for _, set := range []map[*ssa.Function]bool{e.visitors, e.literals, e.matchers, e.adders} {
		for f := range set {
			if e.literals[f] && !e.recursive(f) {
				continue
			}
			if m.pre[f] == nil && f != run {
				m.pre[f] = m.candidates(f)
				m.funs[canon(f)] = f
				mods = append(mods, f)
			}
		}
	}
	sortFns(mods)
	lib := []string{saveAsPot, "(*" + modPath + "/translator.File).AddEntry", "(*" + modPath + "/translator.Entry).Key"}
	for _, f := range c.exported("") {
		lib = append(lib, canon(f))
	}
	m.pre[run] = map[toolPre]bool{}
	for i, p := range run.Params {
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			m.pre[run][toolPre{"nonnil", i, -1}] = true
		}
	}
	var tops *Scen
	analyse := func(f *ssa.Function, final bool) bool {
		opaque := append([]string{}, lib...)
		for _, g := range mods {
			if g != f {
				opaque = append(opaque, canon(g))
			}
		}
		s := c.run(f, scenOpt{panics: final, opaque: opaque, pre: m.assume(f), setup: func(x *Exec) {
			nonNilGlobal(c)(x)
			e.still(x)
			x.nonNilInit = orInit(x.nonNilInit, treeNonNil)
			x.axioms = append(x.axioms, treeLists)
			for _, n := range []string{"os.OpenFile", "os.Create", "os.Open"} {
				x.models[n] = openModel(c)
			}
		}})
		if s == nil {
			return false
		}
		if f == run && final {
			tops = s
		}
		changed := false
		s.allEvents(func(ev *Event) {
			if ev.kind != "call" && ev.kind != "rec" {
				return
			}
			g := m.funs[ev.name]
			if g == nil {
				return
			}
			st := ev.st
			if st == nil {
				c.fail("precondition", "calls of "+fnName(g)+" in "+ev.fn, ev.pos, "the state at the call is not known")
				return
			}
			for _, cd := range sortedPre(m.pre[g]) {
				ok := m.holds(s.x, st, g, cd, ev.args)
				if final {
					c.put("precondition", fmt.Sprintf("%s in %s: %v", fnName(g), ev.fn, cd), ok, ev.pos, "the precondition is not established")
				} else if !ok {
					delete(m.pre[g], cd)
					changed = true
				}
			}
		})
		return changed
	}
	roots := append([]*ssa.Function{run}, mods...)
	for round := 0; round < 12; round++ {
		changed := false
		for _, f := range roots {
			changed = analyse(f, false) || changed
		}
		if !changed {
			break
		}
	}
	for _, f := range roots {
		analyse(f, true)
	}
	if tops == nil {
		return
	}
	// the names of template functions
	sets := map[*Term][]*Event{}
	var regs []*Event
	tops.allEvents(func(ev *Event) {
		switch {
		case ev.kind == "mapset":
			sets[ev.args[0]] = append(sets[ev.args[0]], ev)
		case ev.kind == "call" && (ev.name == "(*html/template.Template).Funcs" || ev.name == "(*text/template.Template).Funcs"):
			regs = append(regs, ev)
		}
	})
	c.assert(len(regs) > 0, "names", "functions are registered", run.Pos(), "the run registers no template functions")
	for _, ev := range regs {
		t := ev.st.norm(ev.args[1])
		if rootOf(t).op != OAlloc {
			c.fail("names", "table of functions in "+ev.fn, ev.pos, "the table %v is not one the tool made", t)
			continue
		}
		c.ok("names", "table of functions in "+ev.fn, ev.pos)
		for _, w := range sets[t] {
			why := m.nameOK(tops, w.st, w.args[1], sets, map[*Term]bool{t: true})
			c.put("names", "name registered in "+w.fn, why == "", w.pos, why)
		}
	}
}
