package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- P35: what the extraction tool collects ----

func init() {
	register(&Rule{id: "P35", min: 8, run: ruleCollect,
		rule: "Abstract interpretation of the function that records an extracted entry, compared with a decision table (new, same kind, conflicting kind); an inventory of every write to the table of entries and to the plural mark; and of the function that writes the template: on every path to the writer the header and, in a complete sweep, every recorded entry have been added, the header with a plural rule exactly under the mark."})
}

// recorders: the outermost functions that take an entry and store it.
func (e *extractor) recorders() map[*ssa.Function]bool {
	entry := c_entry(e.c)
	takes := func(f *ssa.Function) bool {
		for _, p := range f.Params {
			if isParse(p.Type()) {
				return false
			}
		}
		for _, p := range f.Params {
			if types.Identical(p.Type(), types.NewPointer(entry)) {
				return true
			}
		}
		return false
	}
	adds := map[*ssa.Function]bool{}
	for f := range e.adders {
		adds[f] = true
	}
	for ch := true; ch; {
		ch = false
		for _, f := range e.fns {
			if !adds[f] {
				for g := range e.calls[f] {
					if adds[g] && takes(g) {
						adds[f], ch = true, true
					}
				}
			}
		}
	}
	out := map[*ssa.Function]bool{}
	for _, f := range e.fns {
		if !adds[f] || !takes(f) {
			continue
		}
		inner := false
		for _, g := range e.fns {
			if g != f && adds[g] && takes(g) && e.calls[g][f] {
				inner = true
			}
		}
		if !inner {
			out[f] = true
		}
	}
	if len(out) == 0 {
		return e.adders
	}
	return out
}

func c_entry(c *Check) types.Type { return c.w.typ("translator", "Entry") }

type ctxT35 struct {
	ct, et                   types.Type
	mt                       *types.Map
	entries, flag            int
	cmts, ctxt, id, pl, str1 int
}

func ruleCollect(c *Check) {
	e := newExtractor(c)
	if e == nil {
		return
	}
	k := &ctxT35{ct: c.w.typ(toolPkg, "Context"), et: c_entry(c)}
	if k.ct == nil || k.et == nil {
		c.fail("anchor", "context", 0, "the context or entry type is gone")
		return
	}
	k.entries, k.flag = c.field(k.ct, "entries", mapEntry), c.field(k.ct, "hasPlural", "bool")
	k.cmts, k.ctxt, k.id, k.pl, k.str1 = c.field(k.et, "MsgCmts", ""), c.field(k.et, "MsgCtxt", ""), c.field(k.et, "MsgID", ""), c.field(k.et, "IsPlural", ""), c.field(k.et, "MsgStr", "")
	if k.entries < 0 || k.flag < 0 || k.cmts < 0 || k.ctxt < 0 || k.id < 0 || k.pl < 0 || k.str1 < 0 {
		return
	}
	k.mt = k.ct.Underlying().(*types.Struct).Field(k.entries).Type().Underlying().(*types.Map)
	for _, f := range sortedFns(e.adders) {
		e.record(k, f)
	}
	e.collected(k)
	e.written(k)
}

// record: the table of one recorder.
func (e *extractor) record(k *ctxT35, f *ssa.Function) {
	c := e.c
	ci, ei := -1, -1
	for i, p := range f.Params {
		switch {
		case types.Identical(p.Type(), types.NewPointer(k.ct)):
			ci = i
		case types.Identical(p.Type(), types.NewPointer(k.et)):
			ei = i
		}
	}
	if ci < 0 || ei < 0 {
		c.fail("anchor", fnName(f), f.Pos(), "the recorder takes no context or no entry")
		return
	}
	var op []string
	for _, g := range c.exported("") {
		op = append(op, canon(g))
	}
	s := c.run(f, scenOpt{opaque: append(op, names(e.printers)...), pre: e.ready(f)})
	if s == nil {
		return
	}
	x := s.x
	ctx, en := s.args[ci], s.args[ei]
	m := s.at(s.st0, ctx, k.ct, k.entries)
	x.assume(s.st0, mkEq(m, kNil()), false)
	key := mkConcat(s.at(s.st0, en, k.et, k.ctxt), kStr("\x04"), s.at(s.st0, en, k.et, k.id))
	present, pre := s.inMap(s.st0, m, key, k.mt)
	plural, prePl := s.at(s.st0, en, k.et, k.pl), s.at(s.st0, pre, k.et, k.pl)
	flag := s.at(s.st0, ctx, k.ct, k.flag)
	cm, preCm := s.at(s.st0, en, k.et, k.cmts), s.at(s.st0, pre, k.et, k.cmts)
	other := kSym("other", tStr)
	otherOk, otherV := s.inMap(s.st0, m, other, k.mt)
	cmtAddr := mkField(pre, k.et, k.cmts)
	flagAddr := mkField(ctx, k.ct, k.flag)

	// the plural mark after the call: must: it covers this message
	mark := func(st *State, must bool) string {
		got := s.at(st, ctx, k.ct, k.flag)
		for _, f := range []bool{false, true} {
			for _, p := range []bool{false, true} {
				st2, ok := s.refine(st, []cond{{flag, f}, {plural, p}})
				if !ok {
					continue
				}
				v, kn := x.truth(st2, got)
				if !kn || v != f && !(v && p) {
					return fmt.Sprintf("the plural mark becomes %v", st.norm(got))
				}
				if must && p && !v {
					return "a plural message is recorded without the plural mark"
				}
			}
		}
		return ""
	}
	// the table after the call, apart from this key
	others := func(st *State) string {
		m2 := s.at(st, ctx, k.ct, k.entries)
		if !s.same(st, m2, m) {
			return fmt.Sprintf("the table is %v afterwards", st.norm(m2))
		}
		st, ok := s.refine(st, []cond{not(eq(other, key))})
		if !ok {
			return ""
		}
		for _, r := range x.mapGet(st, m2, other, k.mt) {
			v, kn := x.truth(r.st, otherOk)
			if !kn || v != r.ok || r.ok && !s.same(r.st, r.v, otherV) {
				return fmt.Sprintf("another message now has %v", r.v)
			}
		}
		return ""
	}
	find := func(st *State, want *Term) string {
		for _, r := range x.mapGet(st, s.at(st, ctx, k.ct, k.entries), key, k.mt) {
			if !r.ok || !s.same(r.st, r.v, want) {
				return fmt.Sprintf("the message is recorded as %v", r.v)
			}
		}
		return ""
	}
	// nothing else is written
	writes := func(st *State, allow func(ev *Event) bool) string {
		bad := ""
		for _, top := range st.trace.events() {
			for _, ev := range inside(top) {
				switch ev.kind {
				case "store", "mapset", "mapdel", "copy", "sort":
					if !x.fresh(ev.args[0]) && !allow(ev) {
						bad = fmt.Sprintf("%s %s", ev.kind, addrName(ev.args[0]))
					}
				}
			}
		}
		return bad
	}
	first := func(ms ...string) string {
		for _, m := range ms {
			if m != "" {
				return m
			}
		}
		return ""
	}
	isFlag := func(ev *Event) bool { return ev.kind == "store" && ev.args[0] == flagAddr }
	isTable := func(st *State) func(ev *Event) bool {
		return func(ev *Event) bool {
			return isFlag(ev) || ev.kind == "mapset" && s.same(st, ev.args[0], m)
		}
	}
	nilRes := term(kNil())
	if f.Signature.Results().Len() != 1 || f.Signature.Results().At(0).Type().String() != "error" {
		c.fail("anchor", fnName(f), f.Pos(), "the recorder does not yield an error")
		return
	}
	s.table([]row{
		{name: "new message → recorded as it is", when: []cond{not(present)}, want: nilRes, also: func(st *State, got *Term) string {
			return first(mark(st, true), find(st, en), others(st), writes(st, isTable(st)))
		}},
		{name: "known message of the same kind → its comments are added, nothing else changes", when: []cond{is(present), is(eq(prePl, plural)), not(eq(pre, kNil())), not(eq(pre, en))}, want: nilRes, also: func(st *State, got *Term) string {
			after := s.at(st, pre, k.et, k.cmts)
			items := appendItems(s.unrolled(st, after))
			ms := ""
			if len(items) != 2 || items[0].op != OSpread || !s.same(st, items[0].args[0], preCm) || items[1].op != OSpread || !s.same(st, items[1].args[0], cm) {
				ms = fmt.Sprintf("the comments become %v", st.norm(after))
			}
			return first(ms, mark(st, false), find(st, pre), others(st), writes(st, func(ev *Event) bool {
				return isTable(st)(ev) || ev.kind == "store" && s.same(st, ev.args[0], cmtAddr)
			}))
		}},
		{name: "known message of the other kind → an error, nothing changes", when: []cond{is(present), not(eq(prePl, plural)), not(eq(pre, kNil())), not(eq(pre, en))}, also: func(st *State, got *Term) string {
			ms := ""
			if v, kn := x.truth(st, mkEq(got, kNil())); !kn || v {
				ms = fmt.Sprintf("yields %v instead of an error", got)
			}
			flagged := ""
			if !s.same(st, s.at(st, ctx, k.ct, k.flag), flag) {
				flagged = "the plural mark changes"
			}
			return first(ms, flagged, find(st, pre), others(st), writes(st, func(ev *Event) bool { return isFlag(ev) }))
		}},
	})
}

// collected: nothing but the recorders touches the table or the mark.
func (e *extractor) collected(k *ctxT35) {
	c := e.c
	in := map[*ssa.Function]bool{}
	var reach func(f *ssa.Function)
	reach = func(f *ssa.Function) {
		if !in[f] && c.w.isRepo(f) {
			in[f] = true
			for g := range e.calls[f] {
				reach(g)
			}
		}
	}
	for f := range e.adders {
		reach(f)
	}
	field := func(v ssa.Value, i int) *ssa.FieldAddr {
		a, ok := v.(*ssa.FieldAddr)
		if !ok || a.Field != i {
			return nil
		}
		pt, ok := a.X.Type().Underlying().(*types.Pointer)
		if !ok || !types.Identical(pt.Elem(), k.ct) {
			return nil
		}
		return a
	}
	isMap := func(t types.Type) bool { return types.Identical(t.Underlying(), k.mt) }
	tables, marks := 0, 0
	for _, f := range e.fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.MapUpdate:
					if isMap(i.Map.Type()) {
						tables++
						_, own := i.Map.(*ssa.MakeMap)
						c.assert(in[f] || own, "inventory", fnName(f)+": changes the table of messages", i.Pos(), "the table is changed outside the recorder")
					}
				case *ssa.Call:
					bi, ok := i.Call.Value.(*ssa.Builtin)
					if ok && (bi.Name() == "delete" || bi.Name() == "clear") && isMap(i.Call.Args[0].Type()) {
						c.fail("inventory", fnName(f)+": removes messages", i.Pos(), "recorded messages are removed")
					}
					if !ok {
						for _, a := range i.Call.Args {
							callee := i.Call.StaticCallee()
							if isMap(a.Type()) && (callee == nil || !c.w.isRepo(callee)) && !(callee != nil && readsMaps(canon(callee))) {
								c.fail("inventory", fnName(f)+": hands the table of messages on", i.Pos(), "to %v, which may change it", i.Call.Value)
							}
						}
					}
				case *ssa.Store:
					if a := field(i.Addr, k.entries); a != nil {
						_, own := i.Val.(*ssa.MakeMap)
						_, fresh := a.X.(*ssa.Alloc)
						c.assert(own && fresh, "inventory", fnName(f)+": sets the table of messages", i.Pos(), "the table is replaced")
					}
					if a := field(i.Addr, k.flag); a != nil {
						marks++
						c.assert(in[f], "inventory", fnName(f)+": sets the plural mark", i.Pos(), "the plural mark is set outside the recorder")
					}
					if pt, ok := i.Addr.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), k.ct) {
						_, fresh := i.Addr.(*ssa.Alloc)
						c.assert(fresh, "inventory", fnName(f)+": sets a whole context", i.Pos(), "the context is replaced")
					}
				}
			}
		}
	}
	c.assert(tables > 0, "inventory", "the table of messages", 0, "no message is ever recorded")
	c.assert(marks > 0, "inventory", "the plural mark", 0, "the plural mark is never set")
}

func readsMaps(n string) bool {
	return strings.HasPrefix(n, "maps.Keys") || strings.HasPrefix(n, "maps.Values") || strings.HasPrefix(n, "maps.All") || strings.HasPrefix(n, "fmt.")
}

// written: what is handed to the writer of templates.
func (e *extractor) written(k *ctxT35) {
	c := e.c
	n := 0
	for _, f := range e.fns {
		calls := false
		for g := range e.calls[f] {
			calls = calls || canon(g) == saveAsPot
		}
		if !calls || f.Synthetic != "" {
			continue
		}
		op := c.opaqueTool()
		s := c.run(f, scenOpt{opaque: op, pre: e.ready(f), setup: nonNilGlobal(c)})
		if s == nil {
			continue
		}
		s.eachPath(func(tr *Trace, st *State, back *LoopMark, out *callOut) {
			evs := tr.events()
			for i, ev := range evs {
				if ev.kind == "call" && ev.name == saveAsPot {
					n++
					e.complete(k, s, ev.st, evs[:i], ev)
				}
			}
		})
	}
	c.assert(n > 0, "template", "the template is written", 0, "no call of the writer of templates is found")
}

func (e *extractor) complete(k *ctxT35, s *Scen, st *State, evs []*Event, save *Event) {
	c, x := e.c, s.x
	file := save.args[0]
	what := save.fn
	const addEntry = "(*" + modPath + "/translator.File).AddEntry"
	c.assert(x.fresh(file), "template", what+": the template starts empty", save.pos, "the file %v is not a new one", file)
	isTable := func(t *Term) bool {
		if t.op != OInit || len(t.args) == 0 || t.args[0].op != OField {
			return false
		}
		return t.args[0].i == k.entries && types.Identical(t.args[0].typ, k.ct)
	}
	isFlag := func(t *Term) bool {
		return t.op == OInit && len(t.args) > 0 && t.args[0].op == OField && t.args[0].i == k.flag && types.Identical(t.args[0].typ, k.ct)
	}
	swept, header := "no loop goes through the recorded messages", "no header is added"
	for i, ev := range evs {
		switch {
		case ev.kind == "call" && ev.name == addEntry && s.same(st, ev.args[0], file):
			if m := e.isHeader(k, s, ev, isFlag); m == "" {
				header = ""
			} else if header != "" {
				header = m
			}
		case ev.kind == "loop":
			m, over := "", false
			for _, p := range ev.loop.parts {
				for _, b := range p.backs {
					var val *Term
					added := false
					for _, be := range b.trace.events() {
						if be.kind == "mapiter" && isTable(be.args[0]) {
							val, over = be.args[2], true
						}
						if be.kind == "call" && be.name == addEntry && s.same(b.st, be.args[0], file) {
							if val != nil && s.same(b.st, be.args[1], val) {
								added = true
							} else {
								m = fmt.Sprintf("a round adds %v", be.args[1])
							}
						}
					}
					if !added {
						m = "a round does not add its message"
					}
				}
			}
			if !over {
				continue
			}
			done := false
			for _, f := range evs[i:] {
				if f.kind == "mapdone" && isTable(f.args[0]) {
					done = true
				}
			}
			if !done && m == "" {
				m = "the loop may stop early"
			}
			if swept != "" {
				swept = m
			}
		}
	}
	// an empty table needs no loop
	for _, ev := range evs {
		if ev.kind == "mapdone" && isTable(ev.args[0]) && swept != "" && strings.HasPrefix(swept, "no loop") {
			swept = ""
		}
	}
	c.assert(swept == "", "template", what+": every recorded message is in the template", save.pos, "%s", swept)
	c.assert(header == "", "template", what+": the template has a header", save.pos, "%s", header)
}

// isHeader: the entry added is a header whose text names a plural rule exactly
// under the mark.
func (e *extractor) isHeader(k *ctxT35, s *Scen, ev *Event, isFlag func(*Term) bool) string {
	st := ev.st
	en := ev.args[1]
	for _, i := range []int{k.ctxt, k.id} {
		if t := s.at(st, en, k.et, i); !s.same(st, t, kStr("")) {
			return "the entry that is added has an id"
		}
	}
	if t := s.at(st, en, k.et, k.pl); !s.same(st, t, kBool(false)) {
		return "the header has a plural"
	}
	text := st.norm(s.at(st, en, k.et, k.str1))
	has, unsure := false, false
	text.mentions(func(u *Term) bool {
		if v, ok := u.strVal(); ok && strings.Contains(v, "Plural-Forms: ") {
			has = true
		}
		return false
	})
	var flag *Term
	st.facts.Each(func(id int, v bool) {
		if isFlag(terms[id-1]) {
			flag = kBool(v)
		}
	})
	if flag == nil {
		unsure = true
	}
	switch {
	case unsure:
		return "the header does not depend on whether a message has a plural"
	case (flag == kBool(true)) != has:
		if has {
			return "the header has a plural rule although no message has a plural"
		}
		return "the header has no plural rule although a message has a plural"
	}
	return ""
}

// unrolled: a list that a loop has built by appending the elements of another
// list one by one, as one append of that list.
func (s *Scen) unrolled(st *State, t *Term) *Term {
	t = st.norm(t)
	if t.op != OSym {
		return t
	}
	for _, ev := range st.trace.events() {
		if ev.kind != "loop" || ev.loop == nil || !inLoop(t, ev.loop.inst) {
			continue
		}
		m := ev.loop
		if len(m.parts) != 1 || len(m.parts[0].backs) == 0 {
			continue
		}
		p := m.parts[0]
		// the variable: a local one, or one kept in memory
		var init *Term
		var next func(b *BackIter) *Term
		for k, ph := range p.phis {
			if ph == t && k < len(m.inits) {
				k := k
				init = m.inits[k]
				next = func(b *BackIter) *Term { return b.phis[k] }
			}
		}
		if init == nil {
			p.init.cells.Each(func(id int, v *Term) {
				if v == t {
					init = s.x.load(m.entry, terms[id-1], t.typ)
					next = func(b *BackIter) *Term { return s.x.load(b.st, terms[id-1], t.typ) }
				}
			})
		}
		if init != nil && init != t {
			var list *Term
			good := true
			for _, b := range p.backs {
				a := b.st.norm(next(b))
				if a.op != OAppend || len(a.args) != 2 || a.args[0] != t {
					good = false
					break
				}
				l, i := elemOf(b.st, a.args[1])
				ok := false
				for j, typ := range m.typs {
					if l != nil && isInteger(typ) && j < len(m.inits) {
						if init, c := m.inits[j].intVal(); c && b.st.norm(i) == mkAdd(p.phis[j], kInt(-init), tInt) {
							ok = true
						}
					}
				}
				if !ok || list != nil && list != l {
					good = false
					break
				}
				list = l
			}
			if good && list != nil && s.sweeps(m, func(l *Term) bool { return l == list }, st) == "" {
				return mkAppend(init, []*Term{mk(Term{op: OSpread, args: []*Term{list}, typ: list.typ})}, t.typ)
			}
		}
	}
	return t
}
