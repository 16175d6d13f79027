package main

import (
	"fmt"
	"go/types"
	"regexp/syntax"

	"golang.org/x/tools/go/ssa"
)

// ---- P27: header data follow the header entry ----

func init() {
	register(&Rule{id: "P27", min: 20, run: ruleHeaders,
		rule: "Abstract interpretation of AddEntry on an arbitrary catalogue and of the compositions AddEntry(header); AddEntry(other)*; GetHeader/Lang/XN64. The added entry is found under its key and every other key keeps its entry; a header value is found in a map whose every write pairs the trimmed text before and after the first ': ' of one line of the current header entry, the first occurrence winning, on a complete pass over the lines; the plural rule evaluated comes from that map."})
}

type fileT27 struct {
	ft, et            types.Type
	add, gh, lang, xn *ssa.Function
	entries           int
	ctxt, id, str     int
	strN              int
}

func (c *Check) fileT() *fileT27 {
	k := &fileT27{ft: c.w.typ("translator", "File"), et: c.w.typ("translator", "Entry"),
		add: c.fn("translator", "*File.AddEntry"), gh: c.fn("translator", "*File.GetHeader"), lang: c.fn("translator", "*File.Lang"), xn: c.fn("translator", "*File.XN64")}
	if k.ft == nil || k.et == nil || k.add == nil || k.gh == nil || k.lang == nil || k.xn == nil {
		return nil
	}
	k.entries = c.field(k.ft, "entries", mapEntry)
	k.ctxt, k.id, k.str, k.strN = c.field(k.et, "MsgCtxt", ""), c.field(k.et, "MsgID", ""), c.field(k.et, "MsgStr", ""), c.field(k.et, "MsgStrN", "")
	if k.entries < 0 || k.ctxt < 0 || k.id < 0 || k.str < 0 || k.strN < 0 {
		return nil
	}
	return k
}

func ruleHeaders(c *Check) {
	k := c.fileT()
	if k == nil {
		return
	}
	c.addTable(k)
	c.headerHistory(k)
	c.pluralComposed(true)
	c.entryWriters(k)
}

// addTable: AddEntry on an arbitrary catalogue.
func (c *Check) addTable(k *fileT27) {
	s := c.run(k.add, scenOpt{pure: []string{pathEval}, pre: nonNilArgs(c, k.add)})
	if s == nil {
		return
	}
	file, e := s.args[0], s.args[1]
	mt := k.ft.Underlying().(*types.Struct).Field(k.entries).Type().Underlying().(*types.Map)
	m0 := s.at(s.st0, file, k.ft, k.entries)
	key := mkConcat(s.at(s.st0, e, k.et, k.ctxt), kStr("\x04"), s.at(s.st0, e, k.et, k.id))
	other := kSym("other", tStr)
	s.each("entry", "AddEntry: the entry is found under its context and id", func(o *callOut) string {
		m := s.at(o.st, file, k.ft, k.entries)
		for _, r := range s.x.mapGet(o.st, m, key, mt) {
			if !r.ok || !s.same(r.st, r.v, e) {
				return fmt.Sprintf("looking it up gives %v", r.v)
			}
		}
		return ""
	})
	s.each("entry", "AddEntry: other entries stay", func(o *callOut) string {
		m := s.at(o.st, file, k.ft, k.entries)
		st, ok := s.refine(o.st, []cond{not(eq(other, key))})
		if !ok {
			return ""
		}
		ok0, v0 := s.inMap(s.st0, m0, other, mt)
		for _, r := range s.x.mapGet(st, m, other, mt) {
			if r.ok {
				if v, kn := s.x.truth(r.st, ok0); !kn || !v || !s.same(r.st, r.v, v0) {
					return fmt.Sprintf("another key now gives %v", r.v)
				}
			} else if v, kn := s.x.truth(r.st, ok0); (!kn || v) && !s.x.isNilKnown(r.st, m0) {
				return "another entry may be gone"
			}
		}
		return ""
	})
	s.each("entry", "AddEntry: the entry itself is unchanged", func(o *callOut) string {
		for _, ev := range o.st.trace.events() {
			if ev.kind == "store" && baseOf(ev.args[0]) == e {
				return fmt.Sprintf("writes %v", ev.args[0])
			}
		}
		return ""
	})
}

// hist is a catalogue after a sequence of AddEntry calls.
type hist struct {
	k    *Scen
	st   *State
	file *Term
}

func (c *Check) headerHistory(k *fileT27) {
	type step struct {
		header bool
		name   string
	}
	cases := []struct {
		name    string
		fresh   bool
		steps   []step
		current int // index of the header in force, -1: none
	}{
		{"any catalogue; AddEntry(header)", false, []step{{true, "h"}}, 0},
		{"any catalogue; AddEntry(header); AddEntry(other); AddEntry(other)", false, []step{{true, "h"}, {false, "e1"}, {false, "e2"}}, 0},
		{"empty catalogue; AddEntry(header 1); AddEntry(header 2)", true, []step{{true, "h1"}, {true, "h2"}}, 1},
		{"empty catalogue; AddEntry(other); AddEntry(header)", true, []step{{false, "e"}, {true, "h"}}, 1},
		{"empty catalogue; AddEntry(other)", true, []step{{false, "e"}}, -1},
		{"empty catalogue", true, nil, -1},
	}
	for _, cs := range cases {
		x := newExec(c.w)
		x.pureOpaque[pathEval] = true
		st := c.w.newState()
		sc := &Scen{c: c, x: x, name: cs.name, fn: k.gh, st0: st}
		var file *Term
		if cs.fresh {
			file = x.alloc(nil, st, nil, "file", types.NewPointer(k.ft))
		} else {
			file = kSym("file", types.NewPointer(k.ft))
			x.assume(st, mkEq(file, kNil()), false)
		}
		var ents []*Term
		for _, sp := range cs.steps {
			e := kSym(sp.name, types.NewPointer(k.et))
			x.assume(st, mkEq(e, kNil()), false)
			for _, p := range ents {
				x.assume(st, mkEq(e, p), false)
			}
			ents = append(ents, e)
			empty := []cond{is(eq(sc.at(st, e, k.et, k.ctxt), kStr(""))), is(eq(sc.at(st, e, k.et, k.id), kStr("")))}
			if sp.header {
				for _, cd := range empty {
					x.assume(st, cd.t, true)
				}
			}
		}
		// a non-header entry has a context or an id
		sts := []*State{st}
		for i, sp := range cs.steps {
			if sp.header {
				continue
			}
			var next []*State
			for _, s0 := range sts {
				a, b := eq(sc.at(s0, ents[i], k.et, k.ctxt), kStr("")), eq(sc.at(s0, ents[i], k.et, k.id), kStr(""))
				if s1, ok := sc.refine(s0, []cond{not(a)}); ok {
					next = append(next, s1)
				}
				if s1, ok := sc.refine(s0, []cond{is(a), not(b)}); ok {
					next = append(next, s1)
				}
			}
			sts = next
		}
		ok := true
		for _, e := range ents {
			var next []*State
			for _, s0 := range sts {
				for _, o := range x.callFn(nil, s0, k.add, []*Term{file, e}, nil, nil, nil, nil, false) {
					if o.kind != oRet {
						ok = false
						c.fail("header", cs.name, k.add.Pos(), "AddEntry panics or exits")
						continue
					}
					next = append(next, o.st)
				}
			}
			sts = next
		}
		if !ok {
			continue
		}
		var text *Term
		if cs.current >= 0 {
			text = sc.at(st, ents[cs.current], k.et, k.str)
		}
		want := kSym("key", tStr)
		for _, s0 := range sts {
			for _, o := range x.callFn(nil, s0, k.gh, []*Term{file, want}, nil, nil, nil, nil, false) {
				c.outs++
				sc.headerResult(cs.name+"; GetHeader", o, want, text)
			}
			for _, o := range x.callFn(nil, s0, k.lang, []*Term{file}, nil, nil, nil, nil, false) {
				c.outs++
				sc.headerResult(cs.name+"; Lang", o, kStr("Language"), text)
			}
		}
		c.absorb(x, cs.name)
	}
}

// headerResult: the outcome is what the lines of text say about key.
func (s *Scen) headerResult(name string, o callOut, key, text *Term) {
	c := s.c
	pos := s.fn.Pos()
	if o.kind != oRet {
		c.fail("header", name, pos, "panics or exits")
		return
	}
	v, ok := o.res, (*Term)(nil)
	if v.op == OTuple {
		if len(v.args) != 2 {
			c.fail("header", name, pos, "yields %v", v)
			return
		}
		v, ok = v.args[0], v.args[1]
	}
	v = o.st.norm(v)
	found := v.op == OMapVal
	if ok != nil {
		b, kn := s.x.truth(o.st, ok)
		if !kn {
			c.fail("header", name, pos, "found or not is left open: %v", ok)
			return
		}
		found = b
	}
	var ver *Term
	if found {
		if v.op != OMapVal || o.st.norm(v.args[1]) != o.st.norm(key) {
			// a value of the map that is known to be empty text
			if sv, isStr := v.strVal(); !isStr || sv != "" {
				c.fail("header", name, pos, "yields %v, not the value of the header asked for", v)
				return
			}
		} else {
			ver = v.args[0]
		}
	} else if sv, isStr := v.strVal(); !isStr || sv != "" {
		c.fail("header", name, pos, "yields %v for a header that is not there", v)
		return
	}
	if ver == nil {
		// the map the miss was decided on
		o.st.facts.Each(func(id int, b bool) {
			t := terms[id-1]
			if t.op == OMapOk && b == found && o.st.norm(t.args[1]) == o.st.norm(key) {
				ver = t.args[0]
			}
		})
	}
	if text == nil {
		if found {
			c.fail("header", name, pos, "finds a header in a catalogue without header entry")
		} else {
			c.ok("header", name+" finds nothing", pos)
		}
		return
	}
	if ver == nil {
		if b, kn := s.x.truth(o.st, eq(text, kStr(""))); kn && b {
			c.ok("header", name+" of an empty header", pos)
			return
		}
		c.fail("header", name, pos, "answers without looking at the lines of the header entry\n%s", o.st.factString())
		return
	}
	// the map with that content, and all that was ever written to it
	maps := map[*Term]bool{}
	s.eachWrite(o.st.trace, func(e *Event, b *BackIter, m *LoopMark) {
		mt, isM := e.args[0].typ.Underlying().(*types.Map)
		if isM && isStringT(mt.Key()) && isStringT(mt.Elem()) {
			maps[o.st.norm(e.args[0])] = true
		}
	})
	hit := false
	for m := range maps {
		ms := s.x.mapState(o.st, m, m.typ.Underlying().(*types.Map))
		if ms.ver == ver && ms.writes == nil {
			hit = true
			s.headerWrites(name, o.st, m, text)
		}
	}
	c.assert(hit, "header", name+" looks at the parsed header", pos, "the answer comes from a map (%v) that was not filled from the current header entry", ver)
}

// eachWrite visits every map write of a path, loops included.
func (s *Scen) eachWrite(tr *Trace, f func(e *Event, b *BackIter, m *LoopMark)) {
	seen := map[*LoopMark]bool{}
	var walk func(tr *Trace, b *BackIter, m *LoopMark)
	walk = func(tr *Trace, b *BackIter, m *LoopMark) {
		for _, e := range tr.events() {
			switch e.kind {
			case "mapset", "mapdel":
				f(e, b, m)
			case "loop":
				if e.loop == nil || seen[e.loop] {
					continue
				}
				seen[e.loop] = true
				for _, p := range e.loop.parts {
					for _, bb := range p.backs {
						walk(bb.trace, bb, e.loop)
					}
				}
			}
		}
	}
	walk(tr, nil, nil)
}

// headerWrites: m was filled by a complete pass over the lines of text.
func (s *Scen) headerWrites(name string, st *State, m, text *Term) {
	c := s.c
	pos := s.fn.Pos()
	passes := map[*LoopMark]bool{}
	s.eachWrite(st.trace, func(e *Event, b *BackIter, lm *LoopMark) {
		if e.args[0] != m && st.norm(e.args[0]) != m {
			return
		}
		if e.kind != "mapset" || lm == nil {
			c.fail("header", name+": what is written", e.pos, "the headers are changed outside the pass over the lines (%s)", e.kind)
			return
		}
		passes[lm] = true
		k, v := b.st.norm(e.args[1]), b.st.norm(e.args[2])
		kl, kp := headerPart(b.st, k)
		vl, vp := headerPart(b.st, v)
		switch {
		case kl == nil || kp != 1:
			c.fail("header", name+": what is written", e.pos, "the key %v is not the trimmed text before the first ': ' of a line", k)
		case vl == nil || vp != 2:
			c.fail("header", name+": what is written", e.pos, "the value %v is not the trimmed text after the first ': ' of a line", v)
		case kl != vl:
			c.fail("header", name+": what is written", e.pos, "key and value come from different lines: %v and %v", kl, vl)
		default:
			list, _ := elemOf(b.st, kl)
			if list == nil || !splitOf(list, text, "\n") {
				c.fail("header", name+": what is written", e.pos, "%v is not a line of the current header entry", kl)
			} else {
				c.ok("header", name+": what is written", e.pos)
			}
		}
		// first occurrence wins
		first := false
		b.st.facts.Each(func(id int, tv bool) {
			t := terms[id-1]
			if t.op == OMapOk && !tv && b.st.norm(t.args[1]) == k {
				first = true
			}
		})
		c.put("header", name+": the first occurrence counts", first, e.pos, "a later line replaces the value of an earlier one with the same key")
	})
	c.assert(len(passes) == 1, "header", name+": one pass over the lines", pos, "%d loops fill the headers, one is expected", len(passes))
	for lm := range passes {
		why := s.sweeps(lm, func(l *Term) bool { return splitOf(l, text, "\n") }, st)
		c.put("header", name+": every line is looked at", why == "", pos, why)
		// a line left out is empty, has no ': ' or repeats a key
		for _, p := range lm.parts {
			for _, b := range p.backs {
				set := false
				for _, e := range b.trace.events() {
					if e.kind == "mapset" && st.norm(e.args[0]) == m {
						set = true
					}
				}
				if set {
					continue
				}
				c.put("header", name+": lines left out", s.noHeader(b.st, text), pos, "a line 'Key: value' with a new key is left out\n"+b.st.factString())
			}
		}
	}
}

// fromHeader: ver is the content of a map that was filled from the lines of text.
func (s *Scen) fromHeader(st *State, ver, text *Term) bool {
	hit := false
	s.eachWrite(st.trace, func(e *Event, b *BackIter, m *LoopMark) {
		mt, isM := e.args[0].typ.Underlying().(*types.Map)
		if b == nil || !isM || !isStringT(mt.Key()) || !isStringT(mt.Elem()) {
			return
		}
		mm := st.norm(e.args[0])
		if ms := s.x.mapState(st, mm, mt); ms.ver == ver && ms.writes == nil {
			if e.args[1].mentions(func(t *Term) bool { return splitOf(t, text, "\n") }) {
				hit = true
			}
		}
	})
	return hit
}

// pluralForms: the Plural-Forms values read from the current header on a path.
func (s *Scen) pluralForms(st *State, text *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	st.facts.Each(func(id int, v bool) {
		terms[id-1].mentions(func(t *Term) bool {
			if (t.op == OMapVal || t.op == OMapOk) && len(t.args) == 2 {
				if p, ok := t.args[1].strVal(); ok && p == "Plural-Forms" {
					pv := mk(Term{op: OMapVal, args: t.args, typ: tStr})
					if !seen[pv] {
						seen[pv] = true
						if s.fromHeader(st, t.args[0], text) {
							out = append(out, pv)
						}
					}
				}
			}
			return false
		})
	})
	return out
}

// noHeader: the path knows that the line is no 'Key: value' or repeats a key.
func (s *Scen) noHeader(st *State, text *Term) bool {
	isLine := func(t *Term) bool {
		l, _ := elemOf(st, t)
		return l != nil && splitOf(st.norm(l), text, "\n")
	}
	cut := func(t *Term) bool { // t takes a line apart
		c := matchCall(t)
		if c == nil {
			return false
		}
		if c.s == "strings.SplitN" {
			return isLine(c.args[0])
		}
		return isLine(c.args[1])
	}
	no := false
	st.facts.Each(func(id int, v bool) {
		t := terms[id-1]
		switch t.op {
		case OMapOk:
			if l, p := headerPart(st, st.norm(t.args[1])); v && l != nil && p == 1 && isLine(l) {
				no = true
			}
		case OEq:
			a, b := t.args[0], t.args[1]
			if a.isConst() || b.op == OLen {
				a, b = b, a
			}
			if str, ok := b.strVal(); ok && str == "" && v && isLine(a) {
				no = true
			}
			if b.isNil() && v && cut(a) {
				no = true
			}
			if k, ok := b.intVal(); ok && !v && a.op == OLen && cut(a.args[0]) && k >= 1 && k <= 3 {
				no = true
			}
		case OLt:
			if matchFails(t, v) && t.mentions(cut) {
				no = true
			}
			if n, ok := t.args[1].intVal(); ok && n == 0 && v && t.args[0].op == OCall && t.args[0].s == "strings.Index" && isLine(t.args[0].args[0]) {
				if sep, ok := t.args[0].args[1].strVal(); ok && sep == ": " {
					no = true
				}
			}
		case OExtract:
			if c := t.args[0]; t.i == 2 && !v && c.op == OCall && c.s == "strings.Cut" && isLine(c.args[0]) {
				if sep, ok := c.args[1].strVal(); ok && sep == ": " {
					no = true
				}
			}
		}
	})
	return no
}

// matchCall: t takes a line apart at ': '.
func matchCall(t *Term) *Term {
	for t.op == OInit || t.op == OIndex {
		t = t.args[0]
	}
	if t.op != OCall {
		return nil
	}
	switch t.s {
	case "(*regexp.Regexp).FindAllStringSubmatch", "(*regexp.Regexp).FindStringSubmatch":
		if cutsAt(t.args[0], ": ") {
			return t
		}
	case "strings.SplitN":
		if sep, ok := t.args[1].strVal(); ok && sep == ": " {
			return t
		}
	}
	return nil
}

// cutsAt: the pattern splits a line at its first sep.
func cutsAt(re *Term, sep string) bool {
	if re.op != OCall || re.s != "regexp.MustCompile" {
		return false
	}
	pat, ok := re.args[0].strVal()
	if !ok {
		return false
	}
	r, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return false
	}
	subs := []*syntax.Regexp{r}
	if r.Op == syntax.OpConcat {
		subs = r.Sub
	}
	if len(subs) > 0 && (subs[0].Op == syntax.OpBeginText || subs[0].Op == syntax.OpBeginLine) {
		subs = subs[1:]
	}
	if n := len(subs); n > 0 && (subs[n-1].Op == syntax.OpEndText || subs[n-1].Op == syntax.OpEndLine) {
		subs = subs[:n-1]
	}
	any := func(r *syntax.Regexp, lazy bool) bool {
		return r.Op == syntax.OpCapture && r.Sub[0].Op == syntax.OpStar && (r.Sub[0].Flags&syntax.NonGreedy != 0) == lazy &&
			(r.Sub[0].Sub[0].Op == syntax.OpAnyCharNotNL || r.Sub[0].Sub[0].Op == syntax.OpAnyChar)
	}
	return len(subs) == 3 && any(subs[0], true) && any(subs[2], false) && subs[1].Op == syntax.OpLiteral && subs[1].Flags&syntax.FoldCase == 0 && string(subs[1].Rune) == sep
}

// headerPart: t is the trimmed part (1: before, 2: after) of a line cut at ': '.
func headerPart(st *State, t *Term) (line *Term, part int64) {
	if t.op != OCall || t.s != "strings.TrimSpace" {
		return nil, 0
	}
	t = st.norm(t.args[0])
	// a[i] of the matches
	if list, idx := elemOf(st, t); list != nil && idx != nil {
		i, ok := st.norm(idx).intVal()
		if !ok {
			return nil, 0
		}
		list = st.norm(list)
		call := list
		if l2, i2 := elemOf(st, list); l2 != nil {
			if n, ok := st.norm(i2).intVal(); !ok || n != 0 {
				return nil, 0
			}
			call = st.norm(l2)
			if call.op != OCall || call.s != "(*regexp.Regexp).FindAllStringSubmatch" {
				return nil, 0
			}
		} else if call.op == OCall && call.s == "(*regexp.Regexp).FindAllStringSubmatch" {
			return nil, 0
		}
		if call.op != OCall {
			return nil, 0
		}
		switch call.s {
		case "(*regexp.Regexp).FindAllStringSubmatch", "(*regexp.Regexp).FindStringSubmatch":
			if cutsAt(call.args[0], ": ") {
				return st.norm(call.args[1]), i
			}
		case "strings.SplitN":
			sep, _ := call.args[1].strVal()
			n, _ := call.args[2].intVal()
			if sep == ": " && n == 2 {
				return st.norm(call.args[0]), i + 1
			}
		}
		return nil, 0
	}
	switch t.op {
	case OExtract:
		if a := t.args[0]; a.op == OCall && a.s == "strings.Cut" && t.i < 2 {
			if sep, ok := a.args[1].strVal(); ok && sep == ": " {
				return st.norm(a.args[0]), int64(t.i) + 1
			}
		}
	case OSub:
		l, lo, hi := t.args[0], t.args[1], t.args[2]
		at := mkCall("strings.Index", tInt, l, kStr(": "))
		if n, ok := lo.intVal(); ok && n == 0 && hi == at {
			return st.norm(l), 1
		}
		if lo == mkAdd(at, kInt(2), tInt) && hi == mkLen(l) {
			return st.norm(l), 2
		}
	}
	return nil, 0
}

// splitOf: list holds the pieces of text between seps.
func splitOf(list, text *Term, sep string) bool {
	if list.op != OCall || list.s != "strings.Split" && list.s != "strings.SplitN" {
		return false
	}
	if list.s == "strings.SplitN" {
		if n, ok := list.args[2].intVal(); !ok || n >= 0 {
			return false
		}
	}
	p, ok := list.args[1].strVal()
	return ok && p == sep && list.args[0] == text
}

// sweeps: the loop visits the elements of a list one by one from the first to
// the last and is left only behind the last ("" when it does).
func (s *Scen) sweeps(m *LoopMark, isList func(*Term) bool, after ...*State) string {
	why := "no list element is visited"
	for k, typ := range m.typs {
		if !isInteger(typ) || k >= len(m.inits) {
			continue
		}
		init, ok := m.inits[k].intVal()
		if !ok {
			continue
		}
		var list *Term
		good := true
		for _, p := range m.parts {
			for _, b := range p.backs {
				if k >= len(b.phis) || b.st.norm(b.phis[k]) != mkAdd(p.phis[k], kInt(1), tInt) && b.phis[k] != mkAdd(p.phis[k], kInt(1), tInt) {
					good, why = false, fmt.Sprintf("a round moves the index to %v", b.phis[k])
					continue
				}
				// the element visited
				want := mkAdd(p.phis[k], kInt(-init), tInt)
				seen := false
				look := func(t *Term) {
					t.mentions(func(u *Term) bool {
						if l, i := indexOf(b.st, u); l != nil && isList(l) && i == want {
							seen, list = true, l
						}
						return false
					})
				}
				b.st.facts.Each(func(id int, v bool) { look(terms[id-1]) })
				for _, e := range b.trace.events() {
					for _, a := range e.args {
						look(a)
					}
					if !seen {
						if el := byIndex(s, m, p, b, e, isList); el != nil {
							look(el)
						}
					}
				}
				if !seen {
					good, why = false, "a round does not look at its element"
				}
			}
		}
		if !good || list == nil {
			continue
		}
		// left behind the last element only
		n := 0
		bad := ""
		check := func(st *State) {
			n++
			for _, p := range m.parts {
				if b, kn := s.x.truth(st, lt(mkAdd(p.phis[k], kInt(-init), tInt), mkLen(list))); kn && !b {
					return
				}
			}
			bad = "the loop may be left before the last element"
		}
		for _, st := range after {
			check(st)
		}
		if len(after) == 0 {
			s.eachPath(func(tr *Trace, st *State, back *LoopMark, out *callOut) {
				for _, e := range tr.events() {
					if e.kind == "loop" && e.loop == m {
						check(st)
						return
					}
				}
			})
		}
		if bad == "" {
			return ""
		}
		why = bad
	}
	return why
}

// entryWriters: only AddEntry puts entries into a catalogue, so nothing can
// bypass the header.
func (c *Check) entryWriters(k *fileT27) {
	ok := map[*ssa.Function]bool{}
	var reach func(f *ssa.Function)
	reach = func(f *ssa.Function) {
		if f == nil || ok[f] || !c.w.isRepo(f) {
			return
		}
		ok[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, is := in.(ssa.CallInstruction); is {
					reach(call.Common().StaticCallee())
				}
			}
		}
	}
	reach(k.add)
	n := 0
	var fns []*ssa.Function
	for f := range c.w.all {
		if c.w.isRepo(f) && pkgPath(f) == modPath+"/translator" {
			fns = append(fns, f)
		}
	}
	sortFns(fns)
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.MapUpdate:
					if typeStr(i.Map.Type()) != mapEntry {
						continue
					}
					n++
					c.put("entry", "entries written in "+fnName(f), ok[f], i.Pos(), "an entry is put into a catalogue bypassing AddEntry, so header and plural rule may not follow it")
				case *ssa.Store:
					fa, is := i.Addr.(*ssa.FieldAddr)
					if !is || !types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), k.ft) {
						continue
					}
					n++
					c.put("entry", "fields of a catalogue written in "+fnName(f), ok[f], i.Pos(), "a field of a catalogue is set outside AddEntry")
				}
			}
		}
	}
	c.assert(n > 0, "entry", "AddEntry writes entries", k.add.Pos(), "no function puts entries into a catalogue")
}
