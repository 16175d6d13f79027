package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---- P37: a text catalogue is read as what its lines say ----

func init() {
	register(&Rule{id: "P37", min: 20, run: rulePoRead,
		rule: "Abstract interpretation of the text readers over all contents. The loop over the lines of an entry is split by its state variables and composed with the automaton of the PO format (which keyword came last, whether the entry has a plural): for every reachable pair, each way round takes exactly the next line, appends its unquoted text to exactly the field of its keyword or of the line it continues, and every way out either is the end of the file, leaves the line for the next entry where the format starts one, or rejects a line the format has no place for. The rounds over the entries begin with an empty entry at the line left over, and store exactly the valid entries under their key."})
}

// pvar is what a loop changes: a local variable or a place in memory.
type pvar struct {
	k    int // local variable, or
	addr *Term
	typ  types.Type
}

func (s *Scen) varAt(p *LoopPart, v pvar) *Term {
	if v.addr == nil {
		return p.phis[v.k]
	}
	return p.init.norm(s.x.load(p.init, v.addr, v.typ))
}

func (s *Scen) varNext(b *BackIter, v pvar) *Term {
	if v.addr == nil {
		return b.st.norm(b.phis[v.k])
	}
	return b.st.norm(s.x.load(b.st, v.addr, v.typ))
}

func (s *Scen) varInit(m *LoopMark, v pvar) *Term {
	if v.addr == nil {
		return m.entry.norm(m.inits[v.k])
	}
	return m.entry.norm(s.x.load(m.entry, v.addr, v.typ))
}

// varsOf: everything that is not the same at the start of every round.
func (s *Scen) varsOf(m *LoopMark) []pvar {
	var vs []pvar
	for k, t := range m.typs {
		vs = append(vs, pvar{k: k, typ: t})
	}
	ids := map[int]types.Type{}
	for _, p := range m.parts {
		p.init.cells.Each(func(k int, w *Term) {
			a := terms[k-1]
			if a.ownedBy(m.inst) || w.typ == nil {
				return
			}
			if w.ownedBy(m.inst) {
				ids[k] = cellType(a, w)
				return
			}
			if e, ok := m.entry.cells.Get(k); !ok || e != w {
				ids[k] = cellType(a, w)
			}
		})
		for _, b := range p.backs {
			b.st.cells.Each(func(k int, w *Term) {
				a := terms[k-1]
				if a.ownedBy(m.inst) || w.typ == nil {
					return
				}
				if e, ok := m.entry.cells.Get(k); !ok || e != w {
					ids[k] = cellType(a, w)
				}
			})
		}
	}
	var ks []int
	for k := range ids {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		vs = append(vs, pvar{k: -1, addr: terms[k-1], typ: ids[k]})
	}
	return vs
}

func (v pvar) String() string {
	if v.addr != nil {
		return v.addr.String()
	}
	return fmt.Sprintf("local variable %d", v.k)
}

type poState struct {
	prev string // the keyword last read
	pl   bool
}

func (p poState) String() string {
	n := p.prev
	if n == "" {
		return "at the start of an entry"
	}
	return "after " + n
}

var poPrefix = map[string]string{"comment": "#", "msgctxt": "msgctxt ", "msgid": "msgid ", "msgid_plural": "msgid_plural ", "msgstr": "msgstr ", "continuation": "\""}
var poClasses = []string{"blank", "comment", "msgctxt", "msgid_plural", "msgid", "msgstr[]", "msgstr", "continuation"}

// poStep: what the format does with a line of a class: it belongs to the
// entry (take), starts the next one (end), or has no place (free).
func poStep(s poState, class string) string {
	switch class {
	case "blank":
		return "take"
	case "comment", "msgctxt":
		switch s.prev {
		case "":
			return "take"
		case "msgstr", "msgstr[]":
			return "end"
		}
	case "msgid":
		switch s.prev {
		case "", "msgctxt":
			return "take"
		case "msgstr", "msgstr[]":
			return "end"
		}
	case "msgid_plural", "msgstr":
		if s.prev == "msgid" {
			return "take"
		}
	case "msgstr[]":
		if s.prev == "msgid_plural" || s.prev == "msgstr[]" {
			return "take"
		}
	case "continuation":
		if s.prev != "" {
			return "take"
		}
		return "reject"
	}
	return "free"
}

type poReader struct {
	c     *Check
	s     *Scen
	ef    *entryF
	fn    *ssa.Function
	name  string
	pot   bool
	file  *Term // the catalogue returned
	fileT types.Type
	entI  int
	lines *Term // the list of lines
	m     *LoopMark
	vars  []pvar
	pos   *pvar // the index of the next line is this
	off   int64 // plus this
	role  map[string]pvar
	reach map[*LoopPart]map[poState]bool
	ways  map[string]bool
}

// linesOf: t is the list of the lines of the content.
func (r *poReader) linesOf(t *Term) bool {
	if t == nil || (t.op != OCall && t.op != OICall) || callName(t) != "strings.Split" || len(t.args) != 2 || t.args[1] != kStr("\n") {
		return false
	}
	u := t.args[0]
	switch {
	case u.op == OCall && u.s == "strings.ReplaceAll":
		if len(u.args) != 3 || u.args[1] != kStr("\r") || u.args[2] != kStr("") {
			return false
		}
	case u.op == OCall && u.s == "strings.Replace":
		if len(u.args) != 4 || u.args[1] != kStr("\r") || u.args[2] != kStr("") {
			return false
		}
		if n, ok := u.args[3].intVal(); !ok || n >= 0 {
			return false
		}
	default:
		return false
	}
	v := u.args[0]
	return v.op == OConv && len(v.args) == 1 && v.args[0] == r.s.args[0]
}

// lineOf: the line a round looks at and its index.
func (r *poReader) lineOf(st *State, p *LoopPart) (line, idx *Term) {
	st.facts.Each(func(id int, v bool) {
		l, _ := lineTest(terms[id-1])
		if l == nil {
			return
		}
		l = st.norm(l)
		if l.op == OCall && l.s == "strings.TrimSpace" {
			return
		}
		list, i := elemOf(st, l)
		if list == nil || !r.linesOf(list) || !inLoop(l, r.m.inst) {
			return
		}
		if r.pos != nil {
			if n, ok := mkSub(i, r.s.varAt(p, *r.pos), tInt).intVal(); !ok || n != r.off {
				return
			}
		}
		line, idx = l, i
		r.lines = list
	})
	return
}

func callOf(n string, args ...*Term) *Term {
	t := types.Type(tStr)
	if n == "strings.HasPrefix" {
		t = tBool
	}
	return pureCall(n, t, args)
}

// is: whether the line is known to be, or not to be, of a class.
func (r *poReader) is(st *State, p *LoopPart, line *Term, class string) (v, known bool) {
	switch class {
	case "blank":
		t := callOf("strings.TrimSpace", line)
		if v, k := r.s.x.truth(st, mkEq(t, kStr(""))); k {
			return v, k
		}
		return r.s.x.truth(st, mkEq(mkLen(t), kInt(0)))
	case "msgstr[]":
		st.facts.Each(func(id int, f bool) {
			t := terms[id-1]
			if t.op != OCall || t.s != "strings.HasPrefix" || st.norm(t.args[0]) != line {
				return
			}
			if n := formNo(st.norm(t.args[1])); n != nil {
				// the number of forms read so far
				if role, ok := r.role["msgstr[]"]; ok {
					l := mkLen(r.s.varAt(p, role))
					if st.norm(n) != st.norm(l) && !(r.s.x.proveLE(st, n, l, 0) && r.s.x.proveLE(st, l, n, 0)) {
						return
					}
				}
				v, known = f, true
			}
		})
		return
	}
	return r.s.x.truth(st, callOf("strings.HasPrefix", line, kStr(poPrefix[class])))
}

// formNo: the number n of a prefix "msgstr[n] ".
func formNo(t *Term) *Term {
	if v, ok := t.strVal(); ok {
		var n int64
		if k, err := fmt.Sscanf(v, "msgstr[%d]", &n); err == nil && k == 1 && v == fmt.Sprintf("msgstr[%d] ", n) {
			return kInt(n)
		}
		return nil
	}
	if t.op != OConcat || len(t.args) != 3 {
		return nil
	}
	a, ok1 := t.args[0].strVal()
	b, ok2 := t.args[2].strVal()
	if !ok1 || !ok2 || a != "msgstr[" || b != "] " || t.args[1].op != OCall || t.args[1].s != "itoa" {
		return nil
	}
	return t.args[1].args[0]
}

// classify: the class a line is known to be of.
func (r *poReader) classify(st *State, p *LoopPart, line *Term) string {
	for _, k := range poClasses {
		if v, kn := r.is(st, p, line, k); kn && v {
			return k
		}
	}
	return ""
}

// unquoted: the text of the line that this round unquotes.
func (r *poReader) unquoted(tr *Trace, st *State, p *LoopPart, line *Term, class string) (text *Term, why string) {
	for _, e := range tr.events() {
		if e.kind != "call" || e.name != "strconv.Unquote" || len(e.res) == 0 || e.res[0] == nil {
			continue
		}
		if text != nil {
			return nil, "two texts are unquoted"
		}
		a := st.norm(e.args[0])
		if a.op != OCall || a.s != "strings.TrimSpace" {
			return nil, fmt.Sprintf("%v is unquoted, white space around the text is not dropped", a)
		}
		rest := st.norm(a.args[0])
		ok := false
		switch {
		case class == "continuation":
			ok = rest == line
		case rest.op == OCall && rest.s == "strings.TrimPrefix" && st.norm(rest.args[0]) == line:
			q := st.norm(rest.args[1])
			if class == "msgstr[]" {
				if n := formNo(q); n != nil {
					l := mkLen(r.s.varAt(p, r.role["msgstr[]"]))
					ok = st.norm(n) == st.norm(l) || r.s.x.proveLE(st, n, l, 0) && r.s.x.proveLE(st, l, n, 0)
				}
			} else {
				ok = q == kStr(poPrefix[class])
			}
		case rest.op == OSub && rest.args[0] == line && st.norm(rest.args[2]) == st.norm(mkLen(line)):
			n, is := rest.args[1].intVal()
			ok = is && class != "msgstr[]" && n == int64(len(poPrefix[class]))
			if class == "msgstr[]" {
				st.facts.Each(func(id int, f bool) {
					t := terms[id-1]
					if f && t.op == OCall && t.s == "strings.HasPrefix" && st.norm(t.args[0]) == line && formNo(st.norm(t.args[1])) != nil && st.norm(mkLen(t.args[1])) == st.norm(rest.args[1]) {
						ok = true
					}
				})
			}
		}
		if !ok {
			return nil, fmt.Sprintf("%v is unquoted, which is not the text behind the keyword", a)
		}
		text = mkExtract(e.res[0], 0, tStr)
	}
	if text == nil {
		return nil, "its text is not unquoted"
	}
	return text, ""
}

// grew: v is old with a text behind it.
func (r *poReader) grew(st *State, old, v, text *Term) bool {
	if v == st.norm(mkConcat(old, text)) || v == mkConcat(st.norm(old), st.norm(text)) {
		return true
	}
	return v == st.norm(text) && r.s.x.proveLE(st, mkLen(old), kInt(0), 0)
}

func (r *poReader) appended(st *State, old, v, el *Term) bool {
	its := r.s.x.items(st, v)
	if len(its) == 0 || st.norm(its[len(its)-1]) != st.norm(el) {
		return false
	}
	if len(its) == 1 {
		return r.s.x.isNilKnown(st, old) || r.s.x.proveLE(st, mkLen(old), kInt(0), 0)
	}
	return len(its) == 2 && its[0].op == OSpread && st.norm(its[0].args[0]) == st.norm(old)
}

// elemGrew: the last element of the list got a text behind it.
func (r *poReader) elemGrew(tr *Trace, st *State, list, text *Term) bool {
	n := 0
	ok := false
	for _, e := range tr.events() {
		if e.kind != "store" || len(e.args) < 2 {
			continue
		}
		l, i := indexOf(st, e.args[0])
		if l == nil || l != st.norm(list) {
			continue
		}
		n++
		if d, is := mkSub(mkLen(l), i, tInt).intVal(); !is || d != 1 {
			return false
		}
		v := st.norm(e.args[1])
		if v.op == OConcat && len(v.args) == 2 && v.args[1] == text {
			l2, i2 := elemOf(st, v.args[0])
			ok = l2 == l && i2 == i
		}
	}
	return ok && n == 1
}

func rulePoRead(c *Check) {
	ef := c.entryT()
	ft := c.w.typ("translator", "File")
	if ef == nil || ft == nil {
		c.fail("anchor", "catalogue types", 0, "the types of catalogue and entry are gone")
		return
	}
	ei := c.field(ft, "entries", "map[string]*t/translator.Entry")
	if ei < 0 {
		return
	}
	for _, n := range []string{"ReadPo", "ReadPot"} {
		fn := c.fn("translator", n)
		if fn == nil {
			continue
		}
		s := c.run(fn, scenOpt{setup: func(x *Exec) { x.watchPure = primitiveReads }})
		r := &poReader{c: c, s: s, ef: ef, fn: fn, name: fnName(fn), pot: n == "ReadPot", fileT: ft, entI: ei, ways: map[string]bool{}}
		r.run()
	}
}

func (r *poReader) run() {
	c, s := r.c, r.s
	for i := range s.outs {
		o := &s.outs[i]
		if o.kind == oRet && o.res != nil && o.res.op == OTuple && len(o.res.args) == 2 && s.x.isNilKnown(o.st, o.res.args[1]) {
			f := o.st.norm(o.res.args[0])
			if r.file == nil {
				r.file = f
			}
			c.assert(f == r.file, "result", r.name+": one catalogue is returned", r.fn.Pos(), "%v and %v are returned", f, r.file)
		}
	}
	if r.file == nil {
		c.fail("result", r.name+": one catalogue is returned", r.fn.Pos(), "no outcome is a catalogue")
		return
	}
	n := 0
	for _, m := range s.x.marks {
		reads := false
		for _, p := range m.parts {
			for _, b := range p.backs {
				nested := map[int]bool{}
				for _, e := range b.trace.events() {
					if e.kind == "loop" && e.loop != nil {
						nested[e.loop.inst] = true
					}
					if e.kind == "call" && e.name == "strconv.Unquote" && len(e.res) > 0 && e.res[0] != nil {
						// not from the last round of a loop inside
						in := false
						for i := range nested {
							in = in || inLoop(e.res[0], i)
						}
						reads = reads || !in
					}
				}
			}
		}
		if reads {
			n++
			r.entry(m)
		}
	}
	c.assert(n > 0, "anchor", r.name+": loop over the lines of an entry", r.fn.Pos(), "no loop unquotes the text of a line")
}

// entry decides one loop over the lines of an entry.
func (r *poReader) entry(m *LoopMark) {
	c, s := r.c, r.s
	r.m, r.pos, r.lines, r.role, r.reach = m, nil, nil, map[string]pvar{}, map[*LoopPart]map[poState]bool{}
	pos := m.loop.header.Instrs[0].Pos()
	r.vars = s.varsOf(m)
	// which variable counts the lines
	for _, p := range m.parts {
		for _, b := range p.backs {
			if r.pos != nil {
				break
			}
			_, idx := r.lineOf(b.st, p)
			if idx == nil {
				continue
			}
			for i := range r.vars {
				v := r.vars[i]
				if !isInteger(v.typ) || !s.varAt(p, v).ownedBy(m.inst) {
					continue
				}
				if n, ok := mkSub(idx, s.varAt(p, v), tInt).intVal(); ok {
					r.pos, r.off = &v, n
					break
				}
			}
		}
	}
	if r.pos == nil {
		c.fail("line", r.name+": the line a round takes", pos, "no round takes a line of the content whose number is known")
		return
	}
	// which variable is filled by which keyword
	fields := []string{"msgctxt", "msgid", "msgid_plural", "msgstr", "msgstr[]", "comment"}
	for _, k := range fields {
		for _, p := range m.parts {
			for _, b := range p.backs {
				line, _ := r.lineOf(b.st, p)
				if line == nil {
					continue
				}
				if v, kn := r.is(b.st, p, line, k); !kn || !v {
					continue
				}
				for _, v := range r.vars {
					old, next := s.varAt(p, v), s.varNext(b, v)
					hit := false
					switch {
					case k == "comment":
						hit = isStringSlice(v.typ) && r.appended(b.st, old, next, line)
					default:
						text := firstText(b.trace)
						if text == nil {
							break
						}
						if k == "msgstr[]" {
							hit = isStringSlice(v.typ) && r.appended(b.st, old, next, text)
						} else {
							hit = isString(v.typ) && r.grew(b.st, old, next, text)
						}
					}
					if hit {
						if _, dup := r.role[k]; !dup {
							r.role[k] = v
						}
					}
				}
			}
		}
		_, ok := r.role[k]
		c.assert(ok, "effect", r.name+": "+k+" lines are kept", pos, "no round adds a %s line to anything", k)
		if !ok {
			return
		}
	}
	used := map[string]string{}
	for _, k := range fields {
		v := r.role[k].String()
		if o := used[v]; o != "" {
			c.fail("effect", r.name+": "+k+" lines are kept", pos, "the texts of %s and %s go to the same place", o, k)
			return
		}
		used[v] = k
	}
	r.product(pos)
	r.leave(pos)
}

func firstText(tr *Trace) *Term {
	for _, e := range tr.events() {
		if e.kind == "call" && e.name == "strconv.Unquote" && len(e.res) > 0 && e.res[0] != nil {
			return mkExtract(e.res[0], 0, tStr)
		}
	}
	return nil
}

func isStringSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isString(sl.Elem())
}

// product composes the parts of the loop with the automaton of the format.
func (r *poReader) product(pos token.Pos) {
	c, s, m := r.c, r.s, r.m
	type pair struct {
		p *LoopPart
		s poState
	}
	var work []pair
	push := func(p *LoopPart, st poState) {
		if r.reach[p] == nil {
			r.reach[p] = map[poState]bool{}
		}
		if !r.reach[p][st] {
			r.reach[p][st] = true
			work = append(work, pair{p, st})
		}
	}
	push(m.parts[0], poState{})
	for len(work) > 0 {
		w := work[0]
		work = work[1:]
		for _, b := range w.p.backs {
			line, idx := r.lineOf(b.st, w.p)
			if line == nil {
				c.fail("line", r.name+": the line a round takes", pos, "%v, a round does not look at the next line\n%s", w.s, b.st.factString())
				continue
			}
			k := r.classify(b.st, w.p, line)
			if k == "" {
				c.fail("line", r.name+": the line a round takes", pos, "%v, the kind of the line is not known\n%s", w.s, b.st.factString())
				continue
			}
			c.ok("line", r.name+": the line a round takes", pos)
			// as counted in the next round
			to := mkAdd(s.varNext(b, *r.pos), kInt(r.off), tInt)
			c.assert(b.st.norm(to) == b.st.norm(mkAdd(idx, kInt(1), tInt)), "line", r.name+": the next round takes the next line", pos, "%v, behind a %s line the reader goes from line %v to %v", w.s, k, idx, to)
			what := fmt.Sprintf("%s: %s line %v", r.name, k, w.s)
			step := poStep(w.s, k)
			next := w.s
			why := ""
			var grown string
			var text *Term
			switch k {
			case "blank":
			case "comment":
				grown = "comment"
				text = line
			case "continuation":
				grown = w.s.prev
			default:
				grown = k
				next = poState{k, w.s.pl || k == "msgid_plural"}
			}
			switch step {
			case "end":
				why = "the line belongs to the next entry but is added to this one"
			case "reject":
				why = "the line continues nothing but is accepted"
			}
			if why == "" && grown != "" && text == nil {
				text, why = r.unquoted(b.trace, b.st, w.p, line, k)
			}
			if why == "" {
				for _, f := range []string{"msgctxt", "msgid", "msgid_plural", "msgstr", "msgstr[]", "comment"} {
					v := r.role[f]
					old, now := b.st.norm(s.varAt(w.p, v)), s.varNext(b, v)
					ok := false
					switch {
					case f != grown:
						ok = old == now && !r.touched(b.trace, b.st, old)
					case f == "comment":
						ok = r.appended(b.st, old, now, text)
						if step == "free" {
							ok = ok || old == now
						}
					case f == "msgstr[]" && k == "continuation":
						ok = old == now && r.elemGrew(b.trace, b.st, old, text)
					case f == "msgstr[]":
						ok = r.appended(b.st, old, now, text)
					default:
						ok = r.grew(b.st, old, now, text)
						if step == "free" {
							ok = ok || now == b.st.norm(text)
						}
					}
					if !ok && why == "" {
						why = fmt.Sprintf("the text of the %s lines becomes %v, it was %v", f, now, old)
					}
				}
			}
			c.assert(why == "", "effect", what, pos, "%s\n%s", why, b.st.factString())
			push(b.to, next)
		}
	}
	c.assert(len(r.reach) == len(m.parts), "line", r.name+": states of the reader", pos, "%d of %d parts of the loop are reached", len(r.reach), len(m.parts))
	for _, p := range []string{"msgctxt", "msgid", "msgid_plural", "msgstr", "msgstr[]"} {
		ok := false
		for _, ss := range r.reach {
			for st := range ss {
				ok = ok || st.prev == p
			}
		}
		c.assert(ok, "effect", r.name+": an entry can go on behind "+p, pos, "no round takes a %s line", p)
	}
}

// touched: an element of the list is changed.
func (r *poReader) touched(tr *Trace, st *State, list *Term) bool {
	if list.typ == nil || !isStringSlice(list.typ) {
		return false
	}
	for _, e := range tr.events() {
		if e.kind == "store" && len(e.args) >= 2 {
			if l, _ := indexOf(st, e.args[0]); l == list {
				return true
			}
		}
	}
	return false
}

// leave decides every way out of the loop.
func (r *poReader) leave(pos token.Pos) {
	c, s, m := r.c, r.s, r.m
	var outer *LoopMark
	for _, o := range s.x.marks {
		if o == m {
			continue
		}
		for _, p := range o.parts {
			for _, b := range p.backs {
				for _, e := range b.trace.events() {
					if e.kind == "loop" && e.loop == m {
						outer = o
					}
				}
			}
		}
	}
	if outer == nil {
		c.fail("entries", r.name+": loop over the entries", pos, "the loop over the lines of an entry is not part of a loop over the entries")
		return
	}
	ovars := s.varsOf(outer)
	n := 0
	s.eachPath(func(tr *Trace, st *State, back *LoopMark, out *callOut) {
		if back != nil && back != outer || out != nil && out.kind != oRet {
			return
		}
		var part, opart *LoopPart
		evs := tr.events()
		at := -1
		for i, e := range evs {
			if e.kind == "loop" && e.loop == outer {
				opart = e.part
			}
			if e.kind == "loop" && e.loop == m {
				part, at = e.part, i
			}
		}
		if part == nil {
			return
		}
		if back != nil {
			for _, p := range outer.parts {
				for _, b := range p.backs {
					if b.st == st {
						opart = p
					}
				}
			}
		}
		n++
		var sub *Trace
		for _, e := range evs[at+1:] {
			sub = &Trace{sub, e}
		}
		for ss := range r.reach[part] {
			r.way(sub, st, part, opart, outer, ovars, ss, back, out, pos)
		}
	})
	c.assert(n > 0, "entries", r.name+": ways out of the loop over the lines", pos, "there is none")
	// failing without reading a line
	for i := range s.outs {
		o := &s.outs[i]
		if o.kind != oRet || o.res == nil || s.x.isNilKnown(o.st, o.res.args[1]) {
			continue
		}
		seen := false
		for _, e := range o.st.trace.events() {
			seen = seen || e.kind == "loop" && e.loop != nil && len(e.loop.parts) > 0 && e.loop.loop == m.loop
		}
		if !seen {
			v, k := s.x.truth(o.st, mkEq(mkLen(s.args[0]), kInt(0)))
			c.assert(k && v, "rejects", r.name+": only an empty content is rejected unread", r.fn.Pos(), "%v is returned before a line is read\n%s", o.res.args[1], o.st.factString())
		}
	}
	// the entries begin at the first line, and each with nothing
	w, d := r.outerPos(outer, ovars)
	if w == nil {
		c.fail("entries", r.name+": the first line", pos, "the number of the line an entry begins at is not kept from entry to entry")
	} else {
		i, ok := mkAdd(s.varInit(outer, *w), kInt(d+r.off), tInt).intVal()
		c.assert(ok && i == 0, "entries", r.name+": the first line", pos, "reading begins at line %v", mkAdd(s.varInit(outer, *w), kInt(d+r.off), tInt))
	}
	for k, v := range r.role {
		i := s.varInit(m, v)
		ok := i == kStr("") || s.x.isNilKnown(m.entry, i) || s.x.proveLE(m.entry, mkLen(i), kInt(0), 0)
		c.assert(ok, "entries", r.name+": an entry begins without "+k, pos, "an entry begins with %v", i)
	}
}

// outerPos: the variable of the loop over entries the line number comes from.
func (r *poReader) outerPos(outer *LoopMark, ovars []pvar) (*pvar, int64) {
	i := r.s.varInit(r.m, *r.pos)
	for k := range ovars {
		v := ovars[k]
		if !isInteger(v.typ) {
			continue
		}
		for _, p := range outer.parts {
			if !r.s.varAt(p, v).ownedBy(outer.inst) {
				continue
			}
			if d, ok := mkSub(i, r.s.varAt(p, v), tInt).intVal(); ok {
				return &v, d
			}
		}
	}
	return nil, 0
}

// way decides one way out of the loop over lines in one state of the format.
func (r *poReader) way(tr *Trace, st *State, p, op *LoopPart, outer *LoopMark, ovars []pvar, ss poState, back *LoopMark, out *callOut, pos token.Pos) {
	c, s := r.c, r.s
	idx := st.norm(mkAdd(s.varAt(p, *r.pos), kInt(r.off), tInt))
	line, _ := r.lineOf(st, p)
	eof := line == nil && r.lines != nil && s.x.proveLE(st, mkLen(r.lines), idx, 0)
	class := ""
	if line != nil {
		class = r.classify(st, p, line)
	}
	failed := out != nil && !s.x.isNilKnown(out.st, out.res.args[1])
	what := fmt.Sprintf("%s: %s line %v", r.name, class, ss)
	if class == "" {
		what = fmt.Sprintf("%s: a line of another kind %v", r.name, ss)
	}
	if eof {
		what = fmt.Sprintf("%s: end of the file %v", r.name, ss)
	}
	if failed {
		ok, why := r.mayReject(tr, st, p, line, class, ss, eof)
		c.assert(ok, "rejects", what, pos, "a well-formed line is rejected: %s\n%s", why, st.factString())
		return
	}
	switch {
	case eof:
		c.assert(out != nil, "ends", what, pos, "the reader goes on behind the last line")
	case line == nil || class == "":
		c.fail("ends", what, pos, "the entry ends without a reason in its lines\n%s", st.factString())
		return
	default:
		step := poStep(ss, class)
		c.assert(step == "end" || step == "free" || step == "reject", "ends", what, pos, "the line belongs to the entry but ends it")
		c.assert(out == nil, "ends", what, pos, "reading ends before the last line")
		if w, d := r.outerPos(outer, ovars); w != nil && out == nil {
			for _, b := range op.backs {
				if b.st == st {
					to := st.norm(mkAdd(s.varNext(b, *w), kInt(d+r.off), tInt))
					c.assert(to == idx, "ends", what, pos, "the next entry begins at line %v, the line left over is %v", to, idx)
				}
			}
		}
	}
	r.stored(tr, st, p, op, outer, ss, what, pos)
}

// mayReject: the error can be told from the line.
func (r *poReader) mayReject(tr *Trace, st *State, p *LoopPart, line *Term, class string, ss poState, eof bool) (bool, string) {
	if eof {
		return false, "the end of the file"
	}
	if line == nil {
		return false, "no line is looked at"
	}
	for _, e := range tr.events() {
		if e.kind == "call" && e.name == "strconv.Unquote" && len(e.res) > 0 && e.res[0] != nil {
			if v, k := r.s.x.truth(st, mkEq(mkExtract(e.res[0], 1, tErr), kNil())); k && !v {
				if class != "" && class != "blank" && class != "comment" {
					if _, why := r.unquoted(tr, st, p, line, class); why != "" {
						return false, why
					}
					return true, ""
				}
			}
		}
	}
	if class != "" {
		step := poStep(ss, class)
		return step == "free" || step == "reject", "a " + class + " line"
	}
	for _, k := range poClasses {
		step := poStep(ss, k)
		if step != "take" && step != "end" {
			continue
		}
		if v, kn := r.is(st, p, line, k); !kn || v {
			return false, "it may be a " + k + " line"
		}
	}
	return true, ""
}

// stored: exactly a valid entry is kept, with everything that was read.
func (r *poReader) stored(tr *Trace, st *State, p, op *LoopPart, outer *LoopMark, ss poState, what string, pos token.Pos) {
	c, s, ef := r.c, r.s, r.ef
	str, stN := s.varAt(p, r.role["msgstr"]), s.varAt(p, r.role["msgstr[]"])
	id, ctxt := s.varAt(p, r.role["msgid"]), s.varAt(p, r.role["msgctxt"])
	conds := []cond{{mkEq(str, kStr("")), true}, {mkEq(mkLen(stN), kInt(0)), true}}
	if r.pot {
		conds = append(conds, cond{mkEq(id, kStr("")), true}, cond{mkEq(ctxt, kStr("")), true})
	}
	mt := r.fileT.Underlying().(*types.Struct).Field(r.entI).Type()
	n := 0
	for _, e := range tr.events() {
		if e.kind != "mapset" && e.kind != "mapdel" || len(e.args) < 2 {
			continue
		}
		if mp, ok := e.args[0].typ.Underlying().(*types.Map); !ok || !types.Identical(mp, mt.Underlying()) {
			continue
		}
		if e.kind == "mapdel" {
			c.fail("stored", what, pos, "an entry is removed")
			return
		}
		n++
		if cur := st.norm(s.at(st, r.file, r.fileT, r.entI)); st.norm(e.args[0]) != cur {
			c.fail("stored", what, pos, "the entry goes to %v, the catalogue holds %v", st.norm(e.args[0]), cur)
			return
		}
		v := st.norm(e.args[2])
		if !baseOf(v).ownedBy(outer.inst) {
			c.fail("stored", what, pos, "the same entry %v is stored for every entry of the file", v)
			return
		}
		for _, f := range []struct {
			k string
			i int
		}{{"comment", ef.cmts}, {"msgctxt", ef.ctxt}, {"msgid", ef.id}, {"msgid_plural", ef.id2}, {"msgstr", ef.str}, {"msgstr[]", ef.stN}} {
			want, got := st.norm(s.varAt(p, r.role[f.k])), st.norm(s.at(st, v, ef.t, f.i))
			if want != got {
				c.fail("stored", what, pos, "the %s of the entry is %v, %v was read", f.k, got, want)
				return
			}
		}
		if pl, k := s.x.truth(st, s.at(st, v, ef.t, ef.pl)); !k || pl != ss.pl {
			c.fail("stored", what, pos, "the entry is marked plural: %v, it has a plural: %v", st.norm(s.at(st, v, ef.t, ef.pl)), ss.pl)
			return
		}
		key := c.method(types.NewPointer(ef.t), "Key")
		if key == nil {
			return
		}
		for _, res := range s.eval(st, key, v) {
			if res.st.norm(res.t) != res.st.norm(e.args[1]) {
				c.fail("stored", what, pos, "the entry is kept under %v, its key is %v", st.norm(e.args[1]), res.st.norm(res.t))
				return
			}
		}
	}
	if n > 1 {
		c.fail("stored", what, pos, "more than one entry is stored")
		return
	}
	// what was there before stays
	old, now := s.at(op.init, r.file, r.fileT, r.entI), st.norm(s.at(st, r.file, r.fileT, r.entI))
	if st.norm(old) != now && !s.x.isNilKnown(st, old) {
		c.fail("stored", what, pos, "the entries read before are dropped")
		return
	}
	_, blank := s.refine(st, conds)
	if n == 0 {
		all := true
		for _, cd := range conds {
			v, k := s.x.truth(st, cd.t)
			all = all && k && v == cd.v
		}
		c.assert(all, "stored", what, pos, "an entry with a translation is not stored\n%s", st.factString())
		return
	}
	c.assert(!blank, "stored", what, pos, "what is stored need not be an entry\n%s", st.factString())
}
