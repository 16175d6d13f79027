package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- P21: a saved text catalogue holds every entry as the format wants it ----

func init() {
	register(&Rule{id: "P21", min: 20, run: rulePoText,
		rule: "Abstract interpretation of the text writers, the text they hand to the writer taken apart into known texts, terms and what the rounds of loops add, and parsed symbolically as PO text: on every path, a round over the complete list of entries writes exactly the comments, context, id, plural and translations of its entry, each under its keyword, quoted line by line and in the order of the format; a template writes blank translations for all but the header; nothing of the catalogue is modified."})
}

// walk: the elements a loop visits, one by one and to the end; from is the
// index of the first.
func (s *Scen) walk(m *LoopMark, el func(r round) *Term, rounds []round) (list *Term, from int64, why string) {
	if len(rounds) == 0 {
		return nil, 0, "the loop never goes round"
	}
	type cand struct {
		k int
		c int64
	}
	var found *cand
	for _, r := range rounds {
		t := el(r)
		if t == nil {
			return nil, 0, "a round does not take an element"
		}
		l, i := elemOf(r.b.st, r.b.st.norm(t))
		if l == nil {
			return nil, 0, fmt.Sprintf("%v is no element of a list", r.b.st.norm(t))
		}
		if list != nil && l != list {
			return nil, 0, "the rounds take elements of different lists"
		}
		list = l
		ok := false
		for k, typ := range m.typs {
			if !isInteger(typ) || k >= len(m.inits) {
				continue
			}
			d := mkSub(i, r.p.phis[k], tInt)
			c, is := d.intVal()
			if !is {
				continue
			}
			if n := r.b.st.norm(r.b.phis[k]); n != mkAdd(r.p.phis[k], kInt(1), tInt) {
				return nil, 0, fmt.Sprintf("a round moves the index to %v", n)
			}
			if found == nil {
				found = &cand{k, c}
			}
			ok = *found == cand{k, c}
			break
		}
		if !ok {
			return nil, 0, fmt.Sprintf("the element %v is not the one whose turn it is", i)
		}
	}
	init, ok := m.inits[found.k].intVal()
	if !ok {
		return nil, 0, "the loop does not start at a known element"
	}
	bad := ""
	left := 0
	s.eachPath(func(tr *Trace, st *State, back *LoopMark, out *callOut) {
		for _, e := range tr.events() {
			if e.kind != "loop" || e.loop != m {
				continue
			}
			left++
			done := false
			for _, p := range m.parts {
				if b, kn := s.x.truth(st, mkLt(mkAdd(p.phis[found.k], kInt(found.c), tInt), mkLen(list), tInt)); kn && !b {
					done = true
				}
			}
			if !done && bad == "" {
				bad = "the loop may be left before the last element"
			}
		}
	})
	if left == 0 {
		bad = "the end of the loop is not reached"
	}
	return list, init + found.c, bad
}

// values: list holds every value of the catalogue's table once.
func (s *Scen) values(tr *Trace, list, table *Term) string {
	// a copy of a list
	if list.op == OAppend && len(list.args) == 2 && list.args[1].op == OSpread {
		if b := list.args[0]; b.isNil() || b.op == OMkSlice && b.args[0] == kInt(0) {
			return s.values(tr, list.args[1].args[0], table)
		}
	}
	// what was built by a library call
	for t := list; t.op == OCall || t.op == OICall; t = t.args[0] {
		n := callName(t)
		if i := strings.IndexByte(n, '['); i > 0 {
			n = n[:i]
		}
		switch n {
		case "maps.Values":
			if len(t.args) == 1 && (t.args[0] == table || t.args[0].mentions(func(u *Term) bool { return u == table })) {
				return ""
			}
		case "slices.Collect", "slices.SortedFunc", "slices.SortedStableFunc", "slices.Clone":
			if len(t.args) > 0 {
				continue
			}
		}
		break
	}
	why := fmt.Sprintf("%v is not built from the entries", list)
	evs := tr.events()
	for i, e := range evs {
		if e.kind != "loop" || e.loop == nil || len(e.loop.parts) == 0 {
			continue
		}
		m := e.loop
		// the variable
		mine := func(p *LoopPart) (v *Term, init *Term, next func(b *BackIter) *Term) {
			for k, phi := range p.phis {
				if phi == list {
					return phi, m.inits[k], func(b *BackIter) *Term { return b.phis[k] }
				}
			}
			p.init.cells.Each(func(k int, w *Term) {
				if w == list {
					a := terms[k-1]
					v, init, next = w, s.x.load(m.entry, a, list.typ), func(b *BackIter) *Term { return s.x.load(b.st, a, list.typ) }
				}
			})
			return
		}
		v, init, next := mine(m.parts[0])
		if v == nil {
			continue
		}
		why = ""
		if n, k := s.x.truth(m.entry, mkEq(mkLen(init), kInt(0))); !(k && n) && !init.isNil() {
			return fmt.Sprintf("the list starts as %v", init)
		}
		if len(m.parts) > 1 {
			return "the list is built in several ways"
		}
		sawAll := false
		for _, b := range m.parts[0].backs {
			nv := b.st.norm(next(b))
			if nv.op != OAppend || len(nv.args) != 2 || b.st.norm(nv.args[0]) != v || nv.args[1].op == OSpread {
				return fmt.Sprintf("a round makes the list %v", nv)
			}
			got := b.st.norm(nv.args[1])
			ok := false
			for _, be := range b.trace.events() {
				if be.kind == "mapiter" && s.same(m.entry, be.args[0], table) && s.same(b.st, got, be.args[2]) {
					ok = true
				}
			}
			if !ok {
				// by way of the keys
				if k := lookupOf(b.st, got, table); k != nil {
					r := round{p: m.parts[0], b: b}
					l, from, w := s.walk(m, func(round) *Term { return k }, []round{r})
					if w == "" && from == 0 && keysOf(l, table) {
						ok, sawAll = true, true
					}
				}
			}
			if !ok {
				return fmt.Sprintf("a round adds %v", got)
			}
		}
		if sawAll {
			return ""
		}
		for _, f := range evs[i:] {
			if f.kind == "mapdone" && s.same(m.entry, f.args[0], table) {
				return ""
			}
		}
		return "the loop over the entries may stop early"
	}
	return why
}

// emptyTable: the table is known to have no entries.
func (s *Scen) emptyTable(st *State, table *Term) bool {
	mt, ok := table.typ.Underlying().(*types.Map)
	if !ok {
		return false
	}
	if s.x.isNilKnown(st, table) {
		return true
	}
	ms := s.x.mapState(st, table, mt)
	if ms.writes != nil {
		return false
	}
	v, k := s.x.truth(st, mkLt(mkCall("maplen", tInt, ms.ver), kInt(1), tInt))
	return ms.empty || k && v
}

// lookupOf: t is the value a table holds for a key.
func lookupOf(st *State, t, table *Term) *Term {
	if t.op == OMapVal && len(t.args) >= 2 && t.args[0].mentions(func(u *Term) bool { return u == table }) {
		return t.args[1]
	}
	return nil
}

func keysOf(list, table *Term) bool {
	ok := false
	list.mentions(func(u *Term) bool {
		if (u.op == OCall || u.op == OICall) && strings.HasPrefix(callName(u), "maps.Keys") && len(u.args) > 0 && u.args[0].mentions(func(w *Term) bool { return w == table }) {
			ok = true
		}
		return false
	})
	return ok
}

// ---- the text as a sequence of tokens ----

type chunk struct {
	t    *Term // a text, or
	list *Term // the elements of a list
	from int64
}

type poEntry struct {
	fields map[string][]chunk // text under each keyword
	cmts   []chunk
	order  []string
	forms  []form
}

type form struct {
	idx    int64
	text   []chunk
	list   *Term // or one for each element of a list, from idx on
	loopAt *Term
}

type poParser struct {
	s    *Scen
	j    *joiner
	st   *State
	rec  *poEntry
	toks []piece
	lit  string // what is left of a known text
	cur  string
	why  string
	// index variables of the loop around, for a form per element
	idx *Term
}

var poKeywords = []string{"msgctxt", "msgid", "msgid_plural", "msgstr"}

func (p *poParser) fail(f string, a ...any) bool {
	if p.why == "" {
		p.why = fmt.Sprintf(f, a...)
	}
	return false
}

// fill makes the next known text available.
func (p *poParser) fill() bool {
	for p.lit == "" && len(p.toks) > 0 {
		t := p.toks[0]
		if t.rep != nil {
			return false
		}
		v, ok := p.st.norm(t.t).strVal()
		if !ok {
			return false
		}
		p.lit = v
		p.toks = p.toks[1:]
	}
	return p.lit != ""
}

func (p *poParser) end() bool { return !p.fill() && len(p.toks) == 0 }

func (p *poParser) expect(text string) bool {
	for text != "" {
		if !p.fill() {
			return p.fail("%q is expected before %s", text, showPieces(p.toks))
		}
		n := len(text)
		if len(p.lit) < n {
			n = len(p.lit)
		}
		if p.lit[:n] != text[:n] {
			return p.fail("%q is expected where %q is written", text, p.lit)
		}
		p.lit, text = p.lit[n:], text[n:]
	}
	return true
}

// lines parses whole lines up to the end.
func (p *poParser) lines() bool {
	for !p.end() {
		if p.fill() {
			switch {
			case p.lit[0] == '\n':
				p.lit = p.lit[1:]
				p.cur = ""
				continue
			case p.lit[0] == '"':
				if !p.quoted() {
					return false
				}
				continue
			}
			kw, rest := "", ""
			if i := strings.IndexAny(p.lit, " [\n"); i > 0 {
				kw, rest = p.lit[:i], p.lit[i:]
			}
			known := false
			for _, k := range poKeywords {
				known = known || k == kw
			}
			if !known {
				return p.fail("the line starts with %q, which is no keyword", p.lit)
			}
			p.lit = rest
			var f *form
			if rest[0] == '[' {
				if kw != "msgstr" {
					return p.fail("%q has no index", kw)
				}
				p.lit = rest[1:]
				f = &form{}
				if p.fill() {
					k := strings.IndexByte(p.lit, ']')
					n, err := strconv.ParseInt(p.lit[:max(k, 0)], 10, 64)
					if k < 0 || err != nil {
						return p.fail("no index in %q", p.lit)
					}
					f.idx, p.lit = n, p.lit[k:]
				} else if len(p.toks) > 0 && p.toks[0].t != nil {
					t := p.st.norm(p.toks[0].t)
					if t.op != OCall || t.s != "itoa" {
						return p.fail("%v is no index", t)
					}
					f.loopAt = t.args[0]
					p.toks = p.toks[1:]
				}
				if !p.expect("]") {
					return false
				}
			}
			if !p.expect(" ") {
				return false
			}
			for p.fill() && p.lit[0] == ' ' {
				p.lit = p.lit[1:]
			}
			if f != nil {
				p.rec.forms = append(p.rec.forms, *f)
				p.cur = "form"
				p.rec.order = append(p.rec.order, "form")
			} else {
				if _, dup := p.rec.fields[kw]; dup {
					return p.fail("%s is written twice", kw)
				}
				p.rec.fields[kw] = []chunk{}
				p.cur = kw
				p.rec.order = append(p.rec.order, kw)
			}
			if !p.value(true) {
				return false
			}
			continue
		}
		t := p.toks[0]
		if t.rep == nil {
			v := p.st.norm(t.t)
			switch {
			case v.op == OCall && v.s == "quote":
				if !p.value(false) {
					return false
				}
			case v.op == OCall && v.s == "strings.Join" && len(v.args) == 2 && v.args[1] == kStr("\n"):
				// all comments at once
				if p.cur != "" || len(p.rec.order) > 0 {
					return p.fail("a comment behind a keyword")
				}
				p.toks = p.toks[1:]
				if !p.expect("\n") {
					return false
				}
				p.rec.cmts = append(p.rec.cmts, chunk{list: p.st.norm(v.args[0])})
			default:
				// a comment on its own
				if len(p.rec.order) > 0 {
					return p.fail("%v is written unquoted", v)
				}
				p.toks = p.toks[1:]
				if !p.expect("\n") {
					return false
				}
				p.rec.cmts = append(p.rec.cmts, chunk{t: v})
			}
			continue
		}
		if p.quotedLoop(t.rep) {
			if !p.value(false) {
				return false
			}
			continue
		}
		if !p.loop(t.rep) {
			return false
		}
		p.toks = p.toks[1:]
	}
	return true
}

// quotedLoop: the rounds write nothing but quoted texts.
func (p *poParser) quotedLoop(r *repeat) bool {
	if len(r.rounds) == 0 {
		return false
	}
	for _, rd := range r.rounds {
		if len(rd.pieces) == 0 || rd.pieces[0].t == nil {
			return false
		}
		v := rd.b.st.norm(rd.pieces[0].t)
		if v.op != OCall || v.s != "quote" {
			return false
		}
	}
	return true
}

func (p *poParser) add(c chunk) {
	if p.cur == "form" {
		f := &p.rec.forms[len(p.rec.forms)-1]
		f.text = append(f.text, c)
		return
	}
	p.rec.fields[p.cur] = append(p.rec.fields[p.cur], c)
}

func (p *poParser) quoted() bool {
	k := strings.IndexByte(p.lit, '\n')
	if k < 0 {
		return p.fail("the line %q does not end", p.lit)
	}
	v, err := strconv.Unquote(strings.TrimSpace(p.lit[:k]))
	if err != nil || p.cur == "" {
		return p.fail("%q does not belong there", p.lit[:k])
	}
	p.lit = p.lit[k+1:]
	p.add(chunk{t: kStr(v)})
	return true
}

// value parses quoted texts; the first one is needed behind a keyword.
func (p *poParser) value(first bool) bool {
	if p.cur == "" {
		return p.fail("a quoted text that belongs to no keyword")
	}
	if p.fill() {
		if p.lit[0] != '"' {
			return p.fail("%q is not quoted", p.lit)
		}
		return p.quoted()
	}
	if len(p.toks) == 0 {
		return p.fail("no text behind %s", p.cur)
	}
	t := p.toks[0]
	if t.rep == nil {
		v := p.st.norm(t.t)
		if v.op != OCall || v.s != "quote" {
			return p.fail("%v is not quoted", v)
		}
		p.toks = p.toks[1:]
		p.add(chunk{t: v.args[0]})
		return p.expect("\n")
	}
	if !p.quotedLoop(t.rep) {
		return p.fail("%v is not quoted", t)
	}
	for _, r := range t.rep.rounds {
		if len(r.pieces) != 2 || r.pieces[1].t != kStr("\n") {
			return p.fail("a line that does not hold one quoted text: %s", showPieces(r.pieces))
		}
	}
	list, from, why := p.s.walk(t.rep.m, func(r round) *Term { return r.b.st.norm(r.pieces[0].t).args[0] }, t.rep.rounds)
	if why != "" {
		return p.fail("%s", why)
	}
	if first {
		if n := p.j.atLeast(p.st, list); !p.s.x.proveLE(p.st, kInt(from+1), n, 0) {
			return p.fail("there may be no text behind %s", p.cur)
		}
	}
	p.toks = p.toks[1:]
	p.add(chunk{list: list, from: from})
	return true
}

// loop: rounds that write comments or one form each.
func (p *poParser) loop(r *repeat) bool {
	kind := ""
	for _, rd := range r.rounds {
		k := "comment"
		if len(rd.pieces) > 0 && rd.pieces[0].t != nil {
			if v, ok := rd.pieces[0].t.strVal(); ok && strings.HasPrefix(v, "msgstr[") {
				k = "form"
			}
		}
		if kind != "" && kind != k {
			return p.fail("a loop writes lines of different kinds")
		}
		kind = k
	}
	switch kind {
	case "comment":
		if len(p.rec.order) > 0 {
			return p.fail("a comment behind a keyword, or text that is not quoted")
		}
		for _, rd := range r.rounds {
			if len(rd.pieces) != 2 || rd.pieces[0].t == nil || rd.pieces[1].t != kStr("\n") {
				return p.fail("a comment line is written as %s", showPieces(rd.pieces))
			}
		}
		list, from, why := p.s.walk(r.m, func(r round) *Term { return r.pieces[0].t }, r.rounds)
		if why != "" {
			return p.fail("comments: %s", why)
		}
		p.rec.cmts = append(p.rec.cmts, chunk{list: list, from: from})
		return true
	case "form":
		texts := map[*BackIter]*Term{}
		idx := map[*BackIter]*Term{}
		for _, rd := range r.rounds {
			q := &poParser{s: p.s, j: p.j, st: rd.b.st, rec: &poEntry{fields: map[string][]chunk{}}, toks: append([]piece{}, rd.pieces...)}
			if !q.lines() {
				return p.fail("%s", q.why)
			}
			if len(q.rec.forms) != 1 || len(q.rec.fields) > 0 || len(q.rec.cmts) > 0 || q.rec.forms[0].loopAt == nil {
				return p.fail("a round writes more than one translation")
			}
			f := q.rec.forms[0]
			texts[rd.b], idx[rd.b] = p.content(rd.b.st, f.text), f.loopAt
		}
		list, from, why := p.s.walk(r.m, func(r round) *Term { return texts[r.b] }, r.rounds)
		if why != "" {
			return p.fail("translations: %s", why)
		}
		for _, rd := range r.rounds {
			_, i := elemOf(rd.b.st, rd.b.st.norm(texts[rd.b]))
			if !p.s.same(rd.b.st, i, idx[rd.b]) {
				return p.fail("translation %v is written under the index %v", i, idx[rd.b])
			}
		}
		p.rec.forms = append(p.rec.forms, form{idx: from, list: list})
		p.rec.order = append(p.rec.order, "form")
		p.cur = ""
		return true
	}
	return p.fail("a loop that never goes round")
}

// content: the text the chunks make up, nil if that is not known.
func (p *poParser) content(st *State, cs []chunk) *Term {
	var out []*Term
	for i := 0; i < len(cs); i++ {
		c := cs[i]
		if c.list == nil {
			// the first elements of a list whose rest follows
			n := 0
			for k := i; k < len(cs) && cs[k].list == nil; k++ {
				l, ix := elemOf(st, st.norm(cs[k].t))
				if l == nil || !p.s.same(st, ix, kInt(int64(k-i))) {
					break
				}
				n++
				if k+1 < len(cs) && cs[k+1].list == l && cs[k+1].from == int64(n) {
					c, i = chunk{list: l}, k+1
					break
				}
			}
		}
		if c.list == nil {
			out = append(out, st.norm(c.t))
			continue
		}
		if c.from != 0 {
			return nil
		}
		t, ok := p.j.whole(c.list)
		if !ok {
			return nil
		}
		out = append(out, st.norm(t))
	}
	return mkConcat(out...)
}

// ---- the rule ----

type entryF struct {
	t                                 types.Type
	cmts, ctxt, id, pl, id2, str, stN int
}

func (c *Check) entryT() *entryF {
	t := c.w.typ("translator", "Entry")
	if t == nil {
		c.fail("anchor", "Entry", 0, "type Entry is gone")
		return nil
	}
	f := &entryF{t: t, cmts: c.field(t, "MsgCmts", ""), ctxt: c.field(t, "MsgCtxt", ""), id: c.field(t, "MsgID", ""), pl: c.field(t, "IsPlural", ""), id2: c.field(t, "MsgID2", ""), str: c.field(t, "MsgStr", ""), stN: c.field(t, "MsgStrN", "")}
	for _, i := range []int{f.cmts, f.ctxt, f.id, f.pl, f.id2, f.str, f.stN} {
		if i < 0 {
			return nil
		}
	}
	return f
}

// table: the term of the catalogue's table of entries.
func (s *Scen) entryTable(c *Check) *Term {
	ft := c.w.typ("translator", "File")
	if ft == nil {
		return nil
	}
	i := c.field(ft, "entries", "map[string]*t/translator.Entry")
	if i < 0 {
		return nil
	}
	return s.st0.norm(s.at(s.st0, s.args[0], ft, i))
}

func rulePoText(c *Check) {
	ef := c.entryT()
	if ef == nil {
		return
	}
	splits := map[string]bool{}
	for _, n := range c.splitters() {
		splits[n] = true
	}
	n := 0
	for _, f := range c.saveFns() {
		if f.Name() == "SaveAsMo" {
			continue
		}
		n++
		c.poText(f, ef, splits, f.Name() == "SaveAsPot")
	}
	c.assert(n >= 2, "anchor", "text writers", 0, "%d functions write text catalogues, 2 are expected", n)
}

func (c *Check) poText(f *ssa.Function, ef *entryF, splits map[string]bool, template bool) {
	s := c.run(f, scenOpt{opaque: c.savePieces(), pure: c.splitters(), pre: nonNilArgs(c, f)})
	if s == nil {
		return
	}
	name, pos := fnName(f), f.Pos()
	table := s.entryTable(c)
	if table == nil {
		c.fail("anchor", name+": table", pos, "the table of entries is not found")
		return
	}
	w := newTexts(s)
	for i := range s.outs {
		o := &s.outs[i]
		if o.kind != oRet {
			c.fail("po-text", name+": returns", pos, "a path panics or exits")
			continue
		}
		ok, is := s.refine(o.st, []cond{is(eq(o.res, kNil()))})
		if !is {
			continue
		}
		ps, why := w.written(ok.trace, ok, s.args[1])
		if why != "" {
			c.fail("po-text", name+": what is written", pos, "%s", why)
			continue
		}
		var rep *repeat
		for _, p := range ps {
			if p.rep != nil {
				if rep != nil {
					c.fail("po-text", name+": what is written", pos, "several loops write one after the other")
				}
				rep = p.rep
				continue
			}
			v, k := ok.norm(p.t).strVal()
			c.assert(k && strings.Trim(v, "\n") == "", "po-text", name+": nothing but entries is written", pos, "%v is written", p)
		}
		if rep == nil {
			// nothing to write
			if !s.emptyTable(ok, table) {
				c.fail("po-text", name+": every entry is written", pos, "no loop writes the entries")
			}
			continue
		}
		c.poEntries(s, ok, rep, name, ef, splits, template, table)
	}
	nw := 0
	s.effects(func(e *effect) {
		if r := baseOf(e.addr); r.op == OAlloc {
			return
		}
		nw++
		c.fail("po-text", name+": the catalogue stays as it is", e.ev.pos, "saving %s", e.what)
	})
	if nw == 0 {
		c.ok("po-text", name+": the catalogue stays as it is", pos)
	}
}

func (c *Check) poEntries(s *Scen, ok *State, rep *repeat, name string, ef *entryF, splits map[string]bool, template bool, table *Term) {
	pos := s.fn.Pos()
	// the entry of each round
	entries := map[*BackIter]*Term{}
	for _, r := range rep.rounds {
		entries[r.b] = roundElem(s, r, ef.t)
	}
	list, from, why := s.walk(rep.m, func(r round) *Term { return entries[r.b] }, rep.rounds)
	c.assert(why == "" && from == 0, "po-text", name+": every entry is written", pos, "%s (from element %d)", why, from)
	if why != "" {
		return
	}
	m := s.values(ok.trace, list, table)
	c.assert(m == "", "po-text", name+": the entries written are those of the catalogue", pos, "%s", m)
	seen := map[string]bool{}
	for _, r := range rep.rounds {
		p := &poParser{s: s, j: &joiner{s: s, splits: splits, inv: map[*Term]*Term{}, lower: map[*Term]*Term{}}, st: r.b.st, rec: &poEntry{fields: map[string][]chunk{}}, toks: append([]piece{}, r.pieces...)}
		if os.Getenv("VTDEBUG") == "text" {
			fmt.Println("DBG", showPieces(r.pieces))
		}
		fine := p.lines()
		if !fine {
			c.fail("po-text", name+": an entry is well-formed text", pos, "%s", p.why)
			continue
		}
		c.ok("po-text", name+": an entry is well-formed text", pos)
		c.poCompare(s, p, r.b.st, entries[r.b], name, ef, template, seen)
	}
}

// roundElem: the entry that a round is about.
func roundElem(s *Scen, r round, et types.Type) *Term {
	cands := map[*Term]int{}
	look := func(t *Term) {
		t.mentions(func(u *Term) bool {
			if u.op == OField && len(u.args) > 0 && u.args[0].op == OInit && u.args[0].args[0].op == OIndex {
				if p, ok := u.args[0].typ.(*types.Pointer); ok && types.Identical(p.Elem(), et) {
					cands[u.args[0]]++
				}
			}
			return false
		})
	}
	var all func(ps []piece)
	all = func(ps []piece) {
		for _, p := range ps {
			if p.t != nil {
				look(p.t)
				continue
			}
			for _, q := range p.rep.rounds {
				all(q.pieces)
			}
		}
	}
	all(r.pieces)
	var keys []*Term
	for t := range cands {
		keys = append(keys, t)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	if len(keys) != 1 {
		return nil
	}
	return keys[0]
}

func (c *Check) poCompare(s *Scen, p *poParser, st *State, e *Term, name string, ef *entryF, template bool, seen map[string]bool) {
	pos := s.fn.Pos()
	x := s.x
	at := func(i int) *Term { return st.norm(s.at(st, e, ef.t, i)) }
	truth := func(t *Term) (bool, bool) { return x.truth(st, t) }
	empty := func(t *Term) bool { v, k := truth(mkEq(t, kStr(""))); return k && v }
	none := func(t *Term) bool { v, k := truth(mkEq(mkLen(t), kInt(0))); return k && v || st.norm(t).isNil() }
	chk := func(ok bool, what, f string, a ...any) {
		if len(a) > 0 || !ok {
			f = fmt.Sprintf(f, a...)
		}
		c.assert(ok, "po-text", name+": "+what, pos, "%s\n%s", f, st.factString())
	}
	rec := p.rec
	// comments
	cm := at(ef.cmts)
	switch {
	case len(rec.cmts) == 1 && rec.cmts[0].list != nil:
		chk(s.same(st, rec.cmts[0].list, cm) && rec.cmts[0].from == 0, "the comments are those of the entry", "%v from %d", rec.cmts[0].list, rec.cmts[0].from)
	case len(rec.cmts) == 0:
		chk(none(cm), "the comments are those of the entry", "none are written")
	default:
		chk(false, "the comments are those of the entry", "other lines are written as well")
	}
	text := func(kw, what string, i int, always bool) {
		got, ok := rec.fields[kw]
		want := at(i)
		if !ok {
			chk(!always && empty(want), what, "it is not written")
			return
		}
		t := p.content(st, got)
		chk(t != nil && p.j.equal(st, t, want), what, "%v is written instead of %v", t, want)
	}
	text("msgctxt", "the context is that of the entry", ef.ctxt, false)
	text("msgid", "the id is that of the entry", ef.id, true)
	pl, known := truth(at(ef.pl))
	if !known {
		chk(false, "the plural is that of the entry", "it is written without asking whether there is one")
		return
	}
	if pl {
		text("msgid_plural", "the plural is that of the entry", ef.id2, true)
	} else {
		_, has := rec.fields["msgid_plural"]
		chk(!has, "the plural is that of the entry", "an entry without plural is written with one")
	}
	// order
	rank := map[string]int{"msgctxt": 1, "msgid": 2, "msgid_plural": 3, "msgstr": 4, "form": 5}
	okOrder := true
	for i := 1; i < len(rec.order); i++ {
		a, b := rank[rec.order[i-1]], rank[rec.order[i]]
		okOrder = okOrder && (a < b || a == b && a == 5)
	}
	chk(okOrder, "the parts of an entry come in the order of the format", "%v", rec.order)
	if template {
		c.potTranslations(s, p, st, chk, at, ef, pl)
		return
	}
	// translations
	str, strN := at(ef.str), at(ef.stN)
	got, has := rec.fields["msgstr"]
	if has {
		t := p.content(st, got)
		chk(t != nil && p.j.equal(st, t, str), "the translation is that of the entry", "%v is written", t)
	} else {
		chk(empty(str), "the translation is that of the entry", "it is not written")
	}
	blank := int64(0)
	written := false
	for _, f := range rec.forms {
		switch {
		case f.list != nil:
			chk(s.same(st, f.list, strN) && f.idx == 0 && !written, "the translations are those of the entry", "%v from %d", f.list, f.idx)
			written = true
		default:
			t := p.content(st, f.text)
			chk(t == kStr("") && none(strN) && f.loopAt == nil && f.idx == blank, "the translations are those of the entry", "%v is written under %d", t, f.idx)
			blank++
		}
	}
	chk(written || none(strN), "the translations are those of the entry", "they are not written")
	some := has && !pl || blank > 0
	if v, k := truth(mkLt(kInt(0), mkLen(strN), tInt)); written && k && v {
		some = true
	}
	if has && !empty(str) {
		some = true // as the entry is
	}
	if v, k := truth(mkEq(str, kStr(""))); has && k && !v {
		some = true
	}
	if !some {
		// unless it is known whether there are any
		if _, k := truth(mkLt(kInt(0), mkLen(strN), tInt)); !k && written {
			a, f1 := s.refine(st, []cond{is(mkEq(mkLen(strN), kInt(0)))})
			_ = a
			some = !f1
		}
	}
	chk(some, "an entry has a translation line", "an entry may be written without any, and other tools reject the file")
}

func (c *Check) potTranslations(s *Scen, p *poParser, st *State, chk func(bool, string, string, ...any), at func(int) *Term, ef *entryF, pl bool) {
	rec := p.rec
	got, has := rec.fields["msgstr"]
	if pl {
		chk(!has && len(rec.forms) >= 2, "a template has blank translations", "%d lines for a plural", len(rec.forms))
		for i, f := range rec.forms {
			t := p.content(st, f.text)
			chk(f.list == nil && f.loopAt == nil && f.idx == int64(i) && t == kStr(""), "a template has blank translations", "%v under %d", t, f.idx)
		}
		return
	}
	chk(has && len(rec.forms) == 0, "a template has blank translations", "%d lines for a message without plural", len(rec.forms))
	if !has {
		return
	}
	t := p.content(st, got)
	hdr, known := s.x.truth(st, mkEq(at(ef.id), kStr("")))
	ctxt, knownC := s.x.truth(st, mkEq(at(ef.ctxt), kStr("")))
	switch {
	case known && !hdr || knownC && !ctxt:
		chk(t == kStr(""), "a template has blank translations", "%v is written", t)
	case known && knownC:
		chk(t != nil && p.j.equal(st, t, at(ef.str)), "the header of a template is written", "%v is written", t)
	default:
		chk(false, "the header of a template is written", "it is not told from a message")
	}
}
