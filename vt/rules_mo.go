package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- P22: a saved binary catalogue has the layout of the format ----

func init() {
	register(&Rule{id: "P22", min: 9, run: ruleMoLayout,
		rule: "Abstract interpretation of the binary writer; the bytes it hands on are laid out symbolically, positions being linear in the number of entries and the total lengths of ids and translations. The header names the count and the two tables, each table row the length and the exact position of its text, each text stands there followed by NUL, ids before translations or not, for every entry of the catalogue in ascending order of the written id; the texts are context, id, plural and forms joined as the format says."})
}

type moLayout struct {
	c     *Check
	s     *Scen
	w     *texts
	ef    *entryF
	tr    *Trace
	table *Term
	list  *Term // the list of entries all loops go through
	name  string
	isN   map[*Term]bool
	lists map[*Term]string // what lists built from the entries hold
}

var moN = kSym("number of entries", tInt)

func moSum(which string) *Term { return kSym("total length of the "+which+" texts", tInt) }

func ruleMoLayout(c *Check) {
	ef := c.entryT()
	f := c.fn("translator", "*File.SaveAsMo")
	if ef == nil || f == nil {
		return
	}
	s := c.run(f, scenOpt{opaque: c.savePieces(), pre: nonNilArgs(c, f)})
	if s == nil {
		return
	}
	name, pos := fnName(f), f.Pos()
	table := s.entryTable(c)
	if table == nil {
		c.fail("anchor", name+": table", pos, "the table of entries is not found")
		return
	}
	n := 0
	for i := range s.outs {
		o := &s.outs[i]
		if o.kind != oRet {
			c.fail("mo-layout", name+": returns", pos, "a path panics or exits")
			continue
		}
		ok, is := s.refine(o.st, []cond{is(eq(o.res, kNil()))})
		if !is {
			continue
		}
		n++
		l := &moLayout{c: c, s: s, w: newTexts(s), ef: ef, tr: ok.trace, table: table, name: name, isN: map[*Term]bool{}, lists: map[*Term]string{}}
		l.check(ok)
	}
	c.assert(n > 0, "mo-layout", name+": it can succeed", pos, "no path succeeds")
	nw := 0
	s.effects(func(e *effect) {
		if r := baseOf(e.addr); r.op == OAlloc {
			return
		}
		nw++
		c.fail("mo-layout", name+": the catalogue stays as it is", e.ev.pos, "saving %s", e.what)
	})
	if nw == 0 {
		c.ok("mo-layout", name+": the catalogue stays as it is", pos)
	}
}

type moItem struct {
	at    *Term // position
	p     piece
	order *Term
	size  int64 // of a number
	val   *Term
}

func (l *moLayout) assert(ok bool, what, f string, a ...any) {
	l.c.assert(ok, "mo-layout", l.name+": "+what, l.s.fn.Pos(), f, a...)
}

var binSize = map[string]int64{"uint8": 1, "int8": 1, "byte": 1, "uint16": 2, "int16": 2, "uint32": 4, "int32": 4, "uint64": 8, "int64": 8}

// num takes a number apart.
func moNum(t *Term) (order *Term, size int64, val *Term) {
	if t.op != OCall || t.s != "bin" {
		return nil, 0, nil
	}
	k, _ := t.args[1].strVal()
	return t.args[0], binSize[k], unconv(t.args[2])
}

func (l *moLayout) check(st *State) {
	s := l.s
	ps, why := l.w.written(st.trace, st, s.args[1])
	if why != "" {
		l.assert(false, "what is written", "%s", why)
		return
	}
	if os.Getenv("VTDEBUG") == "text" {
		fmt.Println("DBG", showPieces(ps))
	}
	// the loops over the entries
	entries := map[*BackIter]*Term{}
	for _, e := range st.trace.events() {
		if e.kind != "loop" || e.loop == nil {
			continue
		}
		m := e.loop
		var rounds []round
		good := len(m.parts) > 0
		for _, p := range m.parts {
			for _, b := range p.backs {
				r := round{p: p, b: b}
				el := l.entryOf(r)
				if el == nil {
					good = false
					break
				}
				entries[b] = el
				rounds = append(rounds, r)
			}
		}
		if !good || len(rounds) == 0 {
			continue
		}
		list, from, why := s.walk(m, func(r round) *Term { return entries[r.b] }, rounds)
		if list == nil || list.typ == nil || typeStr(list.typ) != "[]*t/translator.Entry" && !strings.HasSuffix(types.TypeString(list.typ, nil), "translator.Entry") {
			continue
		}
		if why != "" || from != 0 {
			l.assert(false, "every loop goes through all entries", "%s (from element %d)", why, from)
			continue
		}
		if l.list == nil {
			l.list = list
			m := s.values(st.trace, list, l.table)
			l.assert(m == "", "the entries written are those of the catalogue", "%s", m)
		} else {
			l.assert(l.list == list, "all loops go through the entries in the same order", "%v and %v", l.list, list)
		}
	}
	none := l.list == nil && s.emptyTable(st, l.table)
	if l.list == nil && !none {
		l.assert(false, "every entry is written", "no loop goes through the entries")
		return
	}
	if !none {
		l.sorted(st)
		l.mapped(st, entries)
	}

	// lay the items out
	at := kInt(0)
	var items []moItem
	for _, p := range ps {
		if p.rep == nil {
			t := st.norm(p.t)
			it := moItem{at: at, p: p}
			if v, ok := t.strVal(); ok {
				at = mkAdd(at, kInt(int64(len(v))), tInt)
			} else if o, n, v := moNum(t); n > 0 {
				it.order, it.size, it.val = o, n, v
				at = mkAdd(at, kInt(n), tInt)
			} else {
				at = mkAdd(at, mkLen(t), tInt)
			}
			items = append(items, it)
			continue
		}
		items = append(items, moItem{at: at, p: p})
		n, why := l.repSize(p.rep, entries)
		if why != "" {
			l.assert(false, "what a round writes", "%s", why)
			return
		}
		at = mkAdd(at, n, tInt)
	}
	// the header
	word := map[int64]moItem{}
	var order *Term
	sameOrder := true
	for _, it := range items {
		if it.size == 0 {
			continue
		}
		if order == nil {
			order = it.order
		}
		sameOrder = sameOrder && order == it.order
		if k, ok := it.at.intVal(); ok {
			word[k] = it
		}
	}
	if order == nil {
		l.assert(false, "the header", "no number is written")
		return
	}
	get := func(k int64) *Term {
		it, ok := word[k]
		if !ok || it.size != 4 {
			return nil
		}
		return l.eval(it.val, 0)
	}
	is := func(what string, k int64, want *Term) {
		v := get(k)
		l.assert(v != nil && v == want, what, "%v is at byte %d instead of %v", v, k, want)
	}
	magic := get(0)
	ok := false
	if magic != nil {
		n, k := magic.intVal()
		ok = k && uint32(n) == 0x950412de
	}
	l.assert(ok, "the magic number", "%v", magic)
	rev := true
	for _, k := range []int64{4, 6} {
		if it, ok := word[k]; ok {
			v, k := it.val.intVal()
			rev = rev && k && v == 0
		}
	}
	_, four := word[4]
	l.assert(rev && four && (word[4].size == 4 || word[4].size == 2 && word[6].size == 2), "the revision", "it is not 0")
	if none {
		is("the number of entries", 8, kInt(0))
	} else {
		is("the number of entries", 8, moN)
	}
	if v := get(20); v != nil {
		l.assert(v == kInt(0), "no hash table", "its size is %v", v)
	} else {
		l.assert(false, "no hash table", "its size is missing")
	}
	l.assert(get(24) != nil, "the header is complete", "the offset of the hash table is missing")
	o, t := get(12), get(16)
	if o == nil || t == nil {
		l.assert(false, "the tables", "their offsets are missing")
		return
	}
	if none {
		for _, it := range items {
			l.assert(it.p.rep == nil, "nothing but entries is written", "a loop writes where there are no entries")
		}
		l.assert(sameOrder, "all numbers are in the byte order of the magic number", "the byte orders differ")
		return
	}
	// where the texts are
	region := map[string]*Term{}
	for _, it := range items {
		if it.p.rep == nil {
			continue
		}
		if which := l.dataRep(it.p.rep, entries); which != "" {
			if region[which] == nil {
				region[which] = asInt(it.at)
			}
		}
	}
	for _, x := range []struct {
		which string
		at    *Term
	}{{"id", o}, {"translation", t}} {
		found := false
		for _, it := range items {
			if it.p.rep == nil || asInt(it.at) != x.at || l.dataRep(it.p.rep, entries) != "" {
				continue
			}
			found = true
			for _, r := range it.p.rep.rounds {
				for _, p := range r.pieces {
					if p.t != nil {
						if ro, n, _ := moNum(r.b.st.norm(p.t)); n > 0 {
							sameOrder = sameOrder && ro == order
						}
					}
				}
			}
			if region[x.which] == nil {
				l.assert(false, "the "+x.which+" texts", "they are not written one after the other, each followed by NUL")
				break
			}
			why := l.tableRep(it.p.rep, entries, x.which, region[x.which])
			l.assert(why == "", "the "+x.which+" table", "%s", why)
		}
		l.assert(found, "the "+x.which+" table is where the header says", "no table is at %v", x.at)
	}
	l.assert(sameOrder, "all numbers are in the byte order of the magic number", "the byte orders differ")
}

// entryOf: the entry a round is about.
func (l *moLayout) entryOf(r round) *Term {
	cands := map[*Term]bool{}
	r.b.st.facts.Each(func(id int, v bool) { l.entriesIn(terms[id-1], cands) })
	for _, e := range r.b.trace.events() {
		for _, a := range e.args {
			if a != nil {
				l.entriesIn(a, cands)
			}
		}
	}
	r.b.st.cells.Each(func(k int, v *Term) {
		if v != nil && v.op != OSym {
			l.entriesIn(v, cands)
		}
	})
	for _, v := range r.b.phis {
		l.entriesIn(v, cands)
	}
	var keys []*Term
	for t := range cands {
		// an index of this round
		_, i := elemOf(r.b.st, t)
		if i == nil {
			continue
		}
		for k, typ := range typsOf(r) {
			if isInteger(typ) && k < len(r.p.phis) {
				if _, ok := mkSub(i, r.p.phis[k], tInt).intVal(); ok {
					keys = append(keys, t)
				}
			}
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	if len(keys) == 0 {
		return nil
	}
	return keys[0]
}

func typsOf(r round) []types.Type {
	var out []types.Type
	for _, t := range r.p.phis {
		out = append(out, t.typ)
	}
	return out
}

func (l *moLayout) entriesIn(t *Term, out map[*Term]bool) {
	t.mentions(func(u *Term) bool {
		if u.op == OField && len(u.args) > 0 && u.args[0].op == OInit && u.args[0].args[0].op == OIndex {
			if p, ok := u.args[0].typ.(*types.Pointer); ok && types.Identical(p.Elem(), l.ef.t) {
				out[u.args[0]] = true
			}
		}
		return false
	})
}

// spec: the text the format wants for an entry, by cases.
func (l *moLayout) spec(which string, st *State, e *Term) []result {
	s := l.s
	at := func(st *State, i int) *Term { return st.norm(s.at(st, e, l.ef.t, i)) }
	var out []result
	split := func(st *State, c *Term, f func(st *State, v bool)) {
		if v, k := s.x.truth(st, c); k {
			f(st, v)
			return
		}
		for _, v := range []bool{true, false} {
			if r, ok := s.refine(st, []cond{{c, v}}); ok {
				f(r, v)
			}
		}
	}
	if which == "id" {
		split(st, mkEq(at(st, l.ef.ctxt), kStr("")), func(st *State, none bool) {
			split(st, at(st, l.ef.pl), func(st *State, pl bool) {
				var ps []*Term
				if !none {
					ps = append(ps, at(st, l.ef.ctxt), kStr("\x04"))
				}
				ps = append(ps, at(st, l.ef.id))
				if pl {
					ps = append(ps, kStr("\x00"), at(st, l.ef.id2))
				}
				out = append(out, result{st, mkConcat(ps...)})
			})
		})
		return out
	}
	split(st, mkLt(kInt(0), mkLen(at(st, l.ef.stN)), tInt), func(st *State, forms bool) {
		t := at(st, l.ef.str)
		if forms {
			t = pureCall("strings.Join", tStr, []*Term{at(st, l.ef.stN), kStr("\x00")})
		}
		out = append(out, result{st, t})
	})
	return out
}

// agrees: got is, in every case, what f makes of the wanted text.
func (l *moLayout) agrees(which string, st *State, e, got *Term, f func(*Term) *Term) bool {
	if e == nil {
		return false
	}
	rs := l.spec(which, st, e)
	for _, r := range rs {
		if !l.s.same(r.st, l.resolve(r.st, got), f(r.t)) {
			return false
		}
	}
	return len(rs) > 0
}

// resolve puts the text an element of a derived list holds.
func (l *moLayout) resolve(st *State, t *Term) *Term {
	t = st.norm(t)
	if len(l.lists) == 0 {
		return t
	}
	return subst(t, func(u *Term) *Term {
		lst, i := elemOf(st, u)
		if lst == nil {
			return nil
		}
		which, ok := l.lists[lst]
		if !ok {
			return nil
		}
		et := l.list.typ.Underlying().(*types.Slice).Elem()
		e := l.s.x.load(st, mkIndexAddr(l.list, i, et), et)
		rs := l.spec(which, st, e)
		if len(rs) != 1 {
			return nil
		}
		return rs[0].t
	})
}

// mapped finds the lists that hold the texts of all entries.
func (l *moLayout) mapped(st *State, entries map[*BackIter]*Term) {
	for _, e := range st.trace.events() {
		if e.kind != "loop" || e.loop == nil {
			continue
		}
		m := e.loop
		for _, p := range m.parts {
			for k, phi := range p.phis {
				if k < len(m.inits) && isStrings(m.typs[k]) && (m.inits[k].isNil() || l.s.same(m.entry, mkLen(m.inits[k]), kInt(0))) {
					for _, which := range []string{"id", "translation"} {
						good := len(m.parts) == 1
						for _, b := range p.backs {
							v := b.st.norm(b.phis[k])
							good = good && v.op == OAppend && len(v.args) == 2 && v.args[1].op != OSpread && b.st.norm(v.args[0]) == phi && entries[b] != nil &&
								l.agrees(which, b.st, entries[b], v.args[1], func(t *Term) *Term { return t })
						}
						if good && len(p.backs) > 0 {
							l.lists[phi] = which
						}
					}
				}
			}
			// stored at the index of the entry
			stores := map[*Term]string{}
			for bi, b := range p.backs {
				for _, ev := range b.trace.events() {
					if ev.kind != "store" || ev.args[0].op != OIndex || !isString(ev.args[1].typ) || entries[b] == nil {
						continue
					}
					lst, i := indexOf(b.st, ev.args[0])
					_, ei := elemOf(b.st, b.st.norm(entries[b]))
					for _, which := range []string{"id", "translation"} {
						if i == ei && (bi == 0 || stores[lst] == which) && l.agrees(which, b.st, entries[b], ev.args[1], func(t *Term) *Term { return t }) {
							stores[lst] = which
						}
					}
				}
			}
			for lst, which := range stores {
				n := 0
				for _, b := range p.backs {
					for _, ev := range b.trace.events() {
						if ev.kind == "store" && ev.args[0].op == OIndex && st.norm(ev.args[0].args[0]) == lst {
							n++
						}
					}
				}
				if n == len(p.backs) && len(m.parts) == 1 && lst.op == OMkSlice {
					l.lists[lst] = which
				}
			}
		}
	}
}

// repSize: how many bytes the rounds write in all.
func (l *moLayout) repSize(r *repeat, entries map[*BackIter]*Term) (*Term, string) {
	if which := l.dataRep(r, entries); which != "" {
		return mkAdd(moSum(which), moN, tInt), ""
	}
	size := int64(-1)
	for _, rd := range r.rounds {
		n := int64(0)
		for _, p := range rd.pieces {
			if p.t == nil {
				return nil, "loops within loops write: " + p.String()
			}
			t := rd.b.st.norm(p.t)
			if v, ok := t.strVal(); ok {
				n += int64(len(v))
				continue
			}
			_, k, _ := moNum(t)
			if k == 0 {
				return nil, fmt.Sprintf("%v is written, which is not the text of the entry in the form that is wanted", t)
			}
			n += k
		}
		if size >= 0 && size != n {
			return nil, "the rounds write rows of different lengths"
		}
		size = n
	}
	if size < 0 {
		return nil, "a loop that never goes round"
	}
	return mkMulK(moN, size), ""
}

func mkMulK(t *Term, k int64) *Term {
	out := kInt(0)
	for b := int64(1); b <= k; b <<= 1 {
		if k&b != 0 {
			out = mkAdd(out, t, tInt)
		}
		t = mkAdd(t, t, tInt)
	}
	return out
}

// dataRep: each round writes the id or the translation of its entry and NUL.
func (l *moLayout) dataRep(r *repeat, entries map[*BackIter]*Term) string {
	for _, which := range []string{"id", "translation"} {
		good := len(r.rounds) > 0
		for _, rd := range r.rounds {
			var ts []*Term
			for _, p := range rd.pieces {
				if p.t == nil {
					good = false
					break
				}
				ts = append(ts, p.t)
			}
			good = good && l.agrees(which, rd.b.st, l.entryFor(rd, entries), mkConcat(ts...), func(t *Term) *Term { return mkConcat(t, kStr("\x00")) })
		}
		if good {
			return which
		}
	}
	return ""
}

// entryFor: the entry of a round, by way of a derived list if need be.
func (l *moLayout) entryFor(rd round, entries map[*BackIter]*Term) *Term {
	if e := entries[rd.b]; e != nil {
		return e
	}
	var out *Term
	for _, p := range rd.pieces {
		if p.t == nil {
			continue
		}
		rd.b.st.norm(p.t).mentions(func(u *Term) bool {
			if lst, i := elemOf(rd.b.st, u); lst != nil && l.lists[lst] != "" {
				list, from, why := l.s.walk(l.loopOf(rd), func(round) *Term { return u }, []round{rd})
				if why == "" && from == 0 && list == lst {
					et := l.list.typ.Underlying().(*types.Slice).Elem()
					out = l.s.x.load(rd.b.st, mkIndexAddr(l.list, i, et), et)
				}
			}
			return false
		})
	}
	return out
}

func (l *moLayout) loopOf(rd round) *LoopMark {
	for _, m := range l.s.x.marks {
		for _, p := range m.parts {
			if p == rd.p {
				return m
			}
		}
	}
	return nil
}

// ---- numbers that grow ----

type counter struct {
	m    *LoopMark
	init *Term
	next func(p *LoopPart, b *BackIter) (before, behind *Term)
}

// counters: variables of loops by their value at the start of a round.
func (l *moLayout) counters(t *Term) []*counter {
	var out []*counter
	for u := l.tr; u != nil; u = u.prev {
		if u.ev.kind != "loop" || u.ev.loop == nil {
			continue
		}
		m := u.ev.loop
		for _, p := range m.parts {
			for k, phi := range p.phis {
				if phi == t && k < len(m.inits) {
					k := k
					out = append(out, &counter{m, m.inits[k], func(p *LoopPart, b *BackIter) (*Term, *Term) { return p.phis[k], b.phis[k] }})
				}
			}
			p.init.cells.Each(func(id int, v *Term) {
				a := terms[id-1]
				if v == t && a.op != OCall && isInteger(t.typ) {
					out = append(out, &counter{m, l.s.x.load(m.entry, a, t.typ), func(p *LoopPart, b *BackIter) (*Term, *Term) {
						return l.s.x.load(p.init, a, t.typ), l.s.x.load(b.st, a, t.typ)
					}})
				}
				if t.op == OLen && v == t.args[0] && a.op == OCall && a.s == "text" {
					out = append(out, &counter{m, mkLen(l.s.x.bufText(m.entry, a.args[0])), func(p *LoopPart, b *BackIter) (*Term, *Term) {
						return mkLen(l.s.x.bufText(p.init, a.args[0])), mkLen(l.s.x.bufText(b.st, a.args[0]))
					}})
				}
			})
		}
	}
	return out
}

// step: by what the rounds of its loop change a counter: a constant, or the
// length of a text of the entry and a constant.
func (l *moLayout) step(k *counter) (which string, c int64, ok bool) {
	first := true
	for _, p := range k.m.parts {
		for _, b := range p.backs {
			before, behind := k.next(p, b)
			d := b.st.norm(mkSub(behind, before, tInt))
			w, n, found := "", int64(0), false
			if v, is := d.intVal(); is {
				n, found = v, true
			} else {
				rd := round{p: p, b: b}
				e := l.entryOf(rd)
				if e == nil {
					rd.pieces = []piece{{t: d}}
					e = l.entryFor(rd, nil)
				}
				for _, try := range []string{"id", "translation"} {
					for extra := int64(0); extra <= 8 && !found; extra++ {
						x := extra
						if e != nil && l.agrees(try, b.st, e, d, func(t *Term) *Term { return mkAdd(mkLen(t), kInt(x), tInt) }) {
							w, n, found = try, extra, true
						}
					}
				}
			}
			if !found || !first && (w != which || n != c) {
				return "", 0, false
			}
			which, c, first = w, n, false
		}
	}
	return which, c, !first
}

// eval expresses a number by the number of entries and the total lengths.
func (l *moLayout) eval(t *Term, depth int) *Term {
	if depth > 12 {
		return t
	}
	return asInt(l.evalTerm(t, depth))
}

// asInt: the same number, as an int.
func asInt(t *Term) *Term {
	if t.typ != nil && !isInteger(t.typ) {
		return t
	}
	if k, ok := t.intVal(); ok {
		return kInt(k)
	}
	return linOf(t).term(tInt)
}

func (l *moLayout) evalTerm(t *Term, depth int) *Term {
	return subst(t, func(u *Term) *Term {
		switch {
		case u == moN:
			return nil
		case u.op == OCall && u.s == "maplen":
			if u.args[0].mentions(func(w *Term) bool { return w == l.table }) || u.args[0] == l.table {
				return moN
			}
		case u.op == OLen && u.args[0] == l.list:
			return moN
		case u.op == OConv && len(u.args) == 1 && isInteger(u.typ):
			return l.eval(u.args[0], depth+1)
		}
		if u.op == OLen || u.op == OSym {
			for _, k := range l.counters(u) {
				if k.init == u {
					continue
				}
				which, c, ok := l.step(k)
				if !ok {
					continue
				}
				v := mkAdd(l.eval(k.init, depth+1), mkMulK(moN, c), tInt)
				if which != "" {
					v = mkAdd(v, moSum(which), tInt)
				}
				return v
			}
		}
		return nil
	})
}

// tableRep: each row holds the length of the text and where it is.
func (l *moLayout) tableRep(r *repeat, entries map[*BackIter]*Term, which string, region *Term) string {
	for _, rd := range r.rounds {
		e := entries[rd.b]
		if e == nil {
			e = l.entryFor(rd, entries)
		}
		if e == nil {
			return "the entry of a row is not known"
		}
		if len(rd.pieces) != 2 || rd.pieces[0].t == nil || rd.pieces[1].t == nil {
			return "a row is " + showPieces(rd.pieces)
		}
		_, n1, length := moNum(rd.b.st.norm(rd.pieces[0].t))
		_, n2, off := moNum(rd.b.st.norm(rd.pieces[1].t))
		if n1 != 4 || n2 != 4 {
			return "a row is " + showPieces(rd.pieces)
		}
		if !l.agrees(which, rd.b.st, e, length, mkLen) {
			return fmt.Sprintf("the length given is %v", length)
		}
		// what the texts before this one take
		ok, why := false, fmt.Sprintf("the position given is %v", off)
		try := func(v *Term) {
			for _, k := range l.counters(v) {
				if k.m != r.m {
					continue
				}
				w, c, good := l.step(k)
				if !good || w != which || c != 1 {
					why = fmt.Sprintf("a round moves the position %v by something else than the length and NUL", v)
					continue
				}
				base := subst(off, func(u *Term) *Term {
					if u == v {
						return k.init
					}
					return nil
				})
				if got := l.eval(base, 0); got == region {
					ok = true
				} else {
					why = fmt.Sprintf("the first position given is %v, the texts start at %v", got, region)
				}
			}
		}
		var vars []*Term
		off.mentions(func(u *Term) bool {
			if u.op == OSym || u.op == OLen {
				vars = append(vars, u)
			}
			return false
		})
		for _, v := range vars {
			if !ok {
				try(v)
			}
		}
		if !ok {
			return why
		}
	}
	return ""
}

// sorted: the ids ascend in the order in which they are written.
func (l *moLayout) sorted(st *State) {
	s, x := l.s, l.s.x
	var last *Event
	for _, e := range st.trace.events() {
		if e.kind != "sort" {
			continue
		}
		if len(e.args) > 0 && st.norm(ifaceVal(e.args[0])) == l.list || len(e.res) > 0 && e.res[0] == l.list {
			last = e
		}
	}
	if last == nil {
		l.assert(false, "the ids are written in ascending order", "the entries are not sorted")
		return
	}
	var fn *ssa.Function
	var binds []*Term
	for _, a := range last.args[1:] {
		if a.op == OClosure || a.op == OFunc {
			fn, _ = a.obj.(*ssa.Function)
			if a.op == OClosure {
				binds = a.args
			}
		}
	}
	if fn == nil || len(fn.Params) != 2 {
		l.assert(false, "the ids are written in ascending order", "the comparison is not found")
		return
	}
	es := last.st
	if es == nil {
		es = st
	}
	es = es.clone()
	et := l.list.typ.Underlying().(*types.Slice).Elem()
	i, j := kSym("cmp:i", tInt), kSym("cmp:j", tInt)
	list := ifaceVal(last.args[0])
	for _, v := range []*Term{i, j} {
		x.assume(es, mkLt(v, kInt(0), tInt), false)
		x.assume(es, mkLt(v, mkLen(list), tInt), true)
	}
	var ai, aj *Term
	if list.typ != nil {
		if _, ok := list.typ.Underlying().(*types.Slice); ok {
			ai = x.load(es, mkIndexAddr(list, i, et), et)
			aj = x.load(es, mkIndexAddr(list, j, et), et)
		}
	}
	as := []*Term{i, j}
	if !isInteger(fn.Params[0].Type()) {
		if ai == nil {
			ai, aj = kSym("cmp:a", et), kSym("cmp:b", et)
		}
		as = []*Term{ai, aj}
	}
	for _, v := range []*Term{ai, aj} {
		x.assume(es, mkEq(v, kNil()), false)
	}
	x.quiet++
	defer func() { x.quiet-- }()
	n := 0
	for _, o := range x.callFn(nil, es, fn, as, binds, nil, nil, nil, false) {
		if o.kind != oRet {
			continue
		}
		for _, a := range l.spec("id", o.st, ai) {
			for _, b := range l.spec("id", a.st, aj) {
				n++
				less := mkLt(a.t, b.t, tStr)
				res := b.st.norm(o.res)
				ok := false
				if isBoolean(fn.Signature.Results().At(0).Type()) {
					v1, k1 := x.truth(b.st, res)
					v2, k2 := x.truth(b.st, less)
					ok = res == b.st.norm(less) || k1 && k2 && v1 == v2
				} else {
					ok = threeWay(res) && s.same(b.st, res.args[0], a.t) && s.same(b.st, res.args[1], b.t)
				}
				l.assert(ok, "the ids are written in ascending order", "the comparison yields %v instead of %v\n%s", res, less, b.st.factString())
			}
		}
	}
	l.assert(n > 0, "the ids are written in ascending order", "the comparison has no result")
}
