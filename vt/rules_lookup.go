package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	pathEval  = modPath + "/plurals.Eval"
	pathRead  = modPath + "/translator."
	trxX      = "(" + modPath + "/translator.Translator).X"
	trxXN     = "(" + modPath + "/translator.Translator).XN64"
	trxLang   = "(" + modPath + "/translator.Translator).Lang"
	fileT     = "translator.File"
	mapEntry  = "map[string]*translator.Entry"
	mapStrStr = "map[string]string"
)

// nonNilGlobal: the package-level handle is set (SetGlobal is documented to
// take a handle).
func nonNilGlobal(c *Check) func(x *Exec) {
	return func(x *Exec) {
		x.nonNilGlobals = map[string]bool{}
		if p := c.w.ssaPkgs[modPath]; p != nil {
			for n, m := range p.Members {
				if g, ok := m.(*ssa.Global); ok && types.Identical(g.Type(), types.NewPointer(types.NewPointer(c.w.typ("", "Translations")))) {
					x.nonNilGlobals["t."+n] = true
				}
			}
		}
	}
}

// globalHandle finds the address of the package-level handle.
func (c *Check) globalHandle() *Term {
	p := c.w.ssaPkgs[modPath]
	ht := c.w.typ("", "Translations")
	if p == nil || ht == nil {
		c.fail("anchor", "global handle", 0, "type Translations is gone")
		return nil
	}
	var hits []*ssa.Global
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok && types.Identical(g.Type(), types.NewPointer(types.NewPointer(ht))) {
			hits = append(hits, g)
		}
	}
	if len(hits) != 1 {
		c.fail("anchor", "global handle", 0, "%d package variables hold a *Translations, one is expected", len(hits))
		return nil
	}
	return mkGlobal(hits[0])
}

// entryAt describes the lookup of (ctxt, id) in an arbitrary catalogue.
type entryAt struct {
	ok, e *Term
	str   *Term
	strN  *Term
	id2   *Term
}

func (s *Scen) entry(file, ctxt, id *Term) *entryAt {
	c := s.c
	ft, et := c.w.typ("translator", "File"), c.w.typ("translator", "Entry")
	if ft == nil || et == nil {
		c.fail("anchor", "translator.File", 0, "type File or Entry is gone")
		return nil
	}
	fi := c.field(ft, "entries", mapEntry)
	if fi < 0 {
		return nil
	}
	m := s.at(s.st0, file, ft, fi)
	mt := ft.Underlying().(*types.Struct).Field(fi).Type()
	r := &entryAt{}
	r.ok, r.e = s.inMap(s.st0, m, mkConcat(ctxt, kStr("\x04"), id), mt)
	for _, f := range []struct {
		n string
		t **Term
	}{{"MsgStr", &r.str}, {"MsgStrN", &r.strN}, {"MsgID2", &r.id2}} {
		k := c.field(et, f.n, "")
		if k < 0 {
			return nil
		}
		*f.t = s.at(s.st0, r.e, et, k)
	}
	return r
}

func init() {
	register(&Rule{id: "P06", min: 3, run: ruleSingular,
		rule: "Abstract interpretation of (*translator.File).X over all inputs; every feasible outcome is compared, as a value-number term under its path facts, with the decision table: entry absent or untranslated yields the formatted source text, otherwise the formatted translation; the key pairs exactly context and id. The same table for the no-op translator."})
	register(&Rule{id: "P05", min: 150, run: ruleLookupPanics,
		rule:   "Every run-time-panic site (nil dereference, index, slice bounds, nil map write, failed assertion, division, explicit panic) reachable from the public lookup and query API is an obligation that the interval/difference-bound and nullness domains must discharge for all inputs and all catalogue contents.",
		assume: []string{"a handle or catalogue a caller passes as receiver is not nil, request and option functions are not nil, and the global handle is not set to nil"}})
	register(&Rule{id: "P39", min: 15, run: rulePluralHeader,
		rule: "Abstract interpretation of AddEntry(header); AddEntry(entry); XN64 on an empty and on an arbitrary catalogue. Wherever an expression is evaluated it is the second group of the match of a pattern equal to that of the header form, taken of the whole current Plural-Forms value; the number of forms is the first group, read as a decimal number; both regular languages are compared by their automata, groups included. The form used is the value of the expression converted without loss of range checks, and a path that evaluates nothing must contradict the header form."})
	register(&Rule{id: "P07", min: 8, run: rulePlural,
		rule: "Abstract interpretation of (*translator.File).XN64 on an arbitrary catalogue and of the composition AddEntry(header); AddEntry(e); XN64: every feasible outcome must agree with the table (absent entry, entry without plural, no usable plural rule, index outside either table, empty form, selected form)."})
	register(&Rule{id: "P36", min: 5, run: ruleFormat,
		rule: "Abstract interpretation of f.Format and f.DefaultPlural over all inputs against their tables: no argument means the text verbatim, otherwise one fmt.Sprintf whose format is the text plus a directive consuming exactly one extra empty argument, and whose arguments are the caller's in order."})
	register(&Rule{id: "P08", min: 25, run: ruleShorthand,
		rule: "For every translation function and method of package t: abstract interpretation with the translator call left uninterpreted; each outcome must be the general lookup with exactly the documented context, id, plural and count of the current domain and locale, or the formatted source text when the domain or locale is not loaded."})
}

func ruleSingular(c *Check) {
	fn := c.fn("translator", "*File.X")
	ff := c.fn("f", "Format")
	if fn == nil || ff == nil {
		return
	}
	s := c.run(fn, scenOpt{})
	a := s.args
	file, ctxt, id, args := a[0], a[1], a[2], a[3]
	e := s.entry(file, ctxt, id)
	if e == nil {
		return
	}
	s.table([]row{
		{name: "no entry → source text", when: []cond{not(e.ok)}, want: s.call(ff, id, args)},
		{name: "untranslated entry → source text", when: []cond{is(e.ok), is(eq(e.str, kStr("")))}, want: s.call(ff, id, args)},
		{name: "translated entry → translation", when: []cond{is(e.ok), not(eq(e.str, kStr("")))}, want: s.call(ff, e.str, args)},
	})
	c.noopTable(func(s *Scen) func(*State) []result { return s.call(ff, s.args[2], s.args[3]) }, "X")
	c.shorthands("X")
}

// noopTable analyses a method of the translator NoopTranslator returns.
func (c *Check) noopTable(want func(*Scen) func(*State) []result, method string) {
	nf := c.fn("", "NoopTranslator")
	if nf == nil {
		return
	}
	x := newExec(c.w)
	st := c.w.newState()
	for _, o := range x.callFn(nil, st, nf, nil, nil, nil, nil, nil, false) {
		if o.kind != oRet || o.res == nil || o.res.op != OIface {
			c.fail("table", "NoopTranslator", nf.Pos(), "does not return a known translator")
			return
		}
		m := c.method(o.res.typ, method)
		if m == nil {
			return
		}
		s := c.run(m, scenOpt{name: "NoopTranslator." + method, args: []*Term{o.res.args[0]}, st: o.st})
		if s == nil {
			return
		}
		s.table([]row{{name: "always the source text", want: want(s)}})
	}
}

func (c *Check) method(t types.Type, name string) *ssa.Function {
	sel := c.w.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		c.fail("anchor", t.String()+"."+name, 0, "method %s of %v is gone", name, t)
		return nil
	}
	return c.w.prog.MethodValue(sel)
}

func ruleLookupPanics(c *Check) {
	pure := []string{pathEval}
	for _, m := range []string{"X", "XN64", "Lang", "GetHeader", "SortedEntry"} {
		c.run(c.fn("translator", "*File."+m), scenOpt{pure: pure, panics: true})
	}
	for _, m := range []string{"T", "N", "N1", "N64", "N1_64", "X", "XN", "XN1", "XN64", "XN1_64", "D", "L", "Domain", "Domains", "HasDomain", "Locale", "Locales",
		"MostMatchLocale", "UsedLocale", "SourceCodeLocale", "Get", "GetOrNoop", "SetDomain", "SetLocale", "SetSourceCodeLocale"} {
		c.run(c.fn("", "*Translations."+m), scenOpt{pure: pure, panics: true})
	}
	for _, m := range []string{"Get", "GetOrNoop"} {
		c.run(c.fn("", "*Translation."+m), scenOpt{pure: pure, panics: true})
	}
	for _, m := range []string{"D", "L", "T", "N", "N1", "N64", "N1_64", "X", "XN", "XN1", "XN64", "XN1_64", "Global", "Locale", "MostMatchLocale", "SetLocale", "SourceCodeLocale",
		"UsedLocale", "Locales", "Domain", "HasDomain", "Domains", "WithContext", "GetUserLang", "Tag", "Tags", "Match", "GetCtxLocale", "GetCtxDomain", "SetCtxLocale", "SetCtxDomain", "NewTranslations", "NoopTranslator"} {
		fn := c.fn("", m)
		c.run(fn, scenOpt{pure: pure, panics: true, setup: func(x *Exec) { nonNilGlobal(c)(x) }, pre: func(x *Exec, st *State, args []*Term) {
			nonNilArgs(c, fn)(x, st, args)
			x.nonNilInit = func(s *State, t *Term) bool {
				// elements of the option list
				return t.args[0].op == OIndex && t.typ != nil && isFuncType(t.typ)
			}
		}})
	}
	for _, n := range []string{"GetDefault", "Normalize", "NormalizeTag"} {
		c.run(c.fn("locale", n), scenOpt{panics: true})
	}
	c.run(c.fn("f", "Format"), scenOpt{panics: true})
	c.run(c.fn("f", "DefaultPlural"), scenOpt{panics: true})
}

func isFuncType(t types.Type) bool { _, ok := t.Underlying().(*types.Signature); return ok }

func ruleFormat(c *Check) {
	fn := c.fn("f", "Format")
	dp := c.fn("f", "DefaultPlural")
	if fn == nil || dp == nil {
		return
	}
	s := c.run(fn, scenOpt{})
	text, args := s.args[0], s.args[1]
	n := mkLen(args)
	spread := mk(Term{op: OSpread, args: []*Term{args}, typ: args.typ})
	s.table([]row{
		{name: "no arguments → the text verbatim", when: []cond{is(eq(n, kInt(0)))}, want: term(text)},
		{name: "arguments → one Sprintf with a neutral extra argument", when: []cond{is(mkLt(kInt(0), n, tInt))}, also: func(st *State, got *Term) string {
			got = st.norm(got)
			f, as, ok := sprintfParts(got)
			if !ok {
				return fmt.Sprintf("yields %v, not one fmt.Sprintf", got)
			}
			want := mkConcat(text, kStr("%["), mkItoa(mkAdd(n, kInt(1), tInt)), kStr("]s"))
			if !s.same(st, f, want) {
				return fmt.Sprintf("the format is %v, not the text followed by a directive for the extra argument", f)
			}
			items := appendItems(as)
			if len(items) != 2 || items[0].op != OSpread || !isWholeSlice(items[0].args[0], args) || !emptyStr(items[1]) {
				return fmt.Sprintf("the arguments are %v, not the caller's followed by one empty string (%v)", as, spread)
			}
			return ""
		}},
	})
	d := c.run(dp, scenOpt{})
	id, pl, cnt, as := d.args[0], d.args[1], d.args[2], d.args[3]
	one := eq(cnt, kIntT(1, cnt.typ))
	d.table([]row{
		{name: "no plural text → singular", when: []cond{is(eq(pl, kStr("")))}, want: d.call(fn, id, as)},
		{name: "count 1 → singular", when: []cond{not(eq(pl, kStr(""))), is(one)}, want: d.call(fn, id, as)},
		{name: "other count → plural", when: []cond{not(eq(pl, kStr(""))), not(one)}, want: d.call(fn, pl, as)},
	})
}

// sprintfParts takes apart the result of fmt.Sprintf.
func sprintfParts(t *Term) (format, args *Term, ok bool) {
	if t.op == OCall && t.s == "fmt.Sprintf" && len(t.args) == 2 {
		a := t.args[1]
		if a.op == OCall && a.s == "args" && len(a.args) == 1 {
			a = a.args[0]
		}
		return t.args[0], a, true
	}
	return nil, nil, false
}

func emptyStr(t *Term) bool {
	if t.op == OIface {
		t = t.args[0]
	}
	s, ok := t.strVal()
	return ok && s == ""
}

// appendItems lists the pieces of an append chain, spreads first.
func appendItems(t *Term) []*Term {
	switch t.op {
	case OAppend:
		return append(appendItems(t.args[0]), t.args[1:]...)
	case OConst:
		if t.isNil() {
			return nil
		}
	case OMkSlice:
		if n, ok := t.args[0].intVal(); ok && n == 0 {
			return nil
		}
	}
	return []*Term{mk(Term{op: OSpread, args: []*Term{t}, typ: t.typ})}
}

func isWholeSlice(t, whole *Term) bool {
	if t == whole {
		return true
	}
	if t.op == OSlice && t.args[0] == whole {
		if lo, ok := t.args[1].intVal(); ok && lo == 0 {
			return t.args[2] == mkLen(whole)
		}
	}
	if t.op == OCall && t.s == "slices.Clone" {
		return isWholeSlice(t.args[0], whole)
	}
	return false
}

func rulePlural(c *Check) {
	fn := c.fn("translator", "*File.XN64")
	ff, dp := c.fn("f", "Format"), c.fn("f", "DefaultPlural")
	add := c.fn("translator", "*File.AddEntry")
	gh := c.fn("translator", "*File.GetHeader")
	et := c.w.typ("translator", "Entry")
	if fn == nil || ff == nil || dp == nil || add == nil || gh == nil || et == nil {
		return
	}
	// arbitrary catalogue: rows that do not need the plural rule
	s := c.run(fn, scenOpt{pure: []string{pathEval}})
	file, ctxt, id, pl, n, args := s.args[0], s.args[1], s.args[2], s.args[3], s.args[4], s.args[5]
	e := s.entry(file, ctxt, id)
	if e == nil {
		return
	}
	noForms := eq(mkLen(e.strN), kInt(0))
	s.table([]row{
		{name: "no entry → default plural of the source text", when: []cond{not(e.ok)}, want: s.call(dp, id, pl, n, args)},
		{name: "entry without plural, translated → translation", when: []cond{is(e.ok), is(eq(e.id2, kStr(""))), is(noForms), not(eq(e.str, kStr("")))}, want: s.call(ff, e.str, args)},
		{name: "entry without plural, untranslated → source text", when: []cond{is(e.ok), is(eq(e.id2, kStr(""))), is(noForms), is(eq(e.str, kStr("")))}, want: s.call(ff, id, args)},
		{name: "entry with plural but no forms → default plural", when: []cond{is(e.ok), not(eq(e.id2, kStr(""))), is(noForms)}, want: s.call(dp, id, pl, n, args)},
	})
	c.shorthands("XN64")
	c.noopTable(func(s *Scen) func(*State) []result { return s.call(dp, s.args[2], s.args[3], s.args[4], s.args[5]) }, "XN64")

	c.pluralComposed(false)
}

func rulePluralHeader(c *Check) {
	c.pluralComposed(false)
	c.pluralComposed(true)
}

// pluralPattern is the form of a Plural-Forms header: one digit, blanks
// anywhere between the parts, a final semicolon.
const pluralPattern = `^\s*nplurals\s*=\s*(\d)\s*;\s*plural\s*=\s*(.*)\s*;$`

// pluralComposed: a catalogue (empty or arbitrary) to which a header entry and
// one plural entry are added.
func (c *Check) pluralComposed(arbitrary bool) {
	fn := c.fn("translator", "*File.XN64")
	ff, dp := c.fn("f", "Format"), c.fn("f", "DefaultPlural")
	add := c.fn("translator", "*File.AddEntry")
	gh := c.fn("translator", "*File.GetHeader")
	et := c.w.typ("translator", "Entry")
	if fn == nil || ff == nil || dp == nil || add == nil || gh == nil || et == nil {
		return
	}
	x := newExec(c.w)
	x.pureOpaque[pathEval] = true
	st := c.w.newState()
	ft := c.w.typ("translator", "File")
	f := x.alloc(nil, st, nil, "file", types.NewPointer(ft))
	if arbitrary {
		f = kSym("file", types.NewPointer(ft))
		x.assume(st, mkEq(f, kNil()), false)
	}
	h := kSym("header", types.NewPointer(et))
	en := kSym("entry", types.NewPointer(et))
	k := &Scen{c: c, x: x, name: "AddEntry(header); AddEntry(e); XN64", fn: fn, st0: st}
	x.assume(st, mkEq(h, kNil()), false)
	x.assume(st, mkEq(en, kNil()), false)
	x.assume(st, mkEq(en, h), false)
	fld := func(p *Term, name string) *Term {
		i := c.field(et, name, "")
		if i < 0 {
			return kNil()
		}
		return k.at(st, p, et, i)
	}
	htext := fld(h, "MsgStr")
	ectx, eid := fld(en, "MsgCtxt"), fld(en, "MsgID")
	forms := fld(en, "MsgStrN")
	x.assume(st, eq(fld(h, "MsgCtxt"), kStr("")), true)
	x.assume(st, eq(fld(h, "MsgID"), kStr("")), true)
	x.assume(st, eq(eid, kStr("")), false)
	x.assume(st, mkLt(kInt(0), mkLen(forms), tInt), true)
	key := mkConcat(ectx, kStr("\x04"), eid)
	_ = key
	pl, n, args := kSym("plural", tStr), kSym("n", types.Typ[types.Int64]), kSym("args", fn.Params[5].Type())
	type hs struct {
		st  *State
		val *Term
		ok  *Term
	}
	var heads []hs
	for _, o1 := range x.callFn(nil, st, add, []*Term{f, h}, nil, nil, nil, nil, false) {
		if o1.kind != oRet {
			continue
		}
		for _, o2 := range x.callFn(nil, o1.st, add, []*Term{f, en}, nil, nil, nil, nil, false) {
			if o2.kind != oRet {
				continue
			}
			for _, o3 := range x.callFn(nil, o2.st, gh, []*Term{f, kStr("Plural-Forms")}, nil, nil, nil, nil, false) {
				if o3.kind == oRet && o3.res.op == OTuple {
					heads = append(heads, hs{o3.st, o3.res.args[0], o3.res.args[1]})
				}
			}
		}
	}
	// what earlier lookups leave behind, if they leave anything, is part of the
	// state the lookup starts from
	for _, hd := range heads {
		for _, o := range k.warmed(hd.st, fn, f) {
			heads = append(heads, hs{o, hd.val, hd.ok})
		}
	}
	selected, defaulted, single := 0, 0, 0
	for _, hd := range heads {
		for _, o := range x.callFn(nil, hd.st, fn, []*Term{f, ectx, eid, pl, n, args}, nil, nil, nil, nil, false) {
			if o.kind != oRet {
				c.fail("table", k.name, fn.Pos(), "panics or exits")
				continue
			}
			c.outs++
			ev := lastEval(o.st)
			def := func(why string) {
				defaulted++
				for _, w := range k.eval(o.st, dp, eid, pl, n, args) {
					if !k.same(w.st, o.res, w.t) {
						c.fail("table", "plural entry: "+why, fn.Pos(), "yields %v where the default plural %v is required", w.st.norm(o.res), w.st.norm(w.t))
					} else {
						c.ok("table", "plural entry: "+why, fn.Pos())
					}
				}
			}
			if ev == nil {
				// no evaluation: the header must give no usable rule
				usable := usableRule(k, o.st, hd.val)
				for _, pv := range k.pluralForms(o.st, htext) {
					usable = usable && usableRule(k, o.st, pv)
				}
				if usable {
					c.fail("table", "plural entry: rule usable", fn.Pos(), "the plural rule of the header is not consulted although the header is well-formed\n%s", o.st.factString())
					continue
				}
				def("no usable plural rule → default plural")
				continue
			}
			// the rule comes from the header, the count is the caller's
			if v, kn := x.truth(o.st, eq(ev.args[len(ev.args)-1], n)); !kn || !v {
				c.fail("table", "plural entry: count", fn.Pos(), "the plural expression is evaluated for %v instead of the caller's count", ev.args[len(ev.args)-1])
				continue
			}
			c.ok("table", "plural entry: count", fn.Pos())
			exp := ev.args[len(ev.args)-2]
			for _, pv := range k.pluralForms(o.st, htext) {
				if exp.mentions(func(t *Term) bool { return t == pv }) {
					hd.val = pv
				}
			}
			if !exp.mentions(func(t *Term) bool { return t == hd.val }) {
				c.fail("table", "plural entry: expression", fn.Pos(), "the evaluated expression %v does not come from the catalogue's Plural-Forms header", exp)
				continue
			}
			c.ok("table", "plural entry: expression", fn.Pos())
			exp.mentions(func(t *Term) bool {
				if t.op == OCall && t.s == "regexp.MustCompile" && len(t.args) == 1 {
					if pat, isS := t.args[0].strVal(); isS {
						same, why := samePattern(pat, pluralPattern)
						c.put("table", "plural entry: form of the header", same, fn.Pos(), fmt.Sprintf("the pattern %s does not take apart 'nplurals=N; plural=EXPRESSION;' as %s does: %s", pat, pluralPattern, why))
					}
				}
				return false
			})
			val := o.st.norm(hd.val)
			if g, why := headerGroup(o.st, exp, val, true); why != "" || g != 2 {
				c.fail("table", "plural entry: expression of the header", fn.Pos(), "the evaluated expression %v is not what follows 'plural=' in the header%s", exp, why)
			} else {
				c.ok("table", "plural entry: expression of the header", fn.Pos())
			}
			r := ev.res[0]
			idx := mkConv(tInt, mkExtract(r, 0, types.Typ[types.Int64]))
			err := mkExtract(r, 1, tErr)
			total := ruleCount(o.st, hd.val)
			if total == nil {
				c.fail("table", "plural entry: nplurals", fn.Pos(), "the number of forms in the header is not consulted")
				continue
			}
			c.ok("table", "plural entry: nplurals", fn.Pos())
			if why := numberOfHeader(o.st, total, val); why != "" {
				c.fail("table", "plural entry: number in the header", fn.Pos(), "the number of forms %v is not the one that follows 'nplurals=' in the header%s", total, why)
			} else {
				c.ok("table", "plural entry: number in the header", fn.Pos())
			}
			ln := mkLen(forms)
			bad := [][]cond{
				{not(eq(err, kNil()))},
				{is(eq(err, kNil())), is(lt(idx, kInt(0)))},
				{is(eq(err, kNil())), not(lt(idx, total))},
				{is(eq(err, kNil())), not(lt(idx, ln))},
			}
			names := []string{"evaluation error", "negative index", "index ≥ nplurals", "index ≥ number of translations"}
			for i, b := range bad {
				if st2, ok := k.refine(o.st, b); ok {
					o := o
					o.st = st2
					for _, w := range k.eval(st2, dp, eid, pl, n, args) {
						defaulted++
						if !k.same(w.st, o.res, w.t) {
							c.fail("table", "plural entry: "+names[i], fn.Pos(), "yields %v where the default plural is required", w.st.norm(o.res))
						} else {
							c.ok("table", "plural entry: "+names[i], fn.Pos())
						}
					}
				}
			}
			in := []cond{is(eq(err, kNil())), not(lt(idx, kInt(0))), is(lt(idx, total)), is(lt(idx, ln))}
			if st2, ok := k.refine(o.st, in); ok {
				sel := x.load(st2, mkIndexAddr(forms, idx, tStr), tStr)
				if st3, ok := k.refine(st2, []cond{is(eq(sel, kStr("")))}); ok {
					for _, w := range k.eval(st3, dp, eid, pl, n, args) {
						if !k.same(w.st, o.res, w.t) {
							c.fail("table", "plural entry: empty form", fn.Pos(), "yields %v where the default plural is required", w.st.norm(o.res))
						} else {
							c.ok("table", "plural entry: empty form", fn.Pos())
						}
					}
				}
				if st3, ok := k.refine(st2, []cond{not(eq(sel, kStr("")))}); ok {
					for _, w := range k.eval(st3, ff, sel, args) {
						selected++
						if !k.same(w.st, o.res, w.t) {
							c.fail("table", "plural entry: selected form", fn.Pos(), "yields %v where form %v is required", w.st.norm(o.res), w.st.norm(w.t))
						} else {
							c.ok("table", "plural entry: selected form", fn.Pos())
						}
					}
					if _, ok := k.refine(st3, []cond{is(eq(total, kInt(1))), is(eq(ln, kInt(1)))}); ok {
						single++
					}
				}
			}
		}
	}
	c.absorb(x, k.name)
	c.assert(selected > 0, "table", "plural entry: a form can be selected", fn.Pos(), "no outcome selects a translated plural form")
	c.assert(single > 0, "table", "plural entry: one-form languages", fn.Pos(), "no outcome selects the form of a language with a single plural form")
}

// warmed: the states after some other lookup, where it has changed anything.
func (s *Scen) warmed(st *State, fn *ssa.Function, file *Term) []*State {
	var as []*Term
	for i, p := range fn.Params {
		if i == 0 {
			as = append(as, file)
			continue
		}
		as = append(as, kSym(p.Name()+"'earlier", p.Type()))
	}
	var out []*State
	for _, o := range s.x.callFn(nil, st, fn, as, nil, nil, nil, nil, false) {
		if o.kind != oRet {
			continue
		}
		for t := o.st.trace; t != nil && t != st.trace; t = t.prev {
			switch t.ev.kind {
			case "store", "mapset", "mapdel", "append", "copy":
			default:
				continue
			}
			if !fullSlice(t.ev.args[0]) && st.outlives(rootOf(t.ev.args[0]), as[1:]) {
				out = append(out, o.st)
				break
			}
		}
	}
	return out
}

// fullSlice: nothing can be appended to t in place.
func fullSlice(t *Term) bool {
	return t.op == OSlice && len(t.args) == 4 && t.args[2] == t.args[3]
}

// outlives: the memory r is of was there in st already, and is none of these.
func (st *State) outlives(r *Term, except []*Term) bool {
	key := r.s
	switch r.op {
	case OAppend:
		return false
	case OAlloc:
		key = key[strings.LastIndex(key, "@")+1:]
	case OMkSlice:
	default:
		for _, e := range except {
			if e == r {
				return false
			}
		}
		return true
	}
	var id, n int
	if k, _ := fmt.Sscanf(key, "%d.%d", &id, &n); k == 0 {
		return true
	}
	c, _ := st.counters.Get(id)
	return c > n
}

func lastEval(s *State) *Event {
	for t := s.trace; t != nil; t = t.prev {
		if t.ev.kind == "call" && t.ev.name == pathEval {
			return t.ev
		}
	}
	return nil
}

// headerGroup: t is group g of the match of a Plural-Forms header, which is all
// of header.
func headerGroup(st *State, t, header *Term, trimmed bool) (int64, string) {
	t = st.norm(t)
	for trimmed && t.op == OCall && t.s == "strings.TrimSpace" {
		t = st.norm(t.args[0])
	}
	list, idx := elemOf(st, t)
	if list == nil || idx == nil {
		return 0, ": not a part of a match"
	}
	g, ok := idx.intVal()
	if !ok {
		return 0, ": the part taken is not fixed"
	}
	call := list
	name := "(*regexp.Regexp).FindStringSubmatch"
	if l2, i2 := elemOf(st, list); l2 != nil {
		if n, ok := i2.intVal(); !ok || n != 0 {
			return 0, ": not the first match"
		}
		call, name = l2, "(*regexp.Regexp).FindAllStringSubmatch"
	}
	if call.op != OCall || call.s != name {
		return 0, ": not a part of a match"
	}
	if name == "(*regexp.Regexp).FindAllStringSubmatch" {
		if n, ok := st.norm(call.args[2]).intVal(); !ok || n == 0 {
			return 0, ": no match is asked for"
		}
	}
	if v := st.norm(call.args[1]); v != header {
		return 0, fmt.Sprintf(": %v is taken apart", v)
	}
	re := st.norm(call.args[0])
	if re.op != OCall || re.s != "regexp.MustCompile" && re.s != "regexp.MustCompilePOSIX" {
		return 0, ": the pattern is not fixed"
	}
	pat, ok := st.norm(re.args[0]).strVal()
	if !ok || re.s != "regexp.MustCompile" {
		return 0, ": the pattern is not fixed"
	}
	if same, why := samePattern(pat, pluralPattern); !same {
		return 0, ": " + why
	}
	return g, ""
}

// numberOfHeader: total is the digit of the header.
func numberOfHeader(st *State, total, header *Term) string {
	t := unconv(st.norm(total))
	if t.op != OExtract || t.i != 0 || !isParsed(t.args[0]) {
		return ""
	}
	call := t.args[0]
	if b, ok := st.norm(call.args[1]).intVal(); !ok || b != 0 && b < 10 {
		return ": it is not read as a decimal number"
	}
	if b, ok := st.norm(call.args[2]).intVal(); !ok || b != 0 && b < 8 {
		return ": not every digit fits"
	}
	g, why := headerGroup(st, call.args[0], header, true)
	if why == "" && g != 1 {
		why = fmt.Sprintf(": part %d of the match is used", g)
	}
	return why
}

func isParsed(t *Term) bool {
	return t.op == OCall && (t.s == "strconv.ParseInt" || t.s == "strconv.ParseUint")
}

// ruleCount finds the parsed number of forms: an integer parsed from the header value.
func ruleCount(s *State, header *Term) *Term {
	var hit *Term
	s.facts.Each(func(k int, v bool) {
		terms[k-1].mentions(func(t *Term) bool {
			if isParsed(t) && t.mentions(func(u *Term) bool { return u == header }) {
				hit = mkConv(tInt, mkExtract(t, 0, types.Typ[types.Int64]))
			}
			return false
		})
	})
	return hit
}

// usableRule: nothing on the path says that the header lacks a rule: it is
// present and not empty, it matches, its number parses and is positive.
func usableRule(k *Scen, s *State, header *Term) bool {
	usable := true
	deny := func(t *Term, v bool) {
		switch {
		case t == mkEq(header, kStr("")) && v:
			usable = false
		case t.op == OMapOk && !v:
			if a := t.args[len(t.args)-1]; a.isConst() {
				if p, ok := a.strVal(); ok && p == "Plural-Forms" {
					usable = false
				}
			}
		case t.mentions(func(u *Term) bool { return u.op == OCall && strings.HasPrefix(u.s, "(*regexp.Regexp).") }) && !t.mentions(func(u *Term) bool { return isParsed(u) }):
			// the match failed: only "exactly one match with all groups" is usable
			if t.op == OEq && t.args[1].isConst() {
				if n, ok := t.args[1].intVal(); ok && !v && (n == 1 || n == 3) {
					usable = false
				}
				if t.args[1].isNil() && v {
					usable = false
				}
			} else if t.op == OLt {
				usable = usable && !matchFails(t, v)
			}
		case t.op == OEq && t.args[1].isNil() && t.args[0].op == OExtract && isParsed(t.args[0].args[0]) && !v:
			usable = false
		}
	}
	s.facts.Each(func(id int, v bool) { deny(terms[id-1], v) })
	if !usable {
		return false
	}
	if total := ruleCount(s, header); total != nil {
		possible := false
		for n := int64(1); n <= 9 && !possible; n++ {
			_, possible = k.refine(s, []cond{is(eq(total, kInt(n)))})
		}
		if !possible {
			return false
		}
	}
	// a header value that was never looked at
	if v, ok := header.strVal(); ok && v == "" {
		return false
	}
	return true
}

// matchFails: a length comparison that excludes the match of all groups.
func matchFails(t *Term, v bool) bool {
	if n, ok := t.args[1].intVal(); ok && t.args[0].op == OLen { // len < n
		return v && n <= 3
	}
	if n, ok := t.args[0].intVal(); ok && t.args[1].op == OLen { // n < len
		return !v && n >= 0 || v && n >= 3
	}
	return false
}

// ---- P08 ----

type short struct {
	name string
	// positions of context, id, plural and count among the parameters; -1: ""
	ctxt, id, plural, n int
}

var shorts = []short{
	{"T", -1, 0, -2, -2},
	{"X", 0, 1, -2, -2},
	{"N", -1, 0, 1, 2}, {"N64", -1, 0, 1, 2},
	{"N1", -1, 0, -1, 1}, {"N1_64", -1, 0, -1, 1},
	{"XN", 0, 1, 2, 3}, {"XN64", 0, 1, 2, 3},
	{"XN1", 0, 1, -1, 2}, {"XN1_64", 0, 1, -1, 2},
}

func ruleShorthand(c *Check) { c.shorthands("") }

// shorthands compares the translation functions with their table; only the
// named one when there is a name.
func (c *Check) shorthands(only string) {
	ff, dp := c.fn("f", "Format"), c.fn("f", "DefaultPlural")
	gh := c.globalHandle()
	if ff == nil || dp == nil || gh == nil {
		return
	}
	ht := c.w.typ("", "Translations")
	for _, sh := range shorts {
		if only != "" && sh.name != only {
			continue
		}
		for _, method := range []bool{true, false} {
			var fn *ssa.Function
			off := 0
			if method {
				fn = c.fn("", "*Translations."+sh.name)
				off = 1
			} else {
				fn = c.fn("", sh.name)
			}
			if fn == nil {
				continue
			}
			s := c.run(fn, scenOpt{setup: nonNilGlobal(c), pure: []string{trxX, trxXN}})
			recv := (*Term)(nil)
			if method {
				recv = s.args[0]
			} else {
				recv = s.x.load(s.st0, gh, types.NewPointer(ht))
			}
			s.translateTable(sh, recv, off, ff, dp)
		}
	}
}

// translateTable: domain loaded and locale loaded → that translator, else source text.
func (s *Scen) translateTable(sh short, recv *Term, off int, ff, dp *ssa.Function) {
	c := s.c
	h := c.handle()
	if h == nil {
		return
	}
	ht, tt, fd, fdom, floc, fl := h.t, h.tt, h.domains, h.dom, h.loc, h.langs
	m := s.at(s.st0, recv, ht, fd)
	okD, tr := s.inMap(s.st0, m, s.at(s.st0, recv, ht, fdom), ht.Underlying().(*types.Struct).Field(fd).Type())
	lm := s.at(s.st0, tr, tt, fl)
	okL, tor := s.inMap(s.st0, lm, s.at(s.st0, recv, ht, floc), tt.Underlying().(*types.Struct).Field(fl).Type())
	arg := func(i int) *Term {
		if i < 0 {
			return kStr("")
		}
		return s.args[off+i]
	}
	args := s.args[len(s.args)-1]
	var noDomain, want func(*State) []result
	if sh.n == -2 {
		noDomain = s.call(ff, arg(sh.id), args)
		want = term(mkCall(trxX, tStr, tor, arg(sh.ctxt), arg(sh.id), args))
	} else {
		n := mkConv(types.Typ[types.Int64], arg(sh.n))
		noDomain = s.call(dp, arg(sh.id), arg(sh.plural), n, args)
		want = term(mkCall(trxXN, tStr, tor, arg(sh.ctxt), arg(sh.id), arg(sh.plural), n, args))
	}
	s.table([]row{
		{name: "unknown domain → source text", when: []cond{not(okD)}, want: noDomain},
		{name: "unknown locale → source text", when: []cond{is(okD), not(okL)}, want: noDomain},
		{name: "loaded → the translator of domain and locale, same arguments", when: []cond{is(okD), is(okL)}, want: want},
	})
}

// nonNilArgs assumes that pointer and interface arguments are not nil.
func nonNilArgs(c *Check, fn *ssa.Function) func(x *Exec, st *State, args []*Term) {
	return func(x *Exec, st *State, args []*Term) {
		for i, p := range fn.Params {
			switch p.Type().Underlying().(type) {
			case *types.Pointer, *types.Interface:
				x.assume(st, mkEq(args[i], kNil()), false)
			}
		}
	}
}
