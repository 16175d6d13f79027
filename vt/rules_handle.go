package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	locNorm  = modPath + "/locale.Normalize"
	locTag   = modPath + "/locale.NormalizeTag"
	locDef   = modPath + "/locale.GetDefault"
	trLoadFS = "(*" + modPath + ".Translation).LoadFS"
	trLoad   = "(*" + modPath + ".Translation).LoadFile"
)

// handleT knows which field of a handle holds what; the string fields are
// recognised by what the getters return.
type handleT struct {
	t                      types.Type
	domains, dom, loc, src int
	mt                     *types.Map
	tt                     types.Type // Translation
	langs                  int
	lm                     *types.Map
	defaultDomain          *Term
	names                  map[int]string
}

func (c *Check) handle() *handleT {
	if c.hT != nil {
		return c.hT
	}
	h := &handleT{t: c.w.typ("", "Translations"), tt: c.w.typ("", "Translation"), names: map[int]string{}}
	if h.t == nil || h.tt == nil {
		c.fail("anchor", "Translations", 0, "type Translations or Translation is gone")
		return nil
	}
	h.domains = c.field(h.t, "domains", "map[string]*Translation")
	h.langs = c.field(h.tt, "langs", "map[string]translator.Translator")
	get := func(name string) int {
		fn := c.fn("", "*Translations."+name)
		if fn == nil {
			return -1
		}
		x := newExec(c.w)
		r := kSym("ts", fn.Params[0].Type())
		st := c.w.newState()
		x.assume(st, mkEq(r, kNil()), false)
		for _, o := range x.callFn(nil, st, fn, []*Term{r}, nil, nil, nil, nil, false) {
			if o.kind == oRet && o.res != nil && o.res.op == OInit && o.res.args[0].op == OField && o.res.args[0].args[0] == r {
				return o.res.args[0].i
			}
		}
		c.fail("anchor", "*Translations."+name, fn.Pos(), "%s does not return a field of its handle", name)
		return -1
	}
	h.dom, h.loc, h.src = get("Domain"), get("Locale"), get("SourceCodeLocale")
	if h.domains < 0 || h.langs < 0 || h.dom < 0 || h.loc < 0 || h.src < 0 {
		return nil
	}
	if h.dom == h.loc || h.loc == h.src || h.dom == h.src {
		c.fail("anchor", "Translations", 0, "Domain, Locale and SourceCodeLocale are not three separate fields")
		return nil
	}
	h.names = map[int]string{h.dom: "current domain", h.loc: "locale", h.src: "source locale"}
	h.mt = h.t.Underlying().(*types.Struct).Field(h.domains).Type().Underlying().(*types.Map)
	h.lm = h.tt.Underlying().(*types.Struct).Field(h.langs).Type().Underlying().(*types.Map)
	if k := c.w.constant("", "DefaultDomain"); k != nil {
		h.defaultDomain = k
	} else {
		c.fail("anchor", "DefaultDomain", 0, "constant DefaultDomain is gone")
		return nil
	}
	c.hT = h
	return h
}

// probe is what a key maps to.
type probe struct {
	st *State
	ok bool
	v  *Term
}

// get lists what handle p maps domain k to in st.
func (s *Scen) domainAt(h *handleT, st *State, p, k *Term) []probe {
	m := s.at(st, p, h.t, h.domains)
	var out []probe
	for _, r := range s.x.mapGet(st, m, k, h.mt) {
		out = append(out, probe{r.st, r.ok, r.v})
	}
	return out
}

func (s *Scen) langAt(h *handleT, st *State, p, k *Term) []probe {
	m := s.at(st, p, h.tt, h.langs)
	var out []probe
	for _, r := range s.x.mapGet(st, m, k, h.lm) {
		out = append(out, probe{r.st, r.ok, r.v})
	}
	return out
}

// sameDomain: key k is bound in new handle q (state st) exactly as it was in
// handle p before.
func (s *Scen) sameDomain(h *handleT, st0, st *State, p, q, k *Term) string {
	before := s.domainAt(h, st0, p, k)
	for _, a := range s.domainAt(h, st, q, k) {
		for _, b := range before {
			// both conditions together
			j, ok := merge(s.x, a.st, b.st)
			if !ok {
				continue
			}
			if a.ok != b.ok {
				return fmt.Sprintf("domain %v: bound=%v, it was %v before", k, a.ok, b.ok)
			}
			if a.ok && !s.same(j, a.v, b.v) {
				return fmt.Sprintf("domain %v is bound to %v, it was %v before", k, a.v, b.v)
			}
		}
	}
	return ""
}

// merge adds the facts of b to a.
func merge(x *Exec, a, b *State) (*State, bool) {
	r := a.clone()
	ok := true
	b.facts.Each(func(k int, v bool) {
		if ok && !x.assume(r, terms[k-1], v) {
			ok = false
		}
	})
	return r, ok
}

// fieldsAfter compares the string fields of a handle with what is expected
// (nil: unchanged from handle p before).
func (s *Scen) fieldsAfter(h *handleT, o *callOut, q, p *Term, want map[int]*Term) string {
	for _, i := range []int{h.dom, h.loc, h.src} {
		w := want[i]
		if w == nil {
			w = s.at(s.st0, p, h.t, i)
		}
		got := s.at(o.st, q, h.t, i)
		if !s.same(o.st, got, w) {
			return fmt.Sprintf("the %s is %v afterwards, %v is required\n%s", h.names[i], o.st.norm(got), o.st.norm(w), o.st.factString())
		}
	}
	return ""
}

func (w *World) constant(pkg, name string) *Term {
	p := w.ssaPkgs[modPath+slash(pkg)]
	if p == nil {
		return nil
	}
	c, ok := p.Members[name].(*ssa.NamedConst)
	if !ok {
		return nil
	}
	return kConst(c.Value.Value, c.Value.Type())
}

func slash(p string) string {
	if p == "" {
		return ""
	}
	return "/" + p
}

func init() {
	register(&Rule{id: "P12", min: 12, run: ruleDomains,
		rule: "Abstract interpretation of RemoveDomain, ClearDomains, SetDomain, HasDomain and Domains for an arbitrary handle: result, current domain, locales and the binding of an arbitrary other domain are compared with the specification on every path; writes must stay within the handle."})
	register(&Rule{id: "P10", min: 20, run: ruleDerived,
		rule: "Abstract interpretation of D, L, Global, WithContext, NewTranslations and the fallback of GetOrNoop: the result is an object created by the call with a domain table of its own that holds the same bindings, the selected field is set and the others kept; effect analysis of every method that changes a handle: all writes hit fields of the receiver or its own table, never an object two handles share."})
	register(&Rule{id: "P11", min: 30, run: ruleOwnHandle,
		rule: "Every method of a handle is analysed over all paths: it never reads the package-level handle, not even through a callee. Every package-level function is proved equal, result and effect on the handle, to the method of the same name on the package-level handle."})
}

// outcomes of a mutator: every normal outcome is passed to f.
func (s *Scen) each(rule, what string, f func(o *callOut) string) {
	if s == nil {
		return
	}
	n := 0
	for i := range s.outs {
		o := &s.outs[i]
		if o.kind != oRet {
			s.c.fail(rule, what, s.fn.Pos(), "panics or exits")
			continue
		}
		n++
		m := f(o)
		s.c.put(rule, what, m == "", s.fn.Pos(), m)
	}
	if n == 0 {
		s.c.fail(rule, what, s.fn.Pos(), "never returns")
	}
}

func ruleDomains(c *Check) {
	h := c.handle()
	if h == nil {
		return
	}
	k := kSym("any", tStr)
	// HasDomain
	if s := c.run(c.fn("", "*Translations.HasDomain"), scenOpt{}); s != nil {
		okD, _ := s.inMap(s.st0, s.at(s.st0, s.args[0], h.t, h.domains), s.args[1], h.mt)
		s.table([]row{
			{name: "bound → true", when: []cond{is(okD)}, want: term(kBool(true))},
			{name: "not bound → false", when: []cond{not(okD)}, want: term(kBool(false))},
		})
		c.confined(s, h, nil)
	}
	// SetDomain
	if s := c.run(c.fn("", "*Translations.SetDomain"), scenOpt{}); s != nil {
		s.each("domains", "SetDomain selects exactly the given domain", func(o *callOut) string {
			if m := s.fieldsAfter(h, o, s.args[0], s.args[0], map[int]*Term{h.dom: s.args[1]}); m != "" {
				return m
			}
			return s.sameDomain(h, s.st0, o.st, s.args[0], s.args[0], k)
		})
		c.confined(s, h, nil)
	}
	// ClearDomains
	if s := c.run(c.fn("", "*Translations.ClearDomains"), scenOpt{}); s != nil {
		s.each("domains", "ClearDomains leaves no domain and keeps the locales", func(o *callOut) string {
			if m := s.fieldsAfter(h, o, s.args[0], s.args[0], map[int]*Term{h.dom: h.defaultDomain}); m != "" {
				return m
			}
			for _, p := range s.domainAt(h, o.st, s.args[0], k) {
				if p.ok {
					return "a domain may still be bound"
				}
			}
			return ""
		})
		c.confined(s, h, nil)
		c.mapKept(s, h)
	}
	// RemoveDomain
	if s := c.run(c.fn("", "*Translations.RemoveDomain"), scenOpt{}); s != nil {
		ts, d := s.args[0], s.args[1]
		okD, _ := s.inMap(s.st0, s.at(s.st0, ts, h.t, h.domains), d, h.mt)
		cur := s.at(s.st0, ts, h.t, h.dom)
		empty := eq(d, kStr(""))
		unchanged := func(st *State, _ *Term) string {
			o := &callOut{st: st}
			if m := s.fieldsAfter(h, o, ts, ts, nil); m != "" {
				return m
			}
			return s.sameDomain(h, s.st0, st, ts, ts, k)
		}
		removed := func(dom *Term) func(st *State, _ *Term) string {
			return func(st *State, _ *Term) string {
				if m := s.fieldsAfter(h, &callOut{st: st}, ts, ts, map[int]*Term{h.dom: dom}); m != "" {
					return m
				}
				for _, p := range s.domainAt(h, st, ts, d) {
					if p.ok {
						return "the removed domain is still bound"
					}
				}
				o, ok := s.refine(st, []cond{not(eq(k, d))})
				if !ok {
					return "no other domain is possible"
				}
				return s.sameDomain(h, s.st0, o, ts, ts, k)
			}
		}
		s.table([]row{
			{name: "empty name → false, nothing changes", when: []cond{is(empty)}, want: term(kBool(false)), also: unchanged},
			{name: "not bound → false, nothing changes", when: []cond{not(empty), not(okD)}, want: term(kBool(false)), also: unchanged},
			{name: "bound, current → true, removed, back to the default domain", when: []cond{not(empty), is(okD), is(eq(cur, d))}, want: term(kBool(true)), also: removed(h.defaultDomain)},
			{name: "bound, not current → true, removed, current domain kept", when: []cond{not(empty), is(okD), not(eq(cur, d))}, want: term(kBool(true)), also: removed(nil)},
		})
		c.confined(s, h, nil)
	}
	// Domains lists every bound domain once
	if s := c.run(c.fn("", "*Translations.Domains"), scenOpt{}); s != nil {
		m := s.at(s.st0, s.args[0], h.t, h.domains)
		s.each("domains", "Domains lists every bound domain once", func(o *callOut) string {
			return s.listsKeys(o, m, h.mt, o.res)
		})
		c.confined(s, h, nil)
	}
}

// listsKeys: res holds every key of the map once.
func (s *Scen) listsKeys(o *callOut, m *Term, mt *types.Map, res *Term) string {
	res = o.st.norm(res)
	ver := s.x.mapState(s.st0, m, mt).ver
	base := func(t *Term) *Term {
		for t.op == OCall && (t.s == "slices.Collect" || t.s == "slices.Sorted") || t.op == OICall && (strings.HasPrefix(t.s, "slices.Sorted#") || strings.HasPrefix(t.s, "slices.Collect#")) {
			t = t.args[0]
		}
		return t
	}
	if b := base(res); b.op == OCall && b.s == "maps.Keys" && (b.args[0] == ver || b.args[0] == m) {
		return ""
	}
	// a loop over the map that appends each key
	for _, e := range o.st.trace.events() {
		if e.kind != "loop" || e.loop.loop == nil {
			continue
		}
		for _, p := range e.loop.parts {
			for _, b := range p.backs {
				var key *Term
				n, other := 0, 0
				for _, be := range b.trace.events() {
					switch be.kind {
					case "mapiter":
						if be.args[0] == m {
							key = be.args[1]
						}
					case "append":
						if key != nil && len(be.args) == 2 && b.st.norm(be.args[1]) == b.st.norm(key) {
							n++
						} else {
							other++
						}
					}
				}
				if key == nil || n != 1 || other != 0 {
					return fmt.Sprintf("one round over the bound domains adds %d of %d names to the result", n, n+other)
				}
			}
		}
		if len(e.loop.parts) > 0 {
			// what is returned is the variable the loop appends to
			for _, f := range o.st.trace.events() {
				if f.kind == "mapdone" && f.args[0] == m {
					if res.op == OSym && inLoop(res, e.loop.inst) || res.op == OAppend || res.isNil() || res.op == OMkSlice {
						return ""
					}
					return fmt.Sprintf("returns %v, not the collected names", res)
				}
			}
			return "the loop over the domains may stop early"
		}
	}
	if empty, k := s.x.truth(o.st, mkEq(m, kNil())); k && empty {
		return ""
	}
	return fmt.Sprintf("returns %v, not the names of the bound domains", res)
}

// confined: every write of the method hits a field of the receiver or the
// receiver's own domain table (or an object the call created).
func (c *Check) confined(s *Scen, h *handleT, allow func(e *effect) bool) {
	if s == nil {
		return
	}
	recv := s.args[0]
	table := s.at(s.st0, recv, h.t, h.domains)
	n := 0
	s.effects(func(e *effect) {
		n++
		ok := e.addr.op == OField && e.addr.args[0] == recv || e.addr == table || allow != nil && allow(e)
		c.put("confined", fnName(s.fn)+": "+e.what, ok, e.ev.pos, fmt.Sprintf("%s %s, which other handles may share", fnName(s.fn), e.what))
	})
	if n == 0 {
		c.ok("confined", fnName(s.fn), s.fn.Pos())
	}
}

// mapKept: clearing must not reach into a table a derived handle might own:
// each handle has its own table (see the derivations), so both a new table and
// emptying the own one are fine.
func (c *Check) mapKept(s *Scen, h *handleT) {}

func ruleDerived(c *Check) {
	h := c.handle()
	gh := c.globalHandle()
	if h == nil || gh == nil {
		return
	}
	k := kSym("any", tStr)
	pure := []string{locNorm, locDef, locTag}
	own := func(s *Scen, what string, o *callOut, q *Term) string {
		q = o.st.norm(q)
		if !s.x.fresh(q) || q.op != OAlloc {
			return fmt.Sprintf("%s yields %v, a handle somebody else may hold too", what, q)
		}
		m := s.at(o.st, q, h.t, h.domains)
		if !s.x.fresh(m) || m.op != OAlloc {
			return fmt.Sprintf("%s yields a handle whose domain table %v is shared with another handle", what, m)
		}
		return ""
	}
	derive := func(name string, method bool, want func(s *Scen, p *Term, o *callOut) map[int]*Term) {
		n := name
		if method {
			n = "*Translations." + name
		}
		fn := c.fn("", n)
		s := c.run(fn, scenOpt{pure: pure, setup: both(nonNilGlobal(c), c.mapsMade())})
		if s == nil {
			return
		}
		var p *Term
		if method {
			p = s.args[0]
		} else {
			p = s.x.load(s.st0, gh, types.NewPointer(h.t))
		}
		what := fnName(fn)
		s.each("derived", what+": a handle of its own", func(o *callOut) string { return own(s, what, o, o.res) })
		s.each("derived", what+": selected field set, others kept", func(o *callOut) string {
			return s.fieldsAfter(h, o, o.st.norm(o.res), p, want(s, p, o))
		})
		s.each("derived", what+": same domains bound", func(o *callOut) string {
			return s.sameDomain(h, s.st0, o.st, p, o.st.norm(o.res), k)
		})
		s.each("derived", what+": the original is untouched", func(o *callOut) string {
			if m := s.fieldsAfter(h, o, p, p, nil); m != "" {
				return m
			}
			return s.sameDomain(h, s.st0, o.st, p, p, k)
		})
	}
	for _, method := range []bool{true, false} {
		off := 0
		if method {
			off = 1
		}
		derive("D", method, func(s *Scen, p *Term, o *callOut) map[int]*Term { return map[int]*Term{h.dom: s.args[off]} })
		derive("L", method, func(s *Scen, p *Term, o *callOut) map[int]*Term {
			return map[int]*Term{h.loc: wantLocale(s, o.st, s.args[off])}
		})
	}
	derive("Global", false, func(s *Scen, p *Term, o *callOut) map[int]*Term { return nil })

	// a new handle
	if s := c.run(c.fn("", "NewTranslations"), scenOpt{pure: pure}); s != nil {
		s.each("derived", "NewTranslations: a handle of its own, nothing bound", func(o *callOut) string {
			if m := own(s, "NewTranslations", o, o.res); m != "" {
				return m
			}
			for _, p := range s.domainAt(h, o.st, o.res, k) {
				if p.ok {
					return "a new handle has bound domains"
				}
			}
			if d := s.at(o.st, o.res, h.t, h.dom); !s.same(o.st, d, h.defaultDomain) {
				return fmt.Sprintf("a new handle starts in domain %v", d)
			}
			return ""
		})
	}
	// the fallback for an unknown domain is nobody else's
	if s := c.run(c.fn("", "*Translations.GetOrNoop"), scenOpt{pure: pure}); s != nil {
		okD, tr := s.inMap(s.st0, s.at(s.st0, s.args[0], h.t, h.domains), s.args[1], h.mt)
		s.table([]row{
			{name: "bound domain → its translations", when: []cond{is(okD)}, want: term(tr)},
			{name: "unknown domain → an object of its own without translations", when: []cond{not(okD)}, also: func(st *State, got *Term) string {
				got = st.norm(got)
				if got.op != OAlloc || !s.x.fresh(got) {
					return fmt.Sprintf("yields %v, which every caller that asks for an unknown domain shares and can change", got)
				}
				for _, p := range s.langAt(h, st, got, k) {
					if p.ok {
						return "the fallback has translations"
					}
				}
				return ""
			}},
		})
	}
	// mutators stay within their handle
	for _, name := range []string{"SetDomain", "SetLocale", "SetSourceCodeLocale", "RemoveDomain", "ClearDomains", "BindFS"} {
		fn := c.fn("", "*Translations."+name)
		s := c.run(fn, scenOpt{pure: pure, opaque: []string{pathRead + "ReadPo", pathRead + "ReadMo"}, setup: c.mapsMade(), pre: func(x *Exec, st *State, args []*Term) { nonNilArgs(c, fn)(x, st, args) }})
		c.confined(s, h, nil)
	}
}

// wantLocale: the empty locale means the system's, any other is normalised.
func wantLocale(s *Scen, st *State, l *Term) *Term {
	if v, k := s.x.truth(st, eq(l, kStr(""))); k && v {
		return mkCall(locDef, tStr)
	}
	return mkCall(locNorm, tStr, st.norm(l))
}

func ruleOwnHandle(c *Check) {
	h := c.handle()
	gh := c.globalHandle()
	if h == nil || gh == nil {
		return
	}
	pure := []string{locNorm, locDef, locTag, trxX, trxXN, pathEval}
	opaque := []string{pathRead + "ReadPo", pathRead + "ReadMo"}
	ms := c.w.prog.MethodSets.MethodSet(types.NewPointer(h.t))
	n := 0
	for i := 0; i < ms.Len(); i++ {
		fn := c.w.prog.MethodValue(ms.At(i))
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		n++
		s := c.run(fn, scenOpt{pure: pure, opaque: opaque, setup: both(nonNilGlobal(c), c.mapsMade()), pre: nonNilArgs(c, fn)})
		bad := false
		s.allEvents(func(e *Event) {
			if e.kind == "globalread" && e.name == gh.s {
				bad = true
				c.fail("own-handle", fnName(fn), e.pos, "%s reads the package-level handle (in %s) instead of its receiver", fnName(fn), e.fn)
			}
		})
		if !bad {
			c.ok("own-handle", fnName(fn), fn.Pos())
		}
	}
	c.assert(n >= 25, "own-handle", "methods", 0, "only %d methods of a handle were found", n)

	// package-level function = method on the package-level handle
	for _, name := range []string{"Locale", "MostMatchLocale", "SourceCodeLocale", "UsedLocale", "Locales", "Domain", "HasDomain", "Domains", "SetLocale", "SetSourceCodeLocale", "SetDomain", "RemoveDomain", "ClearDomains"} {
		fn, m := c.fn("", name), c.fn("", "*Translations."+name)
		if fn == nil || m == nil {
			continue
		}
		if len(fn.Params)+1 != len(m.Params) {
			c.fail("package-level", name, fn.Pos(), "the function and the method %s take different parameters", name)
			continue
		}
		if c.delegates(fn, m, gh, h) {
			c.ok("package-level", name+" = method on the package-level handle", fn.Pos())
			continue
		}
		s := c.run(fn, scenOpt{pure: pure, setup: nonNilGlobal(c)})
		g := s.x.load(s.st0, gh, types.NewPointer(h.t))
		k := kSym("any", tStr)
		s.each("package-level", name+" = method on the package-level handle", func(o *callOut) string {
			st := s.st0.clone()
			st, ok := merge(s.x, st, o.st)
			if !ok {
				return ""
			}
			s.x.assume(st, mkEq(g, kNil()), false)
			var rs []callOut
			s.x.quiet++
			st.counters = s.st0.counters
			rs = s.x.callFn(nil, st, m, append([]*Term{g}, s.args...), nil, nil, nil, nil, false)
			s.x.quiet--
			hit := 0
			for i := range rs {
				r := &rs[i]
				j, ok := merge(s.x, r.st, o.st)
				if !ok || r.kind != oRet {
					continue
				}
				hit++
				if o.res != nil && r.res != nil && !alike(o.st.norm(o.res), j.norm(r.res)) && !s.same(j, o.res, r.res) {
					return fmt.Sprintf("the function yields %v, the method %v\n%s\n--\n%s", o.st.norm(o.res), j.norm(r.res), o.st.factString(), r.st.factString())
				}
				for _, i := range []int{h.dom, h.loc, h.src} {
					a, b := s.at(o.st, g, h.t, i), s.at(r.st, g, h.t, i)
					if !s.same(j, a, b) {
						return fmt.Sprintf("afterwards the %s is %v, after the method it is %v", h.names[i], a, b)
					}
				}
				for _, a := range s.domainAt(h, o.st, g, k) {
					for _, b := range s.domainAt(h, r.st, g, k) {
						jj, ok := merge(s.x, a.st, b.st)
						if ok && (a.ok != b.ok || a.ok && !s.same(jj, a.v, b.v)) {
							return fmt.Sprintf("afterwards the binding of domain %v differs from what the method leaves", k)
						}
					}
				}
			}
			if hit == 0 {
				return "the method has no outcome under these conditions"
			}
			return ""
		})
	}
	// loading through the package binds into the package-level handle
	bind := "(*" + modPath + ".Translations).BindFS"
	for _, l := range []struct {
		name string
		dom  int // parameter with the domain, -1: the current one
	}{{"BindFS", 0}, {"Bind", 0}, {"Load", -1}, {"LoadFS", -1}} {
		fn := c.fn("", l.name)
		if fn == nil {
			continue
		}
		s := c.run(fn, scenOpt{pure: append(pure, bind), setup: nonNilGlobal(c), pre: nonNilArgs(c, fn)})
		g := s.x.load(s.st0, gh, types.NewPointer(h.t))
		s.each("package-level", l.name+" binds into the package-level handle", func(o *callOut) string {
			n := 0
			for _, e := range o.st.trace.events() {
				if e.kind != "call" || e.name != bind {
					continue
				}
				n++
				dom := s.at(s.st0, g, h.t, h.dom)
				if l.dom >= 0 {
					dom = s.args[l.dom]
				}
				if !s.same(o.st, e.args[0], g) || !s.same(o.st, e.args[1], dom) {
					return fmt.Sprintf("binds domain %v into %v; domain %v of the package-level handle is required", e.args[1], e.args[0], dom)
				}
				src := s.args[len(s.args)-1]
				if !e.args[2].mentions(func(t *Term) bool { return t == src }) {
					return fmt.Sprintf("loads from %v instead of %v", e.args[2], src)
				}
			}
			if n != 1 {
				return fmt.Sprintf("binds %d times", n)
			}
			return ""
		})
	}
	if s := c.run(c.fn("", "SetGlobal"), scenOpt{}); s != nil {
		s.each("package-level", "SetGlobal replaces the package-level handle", func(o *callOut) string {
			if g := s.x.load(o.st, gh, types.NewPointer(h.t)); !s.same(o.st, g, s.args[0]) {
				return fmt.Sprintf("the package-level handle is %v afterwards", g)
			}
			return ""
		})
	}
}

// delegates: on every path fn calls m once, on the package-level handle and
// with fn's own arguments, and returns what m returns.
func (c *Check) delegates(fn, m *ssa.Function, gh *Term, h *handleT) bool {
	s := c.run(fn, scenOpt{name: fnName(fn) + " (delegation)", opaque: []string{canon(m)}, setup: nonNilGlobal(c)})
	g := s.x.load(s.st0, gh, types.NewPointer(h.t))
	ok := len(s.outs) > 0
	for i := range s.outs {
		o := &s.outs[i]
		var call *Event
		n := 0
		for _, e := range o.st.trace.events() {
			if e.kind == "call" && e.name == canon(m) {
				call = e
				n++
			}
		}
		if o.kind != oRet || n != 1 || len(call.args) != len(s.args)+1 || !s.same(o.st, call.args[0], g) {
			return false
		}
		for i, a := range s.args {
			if !s.same(o.st, call.args[i+1], a) {
				return false
			}
		}
		if o.res != nil && !(o.res.op == OTuple && len(o.res.args) == 0) && (len(call.res) == 0 || !s.same(o.st, o.res, call.res[0])) {
			return false
		}
	}
	s.effects(func(e *effect) { ok = false })
	return ok
}

var instNo = regexp.MustCompile(`['·#@][0-9.]+`)

// alike: equal up to the numbering of values created by the two runs.
func alike(a, b *Term) bool {
	return instNo.ReplaceAllString(a.String(), "") == instNo.ReplaceAllString(b.String(), "")
}

// allEvents visits the events of every outcome and every loop once.
func (s *Scen) allEvents(f func(e *Event)) {
	seen := map[*Event]bool{}
	s.eachPath(func(tr *Trace, st *State, back *LoopMark, out *callOut) {
		for _, e := range tr.events() {
			if !seen[e] {
				seen[e] = true
				f(e)
			}
		}
	})
}
