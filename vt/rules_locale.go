package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	ctxValue  = "(context.Context).Value"
	ctxWith   = "context.WithValue"
	hLocales  = "(*" + modPath + ".Translations).Locales"
	gLocales  = modPath + ".Locales"
	tagOf     = modPath + ".Tag"
	langMake  = "golang.org/x/text/language.Make"
	newMatch  = "golang.org/x/text/language.NewMatcher"
	acceptLng = "golang.org/x/text/language.ParseAcceptLanguage"
)

func init() {
	register(&Rule{id: "P15", min: 60, run: ruleNormalised,
		rule: "Dataflow into every cell that holds a locale: each value stored into a locale field of a handle and each key under which a catalogue is installed, on every path of every exported function and method, is the result of the normalisation, a canonical constant or a copy of such a cell; the normalisation itself is language, underscore, region of one and the same parsed tag."})
	register(&Rule{id: "P16", min: 3, run: ruleLocales,
		rule: "Collection analysis of Locales: the source locale and, in each round over the loaded languages, the normalised language enter the result unless a set kept in step with it already has it, nothing else enters, and the result is sorted last."})
	register(&Rule{id: "P32", min: 5, run: ruleContext,
		rule: "Abstract interpretation of the context accessors composed with the setters under the semantics of context values, and of WithContext, whose handle is compared field by field with the specification on every path."})
	register(&Rule{id: "P33", min: 8, run: ruleNegotiate,
		rule: "Dataflow from the list of supported locales to the result: what is returned is the cookie's value or an element of that very list at the index matched in a list of tags built from it element by element; the bounds of that access are proved for every input."})
	register(&Rule{id: "P34", min: 4, run: ruleMark,
		rule: "Every method of the marker returns exactly its parameters, in order, and has no effect."})
}

// ---- P15 ----

var canonLocale = regexp.MustCompile(`^[a-z]{2,3}_([A-Z]{2}|[0-9]{3})$`)

func ruleNormalised(c *Check) {
	h := c.handle()
	if h == nil {
		return
	}
	pure := []string{locNorm, locDef, locTag, fileLang, torLang, pathEval}
	opaque := []string{pathRead + "ReadPo", pathRead + "ReadMo"}
	// a normalised value
	var good func(t *Term) bool
	good = func(t *Term) bool {
		switch t.op {
		case OConst:
			s, ok := t.strVal()
			return ok && canonLocale.MatchString(s)
		case OCall:
			return t.s == locNorm || t.s == locDef || t.s == locTag
		case OInit:
			// a copy of another locale field
			a := t.args[0]
			return a.op == OField && types.Identical(a.typ, h.t) && (a.i == h.loc || a.i == h.src)
		}
		return false
	}
	seen := 0
	for _, fn := range c.exported("") {
		s := c.run(fn, scenOpt{pure: pure, opaque: opaque, setup: both(nonNilGlobal(c), c.mapsMade(), func(x *Exec) {
			x.nonNilInit = orInit(x.nonNilInit, func(s *State, t *Term) bool {
				return t.args[0].op == OIndex && t.typ != nil && isFuncType(t.typ)
			})
		}), pre: nonNilArgs(c, fn)})
		if s == nil {
			continue
		}
		bad := false
		s.eachPath(func(tr *Trace, st *State, back *LoopMark, out *callOut) {
			for _, e := range tr.events() {
				switch {
				case e.kind == "store" && e.args[0].op == OField && types.Identical(e.args[0].typ, h.t) && (e.args[0].i == h.loc || e.args[0].i == h.src):
					seen++
					if v := st.norm(e.args[1]); !good(v) && !good(e.args[1]) && !zeroed(e, v) {
						bad = true
						c.fail("normalised", fnName(fn)+": "+h.names[e.args[0].i], e.pos, "%s stores %v as the %s: another spelling of the same locale would not match", e.fn, v, h.names[e.args[0].i])
					}
				case e.kind == "mapset" && e.args[0].typ != nil && types.Identical(e.args[0].typ.Underlying(), h.lm):
					seen++
					if k := st.norm(e.args[1]); !good(k) && !keyOf(tr, k, h.lm) {
						bad = true
						c.fail("normalised", fnName(fn)+": language key", e.pos, "%s installs a catalogue under %v: a normalised locale would not find it", e.fn, k)
					}
				}
			}
		})
		if !bad {
			c.ok("normalised", fnName(fn), fn.Pos())
		}
	}
	c.assert(seen >= 5, "normalised", "stores of a locale", 0, "only %d stores of a locale were found", seen)

	// the setters
	if s := c.run(c.fn("", "*Translations.SetLocale"), scenOpt{pure: pure}); s != nil {
		s.each("normalised", "SetLocale selects the given locale, the system's for an empty one", func(o *callOut) string {
			return s.fieldsAfter(h, o, s.args[0], s.args[0], map[int]*Term{h.loc: wantLocale(s, o.st, s.args[1])})
		})
	}
	if s := c.run(c.fn("", "*Translations.SetSourceCodeLocale"), scenOpt{pure: pure}); s != nil {
		s.each("normalised", "SetSourceCodeLocale sets exactly the source locale", func(o *callOut) string {
			return s.fieldsAfter(h, o, s.args[0], s.args[0], map[int]*Term{h.src: mkCall(locNorm, tStr, s.args[1])})
		})
	}

	// the normalisation
	shape := func(name string, tag func(s *Scen) *Term) {
		fn := c.fn("locale", name)
		s := c.run(fn, scenOpt{})
		if s == nil {
			return
		}
		s.each("normalised", name+" = language_REGION of one tag", func(o *callOut) string {
			r := o.st.norm(o.res)
			base, region := tagPart(r, 0), tagPart(r, 2)
			if r.op != OConcat || len(r.args) != 3 || base == nil || region == nil {
				return fmt.Sprintf("yields %v", r)
			}
			if sep, ok := r.args[1].strVal(); !ok || sep != "_" {
				return fmt.Sprintf("joins with %v", r.args[1])
			}
			if base.s != "(golang.org/x/text/language.Tag).Base" || region.s != "(golang.org/x/text/language.Tag).Region" {
				return fmt.Sprintf("yields %v", r)
			}
			if base.args[0] != region.args[0] {
				return fmt.Sprintf("takes the language of %v and the region of %v", base.args[0], region.args[0])
			}
			if w := tag(s); w != nil && base.args[0] != w && !alike(base.args[0], w) {
				return fmt.Sprintf("looks at %v instead of %v", base.args[0], w)
			}
			return ""
		})
	}
	shape("NormalizeTag", func(s *Scen) *Term { return s.args[0] })
	shape("Normalize", func(s *Scen) *Term { return mkCall(langMake, nil, s.args[0]) })
	shape("GetDefault", func(s *Scen) *Term { return nil })
}

// tagPart: the i-th piece of a text as the string form of part of a tag.
func tagPart(r *Term, i int) *Term {
	if r.op != OConcat || i >= len(r.args) {
		return nil
	}
	p := r.args[i]
	switch {
	case p.op == OCall && (strings.HasPrefix(p.s, "fmt%") || p.s == "(golang.org/x/text/language.Base).String" || p.s == "(golang.org/x/text/language.Region).String"):
		p = unface(p.args[0])
	default:
		return nil
	}
	if p.op == OExtract && p.i == 0 {
		p = p.args[0]
	}
	if p.op == OCall && len(p.args) == 1 {
		return p
	}
	return nil
}

// zeroed: the store that initialises a new object.
func zeroed(e *Event, v *Term) bool {
	s, ok := v.strVal()
	return ok && s == "" && e.args[0].args[0].op == OAlloc
}

// keyOf: k is a key met while walking another table of the same type.
func keyOf(tr *Trace, k *Term, mt *types.Map) bool {
	for _, e := range tr.events() {
		if e.kind == "mapiter" && e.args[1] == k && e.args[0].typ != nil && types.Identical(e.args[0].typ.Underlying(), mt) {
			return true
		}
	}
	return false
}

func orInit(a, b func(s *State, t *Term) bool) func(s *State, t *Term) bool {
	return func(s *State, t *Term) bool { return a != nil && a(s, t) || b(s, t) }
}

// exported lists the exported functions of a package and the exported methods
// of its exported types.
func (c *Check) exported(pkg string) []*ssa.Function {
	p := c.w.ssaPkgs[modPath+slash(pkg)]
	if p == nil {
		c.fail("anchor", "package "+pkg, 0, "package %s is gone", pkg)
		return nil
	}
	var out []*ssa.Function
	var names []string
	for n := range p.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		switch m := p.Members[n].(type) {
		case *ssa.Function:
			if m.Object() != nil && m.Object().Exported() && len(m.Blocks) > 0 {
				out = append(out, m)
			}
		case *ssa.Type:
			nt, ok := m.Type().(*types.Named)
			if !ok || types.IsInterface(nt) || m.Object() != nil && nt.Obj().Pkg() != p.Pkg {
				continue
			}
			ms := c.w.prog.MethodSets.MethodSet(types.NewPointer(nt))
			for i := 0; i < ms.Len(); i++ {
				if f := c.w.prog.MethodValue(ms.At(i)); f != nil && f.Object() != nil && f.Object().Exported() && len(f.Blocks) > 0 && f.Synthetic == "" {
					out = append(out, f)
				}
			}
		}
	}
	return out
}

// ---- P16 ----

func ruleLocales(c *Check) {
	h := c.handle()
	if h == nil {
		return
	}
	fn := c.fn("", "*Translations.Locales")
	s := c.run(fn, scenOpt{pure: []string{locNorm, locDef, locTag, "slices.Contains", "slices.Contains[[]string string]"}, setup: c.mapsMade()})
	if s == nil {
		return
	}
	ts := s.args[0]
	src := s.at(s.st0, ts, h.t, h.src)
	okD, tr := s.inMap(s.st0, s.at(s.st0, ts, h.t, h.domains), s.at(s.st0, ts, h.t, h.dom), h.mt)
	langs := s.at(s.st0, tr, h.tt, h.langs)
	s.each("locales", "Locales: source locale and every loaded language once, sorted", func(o *callOut) string {
		bound, known := s.x.truth(o.st, okD)
		if !known {
			return "does not look at the current domain"
		}
		return s.collected(h, o, src, langs, bound)
	})
	c.put("locales", "Locales: with and without the domain", len(s.outs) >= 2, fn.Pos(), "only one outcome")
	c.confined(s, h, func(e *effect) bool { return false })
}

// collected: the result is {src} plus, when bound, the normalised keys of langs.
func (s *Scen) collected(h *handleT, o *callOut, src, langs *Term, bound bool) string {
	res := o.st.norm(o.res)
	evs := o.st.trace.events()
	// is the order settled last?
	sorted, distinct := false, false
	var pool *Term // the set the result lists
	inner := map[*Term]bool{}
	for t := res; ; {
		inner[t] = true
		switch {
		case (t.op == OCall || t.op == OICall) && (base(t) == "slices.Sorted" || base(t) == "slices.SortedFunc"):
			sorted = base(t) == "slices.Sorted"
			t = t.args[0]
			continue
		case (t.op == OCall || t.op == OICall) && base(t) == "slices.Compact":
			distinct = true
			t = t.args[0]
			continue
		case (t.op == OCall || t.op == OICall) && (base(t) == "slices.Collect" || base(t) == "slices.Clone"):
			t = t.args[0]
			continue
		case (t.op == OCall || t.op == OICall) && base(t) == "maps.Keys":
			pool = t.args[0]
		}
		break
	}
	for i := len(evs) - 1; i >= 0 && !sorted; i-- {
		if evs[i].kind == "sort" {
			switch evs[i].name {
			case "sort.Strings", "slices.Sort":
				sorted = len(evs[i].args) > 0 && inner[o.st.norm(ifaceVal(evs[i].args[0]))]
				if !sorted {
					return "something else than the whole result is sorted"
				}
			default:
				return "sorts by " + evs[i].name
			}
		}
		if evs[i].kind == "append" || evs[i].kind == "loop" {
			break
		}
	}
	if !sorted {
		return "the result is not sorted at the end"
	}
	if pool != nil && pool.op != OAlloc {
		o.st.maps.Each(func(id int, ms *mapSt) {
			if ms.ver == pool && terms[id-1].op == OAlloc {
				pool = terms[id-1]
			}
		})
	}
	// does the result list the keys of a set?
	loops := 0
	for _, e := range evs {
		if e.kind != "loop" {
			continue
		}
		loops++
		for _, p := range e.loop.parts {
			for _, b := range p.backs {
				var key, over *Term
				var put []*Term
				for _, be := range b.trace.events() {
					switch be.kind {
					case "mapiter":
						key, over = be.args[1], be.args[0]
					case "append":
						put = append(put, be.args[1:]...)
					}
				}
				if key == nil || s.same(o.st, over, langs) || rootOf(over).op != OAlloc || len(put) == 0 {
					continue
				}
				pool = over
				if len(put) != 1 || b.st.norm(put[0]) != b.st.norm(key) {
					return "a key of the set of locales is left out"
				}
			}
		}
	}
	if pool != nil {
		// a round that lists nothing loses a key
		for _, e := range evs {
			if e.kind == "loop" {
				for _, p := range e.loop.parts {
					for _, b := range p.backs {
						listed, ours := false, false
						for _, be := range b.trace.events() {
							ours = ours || be.kind == "mapiter" && be.args[0] == pool
							listed = listed || be.kind == "append"
						}
						if ours && !listed {
							return "a key of the set of locales is left out"
						}
					}
				}
			}
		}
		return s.setHolds(h, o, pool, src, langs, bound)
	}

	// what enters the result outside the rounds, and the sets that know it
	srcIn, srcLate := false, false
	marked := map[*Term]bool{} // sets that got the source locale before the rounds
	sets := map[*Term]bool{}
	done := 0
	trueSets := map[*Term]bool{} // sets that only hold true
	each := func(evs []*Event) {
		for _, e := range evs {
			if e.kind == "mapset" {
				v := e.args[2]
				if was, ok := trueSets[e.args[0]]; !ok || was {
					trueSets[e.args[0]] = v != nil && v == kBool(true)
				}
			}
		}
	}
	each(evs)
	for _, e := range evs {
		if e.kind == "loop" {
			for _, p := range e.loop.parts {
				for _, b := range p.backs {
					each(b.trace.events())
				}
			}
		}
	}
	// given: what the list holds when the rounds begin, other than by append
	given := func(l *Term, st *State) string {
		if l == nil || l.op != OSlice {
			return ""
		}
		its, ok := s.x.elems(st, l)
		for _, it := range its {
			if !s.same(o.st, it, src) {
				return fmt.Sprintf("%v enters the result", it)
			}
			if srcIn {
				return "the source locale is listed twice"
			}
			srcIn = true
		}
		if !ok {
			return "the list does not begin with known locales"
		}
		return ""
	}
	for _, e := range evs {
		switch e.kind {
		case "loop":
			if done == 0 {
				for _, v := range e.loop.inits {
					if l, ok := v.typ.Underlying().(*types.Slice); ok && isString(l.Elem()) {
						if m := given(v, e.loop.entry); m != "" {
							return m
						}
					}
				}
			}
			done++
		case "append":
			if done == 0 {
				if m := given(e.args[0], o.st); m != "" {
					return m
				}
			}
			for _, it := range e.args[1:] {
				if !s.same(o.st, it, src) {
					return fmt.Sprintf("%v enters the result", it)
				}
				if srcIn {
					return "the source locale is listed twice"
				}
				srcIn = true
				srcLate = done == loops && loops > 0
			}
		case "mapset":
			if !s.same(o.st, e.args[1], src) {
				return fmt.Sprintf("%v is taken for a listed locale", e.args[1])
			}
			sets[e.args[0]] = true
			if done < loops || loops == 0 {
				marked[e.args[0]] = true
			}
		case "mapdel":
			if done < loops {
				return "a locale is taken out of a set"
			}
		}
	}
	if loops == 0 && !srcIn {
		if m := given(res, o.st); m != "" {
			return m
		}
	}
	walked := false
	for _, e := range evs {
		if e.kind != "loop" {
			continue
		}
		for _, p := range e.loop.parts {
			for _, b := range p.backs {
				var key, put, mark, over, into, list *Term
				for _, be := range b.trace.events() {
					switch be.kind {
					case "mapiter":
						key, over = be.args[1], be.args[0]
					case "append":
						if len(be.args) != 2 || put != nil {
							return "more than one locale enters in one round"
						}
						put, list = b.st.norm(be.args[1]), be.args[0]
					case "mapset":
						mark, into = b.st.norm(be.args[1]), be.args[0]
						sets[into] = true
					case "mapdel":
						return "a locale is taken out of a set"
					}
				}
				if key == nil {
					continue
				}
				if !s.same(o.st, over, langs) {
					return "a round runs over something else than the loaded languages"
				}
				walked = true
				want := []*Term{mkCall(locNorm, tStr, b.st.norm(key)), b.st.norm(key)}
				isKey := func(t *Term) bool { return t != nil && (t == want[0] || t == want[1]) }
				// inSet: known membership in a set that knows the source locale
				inSet := func(k *Term, v bool) bool {
					for d := range sets {
						if (marked[d] || v) && s.member(b.st, d, k, v) || !v && marked[d] && trueSets[d] && s.heldFalse(b.st, d, k) {
							return true
						}
					}
					return false
				}
				contains := func(k *Term, v bool) bool {
					hit := false
					b.st.facts.Each(func(id int, w bool) {
						f := terms[id-1]
						if f.op == OCall && base(f) == "slices.Contains" && w == v && b.st.norm(f.args[1]) == k && (v || list != nil && f.args[0] == list) {
							hit = true
						}
					})
					return hit
				}
				notSrc := func(k *Term) bool {
					v, kn := s.x.truth(b.st, mkEq(k, src))
					return kn && !v
				}
				switch {
				case put != nil && !isKey(put):
					return fmt.Sprintf("%v enters the result for language %v", put, key)
				case put != nil && !distinct && !srcLate && !(inSet(put, false) || contains(put, false) || notSrc(put)):
					return "a locale enters that may be the source locale, which is listed already"
				case put != nil && srcLate && !distinct && mark != put:
					return "a locale enters without its mark, the source locale may be listed again"
				case put == nil && !inSet(want[0], true) && !inSet(want[1], true) && !contains(want[0], true) && !contains(want[1], true) && !s.isSrc(b.st, want, src):
					return "a loaded language may be left out: " + b.st.factString()
				case put == nil && mark != nil:
					return fmt.Sprintf("%v is marked as listed but is not", mark)
				}
			}
		}
	}
	if !srcIn {
		for d := range sets {
			srcIn = srcIn || s.member(o.st, d, o.st.norm(src), true)
		}
	} else if srcLate && !distinct {
		ok := false
		for d := range sets {
			ok = ok || s.member(o.st, d, o.st.norm(src), false)
		}
		if !ok {
			return "the source locale may be listed already"
		}
	}
	if !srcIn {
		return "the source locale is not listed"
	}
	if bound && !walked && !s.emptyMap(o.st, langs) {
		return "the loaded languages are not listed"
	}
	return ""
}

// member: on this path the membership of k in the set d is known to be v.
func (s *Scen) member(st *State, d, k *Term, v bool) bool {
	ms, ok := st.maps.Get(d.id)
	if !ok {
		return false
	}
	hit := false
	st.facts.Each(func(id int, b bool) {
		f := terms[id-1]
		if f.op == OMapOk && b == v && f.args[0] == ms.ver && st.norm(f.args[1]) == k {
			hit = true
		}
	})
	return hit
}

// heldFalse: on this path the set d gives false for k.
func (s *Scen) heldFalse(st *State, d, k *Term) bool {
	ms, ok := st.maps.Get(d.id)
	if !ok {
		return false
	}
	hit := false
	st.facts.Each(func(id int, b bool) {
		f := terms[id-1]
		if f.op == OMapVal && !b && f.args[0] == ms.ver && st.norm(f.args[1]) == k {
			hit = true
		}
	})
	return hit
}

func base(t *Term) string {
	n := t.s
	if i := strings.IndexByte(n, '#'); i >= 0 {
		n = n[:i]
	}
	if i := strings.IndexByte(n, '['); i >= 0 {
		n = n[:i]
	}
	return n
}

func (s *Scen) isSrc(st *State, ks []*Term, src *Term) bool {
	for _, k := range ks {
		if s.same(st, k, src) {
			return true
		}
	}
	return false
}

func (s *Scen) emptyMap(st *State, m *Term) bool {
	v, k := s.x.truth(st, mkEq(m, kNil()))
	return k && v
}

// setHolds: the set (a map the call made) got src and every key of langs.
func (s *Scen) setHolds(h *handleT, o *callOut, pool, src, langs *Term, bound bool) string {
	for pool.op == OCall && pool.s == "ver" {
		pool = pool.args[0]
	}
	srcIn, walked := false, false
	for _, e := range o.st.trace.events() {
		switch e.kind {
		case "mapset":
			if e.args[0] != pool {
				continue
			}
			if s.same(o.st, e.args[1], src) {
				srcIn = true
			} else {
				return fmt.Sprintf("%v enters the set of locales", e.args[1])
			}
		case "loop":
			for _, p := range e.loop.parts {
				for _, b := range p.backs {
					var key, put *Term
					for _, be := range b.trace.events() {
						if be.kind == "mapiter" && s.same(o.st, be.args[0], langs) {
							key = be.args[1]
						}
						if be.kind == "mapdel" {
							return "a locale is taken out of the set"
						}
						if be.kind == "mapset" && be.args[0] == pool {
							put = b.st.norm(be.args[1])
						}
					}
					if key == nil {
						continue
					}
					walked = true
					if put == nil && (s.member(b.st, pool, mkCall(locNorm, tStr, b.st.norm(key)), true) || s.member(b.st, pool, b.st.norm(key), true)) {
						continue
					}
					if put == nil || put != mkCall(locNorm, tStr, b.st.norm(key)) && put != b.st.norm(key) {
						return fmt.Sprintf("for language %v the set of locales gets %v", key, put)
					}
				}
			}
		}
	}
	if !srcIn {
		return "the source locale is not listed"
	}
	if bound && !walked {
		return "the loaded languages are not listed"
	}
	return ""
}

// ---- P32 ----

// ctxModel gives context values their meaning.
func ctxModel(x *Exec) {
	if x.models == nil {
		x.models = map[string]model{}
	}
	x.models[ctxValue] = func(x *Exec, cs *callSite) []callOut {
		vs := x.values(cs.st, cs.args)
		c, key := vs[0], vs[1]
		for c.op == OCall && c.s == ctxWith && len(c.args) == 3 {
			same, known := sameKey(c.args[1], key)
			if !known {
				same, known = x.truth(cs.st, mkEq(c.args[1], key))
			}
			if !known {
				break
			}
			if same {
				return one(cs.st, c.args[2])
			}
			c = c.args[0]
		}
		return one(cs.st, mkCall(ctxValue, cs.typ, c, key))
	}
}

func sameKey(a, b *Term) (same, known bool) {
	if a == b {
		return true, true
	}
	if a.op == OIface && b.op == OIface && !types.Identical(a.typ, b.typ) {
		return false, true
	}
	return false, false
}

func ruleContext(c *Check) {
	h := c.handle()
	gh := c.globalHandle()
	if h == nil || gh == nil {
		return
	}
	setup := both(nonNilGlobal(c), ctxModel, c.mapsMade())
	type acc struct{ set, get, other string }
	for _, a := range []acc{{"SetCtxLocale", "GetCtxLocale", "GetCtxDomain"}, {"SetCtxDomain", "GetCtxDomain", "GetCtxLocale"}} {
		set, get, other := c.fn("", a.set), c.fn("", a.get), c.fn("", a.other)
		if set == nil || get == nil || other == nil {
			return
		}
		s := c.run(set, scenOpt{setup: setup, pre: nonNilArgs(c, set)})
		s.each("context", a.get+" returns what "+a.set+" stored", func(o *callOut) string {
			s.x.assume(o.st, mkEq(o.res, kNil()), false)
			rs := s.eval(o.st, get, o.res)
			if len(rs) == 0 {
				return "never returns"
			}
			for _, r := range rs {
				if r.t.op != OTuple || !s.same(r.st, unface(r.t.args[0]), s.args[1]) || !s.same(r.st, r.t.args[1], kBool(true)) {
					return fmt.Sprintf("yields %v for %v", r.t, s.args[1])
				}
			}
			return ""
		})
		s.each("context", a.set+" leaves "+a.other+" alone", func(o *callOut) string {
			s.x.assume(o.st, mkEq(o.res, kNil()), false)
			for _, r := range s.eval(o.st, other, o.res) {
				hit := false
				for _, q := range s.eval(r.st, other, s.args[0]) {
					hit = true
					if !s.same(q.st, r.t, q.t) {
						return fmt.Sprintf("yields %v, for the original context %v", r.t, q.t)
					}
				}
				if !hit {
					return "differs from the original context"
				}
			}
			return ""
		})
	}
	fn := c.fn("", "WithContext")
	getL, getD := c.fn("", "GetCtxLocale"), c.fn("", "GetCtxDomain")
	s := c.run(fn, scenOpt{pure: []string{locNorm, locDef, locTag}, setup: setup, pre: nonNilArgs(c, fn)})
	if s == nil || getL == nil || getD == nil {
		return
	}
	p := s.x.load(s.st0, gh, types.NewPointer(h.t))
	k := kSym("any", tStr)
	s.each("context", "WithContext: the global handle with the context's locale and domain", func(o *callOut) string {
		q := o.st.norm(o.res)
		if q.op != OAlloc || !s.x.fresh(q) {
			return fmt.Sprintf("yields %v, a handle somebody else may hold too", q)
		}
		for _, l := range s.eval(o.st, getL, s.args[0]) {
			for _, d := range s.eval(l.st, getD, s.args[0]) {
				want := map[int]*Term{}
				for _, r := range []struct {
					res result
					i   int
				}{{l, h.loc}, {d, h.dom}} {
					ok, known := s.x.truth(d.st, r.res.t.args[1])
					if !known {
						return "does not ask the context"
					}
					if !ok {
						continue
					}
					v := d.st.norm(r.res.t.args[0])
					if r.i == h.loc {
						v = wantLocale(s, d.st, v)
					}
					want[r.i] = v
				}
				if m := s.fieldsAfter(h, &callOut{st: d.st}, q, p, want); m != "" {
					return m
				}
				if m := s.sameDomain(h, s.st0, d.st, p, q, k); m != "" {
					return m
				}
			}
		}
		return s.fieldsAfter(h, o, p, p, nil)
	})
}

// ---- P33 ----

func ruleNegotiate(c *Check) {
	setup := both(nonNilGlobal(c), c.mapsMade())
	for _, n := range []string{"*Translations.MostMatchLocale", "MostMatchLocale", "GetUserLang"} {
		fn := c.fn("", n)
		if fn == nil {
			return
		}
		pre := func(x *Exec, st *State, args []*Term) {
			nonNilArgs(c, fn)(x, st, args)
			x.nonNilInit = orInit(x.nonNilInit, func(s *State, t *Term) bool {
				return t.args[0].op == OIndex && t.typ != nil && isFuncType(t.typ)
			})
		}
		// the list of supported locales has at least the source locale, see below
		c.run(fn, scenOpt{name: n + " (bounds)", setup: both(setup, func(x *Exec) {
			if x.models == nil {
				x.models = map[string]model{}
			}
			for _, l := range []string{hLocales, gLocales} {
				x.models[l] = func(x *Exec, cs *callSite) []callOut {
					r := mkCall(l, cs.typ, x.values(cs.st, cs.args)...)
					x.assume(cs.st, mkLt(mkLen(r), kInt(1), tInt), false)
					return one(cs.st, r)
				}
			}
		}), pre: pre, panics: true})
		s := c.run(fn, scenOpt{pure: []string{hLocales, gLocales, tagOf}, setup: setup, pre: pre})
		matched := 0
		s.each("negotiate", n+": the cookie's value or a supported locale", func(o *callOut) string {
			r := o.st.norm(o.res)
			if n == "GetUserLang" {
				if why, ok := s.cookie(o, r); ok {
					return why
				}
			}
			list, idx := elemOf(o.st, r)
			if list == nil || list.op != OCall || list.s != hLocales && list.s != gLocales {
				return fmt.Sprintf("yields %v, which need not be a supported locale", r)
			}
			if idx.op != OExtract || idx.i != 1 || idx.args[0].op != OCall || idx.args[0].s != matcherMatch {
				return fmt.Sprintf("picks position %v of the supported locales", idx)
			}
			match := idx.args[0]
			m := match.args[0]
			if m.op != OCall || m.s != newMatch {
				return fmt.Sprintf("matches with %v", m)
			}
			if why := s.tagsOf(o, m.args[0], list); why != "" {
				return why
			}
			matched++
			want := "ask for"
			if n == "GetUserLang" {
				req := s.args[0]
				if !match.args[1].mentions(func(t *Term) bool { return t.op == OCall && t.s == acceptLng }) || !match.args[1].mentions(func(t *Term) bool { return t.op == OInit && rootOf(t.args[0]) == req }) {
					return "does not match against the request's Accept-Language header (" + want + ")"
				}
				hdr := false
				match.args[1].mentions(func(t *Term) bool {
					if t.op == OCall && t.s == "(net/http.Header).Get" {
						if v, ok := t.args[1].strVal(); ok && strings.EqualFold(v, "Accept-Language") {
							hdr = true
						}
					}
					return false
				})
				if !hdr {
					return "does not read the Accept-Language header"
				}
			}
			return ""
		})
		c.assert(matched > 0, "negotiate", n+": matches against the supported locales", fn.Pos(), "no path matches against the supported locales")
	}
	h := c.handle()
	for _, n := range []string{"*Translations.Locales", "Locales"} {
		fn := c.fn("", n)
		if h == nil || fn == nil {
			return
		}
		s := c.run(fn, scenOpt{name: n, setup: setup, pre: nonNilArgs(c, fn), pure: []string{locNorm, locDef, locTag, "slices.Contains", "slices.Contains[[]string string]"}, panics: true})
		s.each("negotiate", n+" is never empty", func(o *callOut) string {
			r := o.st.norm(o.res)
			for (r.op == OCall || r.op == OICall) && (base(r) == "slices.Compact" || base(r) == "slices.Sorted" || base(r) == "slices.Clone" || base(r) == "slices.Collect") && len(r.args) > 0 {
				r = r.args[0]
			}
			if s.x.proveLE(o.st, kInt(1), mkLen(r), 0) {
				return ""
			}
			ts := s.globalOr(c)
			okD, tr := s.inMap(s.st0, s.at(s.st0, ts, h.t, h.domains), s.at(s.st0, ts, h.t, h.dom), h.mt)
			if bound, known := s.x.truth(o.st, okD); known {
				return s.collected(h, o, s.at(s.st0, ts, h.t, h.src), s.at(s.st0, tr, h.tt, h.langs), bound)
			}
			return "may be empty"
		})
	}
	// the tag cache
	fn := c.fn("", "Tag")
	if s := c.run(fn, scenOpt{}); s != nil {
		s.each("negotiate", "Tag keeps each tag under its own locale", func(o *callOut) string {
			want := mkCall(langMake, nil, s.args[0])
			fromCache := false
			for _, e := range o.st.trace.events() {
				if e.kind != "call" {
					continue
				}
				switch {
				case strings.HasSuffix(e.name, "sync.Map).Store") || strings.HasSuffix(e.name, "sync.Map).LoadOrStore") || strings.HasSuffix(e.name, "sync.Map).Swap"):
					if unface(o.st.norm(e.args[1])) != s.args[0] || !isMake(unface(o.st.norm(e.args[2])), want) {
						return fmt.Sprintf("stores %v under %v", e.args[2], e.args[1])
					}
				case strings.HasSuffix(e.name, "sync.Map).Load"):
					if unface(o.st.norm(e.args[1])) != s.args[0] {
						return fmt.Sprintf("looks up %v", e.args[1])
					}
					if v, kn := s.x.truth(o.st, mkExtract(e.res[0], 1, tBool)); kn && v {
						fromCache = true
					}
				}
			}
			if !fromCache && !isMake(o.st.norm(o.res), want) {
				return fmt.Sprintf("yields %v", o.res)
			}
			return ""
		})
	}
}

// globalOr: the receiver, or the global handle of a package-level function.
func (s *Scen) globalOr(c *Check) *Term {
	if len(s.args) > 0 {
		return s.args[0]
	}
	return s.x.load(s.st0, c.globalHandle(), types.NewPointer(c.handle().t))
}

// isMake: t is the tag made from the wanted locale.
func isMake(t, want *Term) bool {
	if t.op == OStruct && len(t.args) > 0 && t.args[0].op == OFieldV {
		src := t.args[0].args[0]
		for _, a := range t.args {
			if a.op != OFieldV || a.args[0] != src {
				return false
			}
		}
		t = src
	}
	return t.op == want.op && t.s == want.s && len(t.args) == 1 && t.args[0] == want.args[0]
}

// cookie: the outcome found a cookie.
func (s *Scen) cookie(o *callOut, r *Term) (string, bool) {
	const ck = "(*net/http.Request).Cookie"
	found := false
	o.st.facts.Each(func(id int, v bool) {
		f := terms[id-1]
		if f.op == OEq && v && f.args[1].isNil() && f.args[0].op == OExtract && f.args[0].i == 1 && f.args[0].args[0].op == OCall && f.args[0].args[0].s == ck {
			found = true
		}
	})
	if !found {
		return "", false
	}
	if r.op == OInit && r.args[0].op == OField && r.args[0].args[0].op == OExtract && r.args[0].args[0].args[0].op == OCall && r.args[0].args[0].args[0].s == ck {
		st, ok := r.args[0].typ.Underlying().(*types.Struct)
		call := r.args[0].args[0].args[0]
		if ok && st.Field(r.args[0].i).Name() == "Value" && call.args[0] == s.args[0] {
			return "", true
		}
	}
	return fmt.Sprintf("the request carries the cookie, but %v is returned", r), true
}

// elemOf: r is list[idx].
func elemOf(st *State, r *Term) (list, idx *Term) {
	if r.op == OInit && r.args[0].op == OIndex {
		return st.norm(r.args[0].args[0]), st.norm(r.args[0].args[1])
	}
	return nil, nil
}

// indexOf: the list and the index of an element's address.
func indexOf(st *State, u *Term) (list, idx *Term) {
	if u.op == OIndex {
		return st.norm(u.args[0]), st.norm(u.args[1])
	}
	return nil, nil
}

// tagsOf: tags holds the tag of each element of list, in its order.
func (s *Scen) tagsOf(o *callOut, tags, list *Term) string {
	tags = o.st.norm(tags)
	x := s.x
	eqLen := func(st *State, a, b *Term) bool { return x.proveLE(st, a, b, 0) && x.proveLE(st, b, a, 0) }
	if !eqLen(o.st, mkLen(tags), mkLen(list)) {
		return "matches against another number of tags than there are supported locales"
	}
	if tags.op == OTuple && len(tags.args) == 0 || tags.isNil() {
		return ""
	}
	for _, e := range o.st.trace.events() {
		if e.kind == "sort" {
			return "reorders a list before matching"
		}
		if e.kind != "loop" {
			continue
		}
		mine := tags.op == OSym && inLoop(tags, e.loop.inst)
		for _, p := range e.loop.parts {
			for _, b := range p.backs {
				for _, be := range b.trace.events() {
					if be.kind == "store" && slotOf(be.args[0], tags) != nil {
						mine = true
					}
				}
			}
		}
		if !mine {
			continue
		}
		for _, p := range e.loop.parts {
			for _, b := range p.backs {
				n, fields := 0, map[int]bool{}
				for _, be := range b.trace.events() {
					var v, at *Term
					switch {
					case be.kind == "append" && be.args[0].op == OSym && inLoop(be.args[0], e.loop.inst):
						if len(be.args) != 2 {
							return "adds several tags in one round"
						}
						v, at = be.args[1], mkLen(be.args[0])
					case be.kind == "append":
						v = be.args[len(be.args)-1]
					case be.kind == "store" && slotOf(be.args[0], tags) != nil:
						v, at = be.args[1], slotOf(be.args[0], tags)
						if f := be.args[0]; f.op == OField {
							// a struct is stored field by field
							if v.op != OFieldV || v.i != f.i || fields[f.i] {
								return fmt.Sprintf("the list of tags gets %v", v)
							}
							fields[f.i] = true
							v = v.args[0]
							if len(fields) > 1 {
								n--
							}
						}
					default:
						continue
					}
					n++
					if at == nil {
						return fmt.Sprintf("the list of tags gets %v", v)
					}
					// v is made from list[i] and from nothing else, at position i
					v = b.st.norm(v)
					pos := (*Term)(nil)
					v.mentions(func(t *Term) bool {
						if l, i := elemOf(b.st, t); l == list {
							pos = i
						}
						return false
					})
					if pos == nil {
						return fmt.Sprintf("the list of tags gets %v", v)
					}
					if el := elemTerm(v, list, b.st); !isMake(v, mkCall(langMake, nil, el)) && !isTagOf(v, el) {
						return fmt.Sprintf("the list of tags gets %v", v)
					}
					if !eqLen(b.st, at, pos) {
						return "the tag of one supported locale is put at the position of another"
					}
				}
				if n != 1 {
					return fmt.Sprintf("one round adds %d tags", n)
				}
			}
		}
		return ""
	}
	return fmt.Sprintf("the tags matched are %v, not those of the supported locales", tags)
}

// slotOf: a is an element of list, or a field of one; its position.
func slotOf(a, list *Term) *Term {
	if a.op == OField {
		a = a.args[0]
	}
	if a.op == OIndex && a.args[0] == list {
		return a.args[1]
	}
	return nil
}

// elemTerm: the element of list that v mentions.
func elemTerm(v, list *Term, st *State) *Term {
	var r *Term
	v.mentions(func(t *Term) bool {
		if l, _ := elemOf(st, t); l == list {
			r = t
		}
		return false
	})
	return r
}

// isTagOf: v is the (cached) tag of the text e.
func isTagOf(v, e *Term) bool {
	if v.op == OStruct && len(v.args) > 0 && v.args[0].op == OFieldV {
		src := v.args[0].args[0]
		for _, a := range v.args {
			if a.op != OFieldV || a.args[0] != src {
				return false
			}
		}
		v = src
	}
	return v.op == OCall && v.s == tagOf && len(v.args) == 1 && v.args[0] == e
}

// ---- P34 ----

func ruleMark(c *Check) {
	p := c.w.ssaPkgs[modPath]
	g, ok := p.Members["Mark"].(*ssa.Global)
	if !ok {
		c.fail("anchor", "Mark", 0, "variable Mark is gone")
		return
	}
	t := g.Type().(*types.Pointer).Elem()
	ms := c.w.prog.MethodSets.MethodSet(t)
	want := map[string]bool{"T": true, "N": true, "X": true, "XN": true}
	for i := 0; i < ms.Len(); i++ {
		fn := c.w.prog.MethodValue(ms.At(i))
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		delete(want, fn.Name())
		s := c.run(fn, scenOpt{})
		s.each("mark", "Mark."+fn.Name()+" returns its arguments", func(o *callOut) string {
			res := []*Term{o.res}
			if o.res.op == OTuple {
				res = o.res.args
			}
			if len(res) != len(s.args)-1 {
				return fmt.Sprintf("takes %d texts and returns %d", len(s.args)-1, len(res))
			}
			for i, r := range res {
				if !s.same(o.st, r, s.args[i+1]) {
					return fmt.Sprintf("result %d is %v instead of %v", i, r, s.args[i+1])
				}
			}
			return ""
		})
		s.effects(func(e *effect) { c.fail("mark", "Mark."+fn.Name()+" has no effect", e.ev.pos, "%s", e.what) })
	}
	for n := range want {
		c.fail("mark", "Mark."+n, 0, "method %s of the marker is gone", n)
	}
}
