package main

import (
	"fmt"
)

// ---- P43: what a handle reports is what its lookups use ----

func init() {
	register(&Rule{id: "P43", min: 14, run: ruleReported,
		rule: "Abstract interpretation of UsedLocale, Get, GetOrNoop and the getters for an arbitrary handle, compared row by row with the domain and language tables a lookup consults; MostMatchLocale asks the matcher for exactly the handle's locale."})
}

func ruleReported(c *Check) {
	h := c.handle()
	if h == nil {
		return
	}
	setup := c.mapsMade()
	// bound: the current domain is bound, its catalogue for the locale
	used := func(n string) {
		fn := c.fn("", n)
		if fn == nil {
			return
		}
		s := c.run(fn, scenOpt{name: n, setup: both(nonNilGlobal(c), setup), pre: nonNilArgs(c, fn)})
		if s == nil {
			return
		}
		ts := s.globalOr(c)
		loc, src := s.at(s.st0, ts, h.t, h.loc), s.at(s.st0, ts, h.t, h.src)
		okD, tr := s.inMap(s.st0, s.at(s.st0, ts, h.t, h.domains), s.at(s.st0, ts, h.t, h.dom), h.mt)
		okL, _ := s.inMap(s.st0, s.at(s.st0, tr, h.tt, h.langs), loc, h.lm)
		s.table([]row{
			{name: "the domain has a catalogue for the locale → the locale", when: []cond{is(okD), is(okL)}, want: term(loc)},
			{name: "the domain has none → the source locale", when: []cond{is(okD), not(okL)}, want: term(src)},
			{name: "the domain is not bound → the source locale", when: []cond{not(okD)}, want: term(src)},
		})
	}
	used("*Translations.UsedLocale")
	used("UsedLocale")
	// accessors
	get := func(n string, typ func() (m *Scen, ok, v *Term)) {
		s, ok, v := typ()
		if s == nil {
			return
		}
		s.table([]row{
			{name: "bound → what is bound", when: []cond{is(ok)}, also: func(st *State, res *Term) string {
				res = st.norm(res)
				if res.op != OTuple {
					return fmt.Sprintf("yields %v", res)
				}
				if b, k := s.x.truth(st, res.args[1]); !k || !b {
					return "says that it is not bound"
				}
				if !s.same(st, res.args[0], v) {
					return fmt.Sprintf("yields %v, %v is bound", res.args[0], v)
				}
				return ""
			}},
			{name: "not bound → says so", when: []cond{not(ok)}, also: func(st *State, res *Term) string {
				res = st.norm(res)
				if res.op != OTuple {
					return fmt.Sprintf("yields %v", res)
				}
				if b, k := s.x.truth(st, res.args[1]); !k || b {
					return "says that it is bound"
				}
				return ""
			}},
		})
	}
	get("Translations.Get", func() (*Scen, *Term, *Term) {
		fn := c.fn("", "*Translations.Get")
		if fn == nil {
			return nil, nil, nil
		}
		s := c.run(fn, scenOpt{pre: nonNilArgs(c, fn)})
		if s == nil {
			return nil, nil, nil
		}
		ok, v := s.inMap(s.st0, s.at(s.st0, s.args[0], h.t, h.domains), s.args[1], h.mt)
		return s, ok, v
	})
	get("Translation.Get", func() (*Scen, *Term, *Term) {
		fn := c.fn("", "*Translation.Get")
		if fn == nil {
			return nil, nil, nil
		}
		s := c.run(fn, scenOpt{pre: nonNilArgs(c, fn)})
		if s == nil {
			return nil, nil, nil
		}
		ok, v := s.inMap(s.st0, s.at(s.st0, s.args[0], h.tt, h.langs), s.args[1], h.lm)
		return s, ok, v
	})
	// the translations of a domain, or none
	if fn := c.fn("", "*Translations.GetOrNoop"); fn != nil {
		s := c.run(fn, scenOpt{pre: nonNilArgs(c, fn)})
		if s != nil {
			ok, v := s.inMap(s.st0, s.at(s.st0, s.args[0], h.t, h.domains), s.args[1], h.mt)
			s.table([]row{
				{name: "a bound domain → its translations", when: []cond{is(ok)}, want: term(v)},
				{name: "an unbound domain → no translations", when: []cond{not(ok)}, also: func(st *State, res *Term) string {
					for _, p := range s.langAt(h, st, st.norm(res), kSym("a language", tStr)) {
						if p.ok {
							return fmt.Sprintf("%v may hold a translation", st.norm(res))
						}
					}
					return ""
				}},
			})
		}
	}
	// the catalogue of a language, or one that yields the message itself
	if fn := c.fn("", "*Translation.GetOrNoop"); fn != nil {
		s := c.run(fn, scenOpt{pre: nonNilArgs(c, fn)})
		noop := c.fn("", "NoopTranslator")
		if s != nil && noop != nil {
			ok, v := s.inMap(s.st0, s.at(s.st0, s.args[0], h.tt, h.langs), s.args[1], h.lm)
			s.table([]row{
				{name: "a language with a catalogue → the catalogue", when: []cond{is(ok)}, want: term(v)},
				{name: "a language without → the translator that does nothing", when: []cond{not(ok)}, also: func(st *State, res *Term) string {
					for _, r := range s.eval(st, noop) {
						if !s.same(r.st, res, r.t) {
							return fmt.Sprintf("yields %v", st.norm(res))
						}
					}
					return ""
				}},
			})
		}
	}
	// the best match is asked for with the handle's locale
	for _, n := range []string{"*Translations.MostMatchLocale", "MostMatchLocale"} {
		fn := c.fn("", n)
		if fn == nil {
			continue
		}
		s := c.run(fn, scenOpt{name: n, pure: []string{hLocales, gLocales, tagOf}, setup: both(nonNilGlobal(c), setup), pre: nonNilArgs(c, fn)})
		if s == nil {
			continue
		}
		ts := s.globalOr(c)
		loc := s.at(s.st0, ts, h.t, h.loc)
		s.each("best match", n+" asks for the handle's locale", func(o *callOut) string {
			_, idx := elemOf(o.st, o.st.norm(o.res))
			if idx == nil || idx.op != OExtract || idx.args[0].op != OCall || idx.args[0].s != matcherMatch {
				return fmt.Sprintf("yields %v", o.st.norm(o.res))
			}
			want := o.st.norm(idx.args[0].args[1])
			if want.op != OTuple || len(want.args) != 1 {
				return fmt.Sprintf("asks for %v", want)
			}
			tags := 0
			why := ""
			var walk func(t *Term)
			walk = func(t *Term) {
				if t.op == OCall {
					if (t.s == tagOf || t.s == langMake) && len(t.args) == 1 && s.same(o.st, t.args[0], loc) {
						tags++
					} else {
						why = fmt.Sprintf("asks for %v", t)
					}
					return
				}
				if t.op == OInit {
					why = fmt.Sprintf("asks for %v", t)
					return
				}
				for _, a := range t.args {
					walk(a)
				}
			}
			walk(want)
			if why == "" && tags == 0 {
				why = fmt.Sprintf("asks for %v", want)
			}
			return why
		})
	}
}
