package main

import (
	"fmt"
	"go/types"
	"strings"
)

const (
	torLang  = "(" + modPath + "/translator.Translator).Lang"
	fileLang = "(*" + modPath + "/translator.File).Lang"
	trLoadPo = "(*" + modPath + ".Translation).LoadPo"
	trLoadMo = "(*" + modPath + ".Translation).LoadMo"
)

func init() {
	register(&Rule{id: "P13", min: 8, run: ruleLoad,
		rule: "Abstract interpretation of AddOrReplace, LoadPo, LoadMo, LoadFile, LoadFS and BindFS: the effect on an arbitrary key of the language and domain tables is compared with the specification on every path; a ghost variable set by a successful file load ties the result of LoadFS to it; in the order of the directory walks no binary catalogue is loaded after a text catalogue."})
	register(&Rule{id: "P14", min: 5, run: ruleResilient,
		rule: "Typestate over every round of every directory walk: the callback never ends or prunes the walk, each readable file with a catalogue name is opened, read and handed to the reader of its kind, and what was opened is closed on every path."})
}

// sameLang: language k in domain q (state st) is bound as it was in p before.
func (s *Scen) sameLang(h *handleT, st0, st *State, p, q, k *Term) string {
	before := s.langAt(h, st0, p, k)
	for _, a := range s.langAt(h, st, q, k) {
		for _, b := range before {
			j, ok := merge(s.x, a.st, b.st)
			if !ok {
				continue
			}
			if a.ok != b.ok {
				return fmt.Sprintf("language %v: present=%v, it was %v before", k, a.ok, b.ok)
			}
			if a.ok && !s.same(j, a.v, b.v) {
				return fmt.Sprintf("language %v is translated by %v, it was %v before", k, a.v, b.v)
			}
		}
	}
	return ""
}

// installed: exactly language l of domain p changed, to tor.
func (s *Scen) installed(h *handleT, st *State, p, l, tor *Term) string {
	for _, a := range s.langAt(h, st, p, l) {
		if !a.ok || !s.same(a.st, unface(a.v), unface(tor)) {
			return fmt.Sprintf("language %v is translated by %v (present=%v) afterwards, %v is required", l, a.v, a.ok, tor)
		}
	}
	k := kSym("any", tStr)
	o, ok := s.refine(st, []cond{not(eq(k, l))})
	if !ok {
		return "no other language is possible"
	}
	return s.sameLang(h, s.st0, o, p, p, k)
}

func unface(t *Term) *Term {
	if t != nil && t.op == OIface {
		return t.args[0]
	}
	return t
}

func ruleLoad(c *Check) {
	h := c.handle()
	if h == nil {
		return
	}
	pure := []string{locNorm, locDef, locTag}
	k := kSym("any", tStr)
	norm := func(l *Term) *Term { return mkCall(locNorm, tStr, l) }

	// AddOrReplace
	if s := c.run(c.fn("", "*Translation.AddOrReplace"), scenOpt{pure: append([]string{torLang}, pure...), setup: c.mapsMade(), pre: nonNilArgs(c, c.fn("", "*Translation.AddOrReplace"))}); s != nil {
		tr, tor := s.args[0], s.args[1]
		l := mkCall(torLang, tStr, tor)
		okL, pre := s.inMap(s.st0, s.at(s.st0, tr, h.tt, h.langs), norm(l), h.lm)
		unchanged := func(st *State, _ *Term) string { return s.sameLang(h, s.st0, st, tr, tr, k) }
		put := func(st *State, _ *Term) string { return s.installed(h, st, tr, norm(l), tor) }
		s.table([]row{
			{name: "no language → nil, nothing changes", when: []cond{is(eq(l, kStr("")))}, want: term(kNil()), also: unchanged},
			{name: "language known → the previous one is returned, the new one in its place", when: []cond{not(eq(l, kStr(""))), is(okL)}, want: term(pre), also: put},
			{name: "language new → nil, the new one added", when: []cond{not(eq(l, kStr(""))), not(okL)}, want: term(kNil()), also: put},
		})
	}

	// one catalogue
	for _, r := range []struct{ load, read string }{{"LoadPo", "ReadPo"}, {"LoadMo", "ReadMo"}} {
		fn := c.fn("", "*Translation."+r.load)
		s := c.run(fn, scenOpt{pure: append([]string{fileLang}, pure...), opaque: []string{pathRead + r.read}, setup: c.mapsMade(), pre: nonNilArgs(c, fn)})
		if s == nil {
			continue
		}
		tr := s.args[0]
		s.each("load", r.load+": an error changes nothing, success installs the whole catalogue under its language", func(o *callOut) string {
			var rd *Event
			n := 0
			for _, e := range o.st.trace.events() {
				if e.kind == "call" && e.name == pathRead+r.read {
					rd = e
					n++
				}
			}
			if n != 1 || !s.same(o.st, rd.args[0], s.args[1]) {
				return fmt.Sprintf("the content is not handed to %s exactly once", r.read)
			}
			file, rerr := mkExtract(rd.res[0], 0, nil), errorOf(rd)
			if rd.res[0].typ != nil {
				if tp, ok := rd.res[0].typ.(*types.Tuple); ok {
					file = mkExtract(rd.res[0], 0, tp.At(0).Type())
				}
			}
			lang := mkCall(fileLang, tStr, file)
			// outcome by outcome: the error decides
			ok, isOK := s.refine(o.st, []cond{is(eq(o.res, kNil()))})
			if isOK {
				if v, kn := s.x.truth(ok, eq(rerr, kNil())); !kn || !v {
					return "reports success although the catalogue could not be read"
				}
				if v, kn := s.x.truth(ok, eq(lang, kStr(""))); !kn || v {
					return "reports success for a catalogue without a language, which is never found"
				}
				if m := s.installed(h, ok, tr, norm(lang), file); m != "" {
					return m
				}
			}
			bad, isBad := s.refine(o.st, []cond{not(eq(o.res, kNil()))})
			if isBad {
				if m := s.sameLang(h, s.st0, bad, tr, tr, k); m != "" {
					return "reports an error but " + m
				}
				if v, kn := s.x.truth(bad, eq(rerr, kNil())); kn && v {
					if v, kn := s.x.truth(bad, eq(lang, kStr(""))); !kn || !v {
						return "reports an error although the catalogue was read and names its language"
					}
				}
			}
			return ""
		})
	}

	// one file
	if s := c.run(c.fn("", "*Translation.LoadFile"), scenOpt{opaque: []string{trLoadPo, trLoadMo}, pre: nonNilArgs(c, c.fn("", "*Translation.LoadFile"))}); s != nil {
		s.each("load", "LoadFile: success only when a reader accepted the content", func(o *callOut) string {
			ok, isOK := s.refine(o.st, []cond{is(eq(o.res, kNil()))})
			if !isOK {
				return ""
			}
			n := 0
			for _, e := range o.st.trace.events() {
				if e.kind != "call" || e.name != trLoadPo && e.name != trLoadMo {
					continue
				}
				n++
				if !s.same(ok, e.args[0], s.args[0]) {
					return "loads into another domain"
				}
				if v, kn := s.x.truth(ok, eq(errorOf(e), kNil())); !kn || !v {
					return "reports success although the catalogue was refused"
				}
			}
			if n != 1 {
				return fmt.Sprintf("reports success after %d loads", n)
			}
			return ""
		})
	}

	c.ruleLoadFS(h)

	// binding
	if s := c.run(c.fn("", "*Translations.BindFS"), scenOpt{opaque: []string{trLoadFS}, pure: pure, setup: c.mapsMade()}); s != nil {
		ts, d := s.args[0], s.args[1]
		s.each("bind", "BindFS replaces the named domain by a successful load and nothing else", func(o *callOut) string {
			var ld *Event
			n := 0
			for _, e := range o.st.trace.events() {
				if e.kind == "call" && e.name == trLoadFS {
					ld = e
					n++
				}
			}
			if n != 1 || !s.same(o.st, ld.args[1], s.args[2]) {
				return fmt.Sprintf("the file system is loaded %d times", n)
			}
			if m := s.fieldsAfter(h, o, ts, ts, nil); m != "" {
				return m
			}
			tr := o.st.norm(ld.args[0])
			if !s.x.fresh(tr) {
				return fmt.Sprintf("loads into %v, which is in use, so a failed or partial load shows", tr)
			}
			for _, p := range s.langAt(h, ld.st, tr, k) {
				if p.ok {
					return "loads into a domain that already has languages"
				}
			}
			if good, ok := s.refine(o.st, []cond{is(ld.res[0])}); ok {
				for _, p := range s.domainAt(h, good, ts, d) {
					if !p.ok || !s.same(p.st, p.v, tr) {
						return fmt.Sprintf("after a successful load the domain is bound to %v", p.v)
					}
				}
				other, ok := s.refine(good, []cond{not(eq(k, d))})
				if !ok {
					return "no other domain is possible"
				}
				if m := s.sameDomain(h, s.st0, other, ts, ts, k); m != "" {
					return m
				}
				if ld.after != nil {
					if m := s.sameLang(h, ld.after, good, tr, tr, k); m != "" {
						return "what was loaded is changed before it is bound: " + m
					}
				}
			}
			if bad, ok := s.refine(o.st, []cond{not(ld.res[0])}); ok {
				if m := s.sameDomain(h, s.st0, bad, ts, ts, k); m != "" {
					return "nothing could be loaded, yet " + m
				}
			}
			return ""
		})
	}
}

// ruleLoadFS: the result of LoadFS tells whether some file was loaded, and
// text catalogues come last.
func (c *Check) ruleLoadFS(h *handleT) {
	fn := c.fn("", "*Translation.LoadFS")
	if fn == nil {
		return
	}
	ghost := mk(Term{op: OGlobal, s: "ghost.loaded", typ: types.NewPointer(tBool)})
	setup := func(x *Exec) {
		c.mapsMade()(x)
		x.watchPure = dirWatch
		load := func(x *Exec, cs *callSite) []callOut {
			var out []callOut
			for _, good := range []bool{true, false} {
				st := cs.st.clone()
				sub := *cs
				sub.st = st
				r := x.icall(cs.fr, st, cs.instr, cs.name+fmt.Sprint(good), tErr, cs.args)
				x.event(&sub, "call", r)
				if !x.assume(st, mkEq(r, kNil()), good) {
					continue
				}
				if good {
					x.store(cs.fr, st, ghost, kBool(true), tBool, cs.instr)
				}
				out = append(out, callOut{st: st, res: r, kind: oRet})
			}
			return out
		}
		x.models = map[string]model{trLoad: load, trLoadPo: load, trLoadMo: load}
	}
	s := c.run(fn, scenOpt{setup: setup, pre: func(x *Exec, st *State, args []*Term) {
		nonNilArgs(c, fn)(x, st, args)
		st.cells = st.cells.Set(ghost.id, kBool(false))
	}})
	if s == nil {
		return
	}
	s.each("load", "LoadFS reports success exactly when a file was loaded", func(o *callOut) string {
		g := s.x.load(o.st, ghost, tBool)
		if !s.same(o.st, o.res, g) {
			return fmt.Sprintf("reports %v where %v is required (was a catalogue loaded?)", o.st.norm(o.res), o.st.norm(g))
		}
		return ""
	})
	loads := 0
	s.each("load", "LoadFS: text catalogues are loaded after binary ones", func(o *callOut) string {
		po := "" // where a text catalogue may have been loaded
		for _, e := range o.st.trace.events() {
			if e.kind != "loop" {
				continue
			}
			var kinds [2]bool
			for _, p := range e.loop.parts {
				for _, b := range p.backs {
					for _, be := range b.trace.events() {
						if be.kind != "call" || be.name != trLoad && be.name != trLoadPo && be.name != trLoadMo {
							continue
						}
						loads++
						if !s.same(b.st, be.args[0], s.args[0]) {
							return "loads into another domain"
						}
						// which files come here?
						for i, ext := range []string{".mo", ".po"} {
							if s.nameHas(b, ext) {
								kinds[i] = true
							}
						}
					}
				}
			}
			if kinds[0] && (po != "" || kinds[1]) {
				return "a binary catalogue may be loaded after the text catalogue of the same language and replace it"
			}
			if kinds[1] {
				po = e.name
			}
		}
		return ""
	})
	c.assert(loads > 0, "load", "LoadFS loads files in its walks", fn.Pos(), "no walk of LoadFS loads a file")
}

// nameHas: a directory entry whose name ends in ext can take this round.
func (s *Scen) nameHas(b *BackIter, ext string) bool {
	var cs []cond
	for _, e := range b.trace.events() {
		if e.kind == "call" && strings.HasSuffix(e.name, ").Name") && len(e.res) > 0 {
			cs = append(cs, suffixConds(e.res[0], ext)...)
		}
	}
	_, ok := s.refine(b.st, cs)
	return ok
}

var dirWatch = map[string]bool{"(io/fs.DirEntry).IsDir": true, "(io/fs.DirEntry).Name": true, "(io/fs.FileInfo).Name": true, "(io/fs.FileInfo).IsDir": true}

func suffixConds(name *Term, ext string) []cond {
	var cs []cond
	for _, e := range []string{".po", ".mo"} {
		v := e == ext
		cs = append(cs, cond{mkCall("strings.HasSuffix", tBool, name, kStr(e)), v})
		for _, f := range []string{"path.Ext", "path/filepath.Ext"} {
			cs = append(cs, cond{mkEq(mkCall(f, tStr, name), kStr(e)), v})
		}
	}
	return cs
}

func ruleResilient(c *Check) {
	fn := c.fn("", "*Translation.LoadFS")
	if fn == nil {
		return
	}
	s := c.run(fn, scenOpt{opaque: []string{trLoadPo, trLoadMo}, setup: both(c.mapsMade(), func(x *Exec) { x.watchPure = dirWatch }), pre: nonNilArgs(c, fn)})
	if s == nil {
		return
	}
	fsys := s.args[1]
	walks := map[*LoopMark]bool{}
	stops := 0
	s.eachPath(func(tr *Trace, st *State, back *LoopMark, out *callOut) {
		for _, e := range tr.events() {
			if e.kind == "walkstop" {
				stops++
				c.fail("walk", "the walk goes on", e.pos, "the callback %s answers %v: an error ends the walk before the remaining files are loaded, SkipDir or SkipAll leaves files out", e.fn, e.args[0])
			}
			if e.kind == "loop" && e.name == "io/fs.WalkDir" {
				walks[e.loop] = true
			}
			if e.kind == "call" && e.name == "io/fs.WalkDir" {
				root, ok := e.args[1].strVal()
				c.assert(ok && root == "." && st.norm(e.args[0]) == st.norm(fsys), "walk", "the whole file system is walked", e.pos, "walks %v of %v", e.args[1], e.args[0])
			}
		}
	})
	if stops == 0 {
		c.ok("walk", "the walk goes on", fn.Pos())
	}
	c.assert(len(walks) > 0, "walk", "LoadFS walks", fn.Pos(), "LoadFS walks no directory")

	// what was opened is closed; each catalogue is read
	covered := map[string]bool{}
	for _, ext := range []string{".mo", ".po"} {
		all := map[*LoopMark]bool{}
		for m := range walks {
			if why := s.takesAll(m, ext, fsys); why == "" {
				covered[ext] = true
				all[m] = true
			} else {
				c.notes = append(c.notes, ext+": "+why)
			}
		}
		c.assert(covered[ext], "walk", "every readable *"+ext+" file is loaded", fn.Pos(), "no walk loads every readable *%s file: %s", ext, strings.Join(c.notes, "; "))
		ext := ext
		s.each("walk", "the walk for *"+ext+" files is always made", func(o *callOut) string {
			for _, e := range o.st.trace.events() {
				if e.kind == "loop" && all[e.loop] {
					return ""
				}
			}
			return "LoadFS may end without the walk that loads *" + ext + " files\n" + o.st.factString()
		})
	}
	n := 0
	for _, p := range rounds(walks) {
		st, evs := p.st, p.trace.events()
		for i, e := range evs {
			if e.kind != "call" || !strings.HasSuffix(e.name, ").Open") && e.name != "os.Open" || len(e.res) == 0 {
				continue
			}
			n++
			f, err := mkExtract(e.res[0], 0, nil), errorOf(e)
			if tp, ok := e.res[0].typ.(*types.Tuple); ok {
				f = mkExtract(e.res[0], 0, tp.At(0).Type())
			}
			if v, kn := s.x.truth(st, mkEq(err, kNil())); kn && !v {
				continue
			}
			closed := false
			for _, ce := range evs[i+1:] {
				if ce.kind == "call" && strings.HasSuffix(ce.name, ").Close") && unface(st.norm(ce.args[0])) == unface(st.norm(f)) {
					closed = true
				}
			}
			c.put("close", "files opened in "+e.fn, closed, e.pos, "a file that was opened is not closed on every path")
		}
	}
	c.assert(n > 0 || covered[".po"], "close", "files are opened", fn.Pos(), "LoadFS opens no file")

	// one file by path
	if a := c.fn("", "pathFS.Open"); a != nil {
		if s := c.run(a, scenOpt{}); s != nil {
			s.each("path", "Load(path) opens path itself for \".\" and files below it for other names", func(o *callOut) string {
				for _, e := range o.st.trace.events() {
					if e.kind == "call" && e.name == "os.Open" {
						got := o.st.norm(e.args[0])
						if got.op == OCall && (got.s == "path/filepath.Join" || got.s == "path.Join") {
							as := got.args
							if len(as) == 1 && as[0].op == OTuple {
								as = as[0].args
							}
							if len(as) == 2 && unconv(as[0]) == unconv(s.args[0]) && as[1] == s.args[1] {
								return ""
							}
						}
						return fmt.Sprintf("opens %v instead of the named file below the path", got)
					}
				}
				return "opens nothing"
			})
		}
	}
}

// takesAll: each round of the walk with a readable file whose name ends in ext
// reads it and hands its content to the right reader ("" when it does).
func (s *Scen) takesAll(m *LoopMark, ext string, fsys *Term) string {
	loader := trLoadPo
	if ext == ".mo" {
		loader = trLoadMo
	}
	n := 0
	for _, p := range m.parts {
		for _, b := range p.backs {
			var path *Term
			var cs []cond
			evs := b.trace.events()
			for _, e := range evs {
				switch {
				case e.kind == "walkitem":
					path = e.args[0]
					cs = append(cs, is(eq(e.args[2], kNil())), not(eq(e.args[1], kNil())))
				case e.kind != "call" || len(e.res) == 0:
				case strings.HasSuffix(e.name, ").IsDir"):
					cs = append(cs, not(e.res[0]))
				case strings.HasSuffix(e.name, ").Name"):
					cs = append(cs, suffixConds(e.res[0], ext)...)
				case e.name == loader:
				default:
					if err := errorOf(e); err != nil {
						cs = append(cs, is(eq(err, kNil())))
					}
				}
			}
			st, ok := s.refine(b.st, cs)
			if !ok || path == nil {
				continue
			}
			n++
			var content, opened *Term
			for _, e := range evs {
				if e.kind == "call" && len(e.res) > 0 && (e.name == "io/fs.ReadFile" || e.name == "io.ReadAll" && opened != nil && alike(unface(st.norm(e.args[0])), opened)) {
					content = mkExtract(e.res[0], 0, nil)
				}
				if e.kind == "call" && strings.HasSuffix(e.name, ").Open") && len(e.res) > 0 {
					opened = mkExtract(e.res[0], 0, nil)
				}
				if e.kind == "call" && (strings.HasSuffix(e.name, ").Open") || e.name == "io/fs.ReadFile") {
					if !s.same(st, e.args[0], fsys) || !s.same(st, e.args[1], path) {
						return fmt.Sprintf("opens %v of %v instead of the path the walk gives", e.args[1], e.args[0])
					}
				}
			}
			done := false
			for _, e := range evs {
				if e.kind == "call" && e.name == loader {
					if content == nil || !alike(st.norm(e.args[1]), content) {
						return fmt.Sprintf("hands over %v instead of the content", e.args[1])
					}
					done = true
				}
			}
			if !done {
				return "one way round leaves such a file out: " + st.factString()
			}
		}
	}
	if n == 0 {
		return "no round takes such a file"
	}
	return ""
}

func unconv(t *Term) *Term {
	for t.op == OConv && len(t.args) == 1 {
		t = t.args[0]
	}
	return t
}

// rounds lists every way round of the loops.
func rounds(ms map[*LoopMark]bool) []*BackIter {
	var out []*BackIter
	for m := range ms {
		for _, p := range m.parts {
			out = append(out, p.backs...)
		}
	}
	return out
}
