package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- write effects ----

// effect is a write to memory that exists before the analysed call.
type effect struct {
	ev     *Event
	addr   *Term // what is written
	what   string
	synced bool // under a mutex or inside sync.Once.Do
}

// fresh: the object was created by the analysed call itself.
func (x *Exec) fresh(t *Term) bool {
	r := rootOf(t)
	return isFreshRoot(r) && r.id > x.w.firstTerm
}

// ownedSlice: writing behind the end of t touches no memory of the caller.
func (x *Exec) ownedSlice(t *Term, marks []*LoopMark, seen map[*Term]bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	switch t.op {
	case OAppend:
		return x.ownedSlice(t.args[0], marks, seen)
	case OSlice:
		if x.fresh(t) {
			return true
		}
		// s[lo:hi:hi] has no room behind its end
		if len(t.args) > 3 && t.args[3] != nil && t.args[3] == t.args[2] {
			return true
		}
		if t.args[0].op == OAppend || t.args[0].op == OCall || t.args[0].op == OICall || t.args[0].op == OSym {
			return x.ownedSlice(t.args[0], marks, seen)
		}
	case OConst:
		return t.isNil()
	case OConv:
		return x.ownedSlice(t.args[0], marks, seen)
	case OCall, OICall:
		if t.op == OICall {
			for _, r := range x.recs {
				if strings.HasPrefix(t.s, canon(r.fn)+"#") {
					return x.w.ownsResult(r.fn)
				}
			}
		}
		// library functions return slices of their own
		n := t.s
		if i := strings.IndexByte(n, '#'); i >= 0 {
			n = n[:i]
		}
		return allocatingCall(n)
	case OSym:
		for _, m := range marks {
			for _, p := range m.parts {
				for i, ph := range p.phis {
					if ph != t {
						continue
					}
					ok := true
					if m.inits != nil && i < len(m.inits) {
						ok = x.ownedSlice(m.inits[i], marks, seen)
					}
					for _, q := range m.parts {
						for _, b := range q.backs {
							if i < len(b.phis) && !x.ownedSlice(b.st.norm(b.phis[i]), marks, seen) {
								ok = false
							}
						}
					}
					return ok
				}
				// a variable kept in memory
				cell := 0
				p.init.cells.Each(func(k int, v *Term) {
					if v == t {
						cell = k
					}
				})
				if cell == 0 {
					continue
				}
				v0 := x.load(m.entry, terms[cell-1], t.typ)
				if v0 == t {
					continue // another loop's variable
				}
				if !x.ownedSlice(v0, marks, seen) {
					return false
				}
				for _, q := range m.parts {
					for _, b := range q.backs {
						if !x.ownedSlice(x.load(b.st, terms[cell-1], t.typ), marks, seen) {
							return false
						}
					}
				}
				return true
			}
		}
	}
	return x.fresh(t)
}

// ownsResult: every slice a recursive function returns is its own.
func (w *World) ownsResult(fn *ssa.Function) bool {
	if v, ok := w.ownMemo[fn]; ok {
		return v
	}
	w.ownMemo[fn] = true // coinductively
	x := newExec(w)
	st := w.newState()
	var as []*Term
	for _, p := range fn.Params {
		as = append(as, kSym(p.Name(), p.Type()))
	}
	ok := true
	for _, o := range x.callFn(nil, st, fn, as, nil, nil, nil, nil, false) {
		if o.kind == oRet && o.res != nil && !x.ownedSlice(o.res, x.marks, map[*Term]bool{}) {
			ok = false
		}
	}
	w.ownMemo[fn] = ok && len(x.undec) == 0
	return w.ownMemo[fn]
}

func allocatingCall(n string) bool {
	switch n {
	case "slices.Clone", "slices.Sorted", "slices.Collect", "slices.Concat", "strings.Split", "strings.SplitN", "strings.Fields", "strings.SplitAfter", "bytes.Clone", "maps.Clone", "io.ReadAll", "os.ReadFile":
		return true
	}
	return strings.HasPrefix(n, "(*regexp.Regexp).Find")
}

// mutators write through their first argument.
func mutator(n string) bool {
	switch n {
	case "maps.Copy", "maps.DeleteFunc", "maps.Insert", "slices.Insert", "slices.Delete", "slices.DeleteFunc", "slices.Replace", "slices.Compact", "slices.CompactFunc", "slices.Reverse", "strings.Builder", "sort.Sort", "rand.Shuffle", "flag.Parse", "net/http.Header.Set":
		return true
	}
	for _, p := range []string{"(net/http.Header).Set", "(net/http.Header).Add", "(net/http.Header).Del", "(*net/http.Request).ParseForm", "(*net/http.Request).AddCookie", "(*bytes.Buffer).", "(*strings.Builder).", "(*bufio.", "(*math/rand", "(*text/template.", "(*html/template."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// effects lists every write to memory that is older than the call, over all
// outcomes and all loops; f gets each event once.
func (s *Scen) effects(f func(e *effect)) {
	x := s.x
	seen := map[*Event]bool{}
	loopSeen := map[*LoopMark]bool{}
	var walk func(tr *Trace, depth int)
	walk = func(tr *Trace, depth int) {
		for _, e := range tr.events() {
			switch e.kind {
			case "loop":
				if !loopSeen[e.loop] {
					loopSeen[e.loop] = true
					for _, p := range e.loop.parts {
						for _, b := range p.backs {
							walk(b.trace, depth)
						}
					}
				}
				continue
			case "lock":
				if len(e.args) > 0 && !x.fresh(e.args[0]) {
					switch {
					case strings.HasSuffix(e.name, ".Lock"):
						depth++
					case strings.HasSuffix(e.name, ".Unlock"):
						depth--
					}
				}
				continue
			case "once":
				if len(e.args) > 0 && !x.fresh(e.args[0]) {
					depth++
				}
				continue
			case "onceend":
				if len(e.args) > 0 && !x.fresh(e.args[0]) {
					depth--
				}
				continue
			}
			if seen[e] {
				continue
			}
			seen[e] = true
			ef := &effect{ev: e, synced: depth > 0}
			switch e.kind {
			case "store":
				if x.fresh(e.args[0]) {
					continue
				}
				ef.addr, ef.what = e.args[0], "writes "+addrName(e.args[0])
			case "mapset", "mapdel":
				if x.fresh(e.args[0]) {
					continue
				}
				ef.addr, ef.what = e.args[0], "changes the map "+addrName(e.args[0])
			case "append":
				if x.ownedSlice(e.args[0], x.marks, map[*Term]bool{}) {
					continue
				}
				ef.addr, ef.what = e.args[0], "appends in place to "+addrName(e.args[0])
			case "copy":
				if x.ownedSlice(e.args[0], x.marks, map[*Term]bool{}) {
					continue
				}
				ef.addr, ef.what = e.args[0], "copies into "+addrName(e.args[0])
			case "sort":
				if len(e.args) == 0 || strings.HasPrefix(e.name, "slices.Sorted") || e.args[0].op == OCall || x.ownedSlice(ifaceVal(e.args[0]), x.marks, map[*Term]bool{}) {
					continue
				}
				ef.addr, ef.what = e.args[0], "sorts in place "+addrName(e.args[0])
			case "call":
				if !mutator(e.name) || len(e.args) == 0 || x.ownedSlice(ifaceVal(e.args[0]), x.marks, map[*Term]bool{}) {
					continue
				}
				ef.addr, ef.what = e.args[0], e.name+" changes "+addrName(e.args[0])
			default:
				continue
			}
			f(ef)
		}
	}
	for _, o := range s.outs {
		walk(o.st.trace, 0)
	}
	for _, m := range append(append([]*LoopMark{}, x.marks...), x.hofMarks...) {
		if !loopSeen[m] {
			loopSeen[m] = true
			for _, p := range m.parts {
				for _, b := range p.backs {
					walk(b.trace, 0)
				}
			}
		}
	}
}

func ifaceVal(t *Term) *Term {
	if t.op == OIface {
		return t.args[0]
	}
	return t
}

// addrName prints an address for a message and an obligation key.
func addrName(a *Term) string {
	switch a.op {
	case OField:
		if st, ok := a.typ.Underlying().(*types.Struct); ok {
			return types.TypeString(a.typ, shortQual) + "." + st.Field(a.i).Name()
		}
	case OGlobal:
		return "package variable " + a.s
	case OIndex:
		return "an element of " + addrName(a.args[0])
	case OInit:
		return addrName(a.args[0])
	case OSym:
		if i := strings.IndexByte(a.s, '\''); i > 0 {
			return a.s[:i]
		}
		return a.s
	}
	if a.typ != nil {
		return "a " + types.TypeString(a.typ, shortQual)
	}
	return "memory"
}

// ---- P09 ----

func init() {
	register(&Rule{id: "P09", min: 60, run: ruleReadOnly,
		rule: "Effect analysis of every lookup, query, derivation and save entry point over all paths and loops: each store, map update, deletion, in-place append, copy or sort must hit an object the call itself created, or happen under a mutex or sync.Once that belongs to the shared object and guards every access to that location."})
}

// queries lists the entry points that only read.
func (c *Check) queries() []*ssa.Function {
	var out []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil {
			out = append(out, f)
		}
	}
	for _, m := range []string{"X", "XN64", "Lang", "GetHeader", "SortedEntry", "SaveAsPo", "SaveAsPot", "SaveAsMo"} {
		add(c.fn("translator", "*File."+m))
	}
	for _, m := range []string{"T", "N", "N1", "N64", "N1_64", "X", "XN", "XN1", "XN64", "XN1_64", "D", "L", "Domain", "Domains", "HasDomain", "Locale", "Locales",
		"MostMatchLocale", "UsedLocale", "SourceCodeLocale", "Get", "GetOrNoop"} {
		add(c.fn("", "*Translations."+m))
	}
	for _, m := range []string{"Get", "GetOrNoop"} {
		add(c.fn("", "*Translation."+m))
	}
	for _, m := range []string{"D", "L", "T", "N", "N1", "N64", "N1_64", "X", "XN", "XN1", "XN64", "XN1_64", "Global", "Locale", "MostMatchLocale", "SourceCodeLocale",
		"UsedLocale", "Locales", "Domain", "HasDomain", "Domains", "WithContext", "GetUserLang", "Tag", "Tags", "Match", "MatchTag", "GetCtxLocale", "GetCtxDomain", "SetCtxLocale", "SetCtxDomain", "NewTranslations", "NewTranslation", "NoopTranslator"} {
		add(c.fn("", m))
	}
	for _, n := range []string{"GetDefault", "Normalize", "NormalizeTag"} {
		add(c.fn("locale", n))
	}
	add(c.fn("f", "Format"))
	add(c.fn("f", "DefaultPlural"))
	add(c.fn("plurals", "Eval"))
	return out
}

func (c *Check) runQuery(fn *ssa.Function, setup func(x *Exec)) *Scen {
	o := scenOpt{setup: func(x *Exec) {
		nonNilGlobal(c)(x)
		if setup != nil {
			setup(x)
		}
	}, pre: nonNilArgs(c, fn)}
	if fn.Name() != "Eval" {
		o.pure = append(o.pure, pathEval) // analysed on its own
	}
	if strings.HasPrefix(fn.Name(), "SaveAs") {
		o.pure = append(o.pure, c.splitters()...)
	}
	return c.run(fn, o)
}

func ruleReadOnly(c *Check) {
	guarded := map[string][]*ssa.Function{}
	qs := c.queries()
	qs = append(qs, c.splitterFns()...)
	known := map[*ssa.Function]bool{}
	for _, fn := range qs {
		known[fn] = true
	}
	handed := map[*ssa.Function][]bool{} // by parameter: always an object of the calling query
	for i := 0; i < len(qs); i++ {
		fn := qs[i]
		s := c.runQuery(fn, nil)
		c.indirect(s, func(g *ssa.Function, args []*Term) {
			if !known[g] {
				known[g] = true
				qs = append(qs, g)
				handed[g] = make([]bool, len(args))
				for j := range args {
					handed[g][j] = true
				}
			}
			if h := handed[g]; h != nil {
				for j, a := range args {
					if j < len(h) && !s.x.fresh(a) {
						h[j] = false
					}
				}
			}
		})
		n := 0
		s.effects(func(e *effect) {
			if h := handed[fn]; h != nil {
				b := baseOf(e.addr)
				for j, a := range s.args {
					if a == b && j < len(h) && h[j] {
						return
					}
				}
			}
			n++
			key := fnName(fn) + ": " + e.what + " in " + e.ev.fn
			if e.synced {
				cl := classOf(e.addr, nil)
				guarded[cl] = append(guarded[cl], fn)
				c.ok("read-only", key, e.ev.pos)
				return
			}
			c.fail("read-only", key, e.ev.pos, "%s, called to look something up, %s without synchronisation: two concurrent calls race, and a query changes shared state", fnName(fn), e.what)
		})
		if n == 0 {
			c.ok("read-only", fnName(fn), fn.Pos())
		}
	}
	if len(guarded) > 0 {
		// every access to what is written under a lock must be under the lock
		for _, fn := range qs {
			s := c.runQuery(fn, func(x *Exec) {
				x.logReads = map[string]bool{}
				for cl := range guarded {
					x.logReads[cl] = true
				}
			})
			s.unguardedReads(func(e *Event) {
				c.fail("guarded-read", fnName(fn)+": "+addrName(e.args[0]), e.pos, "%s reads %s without the lock under which lookups write it", fnName(fn), addrName(e.args[0]))
			})
		}
	}
	c.listenerEffects()
}

// indirect: the functions of the repository that the unresolved calls of a
// scenario, through function values and interfaces, may reach.
func (c *Check) indirect(s *Scen, f func(g *ssa.Function, args []*Term)) {
	if s == nil {
		return
	}
	seen := map[*Event]bool{}
	s.eachPath(func(tr *Trace, st *State, back *LoopMark, out *callOut) {
		for _, e := range tr.events() {
			if e.kind != "call" || seen[e] {
				continue
			}
			seen[e] = true
			if e.name == "dynamic" && len(e.args) > 0 && e.args[0].typ != nil {
				if sig, ok := e.args[0].typ.Underlying().(*types.Signature); ok {
					for _, g := range c.functionValues(sig) {
						f(g, e.args[1:])
					}
				}
				continue
			}
			if !strings.HasPrefix(e.name, "("+modPath) || len(e.args) == 0 {
				continue
			}
			for _, g := range c.interfaceCall(e.name) {
				f(g, e.args)
			}
		}
	})
}

// functionValues: the functions of a signature that are used as values, other
// than by being called where they are written.
func (c *Check) functionValues(sig *types.Signature) []*ssa.Function {
	var out []*ssa.Function
	have := map[*ssa.Function]bool{}
	add := func(v ssa.Value) {
		var g *ssa.Function
		switch v := v.(type) {
		case *ssa.Function:
			g = v
		case *ssa.MakeClosure:
			g = v.Fn.(*ssa.Function)
		}
		if g == nil || have[g] || !c.w.isRepo(g) || len(g.Blocks) == 0 || g.Synthetic != "" {
			return
		}
		if types.Identical(types.NewSignatureType(nil, nil, nil, g.Signature.Params(), g.Signature.Results(), g.Signature.Variadic()), types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())) && g.Signature.Recv() == nil {
			have[g] = true
			out = append(out, g)
		}
	}
	for f := range c.w.all {
		if !c.w.isRepo(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					callee = ci.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if *op != callee {
						add(*op)
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, a := range ci.Common().Args {
						add(a)
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// interfaceCall: the methods of the repository behind a call of a repository
// interface's method, by its name in an event.
func (c *Check) interfaceCall(name string) []*ssa.Function {
	for _, p := range c.w.ssaPkgs {
		for _, mem := range p.Members {
			tn, ok := mem.(*ssa.Type)
			if !ok || !types.IsInterface(tn.Type()) {
				continue
			}
			it := tn.Type().Underlying().(*types.Interface)
			for i := 0; i < it.NumMethods(); i++ {
				m := it.Method(i)
				if name != "("+types.TypeString(types.Unalias(tn.Type()), nil)+")."+m.Name() {
					continue
				}
				var out []*ssa.Function
				for _, g := range c.w.implementers(tn.Type(), m) {
					if c.w.isRepo(g) && g.Synthetic == "" && len(g.Blocks) > 0 {
						out = append(out, g)
					}
				}
				sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
				return out
			}
		}
	}
	return nil
}

// unguardedReads reports logged reads outside any lock and not after the Once.
func (s *Scen) unguardedReads(f func(e *Event)) {
	x := s.x
	seen := map[*Event]bool{}
	done := map[*LoopMark]bool{}
	var walk func(tr *Trace, depth, once int)
	walk = func(tr *Trace, depth, once int) {
		for _, e := range tr.events() {
			switch e.kind {
			case "loop":
				if !done[e.loop] {
					done[e.loop] = true
					for _, p := range e.loop.parts {
						for _, b := range p.backs {
							walk(b.trace, depth, once)
						}
					}
				}
			case "lock":
				if x.fresh(e.args[0]) {
					break
				}
				switch {
				case strings.HasSuffix(e.name, "Unlock"):
					depth--
				case strings.HasSuffix(e.name, "Lock"):
					depth++
				}
			case "once":
				once++
			case "read":
				if depth <= 0 && once == 0 && !seen[e] {
					seen[e] = true
					f(e)
				}
			}
		}
	}
	for _, o := range s.outs {
		walk(o.st.trace, 0, 0)
	}
}

// listenerEffects: what the grammar runtime calls back during an evaluation
// writes only to the evaluation's own listener.
func (c *Check) listenerEffects() {
	ev := c.fn("plurals", "Eval")
	if ev == nil {
		return
	}
	s := c.run(ev, scenOpt{name: "plurals.Eval listeners", pre: nonNilArgs(c, ev)})
	type given struct {
		v *Term
		e *Event
	}
	listeners := map[types.Type][]given{}
	s.eachPath(func(tr *Trace, st *State, back *LoopMark, out *callOut) {
		for _, e := range tr.events() {
			if e.kind != "call" || !strings.Contains(e.name, "antlr") && !strings.Contains(e.name, "plurals/parser") {
				continue
			}
			for _, a := range e.args {
				if a.op != OIface {
					continue
				}
				v := a.args[0]
				p, ok := v.typ.(*types.Pointer)
				if !ok {
					continue
				}
				n, ok := p.Elem().(*types.Named)
				if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath+"/plurals" {
					continue
				}
				c.put("own-listener", e.name+": "+n.Obj().Name(), s.x.fresh(v), e.pos, "an evaluation hands a shared listener to the grammar runtime: concurrent evaluations race")
				listeners[v.typ] = append(listeners[v.typ], given{v, e})
			}
		}
	})
	c.assert(len(listeners) >= 2, "own-listener", "listeners", ev.Pos(), "%d listeners of this package are given to the grammar runtime, a syntax-error and a tree listener are expected", len(listeners))
	for t, gs := range listeners {
		ms := c.w.prog.MethodSets.MethodSet(t)
		str, _ := t.(*types.Pointer).Elem().Underlying().(*types.Struct)
		behind := map[int]bool{} // fields whose memory the methods write
		for i := 0; i < ms.Len(); i++ {
			fn := c.w.prog.MethodValue(ms.At(i))
			if fn == nil || fn.Synthetic != "" || !c.w.isRepo(fn) || len(fn.Blocks) == 0 || fn.Pkg.Pkg.Path() != modPath+"/plurals" {
				continue
			}
			m := c.run(fn, scenOpt{pre: nonNilArgs(c, fn)})
			n := 0
			m.effects(func(e *effect) {
				if r := baseOf(e.addr); r == m.args[0] {
					if f, ok := behindField(e.addr, m.args[0]); ok {
						behind[f] = true
					}
					return
				}
				n++
				c.fail("read-only", fnName(fn)+": "+e.what, e.ev.pos, "evaluating an expression %s", e.what)
			})
			if n == 0 {
				c.ok("read-only", fnName(fn), fn.Pos())
			}
		}
		if str == nil {
			continue
		}
		for f := range behind {
			for _, g := range gs {
				v := g.e.st.norm(s.at(g.e.st, g.v, t.(*types.Pointer).Elem(), f))
				own := v.isNil() || s.x.fresh(v) || s.x.ownedSlice(v, s.x.marks, map[*Term]bool{})
				c.put("own-listener", g.e.name+": "+str.Field(f).Name(), own, g.e.pos, "the listener of an evaluation writes to what it keeps in "+str.Field(f).Name()+", which is shared with other evaluations")
			}
		}
	}
}

// behindField: the address is reached through what field f of obj refers to.
func behindField(a, obj *Term) (int, bool) {
	for {
		if a.op == OInit && a.args[0].op == OField && a.args[0].args[0] == obj {
			return a.args[0].i, true
		}
		switch a.op {
		case OField, OIndex, OSlice, OInit, OAppend, OConv, OFieldV:
			a = a.args[0]
		default:
			return 0, false
		}
	}
}

// baseOf follows an address to the object it is reached from, through loads.
func baseOf(a *Term) *Term {
	for {
		switch a.op {
		case OField, OIndex, OSlice, OInit, OAppend, OConv, OFieldV:
			a = a.args[0]
		default:
			return a
		}
	}
}

// ---- P25 ----

func init() {
	register(&Rule{id: "P25", min: 60, run: ruleCallerArgs,
		rule: "Effect analysis of every public entry point with slice, map, pointer or variadic parameters over all paths and loops: no store, map update, deletion, in-place sort, copy or append may hit memory reached from a parameter other than the receiver; an append to a caller's slice needs its capacity cut first."})
}

func ruleCallerArgs(c *Check) {
	fns := c.queries()
	for _, n := range []string{"Errorf", "Wrapf", "WithSecondaryError", "Is"} {
		fns = append(fns, c.fn("errors", n))
	}
	for _, n := range []string{"*Translation.AddOrReplace", "*Translation.LoadPo", "*Translation.LoadMo", "*Translation.LoadFile", "*Translation.LoadFS", "*Translations.BindFS", "*Translations.SetLocale", "*Translations.SetDomain", "*Translations.RemoveDomain", "BindFS", "LoadFS", "SetGlobal"} {
		fns = append(fns, c.fn("", n))
	}
	fns = append(fns, c.fn("translator", "*File.AddEntry"), c.fn("translator", "*Entry.Key"))
	fns = append(fns, c.readers()...)
	if p := c.w.ssaPkgs[modPath]; p != nil {
		// Mark and whatever else is callable on package variables
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if !ok || g.Object() == nil || !g.Object().Exported() {
				continue
			}
			ms := c.w.prog.MethodSets.MethodSet(derefT(g.Type()))
			for i := 0; i < ms.Len(); i++ {
				if f := c.w.prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" && c.w.isRepo(f) {
					fns = append(fns, f)
				}
			}
		}
	}
	for _, fn := range fns {
		if fn == nil {
			continue
		}
		var s *Scen
		switch {
		case strings.HasPrefix(fn.Name(), "Load"), strings.HasPrefix(fn.Name(), "Bind"):
			s = c.run(fn, scenOpt{opaque: []string{pathRead + "ReadPo", pathRead + "ReadMo"}, pre: nonNilArgs(c, fn), setup: both(nonNilGlobal(c), c.mapsMade())})
		default:
			s = c.runQuery(fn, nil)
		}
		params := map[*Term]string{}
		for i, a := range s.args {
			if i == 0 && fn.Signature.Recv() != nil {
				continue
			}
			params[a] = fn.Params[i].Name()
		}
		n := 0
		s.effects(func(e *effect) {
			p, ok := params[baseOf(e.addr)]
			if !ok {
				return
			}
			n++
			c.fail("argument-intact", fnName(fn)+": "+p+" in "+e.ev.fn, e.ev.pos, "%s %s, which belongs to the caller's argument %s", fnName(fn), e.what, p)
		})
		if n == 0 {
			c.ok("argument-intact", fnName(fn), fn.Pos())
		}
	}
}
