package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	toolPkg   = "cmd/xtemplate/internal"
	toolPath  = modPath + "/" + toolPkg
	toolRun   = toolPath + ".Run"
	saveAsPot = "(*" + modPath + "/translator.File).SaveAsPot"
)

func init() {
	register(&Rule{id: "P30", min: 8, run: ruleOutput,
		rule: "Typestate over every path of the tool's run, earlier rounds of its loops included: where the output is opened for truncation every error seen so far is known to be nil, it is the file that was named, the catalogue goes to it and it is closed; a result of nil needs every error on the path to be nil. In main an error or a panic of the run always ends in a non-zero exit status."})
}

// walkers: the functions that look into parsed templates; whatever they find,
// they do not fail.
func (c *Check) walkers() []*ssa.Function {
	var out []*ssa.Function
	for f := range c.w.all {
		if pkgPath(f) != toolPath || f.Synthetic != "" {
			continue
		}
		for _, p := range f.Params {
			t := p.Type().String()
			if strings.Contains(t, "text/template/parse.") || strings.HasSuffix(t, "/template.Template") {
				out = append(out, f)
				break
			}
		}
	}
	sortFns(out)
	return out
}

// opaqueTool: what the analysis of a run does not look into.
func (c *Check) opaqueTool() []string {
	out := []string{toolPath + ".ParseKeywords", saveAsPot, "(*" + modPath + "/translator.File).AddEntry"}
	for _, f := range c.walkers() {
		out = append(out, canon(f))
	}
	for _, f := range c.exported("") {
		out = append(out, canon(f))
	}
	return out
}

// openModel: a file that was opened is a new one, and there is one unless
// there is an error.
func openModel(c *Check) model {
	return func(x *Exec, cs *callSite) []callOut {
		r := x.icall(cs.fr, cs.st, cs.instr, cs.name, cs.typ, cs.args)
		before := cs.st.clone()
		x.event(cs, "call", r)
		cs.st.trace.ev.st = before
		tp, ok := cs.typ.(*types.Tuple)
		if !ok || tp.Len() != 2 {
			return []callOut{{st: cs.st, res: r, kind: oRet}}
		}
		f, e := mkExtract(r, 0, tp.At(0).Type()), mkExtract(r, 1, tp.At(1).Type())
		good, bad := cs.st, cs.st.clone()
		var out []callOut
		if x.assume(good, mkEq(e, kNil()), true) && x.assume(good, mkEq(f, kNil()), false) {
			if p := c.w.prog.ImportedPackage("os"); p != nil {
				for _, n := range []string{"Stdin", "Stdout", "Stderr"} {
					if g := p.Var(n); g != nil {
						x.assume(good, mkEq(f, x.load(good, mkGlobal(g), derefT(g.Type()))), false)
					}
				}
			}
			out = append(out, callOut{st: good, res: mkTuple(f, e), kind: oRet})
		}
		if x.assume(bad, mkEq(e, kNil()), false) && x.assume(bad, mkEq(f, kNil()), true) {
			out = append(out, callOut{st: bad, res: mkTuple(f, e), kind: oRet})
		}
		return out
	}
}

// canFail: a call that reports an error of its own; making or printing one is
// not failing.
func canFail(e *Event) bool {
	if e.kind != "call" && e.kind != "write" || errorOf(e) == nil {
		return false
	}
	for _, p := range []string{"fmt.", "errors.", "github.com/cockroachdb/errors.", modPath + "/errors."} {
		if strings.HasPrefix(e.name, p) {
			return false
		}
	}
	return true
}

var truncating = map[string]int{ // and the argument with the name
	"os.OpenFile": 0, "os.Create": 0, "os.WriteFile": 0, "os.Truncate": 0, "os.Rename": 1, "os.Remove": 0, "os.RemoveAll": 0,
}

func ruleOutput(c *Check) {
	run := c.fn(toolPkg, "Run")
	if run == nil {
		return
	}
	param := c.w.typ(toolPkg, "Param")
	if param == nil {
		c.fail("anchor", "Param", 0, "type Param is gone")
		return
	}
	fo := c.field(param, "OutputFile", "")
	fi := c.field(param, "Input", "")
	if fo < 0 || fi < 0 {
		return
	}
	s := c.run(run, scenOpt{opaque: c.opaqueTool(), pre: nonNilArgs(c, run), setup: func(x *Exec) {
		x.partCounts = true
		nonNilGlobal(c)(x)
		for _, n := range []string{"os.OpenFile", "os.Create", "os.Open"} {
			x.models[n] = openModel(c)
		}
	}})
	if s == nil {
		return
	}
	p := s.args[0]
	name := s.at(s.st0, p, param, fo)
	pos := run.Pos()
	x := s.x

	// errors that may have occurred before this point are known not to
	pending := func(tr *Trace, st *State) string {
		for _, h := range tr.before(st) {
			for _, e := range h.tr.events() {
				if canFail(e) && !x.isNilKnown(h.st, errorOf(e)) {
					return fmt.Sprintf("%s in %s (line %d) may have failed", e.name, e.fn, c.w.prog.Fset.Position(e.pos).Line)
				}
			}
		}
		return ""
	}
	opened := 0
	after := map[*Event]bool{}
	for _, h := range s.everywhere() {
		var tr *Trace
		for _, e := range h.tr.events() {
			if i, ok := truncating[e.name]; ok && e.kind == "call" && i < len(e.args) {
				if e.name == "os.OpenFile" && readsOnly(e.args[1]) {
					goto next
				}
				opened++
				st := e.st
				if st == nil {
					st = h.st
				}
				c.assert(s.same(st, e.args[i], name), "output", "only the named output file is ever replaced", e.pos, "%s(%v)", e.name, st.norm(e.args[i]))
				dash := 0
				for _, no := range []string{"", "-"} {
					if v, k := x.truth(st, mkEq(name, kStr(no))); k && !v {
						dash++
					}
				}
				c.assert(dash == 2, "output", "no output file for an empty name or -", e.pos, "%s although the output may be the standard output", e.name)
				m := pending(tr, st)
				c.assert(m == "", "output", "nothing has failed when the output is replaced", e.pos, "%s, and the output would be lost", m)
				after[e] = true
				if e.name == "os.OpenFile" {
					fl, ok := constInt64(e.args[1])
					const want = 0x1 | 0x40 | 0x200
					c.assert(ok && fl&want == want && fl&(0x400|0x80) == 0, "output", "the output is created or emptied", e.pos, "flags %v", e.args[1])
				}
			}
		next:
			tr = &Trace{tr, e}
		}
	}
	// and what can still fail then is only the writing itself
	for _, h := range s.everywhere() {
		behind := false
		for _, e := range h.tr.events() {
			if after[e] {
				behind = true
			} else if behind {
				for _, sub := range inside(e) {
					c.assert(!canFail(sub) || c.writing(sub), "output", "nothing but the writing follows once the output is replaced", sub.pos,
						"%s comes after that and may fail", sub.name)
				}
			}
		}
	}
	c.assert(opened > 0, "output", "only the named output file is ever replaced", pos, "no output file is ever opened")

	nilOut, errOut := 0, 0
	for i := range s.outs {
		o := &s.outs[i]
		if o.kind == oPanic {
			continue
		}
		if o.kind != oRet {
			c.fail("output", "a run ends by returning", pos, "the program ends inside the run")
			continue
		}
		var outs, saves []*Event
		var openEv *Event
		for _, e := range o.st.trace.events() {
			if e.kind == "call" && e.name == saveAsPot {
				saves = append(saves, e)
			}
			if (e.name == "os.OpenFile" || e.name == "os.Create") && e.kind == "call" {
				openEv = e
				outs = append(outs, e)
			}
		}
		if len(outs) > 1 {
			c.fail("output", "the output is opened once", openEv.pos, "opened %d times", len(outs))
		}
		// what was opened is closed, whatever happens
		if openEv != nil && openEv.res[0] != nil {
			f := extractOf(openEv.res[0], 0)
			if !x.isNilKnown(o.st, f) {
				n := 0
				for _, e := range o.st.trace.events() {
					if e.kind == "call" && e.name == "(*os.File).Close" && s.same(o.st, e.args[0], f) {
						n++
					}
				}
				c.assert(n > 0, "output", "the output is closed on every path", openEv.pos, "a path returns without closing it")
			}
		}
		ok, isOK := s.refine(o.st, []cond{is(eq(o.res, kNil()))})
		if !isOK || s.listedError(o) {
			errOut++
			continue
		}
		nilOut++
		m := pending(ok.trace, ok)
		c.assert(m == "", "output", "success means that nothing failed", pos, "%s although success is reported", m)
		if len(saves) != 1 {
			c.fail("output", "success means that the catalogue was written", pos, "it is written %d times", len(saves))
			continue
		}
		w := unface(ok.norm(saves[0].args[1]))
		std := true
		for _, no := range []string{"", "-"} {
			if v, k := x.truth(ok, mkEq(name, kStr(no))); k && v {
				std = false // known to be the standard output
			}
		}
		toStd := c.isGlobal(ok, x, w, "os", "Stdout")
		switch {
		case !std:
			c.assert(toStd, "output", "without a file name the catalogue goes to the standard output", saves[0].pos, "it goes to %v", w)
		case openEv != nil && s.same(ok, w, extractOf(openEv.res[0], 0)):
			c.ok("output", "the catalogue goes to the named file", saves[0].pos)
		default:
			// through memory: what was written there goes to the file afterwards
			c.assert(c.spooled(s, ok, w, saves[0], name), "output", "the catalogue goes to the named file", saves[0].pos, "it goes to %v", w)
		}
	}
	c.assert(nilOut > 0, "output", "success means that nothing failed", pos, "the run never succeeds")
	c.assert(errOut > 0, "output", "a failure is reported", pos, "the run never reports an error")

	// every file is read and handed on
	c.exitStatus()
}

// inside: the event, or those of all rounds of a loop.
func inside(e *Event) []*Event {
	if e.loop == nil {
		return []*Event{e}
	}
	var out []*Event
	for _, p := range e.loop.parts {
		for _, b := range p.backs {
			for _, be := range b.trace.events() {
				out = append(out, inside(be)...)
			}
		}
	}
	return out
}

// writing: the call writes the output or ends that.
func (c *Check) writing(e *Event) bool {
	return e.name == saveAsPot || strings.HasPrefix(e.name, "(*os.File).") || strings.HasPrefix(e.name, "(*bytes.Buffer).") || e.kind == "write" || e.name == "io.Copy" ||
		e.name == "os.WriteFile" || e.name == "os.Rename" || strings.HasPrefix(e.name, "(*bufio.Writer).")
}

// listedError: the result is an element of a list of errors in which there is
// no nil.
func (s *Scen) listedError(o *callOut) bool {
	list, _ := elemOf(o.st, o.st.norm(o.res))
	if list == nil {
		return false
	}
	n := 0
	for _, h := range o.st.trace.before(o.st) {
		for _, e := range h.tr.events() {
			if e.kind != "append" || len(e.args) == 0 {
				continue
			}
			for _, it := range e.args[1:] {
				if it.typ == nil || !types.Identical(it.typ, tErr) && it.op != OIface {
					continue
				}
				if !s.x.nonNil(h.st, it) {
					return false
				}
				n++
			}
		}
	}
	return n > 0
}

// spooled: the writer is a buffer whose content is then written to the file.
func (c *Check) spooled(s *Scen, st *State, w *Term, save *Event, name *Term) bool {
	if w.op != OAlloc {
		return false
	}
	behind := false
	var text *Term
	if save.after != nil {
		text = s.x.bufText(save.after, w)
	}
	for _, e := range st.trace.events() {
		if e == save {
			behind = true
			continue
		}
		if behind && e.kind == "write" && text != nil && e.args[1].mentions(func(u *Term) bool { return u == text }) {
			return true
		}
		if !behind || e.kind != "call" && e.kind != "write" {
			continue
		}
		if e.name == "os.WriteFile" && s.same(st, e.args[0], name) || e.name == "(*bytes.Buffer).WriteTo" && s.same(st, e.args[0], w) ||
			e.name == "io.Copy" && unface(st.norm(e.args[1])) == w || e.name == "(*os.File).Write" || e.name == "(*os.File).WriteString" {
			return true
		}
	}
	return false
}

// isGlobal: t is the value of a global of another package.
func (c *Check) isGlobal(st *State, x *Exec, t *Term, pkg, name string) bool {
	p := c.w.prog.ImportedPackage(pkg)
	if p == nil || p.Var(name) == nil {
		return t.String() == "*&"+pkg+"."+name
	}
	g := p.Var(name)
	return st.norm(t) == st.norm(x.load(st.clone(), mkGlobal(g), derefT(g.Type())))
}

func extractOf(r *Term, i int) *Term {
	if r.op == OTuple {
		return r.args[i]
	}
	if tp, ok := r.typ.(*types.Tuple); ok {
		return mkExtract(r, i, tp.At(i).Type())
	}
	return r
}

func constInt64(t *Term) (int64, bool) {
	if t == nil || t.op != OConst || t.c == nil || t.c.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(t.c)
}

// readsOnly: flags that open a file for reading.
func readsOnly(t *Term) bool {
	n, ok := constInt64(t)
	return ok && n&(0x3|0x200|0x40) == 0
}

// everywhere: all traces with the state behind them: ways through the
// function and rounds of its loops.
func (s *Scen) everywhere() []happened {
	var out []happened
	s.eachPath(func(tr *Trace, st *State, back *LoopMark, o *callOut) { out = append(out, happened{tr, st}) })
	return out
}

// exitStatus: main ends with a non-zero status when the run fails or panics,
// and with zero only behind a run that succeeded or a request for information.
func (c *Check) exitStatus() {
	m := c.fn("cmd/xtemplate", "main")
	if m == nil {
		return
	}
	var opaque []string
	for _, f := range c.exported("") {
		opaque = append(opaque, canon(f))
	}
	var errT *Term
	s := c.run(m, scenOpt{opaque: opaque, setup: func(x *Exec) {
		x.models[toolRun] = func(x *Exec, cs *callSite) []callOut {
			errT = x.icall(cs.fr, cs.st, cs.instr, cs.name, tErr, cs.args)
			x.event(cs, "call", errT)
			p := cs.st.clone()
			pv := x.freshSym(cs.fr, p, cs.instr, "panic", tAny)
			x.assume(p, mkEq(pv, kNil()), false)
			p.add(&Event{kind: "mayPanic", name: cs.name, fn: fnName(cs.fr.fn)})
			return []callOut{{st: p, kind: oPanic, pv: pv}, {st: cs.st, res: errT, kind: oRet}}
		}
	}})
	if s == nil {
		return
	}
	pos := m.Pos()
	kinds := map[string]int{}
	for i := range s.outs {
		o := &s.outs[i]
		var run, pan, exit *Event
		for _, e := range o.st.trace.events() {
			switch {
			case e.kind == "call" && e.name == toolRun:
				run = e
			case e.kind == "mayPanic" && e.name == toolRun:
				pan = e
			case e.kind == "exit":
				exit = e
			}
		}
		code := int64(0)
		known := true
		if exit != nil {
			code, known = constInt64(o.st.norm(exit.args[0]))
		}
		status := "zero"
		if o.kind == oPanic || known && code != 0 {
			status = "non-zero"
		} else if !known {
			status = "unknown"
		}
		switch {
		case pan != nil:
			kinds["panic"]++
			c.assert(status == "non-zero", "status", "a panic of the run ends with a non-zero status", pos, "the status is %s", status)
		case run != nil && s.x.isNilKnown(o.st, run.res[0]):
			kinds["ok"]++
			c.assert(status == "zero", "status", "a run that succeeds ends with status zero", pos, "the status is %s", status)
		case run != nil:
			kinds["err"]++
			c.assert(status == "non-zero" && s.x.nonNil(o.st, run.res[0]), "status", "a run that fails ends with a non-zero status", pos, "the status is %s on\n%s", status, o.st.factString())
		}
	}
	for _, k := range []string{"panic", "ok", "err"} {
		c.assert(kinds[k] > 0, "status", "main runs the extraction ("+k+")", pos, "no path of main runs it")
	}
}
