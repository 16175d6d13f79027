package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- P40: an error names its cause ----

func init() {
	register(&Rule{id: "P40", min: 20, run: ruleCause,
		rule: "Every function of the module with an error result is interpreted with the other such functions opaque (helpers that take an error are looked into). On a path that returns an error while a call is known to have failed and its error was not recognised by errors.Is, the returned error must wrap the error of a failed call, by the %w positions of constant formats and the wrapping calls of the error packages; an error kept in a variable over a loop must wrap the failure of the round that set it. By induction over the call graph the root cause stays in the chain. The errors of the expression parser's listener wrap ErrAntlr and what they held before."})
}

// errFuncs: the functions with an error result, without the error packages and
// generated code.
func (c *Check) errFuncs() []*ssa.Function {
	var out []*ssa.Function
	for f := range c.w.all {
		if f.Pkg == nil || len(f.Blocks) == 0 || f.Parent() != nil || f.Synthetic != "" || !c.w.isRepo(f) {
			continue
		}
		if errResult(f) < 0 || takesError(f) || f.Pkg.Pkg.Path() == modPath+"/errors" || f.Pkg.Pkg.Path() == modPath+"/plurals/parser" {
			continue
		}
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	return out
}

func errResult(f *ssa.Function) int {
	r := f.Signature.Results()
	for i := r.Len() - 1; i >= 0; i-- {
		if types.Identical(r.At(i).Type(), tErr) {
			return i
		}
	}
	return -1
}

func takesError(f *ssa.Function) bool {
	p := f.Signature.Params()
	for i := 0; i < p.Len(); i++ {
		if types.Identical(p.At(i).Type(), tErr) {
			return true
		}
	}
	return false
}

func ruleCause(c *Check) {
	fns := c.errFuncs()
	var opaque []string
	for _, f := range fns {
		opaque = append(opaque, canon(f))
	}
	for _, f := range fns {
		c.causeOf(f, opaque)
	}
	c.listenerErrors()
}

// wrapped lists the errors an error value wraps, itself included.
func wrapped(st *State, e *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		t = st.norm(t)
		for t.op == OIface && types.IsInterface(t.typ) || t.op == OConv && len(t.args) == 1 {
			t = st.norm(t.args[0])
		}
		if seen[t] {
			return
		}
		seen[t] = true
		out = append(out, t)
		if !freshErr(t) {
			return
		}
		switch callName(t) {
		case "wrapErr":
			for _, a := range t.args[1:] {
				add(a)
			}
		case "fmt.Errorf":
			for _, i := range wrapVerbs(st.norm(t.args[0]), len(t.args)-1) {
				add(t.args[1+i])
			}
		}
	}
	add(e)
	return out
}

// wrapVerbs: the operands (of n) printed by the %w verbs of a format.
func wrapVerbs(format *Term, n int) []int {
	pieces := []*Term{format}
	if format.op == OConcat {
		pieces = format.args
	}
	if f, ok := format.strVal(); ok {
		var out []int
		arg := 0
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				continue
			}
			i++
			for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
				i++
			}
			if i >= len(f) {
				break
			}
			switch f[i] {
			case '%':
				continue
			case '[', '*':
				return nil // not followed
			case 'w':
				if arg < n {
					out = append(out, arg)
				}
			}
			arg++
		}
		return out
	}
	// the last piece is fixed and ends with the only verbs of it: they take the
	// last operands, as the formats of the module use up their operands
	last, ok := pieces[len(pieces)-1].strVal()
	if !ok {
		return nil
	}
	k := strings.Count(strings.ReplaceAll(last, "%%", ""), "%")
	var out []int
	for _, i := range wrapVerbs(kStr(last), k) {
		if j := n - k + i; j >= 0 {
			out = append(out, j)
		}
	}
	return out
}

func (c *Check) causeOf(f *ssa.Function, opaque []string) {
	var others []string
	for _, o := range opaque {
		if o != canon(f) {
			others = append(others, o)
		}
	}
	if f.Pkg.Pkg.Path() == toolPath || f.Pkg.Pkg.Path() != modPath {
		for _, g := range c.exported("") {
			if canon(g) != canon(f) {
				others = append(others, canon(g))
			}
		}
	}
	pre := nonNilArgs(c, f)
	if os.Getenv("VTCAUSE") != "" {
		fmt.Fprintln(os.Stderr, fnName(f))
	}
	others = append(others, "(*"+modPath+"/translator.File).SortedEntry")
	s := c.run(f, scenOpt{opaque: others, pre: pre, pure: c.splitters(), setup: func(x *Exec) {
		x.partCounts = f.Pkg.Pkg.Path() == toolPath
		nonNilGlobal(c)(x)
		x.watchPure = map[string]bool{"strconv.ParseInt": true, "strconv.ParseUint": true, "strconv.Atoi": true, "strconv.ParseBool": true, "strconv.ParseFloat": true, "strconv.Unquote": true,
			"golang.org/x/text/language.Parse": true, "golang.org/x/text/language.ParseAcceptLanguage": true}
	}})
	if s == nil {
		return
	}
	x := s.x
	own := map[string]bool{}
	for g := range x.visited {
		for h := g; h != nil; h = h.Parent() {
			if errResult(h) >= 0 || takesError(h) || h == f {
				own[fnName(g)] = true
			}
		}
	}
	name := fnName(f)
	res := errResult(f)
	// failed: the errors of the calls on this path that are known to have failed
	type failure struct {
		name string
		pos  token.Pos
	}
	failed := func(tr *Trace, st *State) (errs []*Term, calls []failure) {
		for _, e := range tr.events() {
			if !canFail(e) || !own[e.fn] {
				continue // or dealt with by a function that can not fail
			}
			er := errorOf(e)
			if v, k := x.truth(st, mkEq(er, kNil())); !k || v {
				continue
			}
			recognised := false
			st.facts.Each(func(id int, v bool) {
				t := terms[id-1]
				if v && t.op == OCall && t.s == "errors.Is" && st.norm(t.args[0]) == st.norm(er) {
					recognised = true
				}
			})
			if recognised {
				continue
			}
			errs, calls = append(errs, st.norm(er)), append(calls, failure{e.name, e.pos})
		}
		return
	}
	check := func(tr *Trace, st *State, e *Term, where string, vars map[*Term]bool) {
		errs, calls := failed(tr, st)
		c.ok("cause", name+": paths that end with an error", f.Pos())
		if len(errs) == 0 {
			return
		}
		ws := wrapped(st, e)
		good := false
		for _, w := range ws {
			for _, er := range errs {
				good = good || w == er
			}
			good = good || vars[w]
		}
		last := calls[len(calls)-1]
		c.put("cause", fmt.Sprintf("%s: failure of %s", name, last.name), good, last.pos,
			fmt.Sprintf("%s %v, which does not wrap the error of %s: the cause of the failure is lost", where, e, last.name))
	}
	// variables that hold an error over a loop
	vars := map[*Term]bool{}
	for _, m := range append(append([]*LoopMark{}, x.marks...), x.hofMarks...) {
		for _, v := range s.varsOf(m) {
			if v.typ == nil || !types.Identical(v.typ, tErr) {
				continue
			}
			for _, p := range m.parts {
				cur := s.varAt(p, v)
				vars[p.init.norm(cur)] = true
				vars[cur] = true
			}
			for _, p := range m.parts {
				for _, b := range p.backs {
					next := s.varNext(b, v)
					if x.isNilKnown(b.st, next) {
						continue
					}
					check(b.trace, b.st, next, "keeps for the next round", vars)
				}
			}
		}
	}
	for i := range s.outs {
		o := &s.outs[i]
		if o.kind != oRet {
			continue
		}
		e := o.res
		if e.op == OTuple {
			e = e.args[res]
		} else if res > 0 {
			e = mkExtract(e, res, tErr)
		}
		if x.isNilKnown(o.st, e) {
			continue
		}
		check(o.st.trace, o.st, e, "returns", vars)
	}
}

// listenerErrors: whatever the expression parser reports ends up in the
// listener's error, as an ErrAntlr, in front of what was reported before.
func (c *Check) listenerErrors() {
	lt := c.w.typ("plurals", "errorListener")
	if lt == nil {
		c.fail("anchor", "errorListener", 0, "type errorListener is gone")
		return
	}
	fe := c.field(lt, "err", "")
	if fe < 0 {
		return
	}
	var sentinel *ssa.Global
	if p := c.w.ssaPkgs[modPath+"/plurals"]; p != nil {
		sentinel = p.Var("ErrAntlr")
	}
	if sentinel == nil {
		c.fail("anchor", "ErrAntlr", 0, "the error ErrAntlr is gone")
		return
	}
	for _, n := range []string{"SyntaxError", "ReportAmbiguity", "ReportAttemptingFullContext", "ReportContextSensitivity"} {
		f := c.fn("plurals", "*errorListener."+n)
		if f == nil {
			continue
		}
		for _, first := range []bool{true, false} {
			s := c.run(f, scenOpt{pre: func(x *Exec, st *State, args []*Term) {
				nonNilArgs(c, f)(x, st, args)
			}, name: fmt.Sprintf("%s (first %v)", n, first)})
			if s == nil {
				continue
			}
			old := s.at(s.st0, s.args[0], lt, fe)
			want := s.x.load(s.st0, mkGlobal(sentinel), tErr)
			for i := range s.outs {
				o := &s.outs[i]
				if o.kind != oRet {
					continue
				}
				if _, ok := s.refine(o.st, []cond{{mkEq(old, kNil()), first}}); !ok {
					continue
				}
				now := s.at(o.st, s.args[0], lt, fe)
				if o.st.norm(now) == o.st.norm(old) && !first {
					c.ok("sentinel", n+": a later report", f.Pos())
					continue
				}
				if first {
					is, why := false, ""
					for _, w := range wrapped(o.st, now) {
						is = is || w == o.st.norm(want)
					}
					if !is {
						why = fmt.Sprintf("the error becomes %v", now)
					}
					c.put("sentinel", n+": the first report is an ErrAntlr", is, f.Pos(), why)
					continue
				}
				keeps := false
				for _, w := range wrapped(o.st, now) {
					keeps = keeps || w == o.st.norm(old)
				}
				c.put("sentinel", n+": a later report keeps the first one", keeps, f.Pos(), fmt.Sprintf("the error becomes %v", now))
			}
		}
	}
}
