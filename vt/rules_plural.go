package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	pkgPlurals = "plurals"
	pathParser = modPath + "/plurals/parser"
)

func init() {
	register(&Rule{id: "P17", min: 30, run: ruleOperators,
		rule: "Abstract interpretation of the tree listener's exit methods with an arbitrary operand stack, once per operator the decoded grammar admits; the resulting stack is compared with the C meaning of the operator."})
}

func init() {
	register(&Rule{id: "P18", min: 60, run: ruleGrammar,
		rule: "The serialised transition networks in the generated lexer and parser are decoded from the source; every alternative the generated code executes must be the one its number selects in the network (level, tokens, operand levels), and levels and operand levels must give C's precedence classes and associativity; token spellings are distinct, numbers are digit runs, blanks are skipped."})
}

func init() {
	register(&Rule{id: "P19", min: 1, run: ruleShortcuts,
		rule: "Abstract interpretation of plurals.Eval; every outcome that answers without parsing must be guarded by the blank-free expression being a constant text, and its path facts over n (comparisons of n and of remainders of n with constants, a finite partition of the integers) must give the value of that text under an independent C evaluator in every class of the partition."})
}

// listenerT is the tree listener that computes plural rules.
type listenerT struct {
	t                *types.Named
	stack, n, result int
	elem             types.Type // type of the stack
	exitExp          *ssa.Function
	exitPrimary      *ssa.Function
	exitStart        *ssa.Function
	others           []*ssa.Function
}

// listener finds the type: it is a struct of package plurals with an ExitExp
// method for the grammar's expression context.
func (c *Check) listener() *listenerT {
	p := c.w.ssaPkgs[modPath+"/"+pkgPlurals]
	if p == nil {
		c.fail("anchor", "package plurals", 0, "package plurals is gone")
		return nil
	}
	var names []string
	for n := range p.Members {
		names = append(names, n)
	}
	sortStrings(names)
	for _, n := range names {
		m, ok := p.Members[n].(*ssa.Type)
		if !ok {
			continue
		}
		nt, ok := m.Type().(*types.Named)
		if !ok {
			continue
		}
		st, ok := nt.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		ms := c.w.prog.MethodSets.MethodSet(types.NewPointer(nt))
		l := &listenerT{t: nt, stack: -1, n: -1, result: -1}
		for i := 0; i < ms.Len(); i++ {
			f := c.w.prog.MethodValue(ms.At(i))
			if f == nil || f.Object() == nil || !f.Object().Exported() {
				continue
			}
			switch f.Name() {
			case "ExitExp":
				l.exitExp = f
			case "ExitPrimary":
				l.exitPrimary = f
			case "ExitStart":
				l.exitStart = f
			default:
				if strings.HasPrefix(f.Name(), "Enter") || strings.HasPrefix(f.Name(), "Exit") || strings.HasPrefix(f.Name(), "Visit") {
					l.others = append(l.others, f)
				}
			}
		}
		if l.exitExp == nil || l.exitPrimary == nil || l.exitStart == nil {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			switch u := f.Type().Underlying().(type) {
			case *types.Slice:
				if types.Identical(u.Elem(), tInt64) {
					l.stack, l.elem = i, f.Type()
				}
			case *types.Basic:
				if u.Kind() == types.Int64 {
					if strings.HasPrefix(f.Name(), "r") {
						l.result = i
					} else {
						l.n = i
					}
				}
			}
		}
		if l.stack < 0 || l.n < 0 || l.result < 0 {
			c.fail("anchor", nt.String(), 0, "the listener has no operand stack, count or result")
			return nil
		}
		return l
	}
	c.fail("anchor", "listener", 0, "no listener computes plural rules")
	return nil
}

var tInt64 = types.Typ[types.Int64]

// tokens gives the getters of a tree node their values.
func tokens(texts map[string]*Term, raw *Term) func(x *Exec) {
	return func(x *Exec) {
		x.onInvoke = func(x *Exec, cs *callSite) ([]callOut, bool) {
			i := strings.LastIndexByte(cs.name, '.')
			switch m := cs.name[i+1:]; m {
			case "GetPrefix", "GetBop", "GetPostfix", "GetStart":
				if len(cs.args) != 1 {
					return nil, false
				}
				if _, ok := texts[m]; !ok {
					return one(cs.st, zeroOf(cs.typ)), true
				}
				t := kSym("token"+m, cs.typ)
				x.assume(cs.st, mkEq(t, kNil()), false)
				return one(cs.st, t), true
			case "GetText":
				if len(cs.args) == 0 {
					return nil, false
				}
				a := cs.args[0]
				if a.op == OSym && strings.HasPrefix(a.s, "token") {
					return one(cs.st, texts[strings.TrimPrefix(a.s, "token")]), true
				}
				if raw != nil {
					return one(cs.st, raw), true
				}
			}
			return nil, false
		}
	}
}

// operator is one operator the grammar admits, with the getter that holds it.
type operator struct {
	getter, text string
	operands     int
}

// operators lists every operator of the grammar: the tokens the generated
// code stores in the prefix, binary or postfix slot of an expression node.
func (g *grammar) operators(c *Check) (out []operator) {
	seen := map[operator]bool{}
	for _, a := range g.code {
		var o operator
		switch a.field {
		case "prefix":
			o = operator{"GetPrefix", "", 1}
		case "postfix":
			o = operator{"GetPostfix", "", 1}
		case "bop":
			o = operator{"GetBop", "", 1 + len(a.exps)}
		default:
			c.fail("anchor", "operator slot "+a.field, a.pos.Pos(), "operators are stored in a slot the check does not know")
			continue
		}
		for _, t := range setKeys(a.tokens) {
			o.text = g.text[t]
			if o.text == "" {
				c.fail("anchor", fmt.Sprintf("%s token %d", a.field, t), a.pos.Pos(), "the operator token has no fixed spelling")
				continue
			}
			if !seen[o] {
				seen[o] = true
				out = append(out, o)
			}
		}
	}
	return out
}

// meaning is the value C gives an operator, as a list of cases; v holds the
// operands in source order.
type meaning struct {
	when []cond
	want *Term
}

func cMeaning(getter, op string, v []*Term) []meaning {
	i := func(n int64) *Term { return kIntT(n, tInt64) }
	bin := func(t token.Token) []meaning {
		return []meaning{{nil, mkBin(t, v[0], v[1], tInt64, tInt64)}}
	}
	truth := func(c cond) []meaning {
		return []meaning{{[]cond{c}, i(1)}, {[]cond{{c.t, !c.v}}, i(0)}}
	}
	zero := func(k int) cond { return is(mkEq(v[k], i(0))) }
	set := func(k int) cond { return not(mkEq(v[k], i(0))) }
	switch {
	case getter == "GetPrefix":
		switch op {
		case "+":
			return []meaning{{nil, v[0]}}
		case "-":
			return []meaning{{nil, mkSub(i(0), v[0], tInt64)}}
		case "~":
			return []meaning{{nil, mkSub(i(-1), v[0], tInt64)}}
		case "!":
			return truth(zero(0))
		case "++":
			return []meaning{{nil, mkAdd(v[0], i(1), tInt64)}}
		case "--":
			return []meaning{{nil, mkSub(v[0], i(1), tInt64)}}
		}
	case len(v) == 3 && op == "?":
		return []meaning{{[]cond{set(0)}, v[1]}, {[]cond{zero(0)}, v[2]}}
	case len(v) == 2:
		switch op {
		case "+":
			return bin(token.ADD)
		case "-":
			return bin(token.SUB)
		case "*":
			return bin(token.MUL)
		case "/":
			return bin(token.QUO)
		case "%":
			return bin(token.REM)
		case "<<":
			return bin(token.SHL)
		case ">>":
			return bin(token.SHR)
		case "&":
			return bin(token.AND)
		case "|":
			return bin(token.OR)
		case "^":
			return bin(token.XOR)
		case "<":
			return truth(is(mkLt(v[0], v[1], tInt64)))
		case ">":
			return truth(is(mkLt(v[1], v[0], tInt64)))
		case "<=":
			return truth(not(mkLt(v[1], v[0], tInt64)))
		case ">=":
			return truth(not(mkLt(v[0], v[1], tInt64)))
		case "==":
			return truth(is(mkEq(v[0], v[1])))
		case "!=":
			return truth(not(mkEq(v[0], v[1])))
		case "&&":
			return []meaning{{[]cond{set(0), set(1)}, i(1)}, {[]cond{zero(0)}, i(0)}, {[]cond{zero(1)}, i(0)}}
		case "||":
			return []meaning{{[]cond{set(0)}, i(1)}, {[]cond{set(1)}, i(1)}, {[]cond{zero(0), zero(1)}, i(0)}}
		}
	}
	return nil
}

// partial operators have no value for some operands.
func partial(op string, v []*Term) []cond {
	z := kIntT(0, tInt64)
	switch {
	case len(v) == 2 && (op == "/" || op == "%"):
		return []cond{is(mkEq(v[1], z))}
	case len(v) == 2 && (op == "<<" || op == ">>"):
		return []cond{is(mkLt(v[1], z, tInt64))}
	}
	return nil
}

// operandStack runs a method of the listener with an arbitrary operand stack.
func (l *listenerT) run(c *Check, fn *ssa.Function, name string, texts map[string]*Term, raw *Term) (*Scen, *Term) {
	var stack *Term
	s := c.run(fn, scenOpt{name: name, setup: tokens(texts, raw), pre: func(x *Exec, st *State, args []*Term) {
		nonNilArgs(c, fn)(x, st, args)
		x.assume(st, mkEq(args[0], kNil()), false)
		for i := 0; i < l.t.Underlying().(*types.Struct).NumFields(); i++ {
			f := l.t.Underlying().(*types.Struct).Field(i)
			if types.IsInterface(f.Type()) { // the context is set by the constructor
				x.assume(st, mkEq(x.load(st, mkField(args[0], l.t, i), f.Type()), kNil()), false)
			}
		}
		stack = x.load(st, mkField(args[0], l.t, l.stack), l.elem)
		x.assume(st, mkLt(mkLen(stack), kInt(4), tInt), false)
	}})
	return s, stack
}

// slot is the k-th element from the end of a stack in a state.
func (s *Scen) slot(st *State, stack *Term, k int64) *Term {
	return s.elem(st, stack, st.norm(mkSub(mkLen(stack), kInt(k), tInt)))
}

// elem is the element of a slice at an index, below what was appended to it.
func (s *Scen) elem(st *State, stack, i *Term) *Term {
	for t := stack; ; {
		switch {
		case t.op == OAppend && s.x.proveLE(st, i, mkLen(t.args[0]), -1):
			t = t.args[0]
			continue
		case t.op == OSlice && isZero(t.args[1]) && s.x.proveLE(st, i, mkLen(t), -1):
			t = t.args[0]
			continue
		}
		return st.norm(s.x.load(st, mkIndexAddr(t, i, tInt64), tInt64))
	}
}

func isZero(t *Term) bool { n, ok := t.intVal(); return ok && n == 0 }

// popPush requires that a method replaces the topmost n operands by a value.
func (l *listenerT) popPush(c *Check, s *Scen, stack *Term, what string, n int64, vals []meaning, bad []cond) {
	pos := s.fn.Pos()
	hit := false
	for _, o := range s.outs {
		st := o.st
		if o.kind != oRet {
			if len(bad) > 0 {
				if st, ok := s.refine(st, []cond{{bad[0].t, !bad[0].v}}); ok {
					c.fail("operator", what, pos, "panics although the value is defined\n%s", st.factString())
				}
				continue
			}
			c.fail("operator", what, pos, "is not handled: the evaluation panics\n%s", st.factString())
			hit = true
			continue
		}
		final := st.norm(s.at(st, s.args[0], l.t, l.stack))
		ln := mkSub(mkLen(stack), kInt(n-1), tInt)
		if vals == nil {
			ln = mkSub(mkLen(stack), kInt(n), tInt)
		}
		if !s.same(st, mkLen(final), ln) {
			c.fail("operator", what, pos, "leaves %v operands on the stack where %v are required", st.norm(mkLen(final)), st.norm(ln))
			hit = true
			continue
		}
		under := int64(1) // operands below the result stay
		for _, m := range vals {
			st, ok := s.refine(st, m.when)
			if !ok {
				continue
			}
			hit = true
			got := s.slot(st, final, 1)
			if !s.same(st, got, m.want) {
				c.fail("operator", what, pos, "yields %v where C yields %v\n%s", got, st.norm(m.want), st.factString())
			}
			under = 2
		}
		if vals == nil {
			hit = true
		}
		if got, want := s.slot(st, final, under), s.slot(s.st0, stack, n+1); !s.same(st, got, want) {
			c.fail("operator", what, pos, "changes an operand of the enclosing expression to %v", got)
		}
	}
	if !hit {
		c.fail("operator", what, pos, "no outcome: the operator is not evaluated")
		return
	}
	c.ok("operator", what, pos)
}

func ruleOperators(c *Check) {
	l, g := c.listener(), c.grammar()
	if l == nil || g == nil {
		return
	}
	ops := g.operators(c)
	for _, op := range ops {
		what := fmt.Sprintf("%s %q", strings.ToLower(strings.TrimPrefix(op.getter, "Get")), op.text)
		s, stack := l.run(c, l.exitExp, what, map[string]*Term{op.getter: kStr(op.text)}, nil)
		if s == nil {
			return
		}
		var v []*Term
		for i := op.operands; i >= 1; i-- {
			v = append(v, s.slot(s.st0, stack, int64(i)))
		}
		if op.getter == "GetPostfix" {
			l.postfix(c, s, stack, what, v[0])
			continue
		}
		m := cMeaning(op.getter, op.text, v)
		if m == nil {
			c.fail("operator", what, l.exitExp.Pos(), "the grammar admits an operator C does not have")
			continue
		}
		l.popPush(c, s, stack, what, int64(op.operands), m, partial(op.text, v))
	}
	s, stack := l.run(c, l.exitExp, "no operator", nil, nil)
	l.popPush(c, s, stack, "expression without operator", 0, nil, nil)

	// operands
	for _, first := range []string{"n", "("} {
		s, stack := l.run(c, l.exitPrimary, "operand "+first, map[string]*Term{"GetStart": kStr(first)}, kSym("text", tStr))
		if first == "(" {
			l.popPush(c, s, stack, "parentheses", 0, nil, nil)
			continue
		}
		l.popPush(c, s, stack, "operand n", 0, []meaning{{nil, s.at(s.st0, s.args[0], l.t, l.n)}}, nil)
	}
	l.number(c)
	l.end(c)
	for _, f := range l.others {
		if f.Synthetic == "" && len(f.Blocks) > 0 && fnPkg(f) != nil && fnPkg(f).Path() == modPath+"/"+pkgPlurals {
			s, stack := l.run(c, f, f.Name(), nil, kSym("text", tStr))
			l.popPush(c, s, stack, f.Name()+" leaves the operands alone", 0, nil, nil)
		}
	}
}

// postfix: C leaves the operand as the value, the next one is accepted too.
func (l *listenerT) postfix(c *Check, s *Scen, stack *Term, what string, v *Term) {
	pos := s.fn.Pos()
	for _, o := range s.outs {
		if o.kind != oRet {
			c.fail("operator", what, pos, "is not handled: the evaluation panics\n%s", o.st.factString())
			continue
		}
		final := o.st.norm(s.at(o.st, s.args[0], l.t, l.stack))
		got := s.slot(o.st, final, 1)
		switch {
		case !s.same(o.st, mkLen(final), mkLen(stack)):
			c.fail("operator", what, pos, "leaves %v operands on the stack where %v are required", o.st.norm(mkLen(final)), mkLen(stack))
		case !s.same(o.st, got, v) && !s.same(o.st, got, mkAdd(v, kIntT(1, tInt64), tInt64)) && !s.same(o.st, got, mkSub(v, kIntT(1, tInt64), tInt64)):
			c.fail("operator", what, pos, "yields %v", got)
		case !s.same(o.st, s.slot(o.st, final, 2), s.slot(s.st0, stack, 2)):
			c.fail("operator", what, pos, "changes an operand of the enclosing expression")
		}
	}
	c.assert(len(s.outs) > 0, "operator", what, pos, "no outcome")
}

// number: any other operand is a decimal number, pushed as its value.
func (l *listenerT) number(c *Check) {
	raw := kSym("digits", tStr)
	s, stack := l.run(c, l.exitPrimary, "operand number", map[string]*Term{"GetStart": raw}, raw)
	isNum := []cond{not(mkEq(raw, kStr("n"))), not(mkEq(raw, kStr("(")))}
	const what = "decimal number"
	n := 0
	for _, o := range s.outs {
		st, ok := s.refine(o.st, isNum)
		if !ok {
			continue
		}
		if o.kind != oRet {
			continue // reported by Eval; P20 requires that
		}
		n++
		final := st.norm(s.at(st, s.args[0], l.t, l.stack))
		got := s.slot(st, final, 1)
		if !s.same(st, mkLen(final), mkAdd(mkLen(stack), kInt(1), tInt)) {
			c.fail("operator", what, s.fn.Pos(), "leaves %v operands on the stack", st.norm(mkLen(final)))
			continue
		}
		v := got
		for v.op == OConv {
			v = v.args[0]
		}
		call := v
		if v.op == OExtract {
			call = v.args[0]
		}
		if call.op != OCall || len(call.args) == 0 || !s.same(st, call.args[0], raw) {
			c.fail("operator", what, s.fn.Pos(), "pushes %v, not the number that stands there", got)
			continue
		}
		switch call.s {
		case "strconv.ParseInt":
			b, _ := call.args[1].intVal()
			w, _ := call.args[2].intVal()
			if b != 10 || w != 64 {
				c.fail("operator", what, s.fn.Pos(), "the number is read as %v", call)
				continue
			}
		case "strconv.Atoi":
		default:
			c.fail("operator", what, s.fn.Pos(), "pushes %v, not the number that stands there", got)
			continue
		}
		if e, k := s.x.truth(st, mkEq(mkExtract(call, 1, nil), kNil())); !k || !e {
			c.fail("operator", what, s.fn.Pos(), "a number that does not fit is used as %v instead of being an error", got)
		}
		if !s.same(st, s.slot(st, final, 2), s.slot(s.st0, stack, 1)) {
			c.fail("operator", what, s.fn.Pos(), "changes an operand of the enclosing expression")
		}
	}
	c.assert(n > 0, "operator", what, s.fn.Pos(), "numbers are not evaluated")
}

// end: the value of the whole expression is the topmost operand.
func (l *listenerT) end(c *Check) {
	s, stack := l.run(c, l.exitStart, "end of expression", nil, nil)
	for _, o := range s.outs {
		// a complete expression leaves exactly one operand
		st, ok := s.refine(o.st, []cond{is(mkEq(mkLen(stack), kInt(1)))})
		if !ok {
			continue
		}
		o.st = st
		got := s.at(o.st, s.args[0], l.t, l.result)
		if o.kind != oRet || !s.same(o.st, got, s.slot(s.st0, stack, 1)) {
			c.fail("operator", "end of expression", s.fn.Pos(), "the result is %v, not the value of the expression", o.st.norm(got))
		}
	}
	c.assert(len(s.outs) > 0, "operator", "end of expression", s.fn.Pos(), "no outcome")
}

// ---- P18: the expression grammar has C's precedence and associativity ----

// cLevels lists C's operator classes, loosest first.
var cLevels = []struct {
	name string
	ops  []string
}{
	{"conditional", []string{"?"}},
	{"logical or", []string{"||"}},
	{"logical and", []string{"&&"}},
	{"bitwise or", []string{"|"}},
	{"bitwise xor", []string{"^"}},
	{"bitwise and", []string{"&"}},
	{"equality", []string{"==", "!="}},
	{"relational", []string{"<", ">", "<=", ">="}},
	{"shift", []string{"<<", ">>"}},
	{"additive", []string{"+", "-"}},
	{"multiplicative", []string{"*", "/", "%"}},
}

func ruleGrammar(c *Check) {
	g := c.grammar()
	if g == nil {
		return
	}
	// the generated code follows the network it predicts with
	used := map[int]bool{}
	nops, nprefix := 0, 0
	for _, a := range g.code {
		what := fmt.Sprintf("alternative %s %s", a.field, g.names(a.tokens))
		var alt []item
		if a.field == "prefix" {
			nprefix++
			for _, p := range g.prefix {
				if len(p) > 0 && p[len(p)-1].kind == "rule" && p[len(p)-1].n == g.expRule && sameSet(firstTok(p), a.tokens) {
					alt = p
				}
			}
		} else {
			nops++
			if a.number >= 1 && a.number <= len(g.ops) {
				alt = g.ops[a.number-1]
			}
			c.assert(!used[a.number], "alternatives", what, a.pos.Pos(), "two alternatives of the generated code claim number %d", a.number)
			used[a.number] = true
		}
		want := shape(a)
		got := ""
		for _, it := range alt {
			if it.kind != "act" {
				got += it.String() + " "
			}
		}
		c.assert(alt != nil && got == want, "alternatives", what, a.pos.Pos(), "the code does %s where the table that selects it has %s", want, got)
	}
	c.assert(nops == len(g.ops), "alternatives", "operators", 0, "the table has %d operator alternatives, the code %d", len(g.ops), nops)
	c.assert(nprefix == len(g.prefix)-1, "alternatives", "prefix operators", 0, "the table has %d alternatives that start an expression, the code handles %d", len(g.prefix), nprefix+1)

	// spellings
	seen := map[string]int{}
	for _, t := range setKeys(tokenSet(g.text)) {
		s := g.text[t]
		_, dup := seen[s]
		c.assert(!dup, "spelling", fmt.Sprintf("token %q", s), 0, "two token types have the spelling %q, so the second is never recognised", s)
		seen[s] = t
	}

	// precedence
	level := map[string]codeAlt{}
	minPrefix, maxBin := 1<<30, -1
	for _, a := range g.code {
		for _, t := range setKeys(a.tokens) {
			switch a.field {
			case "bop":
				_, dup := level[g.text[t]]
				c.assert(!dup, "precedence", fmt.Sprintf("operator %q", g.text[t]), a.pos.Pos(), "the operator occurs in two alternatives")
				level[g.text[t]] = a
				if a.level > maxBin {
					maxBin = a.level
				}
			case "prefix":
				if len(a.exps) != 1 {
					c.fail("precedence", fmt.Sprintf("prefix %q", g.text[t]), a.pos.Pos(), "takes %d operands", len(a.exps))
				} else if a.exps[0] < minPrefix {
					minPrefix = a.exps[0]
				}
			}
		}
	}
	prev, prevName := -1, ""
	for _, cl := range cLevels {
		lo, hi := 1<<30, -1
		for _, op := range cl.ops {
			a, ok := level[op]
			what := fmt.Sprintf("operator %q", op)
			if !ok {
				c.fail("precedence", what, 0, "the grammar has no such operator")
				continue
			}
			if a.level < lo {
				lo = a.level
			}
			if a.level > hi {
				hi = a.level
			}
			// associativity
			if op == "?" {
				c.assert(len(a.exps) == 2 && a.exps[0] == 0 && a.exps[1] <= a.level && len(a.more) == 1 && g.text[a.more[0]] == ":", "associativity", what, a.pos.Pos(),
					"the conditional is not 'cond ? any expression : right-associative expression' (levels %v, then %v)", a.exps, a.more)
			} else {
				c.assert(len(a.exps) == 1 && a.exps[0] > a.level && a.exps[0] <= a.level+1 && len(a.more) == 0, "associativity", what, a.pos.Pos(),
					"the right operand is read at level %v, %d is required for an operator that associates to the left", a.exps, a.level+1)
			}
			delete(level, op)
		}
		c.assert(lo > prev, "precedence", cl.name+" binds tighter than "+prevName, 0, "level %d is not above %d", lo, prev)
		c.assert(lo == hi, "precedence", cl.name+" operators share one level", 0, "%s have levels from %d to %d, so a chain of them is not read from left to right", strings.Join(cl.ops, " "), lo, hi)
		prev, prevName = hi, cl.name
	}
	for op := range level {
		c.fail("precedence", fmt.Sprintf("operator %q", op), 0, "C has no such binary operator")
	}
	c.assert(minPrefix > maxBin, "precedence", "prefix operators bind tighter than every binary one", 0, "the operand of a prefix operator is read at level %d, which lets in binary operators of level %d", minPrefix, maxBin)
	for _, a := range g.code {
		if a.field == "postfix" {
			c.assert(a.level >= minPrefix && len(a.exps) == 0, "precedence", "postfix operators bind tightest", a.pos.Pos(), "level %d", a.level)
		}
	}

	// operands
	want := []string{"[" + "(" + "] any expression [" + ")" + "]", "[n]", "number"}
	var got []string
	for _, p := range g.primary {
		s := ""
		for _, it := range p {
			switch it.kind {
			case "tok":
				k := setKeys(it.set)
				if len(k) == 1 && k[0] == g.number {
					s += " number"
				} else {
					s += " [" + g.names(it.set) + "]"
				}
			case "rule":
				if it.n == g.expRule && it.prec == 0 {
					s += " any expression"
				} else {
					s += " " + it.String()
				}
			}
		}
		got = append(got, strings.TrimSpace(s))
	}
	sortStrings(got)
	sortStrings(want)
	c.assert(strings.Join(got, " | ") == strings.Join(want, " | "), "operands", "primary expressions", 0, "are %s, required are %s", strings.Join(got, " | "), strings.Join(want, " | "))
	whole := len(g.start) == 1 && len(g.start[0]) >= 1 && g.start[0][0].kind == "rule" && g.start[0][0].n == g.expRule && g.start[0][0].prec == 0
	c.assert(whole, "operands", "the start rule is one expression", 0, "the start rule is %v", g.start)
	exps, ok := c.codeCalls("Primary", "exp")
	toks, _ := c.codeCalls("Primary", "Match")
	open := map[int]bool{g.number: true}
	for t, s := range g.text {
		if s == "(" || s == ")" || s == "n" {
			open[t] = true
		}
	}
	match := map[int]bool{}
	for _, t := range toks {
		match[t] = true
	}
	c.assert(ok && len(exps) == 1 && exps[0] == 0 && sameSet(open, match), "operands", "generated code for operands", 0, "matches tokens %v and expressions at level %v", g.names(match), exps)
	exps, ok = c.codeCalls("Start_", "exp")
	c.assert(ok && len(exps) == 1 && exps[0] == 0, "operands", "generated code for the start rule", 0, "reads expressions at level %v", exps)
	g.lexemes(c)
	c.getters(g)
}

// shape writes an alternative of the code the way the table has it.
func shape(a codeAlt) string {
	s := ""
	if a.level >= 0 {
		s += item{kind: "pred", n: a.level}.String() + " "
	}
	s += item{kind: "tok", set: a.tokens}.String() + " "
	for i, e := range a.exps {
		s += item{kind: "rule", n: 1, prec: e}.String() + " "
		if i < len(a.more) {
			s += item{kind: "tok", set: map[int]bool{a.more[i]: true}}.String() + " "
		}
	}
	return s
}

func firstTok(p []item) map[int]bool {
	for _, it := range p {
		if it.kind == "tok" {
			return it.set
		}
	}
	return nil
}

func sameSet(a, b map[int]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

func tokenSet(m map[int]string) map[int]bool {
	r := map[int]bool{}
	for k := range m {
		r[k] = true
	}
	return r
}

// lexemes: numbers are runs of digits, blanks are skipped, nothing else.
func (g *grammar) lexemes(c *Check) {
	digits, blanks := false, false
	for _, cl := range g.classes {
		if len(cl.sets) != 1 || cl.odd {
			c.fail("spelling", fmt.Sprintf("token class %d", cl.tok), 0, "is not a run of characters of one kind")
			continue
		}
		s := ""
		for _, k := range setKeys(cl.sets[0]) {
			s += string(rune(k))
		}
		switch {
		case !cl.skip && s == "0123456789":
			digits = true
		case cl.skip && strings.Contains(s, " ") && strings.Trim(s, " \t\r\n\f\v") == "":
			blanks = true
		default:
			c.fail("spelling", fmt.Sprintf("token class %d", cl.tok), 0, "is a run of %q (skipped=%v), neither a number nor blanks", s, cl.skip)
		}
	}
	c.assert(digits, "spelling", "numbers are runs of decimal digits", 0, "no token is a run of decimal digits")
	c.assert(blanks, "spelling", "blanks are skipped", 0, "no token of blanks is skipped")
}

// getters: the slots the parser fills are the ones the evaluation reads.
func (c *Check) getters(g *grammar) {
	t := c.w.typ("plurals/parser", "ExpContext")
	if t == nil {
		c.fail("anchor", "ExpContext", 0, "the expression node type is gone")
		return
	}
	for _, f := range []string{"prefix", "bop", "postfix"} {
		i := c.field(t, f, "")
		m := c.method(types.NewPointer(t), "Get"+strings.ToUpper(f[:1])+f[1:])
		if i < 0 || m == nil {
			continue
		}
		s := c.run(m, scenOpt{})
		s.table([]row{{name: "the token stored there", want: term(s.at(s.st0, s.args[0], t, i))}})
	}
}

// codeCalls lists the constants a generated rule function passes to a method.
func (c *Check) codeCalls(rule, method string) (out []int, ok bool) {
	p := c.w.ssaPkgs[pathParser]
	for f := range c.w.all {
		if f.Pkg != p || f.Name() != rule || f.Signature.Recv() == nil || f.Synthetic != "" || !strings.Contains(f.Signature.Recv().Type().String(), "Parser") {
			continue
		}
		c.analysed[fnName(f)] = true
		ok = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				cl, isCall := in.(*ssa.Call)
				if !isCall || callMethod(cl) != method {
					continue
				}
				v := -1
				for i := len(cl.Call.Args) - 1; i >= 0; i-- {
					if k, isK := cl.Call.Args[i].(*ssa.Const); isK && k.Value != nil {
						v = int(k.Int64())
						break
					}
				}
				out = append(out, v)
			}
		}
	}
	sort.Ints(out)
	return
}

// ---- P19: the shortcuts agree with the expressions they stand for ----

// cExpr evaluates a C expression over n. Logic operators evaluate lazily, as
// in C; an undefined value is reported as not ok.
type cExpr struct {
	s    string
	i    int
	n    int64
	bad  bool
	dead int // inside an unevaluated operand
}

func evalC(s string, n int64) (int64, bool) {
	p := &cExpr{s: s, n: n}
	v := p.cond()
	p.skip()
	return v, !p.bad && p.i == len(p.s)
}

func (p *cExpr) skip() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\t') {
		p.i++
	}
}

func (p *cExpr) take(ops ...string) string {
	p.skip()
	for _, o := range ops {
		if strings.HasPrefix(p.s[p.i:], o) {
			p.i += len(o)
			return o
		}
	}
	return ""
}

func (p *cExpr) peek(o string) bool { p.skip(); return strings.HasPrefix(p.s[p.i:], o) }

func (p *cExpr) cond() int64 {
	c := p.binary(0)
	if p.take("?") == "" {
		return c
	}
	if c == 0 {
		p.dead++
	}
	a := p.cond()
	if c == 0 {
		p.dead--
	} else {
		p.dead++
	}
	if p.take(":") == "" {
		p.bad = true
	}
	b := p.cond()
	if c != 0 {
		p.dead--
		return a
	}
	return b
}

func (p *cExpr) binary(level int) int64 {
	// cLevels without the conditional, loosest first
	if level+1 >= len(cLevels) {
		return p.unary()
	}
	l := p.binary(level + 1)
	for {
		op := ""
		p.skip()
		// longest operator first
		for _, o := range cLevels[level+1].ops {
			if p.peek(o) && len(o) > len(op) {
				op = o
			}
		}
		if op == "" || p.longer(op) {
			return l
		}
		p.i += len(op)
		lazy := op == "&&" && l == 0 || op == "||" && l != 0
		if lazy {
			p.dead++
		}
		r := p.binary(level + 1)
		if lazy {
			p.dead--
		}
		l = p.apply(op, l, r)
	}
}

// longer: the text continues to a longer operator of another class.
func (p *cExpr) longer(op string) bool {
	for _, cl := range cLevels {
		for _, o := range cl.ops {
			if len(o) > len(op) && strings.HasPrefix(o, op) && p.peek(o) {
				return true
			}
		}
	}
	return false
}

func (p *cExpr) apply(op string, l, r int64) int64 {
	b := func(v bool) int64 {
		if v {
			return 1
		}
		return 0
	}
	switch op {
	case "||":
		return b(l != 0 || r != 0)
	case "&&":
		return b(l != 0 && r != 0)
	case "|":
		return l | r
	case "^":
		return l ^ r
	case "&":
		return l & r
	case "==":
		return b(l == r)
	case "!=":
		return b(l != r)
	case "<":
		return b(l < r)
	case ">":
		return b(l > r)
	case "<=":
		return b(l <= r)
	case ">=":
		return b(l >= r)
	case "<<", ">>":
		if r < 0 || r > 63 {
			p.bad = p.bad || p.dead == 0
			return 0
		}
		if op == "<<" {
			return l << uint(r)
		}
		return l >> uint(r)
	case "+":
		return l + r
	case "-":
		return l - r
	case "*":
		return l * r
	case "/", "%":
		if r == 0 {
			p.bad = p.bad || p.dead == 0
			return 0
		}
		if op == "/" {
			return l / r
		}
		return l % r
	}
	p.bad = true
	return 0
}

func (p *cExpr) unary() int64 {
	p.skip()
	switch op := p.take("!", "~", "+", "-"); op {
	case "!":
		if p.unary() == 0 {
			return 1
		}
		return 0
	case "~":
		return ^p.unary()
	case "+":
		return p.unary()
	case "-":
		return -p.unary()
	}
	if p.take("(") != "" {
		v := p.cond()
		if p.take(")") == "" {
			p.bad = true
		}
		return v
	}
	if p.take("n") != "" {
		return p.n
	}
	k := p.i
	var v int64
	for p.i < len(p.s) && p.s[p.i] >= '0' && p.s[p.i] <= '9' {
		v = v*10 + int64(p.s[p.i]-'0')
		p.i++
	}
	if k == p.i || p.i-k > 18 {
		p.bad = true
		if k == p.i && p.i < len(p.s) {
			p.i++
		}
	}
	return v
}

// bounds collects the numbers an expression text mentions.
func bounds(s string, consts, mods map[int64]bool) {
	for i := 0; i < len(s); {
		if s[i] < '0' || s[i] > '9' {
			i++
			continue
		}
		j, v := i, int64(0)
		for j < len(s) && s[j] >= '0' && s[j] <= '9' {
			v = v*10 + int64(s[j]-'0')
			j++
		}
		k := strings.TrimRight(s[:i], " \t(")
		if strings.HasSuffix(k, "%") {
			mods[v] = true
		} else {
			consts[v] = true
		}
		i = j
	}
}

// overN evaluates a term that depends on n only; use reports how n is used.
type overN struct {
	n      *Term
	v      int64
	consts map[int64]bool
	mods   map[int64]bool
}

func (e *overN) mentions(t *Term) bool {
	if t == e.n {
		return true
	}
	for _, a := range t.args {
		if e.mentions(a) {
			return true
		}
	}
	return false
}

// num evaluates an integer term, ok is false when it is out of the fragment
// "n, n % constant, sums of them and constants".
func (e *overN) num(t *Term) (int64, bool) {
	if t == e.n {
		return e.v, true
	}
	if k, ok := t.intVal(); ok {
		if e.consts != nil {
			e.consts[k] = true
		}
		return k, true
	}
	switch t.op {
	case OConv:
		return e.num(t.args[0])
	case OBin:
		if t.s == "%" {
			a, ok := e.num(t.args[0])
			b, okb := t.args[1].intVal()
			if !ok || !okb || b == 0 || t.args[0] != e.n {
				return 0, false
			}
			if e.mods != nil {
				if b < 0 {
					b = -b
				}
				e.mods[b] = true
			}
			return a % b, true
		}
	case OLin:
		if e.consts != nil {
			e.consts[t.k], e.consts[-t.k] = true, true
		}
		if len(t.args) != 1 || t.coef[0] != 1 && t.coef[0] != -1 {
			return 0, false
		}
		a, ok := e.num(t.args[0])
		return t.k + t.coef[0]*a, ok
	}
	return 0, false
}

func (e *overN) truth(t *Term) (bool, bool) {
	if len(t.args) != 2 || t.op != OEq && t.op != OLt {
		return false, false
	}
	a, ok := e.num(t.args[0])
	b, okb := e.num(t.args[1])
	if !ok || !okb {
		return false, false
	}
	if t.op == OEq {
		return a == b, true
	}
	return a < b, true
}

func ruleShortcuts(c *Check) {
	fn := c.fn("plurals", "Eval")
	if fn == nil {
		return
	}
	s := c.run(fn, scenOpt{})
	if s == nil || len(s.args) != 3 {
		return
	}
	exp, n := s.args[1], s.args[2]
	groups := map[string][]*callOut{}
	for i := range s.outs {
		o := &s.outs[i]
		if o.kind != oRet || parses(o) {
			continue
		}
		if o.res == nil || o.res.op != OTuple || len(o.res.args) != 2 {
			c.fail("shortcut", "Eval", fn.Pos(), "result %v", o.res)
			continue
		}
		if v, k := s.x.truth(o.st, mkEq(o.res.args[1], kNil())); k && !v {
			continue // an error
		}
		key := ""
		o.st.eqs.Each(func(id int, v *Term) {
			if k, ok := v.strVal(); ok && blankless(terms[id-1], exp) {
				key = k
			}
		})
		if key == "" {
			c.fail("shortcut", "Eval", fn.Pos(), "answers without parsing although the expression is not known\n%s", o.st.factString())
			continue
		}
		groups[key] = append(groups[key], o)
	}
	var keys []string
	for k := range groups {
		keys = append(keys, k)
	}
	sortStrings(keys)
	for _, k := range keys {
		c.shortcut(fn.Pos(), n, k, groups[k], s)
	}
	if len(keys) == 0 {
		c.ok("shortcut", "no expression is answered without evaluating it", fn.Pos())
	}
}

// parses: the outcome went through the parser.
func parses(o *callOut) bool {
	for _, e := range o.st.trace.events() {
		if (e.kind == "call" || e.kind == "mayPanic") && strings.Contains(e.name, "antlr") {
			return true
		}
	}
	return false
}

// blankless: t is the expression with nothing but blanks removed.
func blankless(t, exp *Term) bool {
	for t.op == OCall {
		switch t.s {
		case "strings.ReplaceAll":
			from, ok1 := t.args[1].strVal()
			to, ok2 := t.args[2].strVal()
			if !ok1 || !ok2 || strings.Trim(from, " \t") != "" || strings.Trim(to, " \t") != "" {
				return false
			}
		case "strings.TrimSpace":
		default:
			return false
		}
		t = t.args[0]
	}
	return t == exp
}

// shortcut compares the outcomes for one known expression with its meaning.
func (c *Check) shortcut(pos token.Pos, n *Term, key string, outs []*callOut, s *Scen) {
	what := fmt.Sprintf("shortcut %q", key)
	e := &overN{n: n, consts: map[int64]bool{0: true}, mods: map[int64]bool{1: true}}
	bounds(key, e.consts, e.mods)
	// what the code compares n with
	type path struct {
		facts map[*Term]bool
		res   *Term
	}
	var ps []path
	for _, o := range outs {
		p := path{map[*Term]bool{}, o.st.norm(o.res.args[0])}
		bad := ""
		add := func(t *Term, v bool) {
			if !e.mentions(t) {
				return
			}
			if _, ok := e.truth(t); !ok {
				bad = t.String()
				return
			}
			p.facts[t] = v
		}
		o.st.facts.Each(func(k int, v bool) { add(terms[k-1], v) })
		o.st.eqs.Each(func(k int, v *Term) { add(mkEq(terms[k-1], v), true) })
		if _, ok := e.num(p.res); !ok {
			bad = p.res.String()
		}
		if bad != "" {
			c.fail("shortcut", what, pos, "undecided: %s is not a comparison of n or of a remainder of n with a constant", bad)
			return
		}
		ps = append(ps, p)
	}
	period, top := int64(1), int64(0)
	for m := range e.mods {
		if m != 0 {
			period = lcm(period, m)
		}
	}
	for k := range e.consts {
		if k < 0 {
			k = -k
		}
		if k > top {
			top = k
		}
	}
	if period > 1<<20 || top > 1<<20 {
		c.fail("shortcut", what, pos, "undecided: period %d, constants up to %d", period, top)
		return
	}
	lim := top + 2*period + 2
	e.consts, e.mods = nil, nil
	for v := -lim; v <= lim; v++ {
		e.v = v
		want, ok := evalC(key, v)
		if !ok {
			c.fail("shortcut", what, pos, "the expression has no value for n=%d", v)
			return
		}
		hit := false
		for _, p := range ps {
			on := true
			for t, b := range p.facts {
				if r, _ := e.truth(t); r != b {
					on = false
					break
				}
			}
			if !on {
				continue
			}
			hit = true
			if got, _ := e.num(p.res); got != want {
				c.fail("shortcut", what, pos, "answers %d for n=%d, the expression yields %d", got, v, want)
				return
			}
		}
		if !hit {
			c.fail("shortcut", what, pos, "no outcome for n=%d", v)
			return
		}
	}
	c.ok("shortcut", what, pos)
}

func lcm(a, b int64) int64 {
	x, y := a, b
	for y != 0 {
		x, y = y, x%y
	}
	return a / x * b
}

// ---- P20: evaluation never panics and reports what it cannot read ----

func init() {
	register(&Rule{id: "P20", min: 12, run: ruleEval,
		rule: "Abstract interpretation of plurals.Eval with the ANTLR runtime left uninterpreted and allowed to panic at every call: no outcome panics, a recovered panic yields an error, lexer and parser both get an error listener before parsing starts and keep it, an error it recorded is returned, the tree of exactly this expression is walked by a fresh listener for exactly this count; the listener's methods never lose an error and write to nothing that other evaluations share."})
}

func ruleEval(c *Check) {
	fn := c.fn("plurals", "Eval")
	l := c.listener()
	if fn == nil || l == nil {
		return
	}
	c.listenerEffects()
	s := c.run(fn, scenOpt{panics: true})
	if s == nil || len(s.args) != 3 {
		return
	}
	pos := fn.Pos()
	exp, n := s.args[1], s.args[2]
	listeners := map[*types.Named]bool{}
	recovered, parsed := 0, 0
	for i := range s.outs {
		o := &s.outs[i]
		st := o.st
		if o.kind != oRet {
			c.fail("total", "Eval returns", pos, "a panic escapes\n%s", st.factString())
			continue
		}
		if o.res.op != OTuple || len(o.res.args) != 2 {
			c.fail("total", "Eval returns", pos, "result %v", o.res)
			continue
		}
		errNil, known := s.x.truth(st, mkEq(o.res.args[1], kNil()))
		rec := false
		var lex, par, input, stream, tree *Term
		var start, walk *Event
		on := map[*Term][]*Term{} // recogniser → listeners
		for _, e := range st.trace.events() {
			switch {
			case e.kind == "recover":
				rec = true
			case e.kind != "call":
			default:
				name := e.name[strings.LastIndexByte(e.name, '.')+1:]
				switch name {
				case "NewInputStream":
					input = e.res[0]
					c.assert(len(e.args) == 1 && s.same(st, e.args[0], exp), "parse", "the text that is parsed is the expression", e.pos, "%v is parsed", e.args)
				case "NewpluralLexer":
					lex = e.res[0]
					c.assert(input != nil && len(e.args) == 1 && unface(e.args[0]) == unface(input), "parse", "the lexer reads the expression", e.pos, "it reads %v", e.args)
				case "NewCommonTokenStream":
					stream = e.res[0]
					k, isK := e.args[1].intVal()
					c.assert(lex != nil && unface(e.args[0]) == lex && isK && k == 0, "parse", "the tokens come from the lexer's default channel", e.pos, "they come from %v", e.args)
				case "NewpluralParser":
					par = e.res[0]
					c.assert(stream != nil && unface(e.args[0]) == stream, "parse", "the parser reads the lexer's tokens", e.pos, "it reads %v", e.args)
				case "RemoveErrorListeners":
					on[e.args[0]] = nil
				case "AddErrorListener":
					on[e.args[0]] = append(on[e.args[0]], e.args[1])
				case "Start_":
					start, tree = e, e.res[0]
					for _, r := range []struct {
						what string
						t    *Term
					}{{"lexer", lex}, {"parser", par}} {
						what := "syntax errors of the " + r.what + " are collected"
						ls := []*Term{}
						for k, v := range on {
							if r.t != nil && derivedFrom(k, r.t) {
								ls = v
							}
						}
						if len(ls) == 0 {
							c.fail("listener", what, e.pos, "no error listener is attached when parsing starts")
							continue
						}
						// an error recorded by any of them is returned
						if rec {
							continue
						}
						hit := false
						for _, li := range ls {
							p := unface(li)
							nt, _ := derefT(p.typ).(*types.Named)
							f := errField(nt)
							if f < 0 {
								continue
							}
							listeners[nt] = true
							if start.after == nil {
								continue
							}
							e := s.at(start.after, p, nt, f)
							st2, ok := s.refine(st, []cond{not(mkEq(e, kNil()))})
							if !ok { // nothing was recorded on this path
								hit = true
								continue
							}
							if isNil, k := s.x.truth(st2, mkEq(o.res.args[1], kNil())); k && !isNil {
								hit = true
							}
						}
						if !rec && !outRecovers(o) && !(known && !errNil) {
							c.assert(hit, "listener", what+" and returned", e.pos, "an error recorded while parsing is not returned; the result is %v", st.norm(o.res.args[1]))
						}
					}
				case "Walk":
					walk = e
				}
			}
		}
		if rec {
			recovered++
			if !known || errNil {
				c.fail("total", "a panic during the evaluation is an error", pos, "the panic is recovered, but the error is %v", st.norm(o.res.args[1]))
			}
			continue
		}
		if !parses(o) || known && !errNil {
			continue
		}
		parsed++
		if start == nil || walk == nil {
			c.fail("parse", "an expression is parsed and evaluated", pos, "an outcome without error does not reach the parser's start rule or the tree walk")
			continue
		}
		what := "the tree that is evaluated is the parsed one"
		ok := false
		var li *Term
		for _, a := range walk.args {
			if unface(a) == unface(tree) {
				ok = true
			}
			if t := unface(a); types.Identical(derefT(t.typ), l.t) {
				li = t
			}
		}
		c.assert(ok, "parse", what, walk.pos, "the walk gets %v", walk.args)
		if li == nil || li.op != OAlloc {
			c.fail("parse", "a fresh listener evaluates", walk.pos, "the walk gets %v", walk.args)
			continue
		}
		c.ok("parse", "a fresh listener evaluates", walk.pos)
		before := walk.st
		c.assert(s.same(before, s.at(before, li, l.t, l.n), n), "parse", "the evaluation uses the given count", walk.pos, "n is %v", before.norm(s.at(before, li, l.t, l.n)))
		c.assert(s.same(before, mkLen(before.norm(s.at(before, li, l.t, l.stack))), kInt(0)), "parse", "the evaluation starts without operands", walk.pos, "the stack is %v", before.norm(s.at(before, li, l.t, l.stack)))
		c.assert(s.same(st, s.at(st, li, l.t, l.result), o.res.args[0]), "parse", "the value of the tree is returned", pos, "%v is returned", st.norm(o.res.args[0]))
	}
	c.assert(recovered > 0, "total", "a panic during the evaluation is an error", pos, "no panic of the parser or the evaluation is recovered")
	c.assert(parsed > 0, "parse", "an expression is parsed and evaluated", pos, "no outcome evaluates an expression")
	c.ok("total", "Eval returns", pos)
	var nts []*types.Named
	for nt := range listeners {
		nts = append(nts, nt)
	}
	for _, nt := range nts {
		c.errorListener(nt)
	}
	c.assert(len(nts) > 0, "listener", "error listener", pos, "no listener with an error field")

	// the whole text is one expression
	if g := c.grammar(); g != nil {
		whole := false
		for _, it := range g.start[0] {
			whole = whole || it.kind == "tok" && it.set[-1]
		}
		c.assert(whole, "whole", "text after a complete expression is a syntax error", 0, "the start rule does not end with the end of the text, so what follows a complete expression is ignored")
	}
}

func outRecovers(o *callOut) bool {
	for _, e := range o.st.trace.events() {
		if e.kind == "recover" {
			return true
		}
	}
	return false
}

// derivedFrom: t is root or something reached from it through fields.
func derivedFrom(t, root *Term) bool {
	for {
		if t == root {
			return true
		}
		if t.op != OField && t.op != OInit && t.op != OIface && t.op != OFieldV {
			return false
		}
		t = t.args[0]
	}
}

func errField(nt *types.Named) int {
	if nt == nil {
		return -1
	}
	st, ok := nt.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), types.Universe.Lookup("error").Type()) {
			return i
		}
	}
	return -1
}

// errorListener: a syntax error is recorded, no method forgets one.
func (c *Check) errorListener(nt *types.Named) {
	f := errField(nt)
	ms := c.w.prog.MethodSets.MethodSet(types.NewPointer(nt))
	found := false
	for i := 0; i < ms.Len(); i++ {
		m := c.w.prog.MethodValue(ms.At(i))
		if m == nil || m.Synthetic != "" || len(m.Blocks) == 0 {
			continue
		}
		syntax := m.Name() == "SyntaxError"
		found = found || syntax
		s := c.run(m, scenOpt{pre: nonNilArgs(c, m)})
		if s == nil {
			continue
		}
		what := m.Name()
		before := s.at(s.st0, s.args[0], nt, f)
		for _, o := range s.outs {
			if o.kind != oRet {
				continue // recovered and reported by Eval
			}
			av := s.at(o.st, s.args[0], nt, f)
			after := mkEq(av, kNil())
			if syntax {
				v, k := s.x.truth(o.st, after)
				c.assert(k && !v, "listener", "a syntax error is recorded", m.Pos(), "the error field is %v after a syntax error", o.st.norm(av))
			}
			st, ok := s.refine(o.st, []cond{not(mkEq(before, kNil()))})
			if !ok {
				continue
			}
			v, k := s.x.truth(st, after)
			c.assert(k && !v, "listener", what+" keeps an error recorded earlier", m.Pos(), "the error field is %v afterwards", st.norm(av))
		}
	}
	c.assert(found, "listener", "a syntax error is recorded", nt.Obj().Pos(), "the listener has no SyntaxError method, so syntax errors are dropped")
}
