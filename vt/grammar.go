package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// atn is a decoded recogniser table: the transition network the generated
// lexer or parser interprets at run time, as it stands in the source.
type atn struct {
	lexer     bool
	maxToken  int
	states    []atnState
	ruleStart []int
	ruleTok   []int
	sets      []map[int]bool
	actions   [][3]int
	modes     []int
}

type atnState struct {
	kind, rule, end int
	out             []atnEdge
}

type atnEdge struct{ to, kind, a1, a2, a3 int }

const (
	tEpsilon = 1 + iota
	tRange
	tRule
	tPredicate
	tAtom
	tAction
	tSet
	tNotSet
	tWildcard
	tPrecedence
)

// tables decodes every serialized network assigned in the parser package.
func (c *Check) tables() (lexer, parser *atn, ok bool) {
	var pkg *packages.Package
	for _, p := range c.w.pkgs {
		if p.PkgPath == pathParser {
			pkg = p
		}
	}
	if pkg == nil {
		c.fail("anchor", "package parser", 0, "package plurals/parser is gone")
		return nil, nil, false
	}
	for _, f := range pkg.Syntax {
		ast.Inspect(f, func(n ast.Node) bool {
			cl, isLit := n.(*ast.CompositeLit)
			if !isLit {
				return true
			}
			tv := pkg.TypesInfo.Types[cl]
			sl, isSl := tv.Type.Underlying().(*types.Slice)
			if !isSl || !types.Identical(sl.Elem(), types.Typ[types.Int32]) {
				return true
			}
			var data []int
			for _, e := range cl.Elts {
				v := pkg.TypesInfo.Types[e].Value
				if v == nil {
					return true
				}
				k, exact := constant.Int64Val(v)
				if !exact {
					return true
				}
				data = append(data, int(k))
			}
			a, err := decodeATN(data)
			if err != nil {
				c.fail("grammar", "table", cl.Pos(), "the recogniser table cannot be decoded: %v", err)
				return true
			}
			if a.lexer {
				lexer = a
			} else {
				parser = a
			}
			return true
		})
	}
	if lexer == nil || parser == nil {
		c.fail("grammar", "tables", 0, "no recogniser tables were found in the source")
		return nil, nil, false
	}
	return lexer, parser, true
}

func decodeATN(d []int) (a *atn, err error) {
	defer func() {
		if e := recover(); e != nil {
			a, err = nil, fmt.Errorf("truncated: %v", e)
		}
	}()
	i := 0
	next := func() int { i++; return d[i-1] }
	if v := next(); v != 4 {
		return nil, fmt.Errorf("version %d", v)
	}
	a = &atn{lexer: next() == 0, maxToken: next()}
	for n := next(); n > 0; n-- {
		s := atnState{kind: next(), end: -1, rule: -1}
		if s.kind != 0 {
			s.rule = next()
			switch s.kind {
			case 12, 3, 4, 5:
				s.end = next()
			}
		}
		a.states = append(a.states, s)
	}
	for k := 0; k < 2; k++ {
		for n := next(); n > 0; n-- {
			next()
		}
	}
	for n := next(); n > 0; n-- {
		a.ruleStart = append(a.ruleStart, next())
		if a.lexer {
			a.ruleTok = append(a.ruleTok, next())
		}
	}
	for n := next(); n > 0; n-- {
		a.modes = append(a.modes, next())
	}
	for n := next(); n > 0; n-- {
		set := map[int]bool{}
		m := next()
		if next() != 0 {
			set[-1] = true
		}
		for ; m > 0; m-- {
			lo, hi := next(), next()
			for k := lo; k <= hi; k++ {
				set[k] = true
			}
		}
		a.sets = append(a.sets, set)
	}
	for n := next(); n > 0; n-- {
		src := next()
		e := atnEdge{to: next(), kind: next(), a1: next(), a2: next(), a3: next()}
		a.states[src].out = append(a.states[src].out, e)
	}
	for n := next(); n > 0; n-- {
		next()
	}
	if a.lexer {
		for n := next(); n > 0; n-- {
			a.actions = append(a.actions, [3]int{next(), next(), next()})
		}
	}
	if i != len(d) {
		return nil, fmt.Errorf("%d numbers left over", len(d)-i)
	}
	return a, nil
}

// item is one step of an alternative.
type item struct {
	kind string // "pred", "tok", "rule", "act"
	set  map[int]bool
	n    int // predicate level, rule index
	prec int
}

func (t item) String() string {
	switch t.kind {
	case "pred":
		return fmt.Sprintf("{level>=%d}", t.n)
	case "tok":
		return fmt.Sprint(setKeys(t.set))
	case "rule":
		return fmt.Sprintf("rule%d(%d)", t.n, t.prec)
	}
	return t.kind
}

func setKeys(m map[int]bool) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

// edgeSet is the set of symbols an edge consumes, nil if it consumes none.
func (a *atn) edgeSet(e atnEdge) map[int]bool {
	set := map[int]bool{}
	switch e.kind {
	case tAtom:
		if e.a3 != 0 {
			set[-1] = true
		} else {
			set[e.a1] = true
		}
	case tRange:
		for k := e.a1; k <= e.a2; k++ {
			set[k] = true
		}
	case tSet:
		set = a.sets[e.a1]
	default:
		return nil
	}
	return set
}

// alts lists the item sequences from state s to a state that stop accepts,
// never passing a state twice.
func (a *atn) alts(s int, stop func(int) bool) (out [][]item, err error) {
	var walk func(s int, seq []item, seen map[int]bool)
	walk = func(s int, seq []item, seen map[int]bool) {
		if stop(s) {
			out = append(out, append([]item{}, seq...))
			return
		}
		if seen[s] {
			err = fmt.Errorf("unexpected loop at state %d", s)
			return
		}
		seen[s] = true
		defer delete(seen, s)
		for _, e := range a.states[s].out {
			n := seq
			switch e.kind {
			case tEpsilon:
			case tAtom, tRange, tSet:
				n = append(append([]item{}, seq...), item{kind: "tok", set: a.edgeSet(e)})
			case tRule:
				n = append(append([]item{}, seq...), item{kind: "rule", n: e.a2, prec: e.a3})
			case tPrecedence:
				n = append(append([]item{}, seq...), item{kind: "pred", n: e.a1})
			case tAction:
				n = append(append([]item{}, seq...), item{kind: "act", n: e.a2})
			default:
				err = fmt.Errorf("transition kind %d", e.kind)
				return
			}
			walk(e.to, n, seen)
		}
	}
	walk(s, nil, map[int]bool{})
	return
}

// grammar is the decoded grammar of plural rules.
type grammar struct {
	lex, par *atn
	text     map[int]string // spelling of each fixed token
	number   int            // token type of numbers
	classes  []lexClass     // tokens without fixed spelling
	start    [][]item
	prefix   [][]item // alternatives an expression may start with
	ops      [][]item // what may follow an expression
	primary  [][]item
	expRule  int
	primRule int
	code     []codeAlt
}

// lexClass is a token that is a repetition of characters.
type lexClass struct {
	tok, rule int
	sets      []map[int]bool
	skip, odd bool
}

// codeAlt is one alternative as the generated code has it.
type codeAlt struct {
	field  string // the field of the context that gets the token
	level  int    // precedence predicate, -1 without
	number int    // number of the alternative, 0 for prefixes
	tokens map[int]bool
	exps   []int
	more   []int // further tokens matched
	pos    ssa.Instruction
}

func (c *Check) grammar() *grammar {
	lex, par, ok := c.tables()
	if !ok {
		return nil
	}
	g := &grammar{lex: lex, par: par, text: map[int]string{}}
	fail := func(format string, a ...any) *grammar {
		c.fail("grammar", "decoded tables", 0, format, a...)
		return nil
	}
	// tokens
	for r, s := range lex.ruleStart {
		plus := false
		for _, st := range lex.states {
			plus = plus || st.rule == r && st.kind == 4
		}
		if plus {
			cl := lexClass{tok: lex.ruleTok[r], rule: r}
			for _, st := range lex.states {
				if st.rule != r {
					continue
				}
				for _, e := range st.out {
					switch e.kind {
					case tEpsilon:
					case tAction:
						if e.a2 < len(lex.actions) && lex.actions[e.a2][0] == 6 {
							cl.skip = true
						} else {
							cl.odd = true
						}
					default:
						cl.sets = append(cl.sets, lex.edgeSet(e))
					}
				}
			}
			g.classes = append(g.classes, cl)
			if !cl.skip {
				g.number = cl.tok
			}
			continue
		}
		as, err := lex.alts(s, func(k int) bool { return lex.states[k].kind == 7 })
		if err != nil || len(as) != 1 {
			return fail("token %d has %d spellings (%v)", lex.ruleTok[r], len(as), err)
		}
		txt := ""
		for _, it := range as[0] {
			if it.kind != "tok" || len(it.set) != 1 {
				return fail("token %d is no fixed text", lex.ruleTok[r])
			}
			txt += string(rune(setKeys(it.set)[0]))
		}
		g.text[lex.ruleTok[r]] = txt
	}
	if len(par.ruleStart) != 3 {
		return fail("the grammar has %d rules, 3 were reviewed", len(par.ruleStart))
	}
	g.expRule, g.primRule = 1, 2
	end := func(k int) bool { return par.states[k].kind == 7 }
	var err error
	if g.start, err = par.alts(par.ruleStart[0], end); err != nil {
		return fail("start rule: %v", err)
	}
	if g.primary, err = par.alts(par.ruleStart[2], end); err != nil {
		return fail("primary rule: %v", err)
	}
	// exp: prefix alternatives up to the loop entry, operators inside the loop
	if g.prefix, err = par.alts(par.ruleStart[1], func(k int) bool { return par.states[k].kind == 10 }); err != nil {
		return fail("expression rule: %v", err)
	}
	for k, s := range par.states {
		if s.kind == 5 && s.rule == 1 {
			if g.ops, err = par.alts(k, func(k int) bool { return par.states[k].kind == 8 || par.states[k].kind == 9 }); err != nil {
				return fail("operators: %v", err)
			}
		}
	}
	if len(g.prefix) == 0 || len(g.ops) == 0 {
		return fail("no operators were found")
	}
	g.code = c.codeAlts()
	return g
}

// codeAlts reads the alternatives off the generated code of the expression rule.
func (c *Check) codeAlts() []codeAlt {
	p := c.w.ssaPkgs[pathParser]
	if p == nil {
		return nil
	}
	var fn *ssa.Function
	for f := range c.w.all {
		if f.Pkg == p && f.Name() == "exp" && f.Signature.Recv() != nil {
			fn = f
		}
	}
	if fn == nil {
		c.fail("grammar", "generated code", 0, "the generated function for expressions is gone")
		return nil
	}
	c.analysed[fnName(fn)] = true
	callee := func(v ssa.Value) (string, *ssa.Call) {
		for {
			switch u := v.(type) {
			case *ssa.MakeInterface:
				v = u.X
				continue
			case *ssa.ChangeInterface:
				v = u.X
				continue
			case *ssa.Call:
				return callMethod(u), u
			}
			return "", nil
		}
	}
	intArg := func(cl *ssa.Call) (int, bool) {
		for i := len(cl.Call.Args) - 1; i >= 0; i-- {
			if k, ok := cl.Call.Args[i].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
				return int(k.Int64()), true
			}
		}
		return 0, false
	}
	var out []codeAlt
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			name, cl := callee(st.Val)
			if name != "LT" && name != "Match" {
				continue
			}
			field := derefT(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
			alt := codeAlt{field: field, level: -1, tokens: map[int]bool{}, pos: in}
			if name == "Match" {
				if k, ok := intArg(cl); ok {
					alt.tokens[k] = true
				}
			}
			// upwards: the predicate and the number of the alternative
			for d := b; d != nil; d = d.Idom() {
				for _, x := range d.Instrs {
					if cl, ok := x.(*ssa.Call); ok && callMethod(cl) == "Precpred" && alt.level < 0 {
						if k, ok := intArg(cl); ok {
							alt.level = k
						}
					}
				}
				if p := d.Idom(); p != nil && len(p.Instrs) > 0 && alt.number == 0 {
					if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] == d && len(d.Preds) == 1 {
						if bo, ok := iff.Cond.(*ssa.BinOp); ok && bo.Op.String() == "==" {
							if n, _ := callee(bo.X); n == "AdaptivePredict" {
								if k, ok := bo.Y.(*ssa.Const); ok {
									alt.number = int(k.Int64())
								}
							}
						}
					}
				}
			}
			// downwards
			for _, d := range fn.Blocks {
				if !b.Dominates(d) {
					continue
				}
				for _, x := range d.Instrs {
					switch x := x.(type) {
					case *ssa.Call:
						switch callMethod(x) {
						case "exp":
							if k, ok := intArg(x); ok {
								alt.exps = append(alt.exps, k)
							} else {
								alt.exps = append(alt.exps, -1)
							}
						case "Match":
							if k, ok := intArg(x); ok && x != cl {
								alt.more = append(alt.more, k)
							}
						}
					case *ssa.BinOp:
						k, ok := x.Y.(*ssa.Const)
						if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
							continue
						}
						switch {
						case x.Op.String() == "==" && isCallTo(x.X, "LA"):
							alt.tokens[int(k.Int64())] = true
						case x.Op.String() == "&":
							if sh, ok := x.X.(*ssa.BinOp); ok && sh.Op.String() == "<<" {
								for i := 0; i < 63; i++ {
									if k.Int64()&(1<<i) != 0 {
										alt.tokens[i] = true
									}
								}
							}
						}
					}
				}
			}
			out = append(out, alt)
		}
	}
	return out
}

func isCallTo(v ssa.Value, m string) bool {
	c, ok := v.(*ssa.Call)
	return ok && callMethod(c) == m
}

func callMethod(c *ssa.Call) string {
	if c.Call.IsInvoke() {
		return c.Call.Method.Name()
	}
	if f := c.Call.StaticCallee(); f != nil {
		return f.Name()
	}
	return ""
}

// describe an operator alternative.
func (g *grammar) names(set map[int]bool) string {
	var r []string
	for _, k := range setKeys(set) {
		if t, ok := g.text[k]; ok {
			r = append(r, t)
		} else {
			r = append(r, fmt.Sprintf("token %d", k))
		}
	}
	return strings.Join(r, " ")
}
