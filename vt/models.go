package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var models map[string]model

var nonNilFns = map[string]bool{
	"fmt.Errorf": true, "errors.New": true, "github.com/cockroachdb/errors.New": true, "github.com/cockroachdb/errors.Errorf": true, "github.com/cockroachdb/errors.Newf": true,
	"regexp.MustCompile": true, "bytes.NewReader": true, "bytes.NewBuffer": true, "bytes.NewBufferString": true, "strings.NewReader": true, "context.WithValue": true, "context.Background": true, "context.TODO": true,
	"golang.org/x/text/language.NewMatcher": true, "html/template.New": true, "text/template.New": true, "(*html/template.Template).Delims": true, "(*html/template.Template).Funcs": true,
	"strings.Split": true, "strings.SplitN": true, "strings.SplitAfter": true,
	"(*html/template.Template).Templates":          false,
	"github.com/antlr4-go/antlr/v4.NewInputStream": true, "github.com/antlr4-go/antlr/v4.NewCommonTokenStream": true,
	"flag.String": true, "flag.Bool": true, "flag.Int": true, "(*flag.FlagSet).Output": true, "os.DirFS": true, "bufio.NewWriter": true, "bufio.NewReader": true, "bufio.NewScanner": true,
	modPath + "/plurals/parser.NewpluralLexer": true, modPath + "/plurals/parser.NewpluralParser": true,
	"nonnil": true,
}

func callName(t *Term) string {
	n := t.s
	if i := strings.IndexByte(n, '#'); i >= 0 && t.op == OICall {
		n = n[:i]
	}
	return n
}

func nonNilCall(t *Term) bool {
	n := callName(t)
	if nonNilFns[n] {
		return true
	}
	if n == "wrapErr" {
		return true
	}
	return false
}

// freshErr: a newly created error value, different from every other value.
func freshErr(t *Term) bool {
	if t.op != OICall {
		return false
	}
	switch callName(t) {
	case "fmt.Errorf", "errors.New", "github.com/cockroachdb/errors.New", "github.com/cockroachdb/errors.Errorf", "github.com/cockroachdb/errors.Newf", "wrapErr":
		return true
	}
	return false
}

// pureCall builds the application of a pure function and simplifies it.
func pureCall(name string, typ types.Type, args []*Term) *Term {
	str := func(i int) (string, bool) { return args[i].strVal() }
	s0, ok0 := "", false
	if len(args) > 0 {
		s0, ok0 = str(0)
	}
	s1, ok1 := "", false
	if len(args) > 1 {
		s1, ok1 = str(1)
	}
	switch name {
	case "strings.TrimSpace":
		if ok0 {
			return kStr(strings.TrimSpace(s0))
		}
		if args[0].op == OCall && args[0].s == name {
			return args[0]
		}
	case "strings.Trim", "strings.TrimLeft", "strings.TrimRight":
		if ok0 && ok1 {
			switch name {
			case "strings.Trim":
				return kStr(strings.Trim(s0, s1))
			case "strings.TrimLeft":
				return kStr(strings.TrimLeft(s0, s1))
			}
			return kStr(strings.TrimRight(s0, s1))
		}
	case "strings.ToLower":
		if ok0 {
			return kStr(strings.ToLower(s0))
		}
	case "strings.HasPrefix":
		if ok0 && ok1 {
			return kBool(strings.HasPrefix(s0, s1))
		}
		if ok1 && s1 == "" {
			return kBool(true)
		}
		if args[0].op == OConcat && ok1 {
			if p, ok := args[0].args[0].strVal(); ok {
				if strings.HasPrefix(p, s1) {
					return kBool(true)
				}
				if !strings.HasPrefix(s1, p) {
					return kBool(false)
				}
			}
		}
		if args[0].op == OConcat && args[0].args[0] == args[1] {
			return kBool(true)
		}
	case "strings.HasSuffix":
		if ok0 && ok1 {
			return kBool(strings.HasSuffix(s0, s1))
		}
		if ok1 && s1 == "" {
			return kBool(true)
		}
		if args[0].op == OConcat && ok1 {
			if p, ok := args[0].args[len(args[0].args)-1].strVal(); ok {
				if strings.HasSuffix(p, s1) {
					return kBool(true)
				}
				if !strings.HasSuffix(s1, p) {
					return kBool(false)
				}
			}
		}
	case "strings.TrimPrefix":
		if ok0 && ok1 {
			return kStr(strings.TrimPrefix(s0, s1))
		}
		if ok1 && s1 == "" {
			return args[0]
		}
		if args[0].op == OConcat && ok1 {
			if p, ok := args[0].args[0].strVal(); ok {
				if strings.HasPrefix(p, s1) {
					return mkConcat(append([]*Term{kStr(p[len(s1):])}, args[0].args[1:]...)...)
				}
				if !strings.HasPrefix(s1, p) {
					return args[0]
				}
			}
		}
	case "strings.TrimSuffix":
		if ok0 && ok1 {
			return kStr(strings.TrimSuffix(s0, s1))
		}
	case "strings.Contains":
		return mkNot(mkLt(pureCall("strings.Index", tInt, args), kInt(0), tInt))
	case "strings.ContainsRune", "strings.ContainsAny":
		if ok0 && ok1 && name == "strings.ContainsAny" {
			return kBool(strings.ContainsAny(s0, s1))
		}
	case "strings.IndexByte", "strings.IndexRune":
		if n, ok := args[1].intVal(); ok && n >= 0 && n < 128 {
			return pureCall("strings.Index", tInt, []*Term{args[0], kStr(string(rune(n)))})
		}
	case "strings.LastIndexByte":
		if n, ok := args[1].intVal(); ok && n >= 0 && n < 128 {
			return pureCall("strings.LastIndex", tInt, []*Term{args[0], kStr(string(rune(n)))})
		}
	case "strings.Index":
		if ok0 && ok1 {
			return kInt(int64(strings.Index(s0, s1)))
		}
		if ok1 && s1 != "" {
			// the first part that contains the needle decides when every part before it is a constant
			if args[0].op == OConcat {
				if p, ok := args[0].args[0].strVal(); ok {
					if k := strings.Index(p, s1); k >= 0 {
						return kInt(int64(k))
					}
				}
			}
		}
	case "strings.LastIndex":
		if ok0 && ok1 {
			return kInt(int64(strings.LastIndex(s0, s1)))
		}
	case "strings.Replace":
		if n, ok := args[3].intVal(); ok && n < 0 {
			return pureCall("strings.ReplaceAll", typ, args[:3])
		}
	case "strings.ReplaceAll":
		if s2, ok := str(2); ok && ok0 && ok1 {
			return kStr(strings.ReplaceAll(s0, s1, s2))
		}
	case "strings.Repeat":
		if n, ok := args[1].intVal(); ok && ok0 && n >= 0 && n < 1000 {
			return kStr(strings.Repeat(s0, int(n)))
		}
	case "strings.Join":
		if args[0].op == OTuple && len(args[0].args) <= 64 {
			var ps []*Term
			for i, a := range args[0].args {
				if i > 0 {
					ps = append(ps, args[1])
				}
				ps = append(ps, a)
			}
			return mkConcat(ps...)
		}
	case "strings.EqualFold":
		if ok0 && ok1 {
			return kBool(strings.EqualFold(s0, s1))
		}
	case "strings.Compare":
	case "strconv.Itoa":
		return mkItoa(args[0])
	case "strconv.FormatInt":
		if n, ok := args[1].intVal(); ok && n == 10 {
			return mkItoa(args[0])
		}
	case "strconv.Quote":
		return mkCall("quote", tStr, args[0])
	case "strconv.Atoi":
		name = "strconv.ParseInt"
		args = []*Term{args[0], kInt(10), kInt(0)}
	case "strings.Count", "strings.ToUpper":
	}
	if mayEmbed := name; mayEmbed == "regexp.MustCompile" {
		return mkCall(name, typ, args...)
	}
	return mkCall(name, typ, args...)
}

func mkItoa(t *Term) *Term {
	for t.op == OConv && len(t.args) == 1 && t.args[0].typ != nil && isInteger(t.args[0].typ) && widens(t.args[0].typ, t.typ) {
		t = t.args[0]
	}
	if n, ok := t.intVal(); ok {
		return kStr(fmt.Sprint(n))
	}
	return mkCall("itoa", tStr, t)
}

// hasCustomFormat: the type formats itself.
func hasCustomFormat(t types.Type) bool {
	for _, tt := range []types.Type{t} {
		ms := types.NewMethodSet(tt)
		for _, m := range []string{"String", "Error", "Format", "GoString"} {
			if ms.Lookup(nil, m) != nil {
				return true
			}
		}
	}
	return false
}

// sprintf expands a constant format string.
func sprintf(format *Term, args []*Term) (*Term, bool) {
	// the format may itself be a concatenation whose constant parts hold the verbs
	var out []*Term
	n := 0
	parts := concatParts(format)
	exact := true
	for _, p := range parts {
		f, ok := p.strVal()
		if !ok {
			return nil, false
		}
		for len(f) > 0 {
			k := strings.IndexByte(f, '%')
			if k < 0 {
				out = append(out, kStr(f))
				break
			}
			out = append(out, kStr(f[:k]))
			f = f[k+1:]
			j := 0
			for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
				j++
			}
			if j >= len(f) || f[j] == '[' || f[j] == '*' {
				return nil, false
			}
			flags, verb := f[:j], f[j]
			f = f[j+1:]
			if verb == '%' {
				out = append(out, kStr("%"))
				continue
			}
			if n >= len(args) {
				return nil, false
			}
			a := args[n]
			n++
			out = append(out, fmtVerb(flags, verb, a))
		}
	}
	if n != len(args) || !exact {
		return nil, false
	}
	return mkConcat(out...), true
}

// sprint joins operands with a blank where neither side is a string.
func sprint(el []*Term) *Term {
	var out []*Term
	str := true
	for i, a := range el {
		if a.op != OIface || a.typ == nil {
			return mkCall("fmt.Sprint", tStr, el...)
		}
		is := isString(a.typ)
		if i > 0 && !is && !str {
			out = append(out, kStr(" "))
		}
		str = is
		out = append(out, fmtVerb("", 'v', a))
	}
	return mkConcat(out...)
}

func fmtVerb(flags string, verb byte, a *Term) *Term {
	v := a
	var t types.Type
	if a.op == OIface {
		v = a.args[0]
		t = a.typ
	}
	if flags == "" && t != nil && !hasCustomFormat(t) {
		switch {
		case isString(t) && (verb == 's' || verb == 'v'):
			return v
		case isString(t) && verb == 'q':
			return mkCall("quote", tStr, v)
		case isInteger(t) && (verb == 'd' || verb == 'v'):
			return mkItoa(v)
		}
	}
	return mkCall("fmt%"+flags+string(verb), tStr, a)
}

// ---- truth of uninterpreted predicates ----

func (x *Exec) truthCall(s *State, t *Term) (bool, bool) {
	switch t.s {
	case "strings.HasPrefix":
		p, ok := t.args[1].strVal()
		if !ok {
			return false, false
		}
		res, known := false, false
		if t.args[0].op == OConcat {
			// concat of known-empty parts etc. is handled by norm
		}
		// emptiness of the string
		if v, k := s.facts.Get(mkEq(t.args[0], kStr("")).id); k && v && p != "" {
			return false, true
		}
		s.facts.Each(func(k int, b bool) {
			f := terms[k-1]
			if known || f.op != OCall || f.s != t.s || f.args[0] != t.args[0] {
				return
			}
			q, ok := f.args[1].strVal()
			if !ok {
				return
			}
			if b {
				if strings.HasPrefix(q, p) {
					res, known = true, true
				} else if !strings.HasPrefix(p, q) {
					res, known = false, true
				}
			} else if strings.HasPrefix(p, q) {
				res, known = false, true
			}
		})
		return res, known
	case "strings.HasSuffix":
		p, ok := t.args[1].strVal()
		if !ok {
			return false, false
		}
		res, known := false, false
		s.facts.Each(func(k int, b bool) {
			f := terms[k-1]
			if known || f.op != OCall || f.s != t.s || f.args[0] != t.args[0] {
				return
			}
			q, ok := f.args[1].strVal()
			if !ok {
				return
			}
			if b {
				if strings.HasSuffix(q, p) {
					res, known = true, true
				} else if !strings.HasSuffix(p, q) {
					res, known = false, true
				}
			} else if strings.HasSuffix(p, q) {
				res, known = false, true
			}
		})
		return res, known
	case "errors.Is":
		if x.isNilKnown(s, t.args[0]) {
			return false, true
		}
	}
	return false, false
}

func (x *Exec) assumeCall(s *State, t *Term, val bool) bool {
	switch t.s {
	case "strings.HasPrefix", "strings.HasSuffix":
		if val {
			l := linSub(linOf(mkLen(t.args[0])), linOf(mkLen(t.args[1])))
			if !x.addNonneg(s, l) {
				return false
			}
		}
	case "errors.Is":
		if val {
			return x.assume(s, mkEq(t.args[0], kNil()), false)
		}
	}
	return true
}

func (x *Exec) okAxioms(s *State, c *Term) bool { return true }

func (x *Exec) globalNonNil(a *Term) bool {
	g, ok := a.obj.(*ssa.Global)
	if !ok || g.Pkg == nil {
		return false
	}
	p := g.Pkg.Pkg.Path()
	if p == modPath || strings.HasPrefix(p, modPath+"/") {
		return x.nonNilGlobals[strings.TrimPrefix(g.String(), "github.com/youthlin/")]
	}
	// variables of other packages: error sentinels, os.Stdout, flag.CommandLine …
	return true
}

// errIs evaluates errors.Is structurally.
func (x *Exec) errIs(s *State, err, target *Term) *Term {
	if err == target {
		return mkNot(mkEq(err, kNil()))
	}
	if x.isNilKnown(s, err) {
		return mkEq(target, kNil())
	}
	if freshErr(err) {
		// the arguments wrapped by the new error
		var ws []*Term
		for _, a := range err.args[1:] {
			ws = append(ws, a)
		}
		if callName(err) != "fmt.Errorf" && callName(err) != "wrapErr" {
			return kBool(false)
		}
		res := kBool(false)
		for _, w := range ws {
			for w.op == OIface && types.IsInterface(w.typ) {
				w = w.args[0]
			}
			ct := w.typ
			if w.op == OIface && ct == nil {
				ct = w.args[0].typ
			}
			if w.op == OConst && !w.isNil() || ct != nil && !types.IsInterface(ct) && !types.Implements(ct, tErr.Underlying().(*types.Interface)) {
				continue // not an error
			}
			r := x.errIs(s, w, target)
			if b, ok := r.boolVal(); ok {
				if b {
					return r
				}
				continue
			}
			if b, ok := res.boolVal(); ok && !b {
				res = r
			} else {
				res = mkNot(mkCall("and", tBool, mkNot(res), mkNot(r)))
			}
		}
		return res
	}
	if v, k := x.truth(s, mkEq(err, target)); k && v {
		return kBool(true)
	}
	// the errors of these packages are their own
	if e := err; e.op == OExtract && target.op == OInit && target.args[0].op == OGlobal && strings.HasPrefix(target.args[0].s, "io.") {
		for _, p := range []string{"strconv.", "regexp.", "golang.org/x/text/language."} {
			if strings.HasPrefix(e.args[0].s, p) {
				return kBool(false)
			}
		}
	}
	return mkCall("errors.Is", tBool, err, target)
}

func (x *Exec) bool2(cs *callSite, cond *Term, whenTrue, whenFalse func(st *State) *Term) []callOut {
	t, f := cs.st.clone(), cs.st.clone()
	var out []callOut
	if x.assume(t, cond, true) {
		out = append(out, callOut{st: t, res: whenTrue(t), kind: oRet})
	}
	if x.assume(f, cond, false) {
		out = append(out, callOut{st: f, res: whenFalse(f), kind: oRet})
	}
	return out
}

// sprintfArgs evaluates a fmt call's formatted text.
func (x *Exec) formatted(cs *callSite, format *Term, rest *Term) *Term {
	if el, ok := x.elems(cs.st, rest); ok {
		if t, ok := sprintf(cs.st.norm(format), el); ok {
			return t
		}
		return mkCall("fmt.Sprintf", tStr, append([]*Term{format}, el...)...)
	}
	return mkCall("fmt.Sprintf", tStr, format, mkCall("args", nil, rest))
}

// ---- text buffers ----

// bufAddr names the pseudo cell holding what a buffer contains.
func bufCell(p *Term) *Term { return mk(Term{op: OCall, s: "text", args: []*Term{p}, typ: tStr}) }

// sinkCell names the pseudo cell holding where a buffered writer writes to.
func sinkCell(p *Term) *Term { return mk(Term{op: OCall, s: "sink", args: []*Term{p}, typ: tErr}) }

func (x *Exec) bufText(s *State, p *Term) *Term {
	c := bufCell(p)
	if v, ok := s.cells.Get(c.id); ok {
		return v
	}
	if r := rootOf(p); r.op == OAlloc {
		if _, esc := s.escaped.Get(r.id); !esc {
			return kStr("")
		}
	}
	return mk(Term{op: OInit, args: []*Term{c, epoch0}, typ: tStr})
}

// bufTouched: a call that is not looked into may have changed the buffer.
func (x *Exec) bufTouched(cs *callSite, st *State) {
	for _, a := range cs.args {
		if a.op == OIface {
			a = a.args[0]
		}
		if a.typ == nil {
			continue
		}
		switch types.TypeString(a.typ, nil) {
		case "*bytes.Buffer", "*strings.Builder", "*bufio.Writer":
			st.cells = st.cells.Set(bufCell(a).id, x.freshSym(cs.fr, st, cs.instr, "text", tStr))
		}
	}
}

func (x *Exec) bufAdd(cs *callSite, p, text *Term) {
	cs.st.cells = cs.st.cells.Set(bufCell(p).id, mkConcat(x.bufText(cs.st, p), text))
}

// bufOf: the writer is an in-memory buffer of the analysed program.
func bufOf(w *Term) *Term {
	if w.op == OIface && w.typ != nil {
		switch types.TypeString(w.typ, nil) {
		case "*bytes.Buffer", "*strings.Builder", "*bufio.Writer":
			return w.args[0]
		}
	}
	return nil
}

// emitTo models writing text to a writer; returns (n, err) or err.
func (x *Exec) emitTo(cs *callSite, w, text *Term, tuple bool) []callOut {
	nilErr := func(n *Term) *Term {
		if tuple {
			return mkTuple(n, kNil())
		}
		return kNil()
	}
	if b := bufOf(w); b != nil {
		x.bufAdd(cs, b, text)
		return one(cs.st, nilErr(mkLen(text)))
	}
	r := x.icall(cs.fr, cs.st, cs.instr, "write", types.NewTuple(types.NewVar(0, nil, "", tInt), types.NewVar(0, nil, "", tErr)), []*Term{w, text})
	ev := &Event{kind: "write", name: cs.name, args: []*Term{w, text}, res: []*Term{mkExtract(r, 1, tErr)}, pos: instrPos(cs.instr, cs.fr.fn), fn: fnName(cs.fr.fn), st: cs.st}
	cs.st.add(ev)
	if tuple {
		return one(cs.st, mkTuple(mkExtract(r, 0, tInt), mkExtract(r, 1, tErr)))
	}
	return one(cs.st, mkExtract(r, 1, tErr))
}

// binText is the byte text of a fixed-size value in a byte order.
func (x *Exec) binText(cs *callSite, order, v *Term) (*Term, bool) {
	if v.op != OIface {
		return nil, false
	}
	t, val := v.typ, v.args[0]
	if isBytes(t) {
		return x.convert(cs.st, tStr, t, val), true
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && b.Kind() != types.Int && b.Kind() != types.Uint && b.Kind() != types.Uintptr {
		return mkCall("bin", tStr, order, kStr(b.Name()), val), true
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		var ps []*Term
		for i := 0; i < st.NumFields(); i++ {
			b, ok := st.Field(i).Type().Underlying().(*types.Basic)
			if !ok || b.Info()&types.IsInteger == 0 {
				return nil, false
			}
			ps = append(ps, mkCall("bin", tStr, order, kStr(b.Name()), mkFieldV(val, i, st.Field(i).Type(), t)))
		}
		return mkConcat(ps...), true
	}
	// the elements of a list one after the other
	var et types.Type
	var el []*Term
	ok := false
	switch u := t.Underlying().(type) {
	case *types.Array:
		et = u.Elem()
		ok = u.Len() <= maxArray
		for i := int64(0); ok && i < u.Len(); i++ {
			el = append(el, mkArrayElem(val, kInt(i), et))
		}
	case *types.Slice:
		et = u.Elem()
		el, ok = x.elems(cs.st, val)
	}
	if ok {
		var ps []*Term
		for _, v := range el {
			p, ok := x.binText(cs, order, mkIface(et, v))
			if !ok {
				return nil, false
			}
			ps = append(ps, p)
		}
		return mkConcat(ps...), true
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		inner := x.load(cs.st, val, p.Elem())
		return x.binText(cs, order, mkIface(p.Elem(), inner))
	}
	return nil, false
}

func init() {
	models = map[string]model{}
	m := models
	ret := func(f func(x *Exec, cs *callSite) *Term) model {
		return func(x *Exec, cs *callSite) []callOut { return one(cs.st, f(x, cs)) }
	}
	m["fmt.Sprintf"] = ret(func(x *Exec, cs *callSite) *Term {
		t := x.formatted(cs, cs.args[0], cs.args[1])
		x.event(cs, "fmt", t)
		return t
	})
	m["fmt.Sprint"] = ret(func(x *Exec, cs *callSite) *Term {
		if el, ok := x.elems(cs.st, cs.args[0]); ok {
			if len(el) == 1 {
				return fmtVerb("", 'v', el[0])
			}
			return sprint(el)
		}
		return mkCall("fmt.Sprint", tStr, cs.args[0])
	})
	m["fmt.Errorf"] = ret(func(x *Exec, cs *callSite) *Term {
		args := []*Term{cs.args[0]}
		if el, ok := x.elems(cs.st, cs.args[1]); ok {
			if f, isC := cs.st.norm(cs.args[0]).strVal(); isC && !strings.Contains(f, "%w") {
				el = nil // nothing is wrapped
			}
			for _, e := range el {
				args = append(args, e)
			}
		}
		r := x.icall(cs.fr, cs.st, cs.instr, "fmt.Errorf", tErr, args)
		x.event(cs, "fmt", r)
		return r
	})
	fresh := func(name string) model {
		return ret(func(x *Exec, cs *callSite) *Term {
			r := x.icall(cs.fr, cs.st, cs.instr, name, tErr, cs.args)
			x.event(cs, "fmt", r)
			return r
		})
	}
	m["errors.New"] = fresh("errors.New")
	m["github.com/cockroachdb/errors.New"] = fresh("errors.New")
	m["github.com/cockroachdb/errors.Errorf"] = m["fmt.Errorf"]
	m["github.com/cockroachdb/errors.Newf"] = m["fmt.Errorf"]
	wrap := func(x *Exec, cs *callSite) []callOut {
		x.event(cs, "fmt", nil)
		return x.bool2(cs, mkEq(cs.args[0], kNil()), func(*State) *Term { return kNil() }, func(st *State) *Term {
			return x.icall(cs.fr, st, cs.instr, "wrapErr", tErr, []*Term{kNil(), cs.args[0]})
		})
	}
	for _, n := range []string{"Wrap", "Wrapf", "WithStack", "WithMessage", "WithMessagef", "WithSecondaryError", "WithDetail", "WithHint"} {
		m["github.com/cockroachdb/errors."+n] = wrap
	}
	m["errors.Is"] = ret(func(x *Exec, cs *callSite) *Term { return x.errIs(cs.st, cs.args[0], cs.args[1]) })
	m["github.com/cockroachdb/errors.Is"] = m["errors.Is"]
	// nil if and only if all parts are
	joinErrs := func(x *Exec, cs *callSite, el []*Term) []callOut {
		var out []callOut
		st := cs.st
		for _, e := range el {
			if bad := st.clone(); x.assume(bad, mkEq(e, kNil()), false) {
				r := x.icall(cs.fr, bad, cs.instr, "wrapErr", tErr, append([]*Term{kNil()}, el...))
				out = append(out, callOut{st: bad, res: r, kind: oRet})
			}
			if !x.assume(st, mkEq(e, kNil()), true) {
				return out
			}
		}
		return append(out, callOut{st: st, res: kNil(), kind: oRet})
	}
	join := func(x *Exec, cs *callSite) []callOut {
		if el, ok := x.elems(cs.st, cs.args[0]); ok {
			return joinErrs(x, cs, el)
		}
		return one(cs.st, x.icall(cs.fr, cs.st, cs.instr, "errors.Join", tErr, cs.args))
	}
	m["errors.Join"] = join
	m["github.com/cockroachdb/errors.Join"] = join
	m["github.com/cockroachdb/errors.CombineErrors"] = func(x *Exec, cs *callSite) []callOut { return joinErrs(x, cs, cs.args) }

	// fmt output
	pr := func(writer, format int) model {
		return func(x *Exec, cs *callSite) []callOut {
			var w *Term
			if writer >= 0 {
				w = cs.args[writer]
			} else {
				w = kSym("stdout", tErr)
			}
			var text *Term
			if format >= 0 {
				text = x.formatted(cs, cs.args[format], cs.args[format+1])
				x.event(cs, "fmt", text)
			} else {
				el, ok := x.elems(cs.st, cs.args[len(cs.args)-1])
				if ok && len(el) == 1 {
					text = fmtVerb("", 'v', el[0])
				} else {
					text = mkCall("fmt.Sprint", tStr, append(el, cs.args[len(cs.args)-1])...)
				}
				if strings.HasSuffix(cs.name, "ln") {
					text = mkConcat(text, kStr("\n"))
				}
			}
			return x.emitTo(cs, w, text, true)
		}
	}
	m["fmt.Fprintf"] = pr(0, 1)
	m["fmt.Printf"] = pr(-1, 0)
	m["fmt.Fprint"] = pr(0, -1)
	m["fmt.Fprintln"] = pr(0, -1)
	m["fmt.Print"] = pr(-1, -1)
	m["fmt.Println"] = pr(-1, -1)

	// buffers
	// (a bufio.Writer keeps its first error, so every failure shows in Flush)
	for _, t := range []string{"*bytes.Buffer", "*strings.Builder", "*bufio.Writer"} {
		m["("+t+").WriteString"] = func(x *Exec, cs *callSite) []callOut {
			x.bufAdd(cs, cs.args[0], cs.args[1])
			return one(cs.st, mkTuple(mkLen(cs.args[1]), kNil()))
		}
		m["("+t+").Write"] = func(x *Exec, cs *callSite) []callOut {
			x.bufAdd(cs, cs.args[0], x.convert(cs.st, tStr, tBytes, cs.args[1]))
			return one(cs.st, mkTuple(mkLen(cs.args[1]), kNil()))
		}
		m["("+t+").WriteByte"] = func(x *Exec, cs *callSite) []callOut {
			text := mkCall("rune2str", tStr, cs.args[1])
			if n, ok := cs.args[1].intVal(); ok && n < 128 {
				text = kStr(string(rune(n)))
			}
			x.bufAdd(cs, cs.args[0], text)
			return one(cs.st, kNil())
		}
		m["("+t+").WriteRune"] = func(x *Exec, cs *callSite) []callOut {
			text := mkCall("rune2str", tStr, cs.args[1])
			if n, ok := cs.args[1].intVal(); ok && n < 128 {
				text = kStr(string(rune(n)))
			}
			x.bufAdd(cs, cs.args[0], text)
			return one(cs.st, mkTuple(kInt(1), kNil()))
		}
		if t == "*bufio.Writer" {
			continue
		}
		m["("+t+").String"] = ret(func(x *Exec, cs *callSite) *Term { return x.bufText(cs.st, cs.args[0]) })
		m["("+t+").Len"] = ret(func(x *Exec, cs *callSite) *Term { return mkLen(x.bufText(cs.st, cs.args[0])) })
		m["("+t+").Reset"] = func(x *Exec, cs *callSite) []callOut {
			cs.st.cells = cs.st.cells.Set(bufCell(cs.args[0]).id, kStr(""))
			return one(cs.st, mkTuple())
		}
		m["("+t+").Grow"] = func(x *Exec, cs *callSite) []callOut {
			c := cur{st: cs.st}
			c, ok := x.needLE(cs.fr, c, cs.instr, "grow", "Grow count", kInt(0), cs.args[1], 0)
			if !ok {
				return nil
			}
			if x.memoryBound != nil {
				x.memoryBound(x, cs.fr, c.st, cs.instr, cs.args[1])
			}
			return one(c.st, mkTuple())
		}
		m["("+t+").Bytes"] = ret(func(x *Exec, cs *callSite) *Term { return mkConv(tBytes, x.bufText(cs.st, cs.args[0])) })
	}
	for _, n := range []string{"bufio.NewWriter", "bufio.NewWriterSize"} {
		m[n] = ret(func(x *Exec, cs *callSite) *Term {
			a := x.alloc(cs.fr, cs.st, cs.instr, "bufio.Writer", types.NewPointer(tInt))
			cs.st.cells = cs.st.cells.Set(sinkCell(a).id, cs.args[0])
			return a
		})
	}
	m["(*bufio.Writer).Flush"] = func(x *Exec, cs *callSite) []callOut {
		w, ok := cs.st.cells.Get(sinkCell(cs.args[0]).id)
		if !ok {
			r := x.icall(cs.fr, cs.st, cs.instr, cs.name, tErr, cs.args)
			x.event(cs, "call", r)
			return one(cs.st, r)
		}
		text := x.bufText(cs.st, cs.args[0])
		cs.st.cells = cs.st.cells.Set(bufCell(cs.args[0]).id, kStr(""))
		return x.emitTo(cs, w, text, false)
	}
	m["io.Copy"] = func(x *Exec, cs *callSite) []callOut {
		if b := bufOf(cs.args[1]); b != nil {
			text := x.bufText(cs.st, b)
			cs.st.cells = cs.st.cells.Set(bufCell(b).id, kStr(""))
			outs := x.emitTo(cs, cs.args[0], text, true)
			for i := range outs {
				outs[i].res = mkTuple(mkConv(types.Typ[types.Int64], outs[i].res.args[0]), outs[i].res.args[1])
			}
			return outs
		}
		return x.external(cs)
	}
	m["(*bytes.Buffer).WriteTo"] = func(x *Exec, cs *callSite) []callOut {
		text := x.bufText(cs.st, cs.args[0])
		cs.st.cells = cs.st.cells.Set(bufCell(cs.args[0]).id, kStr(""))
		outs := x.emitTo(cs, cs.args[1], text, true)
		for i := range outs {
			outs[i].res = mkTuple(mkConv(types.Typ[types.Int64], outs[i].res.args[0]), outs[i].res.args[1])
		}
		return outs
	}
	m["bytes.NewBuffer"] = ret(func(x *Exec, cs *callSite) *Term {
		a := x.alloc(cs.fr, cs.st, cs.instr, "buffer", types.NewPointer(tInt))
		if !cs.args[0].isNil() {
			cs.st.cells = cs.st.cells.Set(bufCell(a).id, x.convert(cs.st, tStr, tBytes, cs.args[0]))
		}
		return a
	})
	m["bytes.NewBufferString"] = ret(func(x *Exec, cs *callSite) *Term {
		a := x.alloc(cs.fr, cs.st, cs.instr, "buffer", types.NewPointer(tInt))
		cs.st.cells = cs.st.cells.Set(bufCell(a).id, cs.args[0])
		return a
	})
	m["io.WriteString"] = func(x *Exec, cs *callSite) []callOut { return x.emitTo(cs, cs.args[0], cs.args[1], true) }
	m["(io.Writer).Write"] = func(x *Exec, cs *callSite) []callOut {
		return x.emitTo(cs, cs.args[0], x.convert(cs.st, tStr, tBytes, cs.args[1]), true)
	}
	m["(*os.File).WriteString"] = func(x *Exec, cs *callSite) []callOut { return x.emitTo(cs, cs.args[0], cs.args[1], true) }
	m["(*os.File).Write"] = func(x *Exec, cs *callSite) []callOut {
		return x.emitTo(cs, cs.args[0], x.convert(cs.st, tStr, tBytes, cs.args[1]), true)
	}
	m["encoding/binary.Write"] = func(x *Exec, cs *callSite) []callOut {
		if t, ok := x.binText(cs, cs.args[1], cs.args[2]); ok {
			return x.emitTo(cs, cs.args[0], t, false)
		}
		r := x.icall(cs.fr, cs.st, cs.instr, cs.name, tErr, cs.args)
		x.event(cs, "call", r)
		x.undecided("binary.Write of a value that is not of fixed size in %s", fnName(cs.fr.fn))
		return one(cs.st, r)
	}
	m["encoding/binary.Read"] = func(x *Exec, cs *callSite) []callOut {
		v := cs.args[2]
		r := x.icall(cs.fr, cs.st, cs.instr, cs.name, tErr, cs.args)
		x.event(cs, "call", r)
		if v.op == OIface {
			val := v.args[0]
			switch u := v.typ.Underlying().(type) {
			case *types.Pointer:
				x.havocAddr(cs.fr, cs.st, val, u.Elem(), cs.instr, "read")
			case *types.Slice:
				x.havocElems(cs.fr, cs.st, val, u.Elem(), cs.instr, "read")
			}
		} else {
			x.undecided("binary.Read into an unknown value in %s", fnName(cs.fr.fn))
		}
		// fork on the error
		return x.bool2(cs, mkEq(r, kNil()), func(*State) *Term { return kNil() }, func(*State) *Term { return r })
	}
	m["io.ReadFull"] = func(x *Exec, cs *callSite) []callOut {
		x.havocElems(cs.fr, cs.st, cs.args[1], types.Typ[types.Byte], cs.instr, "read")
		r := x.icall(cs.fr, cs.st, cs.instr, cs.name, cs.typ, cs.args)
		x.event(cs, "call", r)
		return one(cs.st, mkTuple(mkExtract(r, 0, tInt), mkExtract(r, 1, tErr)))
	}
	// strings
	m["strings.Cut"] = func(x *Exec, cs *callSite) []callOut {
		s, sep := cs.args[0], cs.args[1]
		idx := pureCall("strings.Index", tInt, []*Term{s, sep})
		return x.bool2(cs, mkLt(idx, kInt(0), tInt), func(*State) *Term { return mkTuple(s, kStr(""), kBool(false)) }, func(st *State) *Term {
			return mkTuple(mkSubstr(s, kInt(0), idx), mkSubstr(s, mkAdd(idx, mkLen(sep), tInt), mkLen(s)), kBool(true))
		})
	}
	m["strings.CutPrefix"] = func(x *Exec, cs *callSite) []callOut {
		s, p := cs.args[0], cs.args[1]
		return x.bool2(cs, pureCall("strings.HasPrefix", tBool, cs.args), func(*State) *Term {
			return mkTuple(pureCall("strings.TrimPrefix", tStr, []*Term{s, p}), kBool(true))
		}, func(*State) *Term { return mkTuple(s, kBool(false)) })
	}
	m["strings.CutSuffix"] = func(x *Exec, cs *callSite) []callOut {
		s, p := cs.args[0], cs.args[1]
		return x.bool2(cs, pureCall("strings.HasSuffix", tBool, cs.args), func(*State) *Term {
			return mkTuple(pureCall("strings.TrimSuffix", tStr, []*Term{s, p}), kBool(true))
		}, func(*State) *Term { return mkTuple(s, kBool(false)) })
	}
	m["strings.Repeat"] = func(x *Exec, cs *callSite) []callOut {
		c := cur{st: cs.st}
		c, ok := x.needLE(cs.fr, c, cs.instr, "repeat", "strings.Repeat count", kInt(0), cs.args[1], 0)
		if !ok {
			return nil
		}
		if x.memoryBound != nil {
			x.memoryBound(x, cs.fr, c.st, cs.instr, mkCall("repeatlen", tInt, cs.args[0], cs.args[1]))
		}
		return one(c.st, pureCall(cs.name, tStr, cs.args))
	}
	// sorting keeps the elements
	sorter := func(x *Exec, cs *callSite) []callOut {
		a := cs.args[0]
		if a.op == OIface {
			a = a.args[0]
		}
		var et types.Type = tInt
		if a.typ != nil {
			if sl, ok := a.typ.Underlying().(*types.Slice); ok {
				et = sl.Elem()
			}
		}
		for _, f := range cs.args[1:] {
			if f.op == OClosure || f.op == OFunc {
				x.hofPure(cs, f, a, et)
			}
		}
		x.permute(cs, a, et)
		x.event(cs, "sort", nil)
		return one(cs.st, mkTuple())
	}
	for _, n := range []string{"sort.Slice", "sort.SliceStable", "sort.Strings", "sort.Ints", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "sort.Sort", "sort.Stable"} {
		m[n] = sorter
	}
	m["slices.Sorted"] = ret(func(x *Exec, cs *callSite) *Term {
		r := x.icall(cs.fr, cs.st, cs.instr, "slices.Sorted", cs.typ, cs.args)
		x.event(cs, "sort", r)
		return r
	})
	m["maps.Keys"] = ret(func(x *Exec, cs *callSite) *Term {
		mt := cs.args[0].typ
		if mt != nil {
			if mm, ok := mt.Underlying().(*types.Map); ok {
				ms := x.mapState(cs.st, cs.args[0], mm)
				if ms.writes == nil && ms.ver != nil {
					return mkCall("maps.Keys", cs.typ, ms.ver)
				}
			}
		}
		return x.icall(cs.fr, cs.st, cs.instr, "maps.Keys", cs.typ, cs.args)
	})
	m["maps.Clone"] = func(x *Exec, cs *callSite) []callOut {
		src := cs.args[0]
		mt, ok := cs.typ.Underlying().(*types.Map)
		if !ok {
			return x.external(cs)
		}
		ms := *x.mapState(cs.st, src, mt)
		t := cs.st.clone()
		var out []callOut
		if x.assume(t, mkEq(src, kNil()), true) {
			out = append(out, callOut{st: t, res: kNil(), kind: oRet})
		}
		if x.assume(cs.st, mkEq(src, kNil()), false) {
			d := x.alloc(cs.fr, cs.st, cs.instr, "map", cs.typ)
			cs.st.maps = cs.st.maps.Set(d.id, &ms)
			out = append(out, callOut{st: cs.st, res: d, kind: oRet})
		}
		return out
	}
	m["maps.Copy"] = func(x *Exec, cs *callSite) []callOut {
		dst, src := cs.args[0], cs.args[1]
		mt, ok := src.typ.Underlying().(*types.Map)
		if d, ok2 := cs.st.maps.Get(dst.id); ok && ok2 && d.empty && d.writes == nil {
			ms := *x.mapState(cs.st, src, mt)
			cs.st.maps = cs.st.maps.Set(dst.id, &ms)
			return one(cs.st, mkTuple())
		}
		return x.external(cs)
	}
	m["os.Exit"] = func(x *Exec, cs *callSite) []callOut {
		x.event(cs, "exit", nil)
		return []callOut{{st: cs.st, kind: oExit}}
	}
	m["flag.Parse"] = func(x *Exec, cs *callSite) []callOut {
		// the values behind the flag pointers change
		x.event(cs, "call", nil)
		for _, vt := range []types.Type{tStr, tBool, tInt} {
			e := mk(Term{op: OSym, s: "e" + x.freshKey(cs.fr, cs.st, cs.instr, "flag"), owners: x.own()})
			cs.st.epochs = cs.st.epochs.Set(classID(fmt.Sprintf("P%d", typeID(vt))), e)
		}
		return one(cs.st, mkTuple())
	}
	m["(*sync.Once).Do"] = func(x *Exec, cs *callSite) []callOut {
		// either it has run before, or it runs now
		before := cs.st.clone()
		before.add(&Event{kind: "once", name: cs.name, args: cs.args[:1]})
		before.add(&Event{kind: "onceend", name: cs.name, args: cs.args[:1]})
		out := []callOut{{st: before, res: mkTuple(), kind: oRet}}
		f := cs.args[1]
		if f.op != OClosure && f.op != OFunc || len(f.obj.(*ssa.Function).Blocks) == 0 {
			x.undecided("sync.Once.Do with an unknown function in %s", fnName(cs.fr.fn))
			return out
		}
		var binds []*Term
		if f.op == OClosure {
			binds = f.args
		}
		if fn := f.obj.(*ssa.Function); x.w.isRepo(fn) {
			x.havocMods(&callSite{fr: cs.fr, st: before, instr: cs.instr}, fn)
			cs.st.add(&Event{kind: "once", name: cs.name, args: cs.args[:1]})
			for _, o := range x.callFn(cs.fr, cs.st, fn, nil, binds, cs.instr, nil, nil, cs.guard) {
				if o.kind == oRet {
					o.st.add(&Event{kind: "onceend", name: cs.name, args: cs.args[:1]})
					o.res = mkTuple()
				}
				out = append(out, o)
			}
		}
		return out
	}
	m["(*sync.Map).Load"] = func(x *Exec, cs *callSite) []callOut {
		r := x.icall(cs.fr, cs.st, cs.instr, "syncmap.Load", cs.typ, cs.args)
		x.event(cs, "call", r)
		t := cs.st.clone()
		f := cs.st
		ok := mkExtract(r, 1, tBool)
		var out []callOut
		if x.assume(t, ok, true) {
			v := mkExtract(r, 0, types.NewInterfaceType(nil, nil))
			if et := x.w.syncElem(cs.args[0]); et != nil {
				v = mkIface(et, x.freshSym(cs.fr, t, cs.instr, "elem", et))
			}
			if x.syncMapElem != nil {
				v = x.syncMapElem(x, cs, v)
			}
			out = append(out, callOut{st: t, res: mkTuple(v, kBool(true)), kind: oRet})
		}
		if x.assume(f, ok, false) {
			out = append(out, callOut{st: f, res: mkTuple(kNil(), kBool(false)), kind: oRet})
		}
		return out
	}
	for _, n := range []string{"Lock", "Unlock", "RLock", "RUnlock"} {
		for _, t := range []string{"*sync.Mutex", "*sync.RWMutex"} {
			m["("+t+")."+n] = func(x *Exec, cs *callSite) []callOut {
				x.event(cs, "lock", nil)
				return one(cs.st, mkTuple())
			}
		}
	}
	m[matcherMatch] = func(x *Exec, cs *callSite) []callOut {
		r := pureCall(cs.name, cs.typ, x.values(cs.st, cs.args))
		// the index is a position in the list of supported tags when there are any
		if n := cs.args[0]; n.op == OCall && n.s == "golang.org/x/text/language.NewMatcher" && len(n.args) > 0 {
			ln := mkLen(n.args[0])
			if n.args[0].op == OTuple {
				ln = kInt(int64(len(n.args[0].args)))
			}
			if x.proveLE(cs.st, kInt(1), ln, 0) {
				x.assume(cs.st, mkLt(mkExtract(r, 1, tInt), ln, tInt), true)
			}
		}
		return one(cs.st, r)
	}
	m["io/fs.WalkDir"] = walkDir
	m["path/filepath.WalkDir"] = walkDir
}

// hofPure checks a comparison callback: it is called with indexes or elements.
const matcherMatch = "(golang.org/x/text/language.Matcher).Match"

func (x *Exec) hofPure(cs *callSite, f, sl *Term, et types.Type) {
	fn := f.obj.(*ssa.Function)
	if !x.w.isRepo(fn) || len(fn.Blocks) == 0 {
		return
	}
	ps := fn.Signature.Params()
	var binds []*Term
	if f.op == OClosure {
		binds = f.args
	}
	st := cs.st.clone()
	// a slice of length >= 1 is needed for the comparison to run at all
	x.loops = append(x.loops, intern(x.instIDs, "cmp|"+x.freshKey(cs.fr, cs.st, cs.instr, "cmp")))
	defer func() { x.loops = x.loops[:len(x.loops)-1] }()
	var as []*Term
	for k := 0; k < ps.Len(); k++ {
		v := x.freshSym(cs.fr, st, cs.instr, fmt.Sprintf("cmp%d", k), ps.At(k).Type())
		if isInteger(ps.At(k).Type()) {
			x.assume(st, mkLt(v, kInt(0), tInt), false)
			x.assume(st, mkLt(v, mkLen(sl), tInt), true)
		}
		as = append(as, v)
	}
	before := st.trace
	for _, o := range x.callFn(cs.fr, st, fn, as, binds, cs.instr, nil, nil, cs.guard) {
		for t := o.st.trace; t != nil && t != before; t = t.prev {
			if t.ev.kind == "store" && !isFreshRoot(rootOf(t.ev.args[0])) || t.ev.kind == "mapset" {
				cs.st.add(t.ev)
			}
		}
		if x.onCompare != nil {
			x.onCompare(x, cs, sl, as, o)
		}
	}
}

// permute: afterwards the slice holds the same elements in an unknown order.
func (x *Exec) permute(cs *callSite, sl *Term, et types.Type) {
	s := cs.st
	r := rootOf(sl)
	if x.proveLE(s, mkLen(sl), kInt(1), 0) {
		s.cells = s.cells.Set(sortedCell(sl).id, kBool(true))
		return // there is nothing to change places with
	}
	var hit []int
	s.cells.Each(func(k int, _ *Term) {
		if terms[k-1].op == OIndex && rootOf(terms[k-1]) == r || terms[k-1].op == OField && rootOf(terms[k-1]) == r && hasIndex(terms[k-1]) {
			hit = append(hit, k)
		}
	})
	for _, k := range hit {
		s.cells = s.cells.Del(k)
	}
	e := mk(Term{op: OSym, s: "e" + x.freshKey(cs.fr, s, cs.instr, "epoch"), owners: x.own()})
	s.epochs = s.epochs.Set(classID(fmt.Sprintf("E%d", typeID(et))), e)
	s.overwritten(sl, e)
	s.cells = s.cells.Set(sortedCell(sl).id, kBool(true))
}

func sortedCell(sl *Term) *Term {
	return mk(Term{op: OCall, s: "sorted", args: []*Term{sl}, typ: tBool})
}

// walkDir: the callback sees (path, entry, nil) or (path, entry or nil, error).
func walkDir(x *Exec, cs *callSite) []callOut {
	f := cs.args[len(cs.args)-1]
	x.event(cs, "call", nil)
	if f.op != OClosure && f.op != OFunc {
		x.undecided("WalkDir with an unknown callback in %s", fnName(cs.fr.fn))
		return one(cs.st, x.icall(cs.fr, cs.st, cs.instr, cs.name, tErr, cs.args))
	}
	fn := f.obj.(*ssa.Function)
	ps := fn.Signature.Params()
	if ps.Len() != 3 {
		x.undecided("WalkDir callback of unexpected type")
		return nil
	}
	each := func(st *State) []hofArg {
		path := x.freshSym(cs.fr, st, cs.instr, "path", tStr)
		d := x.freshSym(cs.fr, st, cs.instr, "dirent", ps.At(1).Type())
		e := x.freshSym(cs.fr, st, cs.instr, "walkerr", tErr)
		ok, bad := st.clone(), st.clone()
		x.assume(ok, mkEq(d, kNil()), false)
		x.assume(bad, mkEq(e, kNil()), false)
		stop := func(st *State, res *Term) []hofStop {
			var out []hofStop
			a, b := st.clone(), st
			if x.assume(a, mkEq(res, kNil()), true) {
				out = append(out, hofStop{st: a, back: true})
			}
			if x.assume(b, mkEq(res, kNil()), false) {
				// SkipDir / SkipAll skip entries, anything else ends the walk
				b.add(&Event{kind: "walkstop", args: []*Term{res}, fn: fnName(fn)})
				r := b.clone()
				out = append(out, hofStop{st: b, res: res}, hofStop{st: r, back: true})
			}
			return out
		}
		ok.add(&Event{kind: "walkitem", args: []*Term{path, d, kNil()}, fn: fnName(fn)})
		bad.add(&Event{kind: "walkitem", args: []*Term{path, d, e}, fn: fnName(fn)})
		return []hofArg{{ok, []*Term{path, d, kNil()}, stop}, {bad, []*Term{path, d, e}, stop}}
	}
	outs := x.callbackLoop(cs, f, each)
	for i := range outs {
		if outs[i].kind == oRet && outs[i].res == nil {
			outs[i].res = kNil()
		}
	}
	return outs
}

var _ = constant.MakeInt64
