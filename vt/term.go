package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Op is the constructor of a value-number term.
type Op uint8

const (
	OConst   Op = iota // constant (c; nil pointer/slice/map/func/interface when c == nil)
	OSym               // unknown value
	OAlloc             // address of an object created at a site of the analysed program
	OGlobal            // address of a package variable
	OFunc              // function value
	OClosure           // closure: function + bindings
	OField             // address of a struct field (aux = index)
	OIndex             // address of an array or slice element
	OInit              // initial content of an address, at an epoch
	OLin               // integer sum: aux coefficients, k
	OBin               // other binary operation
	OUn                // other unary operation
	ONot               // boolean negation
	OEq                // equality
	OLt                // less-than
	OConv              // conversion
	OLen               // len
	OCap               // cap
	OSlice             // s[lo:hi] / s[lo:hi:max] of a slice or array
	OSub               // s[lo:hi] of a string
	OConcat            // string concatenation
	OAppend            // append(base, items...)
	OSpread            // items of a slice in an argument/append list
	OMkSlice           // make([]T, len, cap)
	OMapVal            // m[k] of a map version
	OMapOk             // k in m of a map version
	OCall              // application of a pure function
	OICall             // result of one dynamic call of an impure function
	OExtract           // component of a tuple
	OTuple             // tuple
	OIface             // interface holding a value of a concrete type
	OAssert            // x.(T) of an opaque interface
	OTypeIs            // dynamic type of x is T
	OStruct            // struct value
	OFieldV            // field of an opaque struct value
	OStrIdx            // s[i] of a string
	ODeref             // marker
)

var opNames = map[Op]string{OConst: "const", OSym: "sym", OAlloc: "alloc", OGlobal: "global", OFunc: "func", OClosure: "closure", OField: "&field", OIndex: "&index", OInit: "init", OLin: "lin", OBin: "bin", OUn: "un", ONot: "not", OEq: "eq", OLt: "lt", OConv: "conv", OLen: "len", OCap: "cap", OSlice: "slice", OSub: "sub", OConcat: "concat", OAppend: "append", OSpread: "spread", OMkSlice: "mkslice", OMapVal: "mapval", OMapOk: "mapok", OCall: "call", OICall: "icall", OExtract: "extract", OTuple: "tuple", OIface: "iface", OAssert: "assert", OTypeIs: "typeis", OStruct: "struct", OFieldV: "fieldv", OStrIdx: "stridx"}

// Term is a hash-consed value number.
type Term struct {
	id     int
	op     Op
	args   []*Term
	s      string // name / operator / unique key
	i      int    // field or component index
	c      constant.Value
	coef   []int64
	k      int64
	typ    types.Type
	obj    any
	owners []int // loop instances this term may vary in
}

var (
	termTab  = map[string]*Term{}
	terms    []*Term
	typeIDs  typeutil.Map
	typeMemo = map[types.Type]int{}
)

func typeID(t types.Type) int {
	if t == nil {
		return 0
	}
	if id, ok := typeMemo[t]; ok {
		return id
	}
	// identical types, aliases included, share one number
	id, ok := typeIDs.At(t).(int)
	if !ok {
		id = typeIDs.Len() + 1
		typeIDs.Set(t, id)
	}
	typeMemo[t] = id
	return id
}

func sameType(a, b types.Type) bool { return typeID(a) == typeID(b) }

func mk(t Term) *Term {
	var b strings.Builder
	b.WriteByte(byte('A' + t.op))
	for _, a := range t.args {
		b.WriteString(strconv.Itoa(a.id))
		b.WriteByte(',')
	}
	b.WriteByte('|')
	b.WriteString(t.s)
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(t.i))
	switch t.op {
	case OConst:
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(typeID(t.typ)))
		if t.c != nil {
			b.WriteString(t.c.Kind().String() + ":" + t.c.ExactString())
		} else {
			b.WriteString("nil")
		}
	case OConv, OIface, OAssert, OTypeIs, OSym:
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(typeID(t.typ)))
	case OLin:
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(typeID(t.typ)))
		for _, c := range t.coef {
			b.WriteString(":" + strconv.FormatInt(c, 10))
		}
		b.WriteString("+" + strconv.FormatInt(t.k, 10))
	case OFunc, OClosure, OGlobal:
		b.WriteString(fmt.Sprintf("|%p", t.obj))
	}
	if len(t.owners) > 0 && (t.op == OSym || t.op == OAlloc || t.op == OICall) {
		fmt.Fprintf(&b, "|o%v", t.owners)
	}
	key := b.String()
	if x, ok := termTab[key]; ok {
		return x
	}
	t.id = len(terms) + 1
	own := append([]int{}, t.owners...)
	for _, a := range t.args {
		own = append(own, a.owners...)
	}
	if len(own) > 0 {
		sort.Ints(own)
		w := 1
		for r := 1; r < len(own); r++ {
			if own[r] != own[w-1] {
				own[w] = own[r]
				w++
			}
		}
		t.owners = own[:w]
	} else {
		t.owners = nil
	}
	x := &t
	termTab[key] = x
	terms = append(terms, x)
	return x
}

func (t *Term) ownedBy(inst int) bool {
	for _, o := range t.owners {
		if o == inst {
			return true
		}
	}
	return false
}

// mentions reports whether u occurs in t.
func (t *Term) mentions(f func(*Term) bool) bool {
	seen := map[int]bool{}
	var w func(*Term) bool
	w = func(t *Term) bool {
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		if f(t) {
			return true
		}
		for _, a := range t.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 12 {
		return "…"
	}
	as := func(sep string, args []*Term) string {
		var ss []string
		for _, a := range args {
			ss = append(ss, a.str(d+1))
		}
		return strings.Join(ss, sep)
	}
	switch t.op {
	case OConst:
		if t.c == nil {
			return "nil"
		}
		return t.c.ExactString()
	case OSym:
		return t.s
	case OAlloc:
		return "new(" + t.s + ")"
	case OGlobal:
		return "&" + t.s
	case OFunc:
		return t.s
	case OClosure:
		return "closure " + t.s
	case OField:
		return t.args[0].str(d+1) + "." + fieldName(t.typ, t.i)
	case OIndex:
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]"
	case OInit:
		return "*" + t.args[0].str(d+1)
	case OLin:
		var b strings.Builder
		for i, a := range t.args {
			if t.coef[i] == 1 {
				b.WriteString("+" + a.str(d+1))
			} else {
				fmt.Fprintf(&b, "%+d*%s", t.coef[i], a.str(d+1))
			}
		}
		if t.k != 0 {
			fmt.Fprintf(&b, "%+d", t.k)
		}
		return "(" + b.String() + ")"
	case OBin:
		return "(" + t.args[0].str(d+1) + " " + t.s + " " + t.args[1].str(d+1) + ")"
	case OUn:
		return t.s + t.args[0].str(d+1)
	case ONot:
		return "!(" + t.args[0].str(d+1) + ")"
	case OEq:
		return t.args[0].str(d+1) + " == " + t.args[1].str(d+1)
	case OLt:
		return t.args[0].str(d+1) + " < " + t.args[1].str(d+1)
	case OConv:
		return types.TypeString(t.typ, shortQual) + "(" + t.args[0].str(d+1) + ")"
	case OSlice, OSub:
		return t.args[0].str(d+1) + "[" + as(":", t.args[1:]) + "]"
	case OConcat:
		return "(" + as(" ++ ", t.args) + ")"
	case OSpread:
		return t.args[0].str(d+1) + "..."
	case OMapVal:
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]"
	case OMapOk:
		return t.args[1].str(d+1) + " in " + t.args[0].str(d+1)
	case OCall:
		return t.s + "(" + as(", ", t.args) + ")"
	case OICall:
		n := t.s
		if i := strings.IndexByte(n, '#'); i >= 0 {
			n = n[:i]
		}
		return n + "(" + as(", ", t.args) + ")"
	case OExtract:
		return t.args[0].str(d+1) + "#" + strconv.Itoa(t.i)
	case OIface:
		return t.args[0].str(d + 1)
	case OAssert, OTypeIs:
		return opNames[t.op] + "[" + types.TypeString(t.typ, shortQual) + "](" + as(", ", t.args) + ")"
	case OFieldV:
		st, _ := t.obj.(types.Type)
		return t.args[0].str(d+1) + "." + fieldName(st, t.i)
	}
	return opNames[t.op] + "(" + as(", ", t.args) + ")"
}

func shortQual(p *types.Package) string { return p.Name() }

func fieldName(t types.Type, i int) string {
	if t != nil {
		if st, ok := t.Underlying().(*types.Struct); ok && i < st.NumFields() {
			return st.Field(i).Name()
		}
	}
	return strconv.Itoa(i)
}

// ---- constructors ----

var (
	tBool  types.Type = types.Typ[types.Bool]
	tInt   types.Type = types.Typ[types.Int]
	tStr   types.Type = types.Typ[types.String]
	tErr              = types.Universe.Lookup("error").Type()
	tAny              = types.Universe.Lookup("any").Type()
	tBytes            = types.NewSlice(types.Typ[types.Byte])
)

func kConst(c constant.Value, typ types.Type) *Term {
	if c != nil {
		if b, ok := typ.Underlying().(*types.Basic); ok {
			// normalise the representation and forget defined types: values compare by content
			switch {
			case b.Info()&types.IsInteger != 0:
				c = constant.ToInt(c)
			case b.Info()&types.IsFloat != 0:
				c = constant.ToFloat(c)
			}
			switch {
			case b.Info()&types.IsString != 0:
				typ = tStr
			case b.Info()&types.IsBoolean != 0:
				typ = tBool
			case b.Kind() == types.UntypedInt:
				typ = tInt
			case b.Info()&types.IsInteger != 0:
				typ = types.Typ[b.Kind()]
			}
		}
	} else {
		typ = types.Typ[types.UntypedNil]
	}
	return mk(Term{op: OConst, c: c, typ: typ})
}
func kInt(n int64) *Term { return kConst(constant.MakeInt64(n), tInt) }
func kIntT(n int64, t types.Type) *Term {
	return kConst(constant.MakeInt64(n), t)
}
func kStr(s string) *Term { return kConst(constant.MakeString(s), tStr) }
func kBool(b bool) *Term  { return kConst(constant.MakeBool(b), tBool) }
func kNil() *Term         { return kConst(nil, tInt) }

func (t *Term) isNil() bool   { return t.op == OConst && t.c == nil }
func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) boolVal() (bool, bool) {
	if t.op == OConst && t.c != nil && t.c.Kind() == constant.Bool {
		return constant.BoolVal(t.c), true
	}
	return false, false
}
func (t *Term) intVal() (int64, bool) {
	if t.op == OConst && t.c != nil && t.c.Kind() == constant.Int {
		return constant.Int64Val(t.c)
	}
	return 0, false
}
func (t *Term) strVal() (string, bool) {
	if t.op == OConst && t.c != nil && t.c.Kind() == constant.String {
		return constant.StringVal(t.c), true
	}
	return "", false
}

func kSym(name string, typ types.Type) *Term { return mk(Term{op: OSym, s: name, typ: typ}) }

func mkFunc(f *ssa.Function) *Term {
	return mk(Term{op: OFunc, s: f.String(), obj: f, typ: f.Signature})
}
func mkClosure(f *ssa.Function, binds []*Term) *Term {
	if len(binds) == 0 {
		return mkFunc(f)
	}
	return mk(Term{op: OClosure, s: f.String(), obj: f, args: binds, typ: f.Signature})
}
func mkGlobal(g *ssa.Global) *Term {
	return mk(Term{op: OGlobal, s: g.String(), obj: g, typ: g.Type()})
}

func mkField(base *Term, st types.Type, i int) *Term {
	return mk(Term{op: OField, args: []*Term{base}, i: i, typ: st})
}
func mkIndexAddr(base, idx *Term, elem types.Type) *Term {
	if base.op == OSlice {
		return mkIndexAddr(base.args[0], mkAdd(base.args[1], toIntT(idx), tInt), elem)
	}
	return mk(Term{op: OIndex, args: []*Term{base, toIntT(idx)}, typ: elem})
}

// toIntT drops value-preserving integer conversions so that indexes compare.
func toIntT(t *Term) *Term {
	if t.op == OConst {
		if n, ok := t.intVal(); ok {
			return kInt(n)
		}
	}
	return t
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolean(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// intRange gives the value range of an integer type (on a 64-bit platform).
func intRange(t types.Type) (lo, hi int64, bounded bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return -1 << 7, 1<<7 - 1, true
	case types.Int16:
		return -1 << 15, 1<<15 - 1, true
	case types.Int32:
		return -1 << 31, 1<<31 - 1, true
	case types.Int, types.Int64, types.UntypedInt:
		return -1 << 63, 1<<63 - 1, true
	case types.Uint8:
		return 0, 1<<8 - 1, true
	case types.Uint16:
		return 0, 1<<16 - 1, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, 1<<63 - 1, false // upper bound not representable
	}
	return 0, 0, false
}

func wrapInt(n int64, t types.Type) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return n
	}
	switch b.Kind() {
	case types.Int8:
		return int64(int8(n))
	case types.Int16:
		return int64(int16(n))
	case types.Int32:
		return int64(int32(n))
	case types.Uint8:
		return int64(uint8(n))
	case types.Uint16:
		return int64(uint16(n))
	case types.Uint32:
		return int64(uint32(n))
	}
	return n
}

// linear view: sum of coef*term + k
type lin struct {
	v map[int]int64
	k int64
}

func linOf(t *Term) lin {
	l := lin{v: map[int]int64{}}
	if n, ok := t.intVal(); ok {
		l.k = n
		return l
	}
	if t.op == OLin {
		for i, a := range t.args {
			l.v[a.id] += t.coef[i]
		}
		l.k = t.k
		return l
	}
	l.v[t.id] = 1
	return l
}

func (l lin) term(typ types.Type) *Term {
	ids := make([]int, 0, len(l.v))
	for id, c := range l.v {
		if c != 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	k := wrapInt(l.k, typ)
	if len(ids) == 0 {
		return kIntT(k, typ)
	}
	if len(ids) == 1 && l.v[ids[0]] == 1 && k == 0 {
		return terms[ids[0]-1]
	}
	t := Term{op: OLin, typ: baseInt(typ), k: k}
	for _, id := range ids {
		t.args = append(t.args, terms[id-1])
		t.coef = append(t.coef, l.v[id])
	}
	return mk(t)
}

func baseInt(t types.Type) types.Type {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return types.Typ[b.Kind()]
	}
	return t
}

func mkAdd(x, y *Term, typ types.Type) *Term {
	if isString(typ) {
		return mkConcat(x, y)
	}
	if !isInteger(typ) {
		return mkBinRaw("+", x, y, typ)
	}
	a, b := linOf(x), linOf(y)
	for id, c := range b.v {
		a.v[id] += c
	}
	a.k += b.k
	return a.term(typ)
}
func mkScale(x *Term, c int64, typ types.Type) *Term {
	a := linOf(x)
	for id := range a.v {
		a.v[id] *= c
	}
	a.k *= c
	return a.term(typ)
}
func mkSub(x, y *Term, typ types.Type) *Term { return mkAdd(x, mkScale(y, -1, typ), typ) }
func mkBinRaw(op string, x, y *Term, typ types.Type) *Term {
	return mk(Term{op: OBin, s: op, args: []*Term{x, y}, typ: typ})
}

func mkBin(op token.Token, x, y *Term, typ types.Type, opTyp types.Type) *Term {
	switch op {
	case token.EQL:
		return mkEq(x, y)
	case token.NEQ:
		return mkNot(mkEq(x, y))
	case token.LSS:
		return mkLt(x, y, opTyp)
	case token.GTR:
		return mkLt(y, x, opTyp)
	case token.LEQ:
		return mkNot(mkLt(y, x, opTyp))
	case token.GEQ:
		return mkNot(mkLt(x, y, opTyp))
	case token.ADD:
		return mkAdd(x, y, typ)
	case token.SUB:
		if isInteger(typ) {
			return mkSub(x, y, typ)
		}
	case token.MUL:
		if isInteger(typ) {
			if c, ok := x.intVal(); ok {
				return mkScale(y, c, typ)
			}
			if c, ok := y.intVal(); ok {
				return mkScale(x, c, typ)
			}
		}
	}
	if x.isConst() && y.isConst() && x.c != nil && y.c != nil && isInteger(typ) {
		a, ok1 := x.intVal()
		b, ok2 := y.intVal()
		if ok1 && ok2 {
			switch op {
			case token.QUO:
				if b != 0 {
					return kIntT(wrapInt(a/b, typ), typ)
				}
			case token.REM:
				if b != 0 {
					return kIntT(wrapInt(a%b, typ), typ)
				}
			case token.AND:
				return kIntT(a&b, typ)
			case token.OR:
				return kIntT(a|b, typ)
			case token.XOR:
				return kIntT(wrapInt(a^b, typ), typ)
			case token.AND_NOT:
				return kIntT(a&^b, typ)
			case token.SHL:
				if b >= 0 && b < 62 {
					return kIntT(wrapInt(a<<uint(b), typ), typ)
				}
			case token.SHR:
				if b >= 0 {
					return kIntT(a>>uint(b), typ)
				}
			}
		}
	}
	switch op {
	case token.MUL, token.AND, token.OR, token.XOR:
		if x.id > y.id {
			x, y = y, x
		}
	}
	return mkBinRaw(op.String(), x, y, typ)
}

func mkNot(x *Term) *Term {
	if b, ok := x.boolVal(); ok {
		return kBool(!b)
	}
	if x.op == ONot {
		return x.args[0]
	}
	return mk(Term{op: ONot, args: []*Term{x}, typ: tBool})
}

// intrinsically non-nil terms
func intrinsicNonNil(t *Term) bool {
	switch t.op {
	case OAlloc, OGlobal, OFunc, OClosure, OField, OIndex, OIface, OMkSlice:
		return true
	case OAppend:
		for _, a := range t.args[1:] {
			if a.op != OSpread {
				return true
			}
		}
		return intrinsicNonNil(t.args[0])
	case OSlice:
		// slicing a non-nil array pointer or slice
		return intrinsicNonNil(t.args[0])
	case OCall, OICall:
		return nonNilCall(t)
	case OExtract:
		return t.s == "nn"
	case OConv:
		return len(t.args) > 0 && intrinsicNonNil(t.args[0])
	}
	return false
}

func mkEq(x, y *Term) *Term {
	if x == y {
		return kBool(true)
	}
	if x.isConst() && !y.isConst() {
		x, y = y, x
	}
	if x.isConst() && y.isConst() {
		if x.c == nil || y.c == nil {
			return kBool(x.c == nil && y.c == nil)
		}
		if x.c.Kind() == y.c.Kind() {
			return kBool(constant.Compare(x.c, token.EQL, y.c))
		}
	}
	if y.isNil() {
		if intrinsicNonNil(x) {
			return kBool(false)
		}
	} else if b, ok := y.boolVal(); ok {
		if b {
			return x
		}
		return mkNot(x)
	} else if _, ok := y.intVal(); ok || (x.typ != nil && isIntTerm(x)) || isIntTerm(y) {
		if isIntTerm(x) && (ok || isIntTerm(y)) {
			a, b := linOf(x), linOf(y)
			for id, c := range b.v {
				a.v[id] -= c
			}
			nz := 0
			for _, c := range a.v {
				if c != 0 {
					nz++
				}
			}
			if nz == 0 {
				return kBool(a.k-b.k == 0)
			}
			if ok {
				// canonical: single variable with coefficient 1
				if x.op == OLin && len(x.args) == 1 && x.coef[0] == 1 {
					return mkEq(x.args[0], kIntT(wrapInt(b.k-x.k, x.typ), x.typ))
				}
				if x.op == OLen && b.k == 0 {
					return mkLt(x, kInt(1), tInt)
				}
				if x.op == OLen && b.k < 0 {
					return kBool(false)
				}
				if b.k == -1 && x.op == OCall && (x.s == "strings.Index" || x.s == "strings.LastIndex") {
					return mkLt(x, kInt(0), tInt)
				}
			}
		}
	} else if s, ok := y.strVal(); ok {
		if r := eqConcatConst(x, s); r != nil {
			return r
		}
	} else if x.op == OConcat || y.op == OConcat {
		if r := eqConcat(x, y); r != nil {
			return r
		}
	}
	if freshErr(x) && (freshErr(y) || sentinel(y)) || freshErr(y) && sentinel(x) {
		return kBool(false)
	}
	switch {
	case x.op == OIface && y.op == OIface:
		if !sameType(x.typ, y.typ) {
			return kBool(false)
		}
		return mkEq(x.args[0], y.args[0])
	case x.op == OAlloc && y.op == OAlloc, x.op == OGlobal && y.op == OGlobal,
		x.op == OAlloc && y.op == OGlobal, x.op == OGlobal && y.op == OAlloc:
		return kBool(false)
	case x.op == OStruct && y.op == OStruct && len(x.args) == len(y.args):
		allEq, anyNe := true, false
		for i := range x.args {
			if b, ok := mkEq(x.args[i], y.args[i]).boolVal(); !ok {
				allEq = false
			} else if !b {
				anyNe = true
			}
		}
		if anyNe {
			return kBool(false)
		}
		if allEq {
			return kBool(true)
		}
	}
	if !y.isConst() && x.id > y.id {
		x, y = y, x
	}
	return mk(Term{op: OEq, args: []*Term{x, y}, typ: tBool})
}

// sentinel: the content of a package variable.
func sentinel(t *Term) bool { return t.op == OInit && t.args[0].op == OGlobal }

// isIntTerm reports whether t is known to be integer-valued.
func isIntTerm(t *Term) bool {
	switch t.op {
	case OLen, OCap, OLin:
		return true
	}
	return t.typ != nil && isInteger(t.typ) && t.op != OField && t.op != OIndex && t.op != OGlobal && t.op != OAlloc
}

func concatParts(t *Term) []*Term {
	if t.op == OConcat {
		return t.args
	}
	return []*Term{t}
}

func eqConcatConst(x *Term, s string) *Term {
	if x.op != OConcat {
		return nil
	}
	parts := x.args
	// strip constant prefix/suffix
	for len(parts) > 0 {
		p, ok := parts[0].strVal()
		if !ok {
			break
		}
		if !strings.HasPrefix(s, p) {
			return kBool(false)
		}
		s = s[len(p):]
		parts = parts[1:]
	}
	for len(parts) > 0 {
		p, ok := parts[len(parts)-1].strVal()
		if !ok {
			break
		}
		if !strings.HasSuffix(s, p) {
			return kBool(false)
		}
		s = s[:len(s)-len(p)]
		parts = parts[:len(parts)-1]
	}
	for _, p := range parts {
		if c, ok := p.strVal(); ok && !strings.Contains(s, c) {
			return kBool(false)
		}
	}
	if len(parts) != len(x.args) {
		if len(parts) == 0 {
			return kBool(s == "")
		}
		return mkEq(mkConcat(parts...), kStr(s))
	}
	return nil
}

func eqConcat(x, y *Term) *Term {
	a, b := concatParts(x), concatParts(y)
	n := len(a) + len(b)
	for len(a) > 0 && len(b) > 0 {
		if a[0] == b[0] {
			a, b = a[1:], b[1:]
			continue
		}
		p, ok1 := a[0].strVal()
		q, ok2 := b[0].strVal()
		if ok1 && ok2 && p != q {
			if !strings.HasPrefix(p, q) && !strings.HasPrefix(q, p) {
				return kBool(false)
			}
		}
		break
	}
	for len(a) > 0 && len(b) > 0 {
		if a[len(a)-1] == b[len(b)-1] {
			a, b = a[:len(a)-1], b[:len(b)-1]
			continue
		}
		p, ok1 := a[len(a)-1].strVal()
		q, ok2 := b[len(b)-1].strVal()
		if ok1 && ok2 && p != q {
			if !strings.HasSuffix(p, q) && !strings.HasSuffix(q, p) {
				return kBool(false)
			}
		}
		break
	}
	if len(a)+len(b) == n {
		return nil
	}
	return mkEq(mkConcat(a...), mkConcat(b...))
}

func mkLt(x, y *Term, opTyp types.Type) *Term {
	if x == y {
		return kBool(false)
	}
	if x.isConst() && y.isConst() && x.c != nil && y.c != nil && x.c.Kind() == y.c.Kind() {
		return kBool(constant.Compare(x.c, token.LSS, y.c))
	}
	if opTyp != nil && isInteger(opTyp) {
		if c, ok := x.intVal(); ok { // c < y  <=>  !(y < c+1)
			if _, hi, _ := intRange(opTyp); c == hi {
				return kBool(false)
			}
			return mkNot(mkLt(y, kIntT(c+1, opTyp), opTyp))
		}
		if c, ok := y.intVal(); ok {
			if (x.op == OLen || x.op == OCap || isUnsigned(opTyp)) && c <= 0 {
				return kBool(false)
			}
			if lo, _, ok := intRange(opTyp); ok && c <= lo {
				return kBool(false)
			}
			if x.op == OLen && c == 1 && x.args[0].typ != nil && isString(x.args[0].typ) {
				return mkEq(x.args[0], kStr(""))
			}
			if isUnsigned(opTyp) && c == 1 {
				return mkEq(x, kIntT(0, opTyp))
			}
		}
	}
	return mk(Term{op: OLt, args: []*Term{x, y}, typ: opTyp})
}

func mkConcat(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		for _, q := range concatParts(p) {
			if s, ok := q.strVal(); ok {
				if s == "" {
					continue
				}
				if len(out) > 0 {
					if l, ok := out[len(out)-1].strVal(); ok {
						out[len(out)-1] = kStr(l + s)
						continue
					}
				}
			}
			if len(out) > 0 {
				l := out[len(out)-1]
				if l.op == OSub && q.op == OSub && l.args[0] == q.args[0] && l.args[2] == q.args[1] {
					out[len(out)-1] = mkSubstr(l.args[0], l.args[1], q.args[2])
					continue
				}
			}
			out = append(out, q)
		}
	}
	switch len(out) {
	case 0:
		return kStr("")
	case 1:
		return out[0]
	}
	return mk(Term{op: OConcat, args: out, typ: tStr})
}

func mkLen(x *Term) *Term {
	if s, ok := x.strVal(); ok {
		return kInt(int64(len(s)))
	}
	switch x.op {
	case OConst:
		if x.c == nil {
			return kInt(0)
		}
	case OConcat:
		n := kInt(0)
		for _, a := range x.args {
			n = mkAdd(n, mkLen(a), tInt)
		}
		return n
	case OSub, OSlice:
		return mkSub(x.args[2], x.args[1], tInt)
	case OMkSlice:
		return toIntT(x.args[0])
	case OAppend:
		n := mkLen(x.args[0])
		for _, a := range x.args[1:] {
			if a.op == OSpread {
				n = mkAdd(n, mkLen(a.args[0]), tInt)
			} else {
				n = mkAdd(n, kInt(1), tInt)
			}
		}
		return n
	case OConv:
		if len(x.args) == 1 && x.args[0].typ != nil && (isString(x.typ) && isBytes(x.args[0].typ) || isBytes(x.typ) && isString(x.args[0].typ)) {
			return mkLen(x.args[0])
		}
	}
	return mk(Term{op: OLen, args: []*Term{x}, typ: tInt})
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func mkCap(x *Term) *Term {
	switch x.op {
	case OMkSlice:
		return toIntT(x.args[1])
	case OSlice:
		if len(x.args) == 4 {
			return mkSub(x.args[3], x.args[1], tInt)
		}
	}
	if x.isNil() {
		return kInt(0)
	}
	return mk(Term{op: OCap, args: []*Term{x}, typ: tInt})
}

// mkSubstr builds s[lo:hi]
func mkSubstr(s, lo, hi *Term) *Term {
	if s.op == OSub {
		return mkSubstr(s.args[0], mkAdd(s.args[1], lo, tInt), mkAdd(s.args[1], hi, tInt))
	}
	if lo == hi {
		return kStr("")
	}
	if c, ok := s.strVal(); ok {
		a, ok1 := lo.intVal()
		b, ok2 := hi.intVal()
		if ok1 && ok2 && 0 <= a && a <= b && b <= int64(len(c)) {
			return kStr(c[a:b])
		}
	}
	if n, ok := lo.intVal(); ok && n == 0 && hi == mkLen(s) {
		return s
	}
	if s.op == OConcat {
		// cut at part boundaries
		pos := kInt(0)
		bounds := []*Term{pos}
		for _, p := range s.args {
			pos = mkAdd(pos, mkLen(p), tInt)
			bounds = append(bounds, pos)
		}
		a, b := -1, -1
		for i, p := range bounds {
			if p == lo {
				a = i
			}
			if p == hi {
				b = i
			}
		}
		if a >= 0 && b >= a {
			return mkConcat(s.args[a:b]...)
		}
	}
	return mk(Term{op: OSub, args: []*Term{s, lo, hi}, typ: tStr})
}

func mkSlice(x, lo, hi, max *Term, typ types.Type) *Term {
	if x.op == OSlice {
		lo2 := mkAdd(x.args[1], lo, tInt)
		hi2 := mkAdd(x.args[1], hi, tInt)
		if max != nil {
			max = mkAdd(x.args[1], max, tInt)
		} else if len(x.args) == 4 {
			max = x.args[3]
		}
		return mkSlice(x.args[0], lo2, hi2, max, typ)
	}
	a := []*Term{x, lo, hi}
	if max != nil {
		a = append(a, max)
	}
	return mk(Term{op: OSlice, args: a, typ: typ})
}

func mkConv(to types.Type, x *Term) *Term {
	if x.isConst() && x.c != nil {
		if b, ok := to.Underlying().(*types.Basic); ok {
			if n, ok := x.intVal(); ok && b.Info()&types.IsInteger != 0 {
				return kIntT(wrapInt(n, to), to)
			}
			if _, ok := x.strVal(); ok && b.Info()&types.IsString != 0 {
				return x
			}
			if _, ok := x.boolVal(); ok {
				return x
			}
		}
	}
	if x.isNil() {
		return x
	}
	if x.typ != nil {
		if isInteger(to) && isInteger(x.typ) {
			if sameType(baseInt(to), baseInt(x.typ)) {
				return x
			}
			// int and int64 have the same values on the analysed (64-bit) platform, but stay
			// distinct terms so a narrowing conversion remains visible.
			if x.op == OConv && len(x.args) == 1 && isInteger(x.args[0].typ) && widens(x.args[0].typ, x.typ) {
				if sameType(baseInt(to), baseInt(x.args[0].typ)) {
					return x.args[0]
				}
				return mkConv(to, x.args[0])
			}
			return mk(Term{op: OConv, args: []*Term{x}, typ: baseInt(to)})
		}
		if isString(to) && isString(x.typ) {
			return x
		}
		if isString(to) && x.op == OConv && isBytes(x.typ) && isString(x.args[0].typ) {
			return x.args[0]
		}
		if types.Identical(to.Underlying(), x.typ.Underlying()) {
			return x
		}
	}
	return mk(Term{op: OConv, args: []*Term{x}, typ: to})
}

// widens: every value of from is representable in to
func widens(from, to types.Type) bool {
	al, ah, aok := intRange(from)
	bl, bh, bok := intRange(to)
	if !aok {
		return !bok && al >= bl && sameType(baseInt(from), baseInt(to))
	}
	return al >= bl && ah <= bh
}

func mkIface(typ types.Type, x *Term) *Term {
	return mk(Term{op: OIface, args: []*Term{x}, typ: typ})
}

func mkExtract(t *Term, i int, typ types.Type) *Term {
	if t.op == OTuple {
		return t.args[i]
	}
	return mk(Term{op: OExtract, args: []*Term{t}, i: i, typ: typ})
}
func mkTuple(a ...*Term) *Term { return mk(Term{op: OTuple, args: a}) }

func mkCall(name string, typ types.Type, args ...*Term) *Term {
	return mk(Term{op: OCall, s: name, args: args, typ: typ})
}

func mkStruct(typ types.Type, fs []*Term) *Term {
	return mk(Term{op: OStruct, args: fs, typ: typ, s: strconv.Itoa(typeID(typ))})
}
func mkFieldV(x *Term, i int, ftyp, st types.Type) *Term {
	if x.op == OStruct {
		return x.args[i]
	}
	t := mk(Term{op: OFieldV, args: []*Term{x}, i: i, typ: ftyp, obj: st})
	return t
}

func mkAppend(base *Term, items []*Term, typ types.Type) *Term {
	if len(items) == 0 {
		return base
	}
	if base.op == OAppend {
		items = append(append([]*Term{}, base.args[1:]...), items...)
		base = base.args[0]
	}
	return mk(Term{op: OAppend, args: append([]*Term{base}, items...), typ: typ})
}
