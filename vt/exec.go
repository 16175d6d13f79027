package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Exec is the abstract interpreter. It never runs the program: it propagates
// value-number terms, path facts and difference constraints through the SSA
// form, inlining calls between the repository's functions, and computes loop
// invariants by fixpoint iteration.
type Exec struct {
	w          *World
	obs        []obRec
	quiet      int
	loops      []int // active abstracted loops
	ctxIDs     map[string]int
	siteIDs    map[string]int
	instIDs    map[string]int
	intr       map[int][]zedge
	axioms     []func(*Term) []zedge
	stack      []*ssa.Function
	watch      []*watch
	steps      int
	maxSteps   int
	partCounts bool            // loops are also split on whether a counter or list is as it was at the start
	enums      map[string]bool // what the loop about to start partitions on
	undec      []string

	opaque        map[string]bool // repository functions treated as uninterpreted
	pureOpaque    map[string]bool
	models        map[string]model
	nonNilInit    func(*State, *Term) bool
	nonNilMapVal  func(*State, *Term) bool
	onInvoke      func(x *Exec, cs *callSite) ([]callOut, bool)
	memoryBound   func(x *Exec, fr *Frame, st *State, instr ssa.Instruction, n *Term)
	curDefers     *deferNode
	nonNilGlobals map[string]bool
	graphs        map[*pnode[zedge]]*zgraph
	syncMapElem   func(x *Exec, cs *callSite, v *Term) *Term
	onCompare     func(x *Exec, cs *callSite, sl *Term, as []*Term, o callOut)
	noInline      bool
	visited       map[*ssa.Function]bool
	extCalls      map[string]int
	havocAll      bool
	marks         []*LoopMark // loops abstracted in the final passes
	hofMarks      []*LoopMark // callbacks run any number of times
	recs          []recCall
	watchPure     map[string]bool       // pure calls that leave an event
	frozen        func(types.Type) bool // fields and elements of these types are never written
	stackArgs     [][]*Term
	logReads      map[string]bool // cell classes whose loads from older objects leave an event
}

// recCall is a call back into an active function.
type recCall struct {
	fn          *ssa.Function
	entry, args []*Term
	st          *State
	instr       ssa.Instruction
	in          *ssa.Function
}

type watch struct {
	fr        *Frame
	header    *ssa.BasicBlock
	undecided bool
}

type obRec struct {
	kind, fn, what string
	ok             bool
	pos            token.Pos
	why            string
	path           string
}

// Frame is one activation of a function.
type Frame struct {
	fn      *ssa.Function
	ctx     int
	binds   []*Term
	info    *fnInfo
	parent  *Frame
	guarded bool
}

type cur struct {
	st     *State
	env    PMap[*Term]
	pred   *ssa.BasicBlock
	defers *deferNode
	pan    *Term // value of the panic being handled by deferred calls
	recov  *bool
}
type deferNode struct {
	prev *deferNode
	site *callSite
}

const (
	oRet = iota
	oPanic
	oExit
	oEdge
	oBack
)

type outcome struct {
	kind int
	c    cur
	to   *ssa.BasicBlock
	res  []*Term
	pv   *Term
}

type callOut struct {
	st   *State
	res  *Term
	kind int // oRet, oPanic, oExit
	pv   *Term
}

type callSite struct {
	fr    *Frame
	st    *State
	instr ssa.Instruction
	com   *ssa.CallCommon
	name  string
	fnT   *Term
	args  []*Term // receiver first
	typ   types.Type
	pan   *Term
	recov *bool
	guard bool // a deferred recover protects the caller
}

type model func(x *Exec, cs *callSite) []callOut

func newExec(w *World) *Exec {
	x := &Exec{w: w, ctxIDs: w.ctxIDs, siteIDs: w.siteIDs, instIDs: w.instIDs, intr: map[int][]zedge{},
		opaque: map[string]bool{}, pureOpaque: map[string]bool{}, models: map[string]model{}, visited: map[*ssa.Function]bool{}, graphs: map[*pnode[zedge]]*zgraph{}, extCalls: map[string]int{}, maxSteps: 6000000}
	return x
}

func intern(m map[string]int, k string) int {
	if v, ok := m[k]; ok {
		return v
	}
	m[k] = len(m) + 1
	return m[k]
}

func (x *Exec) undecided(format string, a ...any) {
	m := fmt.Sprintf(format, a...)
	for _, u := range x.undec {
		if u == m {
			return
		}
	}
	x.undec = append(x.undec, m)
}

func (x *Exec) oblige(fr *Frame, instr ssa.Instruction, kind, what string, ok bool, st *State, why string) {
	if x.quiet > 0 {
		return
	}
	if !ok && (fr.guarded || hasRecoverDefer(x.curDefers)) {
		ok = true // a panic here is recovered
	}
	r := obRec{kind: kind, fn: fnName(fr.fn), what: what, ok: ok, pos: instrPos(instr, fr.fn)}
	if !ok {
		if os.Getenv("VTDEBUG") == "ob" {
			fmt.Printf("FAILED %s %s %s\n%s\n", kind, r.fn, what, st.dump())
		}
		r.why = why
		r.path = fr.callPath()
	}
	x.obs = append(x.obs, r)
}

func (fr *Frame) callPath() string {
	var p []string
	for f := fr; f != nil; f = f.parent {
		p = append(p, fnName(f.fn))
	}
	for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
		p[i], p[j] = p[j], p[i]
	}
	return strings.Join(p, " -> ")
}

func fnName(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, "github.com/youthlin/t", "t")
	return s
}

func instrPos(i ssa.Instruction, fn *ssa.Function) token.Pos {
	if i != nil {
		if p := i.Pos(); p.IsValid() {
			return p
		}
		for _, o := range i.Operands(nil) {
			if *o != nil && (*o).Pos().IsValid() {
				return (*o).Pos()
			}
		}
	}
	if fn != nil {
		return fn.Pos()
	}
	return token.NoPos
}

// fresh makes the key of a value created at a site of the current activation.
func (x *Exec) freshKey(fr *Frame, st *State, instr ssa.Instruction, what string) string {
	ctx := -1
	if fr != nil {
		ctx = fr.ctx
	}
	id := intern(x.siteIDs, fmt.Sprintf("%d|%p|%s", ctx, instr, what))
	n, _ := st.counters.Get(id)
	st.counters = st.counters.Set(id, n+1)
	if n == 0 {
		return fmt.Sprintf("%d", id)
	}
	return fmt.Sprintf("%d.%d", id, n)
}

func (x *Exec) own() []int { return append([]int{}, x.loops...) }

func (x *Exec) freshSym(fr *Frame, st *State, instr ssa.Instruction, name string, typ types.Type) *Term {
	return mk(Term{op: OSym, s: name + "'" + x.freshKey(fr, st, instr, name), typ: typ, owners: x.own()})
}

func (x *Exec) alloc(fr *Frame, st *State, instr ssa.Instruction, what string, typ types.Type) *Term {
	return mk(Term{op: OAlloc, s: what + "@" + x.freshKey(fr, st, instr, "alloc"), typ: typ, owners: x.own()})
}

func (x *Exec) icall(fr *Frame, st *State, instr ssa.Instruction, name string, typ types.Type, args []*Term) *Term {
	return mk(Term{op: OICall, s: name + "#" + x.freshKey(fr, st, instr, name), args: args, typ: typ, owners: x.own()})
}

// ---- memory ----

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func classOf(addr *Term, vt types.Type) string {
	switch addr.op {
	case OField:
		return fmt.Sprintf("F%d.%d", typeID(addr.typ), addr.i)
	case OIndex:
		return fmt.Sprintf("E%d", typeID(addr.typ))
	case OGlobal:
		return "G" + addr.s
	}
	return fmt.Sprintf("P%d", typeID(vt))
}

var classIDs = map[string]int{}
var classNames []string

func classID(c string) int {
	if id, ok := classIDs[c]; ok {
		return id
	}
	classIDs[c] = len(classIDs) + 1
	classNames = append(classNames, c)
	return classIDs[c]
}

func rootOf(addr *Term) *Term {
	for {
		switch addr.op {
		case OField, OIndex:
			addr = addr.args[0]
		case OSlice:
			addr = addr.args[0]
		case OConv:
			if len(addr.args) == 1 {
				addr = addr.args[0]
				continue
			}
			return addr
		default:
			return addr
		}
	}
}

func isFreshRoot(t *Term) bool {
	return t.op == OAlloc || t.op == OMkSlice || t.op == OAppend
}

var epoch0 = kSym("e0", nil)

func (s *State) epoch(c string) *Term {
	if e, ok := s.epochs.Get(classID(c)); ok {
		return e
	}
	return epoch0
}

func (x *Exec) initTerm(s *State, addr *Term, vt types.Type) *Term {
	e := s.epoch(classOf(addr, vt))
	if x.frozen != nil && rootOf(addr).op != OAlloc && x.isFrozen(addr) {
		e = epoch0
	}
	args := []*Term{addr, e}
	if r := rootOf(addr); r.op == OAlloc {
		if own, ok := s.epochs.Get(classID("A" + fmt.Sprint(r.id))); ok {
			args = append(args, own)
		}
	}
	return mk(Term{op: OInit, args: args, typ: vt})
}

// isFrozen: addr lies in memory that is never written (the rule that says so
// must prove it).
func (x *Exec) isFrozen(addr *Term) bool {
	if addr.typ != nil && x.frozen(addr.typ) {
		return true
	}
	return addr.op == OIndex && addr.args[0].op == OInit && x.isFrozen(addr.args[0].args[0])
}

// load reads the value at addr.
// maxArray: arrays up to this length are values element by element.
const maxArray = 64

func mkArrayElem(v, i *Term, et types.Type) *Term {
	if v.op == OCall && v.s == "array" {
		if k, ok := i.intVal(); ok && k >= 0 && int(k) < len(v.args) {
			return v.args[k]
		}
	}
	if v.op == OCall && v.s == "zero" {
		return zeroOf(et)
	}
	return mkCall("arrayelem", et, v, i)
}

func (x *Exec) load(s *State, addr *Term, vt types.Type) *Term {
	if st, ok := vt.Underlying().(*types.Struct); ok {
		fs := make([]*Term, st.NumFields())
		for i := range fs {
			fs[i] = x.load(s, mkField(addr, vt, i), st.Field(i).Type())
		}
		return mkStruct(vt, fs)
	}
	if at, ok := vt.Underlying().(*types.Array); ok {
		if at.Len() > maxArray {
			x.undecided("an array of %d elements is copied", at.Len())
			return kSym("array", vt)
		}
		fs := make([]*Term, at.Len())
		for i := range fs {
			fs[i] = x.load(s, mkIndexAddr(addr, kInt(int64(i)), at.Elem()), at.Elem())
		}
		return mkCall("array", vt, fs...)
	}
	if v, ok := s.cells.Get(addr.id); ok {
		return v
	}
	if addr.op == OGlobal {
		if v := x.w.globalConst(addr, x); v != nil {
			return v
		}
		return x.initTerm(s, addr, vt)
	}
	if addr.op == OIndex {
		if v := x.loadElem(s, addr.args[0], addr.args[1], vt); v != nil {
			return v
		}
	}
	if addr.op == OField {
		// field of a struct element: element value known functionally
		if b := addr.args[0]; b.op == OIndex {
			if v := x.loadElemStruct(s, b); v != nil {
				return mkFieldV(v, addr.i, vt, addr.typ)
			}
		}
	}
	if varIndex(addr) || hasIndex(addr) {
		clash := false
		s.cells.Each(func(k int, _ *Term) {
			if o := terms[k-1]; o.op == addr.op && o != addr && x.mayAlias(s, addr, o) {
				clash = true
			}
		})
		if clash {
			return x.initTerm(s, addr, vt)
		}
	}
	if r := rootOf(addr); r.op == OAlloc {
		if _, havoc := s.epochs.Get(classID("A" + fmt.Sprint(r.id))); !havoc && !x.classHavocSince(s, r, classOf(addr, vt)) && x.zeroFilled(addr) {
			return zeroOf(vt)
		}
	}
	return x.initTerm(s, addr, vt)
}

func hasIndex(addr *Term) bool {
	for addr.op == OField || addr.op == OIndex {
		if addr.op == OIndex {
			return true
		}
		addr = addr.args[0]
	}
	return false
}

// zeroFilled: every component on the way from the allocation is by value.
func (x *Exec) zeroFilled(addr *Term) bool {
	for addr.op == OField || addr.op == OIndex {
		addr = addr.args[0]
	}
	return addr.op == OAlloc
}

// classHavocSince: conservative — a class whose epoch moved may have been
// written through an alias of an escaped allocation.
func (x *Exec) classHavocSince(s *State, r *Term, class string) bool {
	if _, ok := s.epochs.Get(classID(class)); !ok {
		return false
	}
	_, esc := s.escaped.Get(r.id)
	return esc
}

// loadElem resolves elements of functional slices (append chains, spreads).
func (x *Exec) loadElem(s *State, base, idx *Term, vt types.Type) *Term {
	if base.op == OMkSlice {
		if _, ok := s.epochs.Get(classID(fmt.Sprintf("E%d", typeID(vt)))); !ok {
			return zeroOf(vt)
		}
		return nil
	}
	if base.op != OAppend {
		return nil
	}
	if _, over := s.epochs.Get(classID("V" + fmt.Sprint(base.id))); over {
		return nil
	}
	n, ok := idx.intVal()
	if !ok {
		// last element: len-1
		d := linSub(linOf(mkLen(base)), linOf(idx))
		if len(d.v) == 0 && d.k == 1 {
			l := base.args[len(base.args)-1]
			if l.op != OSpread {
				return l
			}
		}
		return nil
	}
	bl, ok := mkLen(base.args[0]).intVal()
	if !ok {
		return nil
	}
	if n < bl {
		return x.load(s, mkIndexAddr(base.args[0], idx, vt), vt)
	}
	n -= bl
	for i, a := range base.args[1:] {
		if a.op == OSpread {
			return nil
		}
		if int64(i) == n {
			return a
		}
	}
	return nil
}

func (x *Exec) loadElemStruct(s *State, addr *Term) *Term {
	if addr.args[0].op != OAppend {
		return nil
	}
	return x.loadElem(s, addr.args[0], addr.args[1], addr.typ)
}

func (x *Exec) mayAlias(s *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op != b.op {
		return a.op != OField && b.op != OField && a.op != OIndex && b.op != OIndex && !(isFreshRoot(a) || isFreshRoot(b))
	}
	switch a.op {
	case OField:
		if a.i != b.i || !sameType(a.typ, b.typ) {
			return false
		}
		return x.mayAliasBase(s, a.args[0], b.args[0])
	case OIndex:
		if a.args[0] == b.args[0] {
			v, known := x.truth(s, mkEq(a.args[1], b.args[1]))
			return !known || v
		}
		return x.mayAliasBase(s, a.args[0], b.args[0])
	}
	return x.mayAliasBase(s, a, b)
}

func (x *Exec) mayAliasBase(s *State, a, b *Term) bool {
	if a == b {
		return true
	}
	ra, rb := rootOf(a), rootOf(b)
	if ra == rb && a.op == b.op && (a.op == OIndex || a.op == OField) {
		return x.mayAlias(s, a, b)
	}
	if isFreshRoot(ra) && isFreshRoot(rb) && ra != rb {
		return ra.op == OAppend || rb.op == OAppend
	}
	if isFreshRoot(ra) && ra.op == OAlloc {
		if _, esc := s.escaped.Get(ra.id); !esc {
			return ra == rb
		}
	}
	if isFreshRoot(rb) && rb.op == OAlloc {
		if _, esc := s.escaped.Get(rb.id); !esc {
			return ra == rb
		}
	}
	if ra.op == OGlobal && rb.op == OGlobal {
		return ra == rb
	}
	if v, known := x.truth(s, mkEq(a, b)); known && !v {
		return false
	}
	return true
}

// store writes v at addr.
func (x *Exec) store(fr *Frame, s *State, addr, v *Term, vt types.Type, instr ssa.Instruction) {
	if st, ok := vt.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			x.store(fr, s, mkField(addr, vt, i), mkFieldV(v, i, ft, vt), ft, instr)
		}
		return
	}
	if at, ok := vt.Underlying().(*types.Array); ok {
		if at.Len() > maxArray {
			x.undecided("an array of %d elements is copied in %s", at.Len(), fnName(fr.fn))
			return
		}
		for i := int64(0); i < at.Len(); i++ {
			x.store(fr, s, mkIndexAddr(addr, kInt(i), at.Elem()), mkArrayElem(v, kInt(i), at.Elem()), at.Elem(), instr)
		}
		return
	}
	root := rootOf(addr)
	local := root.op == OAlloc
	if local {
		_, esc := s.escaped.Get(root.id)
		local = !esc
	}
	if !local {
		x.escape(s, v)
	}
	if !local || varIndex(addr) {
		// other cells of the same class may be the same location
		class := classOf(addr, vt)
		var hit []int
		s.cells.Each(func(k int, _ *Term) {
			o := terms[k-1]
			if o != addr && o.op == addr.op && x.mayAlias(s, addr, o) {
				hit = append(hit, k)
			}
		})
		if addr.op != OGlobal {
			e := mk(Term{op: OSym, s: "e" + x.freshKey(fr, s, instr, "epoch"), owners: x.own()})
			s.epochs = s.epochs.Set(classID(class), e)
		}
		for _, k := range hit {
			o := terms[k-1]
			ov, _ := s.cells.Get(k)
			_ = ov
			s.cells = s.cells.Set(k, x.initTerm(s, o, vt))
		}
	}
	if addr.op == OIndex && isByte(vt) {
		r := rootOf(addr)
		x.newContent(fr, s, instr, r)
		if !isFreshRoot(r) {
			var ks []int
			s.cells.Each(func(k int, _ *Term) {
				if c := terms[k-1]; c.op == OCall && c.s == "content" && !isFreshRoot(c.args[0]) {
					ks = append(ks, k)
				}
			})
			for _, k := range ks {
				x.newContent(fr, s, instr, terms[k-1].args[0])
			}
		}
	}
	s.cells = s.cells.Set(addr.id, v)
	if x.quiet == 0 || true {
		s.add(&Event{kind: "store", args: []*Term{addr, v}, pos: instrPos(instr, fr.fn), fn: fnName(fr.fn)})
	}
}

// varIndex: the address involves an element at an unknown position.
func varIndex(addr *Term) bool {
	for addr.op == OField || addr.op == OIndex {
		if addr.op == OIndex {
			if _, ok := addr.args[1].intVal(); !ok {
				return true
			}
		}
		addr = addr.args[0]
	}
	return false
}

// escape marks the allocations reachable from v as known to the outside.
func (x *Exec) escape(s *State, v *Term) {
	v.mentions(func(t *Term) bool {
		if t.op == OAlloc {
			if _, ok := s.escaped.Get(t.id); !ok {
				s.escaped = s.escaped.Set(t.id, true)
				s.cells.Each(func(k int, c *Term) {
					if rootOf(terms[k-1]) == t {
						x.escape(s, c)
					}
				})
			}
		}
		return false
	})
}

// havocAddr forgets the content of one object.
func (x *Exec) havocAddr(fr *Frame, s *State, addr *Term, vt types.Type, instr ssa.Instruction, name string) {
	switch u := vt.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			x.havocAddr(fr, s, mkField(addr, vt, i), u.Field(i).Type(), instr, name+"."+u.Field(i).Name())
		}
	case *types.Slice:
		// reading into *[]T fills the elements of the slice it holds
		sl := x.load(s, addr, vt)
		x.havocElems(fr, s, sl, u.Elem(), instr, name)
	default:
		s.cells = s.cells.Set(addr.id, x.freshSym(fr, s, instr, name, vt))
	}
}

func (x *Exec) havocElems(fr *Frame, s *State, sl *Term, et types.Type, instr ssa.Instruction, name string) {
	r := rootOf(sl)
	var hit []int
	s.cells.Each(func(k int, _ *Term) {
		if terms[k-1].op == OIndex && sameType(terms[k-1].typ, et) && rootOf(terms[k-1]) == r {
			hit = append(hit, k)
		}
	})
	for _, k := range hit {
		s.cells = s.cells.Del(k)
	}
	e := mk(Term{op: OSym, s: "e" + x.freshKey(fr, s, instr, "epoch"), owners: x.own()})
	s.epochs = s.epochs.Set(classID(fmt.Sprintf("E%d", typeID(et))), e)
	s.overwritten(sl, e)
	// content version used by string([]byte) conversions
	x.newContent(fr, s, instr, r)
}

// overwritten: the elements of a slice are not those it was made with.
func (s *State) overwritten(sl *Term, e *Term) {
	for {
		switch sl.op {
		case OAppend:
			s.epochs = s.epochs.Set(classID("V"+fmt.Sprint(sl.id)), e)
			sl = sl.args[0]
			continue
		case OSlice, OIndex, OField:
			sl = sl.args[0]
			continue
		case OAlloc:
			s.epochs = s.epochs.Set(classID("A"+fmt.Sprint(sl.id)), e)
		}
		return
	}
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// newContent: the bytes of a slice are not known any more.
func (x *Exec) newContent(fr *Frame, s *State, instr ssa.Instruction, r *Term) {
	s.cells = s.cells.Set(contentAddr(r).id, x.freshSym(fr, s, instr, "content", tStr))
}

// contentAddr names the "text" of a byte slice.
func contentAddr(sl *Term) *Term {
	return mk(Term{op: OCall, s: "content", args: []*Term{rootOf(sl)}, typ: tStr})
}

// ---- loops of a function ----

type fnInfo struct {
	rpo    map[*ssa.BasicBlock]int
	loops  map[*ssa.BasicBlock]*Loop // by header
	inLoop map[*ssa.BasicBlock]*Loop // innermost
}

// Loop is a natural loop.
type Loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

func (w *World) info(fn *ssa.Function) *fnInfo {
	if i, ok := w.fnInfos[fn]; ok {
		return i
	}
	i := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*Loop{}}
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover] {
		dfs(fn.Recover)
	}
	for k, b := range post {
		i.rpo[b] = len(post) - k
	}
	for b := range seen {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := i.loops[s]
				if l == nil {
					l = &Loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					i.loops[s] = l
				}
				var up func(b *ssa.BasicBlock)
				up = func(b *ssa.BasicBlock) {
					if l.body[b] {
						return
					}
					l.body[b] = true
					for _, p := range b.Preds {
						up(p)
					}
				}
				up(b)
			}
		}
	}
	// order: RPO where loop exits come after the whole loop body
	// (needed so that every predecessor state arrives before a block runs)
	w.fnInfos[fn] = i
	return i
}

// ---- calls into repository functions ----

func (x *Exec) callFn(parent *Frame, st *State, fn *ssa.Function, args, binds []*Term, instr ssa.Instruction, pan *Term, recov *bool, guarded bool) []callOut {
	pctx := 0
	if parent != nil {
		pctx = parent.ctx
	}
	fr := &Frame{fn: fn, ctx: intern(x.ctxIDs, fmt.Sprintf("%d|%p|%p", pctx, instr, fn)), binds: binds, info: x.w.info(fn), parent: parent, guarded: guarded}
	x.visited[fn] = true
	x.stack = append(x.stack, fn)
	x.stackArgs = append(x.stackArgs, args)
	defer func() { x.stack, x.stackArgs = x.stack[:len(x.stack)-1], x.stackArgs[:len(x.stackArgs)-1] }()
	c := cur{st: st, pan: pan, recov: recov}
	for i, p := range fn.Params {
		c.env = c.env.Set(x.w.valID(p), args[i])
	}
	for i, f := range fn.FreeVars {
		c.env = c.env.Set(x.w.valID(f), binds[i])
	}
	outs := x.runRegion(fr, nil, fn.Blocks[0], []cur{c})
	var res []callOut
	for _, o := range outs {
		switch o.kind {
		case oRet:
			var r *Term
			if len(o.res) == 1 {
				r = o.res[0]
			} else {
				r = mkTuple(o.res...)
			}
			res = append(res, callOut{st: o.c.st, res: r, kind: oRet})
		case oExit:
			res = append(res, callOut{st: o.c.st, kind: oExit})
		case oPanic:
			res = append(res, x.unwind(fr, o)...)
		}
	}
	return res
}

// unwind runs the deferred calls of a panicking activation.
func (x *Exec) unwind(fr *Frame, o outcome) []callOut {
	rec := false
	cs := []cur{o.c}
	var out []callOut
	first := o.c
	for d := first.defers; d != nil; d = d.prev {
		var next []cur
		for _, c := range cs {
			site := *d.site
			site.st = c.st
			site.pan = o.pv
			site.recov = &rec
			for _, r := range x.invoke(&site) {
				if r.kind == oRet {
					c2 := c
					c2.st = r.st
					next = append(next, c2)
				} else {
					out = append(out, r)
				}
			}
		}
		cs = next
	}
	for _, c := range cs {
		if !rec {
			out = append(out, callOut{st: c.st, kind: oPanic, pv: o.pv})
			continue
		}
		if fr.fn.Recover == nil {
			r := zeroOf(fr.fn.Signature.Results())
			if fr.fn.Signature.Results().Len() == 1 {
				r = r.args[0]
			}
			out = append(out, callOut{st: c.st, kind: oRet, res: r})
			continue
		}
		c.defers = nil
		for _, q := range x.runRegion(fr, nil, fr.fn.Recover, []cur{c}) {
			if q.kind == oRet {
				r := mkTuple(q.res...)
				if len(q.res) == 1 {
					r = q.res[0]
				}
				out = append(out, callOut{st: q.c.st, kind: oRet, res: r})
			}
		}
	}
	return out
}

// ---- regions ----

func (x *Exec) runRegion(fr *Frame, L *Loop, start *ssa.BasicBlock, entry []cur) []outcome {
	pending := map[*ssa.BasicBlock][]cur{}
	pending[start] = entry
	var outs []outcome
	first := true
	pick := func() *ssa.BasicBlock {
		// a block may run once no other pending block can still reach it inside the region
		var best *ssa.BasicBlock
		for b := range pending {
			if best == nil || fr.info.rpo[b] < fr.info.rpo[best] {
				best = b
			}
		}
		return best
	}
	route := func(c cur, from, to *ssa.BasicBlock) {
		c.pred = from
		if L != nil && to == L.header {
			outs = append(outs, outcome{kind: oBack, c: c, to: to})
			return
		}
		if L != nil && !L.body[to] {
			outs = append(outs, outcome{kind: oEdge, c: c, to: to})
			return
		}
		pending[to] = append(pending[to], c)
	}
	for len(pending) > 0 {
		b := pick()
		cs := pending[b]
		delete(pending, b)
		isStart := first && b == start
		first = false
		if il := fr.info.loops[b]; il != nil && !(L != nil && b == L.header) {
			for _, c := range cs {
				for _, o := range x.runLoop(fr, il, c) {
					if o.kind == oEdge {
						route(o.c, o.c.pred, o.to)
					} else {
						outs = append(outs, o)
					}
				}
			}
			continue
		}
		if len(cs) > 1 {
			cs = x.dedupe(fr, b, cs)
		}
		for _, c := range cs {
			x.execBlock(fr, b, c, isStart && L != nil, func(o outcome) {
				if o.kind == oEdge {
					route(o.c, b, o.to)
				} else {
					outs = append(outs, o)
				}
			})
		}
	}
	return outs
}

// dedupe drops states that agree on everything that can still be observed.
func (x *Exec) dedupe(fr *Frame, b *ssa.BasicBlock, cs []cur) []cur { return cs }

func (x *Exec) phis(fr *Frame, b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, i := range b.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, p)
	}
	return r
}

func predIndex(b, pred *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == pred {
			return i
		}
	}
	return -1
}

func (x *Exec) execBlock(fr *Frame, b *ssa.BasicBlock, c cur, phisBound bool, emit func(outcome)) {
	c.st = c.st.clone()
	start := 0
	if ps := x.phis(fr, b); len(ps) > 0 {
		start = len(ps)
		if !phisBound {
			i := predIndex(b, c.pred)
			vals := make([]*Term, len(ps))
			for k, p := range ps {
				vals[k] = x.val(fr, c, p.Edges[i])
			}
			for k, p := range ps {
				c.env = c.env.Set(x.w.valID(p), vals[k])
			}
		}
	}
	x.execInstrs(fr, b, start, c, emit)
}

func (x *Exec) execInstrs(fr *Frame, b *ssa.BasicBlock, at int, c cur, emit func(outcome)) {
	for i := at; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > x.maxSteps {
			x.undecided("analysis budget exhausted in %s", fnName(fr.fn))
			return
		}
		instr := b.Instrs[i]
		x.curDefers = c.defers
		switch instr := instr.(type) {
		case *ssa.Jump:
			emit(outcome{kind: oEdge, c: c, to: b.Succs[0]})
			return
		case *ssa.If:
			cond := x.val(fr, c, instr.Cond)
			t, f := c, c
			t.st, f.st = c.st.clone(), c.st
			okT := x.assume(t.st, cond, true)
			okF := x.assume(f.st, cond, false)
			if okT && okF {
				if n := len(x.watch); n > 0 && x.watch[n-1].fr == fr && x.watch[n-1].header == b {
					x.watch[n-1].undecided = true
					return
				}
			}
			if okT {
				emit(outcome{kind: oEdge, c: t, to: b.Succs[0]})
			}
			if okF {
				emit(outcome{kind: oEdge, c: f, to: b.Succs[1]})
			}
			return
		case *ssa.Return:
			var res []*Term
			for _, r := range instr.Results {
				res = append(res, x.val(fr, c, r))
			}
			emit(outcome{kind: oRet, c: c, res: res})
			return
		case *ssa.Panic:
			v := x.val(fr, c, instr.X)
			x.oblige(fr, instr, "panic", "explicit panic", x.recovered(fr, c), c.st, "reachable panic("+v.String()+")")
			c.st.add(&Event{kind: "panic", args: []*Term{v}, pos: instr.Pos(), fn: fnName(fr.fn)})
			emit(outcome{kind: oPanic, c: c, pv: v})
			return
		case *ssa.RunDefers:
			outs := x.runDefers(fr, c, emit)
			for _, o := range outs {
				x.execInstrs(fr, b, i+1, o, emit)
			}
			return
		case *ssa.Call:
			cs := x.site(fr, c, instr, instr.Common())
			outs := x.invoke(cs)
			if len(outs) == 1 && outs[0].kind == oRet {
				c.st = outs[0].st
				c.env = c.env.Set(x.w.valID(instr), outs[0].res)
				continue
			}
			for _, o := range outs {
				c2 := c
				c2.st = o.st
				switch o.kind {
				case oRet:
					c2.env = c.env.Set(x.w.valID(instr), o.res)
					x.execInstrs(fr, b, i+1, c2, emit)
				case oPanic:
					emit(outcome{kind: oPanic, c: c2, pv: o.pv})
				default:
					emit(outcome{kind: oExit, c: c2})
				}
			}
			return
		case *ssa.Defer:
			cs := x.site(fr, c, instr, instr.Common())
			c.defers = &deferNode{c.defers, cs}
			c.st.add(&Event{kind: "defer", name: cs.name, args: cs.args, pos: instr.Pos(), fn: fnName(fr.fn)})
			continue
		case *ssa.Go:
			cs := x.site(fr, c, instr, instr.Common())
			c.st.add(&Event{kind: "go", name: cs.name, args: cs.args, pos: instr.Pos(), fn: fnName(fr.fn)})
			x.undecided("go statement in %s", fnName(fr.fn))
			continue
		case *ssa.Lookup:
			outs := x.lookup(fr, c, instr)
			if len(outs) == 1 {
				c = outs[0]
				continue
			}
			for _, o := range outs {
				x.execInstrs(fr, b, i+1, o, emit)
			}
			return
		default:
			outs := x.step(fr, c, instr)
			if len(outs) == 1 {
				c = outs[0]
				continue
			}
			for _, o := range outs {
				x.execInstrs(fr, b, i+1, o, emit)
			}
			return
		}
	}
}

// recovered: a deferred recover() is active in this activation or a caller.
func (x *Exec) recovered(fr *Frame, c cur) bool {
	return fr.guarded || hasRecoverDefer(c.defers)
}

func hasRecoverDefer(d *deferNode) bool {
	for ; d != nil; d = d.prev {
		if f := d.site.fnT; f != nil && (f.op == OClosure || f.op == OFunc) {
			fn := f.obj.(*ssa.Function)
			if len(fn.Blocks) > 0 && len(fn.Blocks[0].Instrs) > 0 {
				for _, i := range fn.Blocks[0].Instrs {
					if call, ok := i.(*ssa.Call); ok {
						if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "recover" {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (x *Exec) runDefers(fr *Frame, c cur, emit func(outcome)) []cur {
	cs := []cur{c}
	for d := c.defers; d != nil; d = d.prev {
		var next []cur
		for _, c := range cs {
			site := *d.site
			site.st = c.st
			for _, r := range x.invoke(&site) {
				c2 := c
				c2.st = r.st
				switch r.kind {
				case oRet:
					next = append(next, c2)
				case oPanic:
					c2.defers = d.prev
					emit(outcome{kind: oPanic, c: c2, pv: r.pv})
				default:
					emit(outcome{kind: oExit, c: c2})
				}
			}
		}
		cs = next
	}
	for i := range cs {
		cs[i].defers = nil
	}
	return cs
}

// val evaluates an operand.
func (x *Exec) val(fr *Frame, c cur, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroOf(v.Type())
		}
		return kConst(v.Value, v.Type())
	case *ssa.Global:
		return mkGlobal(v)
	case *ssa.Function:
		return mkFunc(v)
	case *ssa.Builtin:
		return kSym("builtin "+v.Name(), nil)
	}
	if t, ok := c.env.Get(x.w.valID(v)); ok {
		return t
	}
	x.undecided("value %s of %s has no abstract value", v.Name(), fnName(fr.fn))
	return kSym("undef "+v.Name(), v.Type())
}

// ---- SSA loops ----

func (x *Exec) runLoop(fr *Frame, L *Loop, entry cur) []outcome {
	ps := x.phis(fr, L.header)
	i := predIndex(L.header, entry.pred)
	vals := make([]*Term, len(ps))
	for k, p := range ps {
		vals[k] = x.val(fr, entry, p.Edges[i])
	}
	if outs, ok := x.unroll(fr, L, entry, ps, vals); ok {
		return outs
	}
	var names []string
	var typs []types.Type
	for _, p := range ps {
		n := p.Comment
		if n == "" {
			n = p.Name()
		}
		names = append(names, n)
		typs = append(typs, p.Type())
	}
	entry.st = entry.st.clone()
	inst := intern(x.instIDs, "loop|"+x.freshKey(fr, entry.st, L.header.Instrs[0], "loop"))
	body := func(st *State, phis []*Term) ([]*BackIter, []outcome) {
		c := entry
		c.st = st
		for k, p := range ps {
			c.env = c.env.Set(x.w.valID(p), phis[k])
		}
		var backs []*BackIter
		var exits []outcome
		for _, o := range x.runRegion(fr, L, L.header, []cur{c}) {
			if o.kind == oBack {
				j := predIndex(L.header, o.c.pred)
				b := &BackIter{st: o.c.st, trace: o.c.st.trace}
				for _, p := range ps {
					b.phis = append(b.phis, x.val(fr, o.c, p.Edges[j]))
				}
				if o.c.defers != entry.defers {
					x.undecided("defer inside a loop of %s", fnName(fr.fn))
				}
				backs = append(backs, b)
			} else {
				exits = append(exits, o)
			}
		}
		return backs, exits
	}
	enums := map[string]bool{}
	for k, p := range ps {
		if enumeration(p) {
			enums["p"+fmt.Sprint(k)] = true
		}
	}
	x.enums = enums
	outs, m := x.fixpoint(fnName(fr.fn), inst, entry.st, vals, names, typs, body)
	if m != nil {
		m.loop, m.names, m.typs = L, names, typs
		if x.quiet == 0 {
			x.marks = append(x.marks, m)
		}
	}
	return outs
}

func (x *Exec) unroll(fr *Frame, L *Loop, entry cur, ps []*ssa.Phi, vals []*Term) ([]outcome, bool) {
	last := L.header.Instrs[len(L.header.Instrs)-1]
	if _, ok := last.(*ssa.If); !ok {
		return nil, false
	}
	if L.body[L.header.Succs[0]] && L.body[L.header.Succs[1]] {
		return nil, false
	}
	// Next() on an unknown map or string never decides
	mark, undecMark, loopMark, recMark := len(x.obs), len(x.undec), len(x.marks), len(x.recs)
	forget := func() {
		x.obs, x.undec, x.marks, x.recs = x.obs[:mark], x.undec[:undecMark], x.marks[:loopMark], x.recs[:recMark]
	}
	w := &watch{fr: fr, header: L.header}
	x.watch = append(x.watch, w)
	defer func() { x.watch = x.watch[:len(x.watch)-1] }()
	type it struct {
		c    cur
		vals []*Term
	}
	work := []it{{entry, vals}}
	var outs []outcome
	for n := 0; len(work) > 0; n++ {
		if n > 40 || len(work) > 64 {
			forget()
			return nil, false
		}
		var next []it
		for _, w0 := range work {
			c := w0.c
			c.st = c.st.clone()
			for k, p := range ps {
				c.env = c.env.Set(x.w.valID(p), w0.vals[k])
			}
			for _, o := range x.runRegion(fr, L, L.header, []cur{c}) {
				if w.undecided {
					forget()
					return nil, false
				}
				if o.kind == oBack {
					j := predIndex(L.header, o.c.pred)
					var vs []*Term
					for _, p := range ps {
						vs = append(vs, x.val(fr, o.c, p.Edges[j]))
					}
					next = append(next, it{o.c, vs})
				} else {
					outs = append(outs, o)
				}
			}
			if w.undecided {
				forget()
				return nil, false
			}
		}
		work = next
	}
	return outs, true
}

var debugLoops = os.Getenv("VTDEBUG") == "loop"

// ---- abstract loops ----

type invPart struct {
	key   string
	st    *State
	phis  []*Term
	joins int
	queue bool
}

type loopAbs struct {
	x        *Exec
	inst     int
	entry    *State
	vals     []*Term
	names    []string
	typs     []types.Type
	phiMode  []int       // 0 invariant, 1 partition, 2 general
	cellMode map[int]int // by address id
	cellTyp  map[int]types.Type
	mapG     map[int]bool
	epochG   map[int]bool
	consts   map[string]map[int]bool // observed partition constants
	enums    map[string]bool         // numbers that only take constants of the code
	pairs    map[[2]int]bool         // relations worth keeping
	newPairs bool
}

func (a *loopAbs) sym(kind, name string, typ types.Type) *Term {
	return mk(Term{op: OSym, s: fmt.Sprintf("%s%s·%d", kind, name, a.inst), typ: typ, owners: a.x.own()})
}

func partitionable(t types.Type) bool {
	if t == nil {
		return false
	}
	if isString(t) || isBoolean(t) {
		return true
	}
	// a named kind of number is an enumeration
	if _, ok := types.Unalias(t).(*types.Named); ok && isInteger(t) {
		return true
	}
	switch t.Underlying().(type) {
	case *types.Interface, *types.Pointer:
		return true
	}
	return false
}

// enumeration: the variable only ever holds one of the constants in its code.
func enumeration(p *ssa.Phi) bool {
	if !isInteger(p.Type()) {
		return false
	}
	seen := map[ssa.Value]bool{p: true}
	work := []ssa.Value{p}
	for len(work) > 0 {
		v := work[0]
		work = work[1:]
		switch v := v.(type) {
		case *ssa.Phi:
			for _, e := range v.Edges {
				if !seen[e] {
					seen[e] = true
					work = append(work, e)
				}
			}
		case *ssa.Const:
		default:
			return false
		}
	}
	return true
}

// class of a value for partitioning: a constant, nil, non-nil or unknown
func (a *loopAbs) class(s *State, v *Term) string {
	if v.isConst() {
		return "c" + fmt.Sprint(v.id)
	}
	if n := s.norm(v); n.isConst() {
		return "c" + fmt.Sprint(n.id)
	}
	if v.typ != nil && isBoolean(v.typ) {
		if b, k := a.x.truth(s, v); k {
			return "c" + fmt.Sprint(kBool(b).id)
		}
	}
	if a.x.isNilKnown(s, v) {
		return "c" + fmt.Sprint(kNil().id)
	}
	if a.x.nonNil(s, v) {
		return "nn"
	}
	return "?"
}

// startsEmpty: a counter or a list that the loop starts with at a constant or
// with nothing; for some rules it matters whether it is still that.
func (a *loopAbs) startsEmpty(ev *Term, typ types.Type) bool {
	if typ == nil || ev == nil {
		return false
	}
	if isInteger(typ) {
		return ev.isConst()
	}
	if _, ok := typ.Underlying().(*types.Slice); ok {
		return a.x.isNilKnown(a.entry, ev) || a.x.proveLE(a.entry, mkLen(ev), kInt(0), 0)
	}
	return false
}

// still: v is what the loop started with (1), certainly more (2) or unknown (0).
func (a *loopAbs) still(s *State, ev, v *Term) int {
	if s.norm(v) == a.entry.norm(ev) {
		return 1
	}
	one, zero := v, ev
	if !isInteger(v.typ) {
		if a.x.isNilKnown(s, v) {
			return 1
		}
		one, zero = mkLen(v), kInt(0)
	}
	if a.x.proveLE(s, zero, one, -1) {
		return 2
	}
	return 0
}

// grow extends the sets of varying things with what a back edge shows.
func (a *loopAbs) grow(b *BackIter) bool {
	x := a.x
	changed := false
	bump := func(mode int, key string, typ types.Type, ev, bv *Term) int {
		if mode == 2 {
			return 2
		}
		if mode == 0 && ev == bv && !bv.ownedBy(a.inst) {
			return 0
		}
		if x.partCounts && mode != 2 && a.startsEmpty(ev, typ) {
			return 3
		}
		if partitionable(typ) || a.enums[key] {
			cb := a.class(b.st, bv)
			ce := a.class(a.entry, ev)
			if !isString(typ) && !isInteger(typ) || (cb[0] == 'c' && ce[0] == 'c') {
				m := a.consts[key]
				if m == nil {
					m = map[int]bool{}
					a.consts[key] = m
				}
				if cb[0] == 'c' {
					var id int
					fmt.Sscan(cb[1:], &id)
					m[id] = true
				}
				if len(m) <= 10 {
					return 1
				}
			}
		}
		return 2
	}
	for i := range a.vals {
		m := bump(a.phiMode[i], "p"+fmt.Sprint(i), a.typs[i], a.vals[i], b.phis[i])
		if m != a.phiMode[i] {
			a.phiMode[i] = m
			changed = true
		}
	}
	visit := func(k int) {
		addr := terms[k-1]
		if addr.ownedBy(a.inst) {
			return
		}
		bv, ok := b.st.cells.Get(k)
		var vt types.Type
		if ok {
			vt = cellType(addr, bv)
		} else {
			ev, _ := a.entry.cells.Get(k)
			vt = cellType(addr, ev)
			bv = x.load(b.st, addr, vt)
		}
		ev := x.load(a.entry, addr, vt)
		m := bump(a.cellMode[k], "c"+fmt.Sprint(k), vt, ev, bv)
		if m != a.cellMode[k] {
			a.cellMode[k] = m
			a.cellTyp[k] = vt
			changed = true
		}
	}
	var ks []int
	b.st.cells.Each(func(k int, _ *Term) { ks = append(ks, k) })
	a.entry.cells.Each(func(k int, _ *Term) {
		if _, ok := b.st.cells.Get(k); !ok {
			ks = append(ks, k)
		}
	})
	sort.Ints(ks)
	for _, k := range ks {
		visit(k)
	}
	b.st.maps.Each(func(k int, m *mapSt) {
		if terms[k-1].ownedBy(a.inst) || a.mapG[k] {
			return
		}
		e, ok := a.entry.maps.Get(k)
		if ok && (e == m || e.empty == m.empty && e.ver == m.ver && e.writes == m.writes) {
			return
		}
		a.mapG[k] = true
		changed = true
	})
	b.st.epochs.Each(func(k int, e *Term) {
		if a.epochG[k] {
			return
		}
		if o, ok := a.entry.epochs.Get(k); !ok || o != e {
			a.epochG[k] = true
			changed = true
		}
	})
	b.st.escaped.Each(func(k int, _ bool) {
		if terms[k-1].ownedBy(a.inst) {
			return
		}
		if _, ok := a.entry.escaped.Get(k); !ok {
			a.entry = a.entry.clone()
			a.entry.escaped = a.entry.escaped.Set(k, true)
			changed = true
		}
	})
	return changed
}

// cellType finds the static type of the value stored at addr.
func cellType(addr, v *Term) types.Type {
	switch addr.op {
	case OField:
		if st, ok := addr.typ.Underlying().(*types.Struct); ok {
			return st.Field(addr.i).Type()
		}
	case OIndex:
		return addr.typ
	case OGlobal:
		return derefT(addr.typ)
	case OAlloc:
		if addr.typ != nil {
			return derefT(addr.typ)
		}
	}
	if v != nil && v.typ != nil {
		return v.typ
	}
	return tInt
}

// abstract maps a state at the loop head to its invariant shape.
func (a *loopAbs) abstract(s *State, phis []*Term) *invPart {
	x := a.x
	p := &invPart{}
	n := a.entry.clone()
	n.trace = nil
	// facts of s that do not depend on this iteration
	n.facts = PMap[bool]{}
	s.facts.Each(func(k int, b bool) {
		if !terms[k-1].ownedBy(a.inst) {
			n.facts = n.facts.Set(k, b)
		}
	})
	n.eqs = PMap[*Term]{}
	s.eqs.Each(func(k int, c *Term) {
		if !terms[k-1].ownedBy(a.inst) {
			n.eqs = n.eqs.Set(k, c)
		}
	})
	n.zone = PMap[zedge]{}
	s.zone.Each(func(k int, e zedge) {
		for _, v := range []int{e.a, e.b} {
			if v != 0 && terms[v-1].ownedBy(a.inst) {
				return
			}
		}
		n.zone = n.zone.Set(k, e)
	})
	n.gexprs = nil
	for g := s.gexprs; g != nil; g = g.prev {
		own := false
		for id := range g.l.v {
			if terms[id-1].ownedBy(a.inst) {
				own = true
			}
		}
		if !own {
			n.gexprs = &gexpr{n.gexprs, g.l}
		}
	}
	type ob struct {
		v   int // variable in the invariant
		old lin // its value in s
	}
	var obs []ob
	var keys []string
	place := func(mode int, name string, typ types.Type, v, ev *Term) *Term {
		if mode == 3 {
			c := a.still(s, ev, v)
			keys = append(keys, fmt.Sprint(name, "#", c))
			if c == 1 {
				return ev
			}
		}
		if mode == 1 {
			c := a.class(s, v)
			keys = append(keys, name+"="+c)
			if c[0] == 'c' {
				var id int
				fmt.Sscan(c[1:], &id)
				return terms[id-1]
			}
			if !v.ownedBy(a.inst) {
				// keep the identity of an invariant non-constant value out of the key: generalise
			}
			y := a.sym("φ", name, typ)
			if c == "nn" {
				n.facts = n.facts.Set(mkEq(y, kNil()).id, false)
			}
			return y
		}
		y := a.sym("φ", name, typ)
		switch {
		case isInteger(typ):
			obs = append(obs, ob{y.id, x.zl(s, v)})
			// a counter that moves by a small step cannot run through 2^62 values
			if id, k, ok := single(linOf(v)); ok && (id == 0 || id == y.id) && k > -1<<20 && k < 1<<20 {
				if b, ok := typ.Underlying().(*types.Basic); ok && (b.Kind() == types.Int || b.Kind() == types.Int64 || b.Kind() == types.Uint || b.Kind() == types.Uint64) {
					n.zone = n.zone.Set(zkey(y.id, 0), zedge{y.id, 0, 1 << 50})
					n.zone = n.zone.Set(zkey(0, y.id), zedge{0, y.id, 1 << 50})
				}
			}
		case isString(typ):
			obs = append(obs, ob{mkLen(y).id, x.zl(s, mkLen(v))})
		default:
			if _, ok := typ.Underlying().(*types.Slice); ok {
				obs = append(obs, ob{mkLen(y).id, x.zl(s, mkLen(v))})
			}
		}
		switch typ.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Map, *types.Signature:
			if x.nonNil(s, v) {
				n.facts = n.facts.Set(mkEq(y, kNil()).id, false)
			}
		}
		return y
	}
	for i, v := range phis {
		if a.phiMode[i] == 0 {
			p.phis = append(p.phis, a.vals[i])
			continue
		}
		p.phis = append(p.phis, place(a.phiMode[i], a.names[i]+fmt.Sprint(i), a.typs[i], v, a.vals[i]))
	}
	var ks []int
	for k, m := range a.cellMode {
		if m != 0 {
			ks = append(ks, k)
		}
	}
	sort.Ints(ks)
	for _, k := range ks {
		addr := terms[k-1]
		v := x.load(s, addr, a.cellTyp[k])
		ev, _ := a.entry.cells.Get(k)
		n.cells = n.cells.Set(k, place(a.cellMode[k], "["+fmt.Sprint(k)+"]", a.cellTyp[k], v, ev))
	}
	for k := range a.mapG {
		n.maps = n.maps.Set(k, &mapSt{ver: a.sym("ver", fmt.Sprint(k), nil)})
	}
	for k := range a.epochG {
		n.epochs = n.epochs.Set(k, a.sym("epoch", fmt.Sprint(k), nil))
	}
	// numeric relations between the generalised values, and with what stays fixed
	ov := map[int]bool{0: true}
	s.zone.Each(func(_ int, e zedge) {
		for _, v := range []int{e.a, e.b} {
			if v != 0 && !ov[v] && !terms[v-1].ownedBy(a.inst) {
				ov[v] = true
			}
		}
	})
	for p := range a.pairs {
		for _, v := range p {
			if v != 0 && !terms[v-1].ownedBy(a.inst) {
				ov[v] = true
			}
		}
	}
	var others []int
	for v := range ov {
		others = append(others, v)
	}
	sort.Ints(others)
	isObs := map[int]bool{}
	for _, o := range obs {
		isObs[o.v] = true
	}
	// set records p - q <= c; via is what the bounds of the two sides say anyway
	set := func(p, q int, c int64, via int64, hasVia bool) {
		if p == q || c > 1<<51 {
			return
		}
		k := zkey(p, q)
		if p != 0 && q != 0 {
			pr := [2]int{p, q}
			if !a.pairs[pr] {
				if hasVia && via <= c {
					return
				}
				if s != a.entry && len(a.pairs) < 400 {
					a.pairs[pr] = true
					a.newPairs = true
				}
			}
		}
		if e, ok := n.zone.Get(k); !ok || c < e.c {
			n.zone = n.zone.Set(k, zedge{p, q, c})
		}
	}
	for i, o := range obs {
		id, k, ok := single(o.old)
		if !ok {
			if b, ok := x.upperB(s, o.old); ok {
				set(o.v, 0, b, 0, false)
			}
			if b, ok := x.lower(s, o.old); ok {
				set(0, o.v, -b, 0, false)
			}
			continue
		}
		to := x.distTo(s, id, others)     // id - q <= c
		from := x.distFrom(s, id, others) // q - id <= c
		hi, hasHi := to[0]
		lo, hasLo := from[0]
		zt := x.distTo(s, 0, others)   // -q <= c
		zf := x.distFrom(s, 0, others) // q <= c
		for _, q := range others {
			if isObs[q] {
				continue
			}
			if c, ok := to[q]; ok {
				zq, okq := zt[q]
				set(o.v, q, c+k, hi+k+zq, hasHi && okq)
			}
			if c, ok := from[q]; ok {
				zq, okq := zf[q]
				set(q, o.v, c-k, lo-k+zq, hasLo && okq)
			}
		}
		for j, o2 := range obs {
			if j == i {
				continue
			}
			id2, k2, ok := single(o2.old)
			if !ok {
				continue
			}
			if id2 == id {
				set(o.v, o2.v, k-k2, 0, false)
			} else if c, ok := to[id2]; ok { // id - id2 <= c
				zq, okq := zt[id2]
				set(o.v, o2.v, c+k-k2, hi+zq+k-k2, hasHi && okq)
			}
		}
	}
	p.st = n
	p.key = strings.Join(keys, ";")
	return p
}

// distTo returns c with id - q <= c for all q; distFrom with q - id <= c.
func (x *Exec) distTo(s *State, id int, o []int) map[int]int64   { return x.distAll(s, id, true, o) }
func (x *Exec) distFrom(s *State, id int, o []int) map[int]int64 { return x.distAll(s, id, false, o) }

func (x *Exec) distAll(s *State, src int, rev bool, others []int) map[int]int64 {
	g := x.graph(s)
	for _, o := range others {
		g.addVar(o)
	}
	return g.paths(src, rev)
}

// join weakens q so that it covers p; reports a change.
func (a *loopAbs) join(q, p *invPart) bool {
	x := a.x
	changed := false
	var drop []int
	q.st.facts.Each(func(k int, b bool) {
		if v, known := x.truth(p.st, terms[k-1]); !known || v != b {
			drop = append(drop, k)
		}
	})
	for _, k := range drop {
		q.st.facts = q.st.facts.Del(k)
		changed = true
	}
	drop = nil
	q.st.eqs.Each(func(k int, c *Term) {
		if d, ok := p.st.eqs.Get(k); !ok || d != c {
			drop = append(drop, k)
		}
	})
	for _, k := range drop {
		q.st.eqs = q.st.eqs.Del(k)
		changed = true
	}
	var upd []zedge
	q.st.zone.Each(func(k int, e zedge) {
		d, ok := x.dist(p.st, e.a, e.b)
		if ok && d <= e.c {
			return
		}
		if ok && q.joins < 3 {
			upd = append(upd, zedge{e.a, e.b, d})
		} else if ok && d <= 1<<50 && (e.a == 0 || e.b == 0) {
			upd = append(upd, zedge{e.a, e.b, 1 << 50})
		} else {
			upd = append(upd, zedge{e.a, e.b, 1 << 62})
		}
	})
	for _, e := range upd {
		changed = true
		if e.c == 1<<62 {
			q.st.zone = q.st.zone.Del(zkey(e.a, e.b))
		} else {
			q.st.zone = q.st.zone.Set(zkey(e.a, e.b), e)
		}
	}
	var keep *gexpr
	ng, nk := 0, 0
	for g := q.st.gexprs; g != nil; g = g.prev {
		ng++
		if x.nonneg(p.st, g.l, 1) {
			keep = &gexpr{keep, g.l}
			nk++
		}
	}
	if nk != ng {
		q.st.gexprs = keep
		changed = true
	}
	if changed {
		q.joins++
	}
	return changed
}

func (x *Exec) fixpoint(name string, inst int, entry *State, vals []*Term, names []string, typs []types.Type, body func(*State, []*Term) ([]*BackIter, []outcome)) ([]outcome, *LoopMark) {
	x.loops = append(x.loops, inst)
	defer func() { x.loops = x.loops[:len(x.loops)-1] }()
	a := &loopAbs{x: x, inst: inst, entry: entry.clone(), vals: vals, names: names, typs: typs, phiMode: make([]int, len(vals)),
		cellMode: map[int]int{}, cellTyp: map[int]types.Type{}, mapG: map[int]bool{}, epochG: map[int]bool{}, consts: map[string]map[int]bool{}, enums: x.enums, pairs: map[[2]int]bool{}}
	x.enums = nil
	var order []*invPart
restart:
	for round := 0; ; round++ {
		if round > 80 {
			x.undecided("loop invariant of %s did not stabilise", name)
			return nil, nil
		}
		parts := map[string]*invPart{}
		order = nil
		addPart := func(p *invPart) {
			parts[p.key] = p
			order = append(order, p)
			p.queue = true
		}
		addPart(a.abstract(a.entry, vals))
		work := []*invPart{order[0]}
		n := 0
		for len(work) > 0 {
			if n++; n > 400 {
				x.undecided("loop invariant of %s did not stabilise", name)
				return nil, nil
			}
			p := work[0]
			work = work[1:]
			p.queue = false
			x.quiet++
			backs, _ := body(p.st.clone(), p.phis)
			x.quiet--
			grown := false
			for _, b := range backs {
				if a.grow(b) {
					grown = true
				}
			}
			if grown {
				continue restart
			}
			var qs []*invPart
			a.newPairs = false
			for _, b := range backs {
				qs = append(qs, a.abstract(b.st, b.phis))
			}
			if a.newPairs {
				continue restart
			}
			for _, q := range qs {
				if o := parts[q.key]; o != nil {
					if a.join(o, q) && !o.queue {
						o.queue = true
						work = append(work, o)
					}
				} else {
					if len(parts) > 40 {
						x.undecided("too many invariant partitions in %s", name)
						return nil, nil
					}
					addPart(q)
					work = append(work, q)
				}
			}
			if x.steps > x.maxSteps {
				return nil, nil
			}
		}
		break
	}
	mark := &LoopMark{name: name, inst: inst, inits: vals, entry: entry}
	var exits []outcome
	var exitPart []*LoopPart
	lps := map[string]*LoopPart{}
	if debugLoops {
		fmt.Printf("LOOP %s inst %d: %d parts\n", name, inst, len(order))
		for _, p := range order {
			fmt.Printf("  part %q phis %v\n%s\n", p.key, p.phis, p.st.dump())
		}
	}
	for _, p := range order {
		st := p.st.clone()
		st.trace = nil
		backs, ex := body(st, p.phis)
		lp := &LoopPart{init: p.st, phis: p.phis, backs: backs}
		lps[p.key] = lp
		mark.parts = append(mark.parts, lp)
		exits = append(exits, ex...)
		for range ex {
			exitPart = append(exitPart, lp)
		}
	}
	for _, p := range mark.parts {
		for _, b := range p.backs {
			b.to = lps[a.abstract(b.st, b.phis).key]
		}
	}
	evs := map[*LoopPart]*Event{}
	for _, p := range mark.parts {
		evs[p] = &Event{kind: "loop", name: name, loop: mark, part: p}
	}
	kept := exits[:0]
	for i := range exits {
		ev := evs[exitPart[i]]
		sub := exits[i].c.st.trace.events()
		st := exits[i].c.st.clone()
		st.trace = &Trace{entry.trace, ev}
		for _, e := range sub {
			st.trace = &Trace{st.trace, e}
		}
		if x.mapLoopFacts(mark, exitPart[i], entry, st, sub) {
			exits[i].c.st = st
			kept = append(kept, exits[i])
		}
	}
	return kept, mark
}

// collected: the lists that are empty before a loop and get one more element in
// every round, as they are when it is left.
func (x *Exec) collected(mark *LoopMark, exit *LoopPart, entry *State) []*Term {
	var out []*Term
	grows := func(st *State, old, now *Term) bool {
		now = st.norm(now)
		return now.op == OAppend && len(now.args) == 2 && st.norm(now.args[0]) == old && now.args[1].op != OSpread
	}
	empty := func(t *Term) bool {
		if t == nil || t.typ == nil && !t.isNil() {
			return false
		}
		n, k := x.truth(entry, mkEq(mkLen(t), kInt(0)))
		return t.isNil() || k && n
	}
	for k, v := range exit.phis {
		if v.typ == nil || k >= len(mark.inits) || v.op == OAppend {
			continue
		}
		if _, ok := v.typ.Underlying().(*types.Slice); !ok || !empty(mark.inits[k]) {
			continue
		}
		good := true
		for _, p := range mark.parts {
			for _, b := range p.backs {
				good = good && k < len(b.phis) && grows(b.st, p.phis[k], b.phis[k])
			}
		}
		if good {
			out = append(out, v)
		}
	}
	exit.init.cells.Each(func(k int, v *Term) {
		if v == nil || v.typ == nil {
			return
		}
		if _, ok := v.typ.Underlying().(*types.Slice); !ok {
			return
		}
		if was := x.load(entry, terms[k-1], v.typ); was == v || !empty(was) {
			return
		}
		for _, p := range mark.parts {
			old, _ := p.init.cells.Get(k)
			for _, b := range p.backs {
				now, _ := b.st.cells.Get(k)
				if old == nil || now == nil || !grows(b.st, old, now) {
					return
				}
			}
		}
		out = append(out, v)
	})
	return out
}

// mapLoopFacts: what running a range over a map to its end says about it. A
// loop that stores every (key, value) pair into an empty map has copied the
// map; a key every round differs from is not in it.
func (x *Exec) mapLoopFacts(mark *LoopMark, exit *LoopPart, entry, st *State, sub []*Event) bool {
	for _, e := range sub {
		if e.kind != "mapdone" || e.args[1] == nil {
			continue
		}
		ver := e.args[1]
		var differ map[*Term]bool
		copied, emptied := map[*Term]int{}, 0
		rounds, changed := 0, false
		for _, p := range mark.parts {
			for _, b := range p.backs {
				rounds++
				var it *Event
				deleted := false
				sets := map[*Term][]*Event{}
				for _, be := range b.trace.events() {
					switch be.kind {
					case "mapiter":
						if be.args[0] == e.args[0] {
							if it != nil {
								return true
							}
							it = be
						}
					case "mapset":
						sets[be.args[0]] = append(sets[be.args[0]], be)
					case "mapdel":
						sets[be.args[0]] = append(sets[be.args[0]], be, be)
						if it != nil && be.args[0] == e.args[0] && b.st.norm(be.args[1]) == b.st.norm(it.args[1]) {
							deleted = true
						}
					case "loop", "rec":
						return true
					}
				}
				if it == nil {
					return true
				}
				for d, w := range sets {
					if len(w) == 1 && b.st.norm(w[0].args[1]) == b.st.norm(it.args[1]) && b.st.norm(w[0].args[2]) == b.st.norm(it.args[2]) {
						copied[d]++
					}
				}
				if deleted && len(sets[e.args[0]]) == 2 {
					emptied++
				}
				mine := map[*Term]bool{}
				b.st.facts.Each(func(k int, v bool) {
					t := terms[k-1]
					if v || t.op != OEq {
						return
					}
					for i, a := range t.args {
						if a == it.args[1] && !t.args[1-i].ownedBy(mark.inst) {
							mine[t.args[1-i]] = true
						}
					}
				})
				if len(sets[e.args[0]]) > 0 {
					changed = true
					mine = nil // the map changes while it is walked
				}
				if differ == nil {
					differ = mine
				} else {
					for t := range differ {
						if !mine[t] {
							delete(differ, t)
						}
					}
				}
			}
		}
		for t := range differ {
			if !x.assume(st, mk(Term{op: OMapOk, args: []*Term{ver, t}, typ: tBool}), false) {
				return false
			}
		}
		for d, n := range copied {
			if n != rounds {
				continue
			}
			if ms, ok := entry.maps.Get(d.id); ok && ms.empty && ms.writes == nil {
				st.maps = st.maps.Set(d.id, &mapSt{ver: ver})
			}
		}
		if rounds > 0 && !changed {
			for _, l := range x.collected(mark, exit, entry) {
				if !x.assume(st, mkEq(mkLen(l), mkCall("maplen", tInt, ver)), true) {
					return false
				}
			}
		}
		if rounds > 0 && emptied == rounds {
			st.maps = st.maps.Set(e.args[0].id, &mapSt{empty: true})
		}
	}
	return true
}
