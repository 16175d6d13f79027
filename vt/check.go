package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Rule decides one property.
type Rule struct {
	id        string
	rule      string   // what is decided, in a sentence
	min       int      // obligations confirmed by hand on the reviewed tree
	assume    []string // what the verdict rests on
	run       func(c *Check)
	needPanic bool
}

var rules = map[string]*Rule{}

func register(r *Rule) { rules[r.id] = r }

type obligation struct {
	rule, construct, msg string
	pos                  token.Pos
	ok                   bool
	n                    int
}

// Check is one run of a rule.
type Check struct {
	w        *World
	r        *Rule
	tier     string
	obs      map[string]*obligation
	order    []string
	analysed map[string]bool
	exts     map[string]bool
	steps    int
	outs     int
	notes    []string
	hT       *handleT
}

func (c *Check) put(rule, construct string, ok bool, pos token.Pos, msg string) {
	k := rule + "|" + construct
	o := c.obs[k]
	if o == nil {
		o = &obligation{rule: rule, construct: construct, ok: true, pos: pos}
		c.obs[k] = o
		c.order = append(c.order, k)
	}
	o.n++
	if !ok && o.ok {
		o.ok, o.msg, o.pos = false, msg, pos
	}
}

func (c *Check) ok(rule, construct string, pos token.Pos) { c.put(rule, construct, true, pos, "") }

func (c *Check) fail(rule, construct string, pos token.Pos, format string, a ...any) {
	c.put(rule, construct, false, pos, fmt.Sprintf(format, a...))
}

func (c *Check) assert(cond bool, rule, construct string, pos token.Pos, format string, a ...any) {
	if cond {
		c.ok(rule, construct, pos)
	} else {
		c.fail(rule, construct, pos, format, a...)
	}
}

// fn resolves an anchor; a missing one is a violation.
func (c *Check) fn(pkg, name string) *ssa.Function {
	f := c.w.fn(pkg, name)
	if f == nil || len(f.Blocks) == 0 {
		c.fail("anchor", pkg+"."+name, token.NoPos, "the analysed function %s.%s does not exist any more", pkg, name)
		return nil
	}
	return f
}

// absorb takes over what one analysis run covered and left open.
func (c *Check) absorb(x *Exec, what string) {
	for f := range x.visited {
		if c.w.isRepo(f) {
			c.analysed[fnName(f)] = true
		}
	}
	for n := range x.extCalls {
		c.exts[n] = true
	}
	c.steps += x.steps
	seen := map[string]bool{}
	for _, u := range x.undec {
		if !seen[u] {
			seen[u] = true
			c.fail("undecided", what, token.NoPos, "the analysis could not decide: %s", u)
		}
	}
}

// panics turns the run-time-panic obligations of a run into obligations of the check.
func (c *Check) panics(x *Exec, what string, skip func(o obRec) bool) {
	for _, o := range x.obs {
		if skip != nil && skip(o) {
			continue
		}
		c.put("no-panic", fmt.Sprintf("%s: %s %s", o.fn, o.kind, o.what), o.ok, o.pos, fmt.Sprintf("%s; reached from %s", o.why, what))
	}
}

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func verifDir() string {
	if d := os.Getenv("VT_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func knownFindings() map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var k knownFinding
		if json.Unmarshal([]byte(l), &k) == nil {
			out[k.Property+"|"+k.Key] = k.What
		}
	}
	return out
}

// runCheck decides one property and reports.
func runCheck(id, tier string) int {
	t0 := time.Now()
	r := rules[id]
	if r == nil {
		fmt.Println("no such property:", id)
		return 2
	}
	c := &Check{r: r, tier: tier, obs: map[string]*obligation{}, analysed: map[string]bool{}, exts: map[string]bool{}}
	func() {
		defer func() {
			if e := recover(); e != nil {
				st := strings.Split(string(debug.Stack()), "\n")
				if os.Getenv("VTDEBUG") == "" && len(st) > 24 {
					st = st[:24]
				}
				c.fail("undecided", "analysis", token.NoPos, "the analysis stopped: %v\n%s", e, strings.Join(st, "\n"))
			}
		}()
		w, err := loadWorld()
		if err != nil {
			c.fail("load", "type-check", token.NoPos, "%v", err)
			return
		}
		c.w = w
		r.run(c)
	}()
	if n := len(c.obs); n < r.min {
		c.fail("coverage", "instances", token.NoPos, "only %d rule instances were found, at least %d were confirmed by hand", n, r.min)
	}
	return c.report(time.Since(t0))
}

func (c *Check) where(p token.Pos) string {
	if c.w == nil || !p.IsValid() {
		return "-"
	}
	q := c.w.prog.Fset.Position(p)
	if rel, err := filepath.Rel(c.w.dir, q.Filename); err == nil && !strings.HasPrefix(rel, "..") {
		q.Filename = rel
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

func (c *Check) report(d time.Duration) int {
	known := knownFindings()
	var bad []*obligation
	discharged := 0
	var samples []string
	for _, k := range c.order {
		o := c.obs[k]
		if o.ok {
			discharged++
			if len(samples) < 12 {
				samples = append(samples, fmt.Sprintf("%s: %s (%s)", o.rule, o.construct, c.where(o.pos)))
			}
			continue
		}
		if what, ok := known[c.r.id+"|"+o.rule+"|"+o.construct]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.r.id, what)
			c.notes = append(c.notes, "known finding: "+what)
			continue
		}
		bad = append(bad, o)
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	cov := map[string]any{
		"explanation": c.r.rule, "obligations": len(c.order), "discharged": discharged,
		"functions_analysed": keys(c.analysed), "functions": len(c.analysed), "external_functions_modelled": len(c.exts),
		"instructions_interpreted": c.steps, "path_outcomes": c.outs, "samples": samples,
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	ev := map[string]any{"property": c.r.id, "tier": c.tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": append(append([]string{}, c.r.assume...), baseAssumptions...), "wall_s": float64(int(d.Seconds()*100)) / 100, "violations": len(bad)}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, c.r.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	vf := filepath.Join(dir, c.r.id+".violation.txt")
	os.Remove(vf)
	if len(bad) == 0 {
		fmt.Printf("%s: %d obligations discharged over %d functions, %d path outcomes, %.1fs\n", c.r.id, discharged, len(c.analysed), c.outs, d.Seconds())
		return 0
	}
	var out strings.Builder
	for _, o := range bad {
		fmt.Fprintf(&out, "%s: [%s] %s\n    %s\n", c.where(o.pos), o.rule, o.construct, o.msg)
	}
	os.WriteFile(vf, []byte(out.String()), 0o644)
	s := out.String()
	if len(s) > 6000 && os.Getenv("VTDEBUG") == "" {
		s = s[:6000] + "…\n"
	}
	fmt.Print(s)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.r.id, vf)
	return 1
}

var baseAssumptions = []string{
	"the models of the standard library and third-party calls in vt/models.go describe those functions",
	"two address terms with different allocation roots do not alias; cells of one class are forgotten on a write through an unknown pointer",
	"the Go type checker and the x/tools SSA builder translate the source faithfully",
}

func keys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// ---- scenarios ----

// Scen is the result of one abstract run of an entry point.
type Scen struct {
	c    *Check
	x    *Exec
	name string
	fn   *ssa.Function
	st0  *State
	args []*Term
	outs []callOut
}

type scenOpt struct {
	name   string
	opaque []string
	pure   []string
	args   []*Term // nil entries: an unknown value
	pre    func(x *Exec, st *State, args []*Term)
	setup  func(x *Exec)
	panics bool // the run-time-panic obligations belong to this check
	st     *State
}

// captured: what a function literal that is analysed on its own has captured
// can be anything; its variables exist.
func (c *Check) captured(x *Exec, st *State, fn *ssa.Function) []*Term {
	var out []*Term
	for _, v := range fn.FreeVars {
		t := kSym(v.Name(), v.Type())
		for _, r := range valuesOf(fn) {
			for i, b := range r.Bindings {
				if _, ok := b.(*ssa.Alloc); ok && fn.FreeVars[i] == v {
					x.assume(st, mkEq(t, kNil()), false)
				}
			}
		}
		out = append(out, t)
	}
	return out
}

// valuesOf lists where a function literal is created.
func valuesOf(fn *ssa.Function) []*ssa.MakeClosure {
	var out []*ssa.MakeClosure
	if fn.Parent() == nil {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == fn {
				out = append(out, m)
			}
		}
	}
	return out
}

// run analyses fn for every input allowed by the options.
func (c *Check) run(fn *ssa.Function, o scenOpt) *Scen {
	if fn == nil {
		return nil
	}
	name := o.name
	if name == "" {
		name = fnName(fn)
	}
	x := newExec(c.w)
	for _, n := range o.opaque {
		x.opaque[n] = true
	}
	for _, n := range o.pure {
		x.pureOpaque[n] = true
	}
	if o.setup != nil {
		o.setup(x)
	}
	st := o.st
	if st == nil {
		st = c.w.newState()
	}
	s := &Scen{c: c, x: x, name: name, fn: fn}
	for i, p := range fn.Params {
		var a *Term
		if i < len(o.args) {
			a = o.args[i]
		}
		if a == nil {
			a = kSym(p.Name(), p.Type())
		}
		s.args = append(s.args, a)
	}
	if fn.Signature.Recv() != nil && len(s.args) > 0 {
		if _, ok := fn.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
			x.assume(st, mkEq(s.args[0], kNil()), false)
		}
	}
	if o.pre != nil {
		o.pre(x, st, s.args)
	}
	s.st0 = st
	s.outs = x.callFn(nil, st, fn, s.args, c.captured(x, st, fn), nil, nil, nil, false)
	c.outs += len(s.outs)
	c.absorb(x, name)
	if o.panics {
		c.panics(x, name, nil)
	}
	if len(s.outs) == 0 {
		c.fail("reach", name, fn.Pos(), "no outcome of %s is reachable", name)
	}
	return s
}

// cond is a boolean term with the required truth.
type cond struct {
	t *Term
	v bool
}

func is(t *Term) cond  { return cond{t, true} }
func not(t *Term) cond { return cond{t, false} }

// row is one line of a decision table.
type row struct {
	name string
	when []cond
	want func(s *State) []result // expected results in the refined state
	kind int
	also func(s *State, got *Term) string
}

// result: the expected value under a (further refined) state.
type result struct {
	st *State
	t  *Term
}

func term(t *Term) func(*State) []result {
	return func(s *State) []result { return []result{{s, t}} }
}

// call: the result is whatever fn yields for these arguments.
func (s *Scen) call(fn *ssa.Function, args ...*Term) func(*State) []result {
	return func(st *State) []result {
		if fn == nil {
			return nil
		}
		return s.eval(st, fn, args...)
	}
}

func (s *Scen) eval(st *State, fn *ssa.Function, args ...*Term) []result {
	var out []result
	s.x.quiet++
	defer func() { s.x.quiet-- }()
	for _, o := range s.x.callFn(nil, st.clone(), fn, args, nil, nil, nil, nil, false) {
		if o.kind == oRet {
			out = append(out, result{o.st, o.res})
		}
	}
	return out
}

// refine assumes the conditions; false when they contradict the state.
func (s *Scen) refine(st *State, cs []cond) (*State, bool) {
	r := st.clone()
	for _, c := range cs {
		if !s.x.assume(r, c.t, c.v) {
			return nil, false
		}
	}
	// conditions may have become decidable by each other
	for _, c := range cs {
		if v, k := s.x.truth(r, c.t); k && v != c.v {
			return nil, false
		}
	}
	return r, true
}

// same: a and b denote the same value in st.
func (s *Scen) same(st *State, a, b *Term) bool {
	if a == nil || b == nil {
		return a == b
	}
	na, nb := st.norm(a), st.norm(b)
	if na == nb {
		return true
	}
	if na.op == OTuple && nb.op == OTuple && len(na.args) == len(nb.args) {
		for i := range na.args {
			if !s.same(st, na.args[i], nb.args[i]) {
				return false
			}
		}
		return true
	}
	v, k := s.x.truth(st, mkEq(na, nb))
	return k && v
}

// table requires that every outcome agrees with every row it can fall under,
// and that no row is empty.
func (s *Scen) table(rows []row) {
	if s == nil {
		return
	}
	c := s.c
	for _, r := range rows {
		hit := 0
		what := s.name + ": " + r.name
		for _, o := range s.outs {
			st, ok := s.refine(o.st, r.when)
			if !ok {
				continue
			}
			if o.kind != oRet {
				if r.kind == oRet {
					c.fail("table", what, s.fn.Pos(), "panics or exits instead of returning")
				}
				hit++
				continue
			}
			if r.kind != oRet {
				c.fail("table", what, s.fn.Pos(), "returns")
				continue
			}
			if r.want == nil {
				hit++
				if r.also != nil {
					if m := r.also(st, o.res); m != "" {
						c.fail("table", what, s.fn.Pos(), "%s", m)
					}
				}
				continue
			}
			for _, w := range r.want(st) {
				hit++
				if !s.same(w.st, o.res, w.t) {
					c.fail("table", what, s.fn.Pos(), "yields %v where %v is required\n%s", w.st.norm(o.res), w.st.norm(w.t), w.st.factString())
				}
				if r.also != nil {
					if m := r.also(w.st, o.res); m != "" {
						c.fail("table", what, s.fn.Pos(), "%s", m)
					}
				}
			}
		}
		if hit == 0 {
			c.fail("table", what, s.fn.Pos(), "no outcome falls under this row: the behaviour it describes is gone")
		} else {
			c.ok("table", what, s.fn.Pos())
		}
	}
}

// ---- structural helpers: fields are found by type, not by name ----

// field finds the only field of a struct type whose type prints as want
// (relative to the module), or the one called name.
func (c *Check) field(t types.Type, name, want string) int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		c.fail("anchor", t.String(), token.NoPos, "%v is no struct any more", t)
		return -1
	}
	var hits []int
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() == name {
			return i
		}
		if want != "" && typeStr(f.Type()) == want {
			hits = append(hits, i)
		}
	}
	if len(hits) == 1 {
		return hits[0]
	}
	c.fail("anchor", t.String()+"."+name, token.NoPos, "no field %s (%s) in %v", name, want, t)
	return -1
}

func typeStr(t types.Type) string {
	return strings.ReplaceAll(strings.ReplaceAll(types.TypeString(t, nil), modPath+"/", ""), modPath+".", "")
}

// at loads a field of the object p points to.
func (s *Scen) at(st *State, p *Term, obj types.Type, i int) *Term {
	ft := obj.Underlying().(*types.Struct).Field(i).Type()
	return s.x.load(st, mkField(p, obj, i), ft)
}

// inMap gives the membership condition and the value of m[k] in st.
func (s *Scen) inMap(st *State, m, k *Term, mt types.Type) (ok, v *Term) {
	ms := s.x.mapState(st, m, mt.Underlying().(*types.Map))
	if ms.writes != nil || ms.empty {
		panic("inMap: map with known writes")
	}
	ok = mk(Term{op: OMapOk, args: []*Term{ms.ver, k}, typ: tBool})
	v = mk(Term{op: OMapVal, args: []*Term{ms.ver, k}, typ: mt.Underlying().(*types.Map).Elem()})
	return
}

func eq(a, b *Term) *Term { return mkEq(a, b) }
func lt(a, b *Term) *Term { return mkLt(a, b, tInt) }
