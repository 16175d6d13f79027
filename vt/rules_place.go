package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Where a message was found: its reference is the file that was read and the
// line of the node it stands in, handed down unchanged to where it is recorded.

type demand struct {
	f    *ssa.Function
	p    int
	role string // place, file or line
}

// number: t is the decimal text of a number.
func number(t *Term) *Term {
	if t.op != OCall || len(t.args) == 0 {
		return nil
	}
	switch t.s {
	case "itoa", "fmt%d", "fmt%v":
		return unface(t.args[0])
	}
	return nil
}

// place takes "file:line" apart; what is a parameter of the function is asked
// of its callers.
func (e *extractor) place(s *Scen, st *State, ev *Event, t *Term) string {
	t = st.norm(t)
	if p := paramAt(s, t); p >= 0 {
		e.demand(s.fn, p, "place")
		return ""
	}
	parts := concatParts(t)
	if len(parts) != 3 {
		return fmt.Sprintf("%v is not file:line", t)
	}
	if sep, ok := parts[1].strVal(); !ok || sep != ":" {
		return fmt.Sprintf("%v is not file:line", t)
	}
	n := number(parts[2])
	if n == nil {
		return fmt.Sprintf("%v is not a line number", parts[2])
	}
	if w := e.file(s, st, parts[0]); w != "" {
		return w
	}
	return e.line(s, st, ev, n)
}

func paramAt(s *Scen, t *Term) int {
	for i, a := range s.args {
		if a == t {
			return i
		}
	}
	return -1
}

func (e *extractor) demand(f *ssa.Function, p int, role string) {
	d := demand{f, p, role}
	if !e.demanded[d] {
		e.demanded[d] = true
		e.demands = append(e.demands, d)
	}
}

// file: the name of the file that was read.
func (e *extractor) file(s *Scen, st *State, t *Term) string {
	t = st.norm(unface(st.norm(t)))
	if p := paramAt(s, t); p >= 0 {
		e.demand(s.fn, p, "file")
		return ""
	}
	read := false
	s.eachPath(func(tr *Trace, st *State, back *LoopMark, o *callOut) {
		for _, r := range tr.events() {
			read = read || r.kind == "call" && (r.name == "os.ReadFile" || r.name == "os.Open") && st.norm(r.args[0]) == t
		}
	})
	if read {
		return ""
	}
	return fmt.Sprintf("%v is not the file that was read", t)
}

// line: the line of the node that the call is about.
func (e *extractor) line(s *Scen, st *State, ev *Event, t *Term) string {
	t = st.norm(t)
	if p := paramAt(s, t); p >= 0 {
		e.demand(s.fn, p, "line")
		return ""
	}
	if t.op == OInit && t.args[0].op == OField {
		base := t.args[0]
		sct, ok := base.typ.Underlying().(*types.Struct)
		if ok && isParse(base.typ) && sct.Field(base.i).Name() == "Line" {
			for base.op == OField {
				base = base.args[0]
			}
			for _, a := range ev.args {
				if a = st.norm(a); a != t && a.mentions(func(u *Term) bool { return u == base }) {
					return ""
				}
			}
			return fmt.Sprintf("%v is the line of another node", t)
		}
	}
	return fmt.Sprintf("%v is not the line of the node", t)
}

// places: everything that is asked for is handed over by every caller.
func (e *extractor) places() {
	c := e.c
	scens := map[*ssa.Function]*Scen{}
	run := c.fn(toolPkg, "Run")
	if run == nil {
		return
	}
	scen := func(g *ssa.Function) *Scen {
		if s, ok := scens[g]; ok {
			return s
		}
		var s *Scen
		if g == run {
			opaque := append(names(e.visitors, e.printers, e.adders), toolPath+".ParseKeywords", saveAsPot, "(*"+modPath+"/translator.File).AddEntry")
			for _, f := range c.exported("") {
				opaque = append(opaque, canon(f))
			}
			s = c.run(g, scenOpt{name: fnName(g) + " (places)", opaque: opaque, pre: e.ready(g), setup: both(nonNilGlobal(c), func(x *Exec) {
				e.still(x)
				x.models["os.OpenFile"] = openModel(c)
				x.models["os.Create"] = openModel(c)
			})})
		} else {
			others := map[*ssa.Function]bool{}
			for v := range e.visitors {
				if v != g {
					others[v] = true
				}
			}
			ms := map[*ssa.Function]bool{}
			for m := range e.matchers {
				if m != g {
					ms[m] = true
				}
			}
			s = c.run(g, scenOpt{name: fnName(g) + " (places)", opaque: names(others, ms, e.printers, e.adders), pure: names(e.literals), setup: e.still, pre: e.ready(g)})
		}
		scens[g] = s
		return s
	}
	callers := append([]*ssa.Function{run}, sortedFns(e.visitors)...)
	callers = append(callers, sortedFns(e.matchers)...)
	for len(e.demands) > 0 {
		d := e.demands[0]
		e.demands = e.demands[1:]
		what := map[string]string{"place": "the place a message is recorded with is file:line", "file": "the file named is the one that was read", "line": "the line named is that of the node"}[d.role] + ", for " + fnName(d.f)
		n := 0
		for _, g := range callers {
			s := scen(g)
			if s == nil {
				continue
			}
			seen := map[string]bool{}
			s.eachPath(func(tr *Trace, st *State, back *LoopMark, o *callOut) {
				for _, ev := range tr.events() {
					if ev.kind != "call" && ev.kind != "rec" || ev.name != canon(d.f) || d.p >= len(ev.args) {
						continue
					}
					a := ev.args[d.p]
					k := fmt.Sprint(ev.pos, st.norm(a).id)
					for _, b := range ev.args {
						k += fmt.Sprint(" ", st.norm(b).id)
					}
					if seen[k] {
						continue
					}
					seen[k] = true
					n++
					why := ""
					switch d.role {
					case "place":
						why = e.place(s, st, ev, a)
					case "file":
						why = e.file(s, st, a)
					case "line":
						why = e.line(s, st, ev, a)
					}
					c.assert(why == "", "place", what, ev.pos, "%s, called from %s", why, fnName(g))
				}
			})
		}
		c.assert(n > 0, "place", what, d.f.Pos(), "nobody calls it")
	}
}

// reference: the comment is the reference to a place.
func (e *extractor) reference(s *Scen, st *State, ev *Event, it *Term) bool {
	parts := concatParts(st.norm(it))
	if len(parts) < 2 {
		return false
	}
	if p, ok := parts[0].strVal(); !ok || p != "#: " {
		return false
	}
	rest := parts[1]
	for _, p := range parts[2:] {
		rest = mkConcat(rest, p)
	}
	if strings.HasPrefix(rest.String(), "#") {
		return false
	}
	return e.place(s, st, ev, rest) == ""
}
