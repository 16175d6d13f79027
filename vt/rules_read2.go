package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register(&Rule{id: "P04", min: 6, run: ruleAllOrNothing,
		rule: "Abstract interpretation of the three readers over all byte contents: every outcome is either a catalogue and no error or no catalogue and an error; on every path that goes on or succeeds, the error of each primitive read (unquote, binary read, seek) is known to be nil; every line a loop iteration moves past is positively recognised as blank, comment, keyword or continuation; a binary catalogue is only accepted under one of the two magic numbers and a supported revision."})
}

var primitiveReads = map[string]bool{"strconv.Unquote": true, "strconv.UnquoteChar": true, "encoding/binary.Read": true, "(*bytes.Reader).Seek": true, "(*bytes.Reader).Read": true, "(*bytes.Reader).ReadAt": true, "io.ReadFull": true, "io.ReadAtLeast": true, "io.ReadAll": true, "(io.Reader).Read": true}

// errorOf is the error among the results of an event.
func errorOf(e *Event) *Term {
	if len(e.res) == 0 || e.res[0] == nil {
		return nil
	}
	r := e.res[0]
	if r.typ == nil {
		return nil
	}
	if tp, ok := r.typ.(*types.Tuple); ok {
		for i := tp.Len() - 1; i >= 0; i-- {
			if types.Identical(tp.At(i).Type(), tErr) {
				return mkExtract(r, i, tErr)
			}
		}
		return nil
	}
	if types.Identical(r.typ, tErr) {
		return r
	}
	return nil
}

// eachPath calls f for every way round a loop and for every outcome.
func (s *Scen) eachPath(f func(tr *Trace, st *State, back *LoopMark, out *callOut)) {
	for _, m := range append(append([]*LoopMark{}, s.x.marks...), s.x.hofMarks...) {
		for _, p := range m.parts {
			for _, b := range p.backs {
				f(b.trace, b.st, m, nil)
			}
		}
	}
	for i := range s.outs {
		f(s.outs[i].st.trace, s.outs[i].st, nil, &s.outs[i])
	}
}

func ruleAllOrNothing(c *Check) {
	for _, fn := range c.readers() {
		if fn == nil {
			continue
		}
		s := c.run(fn, scenOpt{setup: func(x *Exec) { x.watchPure = primitiveReads }})
		name := fnName(fn)
		okN, errN := 0, 0
		success := func(o *callOut) bool {
			if o.kind != oRet || o.res == nil || o.res.op != OTuple || len(o.res.args) != 2 {
				return false
			}
			return s.x.isNilKnown(o.st, o.res.args[1])
		}
		for i := range s.outs {
			o := &s.outs[i]
			if o.kind != oRet {
				c.fail("all-or-nothing", name, fn.Pos(), "panics or exits")
				continue
			}
			f, e := o.res.args[0], o.res.args[1]
			switch {
			case s.x.isNilKnown(o.st, e) && s.x.nonNil(o.st, f):
				okN++
			case s.x.nonNil(o.st, e) && s.x.isNilKnown(o.st, f):
				errN++
			default:
				c.fail("all-or-nothing", name, fn.Pos(), "may return catalogue %v together with error %v\n%s", o.st.norm(f), o.st.norm(e), o.st.factString())
			}
		}
		c.assert(okN > 0 && errN > 0, "all-or-nothing", name, fn.Pos(), "%d outcomes succeed and %d fail, both are needed", okN, errN)
		reads := map[string]int{}
		s.eachPath(func(tr *Trace, st *State, back *LoopMark, out *callOut) {
			if out != nil && !success(out) {
				return
			}
			for _, e := range tr.events() {
				if e.kind != "call" || !primitiveReads[e.name] {
					continue
				}
				er := errorOf(e)
				if er == nil {
					continue
				}
				reads[e.name]++
				v, k := s.x.truth(st, mkEq(er, kNil()))
				where := "goes on to the next round of a loop"
				if out != nil {
					where = "reports success"
				}
				c.put("read-error", fmt.Sprintf("%s: %s in %s", name, e.name, e.fn), k && v, e.pos, fmt.Sprintf("the path %s although the error of this read is not known to be nil: a malformed file is accepted", where))
			}
			if back == nil {
				return
			}
			for _, e := range tr.events() {
				if e.kind == "call" && e.name == "strconv.Unquote" && len(e.res) > 0 && e.res[0] != nil {
					v := mkExtract(e.res[0], 0, tStr)
					used := false
					st.cells.Each(func(_ int, w *Term) {
						used = used || w.mentions(func(u *Term) bool { return u == v })
					})
					c.put("text-kept", fmt.Sprintf("%s: text unquoted in %s", name, e.fn), used, e.pos, "the loop goes on without keeping the text of the line")
				}
			}
			// the lines looked at in this round
			lines := map[*Term]bool{}
			st.facts.Each(func(id int, v bool) {
				t := terms[id-1]
				l, pos := lineTest(t)
				if l == nil || !inLoop(l, back.inst) {
					return
				}
				if pos && v {
					lines[l] = true
				} else if !lines[l] {
					lines[l] = false
				}
			})
			for l, ok := range lines {
				c.put("line-recognised", fmt.Sprintf("%s: line read in %s", name, back.name), ok, back.loop.header.Instrs[0].Pos(), fmt.Sprintf("the loop moves past line %v although no test has recognised it: a malformed line is skipped silently\n%s", l, st.factString()))
			}
		})
		if strings.HasSuffix(name, "ReadMo") {
			c.assert(reads["encoding/binary.Read"]+reads["io.ReadFull"] > 0, "read-error", name+": primitive reads", fn.Pos(), "no primitive read was found")
			for i := range s.outs {
				o := &s.outs[i]
				if !success(o) {
					continue
				}
				magic := false
				o.st.facts.Each(func(id int, v bool) {
					t := terms[id-1]
					if t.op == OEq && v {
						for _, a := range t.args {
							if n, ok := a.intVal(); ok && (n == 0x950412de || n == 0xde120495) {
								magic = true
							}
						}
					}
				})
				c.put("magic", name, magic, fn.Pos(), "a file is accepted although its first bytes are not one of the two magic numbers\n"+o.st.factString())
			}
		} else {
			c.assert(reads["strconv.Unquote"] > 0, "read-error", name+": primitive reads", fn.Pos(), "no primitive read was found")
		}
	}
}

func inLoop(t *Term, inst int) bool {
	for _, o := range t.owners {
		if o == inst {
			return true
		}
	}
	return false
}

// lineTest: t tests the form of a line; pos tells that truth recognises it.
func lineTest(t *Term) (*Term, bool) {
	switch {
	case t.op == OCall && (t.s == "strings.HasPrefix"):
		return t.args[0], true
	case t.op == OEq:
		for i, a := range t.args {
			if v, ok := a.strVal(); ok && v == "" {
				o := t.args[1-i]
				if o.op == OCall && strings.HasPrefix(o.s, "strings.Trim") {
					return o.args[0], true
				}
			}
		}
	}
	return nil, false
}
