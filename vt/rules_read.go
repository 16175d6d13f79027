package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{id: "P02", min: 1, run: ruleReadMemory,
		rule:   "Every allocation whose size is computed (make, Grow, Repeat) that is reachable from the catalogue readers is an obligation: the difference-bound domain must prove the number of elements bounded by the length of the input, or it is a small multiple of the size of existing objects.",
		assume: []string{"append grows a slice in proportion to what is appended"}})
	register(&Rule{id: "P01", min: 40, run: ruleReadPanics,
		rule:   "Every run-time-panic site reachable from the catalogue readers and loaders is an obligation that the interval/difference-bound and nullness domains must discharge for all byte contents.",
		assume: []string{"the file system and file a caller passes to the loaders are not nil", "handles and domains come from their constructors (that those make the maps is an obligation of this check)"}})
}

func (c *Check) readers() []*ssa.Function {
	return []*ssa.Function{c.fn("translator", "ReadPo"), c.fn("translator", "ReadPot"), c.fn("translator", "ReadMo")}
}

func ruleReadPanics(c *Check) {
	for _, fn := range c.readers() {
		c.run(fn, scenOpt{panics: true})
	}
	for _, n := range []string{"*Translation.LoadPo", "*Translation.LoadMo", "*Translation.LoadFile", "*Translation.LoadFS", "*Translations.BindFS"} {
		fn := c.fn("", n)
		c.run(fn, scenOpt{panics: true, opaque: []string{pathRead + "ReadPo", pathRead + "ReadMo"}, pre: nonNilArgs(c, fn), setup: c.mapsMade()})
	}
	c.constructors()
	for _, n := range []string{"Load", "LoadFS", "Bind", "BindFS"} {
		fn := c.fn("", n)
		c.run(fn, scenOpt{panics: true, setup: both(nonNilGlobal(c), c.mapsMade()), opaque: []string{pathRead + "ReadPo", pathRead + "ReadMo"}, pre: nonNilArgs(c, fn)})
	}
}

// ---- P02 ----

func ruleReadMemory(c *Check) {
	bound := func(content func() *Term) func(x *Exec, fr *Frame, st *State, instr ssa.Instruction, n *Term) {
		return func(x *Exec, fr *Frame, st *State, instr ssa.Instruction, n *Term) {
			if x.quiet > 0 {
				return
			}
			what := "allocation in " + fnName(fr.fn)
			n = st.norm(n)
			ok := false
			if v, k := n.intVal(); k {
				ok = v <= 1<<20
			}
			if t := content(); !ok && t != nil {
				ok = x.proveLE(st, n, mkLen(t), 0)
			}
			ok = ok || sizeOfExisting(n)
			c.put("bounded-allocation", what, ok, instrPos(instr, fr.fn), fmt.Sprintf("%v elements are allocated at once; nothing on this path bounds that by the size of the input\n%s", n, st.factString()))
		}
	}
	for _, fn := range c.readers() {
		if fn == nil {
			continue
		}
		var content *Term
		c.run(fn, scenOpt{pre: func(x *Exec, st *State, args []*Term) {
			content = args[0]
			x.axioms = append(x.axioms, readerSize)
			x.memoryBound = bound(func() *Term { return content })
		}})
	}
	for _, n := range []string{"*Translation.LoadFile", "*Translation.LoadFS"} {
		fn := c.fn("", n)
		c.run(fn, scenOpt{opaque: []string{pathRead + "ReadPo", pathRead + "ReadMo"}, pre: func(x *Exec, st *State, args []*Term) {
			nonNilArgs(c, fn)(x, st, args)
			x.memoryBound = bound(func() *Term { return nil })
		}})
	}
}

// readerSize: a reader over a byte slice is as long as the slice.
func readerSize(t *Term) []zedge {
	if t.op != OCall || len(t.args) == 0 || t.args[0].op != OICall {
		return nil
	}
	if callName(t.args[0]) != "bytes.NewReader" || len(t.args[0].args) == 0 {
		return nil
	}
	l := mkLen(t.args[0].args[0])
	switch t.s {
	case "(*bytes.Reader).Size":
		return []zedge{{t.id, l.id, 0}, {l.id, t.id, 0}, {0, t.id, 0}}
	case "(*bytes.Reader).Len":
		return []zedge{{t.id, l.id, 0}, {0, t.id, 0}}
	}
	return nil
}

// sizeOfExisting: n is a small multiple of the size of things that exist already.
func sizeOfExisting(n *Term) bool {
	l := linOf(n)
	if l.k > 1<<20 {
		return false
	}
	for id, k := range l.v {
		t := terms[id-1]
		if k < 0 {
			continue
		}
		if k > 16 {
			return false
		}
		switch {
		case t.op == OLen || t.op == OCap:
		case t.op == OCall && (t.s == "maplen" || t.s == "strings.Count" || t.s == "unicode/utf8.RuneCountInString"):
		default:
			return false
		}
	}
	return true
}

func both(fs ...func(x *Exec)) func(x *Exec) {
	return func(x *Exec) {
		for _, f := range fs {
			f(x)
		}
	}
}

// mapsMade: the map fields of handles and domains that exist before the call
// are not nil (constructors establishes it).
func (c *Check) mapsMade() func(x *Exec) {
	return func(x *Exec) {
		ht, tt := c.w.typ("", "Translations"), c.w.typ("", "Translation")
		x.nonNilInit = func(s *State, t *Term) bool {
			a := t.args[0]
			if a.op != OField || t.typ == nil {
				return false
			}
			if _, ok := t.typ.Underlying().(*types.Map); !ok {
				return false
			}
			return ht != nil && types.Identical(a.typ, ht) || tt != nil && types.Identical(a.typ, tt)
		}
	}
}

// constructors: every way to get a handle or a domain makes its maps.
func (c *Check) constructors() {
	check := func(name string, fn *ssa.Function, t types.Type, recv bool) {
		if fn == nil || t == nil {
			return
		}
		s := c.run(fn, scenOpt{name: name, setup: both(nonNilGlobal(c), c.mapsMade()), pre: nonNilArgs(c, fn)})
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if _, ok := st.Field(i).Type().Underlying().(*types.Map); !ok {
				continue
			}
			for _, o := range s.outs {
				p := o.res
				if recv {
					p = s.args[0]
				}
				if o.kind != oRet || p == nil {
					continue
				}
				v := s.at(o.st, p, t, i)
				c.assert(s.x.nonNil(o.st, v), "constructor", name+" makes "+st.Field(i).Name(), fn.Pos(), "the map %s of the result may be nil, storing into it would panic", st.Field(i).Name())
			}
		}
	}
	ht, tt := c.w.typ("", "Translations"), c.w.typ("", "Translation")
	check("NewTranslations", c.fn("", "NewTranslations"), ht, false)
	check("NewTranslation", c.fn("", "NewTranslation"), tt, false)
	check("Translations.D", c.fn("", "*Translations.D"), ht, false)
	check("Translations.L", c.fn("", "*Translations.L"), ht, false)
	check("Global", c.fn("", "Global"), ht, false)
	check("Translations.ClearDomains", c.fn("", "*Translations.ClearDomains"), ht, true)
	check("Translations.RemoveDomain", c.fn("", "*Translations.RemoveDomain"), ht, true)
}
