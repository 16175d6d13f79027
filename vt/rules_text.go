package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// The text a function writes, as pieces: known texts, terms, and what the
// rounds of a loop add.

type piece struct {
	t   *Term   // a text, or
	rep *repeat // what a loop adds
}

type repeat struct {
	m      *LoopMark
	rounds []round
}

type round struct {
	p      *LoopPart
	b      *BackIter
	pieces []piece
}

// texts knows the texts that loops add to.
type texts struct {
	s    *Scen
	base map[*Term][]*growing // the same variable on different ways to a loop
	memo map[*growing]*repeat
}

type growing struct {
	m    *LoopMark
	p    *LoopPart
	init func() *Term            // the text before the loop
	next func(b *BackIter) *Term // and behind a round
	id   string
	v    *Term
}

func newTexts(s *Scen) *texts {
	w := &texts{s: s, base: map[*Term][]*growing{}, memo: map[*growing]*repeat{}}
	x := s.x
	for _, m := range append(append([]*LoopMark{}, x.marks...), x.hofMarks...) {
		m := m
		for _, p := range m.parts {
			p := p
			p.init.cells.Each(func(k int, v *Term) {
				cell := terms[k-1]
				if v.op != OSym || cell.op == OCall && cell.s != "text" {
					return
				}
				if cell.op != OCall && !isString(v.typ) {
					return
				}
				g := &growing{m: m, p: p, v: v, id: strconv.Itoa(k)}
				if cell.op == OCall {
					g.init = func() *Term { return x.bufText(m.entry, cell.args[0]) }
					g.next = func(b *BackIter) *Term { return x.bufText(b.st, cell.args[0]) }
				} else {
					g.init = func() *Term { return x.load(m.entry, cell, v.typ) }
					g.next = func(b *BackIter) *Term { return x.load(b.st, cell, v.typ) }
				}
				// the text a loop has found is not its own
				if g.init() != v {
					w.base[v] = append(w.base[v], g)
				}
			})
			for i, v := range p.phis {
				if i < len(m.typs) && isString(m.typs[i]) && v.op == OSym {
					i := i
					w.base[v] = append(w.base[v], &growing{m: m, p: p, v: v, id: "p" + strconv.Itoa(i), init: func() *Term { return m.inits[i] }, next: func(b *BackIter) *Term { return b.phis[i] }})
				}
			}
		}
	}
	return w
}

// grown: the loop on the way that has added to the text.
func (w *texts) grown(tr *Trace, v *Term) *growing {
	gs := w.base[v]
	if len(gs) == 0 {
		return nil
	}
	for u := tr; u != nil; u = u.prev {
		if u.ev.kind != "loop" {
			continue
		}
		for _, g := range gs {
			if g.m == u.ev.loop {
				return g
			}
		}
	}
	return nil
}

// pieces takes a text apart. stop is the text that a round starts with.
func (w *texts) pieces(tr *Trace, st *State, t *Term, stop *Term) ([]piece, string) {
	t = st.norm(t)
	parts := concatParts(t)
	var out []piece
	for i, q := range parts {
		if q == stop {
			if i > 0 {
				return nil, "a round puts text in front of what is already there"
			}
			out = append(out, piece{t: stop})
			continue
		}
		g := w.grown(tr, q)
		if g == nil {
			out = append(out, piece{t: q})
			continue
		}
		before, why := w.pieces(tr, g.m.entry, g.init(), stop)
		if why != "" {
			return nil, why
		}
		out = append(out, before...)
		r := w.memo[g]
		if r == nil {
			r = &repeat{m: g.m}
			w.memo[g] = r
			// all parts of the loop
			for _, h := range w.same(g) {
				v := h.v
				for _, b := range h.p.backs {
					ps, why := w.pieces(b.trace, b.st, h.next(b), v)
					if why != "" {
						return nil, why
					}
					if len(ps) == 0 || ps[0].t != v {
						return nil, "a round does not keep what was written before"
					}
					r.rounds = append(r.rounds, round{h.p, b, ps[1:]})
				}
			}
		}
		out = append(out, piece{rep: r})
	}
	if stop != nil {
		return out, ""
	}
	return out, ""
}

// same: the variable in all parts of the loop.
func (w *texts) same(g *growing) []*growing {
	var out []*growing
	for _, gs := range w.base {
		for _, h := range gs {
			if h.m == g.m && h.id == g.id {
				out = append(out, h)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].v.id < out[j].v.id })
	return out
}

func (p piece) String() string {
	if p.rep == nil {
		return p.t.String()
	}
	var ss []string
	for _, r := range p.rep.rounds {
		ss = append(ss, showPieces(r.pieces))
	}
	return "(" + strings.Join(ss, " | ") + ")*"
}

func showPieces(ps []piece) string {
	var ss []string
	for _, p := range ps {
		ss = append(ss, p.String())
	}
	return strings.Join(ss, " ")
}

// written: the text handed to the caller's writer on the way to an outcome,
// in order.
func (w *texts) written(tr *Trace, st *State, dst *Term) ([]piece, string) {
	var out []piece
	for _, e := range tr.events() {
		switch {
		case e.kind == "loop" && e.loop != nil:
			r, some := &repeat{m: e.loop}, false
			for _, p := range e.loop.parts {
				for _, b := range p.backs {
					ps, why := w.written(b.trace, b.st, dst)
					if why != "" {
						return nil, why
					}
					some = some || len(ps) > 0
					r.rounds = append(r.rounds, round{p, b, ps})
				}
			}
			if some {
				out = append(out, piece{rep: r})
			}
		case e.kind == "write":
			if !w.s.same(st, e.args[0], dst) {
				return nil, fmt.Sprintf("something is written to %v", e.args[0])
			}
			ps, why := w.pieces(tr, e.st, e.args[1], nil)
			if why != "" {
				return nil, why
			}
			out = append(out, ps...)
		}
	}
	return out, ""
}
