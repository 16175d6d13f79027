package main

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"strings"
)

// Equivalence of constant patterns: the languages of both, with markers where
// groups begin and end, are compared as finite automata.

type nfaRange struct {
	from, to int
	lo, hi   rune
}

type nfaB struct {
	eps  map[int][]int
	rngs map[int][]nfaRange
	mark map[int][][2]int
	n    int
}

func (b *nfaB) state() int { b.n++; return b.n - 1 }

func (b *nfaB) build(r *syntax.Regexp, from int) (int, error) {
	seq := func(rs []*syntax.Regexp) (int, error) {
		at := from
		for _, s := range rs {
			var err error
			if at, err = b.build(s, at); err != nil {
				return 0, err
			}
		}
		return at, nil
	}
	add := func(from int, lo, hi rune, to int) {
		b.rngs[from] = append(b.rngs[from], nfaRange{from, to, lo, hi})
	}
	switch r.Op {
	case syntax.OpEmptyMatch:
		return from, nil
	case syntax.OpLiteral:
		at := from
		for _, c := range r.Rune {
			to := b.state()
			add(at, c, c, to)
			if r.Flags&syntax.FoldCase != 0 {
				return 0, fmt.Errorf("case folding")
			}
			at = to
		}
		return at, nil
	case syntax.OpCharClass:
		to := b.state()
		for i := 0; i+1 < len(r.Rune); i += 2 {
			add(from, r.Rune[i], r.Rune[i+1], to)
		}
		return to, nil
	case syntax.OpAnyChar:
		to := b.state()
		add(from, 0, 0x10ffff, to)
		return to, nil
	case syntax.OpAnyCharNotNL:
		to := b.state()
		add(from, 0, '\n'-1, to)
		add(from, '\n'+1, 0x10ffff, to)
		return to, nil
	case syntax.OpCapture:
		m := b.state()
		b.mark[from] = append(b.mark[from], [2]int{2 * r.Cap, m})
		e, err := b.build(r.Sub[0], m)
		if err != nil {
			return 0, err
		}
		to := b.state()
		b.mark[e] = append(b.mark[e], [2]int{2*r.Cap + 1, to})
		return to, nil
	case syntax.OpConcat:
		return seq(r.Sub)
	case syntax.OpAlternate:
		to := b.state()
		for _, s := range r.Sub {
			in := b.state()
			b.eps[from] = append(b.eps[from], in)
			e, err := b.build(s, in)
			if err != nil {
				return 0, err
			}
			b.eps[e] = append(b.eps[e], to)
		}
		return to, nil
	case syntax.OpStar, syntax.OpPlus, syntax.OpQuest:
		in, to := b.state(), b.state()
		b.eps[from] = append(b.eps[from], in)
		e, err := b.build(r.Sub[0], in)
		if err != nil {
			return 0, err
		}
		b.eps[e] = append(b.eps[e], to)
		if r.Op != syntax.OpPlus {
			b.eps[from] = append(b.eps[from], to)
		}
		if r.Op != syntax.OpQuest {
			b.eps[e] = append(b.eps[e], in)
		}
		return to, nil
	}
	return 0, fmt.Errorf("unsupported %v", r.Op)
}

type lang struct {
	b          *nfaB
	start, end int
}

func patternLang(pat string) (*lang, error) {
	r, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil, err
	}
	r = r.Simplify()
	subs := []*syntax.Regexp{r}
	if r.Op == syntax.OpConcat {
		subs = r.Sub
	}
	begin, end := false, false
	for len(subs) > 0 && subs[0].Op == syntax.OpBeginText {
		begin, subs = true, subs[1:]
	}
	for n := len(subs); n > 0 && subs[n-1].Op == syntax.OpEndText; n = len(subs) {
		end, subs = true, subs[:n-1]
	}
	any := &syntax.Regexp{Op: syntax.OpStar, Sub: []*syntax.Regexp{{Op: syntax.OpAnyChar}}}
	if !begin {
		subs = append([]*syntax.Regexp{any}, subs...)
	}
	if !end {
		subs = append(append([]*syntax.Regexp{}, subs...), any)
	}
	b := &nfaB{eps: map[int][]int{}, rngs: map[int][]nfaRange{}, mark: map[int][][2]int{}}
	l := &lang{b: b, start: b.state()}
	l.end, err = b.build(&syntax.Regexp{Op: syntax.OpConcat, Sub: subs}, l.start)
	return l, err
}

func (l *lang) close(set map[int]bool) []int {
	var work []int
	for s := range set {
		work = append(work, s)
	}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for _, t := range l.b.eps[s] {
			if !set[t] {
				set[t] = true
				work = append(work, t)
			}
		}
	}
	var out []int
	for s := range set {
		out = append(out, s)
	}
	sort.Ints(out)
	return out
}

func (l *lang) step(set []int, c rune, mark int) []int {
	next := map[int]bool{}
	for _, s := range set {
		if mark >= 0 {
			for _, m := range l.b.mark[s] {
				if m[0] == mark {
					next[m[1]] = true
				}
			}
			continue
		}
		for _, r := range l.b.rngs[s] {
			if c >= r.lo && c <= r.hi {
				next[r.to] = true
			}
		}
	}
	return l.close(next)
}

func (l *lang) accepts(set []int) bool {
	for _, s := range set {
		if s == l.end {
			return true
		}
	}
	return false
}

// samePattern: both patterns match the same texts with the same groups; a
// witness (groups marked) otherwise.
func samePattern(p, q string) (bool, string) {
	if greed(p) != greed(q) {
		return false, "repetitions differ in greediness"
	}
	a, err := patternLang(p)
	if err != nil {
		return false, err.Error()
	}
	b, err := patternLang(q)
	if err != nil {
		return false, err.Error()
	}
	reps := map[rune]bool{0: true}
	for _, l := range []*lang{a, b} {
		for _, rs := range l.b.rngs {
			for _, r := range rs {
				reps[r.lo] = true
				if r.hi < 0x10ffff {
					reps[r.hi+1] = true
				}
			}
		}
	}
	type node struct {
		x, y []int
		text string
	}
	start := node{a.close(map[int]bool{a.start: true}), b.close(map[int]bool{b.start: true}), ""}
	seen := map[string]bool{}
	work := []node{start}
	for len(work) > 0 {
		n := work[0]
		work = work[1:]
		k := fmt.Sprint(n.x, n.y)
		if seen[k] {
			continue
		}
		seen[k] = true
		if a.accepts(n.x) != b.accepts(n.y) {
			return false, fmt.Sprintf("%q is matched by one of them only", n.text)
		}
		if len(seen) > 20000 {
			return false, "too many states"
		}
		for c := range reps {
			work = append(work, node{a.step(n.x, c, -1), b.step(n.y, c, -1), n.text + string(c)})
		}
		for m := 2; m < 12; m++ {
			work = append(work, node{a.step(n.x, 0, m), b.step(n.y, 0, m), n.text + strings.Repeat("«", 1-m%2) + strings.Repeat("»", m%2)})
		}
	}
	return true, ""
}

// subPattern: every text that p matches is matched by q; a text that is not otherwise.
func subPattern(p, q string) (bool, string) {
	a, err := patternLang(p)
	if err != nil {
		return false, err.Error()
	}
	b, err := patternLang(q)
	if err != nil {
		return false, err.Error()
	}
	reps := map[rune]bool{0: true}
	for _, l := range []*lang{a, b} {
		// groups do not matter here
		for s, ms := range l.b.mark {
			for _, m := range ms {
				l.b.eps[s] = append(l.b.eps[s], m[1])
			}
		}
		for _, rs := range l.b.rngs {
			for _, r := range rs {
				reps[r.lo] = true
				if r.hi < 0x10ffff {
					reps[r.hi+1] = true
				}
			}
		}
	}
	type node struct {
		x, y []int
		text string
	}
	seen := map[string]bool{}
	work := []node{{a.close(map[int]bool{a.start: true}), b.close(map[int]bool{b.start: true}), ""}}
	for len(work) > 0 {
		n := work[0]
		work = work[1:]
		k := fmt.Sprint(n.x, n.y)
		if seen[k] || len(n.x) == 0 {
			continue
		}
		seen[k] = true
		if a.accepts(n.x) && !b.accepts(n.y) {
			return false, fmt.Sprintf("%q is matched", n.text)
		}
		if len(seen) > 20000 {
			return false, "too many states"
		}
		for c := range reps {
			work = append(work, node{a.step(n.x, c, -1), b.step(n.y, c, -1), n.text + string(c)})
		}
	}
	return true, ""
}

func greed(p string) string {
	r, err := syntax.Parse(p, syntax.Perl)
	if err != nil {
		return "?"
	}
	lazy := false
	var walk func(r *syntax.Regexp)
	walk = func(r *syntax.Regexp) {
		if r.Flags&syntax.NonGreedy != 0 && (r.Op == syntax.OpStar || r.Op == syntax.OpPlus || r.Op == syntax.OpQuest || r.Op == syntax.OpRepeat) {
			lazy = true
		}
		for _, s := range r.Sub {
			walk(s)
		}
	}
	walk(r)
	return fmt.Sprint(lazy)
}
