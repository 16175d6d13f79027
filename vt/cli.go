package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"strings"
	"time"
)

func run(args []string) int {
	if p := os.Getenv("VTPROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if len(args) >= 2 && args[0] == "check" {
		tier := os.Getenv("VERIF_TIER")
		if len(args) > 2 {
			tier = args[2]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		return runCheck(args[1], tier)
	}
	if len(args) > 0 && args[0] == "list" {
		for id := range rules {
			fmt.Println(id)
		}
		return 0
	}
	w, err := loadWorld()
	if err != nil {
		fmt.Println(err.Error())
		return 1
	}
	if len(args) > 0 && args[0] == "fn" {
		return debugFn(w, args[1:])
	}
	return 1
}

// debugFn shows the outcomes of one function for unconstrained arguments.
func debugFn(w *World, args []string) int {
	fn := w.fn(args[0], args[1])
	if fn == nil {
		fmt.Println("no such function")
		return 1
	}
	x := newExec(w)
	for _, o := range args[2:] {
		if strings.HasPrefix(o, "+") {
			x.pureOpaque[o[1:]] = true
		} else {
			x.opaque[o] = true
		}
	}
	st := w.newState()
	var as []*Term
	for _, p := range fn.Params {
		as = append(as, kSym(p.Name(), p.Type()))
	}
	t0 := time.Now()
	outs := x.callFn(nil, st, fn, as, nil, nil, nil, nil, false)
	fmt.Printf("%d outcomes, %d steps, %v\n", len(outs), x.steps, time.Since(t0))
	for _, u := range x.undec {
		fmt.Println("UNDECIDED", u)
	}
	bad, good := map[string]int{}, 0
	for _, o := range x.obs {
		if o.ok {
			good++
			continue
		}
		bad[fmt.Sprintf("OBLIGATION %s %s %s @%s: %s [%s]", o.kind, o.fn, o.what, w.prog.Fset.Position(o.pos), o.why, o.path)]++
	}
	for k, n := range bad {
		fmt.Println(n, k)
	}
	fmt.Println("good obligations:", good)
	for i, o := range outs {
		if i > 60 {
			break
		}
		fmt.Printf("--- outcome %d kind=%d res=%v norm=%v\n", i, o.kind, o.res, o.st.norm2(o.res))
		fmt.Println(o.st.factString())
		for _, e := range o.st.trace.events() {
			if e.kind == "globalread" {
				continue
			}
			fmt.Println("   ", e.String())
		}
	}
	return 0
}

func (s *State) norm2(t *Term) *Term {
	if t == nil {
		return nil
	}
	return s.norm(t)
}

func (s *State) factString() string {
	var b []string
	s.facts.Each(func(k int, v bool) {
		if v {
			b = append(b, terms[k-1].String())
		} else {
			b = append(b, "!"+terms[k-1].String())
		}
	})
	s.eqs.Each(func(k int, v *Term) { b = append(b, terms[k-1].String()+" = "+v.String()) })
	return "    {" + strings.Join(b, "; ") + "}"
}

func (e *Event) String() string {
	s := e.kind + " " + e.name
	for _, a := range e.args {
		s += " " + a.String()
	}
	if len(e.res) > 0 {
		s += " ->"
		for _, a := range e.res {
			s += " " + a.String()
		}
	}
	if e.loop != nil {
		s += fmt.Sprintf(" [%d parts]", len(e.loop.parts))
	}
	return s
}
