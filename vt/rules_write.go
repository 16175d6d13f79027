package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- P24: what could not be written is reported ----

func init() {
	register(&Rule{id: "P24", min: 8, run: ruleWriteErrors,
		rule: "Typestate on the errors of writes: for every function that saves a catalogue to a writer, on each path that reports success, in every round of its loops as well, the error of each write to that writer is known to be nil; on each path that reports a failure some write has failed; an in-between buffer has been handed on."})
}

// saveFns: the methods of a catalogue that write it to a writer.
func (c *Check) saveFns() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.exported("translator") {
		sig := f.Signature
		if sig.Recv() == nil || types.TypeString(sig.Recv().Type(), nil) != "*"+modPath+"/translator.File" {
			continue
		}
		if sig.Params().Len() == 1 && types.TypeString(sig.Params().At(0).Type(), nil) == "io.Writer" && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), tErr) {
			out = append(out, f)
		}
	}
	sortFns(out)
	return out
}

func ruleWriteErrors(c *Check) {
	fns := c.saveFns()
	names := map[string]bool{}
	for _, f := range fns {
		names[f.Name()] = true
	}
	for _, n := range []string{"SaveAsPo", "SaveAsPot", "SaveAsMo"} {
		c.assert(names[n], "anchor", n, 0, "the function is gone or writes to something else")
	}
	for _, f := range fns {
		s := c.run(f, scenOpt{opaque: c.savePieces(), pure: c.splitters(), pre: nonNilArgs(c, f)})
		if s == nil {
			continue
		}
		name, pos := fnName(f), f.Pos()
		x := s.x
		nOK, nBad, nWrite := 0, 0, 0
		for i := range s.outs {
			o := &s.outs[i]
			if o.kind != oRet {
				c.fail("write-error", name+": returns", pos, "a path panics or exits")
				continue
			}
			var all []happened
			all = o.st.trace.before(o.st)
			if st, ok := s.refine(o.st, []cond{is(eq(o.res, kNil()))}); ok {
				nOK++
				for k, h := range all {
					hs := h.st
					if k == 0 {
						hs = st
					}
					for _, e := range h.tr.events() {
						if !canFail(e) {
							continue
						}
						nWrite++
						c.assert(x.isNilKnown(hs, errorOf(e)), "write-error", name+": success means that every write succeeded", e.pos,
							"%s may have failed on a path that reports success", e.name)
					}
				}
				w, m := newTexts(s).written(st.trace, st, s.args[1])
				c.assert(m == "" && len(w) > 0 || m != "", "write-error", name+": success means that something was written", pos, "nothing is handed to the writer")
			}
			if st, ok := s.refine(o.st, []cond{not(eq(o.res, kNil()))}); ok {
				nBad++
				failed := false
				for k, h := range all {
					hs := h.st
					if k == 0 {
						hs = st
					}
					for _, e := range h.tr.events() {
						if canFail(e) {
							if v, kn := x.truth(hs, mkEq(errorOf(e), kNil())); kn && !v {
								failed = true
							}
						}
					}
				}
				c.assert(failed, "write-error", name+": a failure is reported only when a write failed", pos, "an error is returned although no write has failed\n%s", st.factString())
			}
		}
		c.assert(nOK > 0 && nWrite > 0, "write-error", name+": it can succeed", pos, "%d paths succeed, %d writes", nOK, nWrite)
		c.assert(nBad > 0, "write-error", name+": it can fail", pos, "no path reports an error")
	}
}

var _ = fmt.Sprint

// savePieces: what the writers order entries by is not looked into here.
func (c *Check) savePieces() []string {
	return []string{"(*" + modPath + "/translator.Entry).getSortKey", "(*" + modPath + "/translator.Entry).getLineString"}
}
