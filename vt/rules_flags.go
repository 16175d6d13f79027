package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- P44: the command line reaches the run as documented ----

func init() {
	register(&Rule{id: "P44", min: 24, run: ruleFlags,
		rule: "Abstract interpretation of main with the flag package modelled (a registered option is an arbitrary value once the command line is parsed): on every path, by cases over the values of -v, -h, -i and -k, how the program ends and with which parameters the extraction runs; every option is registered with its name, kind and default; the catalogue of the tool's own messages is chosen by cases over LANG_PATH."})
}

type optSpec struct {
	name, field string
	typ         types.Type
	def         *Term
}

func optSpecs() []optSpec {
	return []optSpec{
		{"i", "Input", tStr, kStr("")},
		{"left", "Left", tStr, kStr("{{")},
		{"right", "Right", tStr, kStr("}}")},
		{"k", "Keyword", tStr, kStr("")},
		{"f", "Function", tStr, kStr("")},
		{"o", "OutputFile", tStr, kStr("")},
		{"d", "Debug", tBool, kBool(false)},
		{"v", "", tBool, kBool(false)},
		{"h", "", tBool, kBool(false)},
	}
}

func optValue(o optSpec) *Term { return kSym("option -"+o.name, o.typ) }

// flagModels: options are registered with a place for their value, and parsing
// puts an arbitrary value there.
func flagModels(c *Check, x *Exec) {
	kinds := map[string]types.Type{"String": tStr, "Bool": tBool, "Int": tInt}
	reg := func(x *Exec, cs *callSite, dest, name, def *Term, typ types.Type) {
		x.store(cs.fr, cs.st, dest, def, typ, cs.instr)
		cs.st.add(&Event{kind: "option", name: cs.name, args: []*Term{dest, cs.st.norm(name), cs.st.norm(def)}, pos: cs.instr.Pos(), fn: fnName(cs.fr.fn)})
	}
	for k, typ := range kinds {
		for _, recv := range []string{"flag.", "(*flag.FlagSet)."} {
			off := 0
			if recv != "flag." {
				off = 1
			}
			x.models[recv+k] = func(x *Exec, cs *callSite) []callOut {
				p := x.alloc(cs.fr, cs.st, cs.instr, "option", typ)
				reg(x, cs, p, cs.args[off], cs.args[off+1], typ)
				return []callOut{{st: cs.st, res: p, kind: oRet}}
			}
			x.models[recv+k+"Var"] = func(x *Exec, cs *callSite) []callOut {
				reg(x, cs, cs.args[off], cs.args[off+1], cs.args[off+2], typ)
				return []callOut{{st: cs.st, res: mkTuple(), kind: oRet}}
			}
		}
	}
	parse := func(x *Exec, cs *callSite) []callOut {
		for _, e := range cs.st.trace.events() {
			if e.kind != "option" {
				continue
			}
			n, ok := e.args[1].strVal()
			if !ok {
				n = e.args[1].String()
			}
			typ := e.args[2].typ
			for _, o := range optSpecs() {
				if o.name == n {
					typ = o.typ
				}
			}
			x.store(cs.fr, cs.st, e.args[0], kSym("option -"+n, typ), typ, cs.instr)
		}
		cs.st.add(&Event{kind: "parsed", name: cs.name, args: cs.args, pos: cs.instr.Pos(), fn: fnName(cs.fr.fn)})
		if cs.name == "flag.Parse" {
			return []callOut{{st: cs.st, res: mkTuple(), kind: oRet}}
		}
		// an option set that ends the program on its own reports no error
		return []callOut{{st: cs.st, res: kNil(), kind: oRet}}
	}
	x.models["flag.Parse"] = parse
	x.models["(*flag.FlagSet).Parse"] = parse
	// the environment
	env := func(name *Term) *Term { return mkCall("environment", tStr, name) }
	x.models["os.Getenv"] = func(x *Exec, cs *callSite) []callOut {
		return []callOut{{st: cs.st, res: env(cs.st.norm(cs.args[0])), kind: oRet}}
	}
	x.models["os.LookupEnv"] = func(x *Exec, cs *callSite) []callOut {
		v := env(cs.st.norm(cs.args[0]))
		none := cs.st.clone()
		out := []callOut{{st: cs.st, res: mkTuple(v, kBool(true)), kind: oRet}}
		if x.assume(none, eq(v, kStr("")), true) {
			out = append(out, callOut{st: none, res: mkTuple(kStr(""), kBool(false)), kind: oRet})
		}
		return out
	}
}

func ruleFlags(c *Check) {
	m := c.fn("cmd/xtemplate", "main")
	param := c.w.typ(toolPkg, "Param")
	if m == nil {
		return
	}
	if param == nil {
		c.fail("anchor", "Param", 0, "type Param is gone")
		return
	}
	opts := optSpecs()
	fields := map[string]int{}
	for _, o := range opts {
		if o.field != "" {
			i := c.field(param, o.field, "")
			if i < 0 {
				return
			}
			fields[o.name] = i
		}
	}
	var opaque []string
	for _, f := range c.exported("") {
		opaque = append(opaque, canon(f))
	}
	s := c.run(m, scenOpt{opaque: opaque, setup: func(x *Exec) {
		flagModels(c, x)
		x.models[toolRun] = func(x *Exec, cs *callSite) []callOut {
			r := x.icall(cs.fr, cs.st, cs.instr, cs.name, tErr, cs.args)
			before := cs.st.clone()
			x.event(cs, "call", r)
			cs.st.trace.ev.st = before
			return []callOut{{st: cs.st, res: r, kind: oRet}}
		}
	}})
	if s == nil {
		return
	}
	pos := m.Pos()
	value := map[string]*Term{}
	for _, o := range opts {
		value[o.name] = optValue(o)
	}
	trim := func(t *Term) *Term { return eq(mkCall("strings.TrimSpace", tStr, t), kStr("")) }
	type end struct {
		st           *State
		o            *callOut
		runs         []*Event
		options      map[string][]*Event
		parsed       int
		code         string
		usage        bool
		stdout       bool
		stderr       bool
		load         []*Event
		locale       []*Event
		early        string
		beforeParsed bool
	}
	look := func(o *callOut, st *State) *end {
		e := &end{st: st, o: o, options: map[string][]*Event{}, code: "0"}
		for _, ev := range st.trace.events() {
			switch {
			case ev.kind == "option":
				n, _ := ev.args[1].strVal()
				if e.parsed == 0 {
					e.options[n] = append(e.options[n], ev)
				}
			case ev.kind == "parsed":
				e.parsed++
				if len(ev.args) > 1 && !c.commandLine(s, st, ev.args[1]) {
					e.parsed = 2
				}
			case ev.kind == "call" && ev.name == toolRun:
				e.runs = append(e.runs, ev)
				e.beforeParsed = e.beforeParsed || e.parsed == 0
			case ev.kind == "exit":
				e.code = "unknown"
				if n, ok := constInt64(st.norm(ev.args[0])); ok {
					e.code = fmt.Sprint(n)
				}
			case ev.kind == "call" && strings.HasSuffix(ev.name, "PrintDefaults"):
				e.usage = true
			case ev.kind == "write":
				e.stdout = e.stdout || c.isGlobal(st, s.x, unface(st.norm(ev.args[0])), "os", "Stdout")
				e.stderr = e.stderr || c.isGlobal(st, s.x, unface(st.norm(ev.args[0])), "os", "Stderr")
			case ev.kind == "call" && (ev.name == modPath+".Load" || ev.name == modPath+".LoadFS" || ev.name == modPath+".Bind" || ev.name == modPath+".BindFS"):
				e.load = append(e.load, ev)
			case ev.kind == "call" && ev.name == modPath+".SetLocale":
				e.locale = append(e.locale, ev)
			case ev.kind == "call" && strings.HasPrefix(ev.name, modPath+".") && len(e.locale) == 0:
				e.early = ev.name
			}
		}
		if o.kind == oPanic {
			e.code = "panic"
		}
		return e
	}
	seen := map[string]int{}
	class := func(what string, when []cond, f func(e *end) string) {
		name := "the command line: " + what
		for i := range s.outs {
			st, ok := s.refine(s.outs[i].st, when)
			if !ok {
				continue
			}
			seen[name]++
			why := f(look(&s.outs[i], st))
			c.assert(why == "", "options", name, pos, "%s on\n%s", why, st.factString())
		}
		c.assert(seen[name] > 0, "options", name, pos, "no path of main for it")
	}
	v, h := value["v"], value["h"]
	bi, bk := trim(value["i"]), trim(value["k"])
	noRun := func(e *end, code string) string {
		switch {
		case e.parsed != 1:
			return "the command line is not parsed"
		case len(e.runs) > 0:
			return "the extraction runs"
		case e.code != code:
			return fmt.Sprintf("the program ends with status %s", e.code)
		}
		return ""
	}
	class("-v shows the version and ends with status 0", []cond{is(v), not(h)}, func(e *end) string {
		if w := noRun(e, "0"); w != "" {
			return w
		}
		if !e.stdout {
			return "nothing is written to the standard output"
		}
		return ""
	})
	class("-h shows the usage and ends with status 0", []cond{not(v), is(h)}, func(e *end) string {
		if w := noRun(e, "0"); w != "" {
			return w
		}
		if !e.usage {
			return "the options are not listed"
		}
		return ""
	})
	class("-v with -h ends with status 0", []cond{is(v), is(h)}, func(e *end) string { return noRun(e, "0") })
	missing := func(e *end) string {
		if w := noRun(e, "2"); w != "" {
			return w
		}
		if !e.stderr {
			return "nothing is said on the standard error"
		}
		return ""
	}
	class("a blank -i is refused with status 2", []cond{not(v), not(h), is(bi)}, missing)
	class("a blank -k is refused with status 2", []cond{not(v), not(h), not(bi), is(bk)}, missing)
	class("otherwise the extraction runs once", []cond{not(v), not(h), not(bi), not(bk)}, func(e *end) string {
		if e.parsed != 1 || e.beforeParsed {
			return "the command line is not parsed before"
		}
		if len(e.runs) != 1 {
			return fmt.Sprintf("it runs %d times", len(e.runs))
		}
		return ""
	})
	for _, o := range opts {
		if o.field == "" {
			continue
		}
		class("-"+o.name+" is what the run gets as "+o.field, []cond{not(v), not(h), not(bi), not(bk)}, func(e *end) string {
			if len(e.runs) != 1 {
				return fmt.Sprintf("the extraction runs %d times", len(e.runs))
			}
			ev := e.runs[0]
			if s.x.isNilKnown(e.st, ev.args[0]) {
				return "it runs without parameters"
			}
			got := s.at(ev.st, ev.args[0], param, fields[o.name])
			if !s.same(e.st, got, value[o.name]) {
				return fmt.Sprintf("it gets %v", e.st.norm(got))
			}
			return ""
		})
	}
	for _, o := range opts {
		class("-"+o.name+" is known with its default", nil, func(e *end) string {
			if e.parsed == 0 {
				return ""
			}
			regs := e.options[o.name]
			if len(regs) != 1 {
				return fmt.Sprintf("registered %d times", len(regs))
			}
			if !s.same(e.st, regs[0].args[2], o.def) {
				return fmt.Sprintf("the default is %v", regs[0].args[2])
			}
			return ""
		})
	}
	// the tool's own messages
	path := mkCall("environment", tStr, kStr("LANG_PATH"))
	blank := trim(path)
	after := func(e *end) string {
		if len(e.load) != 1 {
			return fmt.Sprintf("catalogues are loaded %d times", len(e.load))
		}
		if len(e.locale) != 1 || !s.same(e.st, e.locale[0].args[0], kStr("")) {
			return "the user's locale is not selected once"
		}
		if e.early != "" && e.early != modPath+".Load" && e.early != modPath+".LoadFS" && e.early != modPath+".Bind" && e.early != modPath+".BindFS" {
			return fmt.Sprintf("%s comes before", e.early)
		}
		return ""
	}
	class("messages come from LANG_PATH when it is set", []cond{not(blank)}, func(e *end) string {
		if w := after(e); w != "" {
			return w
		}
		ev := e.load[0]
		if !strings.HasSuffix(ev.name, ".Load") && !strings.HasSuffix(ev.name, ".Bind") || !s.same(e.st, ev.args[len(ev.args)-1], path) {
			return fmt.Sprintf("they come from %s %v", ev.name, ev.args)
		}
		return ""
	})
	class("messages are the built-in ones when LANG_PATH is blank", []cond{is(blank)}, func(e *end) string {
		if w := after(e); w != "" {
			return w
		}
		ev := e.load[0]
		if !strings.HasSuffix(ev.name, "FS") {
			return fmt.Sprintf("they come from %s %v", ev.name, ev.args)
		}
		return c.embedded(s, e.st, unface(e.st.norm(ev.args[len(ev.args)-1])))
	})
}

// commandLine: what the operating system handed over, without the name.
func (c *Check) commandLine(s *Scen, st *State, t *Term) bool {
	t = st.norm(t)
	return strings.Contains(t.String(), "os.Args") && strings.Contains(t.String(), "[1:")
}

// embedded: the value is a variable the compiler fills with files.
func (c *Check) embedded(s *Scen, st *State, t *Term) string {
	path := modPath + "/cmd/xtemplate"
	for _, pkg := range c.w.pkgs {
		if pkg.PkgPath != path || c.w.ssaPkgs[path] == nil {
			continue
		}
		for _, d := range allDecls(pkg.Syntax) {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				for _, id := range vs.Names {
					v, ok := c.w.ssaPkgs[path].Members[id.Name].(*ssa.Global)
					if !ok || st.norm(s.x.load(st.clone(), mkGlobal(v), derefT(v.Type()))) != t {
						continue
					}
					for _, doc := range []*ast.CommentGroup{vs.Doc, g.Doc} {
						if doc == nil {
							continue
						}
						for _, l := range doc.List {
							if strings.HasPrefix(l.Text, "//go:embed ") {
								return ""
							}
						}
					}
					return fmt.Sprintf("%s holds no embedded files", id.Name)
				}
			}
		}
	}
	return fmt.Sprintf("they come from %v", t)
}

func allDecls(files []*ast.File) []ast.Decl {
	var out []ast.Decl
	for _, f := range files {
		out = append(out, f.Decls...)
	}
	return out
}
