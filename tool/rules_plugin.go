package main

import (
	"fmt"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// The generator of Go code. Its text is extracted for a schema in which every
// kind of method occurs at the beginning, in the middle and at the end of a
// service, every message type is of a package of its own, and every name is a
// symbol; the text is then type-checked and decided like the code of S34, S35.

const (
	pgPkg  = "google.golang.org/protobuf/compiler/protogen"
	genDir = "zz_generated"
)

// exSvc is a service of the example.
type exSvc struct {
	name, goName string
	rpcs         []*exRPC
}

type exRPC struct {
	protoRPC
	goName  string
	inPkg   string // import path
	outPkg  string
	comment bool
}

// exFile is a file of the example.
type exFile struct {
	pkg, goPkg string // the last element of the import path, the name of the package
	prefix     string
	generate   bool
	svcs       []*exSvc
	local      []string // messages of the file
}

// example is the schema the generator is decided on.
func example() []*exFile {
	n := 0
	var msgs []string
	mk := func(name, goName string, in, out, local bool) *exRPC {
		n++
		r := &exRPC{goName: goName, comment: n%2 == 0}
		r.name, r.inStrm, r.outStrem = name, in, out
		r.inPkg, r.outPkg = fmt.Sprintf("%s/%s/pin%d", ModPath, genDir, n), fmt.Sprintf("%s/%s/pout%d", ModPath, genDir, n)
		r.in, r.out = fmt.Sprintf("In%d", n), fmt.Sprintf("Out%d", n)
		if local {
			r.inPkg, r.outPkg = "", ""
			msgs = append(msgs, r.in, r.out)
		}
		return r
	}
	main := &exFile{pkg: "main_v1", goPkg: "mainv1pb", prefix: "some/dir/main", generate: true}
	all := &exSvc{name: "all_kinds", goName: "AllKinds"}
	kinds := [][2]bool{{false, false}, {false, true}, {true, false}, {true, true}}
	for round := 0; round < 3; round++ {
		for k := range kinds {
			if round%2 == 1 {
				k = 3 - k
			}
			all.rpcs = append(all.rpcs, mk(fmt.Sprintf("do_it_%c%d", 'a'+k, round), fmt.Sprintf("DoIt%c%d", 'A'+k, round), kinds[k][0], kinds[k][1], round == 1))
		}
	}
	main.svcs = append(main.svcs, all,
		&exSvc{name: "Nothing", goName: "Nothing"},
		// the names of streams would be the same without a way to tell them apart
		&exSvc{name: "Svc_A", goName: "Svc_A", rpcs: []*exRPC{mk("B", "B", true, true, false), mk("C_D", "C_D", false, true, true)}},
		&exSvc{name: "Svc", goName: "Svc", rpcs: []*exRPC{mk("A_B", "A_B", true, true, false), mk("A_C_D", "A_C_D", true, false, true)}},
		&exSvc{name: "Tw_O", goName: "Tw_O", rpcs: []*exRPC{mk("M", "M", true, true, false)}},
		&exSvc{name: "TwO", goName: "TwO", rpcs: []*exRPC{mk("M", "M", true, true, true), mk("X_Y", "X_Y", false, true, true), mk("XY", "XY", true, false, false)}})
	for rot := 0; rot < 4; rot++ {
		sv := &exSvc{name: fmt.Sprintf("rot%d", rot), goName: fmt.Sprintf("Rot%d", rot)}
		for k := range kinds {
			j := (k + rot) % 4
			sv.rpcs = append(sv.rpcs, mk(fmt.Sprintf("r_%d%d", rot, k), fmt.Sprintf("R_%d%d", rot, k), kinds[j][0], kinds[j][1], k%2 == 0))
		}
		main.svcs = append(main.svcs, sv)
	}
	main.local = msgs
	out := []*exFile{main}
	for k, b := range kinds {
		msgs = nil
		f := &exFile{pkg: fmt.Sprintf("single%d", k), goPkg: fmt.Sprintf("single%dpb", k), prefix: fmt.Sprintf("single%d", k), generate: true}
		f.svcs = []*exSvc{{name: "Single", goName: "Single", rpcs: []*exRPC{mk("Call", "Call", b[0], b[1], k%2 == 1)}}}
		f.local = msgs
		out = append(out, f)
	}
	// messages of packages which are called like those the generated code needs
	clash := mk("Call", "Call", false, false, false)
	clash.inPkg, clash.outPkg = ModPath+"/"+genDir+"/clash/srpc", ModPath+"/"+genDir+"/clash/context"
	strm := mk("Watch", "Watch", true, true, false)
	strm.inPkg, strm.outPkg = ModPath+"/"+genDir+"/clash/pin1", ModPath+"/"+genDir+"/other/pin1"
	out = append(out, &exFile{pkg: "clash", goPkg: "clashpb", prefix: "clash", generate: true,
		svcs: []*exSvc{{name: "Clash", goName: "Clash", rpcs: []*exRPC{clash, strm}}}})
	out = append(out, &exFile{pkg: "nosvc", goPkg: "nosvc", prefix: "nosvc", generate: true},
		&exFile{pkg: "imported", goPkg: "imported", prefix: "imported", svcs: []*exSvc{{name: "Other", goName: "Other", rpcs: []*exRPC{mk("Call", "Call", false, false, false)}}}})
	return out
}

const exProto = "acme.pkg_v1"

func (f *exFile) importPath() string { return ModPath + "/" + genDir + "/" + f.pkg }

// genOut is a file the plugin makes.
type genOut struct {
	name, path tStr
	lines      []tStr
	pos        []token.Pos
	names      map[string]string // import path: name of the package
	used       map[string]bool
	order      []string
}

func (o *genOut) qualified(ident *tObj) tStr {
	p, _ := (*ident.f["GoImportPath"]).(tStr)
	n, _ := (*ident.f["GoName"]).(tStr)
	if p.show() == o.path.show() {
		return n
	}
	key := p.text()
	if o.names[key] == "" {
		base := path.Base(key)
		name := base
		for i := 1; o.used[name]; i++ {
			name = fmt.Sprint(base, i)
		}
		o.used[name] = true
		o.names[key] = name
		o.order = append(o.order, key)
	}
	return lit(o.names[key] + ".").cat(n)
}

// pluginWorld is the plugin library with the example as its input.
type pluginWorld struct {
	files  []*exFile
	fobj   []*tObj
	out    []*genOut
	outs   map[*tObj]*genOut
	errs   []string
	plugin *tObj
	ret    any
	ran    int
}

func newPluginWorld(p *Prog) (*pluginWorld, *tmplEval) {
	w := &pluginWorld{files: example(), outs: map[*tObj]*genOut{}}
	e := &tmplEval{p: p, fns: map[*ssa.Function]bool{}, global: map[*ssa.Global]*any{}}
	e.calls = textCalls()
	descOf := func(kind, full, name string) *tObj {
		fullS := lit(exProto + ".").cat(symStr("the name of a "+kind, full))
		if kind == "method" {
			fullS = symStr("the full name of a method", full)
		}
		return &tObj{kind: kind + " descriptor", m: map[string]func([]any) any{
			"FullName": func([]any) any { return fullS },
			"Name":     func([]any) any { return symStr("the name of a "+kind, name) },
		}}
	}
	comments := func(has bool, what string) *tObj {
		c := tStr(nil)
		if has {
			c = symStr("the comment on "+what, " does something.").cat(lit("\n")).cat(symStr("the comment on "+what, " var x int"))
		}
		return (&tObj{kind: "comments"}).set("Leading", c).set("Trailing", tStr(nil)).set("LeadingDetached", tSlice{})
	}
	ident := func(imp, name, what string) *tObj {
		return (&tObj{kind: "GoIdent"}).set("GoImportPath", lit(imp)).set("GoName", symStr(what, name))
	}
	// the Stringers of the library
	e.calls["("+pgPkg+".Comments).String"] = func(e *tmplEval, in ssa.CallInstruction, a []any) any {
		c, _ := a[0].(tStr)
		if len(c) == 0 {
			return tStr(nil)
		}
		return lit("//").cat(c.apply("comment", func(s string) string { return strings.ReplaceAll(s, "\n", "\n//") })).cat(lit("\n"))
	}
	e.calls["("+pgPkg+".GoImportPath).String"] = func(e *tmplEval, in ssa.CallInstruction, a []any) any {
		s, _ := a[0].(tStr)
		return quoteStr(s)
	}
	e.calls["("+pgPkg+".GoImportPath).Ident"] = func(e *tmplEval, in ssa.CallInstruction, a []any) any {
		return (&tObj{kind: "GoIdent"}).set("GoImportPath", a[0]).set("GoName", a[1])
	}
	for _, f := range w.files {
		fo := &tObj{kind: "file", name: f.pkg}
		fo.set("GeneratedFilenamePrefix", symStr("the file name prefix", f.prefix)).set("GoImportPath", lit(f.importPath())).
			set("GoPackageName", symStr("the package name", f.goPkg)).set("Generate", f.generate).
			set("Desc", tIface{nil, &tObj{kind: "file descriptor", m: map[string]func([]any) any{
				"Path":     func([]any) any { return symStr("the path of the file", f.prefix+".proto") },
				"Package":  func([]any) any { return lit(exProto) },
				"FullName": func([]any) any { return lit(exProto) },
			}}}).set("Messages", tSlice{}).set("Enums", tSlice{}).set("Extensions", tSlice{})
		var svcs []any
		for _, s := range f.svcs {
			so := &tObj{kind: "service", name: s.name}
			sd := descOf("service", s.name, s.name)
			so.set("Desc", tIface{nil, sd}).set("GoName", symStr("the Go name of a service", s.goName)).set("Comments", comments(false, "a service"))
			var ms []any
			for _, r := range s.rpcs {
				mo := &tObj{kind: "method", name: r.name}
				md := descOf("method", exProto+"."+s.name+"."+r.name, r.name)
				md.m["IsStreamingClient"] = func([]any) any { return r.inStrm }
				md.m["IsStreamingServer"] = func([]any) any { return r.outStrem }
				md.m["Parent"] = func([]any) any { return tIface{nil, sd} }
				msg := func(pkg, name, what string) *tObj {
					if pkg == "" {
						pkg = f.importPath()
					}
					return (&tObj{kind: "message"}).set("GoIdent", ident(pkg, name, "the Go name of "+what)).set("Desc", tIface{nil, descOf("message", name, name)})
				}
				mo.set("Desc", tIface{nil, md}).set("GoName", symStr("the Go name of a method", r.goName)).set("Parent", so).
					set("Input", msg(r.inPkg, r.in, "an input")).set("Output", msg(r.outPkg, r.out, "an output")).set("Comments", comments(r.comment, "a method"))
				ms = append(ms, mo)
			}
			so.set("Methods", list(ms...))
			svcs = append(svcs, so)
		}
		fo.set("Services", list(svcs...))
		w.fobj = append(w.fobj, fo)
	}
	var fl []any
	for _, f := range w.fobj {
		fl = append(fl, f)
	}
	w.plugin = (&tObj{kind: "plugin"}).set("Files", list(fl...)).set("SupportedFeatures", int64(0))
	w.plugin.m = map[string]func([]any) any{
		"NewGeneratedFile": func(a []any) any {
			g := &genOut{names: map[string]string{}, used: map[string]bool{}}
			for _, n := range types.Universe.Names() {
				g.used[n] = true
			}
			g.name, _ = a[0].(tStr)
			g.path, _ = a[1].(tStr)
			w.out = append(w.out, g)
			o := &tObj{kind: "generated file"}
			w.outs[o] = g
			return o
		},
		"Error": func(a []any) any { w.errs = append(w.errs, "an error is reported"); return nil },
	}
	gf := func(f func(e *tmplEval, g *genOut, in ssa.CallInstruction, a []any) any) tCall {
		return func(e *tmplEval, in ssa.CallInstruction, a []any) any {
			o, _ := a[0].(*tObj)
			g := w.outs[o]
			if g == nil {
				return e.stop(callPos(in), "the file written to is not known")
			}
			return f(e, g, in, a)
		}
	}
	e.calls["(*"+pgPkg+".GeneratedFile).P"] = gf(func(e *tmplEval, g *genOut, in ssa.CallInstruction, a []any) any {
		var s tStr
		for _, v := range sliceElems(a[1]) {
			if i, ok := v.(tIface); ok {
				if o, ok := i.v.(*tObj); ok && o.kind == "GoIdent" {
					s = s.cat(g.qualified(o))
					continue
				}
			}
			s = s.cat(e.print(callPos(in), v))
		}
		g.lines, g.pos = append(g.lines, s.cat(lit("\n"))), append(g.pos, callPos(in))
		return nil
	})
	e.calls["(*"+pgPkg+".GeneratedFile).QualifiedGoIdent"] = gf(func(e *tmplEval, g *genOut, in ssa.CallInstruction, a []any) any {
		o, ok := a[1].(*tObj)
		if !ok {
			return e.stop(callPos(in), "an identifier can not be followed")
		}
		return g.qualified(o)
	})
	write := gf(func(e *tmplEval, g *genOut, in ssa.CallInstruction, a []any) any {
		var s tStr
		for _, v := range sliceElems(a[1]) {
			t, ok := v.(tStr)
			if !ok {
				return e.stop(callPos(in), "the bytes written can not be followed")
			}
			s = s.cat(t)
		}
		g.lines, g.pos = append(g.lines, s), append(g.pos, callPos(in))
		return tTuple{int64(0), nil}
	})
	e.calls["(*"+pgPkg+".GeneratedFile).Write"] = write
	e.calls["fmt.Fprintf"] = func(e *tmplEval, in ssa.CallInstruction, a []any) any {
		return e.emitTo(in, w, a[0], e.sprintf(callPos(in), a[1], sliceElems(a[2])))
	}
	e.calls["fmt.Fprint"] = func(e *tmplEval, in ssa.CallInstruction, a []any) any {
		return e.emitTo(in, w, a[0], e.calls["fmt.Sprint"](e, in, a[1:]).(tStr))
	}
	e.calls["fmt.Fprintln"] = func(e *tmplEval, in ssa.CallInstruction, a []any) any {
		return e.emitTo(in, w, a[0], e.calls["fmt.Sprintln"](e, in, a[1:]).(tStr))
	}
	e.calls["runtime/debug.ReadBuildInfo"] = func(e *tmplEval, in ssa.CallInstruction, a []any) any {
		if !e.ask() {
			return tTuple{nil, false}
		}
		m := (&tObj{kind: "module"}).set("Version", symStr("the version of the generator", "v1.2.3")).set("Path", symStr("the module of the generator", "x"))
		return tTuple{(&tObj{kind: "build info"}).set("Main", m).set("GoVersion", symStr("the version of Go", "go1.24")), true}
	}
	e.calls["("+pgPkg+".Options).Run"] = func(e *tmplEval, in ssa.CallInstruction, a []any) any {
		c, ok := a[1].(*tClosure)
		if !ok {
			return e.stop(callPos(in), "the function of the plugin is not known")
		}
		w.ran++
		w.ret = e.run(c.fn, []any{w.plugin}, c.fv)
		return nil
	}
	return w, e
}

// emitTo writes to a file of the plugin, or to a buffer.
func (e *tmplEval) emitTo(in ssa.CallInstruction, w *pluginWorld, to any, s tStr) any {
	if i, ok := to.(tIface); ok {
		to = i.v
	}
	switch t := to.(type) {
	case *tObj:
		if g := w.outs[t]; g != nil {
			g.lines, g.pos = append(g.lines, s), append(g.pos, callPos(in))
			return tTuple{int64(0), nil}
		}
	case tSlot:
		switch b := (*t.v).(type) {
		case *tBuf:
			b.s = b.s.cat(s)
			return tTuple{int64(0), nil}
		case *tRec:
			for _, f := range b.f {
				if o, ok := f.(*tObj); ok && w.outs[o] != nil {
					return e.emitTo(in, w, o, s)
				}
			}
		}
	}
	return e.stop(callPos(in), "what is written to is not known")
}

// positions reports where the generator looks at the position of something in
// a list, and not just at the thing.
func positions(fn *ssa.Function) []token.Pos {
	var bad []token.Pos
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			bt, ok := p.Type().Underlying().(*types.Basic)
			if !ok || bt.Info()&types.IsInteger == 0 {
				continue
			}
			seen := map[ssa.Value]bool{}
			var walk func(v ssa.Value)
			walk = func(v ssa.Value) {
				if seen[v] {
					return
				}
				seen[v] = true
				for _, u := range *v.Referrers() {
					switch u := u.(type) {
					case *ssa.DebugRef:
						continue
					case *ssa.Phi:
						walk(u)
						continue
					case *ssa.IndexAddr:
						if u.Index == v {
							continue
						}
					case *ssa.Index:
						if u.Index == v {
							continue
						}
					case *ssa.BinOp:
						other := u.X
						if other == v {
							other = u.Y
						}
						switch u.Op {
						case token.ADD, token.SUB:
							if k, ok := other.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
								walk(u)
								continue
							}
						case token.LSS, token.GTR, token.LEQ, token.GEQ, token.NEQ:
							if endOfList(other) {
								continue
							}
						case token.EQL:
							if endOfList(other) {
								continue
							}
						}
					}
					bad = append(bad, u.Pos())
				}
			}
			walk(p)
		}
	}
	return bad
}

// endOfList is a value which tells the first or the last from the others: for
// those the schemas looked at have every kind of method there.
func endOfList(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.Int {
			n, _ := constant.Int64Val(v.Value)
			return n == 0 || n == -1
		}
	case *ssa.BinOp:
		if k, ok := v.Y.(*ssa.Const); ok && (v.Op == token.SUB || v.Op == token.ADD) && k.Value != nil {
			n, _ := constant.Int64Val(k.Value)
			return (n == 1 || n == -1) && isLenCall(v.X)
		}
	}
	return isLenCall(v)
}

func isLenCall(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len"
}

func rulePlugin(c *Checker) {
	c.rule("followed", "the text depends on nothing but the kinds of the methods and on where a name belongs; not on what something is called, nor on its position among others")
	c.rule("files", "one file is made for every file to be generated which has services, with the name and the import path it should have, and none for the others; no error is reported")
	c.rule("features", "the generator declares that it knows optional fields: without that, schemas which have some are refused")
	c.rule("compiles", "the text made is a Go file which compiles, together with the messages of the schema")
	p := c.load("linux")
	name := "cmd/protoc-gen-go-starpc.main"
	fn := c.anchor(p, name)
	w, e := newPluginWorld(p)
	worlds := 0
	var last *pluginWorld
	for {
		worlds++
		func() {
			defer func() {
				if x := recover(); x != nil {
					u, ok := x.(undecidedText)
					if !ok {
						panic(x)
					}
					c.fail("followed", name, u.where, "%s: undecided", u.msg)
					w = nil
				}
			}()
			if init := fn.Pkg.Func("init"); init != nil {
				e.runInit(fn.Pkg)
			}
			e.run(fn, nil, nil)
		}()
		if w == nil {
			return
		}
		c.pluginFiles(p, name, w)
		last = w
		asks, fns := e, e.fns
		if !e.next() || worlds > 16 {
			break
		}
		w2, e2 := newPluginWorld(p)
		e2.asks, e2.fns = asks.asks, fns
		w, e = w2, e2
	}
	for f := range e.fns {
		c.fns[FnName(f)] = true
		bad := positions(f)
		where := ""
		if len(bad) > 0 {
			where = p.Pos(bad[0])
		}
		c.site("followed", FnName(f), len(bad) == 0, where, "the text depends on the position of something among others: undecided")
	}
	if len(c.viol) != 0 {
		return
	}
	c.pluginCode(p, last)
	c.floor("files", 10)
}

// runInit sets the package variables, as far as they are constants.
func (e *tmplEval) runInit(pkg *ssa.Package) {
	init := pkg.Func("init")
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			g, ok := st.Addr.(*ssa.Global)
			if !ok || g.Name() == "init$guard" {
				continue
			}
			func() {
				defer func() {
					if x := recover(); x != nil {
						if _, ok := x.(undecidedText); !ok {
							panic(x)
						}
					}
				}()
				v := e.initVal(st.Val)
				e.global[g] = &v
			}()
		}
	}
}

func (e *tmplEval) initVal(v ssa.Value) any {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constant(v)
	case *ssa.Function:
		return &tClosure{fn: v}
	case *ssa.Convert, *ssa.ChangeType, *ssa.MakeInterface, *ssa.BinOp:
		return e.instr(v, e.initVal)
	case *ssa.Call:
		return e.call(v, e.args(v.Common(), e.initVal))
	}
	return e.stop(v.Pos(), "the variable can not be followed")
}

func (c *Checker) pluginFiles(p *Prog, name string, w *pluginWorld) {
	c.site("files", name, w.ran == 1, "", "the plugin is run %d times", w.ran)
	err, ok := w.ret, true
	if i, isi := err.(tIface); isi && i.v == nil {
		err = nil
	}
	ok = err == nil && len(w.errs) == 0
	c.site("files", name, ok, "", "an error is reported")
	feat, _ := (*w.plugin.f["SupportedFeatures"]).(int64)
	c.site("features", name, feat&1 != 0, "", "the features declared are %d", feat)
	n := 0
	for _, f := range w.files {
		want := 0
		if f.generate && len(f.svcs) > 0 {
			want = 1
		}
		have := 0
		for _, g := range w.out {
			if g.path.text() != f.importPath() {
				continue
			}
			have++
			n++
			where := "?"
			if len(g.pos) > 0 {
				where = p.Pos(g.pos[0])
			}
			c.site("files", name, g.name.show() == "<the file name prefix>_srpc.pb.go" && g.name.text() == f.prefix+"_srpc.pb.go", where, "the file is called %s", g.name.show())
		}
		what := "a file with services"
		if len(f.svcs) == 0 {
			what = "a file without services"
		} else if !f.generate {
			what = "a file which is just imported"
		}
		c.site("files", name, have == want, "", "for %s, %d files are made", what, have)
	}
	c.site("files", name, n == len(w.out), "", "a file with another import path is made")
}

// pluginCode decides the text.
func (c *Checker) pluginCode(p *Prog, w *pluginWorld) {
	overlay := map[string][]byte{}
	patterns := []string{"./srpc"}
	add := func(imp, file, text string) {
		rel := strings.TrimPrefix(imp, ModPath+"/")
		overlay[filepath.Join(c.repo, filepath.FromSlash(rel), file)] = []byte(text)
	}
	pats := map[string]bool{}
	msg := func(imp, pkg string, names ...string) {
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\nimport zz_srpc %q\n", pkg, ModPath+"/srpc")
		for _, n := range names {
			fmt.Fprintf(&b, "\ntype %s struct{ zz_srpc.Message }\n", n)
		}
		b.WriteString("\nvar _ zz_srpc.Message\n")
		add(imp, "zz_messages.go", b.String())
		pats["./"+strings.TrimPrefix(imp, ModPath+"/")] = true
	}
	type made struct {
		f     *exFile
		g     *genOut
		text  string
		lines []int // of the emitted text, the first line of every piece
		head  int
	}
	var all []*made
	for _, f := range w.files {
		msg(f.importPath(), f.goPkg, f.local...)
		for _, s := range f.svcs {
			for _, r := range s.rpcs {
				if r.inPkg != "" {
					msg(r.inPkg, path.Base(r.inPkg), r.in)
					msg(r.outPkg, path.Base(r.outPkg), r.out)
				}
			}
		}
		for _, g := range w.out {
			if g.path.text() != f.importPath() {
				continue
			}
			m := &made{f: f, g: g}
			var b strings.Builder
			for _, l := range g.lines {
				m.lines = append(m.lines, strings.Count(b.String(), "\n"))
				b.WriteString(l.text())
			}
			body := b.String()
			// the library adds the imports behind the package clause
			fs := token.NewFileSet()
			file, err := parser.ParseFile(fs, "x.go", body, parser.PackageClauseOnly)
			if err != nil {
				c.fail("compiles", f.pkg, "", "%v", err)
				return
			}
			c.site("compiles", "package clause of "+f.prefix, file.Name.Name == f.goPkg, "", "the package is called %s", file.Name.Name)
			at := fs.Position(file.Name.End()).Offset
			var imp strings.Builder
			for _, k := range g.order {
				fmt.Fprintf(&imp, "; import %s %q", g.names[k], k)
			}
			m.text = body[:at] + imp.String() + body[at:]
			all = append(all, m)
			add(f.importPath(), path.Base(g.name.text()), m.text)
		}
	}
	patterns = append(patterns, sortedKeys(pats)...)
	if dir := os.Getenv("STARPC_GEN"); dir != "" {
		for _, m := range all {
			os.WriteFile(filepath.Join(dir, m.f.pkg+".go"), []byte(m.text), 0o644)
		}
	}
	// source finds the place of the generator a place of the text comes from
	source := func(pos string) (where, text string) {
		for _, m := range all {
			file := m.f.pkg + "/" + path.Base(m.g.name.text()) + ":"
			if i := strings.Index(pos, file); i >= 0 {
				var line int
				fmt.Sscanf(pos[i+len(file):], "%d", &line)
				for k, l := range m.lines {
					if l < line {
						where, text = p.Pos(m.g.pos[k]), strings.TrimSpace(m.g.lines[k].show())
					}
				}
			}
		}
		return
	}
	lines, rpcs := 0, 0
	for _, m := range all {
		lines += len(m.g.lines)
		for _, s := range m.f.svcs {
			rpcs += len(s.rpcs)
		}
	}
	c.extra["text_extracted"] = map[string]int{"files": len(all), "pieces": lines, "methods_of_the_schemas": rpcs}
	gen, errs := loadOverlay(c.repo, overlay, patterns)
	for _, er := range errs {
		where, text := source(er.Pos)
		what := er.Msg
		if text != "" {
			what = fmt.Sprintf("%s in the line %q", er.Msg, text)
		}
		c.fail("compiles", "generated code", where, "%s", what)
	}
	if len(errs) != 0 {
		return
	}
	for _, m := range all {
		c.site("compiles", "generated "+m.f.prefix, true, "", "")
	}
	// the rules of generated code, on the code made
	sub := newChecker(c.id, c.repo)
	sub.progs["linux"], sub.p = gen, gen
	var svcs []*genSvc
	for _, m := range all {
		pf := &protoFile{path: genDir + "/" + m.f.pkg + "/" + m.f.prefix + ".proto", pkg: exProto}
		for _, s := range m.f.svcs {
			ps := &protoSvc{name: s.name, goName: s.goName}
			for _, r := range s.rpcs {
				q := r.protoRPC
				q.goName = r.goName
				ip, op := r.inPkg, r.outPkg
				if ip == "" {
					ip, op = m.f.importPath(), m.f.importPath()
				}
				q.in, q.out = "*"+ip+"."+r.in, "*"+op+"."+r.out
				ps.rpcs = append(ps.rpcs, &q)
			}
			svcs = append(svcs, &genSvc{file: pf, svc: ps, pkg: genDir + "/" + m.f.pkg})
		}
	}
	sub.svcs = svcs
	for _, part := range []struct {
		what string
		f    func(*Checker)
	}{{"handler", ruleGenServer}, {"client", ruleGenClient}} {
		sub.rules, sub.rtext, sub.obl, sub.viol = nil, map[string]string{}, map[string]*Obl{}, nil
		func() {
			defer func() {
				if x := recover(); x != nil {
					a, ok := x.(abort)
					if !ok {
						panic(x)
					}
					sub.viol = append(sub.viol, a.v)
				}
			}()
			part.f(sub)
		}()
		for _, r := range sub.rules {
			c.rule(part.what+" "+r, "in the code made: "+sub.rtext[r])
		}
		for _, k := range sortedKeys(sub.obl) {
			o := sub.obl[k]
			n := c.oblig(part.what+" "+o.Rule, o.Construct)
			n.Instances += o.Instances
			n.Failed += o.Failed
		}
		for _, v := range sub.viol {
			v.Rule = part.what + " " + v.Rule
			if where, text := source(v.Where); where != "" {
				v.Msg += fmt.Sprintf(" (%s, in the text %q)", v.Where, text)
				v.Where = where
			}
			c.viol = append(c.viol, v)
		}
	}
	for f := range sub.fns {
		c.fns[f] = true
	}
	c.nPath += sub.nPath
	c.nEv += sub.nEv
	for k, r := range sub.runs {
		c.runs["generated "+k] = r
	}
}

type posErr struct{ Pos, Msg string }

// loadOverlay loads packages of the repository together with files which are
// not in it.
func loadOverlay(dir string, overlay map[string][]byte, patterns []string) (*Prog, []posErr) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule |
			packages.NeedDeps,
		Dir:     dir,
		Env:     goEnv(),
		Overlay: overlay,
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, []posErr{{"", err.Error()}}
	}
	var errs []posErr
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, posErr{e.Pos, e.Msg})
		}
	})
	if len(errs) != 0 {
		sort.Slice(errs, func(i, j int) bool { return errs[i].Pos < errs[j].Pos })
		return nil, errs
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.SanityCheckFunctions&0)
	prog.Build()
	p := &Prog{Name: "generated", Dir: dir, Fset: prog.Fset, Pkgs: pkgs, SSA: prog, ByPath: map[string]*ssa.Package{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, []posErr{{"", "no SSA for " + pkgs[i].PkgPath}}
		}
		p.ByPath[sp.Pkg.Path()] = sp
	}
	p.index()
	return p, nil
}

func init() { props["S39"] = rulePlugin }
