package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obl is an obligation: one rule applied to one construct.
type Obl struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Instances int    `json:"instances"` // paths, sites or transitions examined
	Failed    int    `json:"failed"`
}

// Violation is a construct which breaks a rule.
type Violation struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	Where     string   `json:"where"`
	Msg       string   `json:"message"`
	Root      string   `json:"entry_point,omitempty"`
	Trace     []string `json:"path,omitempty"`
}

// Checker decides one property.
type Checker struct {
	id    string
	repo  string
	tier  string
	progs map[string]*Prog
	p     *Prog // linux configuration
	runs  map[string]*Run
	rules []string
	rtext map[string]string
	obl   map[string]*Obl
	viol  []*Violation
	vkeys map[string]bool
	extra map[string]any
	nPath int
	nEv   int
	fns   map[string]bool
	known []string
	svcs  []*genSvc // the services to decide, if not those of the schemas
}

func newChecker(id, repo string) *Checker {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	return &Checker{id: id, repo: repo, tier: tier, progs: map[string]*Prog{}, runs: map[string]*Run{}, rtext: map[string]string{},
		obl: map[string]*Obl{}, vkeys: map[string]bool{}, extra: map[string]any{}, fns: map[string]bool{}}
}

// abort stops the analysis of the property with a violation.
type abort struct{ v *Violation }

// load loads a configuration.
func (c *Checker) load(name string) *Prog {
	if p, ok := c.progs[name]; ok {
		return p
	}
	var p *Prog
	var err error
	switch name {
	case "linux":
		p, err = Load(name, c.repo, goEnv(), "./...")
	case "js":
		p, err = Load(name, c.repo, goEnv("GOOS=js", "GOARCH=wasm", "CGO_ENABLED=0"), "./srpc", "./rpcstream", "./echo", "./mock")
	}
	if err != nil {
		panic(abort{&Violation{Rule: "load", Construct: name, Msg: "the configuration could not be analysed: " + err.Error()}})
	}
	c.progs[name] = p
	if name == "linux" {
		c.p = p
	}
	return p
}

// rule declares a rule; the text goes to the evidence.
func (c *Checker) rule(id, text string) {
	if _, ok := c.rtext[id]; !ok {
		c.rules = append(c.rules, id)
		c.rtext[id] = text
	}
}

func (c *Checker) oblig(rule, construct string) *Obl {
	k := rule + "\x00" + construct
	o := c.obl[k]
	if o == nil {
		o = &Obl{Rule: rule, Construct: construct}
		c.obl[k] = o
	}
	return o
}

// check records one instance of a rule on a construct.
func (c *Checker) check(rule, construct string, ok bool, r *Run, p *Path, ev *Event, msg string, a ...any) bool {
	o := c.oblig(rule, construct)
	o.Instances++
	if ok {
		return true
	}
	o.Failed++
	v := &Violation{Rule: rule, Construct: construct, Msg: fmt.Sprintf(msg, a...)}
	key := rule + "|" + construct + "|" + v.Msg
	if c.vkeys[key] {
		return false
	}
	c.vkeys[key] = true
	if r != nil {
		v.Root = r.name
		if ev != nil {
			v.Where = c.where(r, ev)
		} else if p != nil && len(p.Events) > 0 {
			v.Where = r.p.Pos(p.Events[len(p.Events)-1].Pos)
		} else if r.fn != nil {
			v.Where = r.p.Pos(r.fn.Pos())
		}
		if p != nil {
			v.Trace = traceOf(r, p)
		}
	}
	c.viol = append(c.viol, v)
	return false
}

// fail records a violation which is not tied to a path.
func (c *Checker) fail(rule, construct, where, msg string, a ...any) {
	o := c.oblig(rule, construct)
	o.Instances++
	o.Failed++
	v := &Violation{Rule: rule, Construct: construct, Where: where, Msg: fmt.Sprintf(msg, a...)}
	key := rule + "|" + construct + "|" + v.Msg
	if !c.vkeys[key] {
		c.vkeys[key] = true
		c.viol = append(c.viol, v)
	}
}

// site records one instance of a rule on a source construct.
func (c *Checker) site(rule, construct string, ok bool, where, msg string, a ...any) bool {
	if !ok {
		c.fail(rule, construct, where, msg, a...)
		return false
	}
	c.oblig(rule, construct).Instances++
	return true
}

// floor fails if fewer instances of the rule were found than confirmed by hand.
func (c *Checker) floor(rule string, n int) {
	got := 0
	for _, o := range c.obl {
		if o.Rule == rule {
			got += o.Instances
		}
	}
	if got < n {
		c.fail(rule, "instances", "", "only %d instances of the rule were found, %d are known to exist", got, n)
	}
}

func (c *Checker) where(r *Run, ev *Event) string {
	w := r.p.Pos(ev.Pos)
	if ev.Stack != nil {
		w += " (" + FnName(ev.Stack.fn) + ")"
	}
	return w
}

func traceOf(r *Run, p *Path) []string {
	var out []string
	for _, e := range p.Events {
		s := fmt.Sprintf("%s %s", r.p.Pos(e.Pos), e.Kind)
		if e.Name != "" {
			s += " " + e.Name
		}
		if e.Addr != nil {
			s += " " + e.Addr.String()
		}
		if e.Val != nil {
			s += " = " + e.Val.String()
		}
		out = append(out, s)
	}
	if p.St != nil {
		var f []string
		for t, v := range p.St.facts {
			f = append(f, fmt.Sprintf("%v: %s", v, t))
		}
		sort.Strings(f)
		out = append(out, "assuming "+strings.Join(f, "; "))
	}
	out = append(out, fmt.Sprintf("ends: %s %v", p.End, p.Ret))
	if len(out) > 120 {
		out = append(out[:60:60], append([]string{"..."}, out[len(out)-60:]...)...)
	}
	return out
}

// Run is the set of paths of one root.
type Run struct {
	c     *Checker
	p     *Prog
	name  string
	fn    *ssa.Function
	x     *Exec
	paths []*Path
}

// boundaries are functions which are verified as roots of their own and are not
// entered from elsewhere.
var boundaries = []string{
	"srpc.PacketReadWriter.ReadPump", "srpc.PacketReadWriter.ReadToHandler", "srpc.Server.HandleStream", "srpc.Server.AcceptMuxedConn",
	"srpc.AcceptMuxedListener", "rpcstream.ReadPump", "rpcstream.ReadToHandler",
}

// opts of a run.
type ropts struct {
	opaque []string // boundaries besides the default ones
	enter  []string // default boundaries which are entered
	args   []*Term
	cfg    string
	pb     bool // enter the generated code, except for the methods of other messages
	rounds int  // loops are followed for so many rounds as they are
	live   bool // the receiver is not nil, in generated code
	ovf    bool // sums of numbers from the input may overflow
}

func (c *Checker) anchor(p *Prog, name string) *ssa.Function {
	fn := p.Func(name)
	if fn == nil || len(fn.Blocks) == 0 {
		panic(abort{&Violation{Rule: "anchor", Construct: name, Msg: "the function " + name + " does not exist any more: the property can not be decided"}})
	}
	return fn
}

// run enumerates the paths of a function.
func (c *Checker) run(name string, o ...ropts) *Run {
	var opt ropts
	if len(o) > 0 {
		opt = o[0]
	}
	if opt.cfg == "" {
		opt.cfg = "linux"
	}
	key := fmt.Sprint(name, opt.cfg, opt.opaque, opt.enter, opt.pb, opt.ovf, opt.rounds, opt.live)
	if r, ok := c.runs[key]; ok {
		return r
	}
	p := c.load(opt.cfg)
	r := c.runFn(p, name, c.anchor(p, name), opt)
	c.runs[key] = r
	return r
}

func (c *Checker) runFn(p *Prog, name string, fn *ssa.Function, opt ropts) *Run {
	x := newExec(p)
	for _, b := range boundaries {
		x.opaque[b] = true
	}
	for _, b := range opt.opaque {
		x.opaque[b] = true
	}
	for _, b := range opt.enter {
		delete(x.opaque, b)
	}
	x.pb, x.ovf, x.rounds, x.live = opt.pb, opt.ovf, opt.rounds, opt.live
	r := &Run{c: c, p: p, name: name, fn: fn, x: x}
	r.paths = x.RunRoot(fn, opt.args...)
	if x.over {
		panic(abort{&Violation{Rule: "bound", Construct: name, Where: p.Pos(fn.Pos()), Msg: "too many paths to enumerate: undecided"}})
	}
	if len(r.paths) == 0 {
		panic(abort{&Violation{Rule: "bound", Construct: name, Where: p.Pos(fn.Pos()), Msg: "no path was found: undecided"}})
	}
	c.nPath += len(r.paths)
	for _, q := range r.paths {
		c.nEv += len(q.Events)
	}
	c.rule("nil-call", "no method or function is called on a path which found the value to be nil")
	nilCalls(c, r, r.paths)
	for n := range x.inlined {
		c.fns[n] = true
	}
	return r
}

// nilCalls reports the calls on values which were found to be nil.
func nilCalls(c *Checker, r *Run, paths []*Path) {
	for _, q := range paths {
		var bad *Event
		for _, e := range q.Events {
			if e.Kind == "nilcall" && bad == nil {
				bad = e
			}
			nilCalls(c, r, e.Sub)
		}
		what := ""
		if bad != nil {
			what = bad.Name + " on " + bad.Val.String()
		}
		c.check("nil-call", r.name, bad == nil, r, q, bad, "a call on nil: %s", what)
	}
}

// implOf returns the type which a constructor returns behind an interface (or
// the named type it returns).
func (c *Checker) implOf(p *Prog, ctor string, res int) types.Type {
	fn := c.anchor(p, ctor)
	var t types.Type
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok && res < len(r.Results) {
				if k, ok := r.Results[res].(*ssa.Const); ok && k.IsNil() {
					continue
				}
				u := traceType(r.Results[res], map[ssa.Value]bool{})
				if u == nil || t != nil && !types.Identical(t, u) {
					panic(abort{&Violation{Rule: "anchor", Construct: ctor, Where: p.Pos(fn.Pos()), Msg: "the implementation behind " + ctor + " could not be determined"}})
				}
				t = u
			}
		}
	}
	if t == nil {
		panic(abort{&Violation{Rule: "anchor", Construct: ctor, Where: p.Pos(fn.Pos()), Msg: "the implementation behind " + ctor + " could not be determined"}})
	}
	return t
}

func traceType(v ssa.Value, seen map[ssa.Value]bool) types.Type {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return v.X.Type()
	case *ssa.ChangeInterface:
		return traceType(v.X, seen)
	case *ssa.Phi:
		var t types.Type
		for _, e := range v.Edges {
			if u := traceType(e, seen); u != nil {
				if t != nil && !types.Identical(t, u) {
					return nil
				}
				t = u
			}
		}
		return t
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && f.Signature.Results().Len() == 1 && len(f.Blocks) > 0 {
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					if u := traceType(r.Results[0], seen); u != nil {
						return u
					}
				}
			}
		}
	}
	if !types.IsInterface(v.Type()) {
		return v.Type()
	}
	return nil
}

// method returns the method of a type.
func (c *Checker) method(p *Prog, t types.Type, name string) *ssa.Function {
	for _, u := range []types.Type{t, types.NewPointer(t)} {
		ms := p.SSA.MethodSets.MethodSet(u)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				if fn := p.SSA.MethodValue(ms.At(i)); fn != nil && len(fn.Blocks) > 0 {
					return fn
				}
			}
		}
	}
	panic(abort{&Violation{Rule: "anchor", Construct: typeKeyFull(t) + "." + name, Msg: "the method does not exist any more: the property can not be decided"}})
}

// runMethod runs a method of a type found through implOf.
func (c *Checker) runMethod(t types.Type, name string, o ...ropts) *Run {
	var opt ropts
	if len(o) > 0 {
		opt = o[0]
	}
	cfg := opt.cfg
	if cfg == "" {
		cfg = "linux"
	}
	key := fmt.Sprint("method ", typeKeyFull(t), name, cfg, opt.opaque, opt.enter, opt.rounds)
	if r, ok := c.runs[key]; ok {
		return r
	}
	p := c.load(cfg)
	fn := c.method(p, t, name)
	r := c.runFn(p, FnName(fn), fn, opt)
	c.runs[key] = r
	return r
}

// Role is a field found by its type, and by name if several have the type.
type Role struct {
	aux  string
	typ  types.Type
	path []int // field indices from the outer struct, through embedded ones
	out  types.Type
}

// role finds the field of a struct, through embedded structs of the module.
func (c *Checker) role(t types.Type, what string, pred func(types.Type) bool, names ...string) *Role {
	var found []*Role
	var walk func(t types.Type, path []int)
	walk = func(u types.Type, path []int) {
		st, ok := u.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			np := append(append([]int(nil), path...), i)
			if pred(f.Type()) {
				found = append(found, &Role{aux: typeKey(u) + "." + f.Name(), typ: f.Type(), path: np, out: t})
			}
			ft := f.Type()
			if pt, ok := ft.Underlying().(*types.Pointer); ok {
				ft = pt.Elem()
			}
			if n, ok := types.Unalias(ft).(*types.Named); ok && inModule(n.Obj().Pkg()) && !types.IsInterface(n) {
				if _, isPtr := f.Type().Underlying().(*types.Pointer); f.Embedded() || !isPtr {
					walk(n, np)
				}
			}
		}
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	walk(t, nil)
	for _, n := range names {
		for _, f := range found {
			if f.aux[strings.LastIndexByte(f.aux, '.')+1:] == n {
				return f
			}
		}
	}
	if len(found) == 1 {
		return found[0]
	}
	panic(abort{&Violation{Rule: "anchor", Construct: typeKey(t), Msg: fmt.Sprintf("the field holding %s could not be identified (%d candidates): the property can not be decided", what, len(found))}})
}

// addr builds the address term of the role in an object.
func (ro *Role) addr(x *Exec, obj *Term) *Term {
	t := ro.out
	a := obj
	for _, i := range ro.path {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		a = x.fieldAddr(a, types.NewPointer(t), i)
		t = t.Underlying().(*types.Struct).Field(i).Type()
	}
	return a
}

func (ro *Role) is(a *Term) bool { return a != nil && a.Op == "field" && a.Aux == ro.aux }

func tyNamed(full string) func(types.Type) bool {
	return func(t types.Type) bool {
		n, ok := types.Unalias(t).(*types.Named)
		return ok && typeKey(n) == full
	}
}

func tyBasic(k types.BasicKind) func(types.Type) bool {
	return func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == k
	}
}

func tyString(s string) func(types.Type) bool {
	return func(t types.Type) bool { return types.TypeString(t, nil) == s }
}

// at reads a memory location in the state of an event.
func (r *Run) at(ev *Event, a *Term) *Term { return r.x.load(ev.st, a, elemType(a)) }

// fieldAt reads a field (by name) of the object a pointer term denotes.
func (r *Run) fieldAt(st *State, obj *Term, name string) *Term {
	t := obj.typ()
	if t == nil {
		return nil
	}
	p, ok := t.(*types.Pointer)
	if !ok {
		return nil
	}
	s, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return r.x.load(st, r.x.fieldAddr(obj, obj.Typ, i), s.Field(i).Type())
		}
	}
	return nil
}

// method name of a call event.
func (e *Event) callee() string {
	if e.Kind != "call" && e.Kind != "enter" {
		return ""
	}
	return e.Name
}

// methodName is the last component of the callee.
func (e *Event) methodName() string {
	n := e.callee()
	return n[strings.LastIndexByte(n, '.')+1:]
}

func (e *Event) isCall(names ...string) bool {
	if e.Kind != "call" {
		return false
	}
	for _, n := range names {
		if e.Name == n {
			return true
		}
	}
	return false
}

// holds returns the acquisition of a lock at an address with the aux.
func (e *Event) holds(ro *Role) *Lock {
	for i := range e.Locks {
		if ro.is(e.Locks[i].Addr) {
			return &e.Locks[i]
		}
	}
	return nil
}

// Section is one critical section of a path.
type Section struct {
	lock, unlock *Event
	evs          []*Event
	entry        *State
	exit         *State
	n            int
	obj          *Term
}

// sections splits a path into the critical sections of a lock.
func (r *Run) sections(p *Path, ro *Role) []*Section {
	var out []*Section
	var cur *Section
	for i, e := range p.Events {
		switch {
		case e.Kind == "lock" && ro.is(e.Addr):
			cur = &Section{lock: e, obj: e.Addr.Args[0]}
			if i+1 < len(p.Events) {
				cur.entry = p.Events[i+1].st
				for _, l := range p.Events[i+1].Locks {
					if l.Addr == e.Addr {
						cur.n = l.N
					}
				}
			}
			out = append(out, cur)
		case e.Kind == "unlock" && ro.is(e.Addr) && cur != nil:
			cur.unlock = e
			cur.exit = e.st
			cur = nil
		default:
			if cur != nil {
				cur.evs = append(cur.evs, e)
			}
		}
	}
	return out
}

// allStores finds the SSA stores to a field outside of fresh objects.
func (p *Prog) storeSites(aux string) map[token.Pos]*ssa.Function {
	out := map[token.Pos]*ssa.Function{}
	for fn := range p.allFns {
		if !inModule(fnPkg(fn)) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				name, _ := structField(fa.X.Type(), fa.Field)
				if fkOf(fa.X.Type(), fa.Field).typ+"."+name == aux {
					out[st.Pos()] = fn
				}
			}
		}
	}
	return out
}

// known findings: lines "known: property=<id> rule=<rule> construct=<construct> | text".
func (c *Checker) loadKnown(path string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property="+c.id+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+c.id+" ")
		key, text, _ := strings.Cut(rest, " | ")
		out[strings.TrimSpace(key)] = text
	}
	return out
}

// finish writes the evidence and the report; the exit code is returned.
func (c *Checker) finish(verif string, start time.Time) int {
	known := c.loadKnown(filepath.Join(verif, "known-findings.txt"))
	var viol []*Violation
	for _, v := range c.viol {
		k := fmt.Sprintf("rule=%s construct=%s", v.Rule, v.Construct)
		if text, ok := known[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, text)
			continue
		}
		viol = append(viol, v)
	}
	obls := make([]*Obl, 0, len(c.obl))
	nob, ndis, inst := 0, 0, 0
	for _, k := range sortedKeys(c.obl) {
		o := c.obl[k]
		obls = append(obls, o)
		nob++
		inst += o.Instances
		if o.Failed == 0 {
			ndis++
		}
	}
	if nob == 0 && len(viol) == 0 {
		viol = append(viol, &Violation{Rule: "vacuous", Construct: c.id, Msg: "no obligation was generated"})
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var rules []string
	for _, r := range c.rules {
		rules = append(rules, r+": "+c.rtext[r])
	}
	cfgs := sortedKeys(c.progs)
	cov := map[string]any{
		"explanation": "Static analysis of the type-checked SSA form of /repo's current source; nothing is executed and no solver is used. " +
			"A path-sensitive dataflow analysis with value numbering (typestate, locksets, linear facts about lengths) follows the control-flow paths of the entry points " +
			"through calls inside the module, with one generic iteration under inferred invariants for every loop, and each rule is decided on every path, critical section or site it applies to.",
		"obligations":        nob,
		"discharged":         ndis,
		"instances_examined": inst,
		"rules":              rules,
		"obligation_list":    obls,
		"control_flow_paths": c.nPath,
		"events_on_paths":    c.nEv,
		"functions_analysed": sortedKeys(c.fns),
		"configurations":     cfgs,
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	ev := map[string]any{
		"property": c.id, "tier": c.tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": []string{
			"the documented behaviour of the standard library, of util/broadcast (HoldLock runs the callback under the lock), and of the libraries behind interfaces",
			"values behind different parameters do not alias",
		},
		"wall_s": time.Since(start).Seconds(), "violations": len(viol),
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	writeJSON(filepath.Join(verif, "evidence", c.id+".json"), ev)
	if len(viol) == 0 {
		fmt.Printf("OK property=%s obligations=%d instances=%d paths=%d\n", c.id, nob, inst, c.nPath)
		return 0
	}
	rep := filepath.Join(verif, "evidence", c.id+".report.json")
	writeJSON(rep, map[string]any{"property": c.id, "violations": viol,
		"replay": fmt.Sprintf("cd /verif && ./check.sh %s", c.id)})
	for _, v := range viol {
		fmt.Printf("%s: %s [%s: %s]", v.Where, v.Msg, v.Rule, v.Construct)
		if v.Root != "" {
			fmt.Printf(" on a path of %s", v.Root)
		}
		fmt.Println()
		if os.Getenv("STARPC_TRACE") != "" {
			for _, l := range v.Trace {
				fmt.Println("    " + l)
			}
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, rep)
	return 1
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(path, append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}
