package main

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is one observable step of a path.
type Event struct {
	Kind  string // call enter exit store load lock unlock broadcast waitch send recv close select go cancel mapupdate loop panic bounds wcancel
	Name  string // callee, field
	Fn    *ssa.Function
	Recv  *Term
	Args  []*Term
	Res   []*Term
	Addr  *Term
	Val   *Term
	Pos   token.Pos
	Stack *Frame
	Defer bool
	Locks []Lock
	Cases []SelCase
	Pick  int
	Block bool
	Sub   []*Path
	Loop  *LoopInfo
	st    *State // snapshot at the event (before its effects)
	Idx   int
}

// SelCase is a case of a select.
type SelCase struct {
	Send bool
	Chan *Term
	Val  *Term
}

// Lock is a held lock.
type Lock struct {
	Addr *Term
	Mode string
	N    int // acquisition number
}

// LoopInfo describes a jump back to a loop header.
type LoopInfo struct {
	Header  *ssa.BasicBlock
	Generic bool // the iteration which ends here started from the generic state
	Phis    []*ssa.Phi
	Cur     []*Term // value at the start of the iteration
	Next    []*Term // value carried into the next one
	Sym     []*Term // generic value (first iteration only)
}

// Path is one complete execution path of a root.
type Path struct {
	Events []*Event
	Ret    []*Term
	End    string // return, loop, panic
	St     *State
	Root   string
}

type evNode struct {
	ev   *Event
	prev *evNode
	n    int
}

// State is the abstract state of a path.
type State struct {
	x      *Exec
	mem    map[*Term]*Term
	memSh  bool
	facts  map[*Term]bool
	fSh    bool
	epoch  map[*Term]int
	epSh   bool
	evs    *evNode
	locks  []Lock
	recs   []map[*Term]bool
	fresh_ map[*Term]bool // objects known only to this path
}

func (s *State) clone() *State {
	s.memSh, s.fSh, s.epSh = true, true, true
	c := *s
	return &c
}

// snap freezes the state for later queries.
func (s *State) snap() *State { return s.clone() }

func (s *State) setMem(a, v *Term) {
	if s.memSh {
		m := make(map[*Term]*Term, len(s.mem)+4)
		for k, x := range s.mem {
			m[k] = x
		}
		s.mem, s.memSh = m, false
	}
	if v == nil {
		delete(s.mem, a)
	} else {
		s.mem[a] = v
	}
}

func (s *State) setFact(t *Term, b bool) {
	if s.fSh {
		m := make(map[*Term]bool, len(s.facts)+4)
		for k, x := range s.facts {
			m[k] = x
		}
		s.facts, s.fSh = m, false
	}
	s.facts[t] = b
}

func (s *State) bump(base *Term) {
	if s.epSh {
		m := make(map[*Term]int, len(s.epoch)+4)
		for k, x := range s.epoch {
			m[k] = x
		}
		s.epoch, s.epSh = m, false
	}
	s.x.tt.next++
	s.epoch[base] = s.x.tt.next
	s.record(s.x.tt.mk("epoch", "", nil, base))
}

func (s *State) record(a *Term) {
	for _, r := range s.recs {
		r[a] = true
	}
}

func (s *State) emit(ev *Event, fr *Frame) *Event {
	ev.Stack = fr
	ev.Locks = s.locks
	ev.st = s.snap()
	n := 0
	if s.evs != nil {
		n = s.evs.n
	}
	ev.Idx = n
	s.evs = &evNode{ev, s.evs, n + 1}
	return ev
}

func (s *State) events() []*Event {
	if s.evs == nil {
		return nil
	}
	out := make([]*Event, s.evs.n)
	for n := s.evs; n != nil; n = n.prev {
		out[n.n-1] = n.ev
	}
	return out
}

// Frame is one activation.
type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	envSh  bool
	defers []deferred
	loops  map[*ssa.BasicBlock]*loopState
	lSh    bool
	caller *Frame
	site   token.Pos
	depth  int
	dry    map[*ssa.BasicBlock]bool
	dryHdr *ssa.BasicBlock
	inDef  bool
}

type loopState struct {
	unroll  bool         // the number of rounds is a small constant
	round   int
	mono    map[int]bool // never less than on entry
	init    []*Term
	generic bool
	cur     []*Term
	mods    map[*Term]bool
	keep    map[int]bool // phis which never change
	onBack  func(st *State, vals []*Term)
}

type deferred struct {
	com  *ssa.CallCommon
	fn   *Term
	args []*Term
	pos  token.Pos
}

func (f *Frame) clone() *Frame {
	f.envSh, f.lSh = true, true
	c := *f
	c.defers = append([]deferred(nil), f.defers...)
	return &c
}

func (f *Frame) set(v ssa.Value, t *Term) {
	if f.envSh {
		m := make(map[ssa.Value]*Term, len(f.env)+8)
		for k, x := range f.env {
			m[k] = x
		}
		f.env, f.envSh = m, false
	}
	f.env[v] = t
}

func (f *Frame) setLoop(b *ssa.BasicBlock, l *loopState) {
	if f.lSh {
		m := make(map[*ssa.BasicBlock]*loopState, len(f.loops)+2)
		for k, x := range f.loops {
			m[k] = x
		}
		f.loops, f.lSh = m, false
	}
	f.loops[b] = l
}

// Exec runs one root.
type Exec struct {
	pb       bool // generated code is entered
	ovf      bool // sums of numbers from the input may overflow
	rounds   int  // loops are followed for so many rounds as they are
	live     bool // the receiver is not nil
	p        *Prog
	tt       *TermTab
	paths    []*Path
	limit    int
	over     bool
	notes    map[string]bool
	inlined  map[string]bool
	loopsets map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	flags    map[*ssa.BasicBlock][]loopFlag
	steps    int
	// opaque names in-module functions which are not to be entered.
	opaque   map[string]bool
	noteLoad bool
}

func newExec(p *Prog) *Exec {
	return &Exec{p: p, tt: newTermTab(), limit: 40000, notes: map[string]bool{}, inlined: map[string]bool{},
		loopsets: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, flags: map[*ssa.BasicBlock][]loopFlag{}, opaque: map[string]bool{}}
}

const maxSteps = 8000000

func (x *Exec) note(f string, a ...any) { x.notes[fmt.Sprintf(f, a...)] = true }

// outcome continuation: results nil + end != "" if the path ended early.
type kont func(st *State, res []*Term, end string)

func (x *Exec) newState() *State {
	return &State{x: x, mem: map[*Term]*Term{}, facts: map[*Term]bool{}, epoch: map[*Term]int{}}
}

// RunRoot enumerates the paths of a function with symbolic parameters.
func (x *Exec) RunRoot(fn *ssa.Function, args ...*Term) []*Path {
	st := x.newState()
	if len(args) == 0 {
		for i, p := range fn.Params {
			args = append(args, x.tt.mk("param", fmt.Sprintf("%d/%s", i, p.Name()), p.Type()))
		}
		// a method is called on a live object
		if fn.Signature.Recv() != nil && len(args) > 0 && (!x.pb || x.live) {
			if _, ok := fn.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
				st.setFact(x.mkEqNil(args[0]), false)
			}
		}
	}
	var fvs []*Term
	for i, fv := range fn.FreeVars {
		fvs = append(fvs, x.tt.mk("param", fmt.Sprintf("fv%d/%s", i, fv.Name()), fv.Type()))
	}
	root := FnName(fn)
	x.callFn(st, nil, fn, args, fvs, fn.Pos(), func(st *State, res []*Term, end string) {
		x.addPath(&Path{Events: st.events(), Ret: res, End: end, St: st, Root: root})
	})
	return x.paths
}

func (x *Exec) addPath(p *Path) {
	if p.End == "" {
		p.End = "return"
	}
	x.paths = append(x.paths, p)
	if len(x.paths) > x.limit {
		x.over = true
	}
}

func (x *Exec) stop() bool {
	x.steps++
	if x.steps > maxSteps {
		x.over = true
	}
	return x.over
}

// callFn runs a function body inline.
func (x *Exec) callFn(st *State, caller *Frame, fn *ssa.Function, args, fvs []*Term, site token.Pos, k kont) {
	if x.stop() {
		return
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]*Term{}, loops: map[*ssa.BasicBlock]*loopState{}, caller: caller, site: site}
	if caller != nil {
		fr.depth = caller.depth + 1
		fr.inDef = caller.inDef
	}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = x.tt.fresh("sym", p.Name(), p.Type())
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(fvs) {
			fr.env[p] = fvs[i]
		} else {
			fr.env[p] = x.tt.fresh("sym", p.Name(), p.Type())
		}
	}
	x.inlined[FnName(fn)] = true
	x.block(st, fr, fn.Blocks[0], nil, k)
}

func (x *Exec) loopSet(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if m, ok := x.loopsets[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				set := m[s]
				if set == nil {
					set = map[*ssa.BasicBlock]bool{s: true}
					m[s] = set
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					c := work[len(work)-1]
					work = work[:len(work)-1]
					if set[c] {
						continue
					}
					set[c] = true
					work = append(work, c.Preds...)
				}
			}
		}
	}
	x.loopsets[fn] = m
	return m
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

// block enters b coming from pred.
func (x *Exec) block(st *State, fr *Frame, b, pred *ssa.BasicBlock, k kont) {
	if x.stop() {
		return
	}
	if fr.dry != nil && !fr.dry[b] {
		return
	}
	phis := phisOf(b)
	vals := make([]*Term, len(phis))
	if pred != nil {
		pi := -1
		for i, p := range b.Preds {
			if p == pred {
				pi = i
			}
		}
		for i, p := range phis {
			vals[i] = x.val(fr, p.Edges[pi])
		}
	}
	if body, ok := x.loopSet(fr.fn)[b]; ok {
		if pred != nil && b.Dominates(pred) {
			ls := fr.loops[b]
			if ls.unroll {
				if ls.round > 0 {
					if ls.round >= x.rounds {
						k(st, nil, "rounds")
						return
					}
					fr.setLoop(b, &loopState{unroll: true, round: ls.round + 1})
				}
				for i, p := range phis {
					fr.set(p, vals[i])
				}
				x.instrs(st, fr, b, len(phis), k)
				return
			}
			flags := x.loopFlags(fr.fn, b, body)
			if fr.dry == nil {
				// the round which ends here may have decided to leave the loop
				for _, f := range flags {
					c := f.term(x, st, fr, phis, vals)
					if f.neg {
						c = x.not(c)
					}
					e := st.eval(c) // it goes on
					if e == 1 {
						continue
					}
					s2, f2 := st.clone(), fr.clone()
					s2.assume(c, false)
					for i, p := range phis {
						f2.set(p, vals[i])
					}
					x.instrs(s2, f2, b, len(phis), k)
					if e == -1 {
						return
					}
					st.assume(c, true)
				}
			}
			if ls.generic {
				st.emit(&Event{Kind: "loop", Pos: blockPos(b), Loop: &LoopInfo{Header: b, Generic: true, Phis: phis, Cur: ls.cur, Next: vals}}, fr)
				if ls.onBack != nil {
					ls.onBack(st, vals)
				}
				if fr.dryHdr == b { // every change of the loop was recorded
					return
				}
				k(st, nil, "loop")
				return
			}
			syms := make([]*Term, len(phis))
			for i, p := range phis {
				if ls.keep[i] {
					syms[i] = ls.cur[i]
				} else {
					syms[i] = x.tt.fresh("sym", phiName(p), p.Type())
				}
			}
			st.emit(&Event{Kind: "loop", Pos: blockPos(b), Loop: &LoopInfo{Header: b, Phis: phis, Cur: ls.cur, Next: vals, Sym: syms}}, fr)
			for i, p := range phis {
				fr.set(p, syms[i])
			}
			x.havoc(st, ls.mods)
			for i := range phis {
				if ls.mono[i] && !ls.keep[i] {
					// this is a later round
					st.assume(x.ge0(linOf(syms[i]).plus(linOf(ls.init[i]), -1)), true)
				}
			}
			if fr.dry == nil {
				for _, f := range flags {
					st.assume(f.term(x, st, fr, phis, syms), !f.neg)
				}
			}
			fr.setLoop(b, &loopState{generic: true, cur: syms})
			x.instrs(st, fr, b, len(phis), k)
			return
		}
		if x.rounds > 0 && fr.dry == nil {
			for i, p := range phis {
				fr.set(p, vals[i])
			}
			fr.setLoop(b, &loopState{unroll: true, round: 1})
			x.instrs(st, fr, b, len(phis), k)
			return
		}
		if x.fewRounds(st, fr, b, body, phis, vals) {
			for i, p := range phis {
				fr.set(p, vals[i])
			}
			fr.setLoop(b, &loopState{unroll: true, cur: vals})
			x.instrs(st, fr, b, len(phis), k)
			return
		}
		// entering the loop: find out what it changes
		mods := map[*Term]bool{}
		n0 := x.tt.n
		for round := 0; round < 5; round++ {
			before := len(mods)
			s2, f2 := st.clone(), fr.clone()
			rec := map[*Term]bool{}
			s2.recs = append(append([]map[*Term]bool(nil), s2.recs...), rec)
			f2.dry, f2.dryHdr = body, b
			for i, p := range phis {
				f2.set(p, vals[i])
			}
			cp := map[*Term]bool{}
			for a := range mods {
				cp[a] = true
			}
			f2.setLoop(b, &loopState{cur: vals, mods: cp})
			x.instrs(s2, f2, b, len(phis), func(*State, []*Term, string) {})
			for a := range rec {
				if liveBefore(a, n0) {
					mods[a] = true
				}
			}
			if x.over || len(mods) == before {
				break
			}
		}
		keep, mono := x.invariants(st, fr, b, body, phis, vals, mods)
		if x.ovf && fr.caller == nil && fr.dry == nil && x.outermost(fr.fn, b) {
			// any round stands for all of them
			syms := make([]*Term, len(phis))
			for i, p := range phis {
				syms[i] = vals[i]
				if !keep[i] {
					syms[i] = x.tt.fresh("sym", phiName(p), p.Type())
				}
				fr.set(p, syms[i])
			}
			st.emit(&Event{Kind: "enter", Pos: blockPos(b), Loop: &LoopInfo{Header: b, Phis: phis, Cur: vals, Sym: syms}}, fr)
			x.havoc(st, mods)
			for i := range phis {
				if mono[i] && !keep[i] {
					st.assume(x.ge0(linOf(syms[i]).plus(linOf(vals[i]), -1)), true)
				}
			}
			for _, f := range x.loopFlags(fr.fn, b, body) {
				if c := f.term(x, st, fr, phis, vals); st.eval(c) == map[bool]int{false: 1, true: -1}[f.neg] {
					st.assume(f.term(x, st, fr, phis, syms), !f.neg)
				}
			}
			fr.setLoop(b, &loopState{generic: true, cur: syms})
			x.instrs(st, fr, b, len(phis), k)
			return
		}
		for i, p := range phis {
			fr.set(p, vals[i])
		}
		fr.setLoop(b, &loopState{cur: vals, mods: mods, keep: keep, mono: mono, init: vals})
		x.instrs(st, fr, b, len(phis), k)
		return
	}
	for i, p := range phis {
		fr.set(p, vals[i])
	}
	x.instrs(st, fr, b, len(phis), k)
}

// fewRounds tells if the number of rounds of a loop is a constant of at most 4.
func (x *Exec) fewRounds(st *State, fr *Frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phis []*ssa.Phi, vals []*Term) bool {
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || !body[h.Succs[0]] || body[h.Succs[1]] {
		return false
	}
	cond, ok := br.Cond.(*ssa.BinOp)
	if !ok || cond.Op != token.LSS {
		return false
	}
	y, ok := cond.Y.(ssa.Instruction)
	if ok && body[y.Block()] && !isLen(cond.Y, body) {
		return false
	}
	// the counter
	first := int64(0)
	phi, ok := cond.X.(*ssa.Phi)
	if !ok {
		add, ok := cond.X.(*ssa.BinOp)
		if !ok || add.Op != token.ADD || add.Block() != h {
			return false
		}
		phi, ok = add.X.(*ssa.Phi)
		c, ok2 := add.Y.(*ssa.Const)
		if !ok || !ok2 || c.Value == nil || c.Int64() != 1 {
			return false
		}
		first = 1
	}
	if phi.Block() != h || !isIntType(phi.Type()) {
		return false
	}
	for i, e := range phi.Edges {
		if !h.Dominates(h.Preds[i]) {
			continue
		}
		add, ok := e.(*ssa.BinOp)
		if !ok || add.Op != token.ADD || add.X != phi {
			return false
		}
		if c, ok := add.Y.(*ssa.Const); !ok || c.Value == nil || c.Int64() != 1 {
			return false
		}
	}
	for i, p := range phis {
		if p == phi {
			n, ok := vals[i].intVal()
			if !ok {
				return false
			}
			first += n
		}
	}
	var lim *Term
	if c, ok := cond.Y.(*ssa.Call); ok && body[c.Block()] {
		lim = x.length(x.val(fr, c.Call.Args[0]))
	} else {
		lim = x.val(fr, cond.Y)
	}
	n, ok := lim.intVal()
	return ok && n-first <= 4
}

// isLen tells if v is the length of a value from outside of the loop.
func isLen(v ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	bi, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || bi.Name() != "len" && bi.Name() != "cap" {
		return false
	}
	a, ok := c.Call.Args[0].(ssa.Instruction)
	return !ok || !body[a.Block()]
}

// loopFlag is a condition on what the previous round decided, under which a
// loop goes on.
type loopFlag struct {
	cond ssa.Value
	neg  bool
}

// loopFlags finds the conditions at the start of a loop which only depend on
// variables of the loop other than numbers.
func (x *Exec) loopFlags(fn *ssa.Function, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) []loopFlag {
	if f, ok := x.flags[h]; ok {
		return f
	}
	var out []loopFlag
	var dep func(v ssa.Value) bool
	dep = func(v ssa.Value) bool {
		switch v := v.(type) {
		case *ssa.Phi:
			return v.Block() == h && !isIntType(v.Type()) && !isSliceOrString(v.Type())
		case *ssa.Const:
			return true
		case *ssa.UnOp:
			if v.Op == token.MUL {
				// a variable in memory
				switch v.X.(type) {
				case *ssa.Alloc, *ssa.FreeVar:
					return !isIntType(v.Type()) && !isSliceOrString(v.Type())
				}
			}
			return v.Op == token.NOT && dep(v.X)
		case *ssa.BinOp:
			if v.Op != token.EQL && v.Op != token.NEQ {
				return false
			}
			_, c1 := v.X.(*ssa.Const)
			_, c2 := v.Y.(*ssa.Const)
			return c1 != c2 && dep(v.X) && dep(v.Y)
		}
		return false
	}
	b := h
chain:
	for {
		for _, in := range b.Instrs[:len(b.Instrs)-1] {
			switch in := in.(type) {
			case *ssa.Phi:
				if b != h {
					break chain
				}
			case *ssa.BinOp, *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.Convert, *ssa.ChangeType:
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
					break chain
				}
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
					break chain
				}
			default:
				break chain
			}
		}
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			break
		}
		t, f := body[b.Succs[0]], body[b.Succs[1]]
		if t == f {
			break
		}
		if dep(br.Cond) {
			if _, ok := br.Cond.(*ssa.Const); !ok {
				out = append(out, loopFlag{cond: br.Cond, neg: f})
			}
		}
		n := b.Succs[0]
		if f {
			n = b.Succs[1]
		}
		if n == h || len(n.Preds) != 1 {
			break
		}
		b = n
	}
	x.flags[h] = out
	return out
}

func isSliceOrString(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

// term is the condition for the given values of the loop variables.
func (f loopFlag) term(x *Exec, st *State, fr *Frame, phis []*ssa.Phi, vals []*Term) *Term {
	var get func(v ssa.Value) *Term
	get = func(v ssa.Value) *Term {
		switch v := v.(type) {
		case *ssa.Phi:
			for i, p := range phis {
				if p == v {
					return vals[i]
				}
			}
		case *ssa.UnOp:
			if v.Op == token.MUL {
				return x.load(st, x.val(fr, v.X), v.Type())
			}
			return x.not(get(v.X))
		case *ssa.BinOp:
			c := x.eq(get(v.X), get(v.Y), v.X.Type())
			if v.Op == token.NEQ {
				c = x.not(c)
			}
			return c
		}
		return x.val(fr, v)
	}
	return get(f.cond)
}

// outermost tells if a loop is not within another one.
func (x *Exec) outermost(fn *ssa.Function, h *ssa.BasicBlock) bool {
	for h2, b2 := range x.loopSet(fn) {
		if h2 != h && b2[h] {
			return false
		}
	}
	return true
}

// invariants finds the variables of a loop which keep the value they enter it
// with: all candidates are assumed to, and dropped until every back edge agrees.
// Locations which do are removed from mods.
func (x *Exec) invariants(st *State, fr *Frame, b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phis []*ssa.Phi, vals []*Term, mods map[*Term]bool) (keep, mono map[int]bool) {
	keep, mono = map[int]bool{}, map[int]bool{}
	for i, p := range phis {
		keep[i] = true
		// numbers which never get smaller
		mono[i] = x.ovf && isIntType(p.Type())
	}
	loc := map[*Term]*Term{}
	eps := map[*Term]bool{}
	for a := range mods {
		if a.Op == "epoch" {
			eps[a.Args[0]] = true
		}
	}
	for a := range mods {
		if a.Op == "epoch" || eps[a.base()] || eps[a] || elemType(a) == nil {
			continue
		}
		if _, ok := st.mem[a]; ok || a.Op == "alloc" {
			loc[a] = x.load(st, a, elemType(a))
		}
	}
	for round := 0; round < 8 && (len(keep) > 0 || len(loc) > 0) && !x.over; round++ {
		dropped := false
		s2, f2 := st.clone(), fr.clone()
		rest := map[*Term]bool{}
		for a := range mods {
			if _, ok := loc[a]; !ok {
				rest[a] = true
			}
		}
		syms := make([]*Term, len(phis))
		for i, p := range phis {
			if keep[i] {
				syms[i] = vals[i]
			} else {
				syms[i] = x.tt.fresh("sym", phiName(p), p.Type())
				if mono[i] {
					s2.assume(x.ge0(linOf(syms[i]).plus(linOf(vals[i]), -1)), true)
				}
			}
			f2.set(p, syms[i])
		}
		x.havoc(s2, rest)
		f2.dry, f2.dryHdr = body, b
		f2.setLoop(b, &loopState{generic: true, cur: syms, mods: rest, onBack: func(s3 *State, next []*Term) {
			for i := range phis {
				if keep[i] && !s3.same(next[i], vals[i]) {
					delete(keep, i)
					dropped = true
				}
				if mono[i] && s3.eval(x.ge0(linOf(next[i]).plus(linOf(syms[i]), -1))) != 1 {
					mono[i] = false
					dropped = true
				}
			}
			for a, v := range loc {
				if !s3.same(x.load(s3, a, elemType(a)), v) {
					delete(loc, a)
					dropped = true
				}
			}
		}})
		x.instrs(s2, f2, b, len(phis), func(*State, []*Term, string) {})
		if !dropped {
			break
		}
		if round == 7 {
			keep, mono, loc = map[int]bool{}, map[int]bool{}, map[*Term]*Term{}
		}
	}
	for a := range loc {
		delete(mods, a)
	}
	return keep, mono
}

// same reports if two terms are equal under the facts.
func (s *State) same(a, b *Term) bool {
	if a == b {
		return true
	}
	typ := a.Typ
	if typ == nil {
		typ = b.Typ
	}
	return s.eval(s.x.eq(a, b, typ)) == 1
}

// liveBefore reports if the address can denote something older than term n0.
func liveBefore(a *Term, n0 int) bool {
	b := a
	if b.Op == "epoch" || b.Op == "mapent" {
		b = b.Args[0]
	}
	b = b.base()
	switch b.Op {
	case "alloc", "sym", "res", "make":
		return b.id <= n0
	}
	return true
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return b.Parent().Pos()
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

// havoc forgets what a loop may have changed.
func (x *Exec) havoc(st *State, mods map[*Term]bool) {
	for a := range mods {
		if a.Op == "epoch" {
			if a.Args[0].Op == "bufver" {
				st.bump(a.Args[0])
				continue
			}
			x.forget(st, a.Args[0], false)
			continue
		}
		st.setMem(a, x.tt.fresh("sym", "loopmem", elemType(a)))
		st.record(a)
	}
}

func elemType(a *Term) types.Type {
	if a.Typ == nil {
		return nil
	}
	if p, ok := a.Typ.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// instrs runs the instructions of b from index i.
func (x *Exec) instrs(st *State, fr *Frame, b *ssa.BasicBlock, i int, k kont) {
	for ; i < len(b.Instrs); i++ {
		if x.stop() {
			return
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.DebugRef:
		case *ssa.Jump:
			x.block(st, fr, b.Succs[0], b, k)
			return
		case *ssa.If:
			c := x.val(fr, in.Cond)
			switch st.eval(c) {
			case 1:
				x.block(st, fr, b.Succs[0], b, k)
			case -1:
				x.block(st, fr, b.Succs[1], b, k)
			default:
				s2, f2 := st.clone(), fr.clone()
				s2.assume(c, true)
				x.block(s2, f2, b.Succs[0], b, k)
				st.assume(c, false)
				x.block(st, fr, b.Succs[1], b, k)
			}
			return
		case *ssa.Return:
			res := make([]*Term, len(in.Results))
			for j, r := range in.Results {
				res[j] = x.val(fr, r)
			}
			k(st, res, "")
			return
		case *ssa.Panic:
			st.emit(&Event{Kind: "panic", Val: x.val(fr, in.X), Pos: in.Pos()}, fr)
			k(st, nil, "panic")
			return
		case *ssa.RunDefers:
			x.runDefers(st, fr, b, i, k)
			return
		case *ssa.Call:
			idx := i
			x.call(st, fr, in.Common(), in, in.Pos(), func(s2 *State, f2 *Frame, res *Term) {
				f2.set(in, res)
				x.instrs(s2, f2, b, idx+1, k)
			}, k)
			return
		case *ssa.Defer:
			d := deferred{com: in.Common(), pos: in.Pos()}
			d.fn, d.args = x.callee(fr, in.Common())
			fr.defers = append(fr.defers, d)
		case *ssa.Go:
			x.goStmt(st, fr, in)
		case *ssa.Select:
			x.selectStmt(st, fr, in, b, i, k)
			return
		case *ssa.BinOp:
			if x.ovf && in.Op == token.ADD && intBits(in.Type()) >= 63 {
				if o := x.overflow(x.val(fr, in.X), x.val(fr, in.Y)); o != nil && st.eval(o) != -1 && !x.within(st, o) {
					sum := x.tt.mk("ovfsum", "", in.Type(), o.Args...)
					if st.eval(o) == 0 {
						s2, f2 := st.clone(), fr.clone()
						s2.assume(o, false)
						x.simple(s2, f2, in)
						x.instrs(s2, f2, b, i+1, k)
						st.assume(o, true)
					}
					st.assume(x.ge0(lin{co: map[*Term]int64{sum: -1}, k: -1}), true)
					fr.set(in, sum)
					continue
				}
			}
			x.simple(st, fr, in)
		default:
			x.simple(st, fr, b.Instrs[i])
		}
	}
}

// overflow is the condition that the sum of two numbers overflows, if one of
// them is from the input.
func (x *Exec) overflow(a, b *Term) *Term {
	ext := func(t *Term) bool {
		for v := range linOf(t).co {
			if v.Op == "bin" || v.Op == "conv" || v.Op == "res" && v.Typ != nil && intBits(v.Typ) >= 63 {
				return true
			}
		}
		return false
	}
	if len(linOf(a).co) == 0 || len(linOf(b).co) == 0 || !ext(a) && !ext(b) {
		return nil
	}
	return x.tt.mk("overflow", "", types.Typ[types.Bool], a, b)
}

// within tells if a sum is known to be bounded by a length.
func (x *Exec) within(st *State, o *Term) bool {
	sum := linOf(o.Args[0]).plus(linOf(o.Args[1]), 1)
	seen := map[*Term]bool{}
	for f := range st.facts {
		if f.Op != "ge0" {
			continue
		}
		for t := range linOf(f.Args[0]).co {
			if t.Op == "len" && !seen[t] {
				seen[t] = true
				if st.eval(x.ge0(linOf(t).plus(sum, -1))) == 1 {
					return true
				}
			}
		}
	}
	return false
}

func (x *Exec) runDefers(st *State, fr *Frame, b *ssa.BasicBlock, i int, k kont) {
	if len(fr.defers) == 0 {
		x.instrs(st, fr, b, i+1, k)
		return
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	saved := fr.inDef
	fr.inDef = true
	x.invoke(st, fr, d.com, d.fn, d.args, nil, d.pos, func(s2 *State, f2 *Frame, _ *Term) {
		f2.inDef = saved
		x.runDefers(s2, f2, b, i, k)
	}, k)
}

// goStmt runs the body of a goroutine as a trace of its own.
func (x *Exec) goStmt(st *State, fr *Frame, in *ssa.Go) {
	fn, args := x.callee(fr, in.Common())
	ev := st.emit(&Event{Kind: "go", Recv: fn, Args: args, Pos: in.Pos()}, fr)
	if fn != nil && fn.Fn != nil {
		ev.Fn = fn.Fn
		ev.Name = FnName(fn.Fn)
	}
	x.share(st, fn)
	for _, a := range args {
		x.share(st, a)
	}
	if fr.isDry() {
		return
	}
	s2 := st.clone()
	s2.evs, s2.locks, s2.recs = nil, nil, nil
	f2 := &Frame{fn: fr.fn, env: fr.env, envSh: true, loops: map[*ssa.BasicBlock]*loopState{}, caller: fr.caller, site: fr.site, depth: fr.depth}
	add := func(s3 *State, end string) {
		if end == "" {
			end = "return"
		}
		ev.Sub = append(ev.Sub, &Path{Events: s3.events(), End: end, St: s3, Root: "go " + ev.Name})
	}
	x.invoke(s2, f2, in.Common(), fn, args, nil, in.Pos(), func(s3 *State, _ *Frame, _ *Term) { add(s3, "") },
		func(s3 *State, _ []*Term, end string) { add(s3, end) })
}

func (f *Frame) isDry() bool {
	for ; f != nil; f = f.caller {
		if f.dry != nil {
			return true
		}
	}
	return false
}

func (x *Exec) selectStmt(st *State, fr *Frame, in *ssa.Select, b *ssa.BasicBlock, i int, k kont) {
	var cases []SelCase
	for _, c := range in.States {
		sc := SelCase{Send: c.Dir == types.SendOnly, Chan: x.val(fr, c.Chan)}
		if c.Send != nil {
			sc.Val = x.val(fr, c.Send)
		}
		cases = append(cases, sc)
	}
	n := len(cases)
	if !in.Blocking {
		n++
	}
	for pick := 0; pick < n; pick++ {
		s2, f2 := st, fr
		if pick < n-1 {
			s2, f2 = st.clone(), fr.clone()
		}
		idx := pick
		if pick == len(cases) {
			idx = -1
		}
		if idx >= 0 && s2.isNil(cases[idx].Chan) {
			continue // never ready
		}
		ev := &Event{Kind: "select", Cases: cases, Pick: idx, Block: in.Blocking, Pos: in.Pos()}
		tup := []*Term{x.tt.intc(int64(idx)), x.tt.fresh("sym", "recvOk", types.Typ[types.Bool])}
		for j, c := range in.States {
			if c.Dir == types.RecvOnly {
				if j == idx {
					v := x.tt.fresh("sym", "recv", c.Chan.Type().Underlying().(*types.Chan).Elem())
					ev.Res = append(ev.Res, v, tup[1])
					tup = append(tup, v)
				} else {
					tup = append(tup, x.tt.zero(c.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
		}
		s2.emit(ev, f2)
		if idx >= 0 && !cases[idx].Send {
			x.received(s2, cases[idx].Chan)
		}
		if idx >= 0 && cases[idx].Send {
			x.escape(s2, cases[idx].Val)
		}
		f2.set(in, x.tt.mk("tuple", "", in.Type(), tup...))
		x.instrs(s2, f2, b, i+1, k)
	}
}

// val resolves an SSA value.
func (x *Exec) val(fr *Frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return x.tt.constv(v)
	case *ssa.Function:
		t := x.tt.mk("func", fmt.Sprintf("%p", v), v.Type())
		t.Fn = v
		return t
	case *ssa.Global:
		name := v.Name()
		if v.Pkg != nil {
			name = shortPkg(v.Pkg.Pkg.Path()) + "." + v.Name()
		}
		t := x.tt.mk("global", name, v.Type())
		t.Obj = v
		return t
	case *ssa.Builtin:
		return x.tt.mk("builtin", v.Name(), v.Type())
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	x.note("unresolved value %s in %s", v.Name(), FnName(fr.fn))
	return x.tt.fresh("sym", v.Name(), v.Type())
}

func structField(t types.Type, i int) (string, types.Type) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return fmt.Sprint(i), nil
	}
	return s.Field(i).Name(), s.Field(i).Type()
}

func (x *Exec) fieldAddr(base *Term, ptr types.Type, i int) *Term {
	name, ft := structField(ptr, i)
	k := fkOf(ptr, i)
	t := x.tt.mk("field", k.typ+"."+name, nil, base)
	if t.Typ == nil && ft != nil {
		t.Typ = types.NewPointer(ft)
		t.Obj = k
	}
	return t
}

func (x *Exec) mutableAddr(a *Term) bool {
	for ; a.Op == "field" || a.Op == "index"; a = a.Args[0] {
		if a.Op == "index" {
			return true
		}
		if k, ok := a.Obj.(fieldKey); ok {
			if x.p.mutable[k] || !strings.HasPrefix(k.typ, ModPath) {
				return true
			}
		}
	}
	return false
}

// load reads an address.
func (x *Exec) load(st *State, a *Term, typ types.Type) *Term {
	if v, ok := st.mem[a]; ok {
		return v
	}
	if s, ok := typ.Underlying().(*types.Struct); ok && s.NumFields() > 0 && s.NumFields() < 24 {
		// a struct value is the tuple of its fields
		if pv := x.enclosing(st, a); pv == nil {
			args := make([]*Term, s.NumFields())
			for i := range args {
				args[i] = x.load(st, x.fieldAddr(a, types.NewPointer(typ), i), s.Field(i).Type())
			}
			return x.tt.mk("struct", typeKey(typ), typ, args...)
		}
	}
	if v := x.enclosing(st, a); v != nil {
		return v
	}
	base := a.base()
	if base.Op == "alloc" {
		if _, tainted := st.epoch[base]; !tainted || !x.mutableAddr(a) && a.Op == "field" {
			return x.tt.zero(typ)
		}
	}
	if base.Op == "global" {
		g, _ := base.Obj.(*ssa.Global)
		if a == base && types.Identical(typ, errType) && (g == nil || !x.p.written[g]) {
			return x.tt.mk("load", "sentinel", typ, a)
		}
		if g == nil || !x.p.written[g] {
			return x.tt.mk("load", "0", typ, a)
		}
	}
	tag := "0"
	if x.mutableAddr(a) || a == base || base.Op == "alloc" {
		if e, ok := st.epoch[base]; ok {
			tag = fmt.Sprintf("e%d", e)
		}
	}
	return x.tt.mk("load", tag, typ, a)
}

var errType = types.Universe.Lookup("error").Type()

// enclosing resolves a field of an address which was stored as a whole.
func (x *Exec) enclosing(st *State, a *Term) *Term {
	if a.Op != "field" {
		return nil
	}
	p := a.Args[0]
	pv, ok := st.mem[p]
	if !ok {
		pv = x.enclosing(st, p)
	}
	if pv == nil {
		return nil
	}
	k, _ := a.Obj.(fieldKey)
	return x.fieldOf(pv, k.idx, elemType(a), a.Aux)
}

func (x *Exec) fieldOf(v *Term, i int, ft types.Type, aux string) *Term {
	switch v.Op {
	case "struct":
		return v.Args[i]
	case "zerostruct":
		if ft != nil {
			return x.tt.zero(ft)
		}
	}
	return x.tt.mk("fieldval", aux, ft, v)
}

// store writes an address.
func (x *Exec) store(st *State, a, v *Term, typ types.Type) {
	st.record(a)
	x.dropUnder(st, a)
	if s, ok := typ.Underlying().(*types.Struct); ok && (v.Op == "struct" || v.Op == "zerostruct") && s.NumFields() < 24 {
		for i := 0; i < s.NumFields(); i++ {
			fa := x.fieldAddr(a, types.NewPointer(typ), i)
			x.store(st, fa, x.fieldOf(v, i, s.Field(i).Type(), fa.Aux), s.Field(i).Type())
		}
		return
	}
	// the same field of an object which may be the same one
	if a.Op == "field" || a.Op == "index" {
		ab := a.base()
		for b := range st.mem {
			if b != a && b.Op == a.Op && b.Aux == a.Aux && mayAlias(ab, b.base()) {
				st.setMem(b, x.tt.fresh("sym", "alias", elemType(b)))
			}
		}
		if a.Op == "index" {
			for b := range st.mem {
				if b != a && b.Op == "index" && b.Args[0] == a.Args[0] && !distinct(b.Args[1], a.Args[1]) {
					st.setMem(b, x.tt.fresh("sym", "alias", elemType(b)))
				}
			}
		}
	}
	st.setMem(a, v)
}

func mayAlias(a, b *Term) bool {
	if a == b {
		return false // same base, other path: different field of it
	}
	if a.Op == "alloc" || b.Op == "alloc" || a.Op == "make" || b.Op == "make" || a.Op == "global" || b.Op == "global" {
		return false
	}
	return true
}

func (x *Exec) dropUnder(st *State, a *Term) {
	for b := range st.mem {
		if b == a {
			continue
		}
		for c := b; c.Op == "field" || c.Op == "index"; {
			c = c.Args[0]
			if c == a {
				st.setMem(b, nil)
				break
			}
		}
	}
}

// forget drops what is known about the contents of an object; all: also fields
// which only constructors write.
func (x *Exec) forget(st *State, base *Term, all bool) {
	for b := range st.mem {
		if b == base || b.base() == base.base() && under(b, base) {
			if all || x.mutableAddr(b) || b == base {
				st.record(b)
				st.setMem(b, nil)
			}
		}
	}
	st.bump(base.base())
}

func under(b, base *Term) bool {
	for c := b; ; c = c.Args[0] {
		if c == base {
			return true
		}
		if c.Op != "field" && c.Op != "index" {
			return false
		}
	}
}

// escape makes the object visible to others: what may change is forgotten.
func (x *Exec) escape(st *State, t *Term) {
	if t == nil {
		return
	}
	switch t.Op {
	case "iface", "struct", "method", "closure", "append", "tuple":
		for _, a := range t.Args {
			if t.Op == "closure" && a.Op == "alloc" {
				// captured variable: its object, not the cell
				if v, ok := st.mem[a]; ok {
					x.escape(st, v)
				}
				continue
			}
			x.escape(st, a)
		}
		return
	case "slice", "appends":
		x.escape(st, t.Args[0])
		return
	}
	if t.Op == "global" || t.isConst() || t.Op == "func" {
		return
	}
	if t.Typ == nil {
		return
	}
	switch u := t.Typ.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map:
		_ = u
		x.forget(st, t, false)
	}
}

// share makes fresh objects visible to a goroutine; the contents of an object
// which others know already may only change where its lock is taken.
func (x *Exec) share(st *State, t *Term) {
	if t == nil {
		return
	}
	switch t.Op {
	case "iface", "struct", "method", "closure", "append", "tuple", "slice", "appends":
		for _, a := range t.Args {
			if t.Op == "closure" && a.Cell != nil && settled(a.Cell) {
				// a captured variable nobody assigns to any more: its object only
				if v, ok := st.mem[a]; ok {
					x.share(st, v)
				}
				continue
			}
			x.share(st, a)
		}
		return
	}
	if t.base().Op == "alloc" || t.Op == "make" {
		x.escape(st, t)
	}
}

// settled reports if a local variable is not assigned once a closure captured it.
func settled(cell *ssa.Alloc) bool {
	refs := cell.Referrers()
	if refs == nil {
		return false
	}
	stores := map[*ssa.BasicBlock][]ssa.Instruction{}
	var makes []*ssa.MakeClosure
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != cell {
				return false
			}
			stores[r.Block()] = append(stores[r.Block()], r)
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			makes = append(makes, r)
			fn, _ := r.Fn.(*ssa.Function)
			if fn == nil || capturedWrite(fn, r, cell) {
				return false
			}
		default:
			return false
		}
	}
	for _, m := range makes {
		after := false
		for _, in := range m.Block().Instrs {
			if in == ssa.Instruction(m) {
				after = true
				continue
			}
			if s, ok := in.(*ssa.Store); ok && after && s.Addr == cell {
				return false
			}
		}
		seen := map[*ssa.BasicBlock]bool{cell.Block(): true}
		work := append([]*ssa.BasicBlock(nil), m.Block().Succs...)
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if seen[b] {
				continue // the variable is a new one from there on
			}
			seen[b] = true
			if len(stores[b]) > 0 {
				return false
			}
			work = append(work, b.Succs...)
		}
	}
	return true
}

// capturedWrite reports if fn or a closure in it may assign to the variable.
func capturedWrite(fn *ssa.Function, m *ssa.MakeClosure, cell ssa.Value) bool {
	for i, bd := range m.Bindings {
		if bd != cell || i >= len(fn.FreeVars) {
			continue
		}
		fv := fn.FreeVars[i]
		refs := fv.Referrers()
		if refs == nil {
			continue
		}
		for _, r := range *refs {
			switch r := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				f2, _ := r.Fn.(*ssa.Function)
				if f2 == nil || capturedWrite(f2, r, fv) {
					return true
				}
			default:
				return true
			}
		}
	}
	return false
}

// simple runs an instruction without control effects.
func (x *Exec) simple(st *State, fr *Frame, in ssa.Instruction) {
	tt := x.tt
	switch in := in.(type) {
	case *ssa.Alloc:
		name := in.Comment
		if name == "" {
			name = in.Name()
		}
		cell := tt.fresh("alloc", name, in.Type())
		cell.Cell = in
		fr.set(in, cell)
	case *ssa.Store:
		a, v := x.val(fr, in.Addr), x.val(fr, in.Val)
		base := a.base()
		if base.Op != "alloc" || x.mutableAddr(a) && a.Op == "field" {
			st.emit(&Event{Kind: "store", Addr: a, Val: v, Name: fieldName(a), Pos: in.Pos()}, fr)
		}
		x.store(st, a, v, in.Val.Type())
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			a := x.val(fr, in.X)
			if a.Op == "field" && x.mutableAddr(a) && a.base().Op != "alloc" {
				st.emit(&Event{Kind: "load", Addr: a, Name: fieldName(a), Pos: in.Pos()}, fr)
			}
			fr.set(in, x.load(st, a, in.Type()))
		case token.ARROW:
			ch := x.val(fr, in.X)
			et := in.X.Type().Underlying().(*types.Chan).Elem()
			v := tt.fresh("sym", "recv", et)
			ok := tt.fresh("sym", "recvOk", types.Typ[types.Bool])
			st.emit(&Event{Kind: "recv", Addr: ch, Res: []*Term{v, ok}, Pos: in.Pos()}, fr)
			x.received(st, ch)
			if in.CommaOk {
				fr.set(in, tt.mk("tuple", "", in.Type(), v, ok))
			} else {
				fr.set(in, v)
			}
		case token.NOT:
			fr.set(in, x.not(x.val(fr, in.X)))
		case token.SUB:
			if isIntType(in.Type()) {
				fr.set(in, tt.mkLin(linOf(x.val(fr, in.X)).scale(-1)))
			} else {
				fr.set(in, tt.mk("neg", "", in.Type(), x.val(fr, in.X)))
			}
		default:
			fr.set(in, tt.mk("un", in.Op.String(), in.Type(), x.val(fr, in.X)))
		}
	case *ssa.BinOp:
		fr.set(in, x.binop(in, x.val(fr, in.X), x.val(fr, in.Y)))
	case *ssa.FieldAddr:
		a := x.val(fr, in.X)
		if a.Op != "alloc" && a.Op != "field" && st.eval(x.mkEqNil(a)) == 1 {
			st.emit(&Event{Kind: "nilcall", Name: "field access", Val: a, Pos: in.Pos()}, fr)
		}
		if x.pb && a.Op != "alloc" && a.Op != "assert" && a.Op != "field" && !st.provenNonNil(a) {
			st.emit(&Event{Kind: "deref", Addr: a, Pos: in.Pos()}, fr)
		}
		fr.set(in, x.fieldAddr(a, in.X.Type(), in.Field))
	case *ssa.Field:
		v := x.val(fr, in.X)
		name, ft := structField(in.X.Type(), in.Field)
		fr.set(in, x.fieldOf(v, in.Field, ft, typeKey(in.X.Type())+"."+name))
	case *ssa.IndexAddr:
		xs, i := x.val(fr, in.X), x.val(fr, in.Index)
		st.emit(&Event{Kind: "bounds", Name: "index", Addr: xs, Args: []*Term{i}, Pos: in.Pos()}, fr)
		fr.set(in, x.indexAddr(xs, i, in.Type()))
	case *ssa.Index:
		xs, i := x.val(fr, in.X), x.val(fr, in.Index)
		st.emit(&Event{Kind: "bounds", Name: "index", Addr: xs, Args: []*Term{i}, Pos: in.Pos()}, fr)
		fr.set(in, tt.mk("elem", "", in.Type(), xs, i))
	case *ssa.Slice:
		xs := x.val(fr, in.X)
		get := func(v ssa.Value) *Term {
			if v == nil {
				return nil
			}
			return x.val(fr, v)
		}
		lo, hi, mx := get(in.Low), get(in.High), get(in.Max)
		if lo != nil || hi != nil {
			st.emit(&Event{Kind: "bounds", Name: "slice", Addr: xs, Args: []*Term{lo, hi, mx}, Pos: in.Pos()}, fr)
		}
		fr.set(in, x.slice(xs, lo, hi, mx, in.Type()))
	case *ssa.Extract:
		v := x.val(fr, in.Tuple)
		if v.Op == "tuple" {
			fr.set(in, v.Args[in.Index])
		} else if v.Op == "zerotuple" {
			fr.set(in, tt.zero(in.Type()))
		} else {
			fr.set(in, tt.mk("extract", fmt.Sprint(in.Index), in.Type(), v))
		}
	case *ssa.MakeInterface:
		v := x.val(fr, in.X)
		if isTypeParam(in.X.Type()) {
			fr.set(in, v)
			return
		}
		fr.set(in, x.iface(v, in.X.Type()))
	case *ssa.ChangeInterface:
		fr.set(in, x.val(fr, in.X))
	case *ssa.ChangeType:
		fr.set(in, x.val(fr, in.X))
	case *ssa.MultiConvert:
		fr.set(in, x.val(fr, in.X))
	case *ssa.Convert:
		v := x.val(fr, in.X)
		switch {
		case isIntType(in.Type()) && isIntType(in.X.Type()):
			if (narrows(in.X.Type(), in.Type()) || x.ovf && wraps(in.X.Type(), in.Type())) && !v.isConst() {
				// kept if it is known to fit
				max := int64(1)<<intBits(in.Type()) - 1
				if st.eval(x.ge0(lin{co: map[*Term]int64{}, k: max}.plus(linOf(v), -1))) != 1 {
					v = tt.mk("conv", typeKey(in.Type()), in.Type(), v)
				}
			}
			fr.set(in, v)
		case isStringType(in.Type()) || isStringType(in.X.Type()):
			if v.isConst() {
				fr.set(in, v)
			} else {
				fr.set(in, tt.mk("convstr", typeKey(in.Type()), in.Type(), v))
			}
		default:
			if v.isConst() {
				fr.set(in, v)
			} else {
				fr.set(in, tt.mk("conv", typeKey(in.Type()), in.Type(), v))
			}
		}
	case *ssa.SliceToArrayPointer:
		fr.set(in, x.val(fr, in.X))
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		args := make([]*Term, len(in.Bindings))
		for i, b := range in.Bindings {
			args[i] = x.val(fr, b)
		}
		t := tt.mk("closure", fmt.Sprintf("%p", fn), in.Type(), args...)
		t.Fn = fn
		fr.set(in, t)
	case *ssa.MakeChan:
		t := tt.fresh("make", "chan", in.Type())
		t.Obj = x.val(fr, in.Size)
		fr.set(in, t)
	case *ssa.MakeMap:
		fr.set(in, tt.fresh("make", "map", in.Type()))
	case *ssa.MakeSlice:
		t := tt.fresh("make", "slice", in.Type())
		t.Obj = x.val(fr, in.Len)
		fr.set(in, t)
	case *ssa.MapUpdate:
		m, key, v := x.val(fr, in.Map), x.val(fr, in.Key), x.val(fr, in.Value)
		st.emit(&Event{Kind: "mapupdate", Addr: m, Args: []*Term{key}, Val: v, Pos: in.Pos()}, fr)
		st.bump(m)
		x.mapDrop(st, m)
		ent := tt.mk("mapent", "", nil, m, key)
		st.setMem(ent, v)
		st.record(ent)
	case *ssa.Lookup:
		m, key := x.val(fr, in.X), x.val(fr, in.Index)
		if isStringType(in.X.Type()) {
			fr.set(in, tt.mk("elem", "", in.Type(), m, key))
			return
		}
		st.emit(&Event{Kind: "maplookup", Addr: m, Args: []*Term{key}, Pos: in.Pos()}, fr)
		et := in.X.Type().Underlying().(*types.Map).Elem()
		v, ok := x.mapGet(st, m, key, et)
		if in.CommaOk {
			fr.set(in, tt.mk("tuple", "", in.Type(), v, ok))
		} else {
			fr.set(in, v)
		}
	case *ssa.Range:
		fr.set(in, tt.mk("range", "", in.Type(), x.val(fr, in.X)))
	case *ssa.Next:
		it := x.val(fr, in.Iter)
		ok := tt.fresh("sym", "next", types.Typ[types.Bool])
		tup := in.Type().(*types.Tuple)
		key := tt.fresh("sym", "key", tup.At(1).Type())
		var v *Term
		if in.IsString || it.Op != "range" {
			v = tt.fresh("sym", "val", tup.At(2).Type())
		} else {
			st.emit(&Event{Kind: "maprange", Addr: it.Args[0], Args: []*Term{key}, Pos: in.Pos()}, fr)
			et := it.Args[0].Typ.Underlying().(*types.Map).Elem()
			v, _ = x.mapGet(st, it.Args[0], key, et)
		}
		fr.set(in, tt.mk("tuple", "", in.Type(), ok, key, v))
	case *ssa.Send:
		ch, v := x.val(fr, in.Chan), x.val(fr, in.X)
		st.emit(&Event{Kind: "send", Addr: ch, Val: v, Pos: in.Pos()}, fr)
		x.escape(st, v)
	case *ssa.TypeAssert:
		v := x.val(fr, in.X)
		is := x.isType(v, in.AssertedType)
		var res *Term
		if v.Op == "iface" && types.IsInterface(in.AssertedType) {
			res = v
		} else if v.Op == "iface" && v.Aux == typeKeyFull(in.AssertedType) {
			res = v.Args[0]
		} else if types.IsInterface(in.AssertedType) {
			res = v
		} else {
			res = tt.mk("assert", typeKeyFull(in.AssertedType), in.AssertedType, v)
		}
		if in.CommaOk {
			fr.set(in, tt.mk("tuple", "", in.Type(), res, is))
			// the value is zero if the assertion fails; paths test ok first
		} else {
			st.emit(&Event{Kind: "assert", Val: v, Args: []*Term{is}, Pos: in.Pos()}, fr)
			if !is.isConst() {
				st.assume(is, true)
			}
			fr.set(in, res)
		}
	default:
		if v, ok := in.(ssa.Value); ok {
			x.note("unmodelled instruction %T in %s", in, FnName(fr.fn))
			fr.set(v, tt.fresh("sym", v.Name(), v.Type()))
		}
	}
}

func (x *Exec) mapDrop(st *State, m *Term) {
	for b := range st.mem {
		if b.Op == "mapent" && b.Args[0] == m {
			st.setMem(b, nil)
		}
	}
}

func (x *Exec) mapGet(st *State, m, key *Term, et types.Type) (v, ok *Term) {
	if v, has := st.mem[x.tt.mk("mapent", "", nil, m, key)]; has {
		return v, x.tt.boolc(true)
	}
	if st.isNil(m) {
		return x.tt.zero(et), x.tt.boolc(false)
	}
	tag := "0"
	if e, has := st.epoch[m.base()]; has {
		tag = fmt.Sprintf("e%d", e)
	} else if e, has := st.epoch[m]; has {
		tag = fmt.Sprintf("e%d", e)
	}
	if m.Op == "load" {
		// a map read from a field: contents change whenever the owner does
		if e, has := st.epoch[m.Args[0].base()]; has {
			tag = fmt.Sprintf("e%d", e)
		}
	}
	return x.tt.mk("lookup", tag, et, m, key), x.tt.mk("haskey", tag, types.Typ[types.Bool], m, key)
}

func fieldName(a *Term) string {
	if a.Op == "field" {
		return a.Aux[strings.LastIndexByte(a.Aux, '.')+1:]
	}
	return ""
}

func isTypeParam(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.TypeParam)
	return ok
}

func typeKeyFull(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		return "*" + typeKey(p.Elem())
	}
	return typeKey(t)
}

func (x *Exec) iface(v *Term, t types.Type) *Term {
	r := x.tt.mk("iface", typeKeyFull(t), t, v)
	return r
}

func (x *Exec) isType(v *Term, t types.Type) *Term {
	if v.Op == "nil" {
		return x.tt.boolc(false)
	}
	if v.Op == "iface" {
		if it, ok := t.Underlying().(*types.Interface); ok && types.IsInterface(t) {
			return x.tt.boolc(types.Implements(v.Typ, it))
		}
		return x.tt.boolc(v.Aux == typeKeyFull(t))
	}
	r := x.tt.mk("istype", typeKeyFull(t), types.Typ[types.Bool], v)
	if r.Obj == nil {
		r.Obj = t
	}
	return r
}

func (x *Exec) indexAddr(xs, i *Term, typ types.Type) *Term {
	lo := i
	for xs.Op == "slice" {
		if xs.Args[1] != nil {
			lo = x.tt.mkLin(linOf(lo).plus(linOf(xs.Args[1]), 1))
		}
		xs = xs.Args[0]
	}
	return x.tt.mk("index", "", typ, xs, lo)
}

func (x *Exec) slice(xs, lo, hi, mx *Term, typ types.Type) *Term {
	if n, ok := lo.intVal(); ok && n == 0 {
		lo = nil
	}
	if hi != nil && hi == x.length(xs) {
		hi = nil
	}
	if xs.Op == "slice" {
		l0, h0 := xs.Args[1], xs.Args[2]
		off := func(t *Term) *Term {
			if t == nil || l0 == nil {
				return t
			}
			return x.tt.mkLin(linOf(t).plus(linOf(l0), 1))
		}
		nlo := off(lo)
		if nlo == nil {
			nlo = l0
		}
		nhi := off(hi)
		if nhi == nil {
			nhi = h0
		}
		return x.slice(xs.Args[0], nlo, nhi, mx, typ)
	}
	if lo == nil && hi == nil && mx == nil {
		if _, ok := xs.typ().(*types.Pointer); !ok {
			return xs
		}
	}
	return x.tt.mk("slice", "", typ, xs, lo, hi, mx)
}

func (t *Term) typ() types.Type {
	if t.Typ == nil {
		return nil
	}
	return t.Typ.Underlying()
}

// length is the len of a slice, string, array, channel or map term.
func (x *Exec) length(s *Term) *Term {
	switch s.Op {
	case "slice":
		hi := s.Args[2]
		if hi == nil {
			hi = x.length(s.Args[0])
		}
		if s.Args[1] == nil {
			return hi
		}
		return x.tt.mkLin(linOf(hi).plus(linOf(s.Args[1]), -1))
	case "make":
		if n, ok := s.Obj.(*Term); ok {
			if _, sl := s.typ().(*types.Slice); sl {
				return n
			}
		}
	case "bufbytes":
		return x.tt.mk("buflen", s.Aux, types.Typ[types.Int], s.Args[0])
	case "nil":
		return x.tt.intc(0)
	case "fixed": // a number of 32 bits
		return x.tt.intc(4)
	case "const":
		if v, ok := s.strVal(); ok {
			return x.tt.intc(int64(len(v)))
		}
	case "append":
		return x.tt.mkLin(linOf(x.length(s.Args[0])).plus(lin{k: int64(len(s.Args) - 1)}, 1))
	case "appends":
		return x.tt.mkLin(linOf(x.length(s.Args[0])).plus(linOf(x.length(s.Args[1])), 1))
	case "convstr":
		return x.length(s.Args[0])
	case "bin":
		if s.Aux == "+" && isStringType(s.Typ) {
			return x.tt.mkLin(linOf(x.length(s.Args[0])).plus(linOf(x.length(s.Args[1])), 1))
		}
	}
	if p, ok := s.typ().(*types.Pointer); ok {
		if a, ok := p.Elem().Underlying().(*types.Array); ok {
			return x.tt.intc(a.Len())
		}
	}
	return x.tt.mk("len", "", types.Typ[types.Int], s)
}

func (x *Exec) binop(in *ssa.BinOp, a, b *Term) *Term {
	tt := x.tt
	switch in.Op {
	case token.EQL:
		return x.eq(a, b, in.X.Type())
	case token.NEQ:
		return x.not(x.eq(a, b, in.X.Type()))
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if !isIntType(in.X.Type()) {
			return tt.mk("cmp", in.Op.String(), types.Typ[types.Bool], a, b)
		}
		la, lb := linOf(a), linOf(b)
		var l lin
		switch in.Op {
		case token.LSS: // b-a-1>=0
			l = lb.plus(la, -1)
			l.k--
		case token.GTR:
			l = la.plus(lb, -1)
			l.k--
		case token.LEQ:
			l = lb.plus(la, -1)
		case token.GEQ:
			l = la.plus(lb, -1)
		}
		return x.ge0(l)
	case token.ADD, token.SUB, token.MUL:
		if isIntType(in.Type()) {
			switch in.Op {
			case token.ADD:
				return tt.mkLin(linOf(a).plus(linOf(b), 1))
			case token.SUB:
				return tt.mkLin(linOf(a).plus(linOf(b), -1))
			}
			if n, ok := a.intVal(); ok {
				return tt.mkLin(linOf(b).scale(n))
			}
			if n, ok := b.intVal(); ok {
				return tt.mkLin(linOf(a).scale(n))
			}
		}
	}
	if x.ovf && in.Op == token.SHL && intBits(in.Type()) < 63 { // loses bits
		return tt.mk("bin", "<<"+typeKey(in.Type()), in.Type(), a, b)
	}
	return tt.mk("bin", in.Op.String(), in.Type(), a, b)
}

// isLen reports if the term is never negative.
func nonNeg(t *Term) bool {
	return t.Op == "len" || t.Op == "sizeof" || t.Op == "cap" || t.Op == "res" && strings.HasPrefix(t.Aux, pbLib+"Skip.0") || t.Op == "buflen" ||
		t.Typ != nil && func() bool {
			b, ok := t.Typ.Underlying().(*types.Basic)
			return ok && b.Info()&types.IsUnsigned != 0
		}()
}

func (x *Exec) ge0(l lin) *Term {
	tt := x.tt
	if len(l.co) == 0 {
		return tt.boolc(l.k >= 0)
	}
	// all terms non-negative
	allPos := true
	for t, c := range l.co {
		if c < 0 || !nonNeg(t) {
			allPos = false
		}
	}
	if allPos && l.k >= 0 {
		return tt.boolc(true)
	}
	allNeg := true
	for t, c := range l.co {
		if c > 0 || !nonNeg(t) {
			allNeg = false
		}
	}
	if allNeg && l.k < 0 {
		return tt.boolc(false)
	}
	if len(l.co) == 1 {
		for t, c := range l.co {
			if nonNeg(t) && c == 1 && l.k == -1 { // t >= 1
				return x.not(x.eq(t, tt.intc(0), types.Typ[types.Int]))
			}
			if nonNeg(t) && c == -1 && l.k == 0 { // t <= 0
				return x.eq(t, tt.intc(0), types.Typ[types.Int])
			}
		}
	}
	return tt.mk("ge0", "", types.Typ[types.Bool], tt.mkLin(l))
}

func (x *Exec) not(t *Term) *Term {
	switch {
	case t.isTrue():
		return x.tt.boolc(false)
	case t.isFalse():
		return x.tt.boolc(true)
	case t.Op == "not":
		return t.Args[0]
	case t.Op == "ge0":
		l := linOf(t.Args[0]).scale(-1)
		l.k--
		// keep one orientation per pair: the one with the smaller key
		return x.tt.mk("not", "", types.Typ[types.Bool], t)
	}
	return x.tt.mk("not", "", types.Typ[types.Bool], t)
}

func (x *Exec) mkEqNil(t *Term) *Term { return x.eq(t, x.tt.nilc(nil), t.Typ) }

// highBit rewrites comparisons of the highest bit of a byte.
func (x *Exec) highBit(a, b *Term, typ types.Type) *Term {
	if t, ok := typ.Underlying().(*types.Basic); !ok || t.Kind() != types.Uint8 {
		return nil
	}
	if a.isConst() {
		a, b = b, a
	}
	n, ok := b.intVal()
	if !ok || a.Op != "bin" {
		return nil
	}
	v := a.Args[0]
	k, ok := a.Args[1].intVal()
	one := int64(1)
	switch {
	case !ok:
		return nil
	case a.Aux == "&" && k == 0x80:
		one = 0x80
	case a.Aux == ">>" && k == 7:
	default:
		return nil
	}
	low := x.ge0(lin{co: map[*Term]int64{}, k: 0x7f}.plus(linOf(v), -1))
	switch n {
	case 0:
		return low
	case one:
		return x.not(low)
	}
	return nil
}

func (x *Exec) eq(a, b *Term, typ types.Type) *Term {
	tt := x.tt
	if a == b {
		return tt.boolc(true)
	}
	if distinct(a, b) {
		return tt.boolc(false)
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() {
		return a
	}
	if a.isFalse() {
		return x.not(b)
	}
	if b.isFalse() {
		return x.not(a)
	}
	if isStringType(typ) {
		if s, ok := b.strVal(); ok && s == "" {
			return x.eq(x.length(a), tt.intc(0), types.Typ[types.Int])
		}
		if s, ok := a.strVal(); ok && s == "" {
			return x.eq(x.length(b), tt.intc(0), types.Typ[types.Int])
		}
	}
	if isIntType(typ) {
		if c := x.highBit(a, b, typ); c != nil {
			return c
		}
		l := linOf(a).plus(linOf(b), -1)
		if len(l.co) == 0 {
			return tt.boolc(l.k == 0)
		}
		// canonical sign: first term by id positive
		var first *Term
		for t := range l.co {
			if first == nil || t.id < first.id {
				first = t
			}
		}
		if l.co[first] < 0 {
			l = l.scale(-1)
		}
		if len(l.co) == 1 && l.co[first] == 1 && nonNeg(first) && l.k > 0 {
			return tt.boolc(false)
		}
		return tt.mk("eq", "int", types.Typ[types.Bool], tt.mkLin(l), tt.intc(0))
	}
	if a.Op == "iface" && b.Op == "iface" && a.Aux == b.Aux {
		return x.eq(a.Args[0], b.Args[0], nil)
	}
	if a.id > b.id {
		a, b = b, a
	}
	if a.Op == "nil" {
		a, b = b, a
	}
	return tt.mk("eq", "", types.Typ[types.Bool], a, b)
}

// eval decides a condition from the facts: 1 true, -1 false, 0 unknown.
func (s *State) eval(c *Term) int {
	switch {
	case c.isTrue():
		return 1
	case c.isFalse():
		return -1
	case c.Op == "not":
		return -s.eval(c.Args[0])
	}
	if v, ok := s.facts[c]; ok {
		if v {
			return 1
		}
		return -1
	}
	switch c.Op {
	case "eq":
		a, b := c.Args[0], c.Args[1]
		if c.Aux == "int" {
			l := linOf(a).plus(linOf(b), -1)
			g, ng := s.lower(l), s.lower(l.scale(-1))
			if g != nil && *g > 0 || ng != nil && *ng > 0 {
				return -1
			}
			if g != nil && *g == 0 && ng != nil && *ng == 0 {
				return 1
			}
			// nil slices are empty
			if len(l.co) == 1 && l.k == 0 {
				for t := range l.co {
					if t.Op == "len" {
						if s.facts[s.x.mkEqNil(t.Args[0])] {
							return 1
						}
					}
				}
			}
			return 0
		}
		ra, rb := s.rep(a), s.rep(b)
		if ra != a || rb != b {
			n := s.x.eq(ra, rb, a.Typ)
			if n != c {
				return s.eval(n)
			}
		}
		// equal to two different things
		if b.Op == "nil" {
			if s.provenNonNil(a) {
				return -1
			}
		} else {
			for f, v := range s.facts {
				if v && f.Op == "eq" && f.Aux != "int" {
					var o *Term
					if f.Args[0] == a {
						o = f.Args[1]
					} else if f.Args[1] == a {
						o = f.Args[0]
					}
					if o != nil && o != b && distinct(o, b) {
						return -1
					}
					o = nil
					if f.Args[0] == b {
						o = f.Args[1]
					} else if f.Args[1] == b {
						o = f.Args[0]
					}
					if o != nil && o != a && distinct(o, a) {
						return -1
					}
				}
			}
			if (b.nonNil() || s.provenNonNil(b)) && s.facts[s.x.mkEqNil(a)] || (a.nonNil() || s.provenNonNil(a)) && s.facts[s.x.mkEqNil(b)] {
				return -1
			}
		}
		return 0
	case "ge0":
		l := linOf(c.Args[0])
		if g := s.lower(l); g != nil && *g >= 0 {
			return 1
		}
		n := l.scale(-1)
		n.k--
		if g := s.lower(n); g != nil && *g >= 0 {
			return -1
		}
		return 0
	case "istype":
		v := c.Args[0]
		r := s.rep(v)
		if r != v {
			return s.eval(s.x.isType(r, c.Obj.(types.Type)))
		}
		if s.isNil(v) {
			return -1
		}
		t, _ := c.Obj.(types.Type)
		for f, b := range s.facts {
			if b && f.Op == "istype" && f.Args[0] == v && f != c {
				ft, _ := f.Obj.(types.Type)
				if ft != nil && t != nil && !types.IsInterface(ft) {
					if it, ok := t.Underlying().(*types.Interface); ok {
						if types.Implements(ft, it) {
							return 1
						}
						return -1
					}
					return -1
				}
			}
		}
		return 0
	case "haskey":
		// a non-zero element is present
		lk := s.x.tt.mk("lookup", c.Aux, nil, c.Args[0], c.Args[1])
		if v, ok := s.facts[s.x.mkEqNil(lk)]; ok && !v {
			return 1
		}
		return 0
	}
	r := s.rep(c)
	if r != c {
		return s.eval(r)
	}
	return 0
}

func (s *State) provenNonNil(t *Term) bool {
	if t.nonNil() {
		return true
	}
	if v, ok := s.facts[s.x.mkEqNil(t)]; ok {
		return !v
	}
	for f, v := range s.facts {
		if !v {
			if f.Op == "eq" && f.Aux == "int" {
				// len(t) != 0
				if l := f.Args[0]; l.Op == "len" && l.Args[0] == t {
					return true
				}
			} else if f.Op == "eq" && len(f.Args) == 2 && f.Args[1].Op != "nil" {
				// it differs from something which is nil
				o := f.Args[0]
				if o == t {
					o = f.Args[1]
				} else if f.Args[1] != t {
					continue
				}
				if s.facts[s.x.mkEqNil(o)] {
					return true
				}
			}
			continue
		}
		if f.Op == "istype" && f.Args[0] == t {
			return true
		}
		if f.Op == "eq" && f.Aux != "int" {
			if f.Args[0] == t && f.Args[1].Op != "nil" && f.Args[1].nonNil() {
				return true
			}
			if f.Args[1] == t && f.Args[0].nonNil() {
				return true
			}
		}
	}
	return false
}

// rep replaces a term by what the facts say it equals (nil, constant, sentinel).
func (s *State) rep(t *Term) *Term {
	if t.isConst() {
		return t
	}
	if v, ok := s.facts[t]; ok && t.Typ == types.Typ[types.Bool] {
		return s.x.tt.boolc(v)
	}
	n := s.x.tt.mk("eq", "", types.Typ[types.Bool], t, s.x.tt.nilc(nil))
	if s.facts[n] {
		return s.x.tt.nilc(nil)
	}
	for f, v := range s.facts {
		if v && f.Op == "eq" && f.Aux != "int" {
			if f.Args[0] == t && (f.Args[1].isConst() || f.Args[1].Op == "load" && f.Args[1].Aux == "sentinel") {
				return f.Args[1]
			}
			if f.Args[1] == t && (f.Args[0].isConst() || f.Args[0].Op == "load" && f.Args[0].Aux == "sentinel") {
				return f.Args[0]
			}
		}
	}
	return t
}

func (s *State) isNil(t *Term) bool { return t.Op == "nil" || s.rep(t).Op == "nil" }

// lower returns the best known lower bound of a linear form (nil: unknown).
func (s *State) lower(l lin) *int64 {
	if s.x.ovf { // positions are known from one loop to the next
		return s.lowerDepth(l, 4)
	}
	return s.lowerDepth(l, 2)
}

func (s *State) lowerDepth(l lin, d int) *int64 {
	if len(l.co) == 0 {
		k := l.k
		return &k
	}
	var fs []bound
	for f, v := range s.facts {
		switch {
		case f.Op == "ge0" && v:
			fs = append(fs, bound{linOf(f.Args[0]), 0})
		case f.Op == "ge0" && !v:
			fs = append(fs, bound{linOf(f.Args[0]).scale(-1), 1})
		case f.Op == "eq" && f.Aux == "int" && v:
			fs = append(fs, bound{linOf(f.Args[0]), 0}, bound{linOf(f.Args[0]).scale(-1), 0})
		case f.Op == "eq" && f.Aux == "int" && !v:
			if t := f.Args[0]; nonNeg(t) {
				fs = append(fs, bound{linOf(t), 1})
			}
		}
	}
	return lowerBy(l, fs, d)
}

// bound is a linear form and its lower bound.
type bound struct {
	f  lin
	at int64
}

func lowerBy(l lin, fs []bound, d int) *int64 {
	// a term which is not bounded by itself has to be replaced
	var bad *Term
	for t, c := range l.co {
		if !(c > 0 && nonNeg(t)) && (bad == nil || t.id < bad.id) {
			bad = t
		}
	}
	var best *int64
	if bad == nil {
		k := l.k
		best = &k
	}
	if d == 0 || len(l.co) == 0 {
		return best
	}
	for _, b := range fs {
		if bad != nil {
			if l.co[bad] > 0 != (b.f.co[bad] > 0) || b.f.co[bad] == 0 {
				continue
			}
		} else {
			hit := false
			for t, c := range b.f.co {
				if c > 0 && l.co[t] > 0 {
					hit = true
				}
			}
			if !hit {
				continue
			}
		}
		if g := lowerBy(l.plus(b.f, -1), fs, d-1); g != nil {
			v := *g + b.at
			if best == nil || v > *best {
				best = &v
			}
		}
	}
	return best
}

// assume adds a fact.
func (s *State) assume(c *Term, v bool) {
	for c.Op == "not" {
		c, v = c.Args[0], !v
	}
	if c.isConst() {
		return
	}
	s.setFact(c, v)
}

// Tri evaluates a condition in the state at an event.
func (e *Event) Tri(c *Term) int { return e.st.eval(c) }

// stackStr renders the inlining stack of an event.
func (x *Exec) stackStr(f *Frame) string {
	var parts []string
	for ; f != nil; f = f.caller {
		parts = append(parts, FnName(f.fn))
	}
	return strings.Join(parts, " < ")
}

func isGenerated(p *Prog, fn *ssa.Function) bool {
	pos := fn.Pos()
	if !pos.IsValid() {
		if o := fn.Object(); o != nil {
			pos = o.Pos()
		}
	}
	if !pos.IsValid() {
		return false
	}
	base := filepath.Base(p.Fset.Position(pos).Filename)
	return strings.HasSuffix(base, ".pb.go") && !strings.HasSuffix(base, "_srpc.pb.go")
}

// wraps tells if a conversion between integers of the same size can change the sign.
func wraps(from, to types.Type) bool {
	u := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsUnsigned != 0
	}
	return intBits(from) >= 63 && intBits(to) >= 63 && u(from) && !u(to)
}

// intBits is the number of value bits of an integer type.
func intBits(t types.Type) uint {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 63
	}
	switch b.Kind() {
	case types.Int8:
		return 7
	case types.Uint8:
		return 8
	case types.Int16:
		return 15
	case types.Uint16:
		return 16
	case types.Int32:
		return 31
	case types.Uint32:
		return 32
	}
	return 63
}

func narrows(from, to types.Type) bool { return intBits(to) < intBits(from) && intBits(to) < 63 }
