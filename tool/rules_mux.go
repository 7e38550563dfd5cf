package main

import (
	"go/types"
	"golang.org/x/tools/go/ssa"
	"strings"
)

// ---- lists which are tried in order

// visit is one element of a list looked at on a path.
type visit struct {
	ev    *Event // the access
	addr  *Term  // the list, or what is left of it
	idx   *Term
	elem  *Term
	calls []*Event
	loop  *Event // the back edge which ends the iteration, nil if the path leaves the list
}

// listScan describes how a function goes through a list.
type listScan struct {
	r    *Run
	is   func(*Term) bool // the list itself
	syms map[*Term]bool   // what is left of the list in a later iteration
	pos  []*visit         // positions of the later iterations, in terms of loop symbols
}

func (r *Run) newScan(is func(*Term) bool) *listScan {
	s := &listScan{r: r, is: is, syms: map[*Term]bool{}}
	for again := true; again; {
		again = false
		for sym, ins := range loopInputs(r) {
			if s.syms[sym] || len(ins) == 0 {
				continue
			}
			ok := true
			for _, in := range ins {
				v := in.val
				for v.Op == "slice" {
					v = v.Args[0]
				}
				if v != sym && !is(v) && !s.syms[v] {
					ok = false
				}
			}
			if ok {
				s.syms[sym] = true
				again = true
			}
		}
	}
	return s
}

// visits lists the elements a path looks at.
func (s *listScan) visits(p *Path) []*visit {
	var out []*visit
	var cur *visit
	for _, e := range p.Events {
		switch {
		case e.Kind == "bounds" && e.Name == "index":
			a := e.Addr
			for a.Op == "slice" {
				a = a.Args[0]
			}
			if !s.is(a) && !s.syms[a] {
				continue
			}
			el := s.r.elemAt(e.st, e.Addr, e.Args[0])
			if cur != nil && cur.elem == el {
				continue
			}
			cur = &visit{ev: e, addr: e.Addr, idx: e.Args[0], elem: el}
			out = append(out, cur)
		case e.Kind == "call" && cur != nil && (len(e.Args) > 0 && e.Args[0] == cur.elem || e.Recv != nil && e.Recv == cur.elem):
			cur.calls = append(cur.calls, e)
		case e.Kind == "loop" && cur != nil && cur.loop == nil:
			cur.loop = e
			cur = nil
		}
	}
	return out
}

func (r *Run) elemAt(st *State, xs, i *Term) *Term {
	var et types.Type
	if xs.typ() != nil {
		switch u := xs.typ().Underlying().(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Array:
			et = u.Elem()
		}
	}
	if et == nil {
		return r.x.tt.mk("unknown", "", nil, xs, i)
	}
	return r.x.load(st, r.x.indexAddr(xs, i, types.NewPointer(et)), et)
}

// first decides that an access is to the first element of the list.
func (s *listScan) first(v *visit) bool {
	return s.is(v.addr) && v.ev.st.eval(s.r.x.eq(v.idx, s.r.x.tt.intc(0), types.Typ[types.Int])) == 1
}

// nextPos decides that the access v2 is to the element after v, where v is in
// the iteration which the back edge ends.
func (s *listScan) advances(v *visit, m map[*Term]*Term) bool {
	x := s.r.x
	a2, i2 := x.subst(v.addr, m), x.subst(v.idx, m)
	d := linOf(i2).plus(linOf(v.idx), -1)
	base, off := a2, x.tt.intc(0)
	if a2 != v.addr {
		if a2.Op != "slice" || a2.Args[0] != v.addr || a2.Args[2] != nil || a2.Args[1] == nil {
			return false
		}
		base, off = a2.Args[0], a2.Args[1]
	}
	if base != v.addr {
		return false
	}
	d = d.plus(linOf(off), 1)
	return len(d.co) == 0 && d.k == 1
}

// inOrder checks that the list is visited from its first element on, one by one.
func (s *listScan) inOrder(c *Checker, rule string) {
	r := s.r
	for _, p := range r.paths {
		vs := s.visits(p)
		for i, v := range vs {
			if i == 0 {
				c.check(rule, r.name, s.first(v), r, p, v.ev, "the list is not started at its first element")
				continue
			}
			prev := vs[i-1]
			if prev.loop == nil || prev.loop.Loop.Generic {
				c.check(rule, r.name, false, r, p, v.ev, "an element is looked at twice or out of order")
				continue
			}
			// the second iteration: where it starts, and that it goes on one by one
			m := loopSubst(prev.loop)
			a, ix := r.x.subst(v.addr, m), r.x.subst(v.idx, m)
			d := linOf(ix).plus(linOf(prev.idx), -1)
			if a != prev.addr && a.Op == "slice" && a.Args[0] == prev.addr && a.Args[1] != nil && a.Args[2] == nil {
				d = d.plus(linOf(a.Args[1]), 1)
				a = prev.addr
			}
			c.check(rule, r.name, a == prev.addr && len(d.co) == 0 && d.k == 1, r, p, v.ev, "an element of the list is skipped or tried twice")
			if v.loop != nil {
				c.check(rule, r.name, s.advances(v, loopSubst(v.loop)), r, p, v.loop, "an element of the list is skipped or tried twice")
			}
		}
	}
}

// exhausted decides that the path left the list after its last element.
func (s *listScan) exhausted(p *Path) bool {
	r := s.r
	vs := s.visits(p)
	st := p.St
	if len(vs) == 0 {
		for f, v := range st.facts {
			if v && f.Op == "eq" && len(f.Args) == 2 && f.Args[0].Op == "len" && s.is(f.Args[0].Args[0]) && f.Args[1] == r.x.tt.intc(0) {
				return true
			}
			if v && f.Op == "eq" && len(f.Args) == 2 && s.is(f.Args[0]) && f.Args[1].Op == "nil" {
				return true
			}
		}
		return s.lenZeroKnown(st)
	}
	last := vs[len(vs)-1]
	if last.loop == nil {
		// left from within an iteration: the check is at its end
		return r.ge(st, r.x.tt.mkLin(linPlus(linOf(last.idx), 1)), r.x.length(last.addr), 0) == 1
	}
	// the path went back to the loop and left: the position it would look at
	m0 := loopSubst(last.loop)
	for _, q := range r.paths {
		for i, v := range s.visits(q) {
			if i == 0 {
				continue
			}
			prev := s.visits(q)[i-1]
			if prev.loop == nil || prev.loop.Pos != last.loop.Pos {
				continue
			}
			// the same loop on another path: match its symbols
			m := map[*Term]*Term{}
			for j, sy := range prev.loop.Loop.Sym {
				if last.loop.Loop.Sym != nil && j < len(last.loop.Loop.Sym) && sy.Op == "sym" {
					m[sy] = last.loop.Loop.Sym[j]
				}
			}
			a, ix := r.x.subst(v.addr, m), r.x.subst(v.idx, m)
			if r.ge(st, ix, r.x.length(a), 0) == 1 {
				return true
			}
			if last.loop.Loop.Generic {
				a, ix = r.x.subst(a, m0), r.x.subst(ix, m0)
				if r.ge(st, ix, r.x.length(a), 0) == 1 {
					return true
				}
			}
		}
	}
	return false
}

func (s *listScan) lenZeroKnown(st *State) bool {
	for f := range st.facts {
		for _, t := range subterms(f, nil) {
			if t.Op == "len" && s.is(t.Args[0]) && s.r.ge(st, s.r.x.tt.intc(0), t, 0) == 1 {
				return true
			}
		}
	}
	return false
}

func subterms(t *Term, out []*Term) []*Term {
	if t == nil || len(out) > 400 {
		return out
	}
	out = append(out, t)
	for _, a := range t.Args {
		out = subterms(a, out)
	}
	if l, ok := t.Obj.(lin); ok {
		for x := range l.co {
			out = subterms(x, out)
		}
	}
	return out
}

func linPlus(l lin, k int64) lin { l = l.plus(lin{co: map[*Term]int64{}}, 1); l.k += k; return l }

// flagHolds decides that what the path knows about a loop variable can only be
// the case if every (all) or some (!all) iteration of the loop satisfied pred.
// all: every input which may satisfy the fact has pred, and the fact holds
// through unchanged iterations only if they have pred too.
func (r *Run) flagHolds(p *Path, all bool, pred func(p *Path, e *Event) bool) bool {
	incoming := loopInputs(r)
	for f, v := range p.St.facts {
		for s, ins := range incoming {
			if !f.contains(s) && !linHas(f, s) {
				continue
			}
			good := len(ins) > 0
			for _, in := range ins {
				st := in.e.st
				if counts(s, ins) {
					st = st.clone()
					st.assume(r.x.ge0(linOf(s)), true)
				}
				got := st.eval(r.x.subst(f, map[*Term]*Term{s: in.val}))
				if got == 1 && !v || got == -1 && v {
					continue
				}
				if in.val == s && !all {
					continue
				}
				// a later iteration may only keep what the earlier ones left behind
				if !pred(in.p, in.e) || all && in.e.Loop.Generic && in.val != s {
					good = false
				}
			}
			if good {
				return true
			}
		}
	}
	return false
}

// counts decides that a loop variable is never negative: it starts at a
// constant and only ever grows.
func counts(s *Term, ins []loopIn) bool {
	if b, ok := s.typ().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	for _, in := range ins {
		d := linOf(in.val)
		if e := d.plus(linOf(s), -1); len(e.co) == 0 {
			d = e
		}
		if len(d.co) != 0 || d.k < 0 {
			return false
		}
	}
	return true
}

// resolve lists the values which a loop variable may have been left with.
func (r *Run) resolve(t *Term) []loopIn {
	if t.Op != "sym" {
		return nil
	}
	return loopInputs(r)[t]
}

func linHas(f, s *Term) bool {
	for _, t := range subterms(f, nil) {
		if t == s {
			return true
		}
	}
	return false
}

// loadOf is a predicate for reads of a field.
func loadOf(ro *Role) func(*Term) bool {
	return func(t *Term) bool { return t.Op == "load" && ro.is(t.Args[0]) }
}

// ---- fallback chains

// chain checks a list of invokers which are tried in order.
func (c *Checker) chain(r *Run, is func(*Term) bool, method string, skip func(p *Path) bool) {
	sc := r.newScan(is)
	sc.inOrder(c, "order")
	for _, p := range r.paths {
		if p.End == "panic" {
			c.check("skip-nil", r.name, false, r, p, nil, "the path ends with a panic")
			continue
		}
		vs := sc.visits(p)
		done := false
		for i, v := range vs {
			last := i == len(vs)-1
			if len(v.calls) == 0 {
				c.check("skip-nil", r.name, p.St.eval(r.x.mkEqNil(v.elem)) == 1 || done, r, p, v.ev, "an invoker which may not be nil is passed over")
				continue
			}
			if !c.check("once", r.name, len(v.calls) == 1 && v.calls[0].methodName() == method && len(v.calls[0].Res) == 2, r, p, v.calls[0], "an invoker is called %d times", len(v.calls)) {
				continue
			}
			e := v.calls[0]
			c.check("skip-nil", r.name, e.st.eval(r.x.mkEqNil(v.elem)) == -1, r, p, e, "an invoker which may be nil is called")
			args := true
			for j := 0; j < 3; j++ {
				args = args && len(e.Args) == 4 && e.Args[1+j] == r.param(j)
			}
			c.check("once", r.name, args, r, p, e, "the invoker is called with other arguments")
			found, nerr := p.St.eval(e.Res[0]), p.St.eval(r.x.mkEqNil(e.Res[1]))
			goesOn := v.loop != nil || !last
			switch {
			case found == 1 || nerr == -1:
				done = true
				c.check("stop", r.name, !goesOn && p.End == "return", r, p, e, "another invoker is tried although one took the call or failed")
				if p.End == "return" {
					c.check("stop", r.name, same(p.St, p.Ret[1], e.Res[1]) || nerr == 1 && p.St.isNil(p.Ret[1]), r, p, nil, "the error of the invoker is not returned")
					c.check("stop", r.name, found != 1 || p.St.eval(p.Ret[0]) == 1, r, p, nil, "a call which was taken is reported as not found")
				}
			case found == -1 && nerr == 1:
				if p.End == "return" && !goesOn {
					c.check("none", r.name, sc.exhausted(p), r, p, e, "the remaining invokers are not tried")
				}
			default:
				c.check("stop", r.name, !goesOn && p.End == "return" && same(p.St, p.Ret[0], e.Res[0]) && same(p.St, p.Ret[1], e.Res[1]) && sc.exhausted(p), r, p, e, "it is not decided whether the invoker took the call")
				done = true
			}
		}
		if done || p.End != "return" || skip(p) {
			continue
		}
		c.check("none", r.name, sc.exhausted(p), r, p, nil, "the list is left before its end")
		c.check("none", r.name, p.St.eval(p.Ret[0]) == -1 && r.retNil(p, 1) == 1, r, p, nil, "the result is %v although no invoker took the call", p.Ret)
	}
}

func ruleFallback(c *Checker) {
	c.rule("order", "the invokers of a list are tried from the first to the last, none is left out and none is tried twice")
	c.rule("skip-nil", "exactly the invokers which are nil are passed over")
	c.rule("once", "an invoker which is tried gets the ids and the stream unchanged, once")
	c.rule("stop", "no further invoker is tried after one took the call or failed, and its result is returned")
	c.rule("none", "a call is reported as not found, without an error, only after the whole list was tried")
	c.rule("nil-func", "a nil InvokerFunc does not take calls, any other is called once with the same arguments and its result is returned")
	c.rule("made-of", "a mux has exactly the fallback invokers it was given")
	r := c.run("srpc.InvokerSlice.InvokeMethod")
	c.chain(r, func(t *Term) bool {
		if t.Op == "load" {
			t = t.Args[0]
		}
		return t == r.recv()
	}, "InvokeMethod", func(*Path) bool { return false })

	t := c.implOf(c.load("linux"), "srpc.NewMux", 0)
	fb := muxFallback(c, t)
	sv := muxServices(c, t)
	m := c.runMethod(t, "InvokeMethod")
	c.chain(m, loadOf(fb), "InvokeMethod", func(p *Path) bool { return len(m.handlerCalls(sv, p)) > 0 })

	c.ctor("made-of", "srpc.NewMux", 0, map[string]int{"[]" + ModPath + "/srpc.Invoker": 0})
	c.ctor("made-of", "srpc.NewServer", 0, map[string]int{ModPath + "/srpc.Invoker": 0})

	r = c.run("srpc.InvokerFunc.InvokeMethod")
	fn := r.param(-1)
	for _, p := range c.returns("nil-func", r) {
		var cs []*Event
		var f *Term
		for _, e := range p.Events {
			if e.Kind == "call" && e.Name == "call" {
				cs = append(cs, e)
				f = e.Recv
			}
		}
		if len(cs) == 0 {
			isNil := false
			for g, v := range p.St.facts {
				if v && g.Op == "eq" && g.Args[1].Op == "nil" && (g.Args[0] == fn || g.Args[0].Op == "load" && g.Args[0].Args[0] == fn) {
					isNil = true
				}
			}
			c.check("nil-func", r.name, isNil && p.St.eval(p.Ret[0]) == -1 && r.retNil(p, 1) == 1, r, p, nil, "a function which may not be nil is not called")
			continue
		}
		e := cs[0]
		ok := len(cs) == 1 && len(e.Args) == 3 && e.Args[0] == r.param(0) && e.Args[1] == r.param(1) && e.Args[2] == r.param(2)
		c.check("nil-func", r.name, ok && e.st.eval(r.x.mkEqNil(f)) == -1 && same(p.St, p.Ret[0], e.Res[0]) && same(p.St, p.Ret[1], e.Res[1]), r, p, e, "the function is not called as it should be, or its result is dropped")
	}
	c.floor("order", 8)
	c.floor("stop", 8)
	c.floor("none", 6)
	c.floor("nil-func", 2)
}

func muxFallback(c *Checker, t types.Type) *Role {
	return c.role(t, "the fallback invokers", func(u types.Type) bool {
		s, ok := u.Underlying().(*types.Slice)
		return ok && tyNamed(ModPath+"/srpc.Invoker")(s.Elem())
	}, "fallback")
}

func muxServices(c *Checker, t types.Type) *Role {
	return c.role(t, "the registered services", func(u types.Type) bool {
		m, ok := u.Underlying().(*types.Map)
		if !ok {
			return false
		}
		_, ok = m.Elem().Underlying().(*types.Map)
		return ok
	}, "services")
}

func muxLock(c *Checker, t types.Type) *Role {
	return c.role(t, "the lock", func(u types.Type) bool { return tyNamed("sync.Mutex")(u) || tyNamed("sync.RWMutex")(u) }, "rmtx")
}

// muxTerm reports if a term is read from the registered services: 1 the outer
// map, 2 the methods of a service, 3 a handler.
func muxTerm(sv *Role, t *Term) int {
	switch {
	case t == nil:
		return 0
	case t.Op == "load" && sv.is(t.Args[0]):
		return 1
	case t.Op == "lookup":
		if n := muxTerm(sv, t.Args[0]); n > 0 {
			return n + 1
		}
	}
	return 0
}

// handlers lists the registered handlers which a term may be. A loop variable
// may be all which the loop gives it.
func (r *Run) handlers(sv *Role, t *Term, seen map[*Term]bool) []*Term {
	if muxTerm(sv, t) == 3 {
		return []*Term{t}
	}
	if t.Op != "sym" || seen[t] {
		return nil
	}
	seen[t] = true
	var out []*Term
	for _, in := range r.resolve(t) {
		out = append(out, r.handlers(sv, in.val, seen)...)
	}
	return out
}

// handlerCalls lists the calls of registered handlers on a path.
func (r *Run) handlerCalls(sv *Role, p *Path) []*Event {
	var out []*Event
	for _, e := range p.Events {
		if e.Kind == "call" && e.methodName() == "InvokeMethod" && len(e.Args) == 4 && len(r.handlers(sv, e.Args[0], map[*Term]bool{})) > 0 {
			out = append(out, e)
		}
	}
	return out
}

// ---- dispatch

func ruleMux(c *Checker) {
	c.rule("dispatch", "a call is handed to the handler registered for its service and method, exactly once, with the ids and the stream unchanged, and the result is returned; with an empty service id every service is searched for the method")
	c.rule("no-fallback", "a fallback invoker is only tried if no handler is registered for the call")
	c.rule("register", "Register enters the handler for its service under every method id it lists which is not empty, and for nothing else")
	c.rule("register-keeps", "Register never drops the handlers which are registered already for other methods")
	c.rule("register-empty", "a handler without a service id is refused and changes nothing")
	c.rule("has", "HasService and HasServiceMethod tell whether a handler is registered")
	t := c.implOf(c.load("linux"), "srpc.NewMux", 0)
	sv, fb := muxServices(c, t), muxFallback(c, t)
	nw := c.run("srpc.NewMux")
	for _, p := range c.returns("register", nw) {
		o := unwrap(p.St.rep(p.Ret[0]))
		m := p.St.rep(nw.x.load(p.St, sv.addr(nw.x, o), sv.typ))
		ok := m.Op == "make" && emptyMap(nw, p, m)
		if o.Op == "alloc" && p.St.isNil(m) {
			// made when it is needed first
			g := c.runMethod(t, "Register")
			for _, q := range g.paths {
				for _, e := range q.Events {
					ok = ok || e.Kind == "store" && e.Addr == sv.addr(g.x, g.recv())
				}
			}
		}
		c.check("register", nw.name, o.Op == "alloc" && ok, nw, p, nil, "a new mux can not register handlers, or has some")
	}
	r := c.runMethod(t, "InvokeMethod")
	sid, mid := r.param(0), r.param(1)
	for _, p := range c.returns("dispatch", r) {
		st := p.St
		hs := r.handlerCalls(sv, p)
		n := 0
		for _, e := range p.Events {
			if e.Kind == "call" && e.methodName() == "InvokeMethod" {
				n++
			}
		}
		if len(hs) > 0 {
			e := hs[0]
			h := e.Args[0]
			c.check("dispatch", r.name, n == 1, r, p, e, "%d handlers are called", n)
			c.check("dispatch", r.name, e.Args[1] == sid && e.Args[2] == mid && e.Args[3] == r.param(2), r, p, e, "the handler gets other arguments")
			for _, g := range r.handlers(sv, h, map[*Term]bool{}) {
				c.check("dispatch", r.name, g.Args[1] == mid, r, p, e, "the handler is one of another method")
				if st.eval(r.lenZero(sid)) != 1 {
					c.check("dispatch", r.name, g.Args[0].Args[1] == sid, r, p, e, "the handler is one of another service")
				}
			}
			c.check("dispatch", r.name, e.st.eval(r.x.mkEqNil(h)) == -1 || h.Op == "lookup" && e.st.eval(hasKey(r, h)) == 1, r, p, e, "the handler may be missing")
			c.check("dispatch", r.name, same(st, p.Ret[0], e.Res[0]) && same(st, p.Ret[1], e.Res[1]), r, p, e, "the result of the handler is not returned")
			continue
		}
		for _, e := range p.Events {
			if e.Kind != "call" || e.methodName() != "InvokeMethod" {
				continue
			}
			of := false
			for _, s := range subterms(e.Args[0], nil) {
				of = of || loadOf(fb)(s)
			}
			c.check("dispatch", r.name, of, r, p, e, "the call is handed to something which is neither registered nor a fallback")
		}
		// no handler: it was looked for and not found
		c.check("no-fallback", r.name, notRegistered(r, sv, p, sid, mid), r, p, nil, "the call is passed on although a handler may be registered for it")
	}

	c.searchedAll(r, sv, mid)

	lk := muxLock(c, t)
	r = c.runMethod(t, "Register")
	h := r.param(0)
	var sc *listScan
	for _, p := range c.returns("register", r) {
		gs, gm := calls(p, ".GetServiceID"), calls(p, ".GetMethodIDs")
		ups := []*Event{}
		for _, e := range p.Events {
			if e.Kind == "mapupdate" || e.Kind == "mapdelete" || e.Kind == "mapclear" {
				ups = append(ups, e)
			}
		}
		if !c.check("register", r.name, len(gs) > 0 && gs[0].Args[0] == h, r, p, nil, "the service id of the handler is not asked for") {
			continue
		}
		id := gs[0].Res[0]
		switch p.St.eval(r.lenZero(id)) {
		case 1:
			c.check("register-empty", r.name, len(ups) == 0 && r.retNil(p, 0) == -1, r, p, nil, "a handler without a service id is accepted")
			continue
		case 0:
			c.check("register-empty", r.name, false, r, p, nil, "the service id of the handler is not checked")
			continue
		}
		c.check("register", r.name, r.retNil(p, 0) == 1, r, p, nil, "the handler is refused")
		if !c.check("register", r.name, len(gm) > 0 && gm[0].Args[0] == h, r, p, nil, "the methods of the handler are not asked for") {
			continue
		}
	}
	isList := func(t *Term) bool {
		return t.Op == "res" && t.Ev != nil && t.Ev.methodName() == "GetMethodIDs" && t.Ev.Args[0] == h
	}
	sc = r.newScan(isList)
	sc.inOrder(c, "register")
	for _, p := range r.paths {
		if p.End == "panic" {
			continue
		}
		gs := calls(p, ".GetServiceID")
		if len(gs) == 0 || p.St.eval(r.lenZero(gs[0].Res[0])) == 1 {
			continue
		}
		id := gs[0].Res[0]
		vs := sc.visits(p)
		done := map[*Event]bool{}
		var made *Term
		for _, e := range p.Events {
			switch {
			case e.Kind == "mapupdate" && muxTerm(sv, e.Addr) == 1:
				// a service without handlers gets a new map
				done[e] = true
				fresh := e.Val.Op == "make"
				missing := false
				for f, v := range e.st.facts {
					if f.Op == "eq" && v && f.Args[1].Op == "nil" && muxTerm(sv, f.Args[0]) == 2 && f.Args[0].Args[1] == id ||
						f.Op == "haskey" && !v && muxTerm(sv, f.Args[0]) == 1 && f.Args[1] == id ||
						f.Op == "eq" && v && f.Args[0].Op == "len" && muxTerm(sv, f.Args[0].Args[0]) == 2 && f.Args[0].Args[0].Args[1] == id && f.Args[1] == r.x.tt.intc(0) {
						missing = true
					}
				}
				c.check("register-keeps", r.name, fresh && missing && len(e.Args) > 0 && e.Args[0] == id, r, p, e, "the handlers of a service are replaced")
				// nobody else registered the service since it was looked up
				held, atomic := e.holdsAddr(lk.addr(r.x, r.recv())), false
				for _, g := range p.Events {
					if g.Idx < e.Idx && (g.Kind == "maplookup" || g.Kind == "maplen") && muxTerm(sv, g.Addr) >= 1 && held != nil {
						l := g.holdsAddr(held.Addr)
						ok := l != nil && l.N == held.N
						if g.Kind == "maplookup" && muxTerm(sv, g.Addr) == 1 && g.Args[0] == id {
							atomic = ok
						}
					}
				}
				c.check("register-keeps", r.name, atomic, r, p, e, "the handlers of a service which was registered in the meantime are replaced")
				made = e.Val
			case e.Kind == "mapdelete" || e.Kind == "mapclear":
				c.check("register-keeps", r.name, false, r, p, e, "a registration is removed")
			}
		}
		for _, v := range vs {
			var up *Event
			for _, e := range p.Events {
				if e.Kind == "mapupdate" && e.Idx > v.ev.Idx && (v.loop == nil || e.Idx < v.loop.Idx) && !done[e] {
					if (e.Addr == made || muxTerm(sv, e.Addr) == 2 && e.Addr.Args[1] == id) && len(e.Args) > 0 && e.Args[0] == v.elem && up == nil {
						up = e
						done[e] = true
					}
				}
			}
			switch {
			case up != nil:
				c.check("register", r.name, same(p.St, up.Val, h) && p.St.eval(r.lenZero(v.elem)) == -1, r, p, up, "another handler, or an empty method id, is registered")
			default:
				c.check("register", r.name, p.St.eval(r.lenZero(v.elem)) == 1, r, p, v.ev, "a method of the handler is not registered")
			}
			if v.loop == nil && p.End == "return" && v == vs[len(vs)-1] {
				c.check("register", r.name, sc.exhausted(p), r, p, v.ev, "the remaining methods are not registered")
			}
		}
		if p.End == "return" {
			c.check("register", r.name, sc.exhausted(p), r, p, nil, "the list of methods is left before its end")
		}
		for _, e := range p.Events {
			if e.Kind == "mapupdate" && !done[e] {
				c.check("register", r.name, false, r, p, e, "something else is registered under %s", e.Args[0])
			}
		}
		// the map of the service is the registered one
		if made != nil {
			c.check("register", r.name, true, r, p, nil, "")
		}
	}

	// queries
	r = c.runMethod(t, "HasService")
	sid = r.param(0)
	for _, p := range c.returns("has", r) {
		st := p.St
		ret := st.eval(p.Ret[0])
		n := muxLen(r, sv, p, sid)
		switch {
		case st.eval(r.lenZero(sid)) == 1:
			c.check("has", r.name, ret == -1, r, p, nil, "the empty service id exists")
		case n != nil:
			nonEmpty := r.x.not(r.x.eq(n, r.x.tt.intc(0), types.Typ[types.Int]))
			ok := r.agree(st, p.Ret[0], []*Term{nonEmpty}, func(v []bool) bool { return v[0] })
			// "> 0" is the same as "not 0"
			if !ok && p.Ret[0].Op == "ge0" {
				ok = true
				for _, some := range []bool{false, true} {
					s2 := st.clone()
					s2.assume(r.x.ge0(linPlus(linOf(n), -1)), some)
					if !some {
						s2.assume(r.x.eq(n, r.x.tt.intc(0), types.Typ[types.Int]), true)
					}
					if w := s2.eval(p.Ret[0]); some && w != 1 || !some && w != -1 {
						ok = false
					}
				}
			}
			c.check("has", r.name, ok, r, p, nil, "the answer %s does not tell whether the service has handlers", p.Ret[0])
		default:
			c.check("has", r.name, false, r, p, nil, "the service is not looked up")
		}
	}
	r = c.runMethod(t, "HasServiceMethod")
	sid, mid = r.param(0), r.param(1)
	ids := r.newScan(func(t *Term) bool {
		return t.Op == "res" && t.Ev != nil && t.Ev.methodName() == "GetMethodIDs" && muxTerm(sv, t.Ev.Args[0]) == 3
	})
	for _, p := range r.paths {
		for _, v := range ids.visits(p) {
			if v.loop != nil || p.End == "return" && p.St.eval(p.Ret[0]) == -1 {
				c.check("has", r.name, p.St.eval(r.x.eq(v.elem, mid, types.Typ[types.String])) == -1, r, p, v.ev, "a method which a handler lists is passed over")
			}
		}
	}
	found := 0
	for _, p := range c.returns("has", r) {
		st := p.St
		if st.eval(p.Ret[0]) != -1 {
			found++
			c.check("has", r.name, st.eval(r.lenZero(mid)) == -1 || len(r.muxLookups(sv, p)) > 0, r, p, nil, "the empty method id may exist")
		}
		if st.eval(r.lenZero(sid)) == 1 || st.eval(r.lenZero(mid)) == 1 {
			c.check("has", r.name, st.eval(p.Ret[0]) == -1, r, p, nil, "an empty id exists")
			continue
		}
		// direct lookup of the handler
		var direct *Term
		for _, e := range p.Events {
			if e.Kind == "maplookup" && muxTerm(sv, e.Addr) == 2 && e.Addr.Args[1] == sid && e.Args[0] == mid {
				direct = r.x.tt.mk("found", "", nil)
			}
		}
		switch ret := st.eval(p.Ret[0]); {
		case direct != nil:
			c.check("has", r.name, ret != 0 && registered(r, sv, p, sid, mid) == ret || ret == 0 && isLookupAnswer(p.Ret[0], sv, sid, mid), r, p, nil, "the answer does not tell whether the method is registered")
		case ret == 1:
			ok := false
			for f, v := range st.facts {
				if v && f.Op == "eq" && (f.Args[0] == mid || f.Args[1] == mid) {
					o := f.Args[0]
					if o == mid {
						o = f.Args[1]
					}
					if o.Op == "load" && o.Args[0].Op == "index" && o.Args[0].Args[0].Op == "res" {
						ev := o.Args[0].Args[0].Ev
						if ev != nil && ev.methodName() == "GetMethodIDs" && muxTerm(sv, ev.Args[0]) == 3 && ev.Args[0].Args[0].Args[1] == sid {
							ok = true
						}
					}
				}
				if v && f.Op == "pure" && strings.HasPrefix(f.Aux, "slices.Contains") {
					ok = true
				}
			}
			c.check("has", r.name, ok, r, p, nil, "a method exists which no handler of the service lists")
		case ret == -1:
			ok := false
			for f, v := range st.facts {
				if !v && f.Op == "next" || v && f.Op == "eq" && f.Args[1].Op == "nil" && muxTerm(sv, f.Args[0]) == 2 {
					ok = true
				}
				if !v && f.Op == "sym" && strings.HasPrefix(f.Aux, "next") {
					ok = true
				}
				if !v && f.Op == "haskey" && muxTerm(sv, f.Args[0]) == 1 {
					ok = true
				}
			}
			c.check("has", r.name, ok, r, p, nil, "a method is reported missing before every handler of the service was asked")
		default:
			c.check("has", r.name, false, r, p, nil, "it is not decided whether the method is registered")
		}
	}
	c.check("has", r.name, found > 0, r, nil, nil, "no method exists")
	c.floor("dispatch", 8)
	c.floor("no-fallback", 4)
	c.floor("register", 10)
	c.floor("register-empty", 1)
	c.floor("register-keeps", 1)
	c.floor("has", 4)
}

// muxLookups: the lookups of a handler by its service and method.
func (r *Run) muxLookups(sv *Role, p *Path) []*Event {
	var out []*Event
	for _, e := range p.Events {
		if e.Kind == "maplookup" && muxTerm(sv, e.Addr) == 2 {
			out = append(out, e)
		}
	}
	return out
}

func muxLen(r *Run, sv *Role, p *Path, sid *Term) *Term {
	look := func(t *Term) *Term {
		for _, s := range subterms(t, nil) {
			if s.Op == "len" && muxTerm(sv, s.Args[0]) == 2 && s.Args[0].Args[1] == sid {
				return s
			}
		}
		return nil
	}
	if t := look(p.Ret[0]); t != nil {
		return t
	}
	for f := range p.St.facts {
		if t := look(f); t != nil {
			return t
		}
	}
	return nil
}

func hasKey(r *Run, h *Term) *Term {
	return r.x.tt.mk("haskey", h.Aux, types.Typ[types.Bool], h.Args[0], h.Args[1])
}

// registered tells what the path knows about the handler for the ids.
func registered(r *Run, sv *Role, p *Path, sid, mid *Term) int {
	for f, v := range p.St.facts {
		var m *Term
		neg := false
		switch {
		case f.Op == "eq" && f.Args[1].Op == "nil":
			m, neg = f.Args[0], true
		case f.Op == "haskey":
			m = f
		default:
			continue
		}
		lvl := 0
		if m.Op == "haskey" {
			lvl = muxTerm(sv, m.Args[0]) + 1
		} else {
			lvl = muxTerm(sv, m)
		}
		pos := v != neg
		switch {
		case lvl == 3 && m.Args[1] == mid && m.Args[0].Op == "lookup" && m.Args[0].Args[1] == sid:
			if pos {
				return 1
			}
			return -1
		case lvl == 2 && m.Args[1] == sid && !pos:
			return -1
		}
	}
	return 0
}

func isLookupAnswer(t *Term, sv *Role, sid, mid *Term) bool {
	for _, s := range subterms(t, nil) {
		if (s.Op == "lookup" || s.Op == "haskey") && s.Args[1] == mid && muxTerm(sv, s.Args[0]) == 2 && s.Args[0].Args[1] == sid {
			return t.Op == "not" || t.Op == "haskey"
		}
	}
	return false
}

// notRegistered: the path looked for the handler and there is none.
func notRegistered(r *Run, sv *Role, p *Path, sid, mid *Term) bool {
	if p.St.eval(r.lenZero(sid)) != 1 {
		return registered(r, sv, p, sid, mid) == -1
	}
	// every service was searched: the range over the services ended
	ended := false
	for f, v := range p.St.facts {
		if !v && (f.Op == "next" || f.Op == "sym" && strings.HasPrefix(f.Aux, "next")) {
			ended = true
		}
	}
	return ended
}

// searchedAll checks the search of every service for a method: a round which
// is not the last one did not find a handler, or found one which is kept.
func (c *Checker) searchedAll(r *Run, sv *Role, mid *Term) {
	for _, p := range r.paths {
		var key *Term
		for _, e := range p.Events {
			if e.Kind == "maprange" && muxTerm(sv, e.Addr) == 1 && len(e.Args) > 0 {
				key = e.Args[0]
			}
			if e.Kind != "loop" || key == nil || !isRange(e.Loop.Header) {
				continue
			}
			ok := false
			for f, v := range e.st.facts {
				if v && f.Op == "eq" && f.Args[1].Op == "nil" || !v && f.Op == "haskey" {
					m := f.Args[0]
					if f.Op == "haskey" {
						m = f
					}
					lvl := 0
					if m.Op == "haskey" {
						lvl = muxTerm(sv, m.Args[0]) + 1
					} else {
						lvl = muxTerm(sv, m)
					}
					ok = ok || lvl == 3 && m.Args[1] == mid && m.Args[0].Args[1] == key || lvl == 2 && m.Args[1] == key
				}
			}
			for i, n := range e.Loop.Next {
				ss := symsOf(e)
				if ok || i >= len(ss) || len(r.handlers(sv, n, map[*Term]bool{})) == 0 {
					continue
				}
				ok = r.found(e.st, n) && r.sticky(ss[i])
			}
			c.check("no-fallback", r.name, ok, r, p, e, "the next service is searched although the handler may have been found")
			key = nil
		}
	}
}

// isRange: the loop goes over a map.
func isRange(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return true
		}
	}
	return false
}

// found: the handler is not nil. Nil is never registered.
func (r *Run) found(st *State, h *Term) bool {
	return st.eval(r.x.mkEqNil(h)) == -1 || h.Op == "lookup" && st.eval(hasKey(r, h)) == 1
}

// sticky: once a loop variable is not nil it keeps its value.
func (r *Run) sticky(s *Term) bool {
	for _, in := range r.resolve(s) {
		if in.val != s && in.e.Loop.Generic && !r.found(in.e.st, in.val) {
			return false
		}
	}
	return true
}

func ruleMuxLock(c *Checker) {
	c.rule("read-locked", "the registered services are only looked at while the lock of the mux is held")
	c.rule("write-locked", "the registered services are only changed while the lock of the mux is held for writing")
	c.rule("call-unlocked", "no handler, invoker or other method is invoked while the lock is held")
	c.rule("released", "the lock is released on every path, and never taken by a path which holds it")
	c.rule("covered", "the field which holds the services is only assigned when the mux is made")
	t := c.implOf(c.load("linux"), "srpc.NewMux", 0)
	sv, lk := muxServices(c, t), muxLock(c, t)
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	for _, m := range exportedMethods(c.p, t) {
		r := c.runMethod(t, m)
		la := lk.addr(r.x, r.recv())
		for _, p := range allPaths(r) {
			made := map[*Term]bool{}
			for _, e := range p.Events {
				l := e.holdsAddr(la)
				switch e.Kind {
				case "maplookup", "maprange", "maplen":
					if muxTerm(sv, e.Addr) > 0 {
						c.check("read-locked", e.fnName(), l != nil, r, p, e, "the services are read without the lock")
					}
				case "mapupdate", "mapdelete", "mapclear":
					if muxTerm(sv, e.Addr) == 1 && e.Val != nil {
						made[e.Val] = true
					}
					if muxTerm(sv, e.Addr) > 0 || made[e.Addr] {
						c.check("write-locked", e.fnName(), l != nil && l.Mode == "w", r, p, e, "the services are changed without the lock held for writing")
					}
				case "call":
					if e.methodName() == "InvokeMethod" || e.Name == "call" {
						c.check("call-unlocked", e.fnName(), l == nil, r, p, e, "a handler is invoked while the lock of the mux is held")
					}
				case "lock":
					if e.Addr == la {
						c.check("released", r.name, l == nil, r, p, e, "the lock is taken while it is held")
					}
				}
			}
			if p.End == "return" || p.End == "panic" {
				c.check("released", r.name, len(p.St.locks) == 0, r, p, nil, "the path ends with the lock held")
			}
		}
	}
	for pos, fn := range c.p.storeSites(sv.aux) {
		name := FnName(fn)
		c.site("covered", name, name == "srpc.NewMux", c.p.Pos(pos), "%s replaces the registered services", name)
	}
	c.floor("read-locked", 10)
	c.floor("write-locked", 3)
	c.floor("call-unlocked", 4)
	c.floor("released", 10)
}

// ---- sets of clients

func ruleClientSet(c *Checker) {
	c.rule("order", "the clients of a set are tried from the first to the last, none is left out and none is tried twice")
	c.rule("skip-nil", "exactly the clients which are nil are passed over")
	c.rule("same-call", "every client which is tried gets the call unchanged")
	c.rule("first-success", "the result of the first client which succeeds is returned, and no further one is tried")
	c.rule("try-next", "the next client is only tried after one failed with the unimplemented error, or was canceled while the context of the caller is live")
	c.rule("error", "any other error is returned as it is, and no further client is tried")
	c.rule("none", "without a client the call fails with ErrNoAvailableClients, after all were tried with ErrUnimplemented")
	t := c.load("linux").NamedType("srpc.ClientSet")
	if t == nil {
		panic(abort{&Violation{Rule: "anchor", Construct: "srpc.ClientSet", Msg: "the type does not exist any more: the property can not be decided"}})
	}
	ro := c.role(t, "the clients", func(u types.Type) bool {
		s, ok := u.Underlying().(*types.Slice)
		return ok && tyNamed(ModPath+"/srpc.Client")(s.Elem())
	}, "clients")
	c.rule("made-of", "the set has exactly the clients it is made with, in their order")
	rc := c.run("srpc.NewClientSet")
	for _, p := range c.returns("made-of", rc) {
		v := rc.x.load(p.St, ro.addr(rc.x, p.St.rep(p.Ret[0])), ro.typ)
		in := rc.param(0)
		ok := same(p.St, v, in) || rc.copied(p, v, in) == ""
		for _, e := range p.Events {
			ok = ok || e.isCall("slices.Clone") && e.Res[0] == v && e.Args[0] == in || e.Kind == "call" && e.Name == "append" && e.Res[0] == v && e.Args[1] == in && p.St.eval(rc.lenZero(e.Args[0])) == 1
		}
		c.check("made-of", rc.name, ok, rc, p, nil, "the clients are %s", v)
	}
	for _, m := range []string{"ExecCall", "NewStream"} {
		r := c.run("srpc.ClientSet." + m)
		ctx := r.param(0)
		sc := r.newScan(loadOf(ro))
		sc.inOrder(c, "order")
		np := r.fn.Signature.Params().Len()
		anyCall := func(p *Path, e *Event) bool { // a call in the iteration which the back edge ends
			for _, v := range sc.visits(p) {
				if v.loop == e && len(v.calls) > 0 {
					return true
				}
			}
			return false
		}
		for _, p := range r.paths {
			if p.End == "panic" {
				c.check("skip-nil", r.name, false, r, p, nil, "the path ends with a panic")
				continue
			}
			vs := sc.visits(p)
			done, total := false, 0
			for i, v := range vs {
				if len(v.calls) == 0 {
					c.check("skip-nil", r.name, p.St.eval(r.x.mkEqNil(v.elem)) == 1, r, p, v.ev, "a client which may not be nil is passed over")
					continue
				}
				total++
				e := v.calls[0]
				ok := len(v.calls) == 1 && e.methodName() == m && len(e.Args) == np+1
				for j := 0; ok && j < np; j++ {
					ok = e.Args[1+j] == r.param(j)
				}
				if !c.check("same-call", r.name, ok, r, p, e, "the client does not get the call unchanged") {
					continue
				}
				c.check("skip-nil", r.name, e.st.eval(r.x.mkEqNil(v.elem)) == -1, r, p, e, "a client which may be nil is called")
				err := e.Res[len(e.Res)-1]
				goesOn := v.loop != nil || i < len(vs)-1
				nerr := p.St.eval(r.x.mkEqNil(err))
				if nerr == 1 {
					done = true
					c.check("first-success", r.name, !goesOn && p.End == "return" && r.retNil(p, len(p.Ret)-1) == 1, r, p, e, "another client is tried after one succeeded")
					if p.End == "return" && len(p.Ret) == 2 {
						c.check("first-success", r.name, same(p.St, p.Ret[0], e.Res[0]), r, p, e, "the stream of the client is not returned")
					}
					continue
				}
				if !c.check("error", r.name, nerr == -1, r, p, e, "the result of the client is ignored") {
					continue
				}
				next := unimplemented(r, p, err) == 1 || isErr(r, p, err, "context.Canceled") == 1 && ctxSeenAfter(r, p, e, ctx) == -1
				last := isErr(r, p, err, "context.Canceled") == 1 && ctxSeenAfter(r, p, e, ctx) == 1
				exh := p.End == "return" && sc.exhausted(p)
				switch {
				case next && goesOn:
					c.check("try-next", r.name, true, r, p, e, "")
				case next:
					c.check("try-next", r.name, exh, r, p, e, "the remaining clients are not tried")
				default:
					done = true
					c.check("try-next", r.name, !goesOn && p.End == "return", r, p, e, "another client is tried after an error which is not the unimplemented one")
					if p.End == "return" {
						c.check("try-next", r.name, isErr(r, p, err, "context.Canceled") == -1 || ctxSeenAfter(r, p, e, ctx) == 1, r, p, e, "the call ends although the client may have been canceled while the context of the caller is live")
						c.check("try-next", r.name, last || unimplemented(r, p, err) == -1, r, p, e, "the call ends although the error may have the text of ErrUnimplemented, as which it arrives from a remote")
						ret := p.Ret[len(p.Ret)-1]
						c.check("error", r.name, same(p.St, ret, err) || last && isSentinel(p.St, ret, "context.Canceled"), r, p, e, "the error of the client is not returned")
					}
				}
			}
			if done || p.End != "return" {
				continue
			}
			c.check("none", r.name, sc.exhausted(p), r, p, nil, "the list is left before its end")
			ret := p.Ret[len(p.Ret)-1]
			looped, tail := false, 0
			for _, v := range vs {
				looped = looped || v.loop != nil
				if v.loop == nil {
					tail += len(v.calls)
				}
			}
			switch {
			case isSentinel(p.St, ret, "srpc.ErrNoAvailableClients"):
				// what earlier iterations did is only known from what they left behind
				c.check("none", r.name, total == 0 && !looped || tail == 0 && looped && r.flagHolds(p, true, func(q *Path, e *Event) bool { return !anyCall(q, e) }), r, p, nil,
					"ErrNoAvailableClients although a client may have been tried")
			case isSentinel(p.St, ret, "srpc.ErrUnimplemented"):
				c.check("none", r.name, total > 0 || looped && r.flagHolds(p, false, anyCall), r, p, nil,
					"ErrUnimplemented although there may be no client")
			default:
				ok := looped && tail == 0 && len(r.resolve(ret)) > 0
				for _, in := range r.resolve(ret) {
					switch {
					case in.val == ret || isSentinel(in.e.st, in.val, "srpc.ErrNoAvailableClients") && (!in.e.Loop.Generic || in.val == ret):
						ok = ok && !anyCall(in.p, in.e)
					case isSentinel(in.e.st, in.val, "srpc.ErrUnimplemented"):
						ok = ok && anyCall(in.p, in.e)
					default:
						ok = false
					}
				}
				c.check("none", r.name, ok, r, p, nil, "the result is %s although no client took the call", ret)
			}
		}
	}
	c.floor("order", 8)
	c.floor("first-success", 4)
	c.floor("try-next", 8)
	c.floor("none", 8)
}

// isErr tells whether the path compared the error with a sentinel.
func isErr(r *Run, p *Path, err *Term, name string) int {
	for f, v := range p.St.facts {
		if f.Op == "eq" && (f.Args[0] == err && isSentinel(p.St, f.Args[1], name) || f.Args[1] == err && isSentinel(p.St, f.Args[0], name)) {
			if v {
				return 1
			}
			return -1
		}
		if f.Op == "pure" && strings.HasPrefix(f.Aux, "errors.Is/") && f.Args[0] == err && isSentinel(p.St, f.Args[1], name) {
			if v {
				return 1
			}
			return -1
		}
	}
	return 0
}

// unimplemented tells whether the text of the error was compared with the one of ErrUnimplemented.
func unimplemented(r *Run, p *Path, err *Term) int {
	if n := isErr(r, p, err, "srpc.ErrUnimplemented"); n == 1 {
		return 1
	}
	for f, v := range p.St.facts {
		if f.Op != "eq" {
			continue
		}
		a, b := f.Args[0], f.Args[1]
		if isErrText(b, err) {
			a, b = b, a
		}
		if !isErrText(a, err) {
			continue
		}
		if b.Op == "pure" && strings.HasPrefix(b.Aux, "error.Error/") && isSentinel(p.St, b.Args[0], "srpc.ErrUnimplemented") {
			if v {
				return 1
			}
			return -1
		}
	}
	return 0
}

// ctxSeenAfter is ctxSeen for observations after an event.
func ctxSeenAfter(r *Run, p *Path, e *Event, ctx *Term) int {
	q := &Path{St: p.St}
	for _, g := range p.Events {
		if g.Idx <= e.Idx {
			continue
		}
		if g.Kind == "loop" {
			break
		}
		q.Events = append(q.Events, g)
	}
	return ctxSeen(r, q, func(t *Term) bool { return t == ctx })
}

// ---- prefixes

func rulePrefix(c *Checker) {
	c.rule("strip", "CheckStripPrefix returns the first prefix of the list which the id starts with, and the id without it; without a match the id is unchanged and the matched prefix is empty")
	c.rule("order", "the prefixes are compared from the first to the last, none is left out")
	c.rule("forward", "the client and the invoker with prefixes pass a call on exactly once, with the prefix stripped from the service id and everything else unchanged, and return the result")
	c.rule("no-match", "a call without a matching prefix is not passed on: the client fails with ErrUnimplemented, the invoker reports it as not found")
	c.rule("no-prefixes", "without prefixes the service id is passed on unchanged")
	r := c.run("srpc.CheckStripPrefix")
	id, list := r.param(0), r.param(1)
	sc := r.newScan(func(t *Term) bool { return t == list })
	sc.inOrder(c, "order")
	has := func(p *Path, el *Term) int {
		for f, v := range p.St.facts {
			if f.Op == "pure" && (strings.HasPrefix(f.Aux, "strings.HasPrefix/0") || strings.HasPrefix(f.Aux, "strings.CutPrefix/1")) && f.Args[0] == id && f.Args[1] == el {
				if v {
					return 1
				}
				return -1
			}
		}
		return 0
	}
	for _, p := range r.paths {
		if p.End == "panic" {
			c.check("strip", r.name, false, r, p, nil, "the path ends with a panic")
			continue
		}
		var hit *visit
		vs := sc.visits(p)
		for i, v := range vs {
			n := has(p, v.elem)
			if n == 1 {
				c.check("order", r.name, hit == nil && v.loop == nil && i == len(vs)-1, r, p, v.ev, "the search goes on after a match")
				hit = v
				continue
			}
			c.check("order", r.name, n == -1, r, p, v.ev, "a prefix is passed over without comparing it")
		}
		if p.End != "return" {
			continue
		}
		if hit == nil {
			c.check("strip", r.name, sc.exhausted(p), r, p, nil, "the search ends before every prefix was compared")
			c.check("strip", r.name, p.Ret[0] == id && p.St.eval(r.lenZero(p.Ret[1])) == 1, r, p, nil, "the result is %v without a match", p.Ret)
			continue
		}
		el := hit.elem
		s := p.Ret[0]
		ok := s.Op == "slice" && s.Args[0] == id && s.Args[1] == r.x.length(el) && s.Args[2] == nil ||
			s.Op == "pure" && (strings.HasPrefix(s.Aux, "strings.CutPrefix/0") || strings.HasPrefix(s.Aux, "strings.TrimPrefix/0")) && s.Args[0] == id && s.Args[1] == el
		c.check("strip", r.name, ok && p.Ret[1] == el, r, p, nil, "the result is %v for the match %s", p.Ret, el)
	}
	isStr := func(u types.Type) bool { return types.TypeString(u, nil) == "[]string" }
	op := ropts{opaque: []string{"srpc.CheckStripPrefix"}}
	for _, k := range []struct {
		typ, method string
		inner       func(types.Type) bool
		sid         int
	}{
		{"srpc.PrefixClient", "ExecCall", tyNamed(ModPath + "/srpc.Client"), 1},
		{"srpc.PrefixClient", "NewStream", tyNamed(ModPath + "/srpc.Client"), 1},
		{"srpc.PrefixInvoker", "InvokeMethod", tyNamed(ModPath + "/srpc.Invoker"), 0},
	} {
		t := c.load("linux").NamedType(k.typ)
		if t == nil {
			panic(abort{&Violation{Rule: "anchor", Construct: k.typ, Msg: "the type does not exist any more: the property can not be decided"}})
		}
		inner, pre := c.role(t, "what it wraps", k.inner), c.role(t, "the prefixes", isStr)
		r := c.run(k.typ+"."+k.method, op)
		np := r.fn.Signature.Params().Len()
		for _, p := range c.returns("forward", r) {
			st := p.St
			cs := calls(p, "srpc.CheckStripPrefix")
			var fw []*Event
			for _, e := range p.Events {
				if e.onField(inner, k.method) {
					fw = append(fw, e)
				}
			}
			sid := r.param(k.sid)
			want := sid
			if len(cs) == 0 {
				// only without prefixes
				pl := r.x.load(st, pre.addr(r.x, r.recv()), pre.typ)
				if !c.check("no-prefixes", r.name, st.eval(r.lenZero(pl)) == 1, r, p, nil, "the service id is passed on unchecked") {
					continue
				}
			} else {
				e := cs[0]
				if !c.check("forward", r.name, len(cs) == 1 && e.Args[0] == sid && loadOf(pre)(e.Args[1]), r, p, e, "another id or other prefixes are compared") {
					continue
				}
				m := st.eval(r.lenZero(e.Res[1]))
				pl := r.x.load(st, pre.addr(r.x, r.recv()), pre.typ)
				switch {
				case m == 1 && st.eval(r.lenZero(pl)) == 1:
					// the documented result without prefixes: the id is unchanged
					want = e.Res[0]
				case m == 1:
					c.check("no-match", r.name, len(fw) == 0, r, p, e, "a call without a matching prefix is passed on")
					if k.typ == "srpc.PrefixClient" {
						c.check("no-match", r.name, wrapsSentinel(st, p.Ret[len(p.Ret)-1], "srpc.ErrUnimplemented"), r, p, e, "a call without a matching prefix does not fail with ErrUnimplemented")
					} else {
						c.check("no-match", r.name, st.eval(p.Ret[0]) == -1 && r.retNil(p, 1) == 1, r, p, e, "a call without a matching prefix is not reported as not found")
					}
					continue
				case m == 0:
					c.check("no-match", r.name, false, r, p, e, "the call is passed on although no prefix may match")
					continue
				default:
					want = e.Res[0]
				}
			}
			if !c.check("forward", r.name, len(fw) == 1 && len(fw[0].Args) == np+1, r, p, nil, "the call is passed on %d times", len(fw)) {
				continue
			}
			e := fw[0]
			ok := true
			for j := 0; j < np; j++ {
				w := r.param(j)
				if j == k.sid {
					w = want
				}
				ok = ok && e.Args[1+j] == w
			}
			c.check("forward", r.name, ok, r, p, e, "the call is passed on with other arguments")
			for j := range p.Ret {
				c.check("forward", r.name, same(st, p.Ret[j], e.Res[j]), r, p, nil, "the result is not returned")
			}
		}
	}
	c.ctor("forward", "srpc.NewPrefixClient", 0, map[string]int{ModPath + "/srpc.Client": 0, "[]string": 1})
	c.ctor("forward", "srpc.NewPrefixInvoker", 0, map[string]int{ModPath + "/srpc.Invoker": 0, "[]string": 1})
	c.floor("strip", 6)
	c.floor("forward", 12)
	c.floor("no-match", 4)
}

// ctor checks that a constructor stores its parameters: field type -> parameter.
func (c *Checker) ctor(rule, name string, res int, want map[string]int) {
	r := c.run(name)
	for _, p := range c.returns(rule, r) {
		v := p.St.rep(p.Ret[res])
		if v.Op == "iface" {
			v = v.Args[0]
		}
		seen := 0
		ok := r.fieldsOf(p.St, v, func(n string, ft types.Type, fv *Term) {
			i, has := want[types.TypeString(ft, nil)]
			if !has {
				return
			}
			seen++
			c.check(rule, name, fv == r.param(i), r, p, nil, "the field %s is %s", n, fv)
		})
		c.check(rule, name, ok && seen == len(want), r, p, nil, "the result of the constructor can not be followed")
	}
}

// ---- transparent wrappers

// transparent checks that a method passes the call on unchanged.
func (c *Checker) transparent(rule string, r *Run, inner func(*Term) bool, method string) {
	np := r.fn.Signature.Params().Len()
	for _, p := range c.returns(rule, r) {
		var fw []*Event
		for _, e := range p.Events {
			if e.Kind == "call" && len(e.Args) > 0 && inner(e.Args[0]) {
				fw = append(fw, e)
			}
		}
		if !c.check(rule, r.name, len(fw) == 1 && fw[0].methodName() == method && len(fw[0].Args) == np+1, r, p, nil, "the call is passed on %d times", len(fw)) {
			continue
		}
		e := fw[0]
		ok := true
		for j := 0; j < np; j++ {
			ok = ok && e.Args[1+j] == r.param(j)
		}
		c.check(rule, r.name, ok, r, p, e, "the call is passed on with other arguments")
		for j := range p.Ret {
			c.check(rule, r.name, same(p.St, p.Ret[j], e.Res[j]), r, p, nil, "the result is not the one of the wrapped object")
		}
	}
}

func ruleWrappers(c *Checker) {
	c.rule("transparent", "every method of a wrapper calls the same method of what it wraps exactly once, with the same arguments, and returns its results unchanged")
	c.rule("close-both", "closing a wrapper with a close function closes what it wraps and runs the function, each exactly once and whatever the other returns; the first error is returned")
	c.rule("made-of", "the constructor stores what it is given")
	p0 := c.load("linux")
	all := func(typ types.Type, inner *Role, iface string, skip string) {
		it := p0.NamedType(iface)
		u, ok := it.Underlying().(*types.Interface)
		if !ok {
			panic(abort{&Violation{Rule: "anchor", Construct: iface, Msg: "the interface does not exist any more"}})
		}
		for i := 0; i < u.NumMethods(); i++ {
			m := u.Method(i).Name()
			if m == skip {
				continue
			}
			r := c.runMethod(typ, m)
			c.transparent("transparent", r, loadOf(inner), m)
		}
	}
	vc := p0.NamedType("srpc.VClient")
	vm := p0.NamedType("srpc.VMux")
	if vc == nil || vm == nil {
		panic(abort{&Violation{Rule: "anchor", Construct: "srpc.VClient", Msg: "the type does not exist any more: the property can not be decided"}})
	}
	all(vc, c.role(vc, "the client", tyNamed(ModPath+"/srpc.Client")), "srpc.Client", "")
	all(vm, c.role(vm, "the mux", tyNamed(ModPath+"/srpc.Mux")), "srpc.Mux", "")
	c.ctor("made-of", "srpc.NewVClient", 0, map[string]int{ModPath + "/srpc.Client": 0})
	c.ctor("made-of", "srpc.NewVMux", 0, map[string]int{ModPath + "/srpc.Mux": 0})
	for _, k := range []struct{ ctor, iface string }{{"srpc.NewStreamWithClose", "srpc.Stream"}, {"srpc.NewPacketWriterWithClose", "srpc.PacketWriter"}} {
		t := c.implOf(p0, k.ctor, 0)
		inner := c.role(t, "what it wraps", tyNamed(ModPath+"/"+k.iface))
		fn := c.role(t, "the close function", isFuncType)
		all(t, inner, k.iface, "Close")
		c.ctor("made-of", k.ctor, 0, map[string]int{ModPath + "/" + k.iface: 0, "func() error": 1})
		r := c.runMethod(t, "Close")
		for _, p := range c.returns("close-both", r) {
			var a, b []*Event
			for _, e := range p.Events {
				if e.onField(inner, "Close") {
					a = append(a, e)
				}
				if e.Kind == "call" && e.Recv != nil && loadOf(fn)(e.Recv) {
					b = append(b, e)
				}
			}
			if !c.check("close-both", r.name, len(a) == 1, r, p, nil, "what it wraps is closed %d times", len(a)) {
				continue
			}
			if len(b) == 0 {
				f := r.x.load(p.St, fn.addr(r.x, r.recv()), fn.typ)
				c.check("close-both", r.name, p.St.isNil(f) && same(p.St, p.Ret[0], a[0].Res[0]), r, p, nil, "the close function does not run")
				continue
			}
			c.check("close-both", r.name, len(b) == 1, r, p, nil, "the close function runs %d times", len(b))
			e1, e2 := a[0].Res[0], b[0].Res[0]
			ok := false
			switch p.St.eval(r.x.mkEqNil(e1)) {
			case -1:
				ok = wrapsErr(p.St, p.Ret[0], e1) || joined(p.Ret[0], e1)
			case 1:
				ok = same(p.St, p.Ret[0], e2) || joined(p.Ret[0], e2)
			default:
				ok = joined(p.Ret[0], e1) && joined(p.Ret[0], e2)
			}
			c.check("close-both", r.name, ok, r, p, nil, "an error of closing is dropped")
		}
	}
	c.floor("transparent", 10)
	c.floor("close-both", 4)
	c.floor("made-of", 4)
}

func joined(v, e *Term) bool {
	return v.Ev != nil && v.Ev.Name == "errors.Join" && strings.Contains(v.Ev.Name, "Join")
}

func init() {
	props["S15"] = ruleFallback
	props["S16"] = ruleClientSet
	props["S17"] = ruleMux
	props["S18"] = ruleMuxLock
	props["S19"] = rulePrefix
	props["S20"] = ruleWrappers
}

// emptyMap: nothing was put into the map on the path.
func emptyMap(r *Run, p *Path, m *Term) bool {
	for _, e := range p.Events {
		if e.Kind == "mapupdate" && e.Addr != nil && e.Addr.base() == m {
			return false
		}
	}
	return true
}
