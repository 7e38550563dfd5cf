package main

import (
	"go/types"
	"sort"
	"strings"
)

// rpcState names the state of a call by role.
type rpcState struct {
	typ                               types.Type
	short                             string
	lock, writer, queue, closed, rerr *Role
	ctx, cancel                       *Role
	service, method                   *Role
	guarded, state                    []*Role
	runs                              []*Run
	pktT                              map[string]types.Type
}

const (
	tPacketWriter = ModPath + "/srpc.PacketWriter"
	tBroadcast    = "github.com/aperturerobotics/util/broadcast.Broadcast"
)

func (c *Checker) rpc(name string) *rpcState {
	p := c.load("linux")
	t := p.NamedType(name)
	if t == nil {
		panic(abort{&Violation{Rule: "anchor", Construct: name, Msg: "the type " + name + " does not exist any more: the property can not be decided"}})
	}
	s := &rpcState{typ: t, short: name}
	s.lock = c.role(t, "the lock", tyNamed(tBroadcast), "bcast")
	s.writer = c.role(t, "the packet writer", tyNamed(tPacketWriter), "writer")
	s.queue = c.role(t, "the incoming messages", tyString("[][]byte"), "dataQueue")
	s.closed = c.role(t, "the end flag", tyBasic(types.Bool), "dataClosed")
	s.rerr = c.role(t, "the outcome", func(u types.Type) bool { return types.Identical(u, errType) }, "remoteErr")
	s.ctx = c.role(t, "the context", tyNamed("context.Context"), "ctx")
	s.cancel = c.role(t, "the cancel function", tyNamed("context.CancelFunc"), "ctxCancel")
	s.service = c.role(t, "the service id", tyBasic(types.String), "service")
	s.method = c.role(t, "the method id", tyBasic(types.String), "method")
	s.guarded = []*Role{s.queue, s.closed, s.rerr}
	s.state = []*Role{s.queue, s.closed, s.rerr, s.service, s.method, s.writer}
	return s
}

// exported method names of the pointer type, promoted ones included.
func exportedMethods(p *Prog, t types.Type) []string {
	if _, ok := t.(*types.Pointer); !ok {
		t = types.NewPointer(t)
	}
	ms := types.NewMethodSet(t)
	var out []string
	for i := 0; i < ms.Len(); i++ {
		if f := ms.At(i).Obj(); f.Exported() && inModule(f.Pkg()) {
			out = append(out, f.Name())
		}
	}
	sort.Strings(out)
	return out
}

// all runs of the exported methods of the call type.
func (c *Checker) rpcRuns(s *rpcState) []*Run {
	if s.runs == nil {
		for _, m := range exportedMethods(c.p, s.typ) {
			s.runs = append(s.runs, c.run(s.short+"."+m))
		}
	}
	return s.runs
}

// allPaths lists the paths of a run and of the goroutines it starts.
func allPaths(r *Run) []*Path {
	var out []*Path
	var add func(p *Path)
	add = func(p *Path) {
		out = append(out, p)
		for _, e := range p.Events {
			for _, s := range e.Sub {
				add(s)
			}
		}
	}
	for _, p := range r.paths {
		add(p)
	}
	return out
}

// val reads the role's field of the object of a section in a state.
func (r *Run) val(st *State, ro *Role, obj *Term) *Term {
	a := ro.addr(r.x, obj)
	return r.x.load(st, a, ro.typ)
}

// rpcObj is the receiver of the root.
func (r *Run) recv() *Term {
	return r.x.tt.mk("param", "0/"+r.fn.Params[0].Name(), r.fn.Params[0].Type())
}

// param returns a parameter of the root (0 is the first after the receiver).
func (r *Run) param(i int) *Term {
	if r.fn.Signature.Recv() != nil {
		i++
	}
	if i >= len(r.fn.Params) {
		panic(abort{&Violation{Rule: "anchor", Construct: r.name, Where: r.p.Pos(r.fn.Pos()), Msg: "the signature changed: the property can not be decided"}})
	}
	q := r.fn.Params[i]
	return r.x.tt.mk("param", itoa(i)+"/"+q.Name(), q.Type())
}

// trans is the state transition of a critical section.
type trans struct {
	r      *Run
	p      *Path
	s      *Section
	obj    *Term
	st     *State // facts at the exit
	fn     string // function which owns the section
	q0, q1 *Term
	c0, c1 *Term
	e0, e1 *Term
	s0, s1 *Term
	m0, m1 *Term
	w0, w1 *Term
}

func (r *Run) transitions(s *rpcState, p *Path) []*trans {
	var out []*trans
	for _, sec := range r.sections(p, s.lock) {
		if sec.unlock == nil || sec.entry == nil {
			continue
		}
		t := &trans{r: r, p: p, s: sec, st: sec.exit, obj: r.recv()}
		if f := sec.lock.Stack; f != nil {
			t.fn = FnName(f.fn)
		}
		t.q0, t.q1 = r.val(sec.entry, s.queue, t.obj), r.val(sec.exit, s.queue, t.obj)
		t.c0, t.c1 = r.val(sec.entry, s.closed, t.obj), r.val(sec.exit, s.closed, t.obj)
		t.e0, t.e1 = r.val(sec.entry, s.rerr, t.obj), r.val(sec.exit, s.rerr, t.obj)
		t.s0, t.s1 = r.val(sec.entry, s.service, t.obj), r.val(sec.exit, s.service, t.obj)
		t.m0, t.m1 = r.val(sec.entry, s.method, t.obj), r.val(sec.exit, s.method, t.obj)
		t.w0, t.w1 = r.val(sec.entry, s.writer, t.obj), r.val(sec.exit, s.writer, t.obj)
		out = append(out, t)
	}
	return out
}

func (t *trans) isNil(v *Term) int { return t.st.eval(t.r.x.mkEqNil(v)) }
func (t *trans) empty(v *Term) int {
	return t.st.eval(t.r.x.eq(t.r.x.length(v), t.r.x.tt.intc(0), types.Typ[types.Int]))
}

func (t *trans) has(kind string) bool {
	for _, e := range t.s.evs {
		if e.Kind == kind {
			return true
		}
	}
	return false
}

// popped reports if the section takes the head of the queue.
func (t *trans) popped() bool {
	x := t.r.x
	return t.q1 == x.slice(t.q0, x.tt.intc(1), nil, nil, t.q0.Typ)
}

// pushed returns the message appended to the queue.
func (t *trans) pushed() *Term {
	if t.q1.Op == "append" && len(t.q1.Args) == 2 && t.q1.Args[0] == t.q0 {
		return t.q1.Args[1]
	}
	return nil
}

// signalWorthy reports if the section changes what a waiter waits for.
func (t *trans) signalWorthy() bool {
	return t.q1 != t.q0 && !t.popped() || t.c1 != t.c0 || t.e1 != t.e0
}

// forEachTrans visits every critical section of every entry point.
func (c *Checker) forEachTrans(s *rpcState, f func(r *Run, p *Path, t *trans)) {
	for _, r := range c.rpcRuns(s) {
		for _, p := range allPaths(r) {
			for _, t := range r.transitions(s, p) {
				f(r, p, t)
			}
		}
	}
}

// isCancelOf reports if the event calls the cancel function of the call.
func (s *rpcState) isCancel(r *Run, e *Event, obj *Term) bool {
	if e.Kind != "cancel" {
		return false
	}
	a := s.cancel.addr(r.x, obj)
	return e.Addr == r.x.load(e.st, a, s.cancel.typ) || e.Addr.Op == "load" && e.Addr.Args[0] == a
}

// isWriter reports if the term is the packet writer of the call.
func (s *rpcState) isWriter(r *Run, st *State, v *Term, obj *Term) bool {
	a := s.writer.addr(r.x, obj)
	return v == r.x.load(st, a, s.writer.typ) || v.Op == "load" && v.Args[0] == a
}

func isWriterClose(s *rpcState, r *Run, e *Event, obj *Term) bool {
	return e.Kind == "call" && e.methodName() == "Close" && len(e.Args) == 1 && s.isWriter(r, e.st, e.Args[0], obj)
}

// iff decides if two conditions are equivalent under the facts.
func iff(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	ea, eb := st.eval(a), st.eval(b)
	if ea != 0 && eb != 0 {
		return ea == eb
	}
	if ea != 0 || eb != 0 {
		// one is decided: the other has to be as well
		return false
	}
	s2 := st.clone()
	s2.assume(a, true)
	if s2.eval(b) != 1 {
		return false
	}
	s3 := st.clone()
	s3.assume(a, false)
	return s3.eval(b) == -1
}

// pkt is the content of a Packet term at an event.
type pkt struct {
	kind string // CallStart, CallData, CallCancel
	f    map[string]*Term
}

// packet reads the packet a term denotes.
func (r *Run) packet(st *State, t *Term) *pkt {
	if t == nil {
		return nil
	}
	body := r.fieldAt(st, t, "Body")
	if body == nil {
		return nil
	}
	body = st.rep(body)
	if body.Op != "iface" {
		return nil
	}
	out := &pkt{kind: body.Aux[strings.LastIndexByte(body.Aux, '_')+1:], f: map[string]*Term{}}
	inner := r.fieldAt(st, body.Args[0], out.kind)
	if inner == nil {
		return nil
	}
	out.f["inner"] = inner
	if pt, ok := inner.typ().(*types.Pointer); ok {
		if s, ok := pt.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				out.f[s.Field(i).Name()] = r.fieldAt(st, inner, s.Field(i).Name())
			}
		}
	}
	return out
}

// writes lists the packets written to the writer of the call.
func (s *rpcState) writes(r *Run, p *Path, obj *Term) []*Event {
	var out []*Event
	for _, e := range p.Events {
		if e.Kind == "call" && e.methodName() == "WritePacket" && len(e.Args) == 2 && s.isWriter(r, e.st, e.Args[0], obj) {
			out = append(out, e)
		}
	}
	return out
}

func (r *Run) strNil() *Term { return r.x.tt.nilc(nil) }

func (r *Run) lenZero(v *Term) *Term {
	return r.x.eq(r.x.length(v), r.x.tt.intc(0), types.Typ[types.Int])
}

// sentinel is the value of a package level error.
func (r *Run) sentinel(pkgVar string) *Term {
	return r.x.tt.mk("load", "sentinel", errType, r.x.tt.mk("global", pkgVar, nil))
}

func isSentinel(st *State, v *Term, name string) bool {
	v = st.rep(v)
	return v.Op == "load" && v.Aux == "sentinel" && v.Args[0].Aux == name
}

// retNil: 1 if the result is nil, -1 if it is not, 0 unknown.
func (r *Run) retNil(p *Path, i int) int {
	if i >= len(p.Ret) {
		return 0
	}
	return p.St.eval(r.x.mkEqNil(p.Ret[i]))
}

func bothRPC(c *Checker) []*rpcState {
	return []*rpcState{c.rpc("srpc.ClientRPC"), c.rpc("srpc.ServerRPC")}
}

func (c *Checker) bothRuns() []*Run {
	var out []*Run
	for _, s := range bothRPC(c) {
		out = append(out, c.rpcRuns(s)...)
	}
	return out
}

// storesCovered: every store to the field is on an analysed path.
func (c *Checker) storesCovered(rule string, ros []*Role, runs []*Run, ctors ...string) {
	seen := map[string]bool{}
	for _, n := range ctors {
		if c.p.Func(n) != nil {
			runs = append(runs, c.run(n))
		}
	}
	for _, r := range runs {
		for _, p := range allPaths(r) {
			for _, e := range p.Events {
				if e.Kind == "store" {
					seen[c.p.Pos(e.Pos)] = true
				}
			}
		}
		for n := range r.x.inlined {
			seen["fn:"+n] = true
		}
	}
	for _, ro := range ros {
		for pos, fn := range c.p.storeSites(ro.aux) {
			w := c.p.Pos(pos)
			name := FnName(fn)
			c.site(rule, name+": "+lastName(ro.aux), seen[w] || seen["fn:"+name], w, "%s writes the call state outside of the analysed entry points", name)
		}
	}
}

func lastName(aux string) string { return aux[strings.LastIndexByte(aux, '.')+1:] }

// ---- lock discipline

func ruleState(c *Checker) {
	c.rule("guarded", "every read or write of the queue, the end flag and the outcome of a call, and every write of its writer and ids, on every path of every exported method happens while the lock of the same call is held")
	c.rule("covered", "every store to these fields in the module is on one of the analysed paths, or initialises a call which no one else can see yet")
	c.rule("released", "every path of every entry point ends with the lock released")
	c.rule("no-relock", "the lock is never taken while it is held by the same path")
	n := 0
	for _, s := range bothRPC(c) {
		for _, r := range c.rpcRuns(s) {
			for _, p := range allPaths(r) {
				for _, e := range p.Events {
					if e.Kind == "lock" && s.lock.is(e.Addr) {
						c.check("no-relock", e.fnName(), e.holdsAddr(e.Addr) == nil, r, p, e, "the lock of the call is taken while it is already held")
					}
					if e.Kind != "load" && e.Kind != "store" {
						continue
					}
					for _, ro := range s.state {
						if !ro.is(e.Addr) || e.Addr.base().Op == "alloc" {
							continue
						}
						if e.Kind == "load" && (ro == s.writer || ro == s.service || ro == s.method) {
							continue
						}
						n++
						l := e.holdsAddr(s.lock.addr(r.x, r.recv()))
						c.check("guarded", e.fnName()+": "+e.Kind+" "+lastName(ro.aux), l != nil, r, p, e, "%s of %s without holding the lock of the call", e.Kind, lastName(ro.aux))
					}
				}
				if p.End == "return" {
					for _, l := range p.St.locks {
						c.check("released", r.name, !s.lock.is(l.Addr), r, p, nil, "the path ends with the lock of the call held")
					}
					c.check("released", r.name, true, r, p, nil, "")
				}
			}
		}
		c.storesCovered("covered", s.state, c.bothRuns(), "srpc.NewClientRPC", "srpc.NewServerRPC")
	}
	c.floor("guarded", 100)
}

func (e *Event) holdsAddr(a *Term) *Lock {
	for i := range e.Locks {
		if e.Locks[i].Addr == a {
			return &e.Locks[i]
		}
	}
	return nil
}

func (e *Event) fnName() string {
	if e.Stack == nil {
		return "?"
	}
	f := e.Stack
	return FnName(f.fn)
}

// carriedOK decides a condition on a value at some point of the path. A value
// which a loop carries from round to round has it if every round ends with it.
func (p *Path) carriedOK(v *Term, idx int, ok func(v *Term, idx int) bool) bool {
	if ok(v, idx) {
		return true
	}
	for k, e := range p.Events {
		if e.Kind != "loop" || e.Idx > idx || e.Loop.Sym == nil {
			continue
		}
		for i, s := range e.Loop.Sym {
			if s != v {
				continue
			}
			if !ok(e.Loop.Next[i], e.Idx) {
				return false
			}
			for _, g := range p.Events[k+1:] {
				if g.Kind == "loop" && g.Loop.Header == e.Loop.Header && g.Loop.Generic && !ok(g.Loop.Next[i], g.Idx) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// ---- wake-ups

func ruleWake(c *Checker) {
	c.rule("notify", "a critical section which appends a message, ends the incoming side or sets the outcome wakes the waiters before it releases the lock")
	c.rule("wait-channel", "a blocking wait for a change of the call uses the wait channel obtained in the critical section which looked at the state last")
	c.rule("wait-cond", "a reader only waits if in that critical section no message was queued, the call had not ended and there was no outcome; Wait only waits without an outcome")
	c.rule("wait-ctx", "a blocking wait also ends when the context of the call, and the context of the caller if there is one, is canceled")
	c.rule("wait-result", "Wait returns the outcome of the call if there is one; otherwise it only returns after the context of the call ended or the one of the caller did, and never without an error")
	c.rule("no-spin", "a wait which was ended by a context is not entered again with that context")
	for _, s := range bothRPC(c) {
		c.forEachTrans(s, func(r *Run, p *Path, t *trans) {
			if t.signalWorthy() {
				c.check("notify", t.fn, t.has("broadcast"), r, p, t.s.unlock, "the state of the call changes without waking the waiters")
			}
		})
		for _, m := range []string{"ReadOne", "Wait"} {
			r := c.run(s.short + "." + m)
			for _, p := range r.paths {
				ts := r.transitions(s, p)
				for _, e := range p.Events {
					if e.Kind != "select" && e.Kind != "recv" || e.Kind == "select" && !e.Block {
						continue
					}
					con := r.name
					var last *trans
					for _, t := range ts {
						if t.s.unlock.Idx < e.Idx {
							last = t
						}
					}
					if last == nil {
						c.check("wait-channel", con, false, r, p, e, "the wait is not preceded by a look at the state")
						continue
					}
					var chans []*Term
					for _, cs := range e.Cases {
						if !cs.Send {
							chans = append(chans, cs.Chan)
						}
					}
					if e.Kind == "recv" {
						chans = []*Term{e.Addr}
					}
					ok, ctx, cctx := false, false, m != "Wait"
					for _, ch := range chans {
						if p.carriedOK(ch, e.Idx, func(v *Term, idx int) bool {
							var l *trans
							for _, t := range ts {
								if t.s.unlock.Idx < idx {
									l = t
								}
							}
							return l != nil && v.Op == "waitchan" && v.Aux == itoa(l.s.n)
						}) {
							ok = true
						}
						if ch.Op == "pure" && strings.HasPrefix(ch.Aux, "context.Context.Done/") {
							cx := ch.Args[0]
							if cx.Op == "load" && s.ctx.is(cx.Args[0]) {
								ctx = true
							}
							if m == "Wait" && cx == r.param(0) {
								cctx = true
							}
						}
					}
					c.check("wait-channel", con, ok, r, p, e, "the wait does not use the wait channel of the critical section before it: a wake-up can be lost")
					c.check("wait-ctx", con, ctx && cctx, r, p, e, "the wait does not end when the context is canceled")
					noErr := e.st.eval(r.x.mkEqNil(last.e0)) == 1
					if m == "ReadOne" {
						c.check("wait-cond", con, e.st.eval(r.lenZero(last.q1)) == 1 && e.st.eval(last.c1) == -1 && noErr, r, p, e,
							"the reader waits although a message, the end of the call or its outcome may be there already")
					} else {
						c.check("wait-cond", con, noErr, r, p, e, "Wait waits although the outcome may be there already")
					}
				}
			}
			c.oblig("wait-channel", r.name)
			c.noSpin(s, r)
		}
		c.waitResult(s)
	}
	c.floor("wait-result", 6)
	c.floor("no-spin", 4)
	c.floor("notify", 10)
	c.floor("wait-channel", 4)
}

// doneOf gives the context whose end the wait was ended by.
func doneOf(e *Event) *Term {
	if e.Kind != "select" || e.Pick < 0 || e.Pick >= len(e.Cases) {
		return nil
	}
	return doneCtx(e.Cases[e.Pick].Chan)
}

func doneCtx(ch *Term) *Term {
	if ch != nil && ch.Op == "pure" && strings.HasPrefix(ch.Aux, "context.Context.Done/") {
		return ch.Args[0]
	}
	return nil
}

// noSpin: the loop is followed for some rounds; no round waits for a context
// which ended a wait of a round before.
func (c *Checker) noSpin(s *rpcState, r0 *Run) {
	r := c.run(r0.name, ropts{rounds: 3})
	n := 0
	for _, p := range r.paths {
		ended := map[*Term]*Event{}
		for _, e := range p.Events {
			if e.Kind == "call" && e.Name == "context.Context.Err" && ended[e.Args[0]] != nil && p.St.eval(r.x.mkEqNil(e.Res[0])) == 1 {
				break // a context which ended has an error
			}
			if e.Kind != "select" {
				continue
			}
			n++
			for _, cs := range e.Cases {
				cx := doneCtx(cs.Chan)
				if cx == nil || cs.Send {
					continue
				}
				c.check("no-spin", r.name, ended[cx] == nil, r, p, e, "the wait is entered again although it ended because its context did: it does not end, and does not wait either")
			}
			if cx := doneOf(e); cx != nil {
				ended[cx] = e
			}
		}
	}
	c.check("no-spin", r.name, n > 0, r, nil, nil, "no wait is reached")
}

// waitResult decides what Wait returns.
func (c *Checker) waitResult(s *rpcState) {
	r := c.run(s.short + ".Wait")
	isCtx := func(cx *Term) bool { return cx.Op == "load" && s.ctx.is(cx.Args[0]) || c.isCallCtx(s, cx) }
	for _, p := range r.paths {
		switch p.End {
		case "loop", "rounds", "blocked":
			continue
		case "return":
		default:
			c.check("wait-result", r.name, p.End != "panic", r, p, nil, "waiting can panic")
			continue
		}
		ts := r.transitions(s, p)
		if !c.check("wait-result", r.name, len(ts) > 0 && r.retNil(p, 0) == -1, r, p, nil, "Wait returns without an error although the call may still run") {
			continue
		}
		last := ts[len(ts)-1]
		ret := p.Ret[0]
		switch p.St.eval(r.x.mkEqNil(last.e0)) {
		case -1:
			c.check("wait-result", r.name, same(p.St, ret, last.e0), r, p, nil, "Wait returns %s in place of the outcome of the call", ret)
		case 1:
			q := &Path{St: p.St}
			for _, e := range p.Events {
				if e.Idx <= last.s.unlock.Idx {
					q.Events = append(q.Events, e)
				}
			}
			own := ctxSeen(r, q, isCtx) == 1
			caller := ctxSeen(r, p, func(cx *Term) bool { return cx == r.param(0) }) == 1
			c.check("wait-result", r.name, own || caller, r, p, nil, "Wait returns without an outcome although neither the context of the caller nor, before the outcome was looked at, the one of the call was seen ended")
			ok := isSentinel(p.St, ret, "context.Canceled") || isSentinel(p.St, ret, "io.EOF")
			for v := ret; v != nil; v = nil {
				if v.Op == "res" && v.Ev != nil && (v.Ev.Name == "context.Context.Err" || v.Ev.Name == "context.Cause") {
					ok = true
				}
			}
			c.check("wait-result", r.name, ok, r, p, nil, "Wait returns %s for a call without an outcome", ret)
		default:
			c.check("wait-result", r.name, false, r, p, nil, "Wait returns %s without looking at the outcome", ret)
		}
		for _, t := range ts {
			c.check("wait-result", r.name, t.q1 == t.q0 && t.c1 == t.c0 && t.e1 == t.e0, r, p, t.s.unlock, "waiting changes the call")
		}
		for _, e := range p.Events {
			c.check("wait-result", r.name, !s.isCancel(r, e, r.recv()), r, p, e, "waiting for the end of the call ends it")
		}
	}
}

// ---- reading order

func ruleRead(c *Checker) {
	c.rule("head", "a successful read returns the first queued message and removes exactly that one")
	c.rule("no-loss", "a read which fails removes no message")
	c.rule("outcome-last", "a read fails only after the queue was seen empty and the call ended, with the outcome of the call or io.EOF, or because the context of the call was canceled before the end was received")
	c.rule("cancel-ends", "a read which fails because the context of the call was canceled ends the call: packets which arrive later are refused")
	c.rule("append-last", "a message is only ever added at the end of the queue, and only the reader removes one")
	for _, s := range bothRPC(c) {
		r := c.run(s.short + ".ReadOne")
		for _, p := range r.paths {
			if p.End != "return" {
				c.check("head", r.name, p.End != "panic", r, p, nil, "a read can panic")
				continue
			}
			ts := r.transitions(s, p)
			pops := 0
			for _, t := range ts {
				if t.popped() {
					pops++
				}
			}
			if len(ts) == 0 || len(p.Ret) != 2 {
				c.check("head", r.name, false, r, p, nil, "the read does not look at the queue")
				continue
			}
			last := ts[len(ts)-1]
			switch r.retNil(p, 1) {
			case 1:
				want := r.x.load(last.s.entry, r.x.indexAddr(last.q0, r.x.tt.intc(0), types.NewPointer(types.NewSlice(types.Typ[types.Byte]))), types.NewSlice(types.Typ[types.Byte]))
				c.check("head", r.name, pops == 1 && last.popped() && p.Ret[0] == want && last.empty(last.q0) == -1, r, p, nil,
					"a successful read does not return and remove the first message of the queue")
			case -1:
				c.check("no-loss", r.name, pops == 0, r, p, nil, "a failed read removes a message")
				ended := last.empty(last.q0) == 1 && (last.st.eval(last.c0) == 1 || last.isNil(last.e0) == -1)
				okErr := p.St.rep(p.Ret[1]) == p.St.rep(last.e0) && last.isNil(last.e0) == -1 || last.isNil(last.e0) == 1 && isSentinel(p.St, p.Ret[1], "io.EOF")
				local := c.ctxCanceled(s, r, p) == 1
				// the generic iteration: the flag which remembers the cancellation
				if !local {
					for _, e := range p.Events {
						if e.Kind == "loop" {
							local = c.rememberedCancel(r, s, p, last)
						}
					}
				}
				if local && !ended {
					c.check("cancel-ends", r.name, last.s.unlock != nil && last.s.unlock.st.eval(last.c1) == 1, r, p, nil, "a read reports that the call was canceled and leaves the call open for more messages")
				}
				local = local && last.st.eval(last.c0) == -1 && isSentinel(p.St, p.Ret[1], "context.Canceled")
				c.check("outcome-last", r.name, ended && okErr || local, r, p, nil,
					"a read fails with %s although messages may be queued or the call did not end with that outcome", p.Ret[1])
			default:
				c.check("outcome-last", r.name, false, r, p, nil, "it is not decided whether the read succeeds")
			}
		}
		c.forEachTrans(s, func(r2 *Run, p *Path, t *trans) {
			for _, e := range p.Events {
				if e.Kind == "store" && e.Addr.Op == "index" && e.Addr.Args[0] == t.q0 {
					i, ok := e.Addr.Args[1].intVal()
					c.check("append-last", t.fn, ok && i == 0 && t.popped(), r2, p, e, "a message of the queue is replaced which was not the one that was read")
				}
			}
			ok := t.q1 == t.q0 || t.pushed() != nil || t.popped() && strings.HasSuffix(r2.name, ".ReadOne")
			c.check("append-last", t.fn, ok, r2, p, t.s.unlock, "the queue becomes %s", t.q1)
		})
	}
	c.floor("head", 4)
	c.floor("cancel-ends", 2)
	c.floor("outcome-last", 4)
}

// rememberedCancel: the generic iteration of the read loop reached the local
// cancellation through a flag which is only set after the context of the call
// was seen canceled.
func (c *Checker) rememberedCancel(r *Run, s *rpcState, p *Path, last *trans) bool {
	// find the boolean symbols which hold on this path and come from the loop
	var flags []*Term
	for f, v := range last.st.facts {
		if v && f.Op == "sym" && strings.HasPrefix(f.Aux, "loopmem") {
			flags = append(flags, f)
		}
		if v && f.Op == "sym" && f.Typ != nil && types.Identical(f.Typ, types.Typ[types.Bool]) {
			flags = append(flags, f)
		}
	}
	if len(flags) == 0 {
		return false
	}
	// every path into the loop head: the flag's cell is true only after ctx.Done
	for _, q := range r.paths {
		for _, e := range q.Events {
			if e.Kind != "loop" {
				continue
			}
			done := c.ctxCanceled(s, r, &Path{Events: q.Events[:e.Idx], St: q.St}) == 1
			if done {
				continue
			}
			// without a cancellation no cell or phi may carry true
			for a, v := range e.st.mem {
				if a.Op == "alloc" && v.isTrue() && boolCell(a) {
					return false
				}
			}
			for _, v := range e.Loop.Next {
				if v.isTrue() {
					return false
				}
			}
		}
	}
	return true
}

func boolCell(a *Term) bool {
	t := elemType(a)
	return t != nil && types.Identical(t, types.Typ[types.Bool])
}

// ---- incoming data

func ruleIncoming(c *Checker) {
	c.rule("after-end", "a data packet which arrives after the call ended is answered with an error and changes nothing")
	c.rule("enqueue", "a data packet queues its payload exactly if it is not empty or is marked as an empty message")
	c.rule("complete", "a data packet ends the incoming side exactly if it is marked complete or carries an error")
	c.rule("error-text", "a data packet with an error sets the outcome of the call to an error with exactly that text, one without leaves the outcome alone")
	c.rule("accepted", "an accepted data packet is not answered with an error")
	for _, s := range bothRPC(c) {
		r := c.run(s.short + ".HandleCallData")
		pk := r.param(0)
		for _, p := range r.paths {
			if p.End != "return" {
				continue
			}
			ts := r.transitions(s, p)
			var eff []*trans
			for _, t := range ts {
				if t.q1 != t.q0 || t.c1 != t.c0 || t.e1 != t.e0 || len(ts) == 1 {
					eff = append(eff, t)
				}
			}
			if len(eff) != 1 {
				c.check("accepted", r.name, false, r, p, nil, "the packet is handled in %d critical sections", len(eff))
				continue
			}
			t := eff[0]
			st := p.St
			switch st.eval(t.c0) {
			case 1:
				c.check("after-end", r.name, r.retNil(p, 0) == -1 && t.q0 == t.q1 && t.c0 == t.c1 && t.e0 == t.e1, r, p, nil,
					"a packet after the end of the call is accepted or changes the call")
				continue
			case 0:
				c.check("after-end", r.name, false, r, p, nil, "a packet is accepted without checking whether the call ended")
				continue
			}
			f := func(n string) *Term {
				if st.isNil(pk) {
					return r.x.tt.zero(r.fieldAt(st, pk, n).Typ)
				}
				return r.fieldAt(t.s.entry, pk, n)
			}
			if t.s.entry == nil {
				continue
			}
			data, isz, compl, etext := f("Data"), f("DataIsZero"), f("Complete"), f("Error")
			has := 0
			switch {
			case st.eval(r.lenZero(data)) == -1 || st.eval(isz) == 1:
				has = 1
			case st.eval(r.lenZero(data)) == 1 && st.eval(isz) == -1:
				has = -1
			}
			switch {
			case t.pushed() == data:
				c.check("enqueue", r.name, has == 1, r, p, t.s.unlock, "the payload is queued although the packet may carry no message")
			case t.q1 == t.q0:
				c.check("enqueue", r.name, has == -1, r, p, t.s.unlock, "the payload is not queued although the packet may carry a message")
			default:
				c.check("enqueue", r.name, false, r, p, t.s.unlock, "the queue becomes %s", t.q1)
			}
			hasErr := -st.eval(r.lenZero(etext))
			switch {
			case t.e1 == t.e0:
				c.check("error-text", r.name, hasErr == -1, r, p, t.s.unlock, "the error of the packet is dropped")
			default:
				ok := t.e1.Op == "newerr" && hasErr == 1
				if ok {
					a, _ := t.e1.Obj.([]*Term)
					ok = len(a) > 0 && a[0] == etext && strings.HasSuffix(strings.SplitN(t.e1.Aux, "#", 2)[0], "errors.New")
				}
				c.check("error-text", r.name, ok, r, p, t.s.unlock, "the outcome becomes %s which is not the error of the packet", t.e1)
			}
			ok := true
			for _, v := range []bool{true, false} {
				s2 := st
				switch e := st.eval(compl); {
				case e == 1 && !v || e == -1 && v:
					continue
				case e == 0:
					s2 = st.clone()
					s2.assume(compl, v)
				}
				want := 0
				switch {
				case hasErr == 1 || v:
					want = 1
				case hasErr == -1:
					want = -1
				}
				ok = ok && want != 0 && s2.eval(t.c1) == want
			}
			c.check("complete", r.name, ok, r, p, t.s.unlock, "the incoming side is ended: %s, but the packet says otherwise", t.c1)
			c.check("accepted", r.name, r.retNil(p, 0) == 1, r, p, nil, "an accepted packet is answered with an error")
		}
	}
	c.floor("enqueue", 4)
	c.floor("after-end", 2)
}

// ---- first outcome

func ruleSticky(c *Checker) {
	c.rule("end-sticks", "once the incoming side of a call ended it never opens again")
	c.rule("outcome-sticks", "the outcome of a call is only set while the call has not ended, and only together with its end")
	c.rule("local-end", "a call which its own side ends before the other side completed it has an error as its outcome")
	c.rule("no-late-data", "no message is queued after the call ended")
	c.rule("covered", "every store to the end flag, the outcome and the queue is on an analysed path")
	for _, s := range bothRPC(c) {
		c.forEachTrans(s, func(r *Run, p *Path, t *trans) {
			if t.c1 != t.c0 {
				c.check("end-sticks", t.fn, t.st.eval(t.c1) == 1 || t.st.eval(t.c0) == -1, r, p, t.s.unlock, "the end flag becomes %s", t.c1)
			}
			if t.e1 != t.e0 {
				c.check("outcome-sticks", t.fn, t.st.eval(t.c0) == -1 && (t.isNil(t.e1) == -1 || t.isNil(t.e0) == 1), r, p, t.s.unlock, "the outcome of a call which may have ended is replaced by %s", t.e1)
				c.check("outcome-sticks", t.fn, t.st.eval(t.c1) == 1, r, p, t.s.unlock, "an outcome is set without ending the call")
			}
			if t.st.eval(t.c1) == 1 && t.st.eval(t.c0) != 1 && !remoteEnd(r.name) {
				c.check("local-end", t.fn, t.isNil(t.e1) == -1, r, p, t.s.unlock, "a call which is ended here without having been completed by the other side looks completed")
			}
			if t.q1 != t.q0 && !t.popped() {
				c.check("no-late-data", t.fn, t.st.eval(t.c0) == -1, r, p, t.s.unlock, "a message is queued although the call may have ended")
			}
		})
		c.storesCovered("covered", s.guarded, c.bothRuns(), "srpc.NewClientRPC", "srpc.NewServerRPC")
	}
	c.floor("end-sticks", 6)
	c.floor("outcome-sticks", 6)
	c.floor("no-late-data", 2)
	c.floor("local-end", 3)
}

// remoteEnd: what the function handles came from the other side.
func remoteEnd(name string) bool {
	for _, n := range []string{".HandleCallData", ".HandlePacket", ".HandlePacketData", ".HandleStreamClose"} {
		if strings.HasSuffix(name, n) {
			return true
		}
	}
	return false
}

// ---- ends of a call

func ruleEnd(c *Checker) {
	c.rule("stream-close", "when the transport reports the end of the stream, with or without an error, the call ends: the incoming side is closed, the error becomes the outcome of a call which had none, waiters are woken and the context of the call is canceled")
	c.rule("server-close", "the server side also closes its packet writer if there is one")
	c.rule("cancel-packet", "an incoming cancel ends the call the same way with context.Canceled as the outcome and is not answered with an error")
	c.rule("client-close", "closing a started client call writes a cancel packet, then closes the writer, ends the call and cancels its context; closing one which was not started cancels its context")
	c.rule("nil-writer", "the writer of a call is only used where it is not nil")
	for _, s := range bothRPC(c) {
		server := s.short == "srpc.ServerRPC"
		end := func(rule string, r *Run, p *Path, errv *Term) {
			obj := r.recv()
			var t *trans
			for _, u := range r.transitions(s, p) {
				if t == nil || u.c1 != u.c0 {
					t = u
				}
			}
			if t == nil {
				c.check(rule, r.name, false, r, p, nil, "the call is not ended")
				return
			}
			st := p.St
			c.check(rule, r.name, st.eval(t.c1) == 1, r, p, t.s.unlock, "the incoming side stays open")
			cancels, closes := 0, 0
			for _, e := range p.Events {
				if s.isCancel(r, e, obj) {
					cancels++
				}
				if isWriterClose(s, r, e, obj) {
					closes++
				}
			}
			c.check(rule, r.name, cancels > 0, r, p, nil, "the context of the call is not canceled")
			c.check(rule, r.name, t.has("broadcast"), r, p, t.s.unlock, "the waiters are not woken")
			if server {
				wnil := st.eval(r.x.mkEqNil(t.w0))
				c.check("server-close", r.name, closes > 0 || wnil == 1, r, p, nil, "the packet writer is not closed")
			}
			// outcome
			enil := st.eval(r.x.mkEqNil(errv))
			switch {
			case t.e1 == t.e0:
				ok := enil == 1 || st.eval(t.c0) == 1 || st.eval(r.x.mkEqNil(t.e0)) == -1
				c.check(rule, r.name, ok, r, p, t.s.unlock, "the error of the stream does not become the outcome of the call")
			default:
				c.check(rule, r.name, t.e1 == errv && (enil == -1 || t.isNil(t.e0) == 1), r, p, t.s.unlock, "the outcome becomes %s", t.e1)
			}
		}
		r := c.run(s.short + ".HandleStreamClose")
		for _, p := range r.paths {
			end("stream-close", r, p, r.param(0))
		}
		r = c.run(s.short + ".HandleCallCancel")
		for _, p := range r.paths {
			end("cancel-packet", r, p, r.sentinel("context.Canceled"))
			c.check("cancel-packet", r.name, r.retNil(p, 0) == 1, r, p, nil, "a cancel is answered with an error")
		}
		// uses of the writer
		for _, r := range c.rpcRuns(s) {
			m := r.name[strings.LastIndexByte(r.name, '.')+1:]
			if m == "WriteCallData" || m == "WriteCallCancel" {
				continue // only reachable once the call was started
			}
			if server && (m == "HandleCallStart" || m == "HandlePacket" || m == "HandlePacketData") {
				// the constructor sets the writer
			}
			for _, p := range allPaths(r) {
				for _, e := range p.Events {
					if e.Kind == "call" && len(e.Args) > 0 && s.isWriter(r, e.st, e.Args[0], r.recv()) {
						if p.Root != r.name {
							continue // the handler goroutine: a server call has a writer
						}
						c.check("nil-writer", e.fnName(), e.st.provenNonNil(e.Args[0]), r, p, e, "the writer of the call may be nil here")
					}
				}
			}
		}
	}
	s := c.rpc("srpc.ClientRPC")
	r := c.run("srpc.ClientRPC.Close")
	obj := r.recv()
	for _, p := range r.paths {
		if p.End != "return" {
			continue
		}
		var cancelWr, closeWr, cancels = -1, -1, 0
		var t *trans
		for _, u := range r.transitions(s, p) {
			if t == nil || u.c1 != u.c0 {
				t = u
			}
		}
		for _, e := range p.Events {
			if s.isCancel(r, e, obj) {
				cancels++
			}
			if isWriterClose(s, r, e, obj) {
				closeWr = e.Idx
			}
		}
		for _, e := range s.writes(r, p, obj) {
			if k := r.packet(e.st, e.Args[1]); k != nil && k.kind == "CallCancel" && k.f["inner"].isTrue() {
				cancelWr = e.Idx
			}
		}
		c.check("client-close", r.name, cancels > 0, r, p, nil, "the context of the call is not canceled")
		if t == nil {
			c.check("client-close", r.name, false, r, p, nil, "the state of the call is not looked at")
			continue
		}
		if p.St.eval(r.x.mkEqNil(t.w0)) == 1 {
			continue
		}
		c.check("client-close", r.name, cancelWr >= 0, r, p, nil, "no cancel packet is written")
		c.check("client-close", r.name, closeWr > cancelWr, r, p, nil, "the writer is not closed after the cancel packet")
		c.check("client-close", r.name, p.St.eval(t.c1) == 1, r, p, nil, "the incoming side stays open")
	}
	c.floor("stream-close", 8)
	c.floor("cancel-packet", 4)
	c.floor("client-close", 4)
}

// ---- handler invocation

const invokeMethod = "srpc.Invoker.InvokeMethod"

func callsIn(p *Path, name string) []*Event {
	var out []*Event
	for _, e := range p.Events {
		if e.isCall(name) {
			out = append(out, e)
		}
	}
	return out
}

func ruleOnce(c *Checker) {
	c.rule("own-goroutine", "the handler is only ever invoked in a goroutine of its own, so that a cancel can still be received")
	c.rule("claim", "before the handler is started, in one critical section, the call is seen to have no ids yet and not to have ended, and takes the ids of the start packet")
	c.rule("ids", "the handler is invoked with exactly the service and method of the start packet")
	c.rule("non-empty", "the ids a call takes from a received packet are not empty, so that a second start packet is recognised")
	c.rule("ids-stick", "the ids of a call are never replaced")
	c.rule("reject", "a start packet for a call which has ids or has ended is answered with an error and changes nothing")
	c.rule("one-start", "one packet starts at most one handler")
	c.rule("first-message", "the message carried by the start packet is queued exactly if it is not empty or marked as an empty message")
	c.rule("covered", "every store to the ids is on an analysed path")
	s := c.rpc("srpc.ServerRPC")
	for _, r := range c.rpcRuns(s) {
		for _, p := range r.paths {
			ts := r.transitions(s, p)
			starts := 0
			for _, e := range p.Events {
				if e.isCall(invokeMethod) {
					c.check("own-goroutine", e.fnName(), false, r, p, e, "the handler is invoked by the goroutine which handles the packets")
				}
				if e.Kind != "go" {
					continue
				}
				inv := false
				for _, q := range e.Sub {
					if len(callsIn(q, invokeMethod)) > 0 {
						inv = true
					}
				}
				if !inv {
					continue
				}
				starts++
				var t *trans
				for _, u := range ts {
					if u.s.lock.Idx < e.Idx && (u.m1 != u.m0 || u.s1 != u.s0) {
						t = u
					}
				}
				if !c.check("claim", e.fnName(), t != nil, r, p, e, "the handler is started without the call taking the ids of the packet") {
					continue
				}
				free := p.St.eval(r.lenZero(t.m0)) == 1 && p.St.eval(r.lenZero(t.s0)) == 1
				c.check("claim", e.fnName(), free, r, p, e, "the handler is started although the call may have been started already")
				c.check("claim", e.fnName(), p.St.eval(t.c0) == -1, r, p, e, "the handler is started although the call may have ended")
				if strings.HasSuffix(r.name, ".HandlePacket") || strings.HasSuffix(r.name, ".HandlePacketData") {
					c.check("non-empty", e.fnName(), p.St.eval(r.lenZero(t.m1)) == -1 || p.St.eval(r.lenZero(t.s1)) == -1, r, p, e, "the ids the call takes may be empty: a second start packet would be accepted")
				}
				for _, q := range e.Sub {
					for _, iv := range callsIn(q, invokeMethod) {
						c.check("ids", iv.fnName(), len(iv.Args) == 4 && iv.Args[1] == t.s1 && iv.Args[2] == t.m1, r, q, iv,
							"the handler is invoked with other ids than those of the packet")
					}
				}
			}
			c.check("one-start", r.name, starts <= 1, r, p, nil, "one packet starts %d handlers", starts)
			for _, t := range ts {
				if t.m1 != t.m0 || t.s1 != t.s0 {
					c.check("ids-stick", t.fn, p.St.eval(r.lenZero(t.m0)) == 1 && p.St.eval(r.lenZero(t.s0)) == 1, r, p, t.s.unlock, "the ids of a started call are replaced")
					c.check("claim", t.fn, starts == 1, r, p, t.s.unlock, "the call takes the ids of the packet but the handler is not started")
				}
			}
		}
	}
	r := c.run("srpc.ServerRPC.HandleCallStart")
	pk := r.param(0)
	for _, p := range r.paths {
		if p.End != "return" {
			continue
		}
		for _, t := range r.transitions(s, p) {
			if p.St.eval(r.lenZero(t.m0)) == -1 || p.St.eval(r.lenZero(t.s0)) == -1 || p.St.eval(t.c0) == 1 {
				same := t.q0 == t.q1 && t.c0 == t.c1 && t.e0 == t.e1 && t.s0 == t.s1 && t.m0 == t.m1
				c.check("reject", r.name, same, r, p, t.s.unlock, "a start packet which is not the first changes the call")
				c.check("reject", r.name, r.retNil(p, 0) == -1, r, p, nil, "a start packet which is not the first is not answered with an error")
				continue
			}
			if t.m1 == t.m0 {
				c.check("reject", r.name, r.retNil(p, 0) == -1 || len(r.transitions(s, p)) > 1, r, p, nil, "a start packet is dropped without an error")
				continue
			}
			st := p.St
			get := func(n string) *Term {
				if st.isNil(pk) {
					return r.x.tt.zero(r.fieldAt(st, pk, n).Typ)
				}
				return r.fieldAt(t.s.entry, pk, n)
			}
			data, isz := get("Data"), get("DataIsZero")
			has := 0
			switch {
			case st.eval(r.lenZero(data)) == -1 || st.eval(isz) == 1:
				has = 1
			case st.eval(r.lenZero(data)) == 1 && st.eval(isz) == -1:
				has = -1
			}
			c.check("ids", r.name, t.s1 == get("RpcService") && t.m1 == get("RpcMethod"), r, p, t.s.unlock, "the ids of the call are not those of the packet")
			if t.pushed() == data {
				c.check("first-message", r.name, has == 1, r, p, t.s.unlock, "the payload is queued although the packet may carry no message")
			} else {
				c.check("first-message", r.name, has == -1 && t.q1 == t.q0, r, p, t.s.unlock, "the message of the start packet is not queued")
			}
			c.check("reject", r.name, r.retNil(p, 0) == 1, r, p, nil, "the first start packet is answered with an error")
		}
	}
	c.storesCovered("covered", []*Role{s.service, s.method}, c.bothRuns(), "srpc.NewClientRPC", "srpc.NewServerRPC")
	c.floor("claim", 2)
	c.floor("ids", 2)
	c.floor("reject", 3)
	c.floor("first-message", 2)
	c.floor("non-empty", 2)
}

// ---- final response

func ruleFinal(c *Checker) {
	c.rule("one-invoke", "the handler goroutine invokes the handler exactly once")
	c.rule("one-final", "after the handler returned exactly one packet is written to the writer of the call, and it is a data packet which completes the call")
	c.rule("final-error", "the packet carries the text of the handler's error, the text of ErrUnimplemented if no handler was found, and no error otherwise; and no message")
	c.rule("then-close", "after that packet the writer is closed on every path, and the context of the call is canceled, but not before the handler returned")
	c.rule("stream", "the stream given to the handler belongs to the call: it has the context of the call, reads and writes through it, and ends the context when it is closed")
	s := c.rpc("srpc.ServerRPC")
	n := 0
	for _, r := range []*Run{c.run("srpc.ServerRPC.HandleCallStart")} {
		obj := r.recv()
		seen := map[*Event]bool{}
		for _, p := range r.paths {
			for _, g := range p.Events {
				if g.Kind != "go" || seen[g] {
					continue
				}
				seen[g] = true
				for _, q := range g.Sub {
					ivs := callsIn(q, invokeMethod)
					if len(ivs) == 0 && q.End != "return" {
						continue
					}
					n++
					con := "handler goroutine"
					if !c.check("one-invoke", con, len(ivs) == 1 && q.End == "return", r, q, nil, "the handler is invoked %d times, the path ends by %s", len(ivs), q.End) {
						continue
					}
					iv := ivs[0]
					ws := s.writes(r, q, obj)
					if !c.check("one-final", con, len(ws) == 1, r, q, nil, "%d packets are written", len(ws)) {
						continue
					}
					w := ws[0]
					k := r.packet(w.st, w.Args[1])
					c.check("one-final", con, w.Idx > iv.Idx, r, q, w, "the packet is written before the handler returned")
					if !c.check("one-final", con, k != nil && k.kind == "CallData", r, q, w, "the packet is not a data packet") {
						continue
					}
					c.check("one-final", con, w.st.eval(k.f["Complete"]) == 1, r, q, w, "the packet does not complete the call")
					c.check("final-error", con, w.st.eval(r.lenZero(k.f["Data"])) == 1 && w.st.eval(k.f["DataIsZero"]) == -1, r, q, w, "the packet carries a message")
					ok, err := iv.Res[0], iv.Res[1]
					txt := k.f["Error"]
					st := q.St
					en, okv := st.eval(r.x.mkEqNil(err)), st.eval(ok)
					good := false
					switch {
					case en == -1:
						good = isErrText(txt, err)
					case en == 1 && okv == 1:
						good = st.eval(r.lenZero(txt)) == 1
					case en == 1 && okv == -1:
						good = txt.Op == "pure" && strings.HasPrefix(txt.Aux, "error.Error/") && isSentinel(st, txt.Args[0], "srpc.ErrUnimplemented")
					}
					c.check("final-error", con, good, r, q, w, "the error text %s does not tell the result of the handler", txt)
					closes, cancels, early := false, false, false
					for _, e := range q.Events {
						if isWriterClose(s, r, e, obj) {
							if e.Idx > w.Idx {
								closes = true
							} else {
								early = true
							}
						}
						if s.isCancel(r, e, obj) {
							if e.Idx > iv.Idx {
								cancels = true
							} else {
								early = true
							}
						}
					}
					c.check("then-close", con, closes, r, q, nil, "the writer is not closed after the final packet")
					c.check("then-close", con, cancels, r, q, nil, "the context of the call is not canceled after the handler returned")
					c.check("then-close", con, !early, r, q, nil, "the writer is closed or the context canceled too early")
					sm := iv.Args[3]
					good = sm.Op == "iface" && sm.Args[0].Op == "alloc"
					if good {
						ctxOK, rwOK, cancelOK := false, false, false
						cancelAddr := s.cancel.addr(r.x, obj)
						if ps, ok := sm.Args[0].typ().(*types.Pointer); ok {
							if str, ok := ps.Elem().Underlying().(*types.Struct); ok {
								for i := 0; i < str.NumFields(); i++ {
									v := r.fieldAt(iv.st, sm.Args[0], str.Field(i).Name())
									if v.Op == "load" && s.ctx.is(v.Args[0]) {
										ctxOK = true
									}
									if v.Op == "iface" && v.Args[0].base() == obj {
										rwOK = true
									}
									if _, ok := str.Field(i).Type().Underlying().(*types.Signature); ok && v != nil {
										cl := r.runClosure(iv.st, v)
										all := len(cl) > 0
										for _, q := range cl {
											has := false
											for _, e := range q.Events {
												has = has || s.isCancel(r, e, obj)
											}
											all = all && has
										}
										if all || v == r.x.load(iv.st, cancelAddr, s.cancel.typ) || v.Op == "load" && v.Args[0] == cancelAddr {
											cancelOK = true
										}
									}
								}
							}
						}
						good = ctxOK && rwOK
						c.check("stream", con, cancelOK, r, q, iv, "closing the stream given to the handler does not cancel the context of the call")
					}
					c.check("stream", con, good, r, q, iv, "the stream given to the handler is not one of this call")
				}
			}
		}
	}
	c.floor("one-invoke", 3)
	_ = n
}

func isErrText(txt, err *Term) bool {
	return txt != nil && txt.Op == "pure" && strings.HasPrefix(txt.Aux, "error.Error/") && txt.Args[0] == err
}

// ---- validation

func ruleValidate(c *Checker) {
	c.rule("decode", "data which can not be decoded is answered with the decoding error and has no effect")
	c.rule("reject", "a packet of unknown kind, a start packet without service or method, and a data packet without message, error and completion are answered with an error and have no effect")
	c.rule("dispatch", "a packet has the effect of its kind only: a start packet starts the call (and is refused by the client side), a data packet is queued, a cancel packet ends the call unless its flag is not set")
	c.dataHandler()
	for _, s := range bothRPC(c) {
		server := s.short == "srpc.ServerRPC"
		for _, m := range []string{"HandlePacket", "HandlePacketData"} {
			r := c.run(s.short + "." + m)
			accepted := map[string]bool{}
			defer func() {
				for _, k := range []string{"CallStart", "CallData", "CallCancel"} {
					c.check("dispatch", s.short+" "+k, accepted[k], r, nil, nil, "no packet of this kind gets through %s", r.name)
				}
			}()
			for _, p := range r.paths {
				if p.End != "return" {
					continue
				}
				st := p.St
				effect := ""
				ts := r.transitions(s, p)
				for _, t := range ts {
					if t.q1 != t.q0 || t.c1 != t.c0 || t.e1 != t.e0 || t.s1 != t.s0 || t.m1 != t.m0 {
						effect = t.fn
					}
				}
				for _, e := range p.Events {
					if e.Kind == "go" || e.Kind == "cancel" || e.Kind == "call" && len(e.Args) > 0 && s.isWriter(r, e.st, e.Args[0], r.recv()) {
						effect = e.fnName()
					}
				}
				var pk *Term
				if m == "HandlePacketData" {
					var un *Event
					for _, e := range p.Events {
						if e.Kind == "call" && strings.HasSuffix(e.Name, ".UnmarshalVT") {
							un = e
						}
					}
					if !c.check("decode", r.name, un != nil && len(un.Args) == 2 && un.Args[1] == r.param(0), r, p, nil, "the data is not decoded") {
						continue
					}
					if st.eval(r.x.mkEqNil(un.Res[0])) != 1 {
						c.check("decode", r.name, effect == "" && r.retNil(p, 0) == -1, r, p, nil, "data which can not be decoded is accepted")
						continue
					}
					pk = un.Args[0]
				} else {
					pk = r.param(0)
					if st.isNil(pk) {
						c.check("reject", r.name, effect == "", r, p, nil, "a nil packet has an effect")
						continue
					}
				}
				// the kind and content of the packet, as far as the path knows
				body := r.bodyOf(p, pk)
				kind := ""
				var inner *Term
				if body != nil {
					for f, v := range st.facts {
						if v && f.Op == "istype" && f.Args[0] == body {
							kind = f.Aux[strings.LastIndexByte(f.Aux, '_')+1:]
							inner = r.x.tt.mk("assert", f.Aux, nil, body)
						}
					}
				}
				field := func(n string) *Term {
					if inner == nil || inner.Typ == nil {
						return nil
					}
					in := r.fieldEarly(p, inner, kind)
					if in == nil {
						return nil
					}
					if st.isNil(in) {
						return r.x.tt.nilc(nil)
					}
					return r.fieldEarly(p, in, n)
				}
				empty := func(v *Term) int {
					if v == nil {
						return 0
					}
					return st.eval(r.lenZero(v))
				}
				truth := func(v *Term) int {
					if v == nil {
						return 0
					}
					if v.Op == "nil" {
						return -1
					}
					return st.eval(v)
				}
				valid := 0
				switch kind {
				case "CallStart":
					sv, me := empty(field("RpcService")), empty(field("RpcMethod"))
					switch {
					case sv == 1 || me == 1:
						valid = -1
					case sv == -1 && me == -1:
						valid = 1
					}
				case "CallData":
					d, e, cm, z := empty(field("Data")), empty(field("Error")), truth(field("Complete")), truth(field("DataIsZero"))
					switch {
					case d == -1 || e == -1 || cm == 1 || z == 1:
						valid = 1
					case d == 1 && e == 1 && cm == -1 && z == -1:
						valid = -1
					}
				case "CallCancel":
					valid = 1
				case "":
					valid = -1
				}
				con := s.short + " " + kind
				switch valid {
				case -1:
					c.check("reject", con, effect == "", r, p, nil, "an invalid packet has an effect (in %s)", effect)
					c.check("reject", con, r.retNil(p, 0) == -1, r, p, nil, "an invalid packet is not answered with an error")
					continue
				case 0:
					c.check("reject", con, false, r, p, nil, "a packet is handled or refused which was not completely validated")
					continue
				}
				c.check("reject", con, true, r, p, nil, "")
				accepted[kind] = true
				gos := 0
				for _, e := range p.Events {
					if e.Kind == "go" {
						gos++
					}
				}
				var push, ends, ids bool
				for _, t := range ts {
					push = push || t.pushed() != nil
					ends = ends || st.eval(t.c1) == 1
					ids = ids || t.m1 != t.m0 || t.s1 != t.s0
				}
				switch kind {
				case "CallStart":
					if server {
						c.check("dispatch", con, gos == 1 && ids || r.retNil(p, 0) == -1 && effect == "", r, p, nil, "a start packet neither starts the call nor is refused")
					} else {
						c.check("dispatch", con, r.retNil(p, 0) == -1 && effect == "", r, p, nil, "the client side accepts a start packet")
					}
				case "CallData":
					c.check("dispatch", con, len(ts) > 0 && gos == 0 && !ids, r, p, nil, "a data packet is not handled as one")
					for _, t := range ts {
						c.check("dispatch", con, t.q1 == t.q0 || t.pushed() == field("Data"), r, p, nil, "not the payload of the packet is queued")
						if st.eval(t.c0) == -1 {
							c.check("dispatch", con, (t.pushed() != nil) == (empty(field("Data")) == -1 || truth(field("DataIsZero")) == 1), r, p, nil, "the payload of the packet is dropped")
						}
					}
				case "CallCancel":
					flag := truth(r.fieldEarly(p, inner, kind))
					switch flag {
					case 1:
						c.check("dispatch", con, ends && !push && gos == 0 && r.retNil(p, 0) == 1, r, p, nil, "a cancel packet does not end the call")
					case -1:
						c.check("dispatch", con, effect == "" && r.retNil(p, 0) == 1, r, p, nil, "a cancel packet whose flag is not set has an effect")
					default:
						c.check("dispatch", con, false, r, p, nil, "the flag of a cancel packet is ignored")
					}
				}
			}
		}
	}
	c.floor("reject", 16)
	c.floor("dispatch", 10)
	c.floor("decode", 2)
}

// bodyOf finds the term the path loaded as the body of the packet.
func (r *Run) bodyOf(p *Path, pk *Term) *Term {
	for f := range p.St.facts {
		if f.Op == "istype" {
			b := f.Args[0]
			if b.Op == "load" && b.Args[0].Op == "field" && b.Args[0].Args[0] == pk && lastName(b.Args[0].Aux) == "Body" {
				return b
			}
		}
		if f.Op == "eq" && f.Args[1].Op == "nil" {
			b := f.Args[0]
			if b.Op == "load" && b.Args[0].Op == "field" && b.Args[0].Args[0] == pk && lastName(b.Args[0].Aux) == "Body" {
				return b
			}
		}
	}
	return nil
}

// fieldEarly reads a field of a received object: nothing changes it.
func (r *Run) fieldEarly(p *Path, obj *Term, name string) *Term {
	if obj.Typ == nil {
		return nil
	}
	var st *State
	for _, e := range p.Events {
		if e.st != nil {
			st = e.st
			if e.Kind == "lock" {
				break
			}
		}
	}
	if st == nil {
		st = p.St
	}
	return r.fieldAt(st, obj, name)
}

func init() {
	props["S03"] = ruleOnce
	props["S04"] = ruleFinal
	props["S05"] = ruleState
	props["S06"] = ruleWake
	props["S07"] = ruleRead
	props["S08"] = ruleIncoming
	props["S10"] = ruleEnd
	props["S11"] = ruleSticky
	props["S14"] = ruleValidate
}

// dataHandler checks the packet handler which decodes: data which can be decoded
// is handled once as the packet it decodes to, and the result is returned.
func (c *Checker) dataHandler() {
	r := c.run("srpc.NewPacketDataHandler")
	for _, p := range c.returns("decode", r) {
		clo := unwrap(p.Ret[0])
		if p.St.isNil(r.param(0)) {
			continue
		}
		if clo.Fn == nil || clo.Fn.Signature.Params().Len() != 1 {
			c.check("decode", r.name, false, r, p, nil, "the handler which decodes can not be followed")
			continue
		}
		data := r.x.tt.mk("param", "dec/data", clo.Fn.Signature.Params().At(0).Type())
		qs := r.runClosure(p.St, clo, data)
		shared := map[*Term]bool{}
		for _, q := range r.runClosure(p.St, clo, data) {
			for _, e := range q.Events {
				if e.Kind == "call" && strings.HasSuffix(e.Name, ".UnmarshalVT") && len(e.Args) > 0 {
					shared[unwrap(e.Args[0])] = true
				}
			}
		}
		c.check("decode", r.name, len(qs) > 0, r, p, nil, "the handler which decodes can not be followed")
		for _, q := range qs {
			if q.End != "return" {
				c.check("decode", r.name, q.End != "panic", r, q, nil, "the path ends with a panic")
				continue
			}
			var un *Event
			var hs []*Event
			for _, e := range q.Events {
				switch {
				case e.Kind == "call" && strings.HasSuffix(e.Name, ".UnmarshalVT"):
					c.check("decode", r.name, un == nil && len(e.Args) == 2 && e.Args[1] == data && len(hs) == 0, r, q, e, "something else than the data is decoded")
					un = e
				case e.Kind == "call" && e.Recv != nil && q.St.rep(e.Recv) == q.St.rep(r.param(0)):
					hs = append(hs, e)
				}
			}
			if !c.check("decode", r.name, un != nil, r, q, nil, "the data is not decoded") {
				continue
			}
			c.check("decode", r.name, freshObj(unwrap(un.Args[0])) && !shared[unwrap(un.Args[0])], r, q, un, "the packet which is decoded into is not a new one")
			switch q.St.eval(r.x.mkEqNil(un.Res[0])) {
			case 1:
				c.check("decode", r.name, len(hs) == 1 && len(hs[0].Args) == 1 && same(q.St, hs[0].Args[0], un.Args[0]) && same(q.St, q.Ret[0], hs[0].Res[0]), r, q, nil, "data which can be decoded is not handled once, as the packet it decodes to, with the result returned")
			case -1:
				c.check("decode", r.name, len(hs) == 0 && wrapsErr(q.St, q.Ret[0], un.Res[0]), r, q, nil, "data which can not be decoded is handled, or its error is not returned")
			default:
				c.check("decode", r.name, false, r, q, nil, "the error of decoding is not looked at")
			}
		}
	}
}

// ---- new calls

func ruleFresh(c *Checker) {
	c.rule("context", "the context of a new call ends with the given one and with the cancel function of the call, and is the one it reports")
	c.rule("given", "a new server call has the given invoker and writer, a new client call the given service and method")
	c.rule("fresh", "a new call has no queued message, has not ended and has no outcome; a server call has no service and method yet, a client call no writer")
	c.rule("idle", "making a call invokes, writes, closes and cancels nothing")
	c.rule("server", "a server serves with the invoker it was given, and with no other")
	for _, s := range bothRPC(c) {
		server := s.short == "srpc.ServerRPC"
		ctor := "srpc.NewClientRPC"
		if server {
			ctor = "srpc.NewServerRPC"
		}
		r := c.run(ctor)
		var inv *Role
		if server {
			inv = c.role(s.typ, "the invoker", tyNamed(ModPath+"/srpc.Invoker"), "invoker")
		}
		for _, p := range c.returns("fresh", r) {
			st := p.St
			o := unwrap(st.rep(p.Ret[0]))
			if !c.check("fresh", r.name, o.Op == "alloc", r, p, nil, "the result is not a new call") {
				continue
			}
			get := func(ro *Role) *Term { return st.rep(r.x.load(st, ro.addr(r.x, o), ro.typ)) }
			is := func(ro *Role, i int) bool { return same(st, get(ro), r.param(i)) }
			ctx := get(s.ctx)
			c.check("context", r.name, ctx.derives(r.param(0)) && ctx != r.param(0), r, p, nil, "the context of the call is not made of the given one")
			c.check("context", r.name, r.cancels(get(s.cancel), ctx), r, p, nil, "the cancel function of the call does not cancel its context")
			empty := func(ro *Role) bool { return st.eval(r.lenZero(get(ro))) == 1 }
			if server {
				c.check("given", r.name, is(inv, 1), r, p, nil, "the call does not have the given invoker")
				c.check("given", r.name, is(s.writer, 2), r, p, nil, "the call does not have the given writer")
				c.check("fresh", r.name, empty(s.service) && empty(s.method), r, p, nil, "the call has a service or method before it was started")
			} else {
				c.check("given", r.name, is(s.service, 1) && is(s.method, 2), r, p, nil, "the call does not have the given service and method")
				c.check("fresh", r.name, st.isNil(get(s.writer)), r, p, nil, "the call has a writer before it was started")
			}
			c.check("fresh", r.name, empty(s.queue), r, p, nil, "a message is queued in a new call")
			c.check("fresh", r.name, st.eval(get(s.closed)) == -1, r, p, nil, "a new call has ended")
			c.check("fresh", r.name, st.isNil(get(s.rerr)), r, p, nil, "a new call has an outcome")
			for _, e := range p.Events {
				own := false
				for i := 1; server && e.Kind == "call" && i < 3; i++ {
					own = own || e.Recv == r.param(i) || len(e.Args) > 0 && unwrap(e.Args[0]) == r.param(i) && e.methodName() != ""
				}
				c.check("idle", r.name, e.Kind != "go" && e.Kind != "cancel" && !own, r, p, e, "making a call has an effect")
			}
		}
		x := c.run(s.short + ".Context")
		for _, p := range c.returns("context", x) {
			c.check("context", x.name, s.isField(s.ctx, x, unwrap(p.Ret[0])), x, p, nil, "the context reported is not the one of the call")
		}
	}

	t := c.implOf(c.load("linux"), "srpc.NewServer", 0)
	inv := c.role(t, "the invoker of the server", tyNamed(ModPath+"/srpc.Invoker"), "invoker")
	r := c.run("srpc.NewServer")
	for _, p := range c.returns("server", r) {
		o := unwrap(p.St.rep(p.Ret[0]))
		ok := o.Op == "alloc" && same(p.St, r.x.load(p.St, inv.addr(r.x, o), inv.typ), r.param(0))
		c.check("server", r.name, ok, r, p, nil, "the server does not have the given invoker")
	}
	g := c.runMethod(t, "GetInvoker")
	for _, p := range c.returns("server", g) {
		v := unwrap(p.Ret[0])
		c.check("server", g.name, v.Op == "load" && v.Args[0] == inv.addr(g.x, g.recv()), g, p, nil, "the invoker reported is not the one of the server")
	}
	for _, m := range exportedMethods(c.load("linux"), t) {
		x := c.runMethod(t, m)
		for _, p := range x.paths {
			for _, e := range p.Events {
				c.check("server", x.name, e.Kind != "store" || e.Addr != inv.addr(x.x, x.recv()), x, p, e, "the invoker of the server is changed")
			}
		}
	}
	c.floor("context", 4)
	c.floor("fresh", 8)
}

func init() { props["S60"] = ruleFresh }
