package main

import (
	"go/types"
	"strings"
)

// ---- connections, accept loops and servers

// unwrap strips the conversion to an interface.
func unwrap(t *Term) *Term {
	if t != nil && t.Op == "iface" {
		return t.Args[0]
	}
	return t
}

// madeBy returns the call which produced a value, if its name has the suffix.
func madeBy(st *State, v *Term, suffix string) *Event {
	if v == nil {
		return nil
	}
	v = unwrap(st.rep(unwrap(v)))
	if v.Op == "res" && v.Ev != nil && v.Ev.Kind == "call" && strings.HasSuffix(v.Ev.Name, suffix) {
		return v.Ev
	}
	return nil
}

// session finds the yamux session a muxed connection was made of; outbound is 1
// for the initiating role, -1 for the accepting one and 0 if there is none.
func session(st *State, v *Term) (*Event, int) {
	m := madeBy(st, v, "yamux.NewMuxedConn")
	if m == nil || len(m.Args) != 1 {
		return nil, 0
	}
	return sessionOf(st, m.Args[0])
}

func sessionOf(st *State, s *Term) (*Event, int) {
	s = st.rep(s)
	if s.Op != "res" || s.Ev == nil || !strings.Contains(s.Ev.Name, "go-yamux/") {
		return nil, 0
	}
	switch {
	case strings.HasSuffix(s.Ev.Name, ".Client"):
		return s.Ev, 1
	case strings.HasSuffix(s.Ev.Name, ".Server"):
		return s.Ev, -1
	}
	return nil, 0
}

func isSession(e *Event) bool {
	return e.Kind == "call" && strings.Contains(e.Name, "go-yamux/") && (strings.HasSuffix(e.Name, ".Client") || strings.HasSuffix(e.Name, ".Server"))
}

// sessions lists the sessions a path starts.
func sessions(p *Path) []*Event {
	var out []*Event
	for _, e := range p.Events {
		if isSession(e) {
			out = append(out, e)
		}
	}
	return out
}

// prwOf decides that a packet reader and writer works on a stream.
func (r *Run) prwOf(st *State, rw, strm *Term) bool {
	rw = unwrap(st.rep(unwrap(rw)))
	if rw == nil || rw.Op != "alloc" || !strings.HasSuffix(typeKeyFull(rw.typ()), "srpc.PacketReadWriter") {
		return false
	}
	ok := false
	r.fieldsOf(st, rw, func(n string, t types.Type, v *Term) {
		if types.IsInterface(t) && v != nil && (v == strm || unwrap(v) == unwrap(strm)) {
			ok = true
		}
	})
	return ok
}

// pumped checks a goroutine which reads a stream of packets into two handlers.
func (c *Checker) pumped(rule string, r *Run, p *Path, g *Event, isStrm func(st *State, rw *Term) bool, msg, closed *Term) {
	c.check(rule, r.name, len(g.Sub) > 0, r, p, g, "the goroutine can not be followed")
	for _, q := range g.Sub {
		rd := calls(q, "srpc.PacketReadWriter.ReadToHandler")
		if !c.check(rule, r.name, len(rd) == 1 && len(rd[0].Args) == 2 && isStrm(rd[0].st, rd[0].Args[0]) && q.End == "return", r, q, nil, "the goroutine does not read the stream once until it ends") {
			continue
		}
		c.check(rule, r.name, rd[0].Args[1] == msg, r, q, rd[0], "the packets are not delivered to the handler of the call but to %s", rd[0].Args[1])
		n := 0
		for _, e := range q.Events {
			if e.Kind == "call" && e.Recv == closed && e.Idx > rd[0].Idx {
				n++
				c.check(rule, r.name, len(e.Args) == 1 && e.Args[0] == rd[0].Res[0], r, q, e, "the close handler does not get the error which ended the stream")
			}
		}
		want := 1
		if q.St.eval(r.x.mkEqNil(closed)) == 1 {
			want = 0
		}
		c.check(rule, r.name, n == want, r, q, nil, "the end of the stream is delivered %d times", n)
	}
}

var prwPump = ropts{opaque: []string{"srpc.PacketReadWriter.ReadToHandler"}, enter: []string{"srpc.PacketReadWriter.ReadPump"}}

func ruleMuxedConn(c *Checker) {
	c.rule("role", "a muxed connection runs one session on the given connection: as the initiator exactly if the connection is outbound, which is so for a dialed one and not for an accepted one or the server side of a websocket")
	c.rule("config", "a session uses the given configuration, or a default of its own if there is none; the given one is not changed")
	c.rule("errors", "an error of dialing or of starting the session is returned, and no connection or client")
	c.rule("client", "a client made of a connection opens its streams on that connection")
	c.rule("open", "opening a stream opens exactly one stream of the connection with the context of the caller; an error is returned, as context.Canceled if it is a timeout and the context ended, and the stream is not read")
	c.rule("canceled", "a stream which could not be opened because the context ended is reported as canceled: the timeout which the muxer reports then is told from other errors")
	c.rule("pump", "an opened stream is read in its own goroutine into the packet handler, its end goes to the close handler once, and the returned writer writes to it")

	// session: the path has one session on conn with the role.
	made := func(r *Run, p *Path, muxed *Term, want int, conn func(st *State, t *Term) bool, conf *Term) {
		s, role := session(p.St, muxed)
		if !c.check("role", r.name, s != nil && len(sessions(p)) == 1 && len(s.Args) >= 2, r, p, nil, "the connection is not made of one session") {
			return
		}
		c.check("role", r.name, want != 0 && role == want, r, p, s, "the session has the role %d and not %d", role, want)
		c.check("role", r.name, conn(s.st, s.Args[0]), r, p, s, "the session runs on %s", s.Args[0])
		given := conf != nil && p.St.eval(r.x.mkEqNil(conf)) != 1
		if given {
			c.check("config", r.name, s.Args[1] == conf, r, p, s, "the given configuration is not used")
		} else {
			c.check("config", r.name, s.Args[1].Op == "alloc" || s.Args[1].Op == "res", r, p, s, "the default configuration is %s", s.Args[1])
		}
	}
	// failing paths return the error; true: the path succeeded.
	good := func(r *Run, p *Path) bool {
		ok := true
		n := len(p.Ret) - 1
		for _, e := range p.Events {
			if !isSession(e) && !e.isCall("net.Dial") {
				continue
			}
			switch r.failed(p.St, e.Res[1]) {
			case 1:
				ok = false
				c.check("errors", r.name, wrapsErr(p.St, p.Ret[n], e.Res[1]) && p.St.isNil(p.Ret[0]), r, p, e, "the error is not returned, but %s and %s", p.Ret[0], p.Ret[n])
			case 0:
				ok = false
				c.check("errors", r.name, false, r, p, e, "the error is ignored")
			}
		}
		if ok {
			c.check("errors", r.name, r.failed(p.St, p.Ret[n]) == -1, r, p, nil, "an error is returned although the connection was made")
		}
		return ok
	}
	is := func(v *Term) func(*State, *Term) bool {
		return func(_ *State, t *Term) bool { return t == v || unwrap(t) == v }
	}

	r := c.run("srpc.NewMuxedConn")
	for _, p := range c.returns("role", r) {
		for _, e := range p.Events {
			c.check("config", r.name, e.Kind != "store" || e.Addr.base() != r.param(2), r, p, e, "the given configuration is changed")
		}
		if good(r, p) {
			made(r, p, p.Ret[0], p.St.eval(r.param(1)), is(r.param(0)), r.param(2))
		}
	}
	rwc := c.implOf(r.p, "srpc.NewRwcConn", 0)
	r = c.run("srpc.NewMuxedConnWithRwc")
	for _, p := range c.returns("role", r) {
		if good(r, p) {
			made(r, p, p.Ret[0], p.St.eval(r.param(2)), func(st *State, t *Term) bool {
				t = unwrap(t)
				ok := false
				if t.Op == "alloc" && types.Identical(t.typ(), rwc.Underlying()) {
					r.fieldsOf(st, t, func(n string, ft types.Type, v *Term) { ok = ok || v == r.param(1) })
				}
				return ok
			}, r.param(3))
		}
	}
	r = c.run("srpc.NewWebSocketConn")
	for _, p := range c.returns("role", r) {
		if good(r, p) {
			made(r, p, p.Ret[0], -p.St.eval(r.param(2)), func(st *State, t *Term) bool {
				e := madeBy(st, t, "websocket.NetConn")
				return e != nil && e.Args[0] == r.param(0) && e.Args[1] == r.param(1)
			}, r.param(3))
			for _, e := range calls(p, "github.com/coder/websocket.NetConn") {
				c.check("role", r.name, e.Args[2].isConst() && e.Args[2].Aux == "2", r, p, e, "the messages of the websocket are not binary")
			}
		}
	}

	// clients: the connection of the function which opens streams
	client := func(r *Run, p *Path, cl *Term, conn *Term) {
		o := unwrap(p.St.rep(cl))
		ok := false
		if o.Op == "alloc" {
			r.fieldsOf(p.St, o, func(n string, t types.Type, v *Term) {
				if isFuncType(t) && v != nil && v.Fn != nil {
					ok = true
					for _, q := range r.runClosure(p.St, v) {
						for _, e := range calls(q, ".OpenStream") {
							c.check("client", r.name, conn != nil && e.Args[0] == conn, r, q, e, "the stream is opened on %s", e.Args[0])
						}
						c.check("client", r.name, len(calls(q, ".OpenStream")) == 1, r, q, nil, "not one stream is opened")
					}
				}
			})
		}
		c.check("client", r.name, ok, r, p, nil, "the function which opens streams can not be followed")
	}
	for _, d := range []struct {
		name string
		dial bool
	}{{"srpc.Dial", true}, {"srpc.NewClientWithConn", false}} {
		r := c.run(d.name)
		for _, p := range c.returns("role", r) {
			if !good(r, p) {
				continue
			}
			m := calls(p, "github.com/libp2p/go-libp2p/p2p/muxer/yamux.NewMuxedConn")
			if !c.check("client", r.name, len(m) == 1, r, p, nil, "not one connection is made") {
				continue
			}
			if d.dial {
				dl := calls(p, "net.Dial")
				if c.check("role", r.name, len(dl) == 1 && dl[0].Args[1] == r.param(0), r, p, nil, "the address is not dialed once") {
					made(r, p, m[0].Res[0], 1, is(dl[0].Res[0]), nil)
				}
			} else {
				made(r, p, m[0].Res[0], p.St.eval(r.param(1)), is(r.param(0)), r.param(2))
			}
			client(r, p, p.Ret[0], m[0].Res[0])
		}
	}
	r = c.run("srpc.NewClientWithMuxedConn")
	for _, p := range c.returns("client", r) {
		client(r, p, p.Ret[0], r.param(0))
	}

	// the default configuration is a new one
	r = c.run("srpc.NewYamuxConfig")
	for _, p := range c.returns("config", r) {
		c.check("config", r.name, p.Ret[0].Op == "alloc" || p.Ret[0].Op == "res", r, p, nil, "the default configuration is shared")
		for _, e := range p.Events {
			c.check("config", r.name, e.Kind != "store" || e.Addr.base().Op == "alloc", r, p, e, "a shared configuration is changed")
		}
	}

	// opening streams
	r = c.run("srpc.NewOpenStreamWithMuxedConn", prwPump)
	for _, p := range c.returns("open", r) {
		clo := unwrap(p.Ret[0])
		if !c.check("open", r.name, clo != nil && clo.Fn != nil && clo.Fn.Signature.Params().Len() == 3, r, p, nil, "the function which opens streams can not be followed") {
			continue
		}
		var a []*Term
		for i := 0; i < 3; i++ {
			a = append(a, r.x.tt.mk("param", "open"+itoa(i), clo.Fn.Signature.Params().At(i).Type()))
		}
		for _, q := range r.runClosure(p.St, clo, a...) {
			if !c.check("open", r.name, q.End == "return", r, q, nil, "opening a stream may panic") {
				continue
			}
			os := calls(q, ".OpenStream")
			if !c.check("open", r.name, len(os) == 1 && os[0].Args[0] == r.param(0) && os[0].Args[1].derives(a[0]), r, q, nil, "not exactly one stream is opened on the connection with the context") {
				continue
			}
			strm, err := os[0].Res[0], os[0].Res[1]
			gos := r.gos(q)
			switch r.failed(q.St, err) {
			case 1:
				ended := ctxSeen(r, q, func(t *Term) bool { return t == a[0] }) == 1
				ok := wrapsErr(q.St, q.Ret[1], err) || ended && (isSentinel(q.St, q.Ret[1], "context.Canceled") || r.isCtxErr(q, q.Ret[1], a[0]))
				c.check("open", r.name, ok && q.St.isNil(q.Ret[0]) && len(gos) == 0, r, q, nil, "the error of opening the stream is not returned but %s", q.Ret[1])
				if !isSentinel(q.St, q.Ret[1], "context.Canceled") {
					live := ctxSeen(r, q, func(t *Term) bool { return t == a[0] }) == -1
					c.check("canceled", r.name, live || !saidTimeout(q.St, err), r, q, nil, "the timeout which the connection reports for a canceled context is returned as it is")
					c.check("canceled", r.name, ended || live || decidedOn(q.St, err), r, q, nil, "the timeout which the connection reports for a canceled context is not told from other errors")
				}
				continue
			case 0:
				c.check("open", r.name, false, r, q, os[0], "the error of opening the stream is ignored")
				continue
			}
			isStrm := func(st *State, rw *Term) bool { return r.prwOf(st, rw, strm) }
			c.check("pump", r.name, r.failed(q.St, q.Ret[1]) == -1 && isStrm(q.St, q.Ret[0]), r, q, nil, "the writer does not write to the stream")
			if c.check("pump", r.name, len(gos) == 1, r, q, nil, "%d goroutines read the stream", len(gos)) {
				c.pumped("pump", r, q, gos[0], isStrm, a[1], a[2])
			}
		}
	}
	c.floor("role", 8)
	c.floor("config", 6)
	c.floor("errors", 6)
	c.floor("client", 3)
	c.floor("open", 3)
	c.floor("canceled", 1)
	c.floor("pump", 3)
}

// decidedOn: something but nilness is known about the value.
func decidedOn(st *State, v *Term) bool {
	for f, is := range st.facts {
		if f.Op == "istype" && is {
			continue
		}
		if f.Op == "eq" && (f.Args[0].Op == "nil" || f.Args[1].Op == "nil") {
			continue
		}
		for _, t := range subterms(f, nil) {
			if t == v || t.Op == "res" && t.Ev != nil && len(t.Ev.Args) > 0 && unwrap(t.Ev.Args[0]) == v {
				return true
			}
		}
	}
	return false
}

// isCtxErr decides that an error is the one a context ended with.
func (r *Run) isCtxErr(p *Path, err, ctx *Term) bool {
	for _, e := range p.Events {
		if e.Kind == "call" && (e.Name == "context.Context.Err" || e.Name == "context.Cause") && len(e.Args) == 1 && e.Args[0] == ctx && same(p.St, err, e.Res[0]) {
			return true
		}
	}
	return false
}

// ---- accept loops

// accepted is the part of a path which starts by accepting something and ends
// before the next iteration.
type accepted struct {
	p      *Path
	acc    *Event
	evs    []*Event
	before []*Event // since the iteration began
	loops  bool     // the accept loop goes on
}

// carries finds the variable of the loop which hands what was accepted to the
// next iteration, if nothing was done with it yet.
func carries(l *LoopInfo, a *accepted) int {
	if a == nil || len(a.gos()) > 0 {
		return -1
	}
	for i, n := range l.Next {
		if n == a.acc.Res[0] {
			return i
		}
	}
	return -1
}

func acceptedIn(p *Path, method string) []*accepted {
	var out []*accepted
	var cur *accepted
	var before []*Event
	for _, e := range p.Events {
		switch {
		case e.Kind == "call" && e.methodName() == method:
			if cur != nil {
				cur.loops = true
			}
			cur = &accepted{p: p, acc: e, before: before}
			out = append(out, cur)
			before = nil
		case e.Kind == "loop":
			if i := carries(e.Loop, cur); i >= 0 {
				// what was accepted is served in the next iteration
				out = out[:len(out)-1]
				if e.Loop.Sym == nil {
					cur, before = nil, nil
					continue
				}
				acc := *cur.acc
				acc.Res = append([]*Term(nil), acc.Res...)
				for k, r := range acc.Res {
					for j, n := range e.Loop.Next {
						if n == r {
							acc.Res[k] = e.Loop.Sym[j]
						}
					}
				}
				cur = &accepted{p: p, acc: &acc, before: cur.before}
				out = append(out, cur)
				before = nil
				continue
			}
			if cur != nil {
				cur.loops = true
			}
			cur = nil
			before = nil
		default:
			if cur != nil {
				cur.evs = append(cur.evs, e)
			}
			before = append(before, e)
		}
	}
	if cur != nil && p.End == "loop" {
		cur.loops = true
	}
	return out
}

func (a *accepted) gos() []*Event {
	var out []*Event
	for _, e := range a.evs {
		if e.Kind == "go" {
			out = append(out, e)
		}
	}
	return out
}

func (a *accepted) path() *Path { return &Path{Events: a.evs, St: a.p.St} }

func (r *Run) ended(c *Checker, rule string, a *accepted) bool {
	err := a.acc.Res[len(a.acc.Res)-1]
	switch r.failed(a.p.St, err) {
	case 1:
		c.check(rule, r.name, !a.loops && a.p.End == "return" && wrapsErr(a.p.St, a.p.Ret[0], err), r, a.p, a.acc, "the error of accepting is not returned")
		c.check(rule, r.name, len(a.gos()) == 0, r, a.p, a.acc, "something is served although accepting failed")
		return true
	case 0:
		c.check(rule, r.name, false, r, a.p, a.acc, "the error of accepting is ignored")
		return true
	}
	return false
}

// served checks that one goroutine hands what was accepted to a function of the
// server once; what remains on each of its paths is given to then.
func (c *Checker) served(rule string, r *Run, a *accepted, fn string, args func(e *Event) bool, then func(q *Path, e *Event)) {
	n := 0
	for _, e := range a.evs {
		if e.isCall(fn) {
			c.check(rule, r.name, false, r, a.p, e, "what was accepted is served before the next one can be accepted")
		}
	}
	for _, g := range a.gos() {
		hit := false
		for _, q := range g.Sub {
			cs := calls(q, fn)
			if len(cs) == 0 {
				continue
			}
			hit = true
			c.check(rule, r.name, len(cs) == 1 && args(cs[0]), r, q, cs[0], "something else is served, or with another context")
			if then != nil {
				then(q, cs[0])
			}
		}
		if hit {
			n++
			for _, q := range g.Sub {
				c.check(rule, r.name, len(calls(q, fn)) == 1, r, q, nil, "what was accepted may not be served")
			}
		}
	}
	if n == 0 && !a.loops {
		// dropped at the end: it has to be closed
		for _, e := range a.evs {
			if e.Kind == "call" && (e.methodName() == "Close" || e.methodName() == "Reset") && len(e.Args) > 0 && e.Args[0] == a.acc.Res[0] {
				n = 1
			}
		}
	}
	c.check(rule, r.name, n == 1, r, a.p, a.acc, "what was accepted is served by %d goroutines", n)
}

// lasts decides that a context is another one, or one which ends with it and
// which the path does not end itself.
func lasts(p *Path, sub, ctx *Term) bool {
	if !sub.derives(ctx) {
		return false
	}
	for _, e := range p.Events {
		for t := sub; e.Kind == "cancel" && t != ctx; {
			if e.Addr == t {
				return false
			}
			a, ok := t.Obj.([]*Term)
			if !ok || len(a) == 0 {
				break
			}
			t = a[0]
		}
	}
	return true
}

// closesAny: the path closes one of the values.
func closesAny(p *Path, vs ...*Term) bool {
	for _, e := range p.Events {
		if e.Kind != "call" || e.methodName() != "Close" && e.methodName() != "CloseNow" && e.methodName() != "Reset" || len(e.Args) == 0 {
			continue
		}
		for _, v := range vs {
			if v != nil && (e.Args[0] == v || unwrap(e.Args[0]) == unwrap(v)) {
				return true
			}
		}
	}
	return false
}

// closedBefore gives the close of a value before the event, if there is one.
func closedBefore(p *Path, before *Event, v *Term) *Event {
	for _, e := range p.Events {
		if e.Idx >= before.Idx {
			break
		}
		if closesAny(&Path{Events: []*Event{e}}, v) {
			return e
		}
	}
	return nil
}

func ruleAccept(c *Checker) {
	c.rule("listen", "every accepted connection becomes the accepting side of a session and is served with the server and the context in its own goroutine, and closed after that; a connection without a session is closed, and the loop goes on; it ends exactly with the error of accepting")
	c.rule("streams", "every stream accepted on a connection is handled once with the context in its own goroutine; the loop ends with the error of accepting, with context.Canceled if the context ended, or with io.EOF if the connection is closed")
	c.rule("ctx", "the context is checked before each stream is accepted")
	c.rule("handle", "a stream is handled by one call of the server's handler with a context which ends with the given one and on return; everything received goes to that call, the end of the stream with its error too, and it writes to that stream")
	c.rule("serve", "Listen accepts on the address in a goroutine which can always report its end; it returns the first of the error of listening, of accepting or of the error channel, or context.Canceled if the context ended")
	c.rule("close", "the listener is closed on every return")
	c.rule("pipe", "each stream of a server pipe is a new pipe: the server handles one end with the context in its own goroutine, the other end is pumped into the handlers of the caller and is what the returned writer writes to")

	r := c.run("srpc.AcceptMuxedListener")
	ctx, lis, srv, conf := r.param(0), r.param(1), r.param(2), r.param(3)
	for _, p := range r.paths {
		if p.End == "panic" {
			c.check("listen", r.name, false, r, p, nil, "the accept loop panics")
			continue
		}
		as := acceptedIn(p, "Accept")
		c.check("listen", r.name, len(as) > 0 || p.End != "return" || ctxSeen(r, p, func(t *Term) bool { return t == ctx }) == 1, r, p, nil, "nothing is accepted")
		for _, a := range as {
			c.check("listen", r.name, a.acc.Args[0] == lis, r, p, a.acc, "another listener is used")
			if r.ended(c, "listen", a) {
				continue
			}
			conn := a.acc.Res[0]
			var ss []*Event
			for _, e := range a.evs {
				if isSession(e) {
					ss = append(ss, e)
				}
			}
			if !c.check("listen", r.name, len(ss) == 1, r, p, a.acc, "%d sessions are started on an accepted connection", len(ss)) {
				continue
			}
			_, role := sessionOf(p.St, ss[0].Res[0])
			c.check("listen", r.name, role == -1 && unwrap(ss[0].Args[0]) == unwrap(conn), r, p, ss[0], "the session is not the accepting side of the connection")
			if p.St.eval(r.x.mkEqNil(conf)) != 1 {
				c.check("listen", r.name, ss[0].Args[1] == conf, r, p, ss[0], "the given configuration is not used")
			}
			c.check("listen", r.name, a.loops, r, p, a.acc, "the accept loop ends although a connection was accepted")
			switch r.failed(p.St, ss[0].Res[1]) {
			case 1:
				c.check("listen", r.name, closesAny(a.path(), conn) && len(a.gos()) == 0, r, p, ss[0], "a connection without a session is not closed")
				continue
			case 0:
				c.check("listen", r.name, false, r, p, ss[0], "the error of the session is ignored")
				continue
			}
			c.served("listen", r, a, "srpc.Server.AcceptMuxedConn", func(e *Event) bool {
				s, _ := session(p.St, e.Args[2])
				return e.Args[0] == srv && lasts(p, e.Args[1], ctx) && s == ss[0]
			}, func(q *Path, e *Event) {
				after := &Path{St: q.St}
				for _, g := range q.Events {
					if g.Idx > e.Idx {
						after.Events = append(after.Events, g)
					}
				}
				c.check("listen", r.name, q.End == "return" && closesAny(after, conn, e.Args[2]), r, q, e, "the connection is not closed after it was served")
			})
		}
	}

	r = c.run("srpc.Server.AcceptMuxedConn")
	srv, ctx = r.recv(), r.param(0)
	mc := r.param(1)
	isCtx := func(t *Term) bool { return t == ctx }
	for _, p := range r.paths {
		if p.End == "panic" {
			c.check("streams", r.name, false, r, p, nil, "the accept loop panics")
			continue
		}
		as := acceptedIn(p, "AcceptStream")
		for _, a := range as {
			c.check("streams", r.name, a.acc.Args[0] == mc, r, p, a.acc, "streams of another connection are accepted")
			c.check("ctx", r.name, ctxSeen(r, &Path{Events: a.before, St: p.St}, isCtx) == -1, r, p, a.acc, "a stream is accepted without checking the context")
			if r.ended(c, "streams", a) {
				continue
			}
			c.served("streams", r, a, "srpc.Server.HandleStream", func(e *Event) bool {
				return e.Args[0] == srv && lasts(p, e.Args[1], ctx) && unwrap(e.Args[2]) == unwrap(a.acc.Res[0])
			}, nil)
		}
		if p.End != "return" {
			continue
		}
		if n := len(as); n > 0 && !as[n-1].loops && r.failed(p.St, as[n-1].acc.Res[1]) == 1 {
			continue
		}
		gone := ctxSeen(r, p, isCtx) == 1
		shut := false
		for _, e := range calls(p, ".IsClosed") {
			if e.Args[0] == mc && p.St.eval(e.Res[0]) == 1 {
				shut = true
			}
		}
		ok := gone && (isSentinel(p.St, p.Ret[0], "context.Canceled") || r.isCtxErr(p, p.Ret[0], ctx)) || shut && isSentinel(p.St, p.Ret[0], "io.EOF")
		c.check("streams", r.name, ok, r, p, nil, "the loop ends with %s", p.Ret[0])
	}

	c.handleStream()

	r = c.run("srpc.Listen")
	ctx, addr, errCh := r.param(0), r.param(1), r.param(3)
	srv = r.param(2)
	for _, p := range r.paths {
		if !c.check("serve", r.name, p.End != "panic", r, p, nil, "Listen panics") || p.End != "return" {
			continue
		}
		ls := calls(p, "net.Listen", ".Listen")
		if !c.check("serve", r.name, len(ls) == 1 && (ls[0].Args[len(ls[0].Args)-1] == addr), r, p, nil, "the address is not listened on once") {
			continue
		}
		l, lerr := ls[0].Res[0], ls[0].Res[1]
		switch r.failed(p.St, lerr) {
		case 1:
			c.check("serve", r.name, wrapsErr(p.St, p.Ret[0], lerr) && len(r.gos(p)) == 0, r, p, nil, "the error of listening is not returned")
			continue
		case 0:
			c.check("serve", r.name, false, r, p, nil, "the error of listening is ignored")
			continue
		}
		c.check("close", r.name, closesAny(p, l), r, p, nil, "the listener is not closed")
		for _, e := range p.Events {
			if e.Kind == "recv" || e.Kind == "select" && e.Block {
				early := closedBefore(p, e, l)
				c.check("close", r.name, early == nil, r, p, early, "the listener is closed before there is a reason to stop")
				break
			}
		}
		gos := r.gos(p)
		var ch *Term
		n := 0
		for _, g := range gos {
			for _, q := range g.Sub {
				am := calls(q, "srpc.AcceptMuxedListener")
				if len(am) == 0 {
					continue
				}
				n++
				c.check("serve", r.name, len(am) == 1 && am[0].Args[0].derives(ctx) && am[0].Args[1] == l && am[0].Args[2] == srv, r, q, am[0], "something else is served")
				sent := 0
				for _, e := range q.Events {
					if e.Kind == "send" {
						sent++
						ch = e.Addr
						c.check("serve", r.name, same(q.St, e.Val, am[0].Res[0]) && e.Idx > am[0].Idx, r, q, e, "the end of the accept loop is not reported")
					}
				}
				c.check("serve", r.name, sent == 1, r, q, nil, "the end of the accept loop is reported %d times", sent)
			}
		}
		if !c.check("serve", r.name, n == 1 && ch != nil, r, p, nil, "connections are not accepted in a goroutine") {
			continue
		}
		c.check("serve", r.name, ch.Op == "make" && r.ge(p.St, r.x.capOf(ch), r.x.tt.intc(1), 0) == 1, r, p, nil, "the goroutine may not be able to report its end")
		ok, over := false, false // over: there was a reason to stop
		for _, e := range p.Events {
			if e.Kind != "select" && e.Kind != "recv" || len(e.Res) == 0 && e.Kind == "recv" {
				continue
			}
			from := e.Addr
			if over {
				// the accept loop ends soon if the listener was closed
				soon := e.Kind == "select" && !e.Block
				for _, g := range p.Events {
					soon = soon || e.Kind == "recv" && from == ch && g.Idx < e.Idx && g.Kind == "call" && g.methodName() == "Close" && len(g.Args) > 0 && g.Args[0] == l
				}
				c.check("serve", r.name, soon, r, p, e, "Listen waits although there was a reason to stop")
				continue
			}
			if e.Kind == "select" {
				if e.Pick < 0 {
					continue
				}
				from = e.Cases[e.Pick].Chan
				// nothing of the three may be left out
				has := map[string]bool{}
				for _, cs := range e.Cases {
					switch {
					case cs.Chan == ch:
						has["accept"] = true
					case cs.Chan == errCh:
						has["errCh"] = true
					case isDone(cs.Chan, ctx):
						has["ctx"] = true
					}
				}
				if e.Block {
					c.check("serve", r.name, has["accept"] && has["errCh"] == (p.St.eval(r.x.mkEqNil(errCh)) != 1) && has["ctx"] || has["accept"] && has["errCh"] && has["ctx"], r, p, e, "Listen does not wait for the context, the accept loop and the error channel")
				}
			}
			switch {
			case isDone(from, ctx):
				over, ok = true, isSentinel(p.St, p.Ret[0], "context.Canceled") || r.isCtxErr(p, p.Ret[0], ctx)
			case from == ch || from == errCh:
				over, ok = true, wrapsErr(p.St, p.Ret[0], e.Res[0])
			}
		}
		c.check("serve", r.name, ok, r, p, nil, "Listen returns %s", p.Ret[0])
	}

	r = c.run("srpc.NewServerPipe", prwPump)
	for _, p := range c.returns("pipe", r) {
		clo := unwrap(p.Ret[0])
		if !c.check("pipe", r.name, clo != nil && clo.Fn != nil && clo.Fn.Signature.Params().Len() == 3, r, p, nil, "the function which opens streams can not be followed") {
			continue
		}
		var a []*Term
		for i := 0; i < 3; i++ {
			a = append(a, r.x.tt.mk("param", "open"+itoa(i), clo.Fn.Signature.Params().At(i).Type()))
		}
		for _, q := range r.runClosure(p.St, clo, a...) {
			pp := calls(q, "net.Pipe")
			if !c.check("pipe", r.name, q.End == "return" && len(pp) == 1, r, q, nil, "not one pipe is made") {
				continue
			}
			var mine *Term
			hs := 0
			var pumps []*Event
			for _, g := range r.gos(q) {
				hit := false
				for _, s := range g.Sub {
					for _, h := range calls(s, "srpc.Server.HandleStream") {
						hit = true
						hs++
						e0, e1 := pp[0].Res[0], pp[0].Res[1]
						end := unwrap(h.Args[2])
						mine = e1
						if end == e1 {
							mine = e0
						}
						c.check("pipe", r.name, h.Args[0] == r.param(0) && h.Args[1].derives(a[0]) && (end == e0 || end == e1), r, s, h, "the server does not handle an end of the pipe with the context")
					}
				}
				if !hit {
					pumps = append(pumps, g)
				}
			}
			if !c.check("pipe", r.name, hs == 1 && len(pumps) == 1, r, q, nil, "%d ends are handled by the server and %d by the caller", hs, len(pumps)) {
				continue
			}
			isStrm := func(st *State, rw *Term) bool { return r.prwOf(st, rw, mine) }
			c.pumped("pipe", r, q, pumps[0], isStrm, a[1], a[2])
			c.check("pipe", r.name, r.failed(q.St, q.Ret[1]) == -1 && isStrm(q.St, q.Ret[0]), r, q, nil, "the writer does not write to the end of the caller")
		}
	}
	c.floor("listen", 6)
	c.floor("streams", 4)
	c.floor("ctx", 1)
	c.floor("handle", 3)
	c.floor("serve", 4)
	c.floor("close", 3)
	c.floor("pipe", 4)
}

// isDone: the channel tells the end of the context.
func isDone(ch, ctx *Term) bool {
	return ch != nil && ch.Op == "pure" && strings.HasPrefix(ch.Aux, "context.Context.Done/") && ch.Args[0] == ctx
}

// capOf is the capacity of a channel which was made.
func (x *Exec) capOf(ch *Term) *Term {
	if n, ok := ch.Obj.(*Term); ok {
		return n
	}
	return x.tt.intc(0)
}

func (c *Checker) handleStream() {
	r := c.run("srpc.Server.HandleStream", ropts{opaque: []string{"srpc.PacketReadWriter.ReadToHandler", "srpc.ServerRPC.HandlePacketData", "srpc.commonRPC.HandleStreamClose", "srpc.ServerRPC.HandleStreamClose", "srpc.NewServerRPC"}, enter: []string{"srpc.PacketReadWriter.ReadPump", "srpc.Server.HandleStream"}})
	ctx, strm := r.param(0), r.param(1)
	for _, p := range c.returns("handle", r) {
		ns := calls(p, "srpc.NewServerRPC")
		if !c.check("handle", r.name, len(ns) == 1 && len(ns[0].Args) == 3, r, p, nil, "%d calls are started", len(ns)) {
			continue
		}
		n := ns[0]
		sub := n.Args[0]
		end, early := false, true
		for _, e := range p.Events {
			if e.isCall("srpc.PacketReadWriter.ReadToHandler") {
				early = false
			}
			if e.Kind == "cancel" && e.Addr == sub {
				end = true
				c.check("handle", r.name, !early, r, p, e, "the context of the call ends before the stream was read")
			}
		}
		c.check("handle", r.name, sub != ctx && sub.derives(ctx) && end, r, p, n, "the context of the call does not end with the stream")
		c.check("handle", r.name, n.Args[1] == r.fieldBySuffix(n.st, r.recv(), "srpc.Invoker"), r, p, n, "the call is not handled by the handler of the server")
		c.check("handle", r.name, r.prwOf(n.st, n.Args[2], strm), r, p, n, "the call does not write to the stream")
		rd := calls(p, "srpc.PacketReadWriter.ReadToHandler")
		if !c.check("handle", r.name, len(rd) == 1 && r.prwOf(rd[0].st, rd[0].Args[0], strm), r, p, nil, "the stream is not read once") {
			continue
		}
		c.check("handle", r.name, r.bound(p, rd[0].Args[1], n.Res[0], "HandlePacketData"), r, p, rd[0], "the packets are not delivered to the call but to %s", rd[0].Args[1])
		k := 0
		for _, e := range p.Events {
			if e.Kind == "call" && e.methodName() == "HandleStreamClose" && e.Idx > rd[0].Idx {
				rv, args := e.target()
				k++
				c.check("handle", r.name, rv != nil && rv.base() == n.Res[0] && len(args) == 1 && args[0] == rd[0].Res[0], r, p, e, "the call does not get the error which ended the stream")
			}
		}
		c.check("handle", r.name, k == 1, r, p, nil, "the end of the stream is delivered %d times", k)
	}
}

// bound decides that a function value is a method of an object, or forwards to it.
func (r *Run) bound(p *Path, fn, obj *Term, method string) bool {
	fn = unwrap(fn)
	if fn == nil {
		return false
	}
	if (fn.Op == "method" || fn.Op == "closure") && fn.Fn != nil && len(fn.Args) == 1 && fn.Args[0].base() == obj && strings.HasPrefix(fn.Fn.Name(), method) {
		return true
	}
	return r.forwards(p.St, fn, obj, method)
}

func ruleHTTP(c *Checker) {
	c.rule("made-of", "the http server serves the given mux, on the given path, with the given websocket options")
	c.rule("path", "a websocket is accepted exactly if no path is set or the path of the request is the one which is set, from that request and with the options; nothing is served if this fails")
	c.rule("session", "an accepted websocket is the accepting side of a session with the context of the request")
	c.rule("streams", "every stream accepted on it is handled once with the server and the context of the request in its own goroutine; the loop ends exactly with an error of accepting")
	c.rule("close", "an accepted websocket is closed on every return")
	r := c.run("srpc.NewHTTPServer")
	var srvTyp types.Type
	for _, p := range c.returns("made-of", r) {
		if r.failed(p.St, p.Ret[1]) == 1 {
			continue
		}
		obj := unwrap(p.St.rep(p.Ret[0]))
		srvTyp = obj.Typ
		got := map[string]bool{}
		r.fieldsOf(p.St, obj, func(n string, t types.Type, v *Term) {
			switch ts := types.TypeString(t, nil); {
			case ts == "string":
				got["path"] = got["path"] || v == r.param(1)
			case strings.HasSuffix(ts, "websocket.AcceptOptions"):
				got["opts"] = got["opts"] || v == r.param(2)
			case strings.HasSuffix(ts, "srpc.Server"):
				inv := r.fieldBySuffix(p.St, v, "srpc.Invoker")
				got["mux"] = inv != nil && (unwrap(inv) == r.param(0) || inv == r.param(0))
			}
		})
		c.check("made-of", r.name, got["path"] && got["opts"] && got["mux"], r, p, nil, "the server does not use what it was given: %v", got)
	}
	if srvTyp == nil {
		c.fail("made-of", "srpc.NewHTTPServer", "", "the server can not be followed")
		return
	}
	r = c.runMethod(srvTyp, "ServeHTTP")
	pathF := c.role(srvTyp, "the path", tyBasic(types.String), "path")
	w, req := r.param(0), r.param(1)
	sv := r.recv()
	for _, p := range r.paths {
		if !c.check("streams", r.name, p.End != "panic", r, p, nil, "the server panics") {
			continue
		}
		st := p.St
		path := r.x.load(st, pathF.addr(r.x, sv), types.Typ[types.String])
		match := st.eval(r.lenZero(path))
		if url := r.fieldAt(st, req, "URL"); match != 1 && url != nil {
			if up := r.fieldAt(st, url, "Path"); up != nil {
				switch st.eval(r.x.eq(path, up, types.Typ[types.String])) {
				case 1:
					match = 1
				case -1:
					if match == -1 {
						match = -2
					}
				}
			}
		}
		ws := calls(p, "github.com/coder/websocket.Accept")
		if match == -2 {
			c.check("path", r.name, len(ws) == 0, r, p, nil, "a request for another path is accepted")
			continue
		}
		if !c.check("path", r.name, match == 1 && len(ws) == 1, r, p, nil, "a request is accepted or refused whatever its path is") {
			continue
		}
		opts := r.fieldBySuffix(ws[0].st, sv, "websocket.AcceptOptions")
		c.check("path", r.name, ws[0].Args[0] == w && ws[0].Args[1] == req && ws[0].Args[2] == opts, r, p, ws[0], "another request or other options are used")
		conn := ws[0].Res[0]
		switch r.failed(st, ws[0].Res[1]) {
		case 1:
			c.check("path", r.name, p.End == "return" && len(r.gos(p)) == 0 && len(sessions(p)) == 0, r, p, nil, "something is served although the websocket was not accepted")
			continue
		case 0:
			c.check("path", r.name, false, r, p, nil, "the error of accepting the websocket is ignored")
			continue
		}
		if p.End == "return" {
			c.check("close", r.name, closesAny(p, conn), r, p, nil, "the websocket is not closed")
		}
		ss := sessions(p)
		if !c.check("session", r.name, len(ss) == 1, r, p, nil, "%d sessions are started", len(ss)) {
			continue
		}
		_, role := sessionOf(st, ss[0].Res[0])
		nc := madeBy(st, ss[0].Args[0], "websocket.NetConn")
		isCtx := func(t *Term) bool {
			for _, e := range calls(p, "net/http.Request.Context") {
				if e.Args[0] == req && t.derives(e.Res[0]) {
					return true
				}
			}
			return false
		}
		c.check("session", r.name, role == -1 && nc != nil && nc.Args[1] == conn && isCtx(nc.Args[0]), r, p, ss[0], "the session is not the accepting side of the websocket with the context of the request")
		as := acceptedIn(p, "AcceptStream")
		switch r.failed(st, ss[0].Res[1]) {
		case 1:
			c.check("session", r.name, p.End == "return" && len(as) == 0, r, p, nil, "streams are accepted without a session")
			continue
		case 0:
			c.check("session", r.name, false, r, p, nil, "the error of the session is ignored")
			continue
		}
		c.check("streams", r.name, len(as) > 0, r, p, nil, "no stream is accepted")
		for _, a := range as {
			s, _ := session(st, a.acc.Args[0])
			early := closedBefore(p, a.acc, conn)
			c.check("close", r.name, early == nil, r, p, early, "the websocket is closed before its streams are accepted")
			c.check("streams", r.name, s == ss[0], r, p, a.acc, "streams of another connection are accepted")
			switch r.failed(st, a.acc.Res[1]) {
			case 1:
				c.check("streams", r.name, !a.loops && len(a.gos()) == 0, r, p, a.acc, "the loop goes on after an error")
				continue
			case 0:
				c.check("streams", r.name, false, r, p, a.acc, "the error of accepting is ignored")
				continue
			}
			c.check("streams", r.name, a.loops, r, p, a.acc, "the loop ends although a stream was accepted")
			c.served("streams", r, a, "srpc.Server.HandleStream", func(e *Event) bool {
				return e.Args[0] == r.fieldBySuffix(e.st, sv, "srpc.Server") && isCtx(e.Args[1]) && unwrap(e.Args[2]) == unwrap(a.acc.Res[0])
			}, nil)
		}
	}
	c.floor("made-of", 1)
	c.floor("path", 4)
	c.floor("session", 2)
	c.floor("streams", 3)
	c.floor("close", 2)
}

// fieldBySuffix reads the field whose type has the suffix.
func (r *Run) fieldBySuffix(st *State, obj *Term, suffix string) *Term {
	var out *Term
	r.fieldsOf(st, obj, func(n string, t types.Type, v *Term) {
		if strings.HasSuffix(types.TypeString(t, nil), suffix) {
			out = v
		}
	})
	return out
}

func init() {
	props["S29"] = ruleMuxedConn
	props["S30"] = ruleAccept
	props["S31"] = ruleHTTP
}

// saidTimeout: the Timeout method of the error said so.
func saidTimeout(st *State, err *Term) bool {
	for f, is := range st.facts {
		if is && f.Op == "res" && f.Ev != nil && f.Ev.methodName() == "Timeout" && len(f.Ev.Args) > 0 && wrapsErr(st, unwrap(f.Ev.Args[0]), err) {
			return true
		}
	}
	return false
}
