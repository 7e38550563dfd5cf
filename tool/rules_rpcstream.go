package main

import (
	"go/types"
	"strings"
)

// ---- opening and accepting rpc streams

// sends lists the packets a path sends on a stream.
func sends(p *Path, strm *Term) []*Event {
	var out []*Event
	for _, e := range p.Events {
		if e.Kind == "call" && (e.methodName() == "Send" || e.methodName() == "MsgSend" || e.methodName() == "SendAndClose") && len(e.Args) == 2 && e.Args[0] == strm {
			out = append(out, e)
		}
	}
	return out
}

// recvs lists the packets a path receives from a stream.
func recvs(p *Path, strm *Term) []*Event {
	var out []*Event
	for _, e := range p.Events {
		if e.Kind == "call" && (e.methodName() == "Recv" || e.methodName() == "MsgRecv" || e.methodName() == "RecvTo") && len(e.Args) >= 1 && e.Args[0] == strm {
			out = append(out, e)
		}
	}
	return out
}

// closes counts the calls of Close on a value.
func closes(p *Path, v *Term) []*Event {
	var out []*Event
	for _, e := range p.Events {
		if e.Kind == "call" && e.methodName() == "Close" && len(e.Args) == 1 && e.Args[0] == v {
			out = append(out, e)
		}
	}
	return out
}

// closedEarly is where something is closed before a goroutine of the path was
// started, or before any of them reported its end.
func closedEarly(p *Path, gos []*Event, ch *Term, vs ...*Term) *Event {
	isRecv := func(e *Event) bool {
		return e.Kind == "recv" && e.Addr == ch || e.Kind == "select" && e.Pick >= 0 && !e.Cases[e.Pick].Send && e.Cases[e.Pick].Chan == ch
	}
	for _, v := range vs {
		for _, cl := range closes(p, v) {
			for _, g := range gos {
				if cl.Idx < g.Idx {
					return cl
				}
			}
			before, after := false, false
			for _, e := range p.Events {
				if isRecv(e) {
					before = before || e.Idx < cl.Idx
					after = after || e.Idx > cl.Idx
				}
			}
			if after && !before {
				return cl
			}
		}
	}
	return nil
}

// mentions decides that an error was made with a text (or another value).
func (r *Run) mentions(st *State, err, txt *Term) bool {
	if err == nil || txt == nil {
		return false
	}
	err = st.rep(err)
	var look func(t *Term, d int) bool
	look = func(t *Term, d int) bool {
		if t == nil || d > 6 {
			return false
		}
		if same(st, t, txt) {
			return true
		}
		if t.Op == "slice" && t.Args[0].Op == "alloc" {
			if pt, ok := t.Args[0].typ().(*types.Pointer); ok {
				if arr, ok := pt.Elem().Underlying().(*types.Array); ok && arr.Len() <= 16 {
					for i := int64(0); i < arr.Len(); i++ {
						if look(r.x.load(st, r.x.tt.mk("index", "", types.NewPointer(arr.Elem()), t.Args[0], r.x.tt.intc(i)), arr.Elem()), d+1) {
							return true
						}
					}
				}
			}
		}
		for _, a := range t.Args {
			if look(a, d+1) {
				return true
			}
		}
		if a, ok := t.Obj.([]*Term); ok {
			for _, b := range a {
				if look(b, d+1) {
					return true
				}
			}
		}
		if t.Ev != nil {
			for _, b := range t.Ev.Args {
				if look(b, d+1) {
					return true
				}
			}
		}
		return false
	}
	return look(err, 0)
}

// failed tells if an error result is known to be non-nil (1), nil (-1).
func (r *Run) failed(st *State, err *Term) int { return -st.eval(r.x.mkEqNil(err)) }

var pumpOpaque = []string{"rpcstream.ReadToHandler", "srpc.ServerRPC.HandlePacketData", "srpc.commonRPC.HandleStreamClose", "srpc.ServerRPC.HandleStreamClose"}

// target splits a method call, also one of a bound method, into receiver and arguments.
func (e *Event) target() (*Term, []*Term) {
	if e.Recv != nil && (e.Recv.Op == "method" || e.Recv.Op == "closure") && len(e.Recv.Args) == 1 {
		return e.Recv.Args[0], e.Args
	}
	if len(e.Args) == 0 {
		return nil, nil
	}
	return e.Args[0], e.Args[1:]
}

// pumpGo checks a goroutine which pumps a stream into handlers: it returns the
// data handler, or nil if it does none of that.
func (c *Checker) pumpGo(rule string, r *Run, p *Path, e *Event, strm *Term, isClosed func(q *Path, g, rd *Event) bool, need func(q *Path) bool) *Term {
	var data *Term
	for _, q := range e.Sub {
		rd := calls(q, "rpcstream.ReadToHandler")
		if len(rd) == 0 {
			return nil
		}
		c.check(rule, r.name, len(rd) == 1 && rd[0].Args[0] == strm, r, q, rd[0], "the goroutine reads another stream or reads it twice")
		data = rd[0].Args[1]
		n := 0
		for _, g := range q.Events {
			if g.Kind == "call" && g.Idx > rd[0].Idx && isClosed(q, g, rd[0]) {
				n++
			}
		}
		want := 1
		if !need(q) {
			want = 0
		}
		c.check(rule, r.name, q.End == "return" && n == want, r, q, nil, "the end of the stream is delivered %d times", n)
	}
	return data
}

func ruleOpenRpcStream(c *Checker) {
	c.rule("init", "the call is started once with the context of the caller, and the first packet sent on it names the component; no other packet is sent")
	c.rule("ack", "with waitAck exactly one packet is received after that, and none without")
	c.rule("result", "the stream is returned exactly if every step succeeded and, with waitAck, the packet is an acknowledgment without an error; any other outcome is an error carrying the one which happened, and no stream")
	c.rule("close", "the stream is closed once on every failure after it was opened, and not if it is returned")
	c.rule("pump", "a stream opened for a client is pumped in its own goroutine into the packet handler of the call, and the close handler gets the error it ended with, once; the writer writes to that stream")
	r := c.run("rpcstream.OpenRpcStream")
	ctx, caller, comp, wait := r.param(0), r.param(1), r.param(2), r.param(3)
	for _, p := range c.returns("result", r) {
		st := p.St
		var cs []*Event
		for _, e := range p.Events {
			if e.Kind == "call" && e.Recv == caller {
				cs = append(cs, e)
			}
		}
		if !c.check("init", r.name, len(cs) == 1 && len(cs[0].Args) == 1 && cs[0].Args[0].derives(ctx), r, p, nil, "the call is started %d times, or with another context", len(cs)) {
			continue
		}
		strm, cerr := cs[0].Res[0], cs[0].Res[1]
		ret, rerr := p.Ret[0], p.Ret[1]
		snd, rcv, cl := sends(p, strm), recvs(p, strm), closes(p, strm)
		fail := func(err *Term, what string) {
			c.check("result", r.name, r.failed(st, rerr) == 1 && (wrapsErr(st, rerr, err) || r.mentions(st, rerr, err)), r, p, nil, "%s fails, but its error is not returned", what)
			c.check("result", r.name, st.isNil(ret), r, p, nil, "a stream is returned although %s fails", what)
		}
		switch r.failed(st, cerr) {
		case 1:
			fail(cerr, "starting the call")
			c.check("init", r.name, len(snd) == 0 && len(rcv) == 0, r, p, nil, "a stream which could not be opened is used")
			continue
		case 0:
			c.check("result", r.name, false, r, p, cs[0], "the error of starting the call is ignored")
			continue
		}
		if !c.check("init", r.name, len(snd) == 1, r, p, nil, "%d packets are sent", len(snd)) {
			continue
		}
		kind, in := r.rpcPacket(snd[0].st, snd[0].Args[1])
		ok := kind == "Init" && in != nil && r.fieldAt(snd[0].st, in, "ComponentId") == comp
		c.check("init", r.name, ok, r, p, snd[0], "a packet of kind %q is sent which does not name the component", kind)
		switch r.failed(st, snd[0].Res[0]) {
		case 1:
			fail(snd[0].Res[0], "sending the component id")
			c.check("close", r.name, len(cl) == 1, r, p, nil, "the stream is closed %d times after sending failed", len(cl))
			continue
		case 0:
			c.check("result", r.name, false, r, p, snd[0], "the error of sending is ignored")
			continue
		}
		w := st.eval(wait)
		if w == -1 || len(rcv) == 0 {
			c.check("ack", r.name, w == -1 && len(rcv) == 0, r, p, nil, "%d packets are received although waitAck may have another value", len(rcv))
			c.check("result", r.name, ret == strm && r.failed(st, rerr) == -1, r, p, nil, "the stream is not returned")
			c.check("close", r.name, len(cl) == 0, r, p, nil, "the stream is closed although it is returned")
			continue
		}
		if !c.check("ack", r.name, w == 1 && len(rcv) == 1 && rcv[0].Idx > snd[0].Idx, r, p, rcv[0], "%d packets are received", len(rcv)) {
			continue
		}
		pk, err := rcv[0].Res[0], rcv[0].Res[1]
		switch r.failed(st, err) {
		case 1:
			fail(err, "receiving the acknowledgment")
			c.check("close", r.name, len(cl) == 1, r, p, nil, "the stream is closed %d times after receiving failed", len(cl))
			continue
		case 0:
			c.check("result", r.name, false, r, p, rcv[0], "the error of receiving is ignored")
			continue
		}
		txt, good := r.ackOf(p, pk)
		if good {
			c.check("result", r.name, ret == strm && r.failed(st, rerr) == -1, r, p, nil, "the stream is not returned although it was acknowledged")
			c.check("close", r.name, len(cl) == 0, r, p, nil, "the stream is closed although it is returned")
			continue
		}
		if txt != nil {
			fail(txt, "the remote")
		}
		c.check("result", r.name, r.failed(st, rerr) == 1 && st.isNil(ret), r, p, nil, "a stream is returned which may not be acknowledged")
		c.check("close", r.name, len(cl) == 1, r, p, nil, "the stream is closed %d times without an acknowledgment", len(cl))
	}

	// the open function of a client
	r = c.run("rpcstream.NewRpcStreamOpenStream", ropts{opaque: append([]string{"rpcstream.OpenRpcStream"}, pumpOpaque...), enter: []string{"rpcstream.ReadPump"}})
	for _, p := range c.returns("pump", r) {
		c.openFunc(r, p, p.Ret[0], r.param(0), r.param(1), r.param(2))
	}
	r = c.run("rpcstream.NewRpcStreamClient", ropts{opaque: append([]string{"rpcstream.OpenRpcStream", "srpc.NewClient"}, pumpOpaque...), enter: []string{"rpcstream.ReadPump"}})
	for _, p := range c.returns("pump", r) {
		cs := calls(p, "srpc.NewClient")
		if c.check("pump", r.name, len(cs) == 1 && same(p.St, p.Ret[0], cs[0].Res[0]), r, p, nil, "the result is not a client") {
			c.openFunc(r, p, cs[0].Args[0], r.param(0), r.param(1), r.param(2))
		}
	}
	c.floor("init", 2)
	c.floor("ack", 1)
	c.floor("result", 5)
	c.floor("close", 3)
	c.floor("pump", 5)
}

// openFunc checks a function which opens rpc streams for a client.
func (c *Checker) openFunc(r *Run, p *Path, clo, caller, comp, wait *Term) {
	if clo != nil && clo.Op == "iface" {
		clo = clo.Args[0]
	}
	if !c.check("pump", r.name, clo != nil && clo.Fn != nil && clo.Fn.Signature.Params().Len() == 3, r, p, nil, "the function which opens streams can not be followed") {
		return
	}
	var a []*Term
	for i := 0; i < 3; i++ {
		a = append(a, r.x.tt.mk("param", "open"+itoa(i), clo.Fn.Signature.Params().At(i).Type()))
	}
	qs := r.runClosure(p.St, clo, a...)
	c.check("pump", r.name, len(qs) > 0, r, p, nil, "the function which opens streams can not be followed")
	for _, q := range qs {
		if q.End != "return" {
			continue
		}
		st := q.St
		os := calls(q, "rpcstream.OpenRpcStream")
		if !c.check("pump", r.name, len(os) == 1 && len(os[0].Args) == 4, r, q, nil, "%d streams are opened", len(os)) {
			continue
		}
		o := os[0]
		c.check("pump", r.name, o.Args[0].derives(a[0]) && o.Args[1] == caller && o.Args[2] == comp && o.Args[3] == wait, r, q, o, "the stream is opened for another component or with another context")
		var gos []*Event
		for _, e := range q.Events {
			if e.Kind == "go" {
				gos = append(gos, e)
			}
		}
		switch r.failed(st, o.Res[1]) {
		case 1:
			c.check("pump", r.name, wrapsErr(st, q.Ret[1], o.Res[1]) && st.isNil(q.Ret[0]) && len(gos) == 0, r, q, nil, "the error of opening the stream is not returned")
			continue
		case 0:
			c.check("pump", r.name, false, r, q, o, "the error of opening the stream is ignored")
			continue
		}
		if !c.check("pump", r.name, len(gos) == 1, r, q, nil, "%d goroutines read the stream", len(gos)) {
			continue
		}
		data := c.pumpGo("pump", r, q, gos[0], o.Res[0], func(_ *Path, g, rd *Event) bool {
			return g.Recv == a[2] && len(g.Args) == 1 && g.Args[0] == rd.Res[0]
		}, func(s *Path) bool { return s.St.eval(r.x.mkEqNil(a[2])) != 1 })
		c.check("pump", r.name, data == a[1], r, q, gos[0], "the packets are not delivered to the handler of the call but to %s", data)
		c.check("pump", r.name, r.failed(st, q.Ret[1]) == -1 && r.writerOf(st, q.Ret[0], o.Res[0]), r, q, nil, "the writer does not write to the stream")
	}
}

// writerOf decides that a packet writer was made of a stream.
func (r *Run) writerOf(st *State, w, strm *Term) bool {
	w = st.rep(w)
	if w.Op == "iface" {
		w = w.Args[0]
	}
	if w.Op != "alloc" {
		return false
	}
	ok := false
	r.fieldsOf(st, w, func(n string, t types.Type, v *Term) {
		if v == strm {
			ok = true
		}
	})
	return ok && strings.HasSuffix(typeKeyFull(w.typ()), "rpcstream.RpcStreamWriter")
}

// ackOf decides that a received packet is an acknowledgment without an error;
// otherwise it returns the text of the error, if it has one.
func (r *Run) ackOf(p *Path, pk *Term) (*Term, bool) {
	st := p.St
	if st.isNil(pk) {
		return nil, false
	}
	kind, inner := r.rpcBody(p, pk)
	if kind != "Ack" {
		return nil, false
	}
	ack := r.fieldEarly(p, inner, "Ack")
	if ack == nil {
		return nil, false
	}
	if st.isNil(ack) {
		return nil, true
	}
	txt := r.fieldEarly(p, ack, "Error")
	return txt, txt != nil && st.eval(r.lenZero(txt)) == 1
}

// accept describes a path which handles an incoming rpc stream.
type accept struct {
	c      *Checker
	r      *Run
	p      *Path
	strm   *Term
	get    *Event // lookup of the component
	target *Term
	rel    *Term
	err    *Term // what fails the handshake
	none   bool  // no failure up to here
}

func acceptRules(c *Checker) {
	c.rule("init", "the first thing done with the stream is to receive one packet; only if it names a component is that looked up, once, with the context of the stream")
	c.rule("reject", "a failed receive is returned, and any other first packet is an error; nothing is looked up or sent then")
	c.rule("release", "the release function is called exactly once on every path if there is one, after everything else")
	c.rule("errors", "the handler fails with the error which occurred, or with ErrNoServerForComponent if there is nothing for the component")
}

// begin checks the common part up to the lookup; false: the path ended.
func (a *accept) begin(getter *Term, relIdx, errIdx int) bool {
	c, r, p := a.c, a.r, a.p
	st := p.St
	var first *Event
	var gets []*Event
	for _, e := range p.Events {
		if e.Kind == "call" && len(e.Args) > 0 && e.Args[0] == a.strm && first == nil && e.methodName() != "Context" {
			first = e
		}
		if e.Kind == "call" && e.Recv == getter {
			gets = append(gets, e)
		}
	}
	if !c.check("init", r.name, first != nil && first.methodName() == "Recv", r, p, first, "the stream is not received from first") {
		return false
	}
	rejected := func(what string) {
		c.check("reject", r.name, len(gets) == 0 && len(sends(p, a.strm)) == 0, r, p, first, "%s, but a component is looked up", what)
		c.check("reject", r.name, p.End != "return" || r.retNil(p, 0) == -1, r, p, first, "%s, but no error is returned", what)
	}
	switch r.failed(st, first.Res[1]) {
	case 1:
		rejected("receiving fails")
		c.check("reject", r.name, p.End != "return" || wrapsErr(st, p.Ret[0], first.Res[1]), r, p, first, "the error of receiving is not returned")
		return false
	case 0:
		c.check("reject", r.name, false, r, p, first, "the error of receiving is ignored")
		return false
	}
	kind, inner := r.rpcBody(p, first.Res[0])
	var in *Term
	if kind == "Init" {
		in = r.fieldEarly(p, inner, "Init")
	}
	if in == nil || st.eval(r.x.mkEqNil(in)) != -1 {
		rejected("the first packet may not name a component")
		return false
	}
	if !c.check("init", r.name, len(gets) == 1 && len(gets[0].Args) == 2, r, p, nil, "the component is looked up %d times", len(gets)) {
		return false
	}
	g := gets[0]
	a.get = g
	c.check("init", r.name, g.Args[1] == r.fieldEarly(p, in, "ComponentId"), r, p, g, "another component is looked up: %s", g.Args[1])
	c.check("init", r.name, a.isCtx(g.Args[0]), r, p, g, "the component is looked up with another context")
	a.target, a.rel = g.Res[0], g.Res[relIdx]
	e := g.Res[errIdx]
	switch r.failed(st, e) {
	case 1:
		a.err = e
	case 0:
		c.check("errors", r.name, false, r, p, g, "the error of the lookup is ignored")
		return false
	default:
		switch st.eval(r.x.mkEqNil(a.target)) {
		case 1:
			a.err = r.sentinel("rpcstream.ErrNoServerForComponent")
		case 0:
			c.check("errors", r.name, false, r, p, g, "the component may not exist")
			return false
		default:
			a.none = true
		}
	}
	a.releases()
	return true
}

// isCtx decides that a context is the one of the stream.
func (a *accept) isCtx(t *Term) bool {
	for _, e := range a.p.Events {
		if e.Kind == "call" && e.methodName() == "Context" && len(e.Args) == 1 && e.Args[0] == a.strm && t.derives(e.Res[0]) {
			return true
		}
	}
	return false
}

func (a *accept) releases() {
	c, r, p := a.c, a.r, a.p
	if p.End != "return" {
		return
	}
	var rels []*Event
	last := 0
	for _, e := range p.Events {
		if e.Kind == "call" && e.Recv == a.rel {
			rels = append(rels, e)
		} else if e.Kind == "call" || e.Kind == "go" || e.Kind == "recv" || e.Kind == "select" {
			last = e.Idx
		}
	}
	switch p.St.eval(r.x.mkEqNil(a.rel)) {
	case 1:
		c.check("release", r.name, len(rels) == 0, r, p, nil, "a missing release function is called")
	case -1:
		if c.check("release", r.name, len(rels) == 1, r, p, nil, "the release function is called %d times", len(rels)) {
			c.check("release", r.name, rels[0].Idx > last, r, p, rels[0], "the component is released before it is no longer used")
		}
	default:
		c.check("release", r.name, false, r, p, nil, "the component may not be released")
	}
}

// fails checks that the path returns the error.
func (a *accept) fails(err *Term, what string) {
	c, r, p := a.c, a.r, a.p
	ok := wrapsErr(p.St, p.Ret[0], err)
	if err.Op == "load" && err.base().Op == "global" || !ok && a.err == err && err != a.get.Res[len(a.get.Res)-1] {
		ok = ok || wrapsSentinel(p.St, p.Ret[0], "rpcstream.ErrNoServerForComponent")
	}
	c.check("errors", r.name, ok && r.retNil(p, 0) == -1, r, p, nil, "%s, but %s is returned", what, p.Ret[0])
}

// ack checks that exactly one packet is sent: an acknowledgment with the text
// of the error, or without one.
func (a *accept) ack(err *Term) *Event {
	c, r, p := a.c, a.r, a.p
	snd := sends(p, a.strm)
	if !c.check("ack", r.name, len(snd) == 1, r, p, nil, "%d packets are sent", len(snd)) {
		return nil
	}
	kind, ack := r.rpcPacket(snd[0].st, snd[0].Args[1])
	if !c.check("ack", r.name, kind == "Ack" && ack != nil && snd[0].Idx > a.get.Idx, r, p, snd[0], "a packet of kind %q is sent", kind) {
		return nil
	}
	txt := r.fieldAt(snd[0].st, ack, "Error")
	if err == nil {
		c.check("ack", r.name, p.St.eval(r.lenZero(txt)) == 1, r, p, snd[0], "success is acknowledged with the error %s", txt)
	} else {
		c.check("ack", r.name, isErrText(txt, err) || isErrText(txt, p.St.rep(err)), r, p, snd[0], "the failure is acknowledged with %s", txt)
	}
	return snd[0]
}

func (r *Run) gos(p *Path) []*Event {
	var out []*Event
	for _, e := range p.Events {
		if e.Kind == "go" {
			out = append(out, e)
		}
	}
	return out
}

func ruleHandleRpcStream(c *Checker) {
	acceptRules(c)
	c.rule("ack", "after the lookup exactly one packet is sent: an acknowledgment, with the text of the error if there is nothing to serve the stream")
	c.rule("serve", "the component serves the stream only after a successful acknowledgment was sent: one server call with the component, the context and a writer of the stream, to which everything received is delivered, and the end of the stream with its error")
	c.rule("wait", "the handler returns the outcome of that call after it ended")
	r := c.run("rpcstream.HandleRpcStream", ropts{opaque: append([]string{"srpc.NewServerRPC", "srpc.commonRPC.Wait", "srpc.ServerRPC.Wait"}, pumpOpaque...), enter: []string{"rpcstream.ReadPump"}})
	for _, p := range c.returns("errors", r) {
		a := &accept{c: c, r: r, p: p, strm: r.param(0)}
		if !a.begin(r.param(1), 1, 2) {
			continue
		}
		st := p.St
		ack := a.ack(a.err)
		gos := r.gos(p)
		ns := calls(p, "srpc.NewServerRPC")
		if a.err != nil {
			a.fails(a.err, "there is nothing to serve the stream")
			c.check("serve", r.name, len(gos) == 0 && len(ns) == 0, r, p, nil, "the stream is served although there is nothing to serve it")
			continue
		}
		if ack == nil {
			continue
		}
		switch r.failed(st, ack.Res[0]) {
		case 1:
			a.fails(ack.Res[0], "sending the acknowledgment fails")
			c.check("serve", r.name, len(gos) == 0 && len(ns) == 0, r, p, nil, "the stream is served although the acknowledgment could not be sent")
			continue
		case 0:
			c.check("errors", r.name, false, r, p, ack, "the error of sending the acknowledgment is ignored")
			continue
		}
		if !c.check("serve", r.name, len(ns) == 1 && len(ns[0].Args) == 3 && len(gos) == 1, r, p, nil, "%d calls are made and %d goroutines started", len(ns), len(gos)) {
			continue
		}
		n := ns[0]
		inv := n.Args[1]
		c.check("serve", r.name, a.isCtx(n.Args[0]) && (inv == a.target || inv.Op == "iface" && inv.Args[0] == a.target), r, p, n, "the call has another context or another component")
		c.check("serve", r.name, r.writerOf(n.st, n.Args[2], a.strm), r, p, n, "the call writes to another stream")
		rpc := n.Res[0]
		data := c.pumpGo("serve", r, p, gos[0], a.strm, func(_ *Path, g, rd *Event) bool {
			rv, args := g.target()
			return g.methodName() == "HandleStreamClose" && rv != nil && rv.base() == rpc && len(args) == 1 && args[0] == rd.Res[0]
		}, func(*Path) bool { return true })
		c.check("serve", r.name, data != nil && r.forwards(gos[0].st, data, rpc, "HandlePacketData"), r, p, gos[0], "what is received is not delivered to the call but to %s", data)
		ws := calls(p, ".Wait")
		c.check("wait", r.name, len(ws) == 1 && ws[0].Args[0].base() == rpc && a.isCtx(ws[0].Args[1]) && ws[0].Idx > gos[0].Idx && same(st, p.Ret[0], ws[0].Res[0]), r, p, nil, "the outcome of the call is not waited for and returned")
	}
	c.floor("init", 3)
	c.floor("reject", 2)
	c.floor("release", 2)
	c.floor("errors", 2)
	c.floor("ack", 3)
	c.floor("serve", 3)
	c.floor("wait", 1)
}

// join checks that a path waits for n values of a channel and returns the
// first which is an error other than io.EOF.
type join struct {
	c    *Checker
	r    *Run
	ch   *Term
	rule string
	cnt  map[any]int // loop header and variable -> offset of the count
	n    int64
	ps   []*Path
	chs  []*Term
	more map[any]bool // loop headers which may be reached with n values received
	dry  bool
}

func (j *join) add(p *Path, ch *Term) { j.ps, j.chs = append(j.ps, p), append(j.chs, ch) }

func (j *join) run() {
	j.more = map[any]bool{}
	for _, dry := range []bool{true, false} {
		j.dry = dry
		for i, p := range j.ps {
			j.ch = j.chs[i]
			j.path(p)
		}
	}
}

func (j *join) check(ok bool, p *Path, e *Event, msg string, a ...any) {
	if !j.dry {
		j.c.check(j.rule, j.r.name, ok, j.r, p, e, msg, a...)
	}
}

func (j *join) path(p *Path) {
	r := j.r
	x := r.x
	few := true // less than n values were received
	{
		var pos *Term = x.tt.intc(0)
		out := x.tt.nilc(nil)
		started := false
		for _, e := range p.Events {
			switch {
			case e.Kind == "recv" && e.Addr == j.ch, e.Kind == "select" && e.Pick >= 0 && !e.Cases[e.Pick].Send && e.Cases[e.Pick].Chan == j.ch:
				started = true
				v := e.Res[0]
				j.check(few || r.ge(e.st, x.tt.intc(j.n-1), pos, 0) == 1, p, e, "more than %d copies are waited for", j.n)
				pos = x.tt.mkLin(linPlus(linOf(pos), 1))
				few = r.ge(e.st, x.tt.intc(j.n-1), pos, 0) == 1
				st := p.St
				if st.eval(x.mkEqNil(out)) == -1 {
					break // keep the first
				}
				isNil, eof := st.eval(x.mkEqNil(v)), isErr(r, p, v, "io.EOF")
				switch {
				case isNil == 1 || eof == 1:
				case eof == -1: // nil or an error: it is the result, whichever it is
					if st.eval(x.mkEqNil(out)) == 1 {
						out = v
					} else {
						j.check(false, p, e, "an error may be dropped or replaced")
					}
				default:
					j.check(false, p, e, "an error is ignored")
				}
			case e.Kind == "loop" && started:
				ss := symsOf(e)
				okC, okE := false, false
				var np, no *Term
				for i, s := range ss {
					if i >= len(e.Loop.Next) {
						continue
					}
					nx := e.Loop.Next[i]
					if s.Op == "sym" && s.typ() != nil && types.Identical(s.typ(), types.Typ[types.Int]) {
						if j.countsFrom(p, e, i, pos) {
							okC = true
							np = j.countOf(e, i)
						}
					}
					if same(p.St, nx, out) && !isIntType(s.typ()) {
						okE = true
						no = s
					}
				}
				j.check(okC, p, e, "how many copies ended is not counted")
				if p.St.isNil(out) && !okE {
					okE, no = true, out
				}
				j.check(okE, p, e, "an error is dropped: %s of %s in %s", out, ss, e.Loop.Next)
				if r.ge(e.st, x.tt.intc(j.n-1), pos, 0) != 1 {
					j.more[e.Loop.Header] = true
				}
				few = !j.more[e.Loop.Header]
				if okC {
					pos = np
				}
				if okE {
					out = no
				}
			}
		}
		if p.End != "return" {
			return
		}
		n := x.tt.intc(j.n)
		j.check(r.ge(p.St, pos, n, 0) == 1, p, nil, "%s copies are waited for and not %d", pos, j.n)
		j.check(same(p.St, p.Ret[0], out) || wrapsErr(p.St, p.Ret[0], out) && p.St.provenNonNil(out), p, nil, "%s is returned and not %s", p.Ret[0], out)
	}
}

// countsFrom: the loop variable i, up to a constant, counts the values received.
func (j *join) countsFrom(p *Path, e *Event, i int, pos *Term) bool {
	d := linOf(e.Loop.Next[i]).plus(linOf(pos), -1)
	if len(d.co) != 0 {
		return false
	}
	k := e.Loop.Header
	if j.cnt == nil {
		j.cnt = map[any]int{}
	}
	if v, ok := j.cnt[[2]any{k, i}]; ok {
		return int64(v) == d.k
	}
	j.cnt[[2]any{k, i}] = int(d.k)
	return true
}

func (j *join) countOf(e *Event, i int) *Term {
	return j.r.x.tt.mkLin(linPlus(linOf(symsOf(e)[i]), -int64(j.cnt[[2]any{e.Loop.Header, i}])))
}

// ends finds what a goroutine reports: every path sends exactly one value.
func (c *Checker) reports(rule string, r *Run, e *Event) *Term {
	var ch *Term
	for _, q := range e.Sub {
		if q.End == "loop" {
			continue
		}
		var snd []*Event
		for _, g := range q.Events {
			if g.Kind == "send" {
				snd = append(snd, g)
			}
		}
		if !c.check(rule, r.name, q.End == "return" && len(snd) == 1, r, q, nil, "a copy reports its end %d times", len(snd)) {
			return nil
		}
		if ch != nil && ch != snd[0].Addr {
			c.check(rule, r.name, false, r, q, snd[0], "a copy reports its end elsewhere")
		}
		ch = snd[0].Addr
	}
	return ch
}

func ruleRawStream(c *Checker) {
	acceptRules(c)
	c.rule("ack", "after the lookup exactly one packet is sent by the handler itself: an acknowledgment, with the text of the error if there is nothing to connect to")
	c.rule("copy", "after a successful acknowledgment, one goroutine copies everything from the connection to the stream and one the other way; when one ends, both are closed and its error is reported once")
	c.rule("wait", "the handler returns after both ended, with the first error other than the end of the data")
	c.rule("close", "the connection is closed on every path if there is one")
	r := c.run("rpcstream.HandleRawRpcStream")
	jn := &join{c: c, r: r, rule: "wait", n: 2}
	for _, p := range r.paths {
		if p.End == "panic" {
			c.check("errors", r.name, false, r, p, nil, "the handler panics")
			continue
		}
		var ch *Term
		a := &accept{c: c, r: r, p: p, strm: r.param(0)}
		if !a.begin(r.param(1), 1, 2) {
			continue
		}
		st := p.St
		if p.End == "return" && st.eval(r.x.mkEqNil(a.target)) != 1 {
			c.check("close", r.name, st.eval(r.x.mkEqNil(a.target)) == -1 && len(closes(p, a.target)) > 0, r, p, nil, "the connection is not closed")
		}
		ack := a.ack(a.err)
		gos := r.gos(p)
		if a.err != nil {
			a.fails(a.err, "there is nothing to connect to")
			c.check("copy", r.name, len(gos) == 0, r, p, nil, "data is copied although there is nothing to connect to")
			continue
		}
		if ack == nil {
			continue
		}
		switch r.failed(st, ack.Res[0]) {
		case 1:
			a.fails(ack.Res[0], "sending the acknowledgment fails")
			c.check("copy", r.name, len(gos) == 0, r, p, nil, "data is copied although the acknowledgment could not be sent")
			continue
		case 0:
			c.check("errors", r.name, false, r, p, ack, "the error of sending the acknowledgment is ignored")
			continue
		}
		if !c.check("copy", r.name, len(gos) == 2, r, p, nil, "%d goroutines copy data", len(gos)) {
			continue
		}
		// the two ends
		side := func(v *Term) int {
			v = st.rep(v)
			if v == a.target || v.Op == "iface" && v.Args[0] == a.target {
				return 1
			}
			if v.Op == "iface" {
				v = v.Args[0]
			}
			ok := false
			if v.Op == "alloc" && strings.HasSuffix(typeKeyFull(v.typ()), "rpcstream.RpcStreamReadWriter") {
				r.fieldsOf(gos[0].st, v, func(n string, t types.Type, fv *Term) {
					if fv == a.strm {
						ok = true
					}
				})
			}
			if ok {
				return 2
			}
			return 0
		}
		dirs := map[int]bool{}
		for _, g := range gos {
			c.check("copy", r.name, g.Idx > ack.Idx, r, p, g, "data is copied before the acknowledgment")
			if h := c.reports("copy", r, g); h != nil {
				c.check("copy", r.name, ch == nil || ch == h, r, p, g, "the copies report to different places")
				ch = h
			}
			for _, q := range g.Sub {
				cs := calls(q, "io.CopyBuffer", "io.Copy")
				if !c.check("copy", r.name, len(cs) == 1, r, q, nil, "the data is copied %d times", len(cs)) {
					continue
				}
				to, from := side(cs[0].Args[0]), side(cs[0].Args[1])
				c.check("copy", r.name, to+from == 3, r, q, cs[0], "the data is not copied between the stream and the connection")
				dirs[to] = true
				n := map[int]int{}
				for _, e := range q.Events {
					if e.Kind == "call" && e.methodName() == "Close" && e.Idx < cs[0].Idx {
						c.check("copy", r.name, false, r, q, e, "an end is closed before the data was copied")
					}
					if e.Kind == "call" && e.methodName() == "Close" && e.Idx > cs[0].Idx && len(e.Args) == 1 {
						if e.Name == "rpcstream.RpcStream.Close" || e.Args[0] == a.strm {
							n[2]++
						} else {
							n[side(e.Args[0])]++
						}
					}
					if e.Kind == "send" {
						c.check("copy", r.name, e.Idx > cs[0].Idx && same(q.St, e.Val, cs[0].Res[1]), r, q, e, "the error of the copy is not reported")
					}
				}
				c.check("copy", r.name, n[1] >= 1 && n[2] >= 1, r, q, nil, "not both ends are closed after a copy")
			}
		}
		c.check("copy", r.name, dirs[1] && dirs[2], r, p, nil, "data is not copied in both directions")
		cl := closedEarly(p, gos, ch, a.strm, a.target)
		c.check("close", r.name, cl == nil, r, p, cl, "an end is closed before the copies ended")
		if c.check("wait", r.name, ch != nil, r, p, nil, "the ends of the copies are not reported") {
			jn.add(p, ch)
		}
	}
	jn.run()
	c.floor("init", 3)
	c.floor("reject", 2)
	c.floor("release", 2)
	c.floor("errors", 2)
	c.floor("ack", 3)
	c.floor("copy", 4)
	c.floor("wait", 2)
	c.floor("close", 1)
}

func ruleProxyStream(c *Checker) {
	acceptRules(c)
	c.rule("ack", "if the stream can not be connected exactly one packet is sent: an acknowledgment with the text of the error; otherwise the handler itself sends none, as the one of the remote is passed on")
	c.rule("connect", "the remote call is started once with the context of the stream, and the first packet sent on it is one which names the component the lookup returned; the error of either step is returned and nothing is copied")
	c.rule("copy", "one goroutine copies each direction: every message received is sent unchanged exactly once before the next one is received, unless it is empty; the copy ends with the first error, which it reports once, and ends both streams")
	c.rule("wait", "the handler returns after both copies ended, with the first error other than the end of the stream")
	c.rule("close", "the remote stream is closed on every path if there is one")
	r := c.run("rpcstream.HandleProxyRpcStream")
	jn := &join{c: c, r: r, rule: "wait", n: 2}
	for _, p := range r.paths {
		if p.End == "panic" {
			c.check("errors", r.name, false, r, p, nil, "the handler panics")
			continue
		}
		st := p.St
		a := &accept{c: c, r: r, p: p, strm: r.param(0)}
		if !a.begin(r.param(1), 2, 3) {
			continue
		}
		var cs []*Event
		for _, e := range p.Events {
			if e.Kind == "call" && e.Recv == a.target {
				cs = append(cs, e)
			}
		}
		gos := r.gos(p)
		fail := func(err *Term, what string) {
			a.err = err
			a.fails(err, what)
			a.ack(err)
			c.check("copy", r.name, len(gos) == 0, r, p, nil, "data is copied although %s", what)
		}
		if a.err != nil {
			fail(a.err, "there is nothing for the component")
			c.check("connect", r.name, len(cs) == 0, r, p, nil, "the remote call is started although the lookup failed")
			continue
		}
		if !c.check("connect", r.name, len(cs) == 1 && len(cs[0].Args) == 1 && a.isCtx(cs[0].Args[0]), r, p, nil, "the remote call is started %d times or with another context", len(cs)) {
			continue
		}
		remote, cerr := cs[0].Res[0], cs[0].Res[1]
		has := -st.eval(r.x.mkEqNil(remote))
		if p.End == "return" && has != -1 {
			c.check("close", r.name, (has == 1 || r.failed(st, cerr) == 1) && len(closes(p, remote)) > 0, r, p, nil, "the remote stream is not closed")
		}
		switch r.failed(st, cerr) {
		case 1:
			fail(cerr, "the remote call can not be started")
			continue
		case 0:
			c.check("errors", r.name, false, r, p, cs[0], "the error of the remote call is ignored")
			continue
		}
		if has == -1 {
			fail(r.sentinel("rpcstream.ErrNoServerForComponent"), "there is no remote stream")
			continue
		}
		snd := sends(p, remote)
		if !c.check("connect", r.name, len(snd) == 1, r, p, nil, "%d packets are sent to the remote", len(snd)) {
			continue
		}
		kind, in := r.rpcPacket(snd[0].st, snd[0].Args[1])
		c.check("connect", r.name, kind == "Init" && in != nil && r.fieldAt(snd[0].st, in, "ComponentId") == a.get.Res[1], r, p, snd[0], "a packet of kind %q is sent to the remote which does not name the component of the lookup", kind)
		switch r.failed(st, snd[0].Res[0]) {
		case 1:
			fail(snd[0].Res[0], "the component can not be sent to the remote")
			continue
		case 0:
			c.check("errors", r.name, false, r, p, snd[0], "the error of sending to the remote is ignored")
			continue
		}
		c.check("ack", r.name, len(sends(p, a.strm)) == 0, r, p, nil, "the handler sends an acknowledgment besides the one of the remote")
		if !c.check("copy", r.name, len(gos) == 2, r, p, nil, "%d goroutines copy messages", len(gos)) {
			continue
		}
		var ch *Term
		dirs := map[*Term]bool{}
		for _, g := range gos {
			c.check("copy", r.name, g.Idx > snd[0].Idx, r, p, g, "messages are copied before the component was named")
			if h := c.reports("copy", r, g); h != nil {
				c.check("copy", r.name, ch == nil || ch == h, r, p, g, "the copies report to different places")
				ch = h
			}
			for _, q := range g.Sub {
				if from := c.copyMsgs(r, q, a.strm, remote); from != nil {
					dirs[from] = true
				}
			}
		}
		c.check("copy", r.name, dirs[a.strm] && dirs[remote], r, p, nil, "messages are not copied in both directions")
		cl := closedEarly(p, gos, ch, a.strm, remote)
		c.check("close", r.name, cl == nil, r, p, cl, "a stream is closed before the copies ended")
		if c.check("wait", r.name, ch != nil, r, p, nil, "the ends of the copies are not reported") {
			jn.add(p, ch)
		}
	}
	jn.run()
	c.floor("init", 3)
	c.floor("reject", 2)
	c.floor("release", 2)
	c.floor("errors", 2)
	c.floor("ack", 3)
	c.floor("connect", 2)
	c.floor("copy", 4)
	c.floor("wait", 2)
	c.floor("close", 1)
}

// copyMsgs checks a path of a goroutine which copies messages from one of two
// streams to the other; it returns the source.
func (c *Checker) copyMsgs(r *Run, q *Path, s1, s2 *Term) *Term {
	st := q.St
	rcv := append(recvs(q, s1), recvs(q, s2)...)
	if !c.check("copy", r.name, len(rcv) > 0, r, q, nil, "no message is received") {
		return nil
	}
	from, to := s1, s2
	if rcv[0].Args[0] == s2 {
		from, to = s2, s1
	}
	var cur, curErr *Term
	var failed *Term
	var last *Event
	// content is the content of the message in a state
	content := func(st *State) (data *Term) {
		obj := cur
		if obj.Op == "iface" {
			obj = obj.Args[0]
		}
		if pt, ok := obj.Typ.(*types.Pointer); ok && strings.HasSuffix(typeKeyFull(pt), "srpc.RawMessage") {
			r.fieldsOf(st, obj, func(n string, t types.Type, v *Term) {
				if types.TypeString(t, nil) == "[]byte" {
					data = v
				}
			})
		}
		return
	}
	var got *Term
	flush := func(e *Event) {
		if cur == nil {
			return
		}
		// only an empty message may be skipped
		before := st
		if e != nil && e.st != nil {
			before = e.st
		}
		c.check("copy", r.name, got != nil && before.eval(r.lenZero(got)) == 1, r, q, last, "a received message is dropped")
		cur = nil
	}
	for i, e := range q.Events {
		switch {
		case e.Kind == "loop":
			flush(e)
		case e.Kind == "call" && len(e.Args) > 0 && (e.Args[0] == s1 || e.Args[0] == s2):
			switch e.methodName() {
			case "MsgRecv", "Recv":
				flush(e)
				c.check("copy", r.name, e.Args[0] == from, r, q, e, "the copy receives from both streams")
				c.check("copy", r.name, failed == nil, r, q, e, "the copy goes on after an error")
				last = e
				curErr = e.Res[len(e.Res)-1]
				switch r.failed(st, curErr) {
				case 1:
					failed = curErr
				case 0:
					c.check("copy", r.name, false, r, q, e, "the error of receiving is ignored")
				default:
					cur = e.Res[0]
					if e.methodName() == "MsgRecv" {
						cur = e.Args[1]
					}
					after := st
					if i+1 < len(q.Events) && q.Events[i+1].st != nil {
						after = q.Events[i+1].st
					}
					got = content(after)
				}
			case "MsgSend", "Send":
				c.check("copy", r.name, e.Args[0] == to && cur != nil && e.Args[1] == cur, r, q, e, "something else than the received message is sent")
				if cur != nil && got != nil && e.st != nil {
					c.check("copy", r.name, same(e.st, content(e.st), got), r, q, e, "the message is changed before it is sent")
				}
				cur = nil
				switch r.failed(st, e.Res[0]) {
				case 1:
					failed = e.Res[0]
				case 0:
					c.check("copy", r.name, false, r, q, e, "the error of sending is ignored")
				}
			}
		case e.Kind == "go" && last != nil && last.methodName() == "MsgRecv":
			for _, sub := range e.Sub {
				for _, f := range sub.Events {
					c.check("copy", r.name, f.Kind != "store" || f.Addr.base() != deref(last.Args[1]), r, q, e, "the message is changed by another goroutine")
				}
			}
		case e.Kind == "send":
			c.check("copy", r.name, failed != nil && wrapsErr(q.St, e.Val, failed), r, q, e, "the error which ended the copy is not reported, but %s", e.Val)
		}
	}
	if q.End == "loop" {
		return from
	}
	flush(nil)
	c.check("copy", r.name, failed != nil, r, q, nil, "the copy ends without an error")
	n := 0
	for _, e := range q.Events {
		if e.Kind == "call" && len(e.Args) == 1 && (e.Args[0] == to || e.Args[0] == from) && (e.methodName() == "Close" || e.methodName() == "CloseSend" && e.Args[0] == to) {
			if e.Args[0] == to {
				n++
			}
			c.check("copy", r.name, last == nil || e.Idx > last.Idx, r, q, e, "a stream is ended before the copy")
		}
	}
	c.check("copy", r.name, n > 0 && len(closes(q, from)) > 0, r, q, nil, "not both streams are ended after the copy")
	return from
}

func init() {
	props["S24"] = ruleOpenRpcStream
	props["S25"] = ruleHandleRpcStream
	props["S26"] = ruleRawStream
	props["S27"] = ruleProxyStream
}

// ---- packets over rpc streams

func rulePackets(c *Checker) {
	c.rule("deliver", "the data of every packet received is given to the handler exactly once, unchanged and before the next packet is received; packets without data are skipped")
	c.rule("end", "reading ends only with an error of the stream or of the handler, and returns it")
	c.rule("closed-once", "the pump reads once and gives the error which ended it to the close handler, once")
	c.rule("write", "writing sends the given bytes exactly once, in one data packet, and reports all of them written exactly if sending succeeded; nothing is sent for no bytes")
	c.rule("write-packet", "writing a packet sends exactly its encoding in one data packet, and returns the error of encoding or sending")
	c.rule("half-close", "closing the writer ends the sending side of the stream, and leaves the receiving side open")
	c.rule("made-of", "the writer is for the given stream")
	r := c.run("rpcstream.ReadToHandler")
	strm, cb := r.param(0), r.param(1)
	for _, p := range r.paths {
		st := p.St
		if !c.check("end", r.name, p.End != "panic", r, p, nil, "reading panics") {
			continue
		}
		var data *Term // not delivered yet
		var last *Event
		var fail *Term
		flush := func() {
			if data != nil {
				c.check("deliver", r.name, st.eval(r.lenZero(data)) == 1, r, p, last, "the data of a packet is not delivered")
			}
			data = nil
		}
		for _, e := range p.Events {
			switch {
			case e.Kind == "loop":
				flush()
			case e.Kind == "call" && e.methodName() == "Recv" && len(e.Args) == 1 && e.Args[0] == strm:
				flush()
				c.check("end", r.name, fail == nil, r, p, e, "reading goes on after an error")
				last = e
				switch r.failed(st, e.Res[1]) {
				case 1:
					fail = e.Res[1]
				case 0:
					c.check("end", r.name, false, r, p, e, "the error of receiving is ignored")
				default:
					data = r.dataOf(p, e.Res[0])
				}
			case e.Kind == "call" && e.Recv == cb:
				c.check("deliver", r.name, data != nil && len(e.Args) == 1 && e.Args[0] == data, r, p, e, "the handler is not called with the data of the packet")
				data = nil
				switch r.failed(st, e.Res[0]) {
				case 1:
					fail = e.Res[0]
				case 0:
					c.check("end", r.name, false, r, p, e, "the error of the handler is ignored")
				}
			}
		}
		if p.End == "return" {
			flush()
			c.check("end", r.name, fail != nil && wrapsErr(st, p.Ret[0], fail), r, p, nil, "the reader ends with %s", p.Ret[0])
		}
	}
	c.pump(c.run("rpcstream.ReadPump", ropts{enter: []string{"rpcstream.ReadPump"}}), "ReadToHandler", 2)

	p0 := c.load("linux")
	t := c.implOf(p0, "rpcstream.NewRpcStreamWriter", 0)
	rs := c.role(t, "the stream", tyNamed(ModPath+"/rpcstream.RpcStream"))
	c.rpcWrite("write", c.runMethod(t, "Write"), rs)
	r = c.runMethod(t, "WritePacket")
	for _, p := range c.returns("write-packet", r) {
		st := p.St
		ms := calls(p, ".MarshalVT")
		var snd []*Event
		for _, e := range p.Events {
			if e.onField(rs, "Send") || e.onField(rs, "MsgSend") {
				snd = append(snd, e)
			}
		}
		if !c.check("write-packet", r.name, len(ms) == 1 && ms[0].Args[0] == r.param(0), r, p, nil, "the packet is encoded %d times", len(ms)) {
			continue
		}
		m := ms[0]
		switch r.failed(st, m.Res[1]) {
		case 1:
			c.check("write-packet", r.name, len(snd) == 0 && wrapsErr(st, p.Ret[0], m.Res[1]), r, p, m, "a packet which can not be encoded is sent, or the error is dropped")
			continue
		case 0:
			c.check("write-packet", r.name, false, r, p, m, "the error of encoding is ignored")
			continue
		}
		if len(snd) == 0 {
			c.check("write-packet", r.name, st.eval(r.lenZero(m.Res[0])) == 1 && r.retNil(p, 0) == 1, r, p, nil, "the packet is not sent")
			continue
		}
		if !c.check("write-packet", r.name, len(snd) == 1, r, p, nil, "the packet is sent %d times", len(snd)) {
			continue
		}
		kind, v := r.rpcPacket(snd[0].st, snd[0].Args[1])
		c.check("write-packet", r.name, kind == "Data" && v == m.Res[0], r, p, snd[0], "a packet of kind %q with %s is sent", kind, v)
		switch r.failed(st, snd[0].Res[0]) {
		case 1:
			c.check("write-packet", r.name, wrapsErr(st, p.Ret[0], snd[0].Res[0]), r, p, nil, "the error of sending is not returned")
		case -1:
			c.check("write-packet", r.name, r.retNil(p, 0) == 1, r, p, nil, "a sent packet is reported as failed")
		default:
			c.check("write-packet", r.name, same(st, p.Ret[0], snd[0].Res[0]), r, p, nil, "the error of sending is ignored")
		}
	}
	c.transparentClose("half-close", c.runMethod(t, "Close"), rs, "CloseSend")
	c.ctor("made-of", "rpcstream.NewRpcStreamWriter", 0, map[string]int{ModPath + "/rpcstream.RpcStream": 0})
	c.floor("deliver", 1)
	c.floor("end", 1)
	c.floor("closed-once", 1)
	c.floor("write", 1)
	c.floor("write-packet", 1)
	c.floor("half-close", 1)
	c.floor("made-of", 1)
}

// dataOf is the data of a received packet: nil if it is known to carry none.
func (r *Run) dataOf(p *Path, pk *Term) *Term {
	if p.St.isNil(pk) {
		return nil
	}
	kind, inner := r.rpcBody(p, pk)
	switch kind {
	case "Data":
		if d := r.fieldEarly(p, inner, "Data"); d != nil {
			return d
		}
	case "Ack", "Init", "nil", "other", "nodata":
		return nil
	}
	return pk // not looked at
}

func init() { props["S28"] = rulePackets }
