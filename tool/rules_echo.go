package main

import (
	"go/types"
	"strings"
)

// ---- the echo service

// echoSent tells if an event sends a message on a stream, and which.
func echoSent(e *Event, strm *Term) (*Term, bool) {
	if e.Kind != "call" || len(e.Args) != 2 || e.Args[0] != strm || e.methodName() != "Send" && e.methodName() != "MsgSend" {
		return nil, false
	}
	return deref(e.Args[1]), true
}

// echoMsg tells if a term is a message, or a copy of it.
func echoOf(st *State, v, msg *Term) bool {
	v = deref(v)
	if same(st, v, msg) {
		return true
	}
	e := madeBy(st, v, ".CloneVT")
	return e != nil && len(e.Args) == 1 && same(st, deref(e.Args[0]), msg)
}

// waits checks that a path never blocks without watching the context, and
// returns the events at which it saw the context end.
func (c *Checker) waits(rule string, r *Run, p *Path, isCtx func(*Term) bool) []*Event {
	var out []*Event
	for _, e := range p.Events {
		switch {
		case e.Kind == "select":
			ok := !e.Block
			for i, k := range e.Cases {
				if !k.Send && k.Chan != nil && strings.HasSuffix(k.Chan.Aux, "context.Context.Done/0") && len(k.Chan.Args) == 1 && isCtx(k.Chan.Args[0]) {
					ok = true
					if e.Pick == i {
						out = append(out, e)
					}
				}
			}
			c.check(rule, r.name, ok, r, p, e, "the path waits without watching the context of the call")
		case e.Kind == "recv" || e.isCall("time.Sleep"):
			ctx := e.Addr != nil && strings.HasSuffix(e.Addr.Aux, "context.Context.Done/0")
			c.check(rule, r.name, ctx && isCtx(e.Addr.Args[0]), r, p, e, "the path waits without watching the context of the call")
			if ctx {
				out = append(out, e)
			}
		}
	}
	return out
}

func ruleEcho(c *Checker) {
	c.rule("echo", "Echo returns the message it is given or a copy of it, and no error")
	c.rule("server-stream", "EchoServerStream sends nothing but the request and does nothing else to the stream; without a failure it sends it five times and returns nil, and an error of sending is returned at once")
	c.rule("context", "between two responses the call waits in a way which ends when the context of the call does; then an error is returned and nothing more is sent, and the timer is stopped on every path")
	c.rule("client-stream", "EchoClientStream receives once and returns what it received")
	c.rule("bidi-stream", "EchoBidiStream first sends its greeting once; then every message received which is not empty is sent back once, before the next is received; the end of the stream ends the call without an error, and a message without a body, an error of receiving and one of sending end it with one")
	c.rule("rpc-stream", "RpcStream handles the stream it is given; every component is served by the mux the server was made with, and without one each is refused with an error")
	c.rule("nothing", "DoNothing returns a message and no error")
	c.rule("mock", "the mock server answers a request with its callback, called once with the context and the message, and with the unimplemented error without one")
	c.rule("register", "the server is registered on the given mux as the implementation of the service, and the error of that is returned")
	p0 := c.load("linux")
	t := c.implOf(p0, "echo.NewEchoServer", 0)
	mux := c.role(t, "the mux of the components", tyNamed(ModPath+"/srpc.Mux"))
	c.ctor("rpc-stream", "echo.NewEchoServer", 0, map[string]int{ModPath + "/srpc.Mux": 0})

	r := c.runMethod(t, "Echo")
	for _, p := range c.returns("echo", r) {
		c.check("echo", r.name, echoOf(p.St, p.Ret[0], r.param(1)), r, p, nil, "%s is returned", p.Ret[0])
		c.check("echo", r.name, r.nilErr(p.St, p.Ret[1]) == 1, r, p, nil, "an error is returned")
	}

	r = c.runMethod(t, "EchoServerStream", ropts{rounds: 12})
	msg, strm := r.param(0), r.param(1)
	full := 0
	for _, p := range r.paths {
		if !c.check("server-stream", r.name, p.End == "return", r, p, nil, "the responses do not end") {
			continue
		}
		n, failed := 0, false
		isCtx := func(v *Term) bool {
			e := v.Ev
			return v.Op == "res" && e != nil && onStream(e, func(a *Term) bool { return a == strm }, "Context")
		}
		gone := c.waits("context", r, p, isCtx)
		last := -1
		for _, e := range streamCalls(p, func(a *Term) bool { return a == strm }) {
			m, ok := echoSent(e, strm)
			if !c.check("server-stream", r.name, ok, r, p, e, "%s is called on the stream", e.methodName()) {
				continue
			}
			c.check("server-stream", r.name, echoOf(e.st, m, msg), r, p, e, "%s is sent", m)
			c.check("server-stream", r.name, !failed, r, p, e, "a message is sent after sending one failed")
			for _, g := range gone {
				c.check("context", r.name, g.Idx > e.Idx, r, p, e, "a message is sent after the context ended")
			}
			if last >= 0 {
				wait := false
				for _, s := range p.Events {
					wait = wait || (s.Kind == "select" && s.Block || s.Kind == "recv") && s.Idx > last && s.Idx < e.Idx
				}
				c.check("context", r.name, wait, r, p, e, "the next message is sent without waiting")
			}
			last = e.Idx
			n++
			switch r.failed(p.St, e.Res[0]) {
			case 1:
				failed = true
				c.check("server-stream", r.name, wrapsErr(p.St, p.Ret[0], e.Res[0]), r, p, e, "the error of sending is not returned")
			case 0:
				failed = true
				c.check("server-stream", r.name, same(p.St, p.Ret[0], e.Res[0]), r, p, e, "the error of sending is ignored")
			}
		}
		switch {
		case failed:
		case len(gone) > 0:
			cause := madeByName(p.St, p.Ret[0], "context.Cause")
			if cause == nil {
				cause = madeByName(p.St, p.Ret[0], "context.Context.Err")
			}
			ended := cause != nil && isCtx(cause.Args[0]) && cause.Idx > gone[0].Idx
			c.check("context", r.name, ended || r.failed(p.St, p.Ret[0]) == 1, r, p, gone[0], "no error is returned although the context ended")
		default:
			c.check("server-stream", r.name, n == 5, r, p, nil, "%d messages are sent", n)
			c.check("server-stream", r.name, r.failed(p.St, p.Ret[0]) == -1, r, p, nil, "an error is returned although nothing failed")
			full++
		}
		for _, e := range p.Events {
			if e.isCall("time.NewTicker", "time.NewTimer") {
				stop := 0
				for _, s := range p.Events {
					if s.Kind == "call" && s.Idx > e.Idx && s.methodName() == "Stop" && len(s.Args) == 1 && s.Args[0] == e.Res[0] {
						stop++
						for _, w := range p.Events {
							if w.Idx > s.Idx && (w.Kind == "recv" || w.Kind == "select" && w.Block) {
								c.check("context", r.name, false, r, p, s, "the timer is stopped and then waited for")
							}
						}
					}
				}
				c.check("context", r.name, stop > 0, r, p, e, "the timer is not stopped")
			}
		}
	}
	c.check("server-stream", r.name, full > 0, r, nil, nil, "no path sends all messages")

	r = c.runMethod(t, "EchoClientStream")
	strm = r.param(0)
	for _, p := range c.returns("client-stream", r) {
		cs := streamCalls(p, func(a *Term) bool { return a == strm })
		if !c.check("client-stream", r.name, len(cs) == 1 && (cs[0].methodName() == "Recv" || cs[0].methodName() == "RecvTo" || cs[0].methodName() == "MsgRecv"), r, p, nil, "not one message is received") {
			continue
		}
		e := cs[0]
		got, err := deref(e.Args[len(e.Args)-1]), e.Res[0]
		if e.methodName() == "Recv" {
			got, err = e.Res[0], e.Res[1]
		}
		c.check("client-stream", r.name, same(p.St, p.Ret[1], err), r, p, e, "the error of receiving is not returned")
		c.check("client-stream", r.name, r.failed(p.St, err) == 1 || echoOf(p.St, p.Ret[0], got), r, p, e, "%s is returned", p.Ret[0])
	}

	r = c.runMethod(t, "EchoBidiStream")
	strm = r.param(0)
	for _, p := range r.paths {
		c.echoBidi(r, p, strm)
	}

	r = c.runMethod(t, "RpcStream", ropts{opaque: []string{"rpcstream.HandleRpcStream"}})
	strm = r.param(0)
	for _, p := range c.returns("rpc-stream", r) {
		hs := calls(p, "rpcstream.HandleRpcStream")
		if !c.check("rpc-stream", r.name, len(hs) == 1 && deref(hs[0].Args[0]) == strm && same(p.St, p.Ret[0], hs[0].Res[0]), r, p, nil, "the stream is not handled once with its result returned") {
			continue
		}
		g := r.runClosure(hs[0].st, hs[0].Args[1])
		c.check("rpc-stream", r.name, len(g) > 0, r, p, hs[0], "the lookup of a component can not be followed")
		for _, q := range g {
			if !c.check("rpc-stream", r.name, q.End == "return", r, q, nil, "the lookup does not return") {
				continue
			}
			m := r.x.load(q.St, mux.addr(r.x, r.recv()), mux.typ)
			none := q.St.eval(r.x.mkEqNil(m))
			gives := q.Ret[0] == m || unwrap(q.St.rep(unwrap(q.Ret[0]))) == unwrap(q.St.rep(unwrap(m)))
			if r.failed(q.St, q.Ret[2]) == 1 {
				c.check("rpc-stream", r.name, none == 1, r, q, nil, "a component is refused although there may be a mux")
				continue
			}
			// a component without an invoker is refused by the one who asks
			c.check("rpc-stream", r.name, r.failed(q.St, q.Ret[2]) == -1 && (gives || none == 1 && q.St.isNil(q.Ret[0])), r, q, nil, "the component is served by %s, with the error %s", q.Ret[0], q.Ret[2])
			c.check("rpc-stream", r.name, q.St.isNil(q.Ret[1]) || q.Ret[1].Fn != nil, r, q, nil, "the release function is %s", q.Ret[1])
		}
	}

	r = c.runMethod(t, "DoNothing")
	for _, p := range c.returns("nothing", r) {
		c.check("nothing", r.name, p.St.eval(r.x.mkEqNil(p.Ret[0])) == -1 && r.nilErr(p.St, p.Ret[1]) == 1, r, p, nil, "%s and the error %s are returned", p.Ret[0], p.Ret[1])
	}

	r = c.runMethod(t, "Register", ropts{opaque: []string{"echo.SRPCRegisterEchoer"}})
	for _, p := range c.returns("register", r) {
		rg := calls(p, "echo.SRPCRegisterEchoer")
		c.check("register", r.name, len(rg) == 1 && rg[0].Args[0] == r.param(0) && deref(rg[0].Args[1]) == r.recv() && same(p.St, p.Ret[0], rg[0].Res[0]), r, p, nil, "the server is not registered once with the result returned")
	}
	c.mockServer(p0)
}

// echoBidi follows a path of the bidirectional echo as a sequence of what it
// does to the stream.
func (c *Checker) echoBidi(r *Run, p *Path, strm *Term) {
	const rule = "bidi-stream"
	if p.End != "return" && p.End != "loop" {
		c.check(rule, r.name, false, r, p, nil, "the path ends with a %s", p.End)
		return
	}
	var ret *Term
	if p.End == "return" {
		ret = p.Ret[0]
	}
	done := false
	// the outcome of a step: true to go on
	step := func(e *Event, err *Term, what string) bool {
		switch r.failed(p.St, err) {
		case 1:
			done = true
			if what == "receiving" {
				eof := r.x.eq(err, r.sentinel("io.EOF"), err.typ())
				known := p.St.eval(eof)
				for f, v := range p.St.facts {
					if known == 0 && strings.HasPrefix(f.Aux, "errors.Is") && len(f.Args) == 2 && same(p.St, f.Args[0], err) && isSentinel(p.St, f.Args[1], "io.EOF") {
						if known = -1; v {
							known = 1
						}
					}
				}
				switch known {
				case 1:
					c.check(rule, r.name, ret != nil && r.failed(p.St, ret) == -1, r, p, e, "the end of the stream ends the call with %s", ret)
					return false
				case 0:
					c.check(rule, r.name, false, r, p, e, "the end of the stream is not told from an error")
					return false
				}
			}
			c.check(rule, r.name, ret != nil && r.failed(p.St, ret) == 1 && wrapsErr(p.St, ret, err), r, p, e, "the error of %s is not returned", what)
			return false
		case 0:
			done = true
			c.check(rule, r.name, false, r, p, e, "the call goes on or ends whether %s failed or not", what)
			return false
		}
		return true
	}
	var got *Term // a message to send back
	state := "greet"
	for _, e := range streamCalls(p, func(a *Term) bool { return a == strm }) {
		if done {
			c.check(rule, r.name, false, r, p, e, "%s is called after the call failed or ended", e.methodName())
			return
		}
		m, send := echoSent(e, strm)
		switch {
		case send && state == "greet":
			b := r.fieldAt(e.st, m, "Body")
			c.check(rule, r.name, freshObj(m) && b != nil && b.isConst() && b.Aux != "" && b.Aux != `""`, r, p, e, "the greeting is %s", m)
			state = "recv"
			step(e, e.Res[0], "sending the greeting")
		case send && state == "send":
			c.check(rule, r.name, echoOf(e.st, m, got), r, p, e, "%s is sent back", m)
			c.check(rule, r.name, e.st.eval(r.lenZero(r.fieldAt(e.st, got, "Body"))) == -1, r, p, e, "a message is sent back whether it is empty or not")
			state = "recv"
			step(e, e.Res[0], "sending")
		case state == "recv" && (e.methodName() == "Recv" || e.methodName() == "RecvTo" || e.methodName() == "MsgRecv"):
			err := e.Res[0]
			if got = deref(e.Args[len(e.Args)-1]); e.methodName() == "Recv" {
				got, err = e.Res[0], e.Res[1]
			} else {
				c.check(rule, r.name, freshObj(got), r, p, e, "the message is received into %s", got)
			}
			state = "send"
			step(e, err, "receiving")
		default:
			c.check(rule, r.name, false, r, p, e, "%s is called where the call should %s", e.methodName(), state)
			return
		}
	}
	switch {
	case done:
	case ret == nil:
		c.check(rule, r.name, state == "recv", r, p, nil, "the next round begins where the call should %s", state)
	case state == "send":
		c.check(rule, r.name, p.St.eval(r.lenZero(r.fieldAt(p.St, got, "Body"))) == 1, r, p, nil, "the message is not sent back although it may have a body")
		c.check(rule, r.name, r.failed(p.St, ret) == 1, r, p, nil, "no error is returned for a message without a body")
	default:
		c.check(rule, r.name, false, r, p, nil, "the call ends where it should %s", state)
	}
}

// ---- the packet writer of the JavaScript build

func rulePushable(c *Checker) {
	c.rule("made-of", "the writer writes to the pushable it was made with")
	c.rule("push", "writing a packet pushes one new Uint8Array to the pushable, of the length of the encoding of the packet, after all of the encoding was copied into it; nil is returned")
	c.rule("errors", "an error of encoding is returned and nothing is pushed")
	c.rule("closed", "once the writer is closed, writing returns an error and pushes nothing; nothing is pushed without a look at it")
	c.rule("end", "the first Close ends the pushable, once, and marks the writer closed in the same atomic step in which it finds it open; later ones do nothing; nil is returned")
	p0 := c.load("js")
	t := c.implOf(p0, "srpc.NewPushablePacketWriter", 0)
	push := c.role(t, "the pushable", tyNamed("syscall/js.Value"))
	closed := c.role(t, "the closed flag", tyNamed("sync/atomic.Bool"))
	js := ropts{cfg: "js"}
	// isPush: the term is the value of the field of the writer
	isPush := func(v *Term) bool {
		if v == nil {
			return false
		}
		if loadOf(push)(v) {
			return true
		}
		if v.Op == "struct" && len(v.Args) > 0 {
			for _, a := range v.Args {
				if a == nil || a.Op != "load" || len(a.Args) == 0 || a.Args[0].Op != "field" || len(a.Args[0].Args) == 0 || !push.is(a.Args[0].Args[0]) {
					return false
				}
			}
			return true
		}
		return false
	}
	// calls of a method of the pushable
	on := func(r *Run, p *Path) []*Event {
		var out []*Event
		for _, e := range p.Events {
			if e.Kind == "call" && strings.HasPrefix(e.Name, "syscall/js.Value.") && len(e.Args) > 0 && isPush(e.Args[0]) {
				out = append(out, e)
			}
		}
		return out
	}
	str := func(v *Term) string {
		if v == nil || !v.isConst() {
			return ""
		}
		return strings.Trim(v.Aux, `"`)
	}
	// vararg i of a call
	vararg := func(r *Run, e *Event, list *Term, i int64) *Term {
		if list == nil || list.Op != "slice" || list.Args[0].Op != "alloc" {
			return nil
		}
		pt, ok := list.Args[0].typ().(*types.Pointer)
		if !ok {
			return nil
		}
		arr, ok := pt.Elem().Underlying().(*types.Array)
		if !ok || i >= arr.Len() {
			return nil
		}
		return deref(r.x.load(e.st, r.x.tt.mk("index", "", types.NewPointer(arr.Elem()), list.Args[0], r.x.tt.intc(i)), arr.Elem()))
	}
	nargs := func(list *Term) int64 {
		if list == nil || list.Op != "slice" || list.Args[0].Op != "alloc" {
			return 0
		}
		if pt, ok := list.Args[0].typ().(*types.Pointer); ok {
			if arr, ok := pt.Elem().Underlying().(*types.Array); ok {
				return arr.Len()
			}
		}
		return 0
	}

	r := c.run("srpc.NewPushablePacketWriter", js)
	for _, p := range c.returns("made-of", r) {
		o := p.St.rep(p.Ret[0])
		v := r.x.load(p.St, push.addr(r.x, o), push.typ)
		c.check("made-of", r.name, o.Op == "alloc" && sameStruct(p.St, v, r.param(0)), r, p, nil, "the writer is made of %s", v)
		f := closed.addr(r.x, o)
		for _, e := range p.Events {
			c.check("made-of", r.name, !(e.Kind == "call" && len(e.Args) > 0 && e.Args[0] == f), r, p, e, "the closed flag is changed")
		}
	}

	r = c.runMethod(t, "WritePacket", js)
	pkt := r.param(0)
	okPaths := 0
	for _, p := range c.returns("push", r) {
		st := p.St
		ev := on(r, p)
		ret := p.Ret[0]
		// a look at the flag
		seen, first := 0, -1
		for _, e := range p.Events {
			if e.Kind == "call" && e.Name == "sync/atomic.Bool.Load" && closed.is(e.Args[0]) {
				if v := st.eval(e.Res[0]); v != 0 && (seen == 0 || v == 1) {
					seen = v
				}
				if first < 0 {
					first = e.Idx
				}
			}
			if e.Kind == "call" && strings.HasPrefix(e.Name, "sync/atomic.Bool.") && e.Name != "sync/atomic.Bool.Load" && closed.is(e.Args[0]) {
				c.check("closed", r.name, false, r, p, e, "writing changes the closed flag")
			}
		}
		if seen == 1 {
			c.check("closed", r.name, len(ev) == 0 && r.failed(st, ret) == 1, r, p, nil, "a closed writer pushes or returns no error")
			continue
		}
		enc := calls(p, "srpc.Packet.MarshalVT")
		bad := false
		for _, e := range enc {
			c.check("push", r.name, deref(e.Args[0]) == pkt, r, p, e, "another packet is encoded")
			switch r.failed(st, e.Res[1]) {
			case 1:
				bad = true
				c.check("errors", r.name, wrapsErr(st, ret, e.Res[1]) && len(ev) == 0, r, p, e, "the error of encoding is not returned, or something is pushed")
			case 0:
				bad = true
				c.check("errors", r.name, false, r, p, e, "the error of encoding is ignored")
			}
		}
		if bad {
			continue
		}
		c.check("closed", r.name, seen == -1, r, p, nil, "a packet is pushed whether the writer is closed or not")
		if !c.check("push", r.name, len(enc) == 1 && len(ev) == 1 && strings.HasSuffix(ev[0].Name, ".Call") && str(ev[0].Args[1]) == "push" && nargs(ev[0].Args[2]) == 1, r, p, nil, "the packet is not pushed once") {
			continue
		}
		okPaths++
		c.check("push", r.name, r.failed(st, ret) == -1, r, p, nil, "an error is returned although the packet was pushed")
		data := enc[0].Res[0]
		a := vararg(r, ev[0], ev[0].Args[2], 0)
		arr := madeByName(st, a, "syscall/js.Value.New")
		if !c.check("push", r.name, arr != nil, r, p, ev[0], "%s is pushed", a) {
			continue
		}
		get := madeByName(st, arr.Args[0], "syscall/js.Value.Get")
		c.check("push", r.name, get != nil && str(get.Args[1]) == "Uint8Array" && madeByName(st, get.Args[0], "syscall/js.Global") != nil, r, p, arr, "what is pushed is not a Uint8Array")
		n := vararg(r, arr, arr.Args[1], 0)
		c.check("push", r.name, nargs(arr.Args[1]) == 1 && n != nil && (n == r.x.length(data) || st.eval(r.x.eq(n, r.x.length(data), types.Typ[types.Int])) == 1), r, p, arr, "the array has the length %s", n)
		cp := calls(p, "syscall/js.CopyBytesToJS")
		c.check("push", r.name, len(cp) == 1 && cp[0].Args[0] == arr.Res[0] && cp[0].Args[1] == data && cp[0].Idx < ev[0].Idx, r, p, ev[0], "the encoding is not copied into the array before it is pushed")
	}
	c.check("push", r.name, okPaths > 0, r, nil, nil, "no packet is pushed")

	r = c.runMethod(t, "Close", js)
	ended := 0
	for _, p := range c.returns("end", r) {
		ev := on(r, p)
		was := 0
		for _, e := range p.Events {
			if e.Kind != "call" || len(e.Args) == 0 || !closed.is(e.Args[0]) {
				continue
			}
			switch {
			case strings.HasSuffix(e.Name, ".Swap") && len(e.Args) == 2 && e.Args[1].isTrue():
				was = p.St.eval(e.Res[0])
			case strings.HasSuffix(e.Name, ".CompareAndSwap") && len(e.Args) == 3 && e.Args[2].isTrue() && !e.Args[1].isTrue():
				was = -p.St.eval(e.Res[0])
			case strings.HasSuffix(e.Name, ".Load"):
				if p.St.eval(e.Res[0]) == 1 {
					was = 1
				}
			default:
				c.check("end", r.name, false, r, p, e, "the flag is changed by %s", e.Name)
			}
		}
		c.check("end", r.name, r.failed(p.St, p.Ret[0]) == -1, r, p, nil, "an error is returned")
		switch was {
		case -1:
			ended++
			c.check("end", r.name, len(ev) == 1 && strings.HasSuffix(ev[0].Name, ".Call") && str(ev[0].Args[1]) == "end" && nargs(ev[0].Args[2]) == 0, r, p, nil, "the first Close does not end the pushable once")
		case 1:
			c.check("end", r.name, len(ev) == 0, r, p, nil, "a later Close uses the pushable")
		default:
			c.check("end", r.name, false, r, p, nil, "the pushable is ended or not whether the writer was closed or not")
		}
	}
	c.check("end", r.name, ended > 0, r, nil, nil, "no path ends the pushable")
}


// madeByName returns the call with the name which produced a value.
func madeByName(st *State, v *Term, name string) *Event {
	if v == nil {
		return nil
	}
	v = unwrap(st.rep(unwrap(v)))
	if v.Op == "res" && v.Ev != nil && v.Ev.Kind == "call" && v.Ev.Name == name {
		return v.Ev
	}
	return nil
}

// sameStruct compares two struct values field by field.
func sameStruct(st *State, a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	if same(st, a, b) {
		return true
	}
	if a.Op != "struct" {
		return false
	}
	for i, v := range a.Args {
		if b.Op == "struct" {
			if i >= len(b.Args) || !same(st, v, b.Args[i]) {
				return false
			}
			continue
		}
		// the fields of one value
		if v == nil || !v.derives(b) {
			return false
		}
	}
	return true
}

func init() {
	props["S57"] = ruleEcho
	props["S58"] = rulePushable
}

// mockServer checks the server of the mock service.
func (c *Checker) mockServer(p0 *Prog) {
	t := p0.NamedType("mock.MockServer")
	if t == nil {
		panic(abort{&Violation{Rule: "anchor", Construct: "mock.MockServer", Msg: "the type mock.MockServer does not exist any more: the property can not be decided"}})
	}
	cb := c.role(t, "the callback", func(u types.Type) bool { _, ok := u.Underlying().(*types.Signature); return ok }, "MockRequestCb")
	r := c.runMethod(t, "MockRequest")
	for _, p := range c.returns("mock", r) {
		var cs []*Event
		for _, e := range p.Events {
			if e.Kind == "call" && e.Recv != nil && loadOf(cb)(e.Recv) {
				cs = append(cs, e)
			}
		}
		f := r.x.load(p.St, cb.addr(r.x, r.recv()), cb.typ)
		if p.St.eval(r.x.mkEqNil(f)) == 1 {
			c.check("mock", r.name, len(cs) == 0 && p.St.isNil(p.Ret[0]) && isSentinel(p.St, p.Ret[1], "srpc.ErrUnimplemented"), r, p, nil, "without a callback %s and %s are returned", p.Ret[0], p.Ret[1])
			continue
		}
		ok := len(cs) == 1 && len(cs[0].Args) == 2 && cs[0].Args[0] == r.param(0) && cs[0].Args[1] == r.param(1)
		c.check("mock", r.name, ok && same(p.St, p.Ret[0], cs[0].Res[0]) && same(p.St, p.Ret[1], cs[0].Res[1]), r, p, nil, "the callback is not called once with the context and the message and its result returned")
	}
	r = c.runMethod(t, "Register", ropts{opaque: []string{"mock.SRPCRegisterMock"}})
	for _, p := range c.returns("register", r) {
		rg := calls(p, ".SRPCRegisterMock")
		c.check("register", r.name, len(rg) == 1 && rg[0].Args[0] == r.param(0) && deref(rg[0].Args[1]) == r.recv() && same(p.St, p.Ret[0], rg[0].Res[0]), r, p, nil, "the server is not registered once with the result returned")
	}
	c.floor("mock", 1)
}
