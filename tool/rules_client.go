package main

import (
	"go/token"
	"go/types"
	"strings"
)

// ---- helpers shared by the rules

// split visits the completions of a state in which every atom is decided.
func (r *Run) split(st *State, atoms []*Term, f func(st *State, vals []bool)) {
	vals := make([]bool, len(atoms))
	var rec func(st *State, i int)
	rec = func(st *State, i int) {
		if i == len(atoms) {
			f(st, vals)
			return
		}
		switch st.eval(atoms[i]) {
		case 1:
			vals[i] = true
			rec(st, i+1)
		case -1:
			vals[i] = false
			rec(st, i+1)
		default:
			for _, b := range []bool{true, false} {
				s2 := st.clone()
				s2.assume(atoms[i], b)
				vals[i] = b
				rec(s2, i+1)
			}
		}
	}
	rec(st, 0)
}

// agree decides that v equals f for every value of the atoms.
func (r *Run) agree(st *State, v *Term, atoms []*Term, f func(v []bool) bool) bool {
	if v == nil {
		return false
	}
	ok := true
	r.split(st, atoms, func(s2 *State, vals []bool) {
		want := -1
		if f(vals) {
			want = 1
		}
		if s2.eval(v) != want {
			ok = false
		}
	})
	return ok
}

// same reports if two terms denote the same value on the path.
func same(st *State, a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	if a == b || st.rep(a) == st.rep(b) {
		return true
	}
	return st.isNil(a) && st.isNil(b)
}

// sameBytes is like same, but all empty slices are alike.
func (r *Run) sameBytes(st *State, a, b *Term) bool {
	return same(st, a, b) || a != nil && b != nil && st.eval(r.lenZero(a)) == 1 && st.eval(r.lenZero(b)) == 1
}

// calls lists the calls of a path to a function or method (by full name or by
// ".Method").
func calls(p *Path, names ...string) []*Event {
	var out []*Event
	for _, e := range p.Events {
		if e.Kind != "call" {
			continue
		}
		for _, n := range names {
			if e.Name == n || strings.HasPrefix(n, ".") && strings.HasSuffix(e.Name, n) {
				out = append(out, e)
				break
			}
		}
	}
	return out
}

// returns lists the paths which return; a panic is a violation of the rule.
func (c *Checker) returns(rule string, r *Run) []*Path {
	var out []*Path
	for _, p := range r.paths {
		switch p.End {
		case "return":
			out = append(out, p)
		case "panic":
			c.check(rule, r.name, false, r, p, nil, "the path ends with a panic")
		}
	}
	return out
}

// runClosure enumerates the paths of a function value in the state of an event.
func (r *Run) runClosure(st *State, clo *Term, args ...*Term) []*Path {
	if clo == nil || clo.Fn == nil || clo.Op != "closure" && clo.Op != "func" || len(clo.Fn.Blocks) == 0 {
		return nil
	}
	for i := len(args); i < clo.Fn.Signature.Params().Len(); i++ {
		v := clo.Fn.Signature.Params().At(i)
		args = append(args, r.x.tt.mk("param", "c"+itoa(i)+"/"+v.Name(), v.Type()))
	}
	s2 := st.clone()
	s2.evs, s2.locks, s2.recs = nil, nil, nil
	var out []*Path
	r.x.callFn(s2, nil, clo.Fn, args, clo.Args, token.NoPos, func(s3 *State, res []*Term, end string) {
		if end == "" {
			end = "return"
		}
		out = append(out, &Path{Events: s3.events(), Ret: res, End: end, St: s3, Root: FnName(clo.Fn)})
	})
	return out
}

// forwards decides that a function value calls the method of obj once with its
// own argument and returns its result.
func (r *Run) forwards(st *State, clo *Term, obj *Term, method string) bool {
	arg := r.x.tt.mk("param", "fw/arg", nil)
	if clo == nil || clo.Fn == nil {
		return false
	}
	if n := clo.Fn.Signature.Params().Len(); n != 1 {
		return false
	}
	arg = r.x.tt.mk("param", "fw/"+method, clo.Fn.Signature.Params().At(0).Type())
	ps := r.runClosure(st, clo, arg)
	for _, p := range ps {
		cs := calls(p, "."+method)
		if p.End != "return" || len(cs) != 1 || len(cs[0].Args) != 2 || cs[0].Args[0].base() != obj || cs[0].Args[1] != arg {
			return false
		}
		if len(p.Ret) > 0 && (len(cs[0].Res) != 1 || !same(p.St, p.Ret[0], cs[0].Res[0])) {
			return false
		}
		for _, e := range p.Events {
			if e.Kind == "call" && e != cs[0] && !readOnly(e.Name) {
				return false
			}
		}
	}
	return len(ps) > 0
}

// structVal finds the fields of the struct behind a pointer by type.
func (r *Run) fieldsOf(st *State, obj *Term, f func(name string, t types.Type, v *Term)) bool {
	pt, ok := obj.typ().(*types.Pointer)
	if !ok {
		return false
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		f(s.Field(i).Name(), s.Field(i).Type(), r.fieldAt(st, obj, s.Field(i).Name()))
	}
	return true
}

// wrapsErr reports if the error carries the other one: itself or a wrapper.
func wrapsErr(st *State, v, err *Term) bool {
	for d := 0; v != nil && d < 6; d++ {
		if same(st, v, err) {
			return true
		}
		v = st.rep(v)
		a, ok := v.Obj.([]*Term)
		if !ok || len(a) == 0 {
			return false
		}
		n := strings.SplitN(v.Aux, "#", 2)[0]
		if !wrapErrs[n] && !strings.HasSuffix(n, "fmt.Errorf") {
			return false
		}
		v = a[0]
	}
	return false
}

func wrapsSentinel(st *State, v *Term, name string) bool {
	for d := 0; v != nil && d < 6; d++ {
		if isSentinel(st, v, name) {
			return true
		}
		v = st.rep(v)
		a, ok := v.Obj.([]*Term)
		if !ok || len(a) == 0 || !wrapErrs[strings.SplitN(v.Aux, "#", 2)[0]] {
			return false
		}
		v = a[0]
	}
	return false
}

// ---- outgoing packets

func ruleOutgoing(c *Checker) {
	c.rule("data", "WriteCallData writes exactly one data packet to the writer of the call, with the bytes given, complete exactly if it is asked to complete or given an error, with the text of that error or none, and marked as an empty message exactly if the bytes are empty and the packet does not complete the call")
	c.rule("cancel", "WriteCallCancel writes exactly one cancel packet whose flag is set to the writer of the call")
	c.rule("start", "Start writes exactly one start packet with the ids of the call and the first message, marked as empty exactly if there is a first message and it is empty")
	c.rule("start-order", "the writer of the call is set when the start packet is written")
	c.rule("start-fails", "Start without a writer, or on a canceled call, writes nothing and fails; a start packet which can not be written is reported, and in the last two cases the writer is closed and the context of the call canceled")
	c.rule("result", "the result of writing the packet is returned")
	for _, s := range bothRPC(c) {
		r := c.run(s.short + ".WriteCallData")
		for _, p := range c.returns("data", r) {
			ws := s.writes(r, p, r.recv())
			if !c.check("data", r.name, len(ws) == 1, r, p, nil, "%d packets are written", len(ws)) {
				continue
			}
			w := ws[0]
			k := r.packet(w.st, w.Args[1])
			if !c.check("data", r.name, k != nil && k.kind == "CallData", r, p, w, "the packet is not a data packet") {
				continue
			}
			data, compl, err := r.param(0), r.param(1), r.param(2)
			atoms := []*Term{r.lenZero(data), compl, r.x.mkEqNil(err)}
			st := p.St
			c.check("data", r.name, r.sameBytes(st, k.f["Data"], data), r, p, w, "the packet carries %s", k.f["Data"])
			c.check("data", r.name, r.agree(st, k.f["Complete"], atoms, func(v []bool) bool { return v[1] || !v[2] }), r, p, w, "the completion flag %s does not tell what was asked for", k.f["Complete"])
			c.check("data", r.name, r.agree(st, k.f["DataIsZero"], atoms, func(v []bool) bool { return v[0] && !v[1] && v[2] }), r, p, w, "the empty message flag is %s", k.f["DataIsZero"])
			txt := k.f["Error"]
			switch st.eval(r.x.mkEqNil(err)) {
			case 1:
				c.check("data", r.name, st.eval(r.lenZero(txt)) == 1, r, p, w, "an error text is sent although there is no error")
			case -1:
				c.check("data", r.name, isErrText(txt, err), r, p, w, "the error text is %s", txt)
			default:
				c.check("data", r.name, false, r, p, w, "the error text does not depend on the error")
			}
			c.check("result", r.name, same(st, p.Ret[0], w.Res[0]), r, p, nil, "the result is not that of the writer")
		}
		r = c.run(s.short + ".WriteCallCancel")
		for _, p := range c.returns("cancel", r) {
			ws := s.writes(r, p, r.recv())
			if !c.check("cancel", r.name, len(ws) == 1, r, p, nil, "%d packets are written", len(ws)) {
				continue
			}
			k := r.packet(ws[0].st, ws[0].Args[1])
			c.check("cancel", r.name, k != nil && k.kind == "CallCancel" && p.St.eval(k.f["inner"]) == 1, r, p, ws[0], "the packet is not a cancel packet")
			c.check("result", r.name, same(p.St, p.Ret[0], ws[0].Res[0]), r, p, nil, "the result is not that of the writer")
		}
	}
	s := c.rpc("srpc.ClientRPC")
	r := c.run("srpc.ClientRPC.Start")
	w, first, data := r.param(0), r.param(1), r.param(2)
	for _, p := range c.returns("start", r) {
		st := p.St
		var ws, closes []*Event
		cancels := false
		var stored *Event
		for _, e := range p.Events {
			if e.Kind == "call" && len(e.Args) > 0 && (e.Args[0] == w || s.isWriter(r, e.st, e.Args[0], r.recv())) {
				switch e.methodName() {
				case "WritePacket":
					ws = append(ws, e)
				case "Close":
					closes = append(closes, e)
				}
			}
			if s.isCancel(r, e, r.recv()) {
				cancels = true
			}
			if e.Kind == "store" && s.writer.is(e.Addr) && e.Addr.base() == r.recv() {
				c.check("start-order", r.name, e.Val == w, r, p, e, "the writer becomes %s", e.Val)
				if stored == nil {
					stored = e
				}
			}
		}
		canceled := c.ctxCanceled(s, r, p)
		switch {
		case st.isNil(w):
			c.check("start-fails", r.name+" nil writer", r.retNil(p, 0) == -1 && len(ws) == 0, r, p, nil, "a call without a writer starts")
		case canceled == 1 && len(ws) == 0:
			c.check("start-fails", r.name+" canceled", r.retNil(p, 0) == -1, r, p, nil, "a canceled call starts")
			c.check("start-fails", r.name+" canceled", len(closes) > 0 && cancels, r, p, nil, "the stream of a canceled call is left open")
		default:
			c.check("start-fails", r.name+" canceled", canceled == -1, r, p, nil, "the call starts although it may be canceled already")
			if !c.check("start", r.name, len(ws) == 1, r, p, nil, "%d packets are written", len(ws)) {
				continue
			}
			e := ws[0]
			c.check("start-fails", r.name+" nil writer", e.st.eval(r.x.mkEqNil(w)) == -1, r, p, e, "the writer may be nil")
			c.check("start-order", r.name, stored != nil && stored.Idx < e.Idx, r, p, e, "the start packet is written before the call knows its writer")
			k := r.packet(e.st, e.Args[1])
			if !c.check("start", r.name, k != nil && k.kind == "CallStart", r, p, e, "the packet is not a start packet") {
				continue
			}
			c.check("start", r.name, s.isField(s.service, r, k.f["RpcService"]) && s.isField(s.method, r, k.f["RpcMethod"]), r, p, e, "the ids are %s and %s", k.f["RpcService"], k.f["RpcMethod"])
			dataOK := true
			r.split(st, []*Term{first}, func(s2 *State, v []bool) {
				if !r.sameBytes(s2, k.f["Data"], data) && (v[0] || s2.eval(r.lenZero(k.f["Data"])) != 1) {
					dataOK = false
				}
			})
			c.check("start", r.name, dataOK, r, p, e, "the packet carries %s", k.f["Data"])
			c.check("start", r.name, r.agree(st, k.f["DataIsZero"], []*Term{first, r.lenZero(data)}, func(v []bool) bool { return v[0] && v[1] }), r, p, e, "the empty message flag is %s", k.f["DataIsZero"])
			c.check("result", r.name, same(st, p.Ret[0], e.Res[0]), r, p, nil, "the result is not that of the writer")
			switch st.eval(r.x.mkEqNil(e.Res[0])) {
			case -1:
				c.check("start-fails", r.name+" write error", cancels && len(closes) > 0, r, p, nil, "the stream is left open although the start packet was not written")
			case 1:
				c.check("start", r.name, !cancels && len(closes) == 0, r, p, nil, "a started call is closed")
			default:
				c.check("start-fails", r.name+" write error", false, r, p, nil, "the result of the writer is ignored")
			}
		}
	}
	c.floor("data", 10)
	c.floor("cancel", 2)
	c.floor("start", 5)
	c.floor("start-fails", 5)
}

// isField reports a read of a field of the receiver.
func (s *rpcState) isField(ro *Role, r *Run, v *Term) bool {
	return v != nil && v.Op == "load" && v.Args[0] == ro.addr(r.x, r.recv())
}

// ctxCanceled tells what the path knows about the context of the call: 1 it was
// seen canceled, -1 it was seen live, 0 it was not looked at.
func (c *Checker) ctxCanceled(s *rpcState, r *Run, p *Path) int {
	return ctxSeen(r, p, func(cx *Term) bool { return cx.Op == "load" && s.ctx.is(cx.Args[0]) || c.isCallCtx(s, cx) })
}

func (c *Checker) isCallCtx(s *rpcState, cx *Term) bool {
	return cx.Op == "res" && cx.Ev != nil && strings.HasSuffix(cx.Ev.Name, "RPC.Context")
}

func ctxSeen(r *Run, p *Path, is func(*Term) bool) int {
	out := 0
	for _, e := range p.Events {
		switch {
		case e.Kind == "call" && e.Name == "context.Context.Err" && is(e.Args[0]):
			switch p.St.eval(r.x.mkEqNil(e.Res[0])) {
			case -1:
				return 1
			case 1:
				out = -1
			}
		case e.Kind == "select":
			for i, cs := range e.Cases {
				if ch := cs.Chan; !cs.Send && ch.Op == "pure" && strings.HasPrefix(ch.Aux, "context.Context.Done/") && is(ch.Args[0]) {
					if e.Pick == i {
						return 1
					}
					if !e.Block && e.Pick < 0 {
						out = -1
					}
				}
			}
		}
	}
	return out
}

// ---- unary calls and streams of the client

var clientOpaque = []string{"srpc.ClientRPC.Start", "srpc.ClientRPC.ReadOne", "srpc.commonRPC.ReadOne", "srpc.ClientRPC.Close",
	"srpc.ClientRPC.HandlePacketData", "srpc.ClientRPC.HandleStreamClose", "srpc.commonRPC.HandleStreamClose", "srpc.ClientRPC.Wait", "srpc.commonRPC.Wait"}

// clientCall describes the common part of the paths of ExecCall and NewStream.
type clientCall struct {
	r                *Run
	p                *Path
	marshal          *Event
	open             *Event
	start            *Event
	rpc              *Term
	ctx              *Term // context of the call
	canceled, closed bool
	writer           *Term
	data             *Term
	ended            *Event // the first cancel or close of the call
}

func (c *Checker) clientCall(r *Run, p *Path, in *Term, openRole *Role) *clientCall {
	k := &clientCall{r: r, p: p}
	for _, e := range p.Events {
		switch {
		case e.Kind == "call" && e.methodName() == "MarshalVT" && len(e.Args) == 1 && e.Args[0] == in:
			k.marshal = e
			k.data = e.Res[0]
		case e.Kind == "wcancel" && k.ctx == nil:
			k.ctx = e.Res[0]
		case e.Kind == "call" && e.Recv != nil && e.Recv.Op == "load" && openRole.is(e.Recv.Args[0]):
			c.check("open", r.name, k.open == nil, r, p, e, "a second stream is opened")
			k.open = e
			if len(e.Res) == 2 {
				k.writer = e.Res[0]
			}
		case e.Kind == "call" && e.methodName() == "Start":
			c.check("open", r.name, k.start == nil, r, p, e, "the call is started twice")
			k.start = e
			k.rpc = e.Args[0]
		case e.Kind == "cancel" && e.Addr == k.ctx:
			k.canceled = true
			if k.ended == nil {
				k.ended = e
			}
		case e.Kind == "call" && e.methodName() == "Close" && len(e.Args) == 1 && (e.Args[0] == k.rpc || FnNameOf(e) == "srpc.ClientRPC.Close"):
			k.closed = true
			if k.ended == nil {
				k.ended = e
			}
		}
	}
	return k
}

func FnNameOf(e *Event) string { return e.Name }

// common checks what a unary call and a stream have in common; false: the path
// ended before the call was started.
func (k *clientCall) common(c *Checker, s *rpcState, service, method, ctx *Term, unary bool) bool {
	r, p := k.r, k.p
	st := p.St
	fails := func(e *Event, i int, what string) bool {
		switch st.eval(r.x.mkEqNil(e.Res[i])) {
		case -1:
			c.check("errors", r.name+" "+what, wrapsErr(st, p.Ret[len(p.Ret)-1], e.Res[i]), r, p, nil, "the error of %s is not returned", what)
			return true
		case 0:
			c.check("errors", r.name+" "+what, false, r, p, e, "the error of %s is ignored", what)
			return true
		}
		return false
	}
	if k.marshal != nil && fails(k.marshal, 1, "encoding the request") {
		c.check("errors", r.name+" encoding the request", k.open == nil, r, p, nil, "a stream is opened for a request which can not be encoded")
		c.check("release", r.name, k.ctx == nil || k.canceled || k.closed, r, p, nil, "the context of the call is not released after the request could not be encoded")
		return false
	}
	if !c.check("open", r.name, k.open != nil && k.writer != nil && len(k.open.Args) == 3, r, p, nil, "no stream is opened") {
		return false
	}
	if k.marshal != nil {
		c.check("open", r.name, k.marshal.Idx < k.open.Idx, r, p, k.open, "the stream is opened before the request was encoded")
	}
	c.check("context", r.name, k.ctx != nil && k.ctx.derives(ctx), r, p, k.open, "the context of the call is not derived from the one of the caller")
	c.check("context", r.name, k.open.Args[0] == ctx || k.open.Args[0] == k.ctx, r, p, k.open, "the stream is opened with another context")
	if fails(k.open, 1, "opening the stream") {
		c.check("release", r.name, k.canceled || k.closed, r, p, nil, "the context of the call is not released after the stream could not be opened")
		c.check("errors", r.name+" opening the stream", k.start == nil, r, p, nil, "the call is started although there is no stream")
		return false
	}
	if !c.check("start", r.name, k.start != nil && len(k.start.Args) == 4 && k.start.Idx > k.open.Idx, r, p, nil, "the call is not started") {
		return false
	}
	e := k.start
	c.check("start", r.name, k.ended == nil || k.ended.Idx > e.Idx, r, p, k.ended, "the call is ended before it was started")
	for i, h := range []string{"HandlePacketData", "HandleStreamClose"} {
		c.check("handlers", r.name+" "+h, r.forwards(k.open.st, k.open.Args[1+i], k.rpc, h), r, p, k.open, "the stream does not deliver to %s of the call", h)
	}
	c.check("start", r.name, e.Args[1] == k.writer, r, p, e, "the call is started with another writer than the one of its stream")
	ld := func(ro *Role) *Term { return r.x.load(k.open.st, ro.addr(r.x, k.rpc), ro.typ) }
	c.check("start", r.name, ld(s.service) == service && ld(s.method) == method, r, p, e, "the call has the ids %s and %s", ld(s.service), ld(s.method))
	c.check("context", r.name, ld(s.ctx) == k.ctx, r, p, e, "the call has another context")
	if fails(e, 0, "starting the call") {
		c.check("release", r.name, k.canceled || k.closed, r, p, nil, "the context of the call is not released after it could not be started")
		return false
	}
	return true
}

// derives reports if the context is the other one or made from it.
func (t *Term) derives(from *Term) bool {
	for d := 0; t != nil && d < 8; d++ {
		if t == from {
			return true
		}
		a, ok := t.Obj.([]*Term)
		if !ok || len(a) == 0 {
			return false
		}
		t = a[0]
	}
	return false
}

func clientRules(c *Checker) {
	c.rule("open", "the request is encoded first, then exactly one stream is opened")
	c.rule("context", "the call runs under a context derived from the one of the caller")
	c.rule("handlers", "the stream is opened with handlers which deliver every packet and the end of the stream to the call")
	c.rule("start", "the call is started once, with the ids and the writer of its stream, and with the encoded request as first message exactly if there is one")
	c.rule("errors", "the error of every step is returned and ends the operation")
	c.rule("release", "the context of the call is released on every failure")
}

func openStreamRole(c *Checker, t types.Type) *Role {
	return c.role(t, "the function which opens streams", func(u types.Type) bool {
		sg, ok := u.Underlying().(*types.Signature)
		return ok && sg.Params().Len() == 3 && sg.Results().Len() == 2 && tyNamed("context.Context")(sg.Params().At(0).Type()) && tyNamed(tPacketWriter)(sg.Results().At(0).Type())
	}, "openStream")
}

func ruleExecCall(c *Checker) {
	clientRules(c)
	c.rule("response", "the response is the first message read from the call; a failed read is returned as it is, and a message which can not be decoded is reported as an invalid message")
	c.rule("success", "success is reported only after the response was decoded into the message of the caller")
	c.rule("close", "the call is closed on every path once it exists")
	p0 := c.load("linux")
	t := c.implOf(p0, "srpc.NewClient", 0)
	r := c.runMethod(t, "ExecCall", ropts{opaque: clientOpaque})
	s := c.rpc("srpc.ClientRPC")
	ctx, service, method, in, out := r.param(0), r.param(1), r.param(2), r.param(3), r.param(4)
	op := openStreamRole(c, t)
	for _, p := range c.returns("errors", r) {
		k := c.clientCall(r, p, in, op)
		st := p.St
		if !c.check("open", r.name, k.marshal != nil, r, p, nil, "the request is not encoded") {
			continue
		}
		ok := k.common(c, s, service, method, ctx, true)
		if k.start != nil {
			c.check("start", r.name, st.eval(k.start.Args[2]) == 1 && k.start.Args[3] == k.data, r, p, k.start, "the request is not sent as the first message")
			c.check("close", r.name, k.closed, r, p, nil, "the call is not closed")
		}
		ret := p.Ret[0]
		if !ok {
			c.check("success", r.name, r.retNil(p, 0) == -1, r, p, nil, "success is reported for a call which was not made")
			continue
		}
		rs := calls(p, ".ReadOne")
		if !c.check("response", r.name, len(rs) == 1 && rs[0].Args[0].base() == k.rpc, r, p, nil, "%d messages are read", len(rs)) {
			continue
		}
		rd := rs[0]
		c.check("response", r.name, rd.Idx > k.start.Idx, r, p, rd, "the response is read before the call was started")
		c.check("close", r.name, k.ended == nil || k.ended.Idx > rd.Idx, r, p, k.ended, "the call is ended before the response was read")
		un := calls(p, ".UnmarshalVT")
		switch st.eval(r.x.mkEqNil(rd.Res[1])) {
		case -1:
			c.check("response", r.name, same(st, ret, rd.Res[1]), r, p, nil, "the outcome of the call is not returned as it is")
			c.check("response", r.name, len(un) == 0, r, p, nil, "a message is decoded although none was read")
			continue
		case 0:
			c.check("response", r.name, false, r, p, nil, "the outcome of the call is ignored")
			continue
		}
		if !c.check("success", r.name, len(un) == 1 && un[0].Args[0] == out && un[0].Args[1] == rd.Res[0], r, p, nil, "the response is not decoded into the message of the caller") {
			continue
		}
		switch st.eval(r.x.mkEqNil(un[0].Res[0])) {
		case -1:
			c.check("response", r.name, r.retNil(p, 0) == -1 && wrapsSentinel(st, ret, "srpc.ErrInvalidMessage"), r, p, nil, "a response which can not be decoded is not reported as an invalid message")
		case 1:
			c.check("success", r.name, r.retNil(p, 0) == 1, r, p, nil, "a successful call is reported as failed")
		default:
			c.check("success", r.name, false, r, p, nil, "success is reported although the response may not be decoded")
		}
	}
	c.floor("handlers", 2)
	c.floor("response", 3)
	c.floor("success", 5)
	c.floor("errors", 3)
}

func ruleNewStream(c *Checker) {
	clientRules(c)
	c.rule("stream", "the stream has the context of the call and reads and writes through it")
	c.rule("stream-close", "closing the stream cancels the context of the call and closes its writer")
	p0 := c.load("linux")
	t := c.implOf(p0, "srpc.NewClient", 0)
	r := c.runMethod(t, "NewStream", ropts{opaque: clientOpaque})
	s := c.rpc("srpc.ClientRPC")
	ctx, service, method, in := r.param(0), r.param(1), r.param(2), r.param(3)
	op := openStreamRole(c, t)
	for _, p := range c.returns("errors", r) {
		k := c.clientCall(r, p, in, op)
		st := p.St
		has := -st.eval(r.x.mkEqNil(in))
		if !c.check("open", r.name, has == 1 && k.marshal != nil || has == -1 && k.marshal == nil, r, p, nil, "the first message is not encoded, or a missing one is") {
			continue
		}
		ok := k.common(c, s, service, method, ctx, false)
		if k.start != nil {
			if has == 1 {
				c.check("start", r.name, st.eval(k.start.Args[2]) == 1 && k.start.Args[3] == k.data, r, p, k.start, "the first message is not sent")
			} else {
				c.check("start", r.name, st.eval(k.start.Args[2]) == -1 && st.eval(r.lenZero(k.start.Args[3])) == 1, r, p, k.start, "a first message is sent although there is none")
			}
		}
		if !ok {
			c.check("stream", r.name, r.retNil(p, 1) == -1 && st.isNil(p.Ret[0]), r, p, nil, "a stream is returned for a call which was not made")
			continue
		}
		c.check("stream", r.name, r.retNil(p, 1) == 1 && !k.canceled && !k.closed, r, p, nil, "a started stream is reported as failed or closed")
		v := st.rep(p.Ret[0])
		if !c.check("stream", r.name, v.Op == "iface" && v.Args[0].Op == "alloc", r, p, nil, "the stream is not one made for this call") {
			continue
		}
		var cb *Term
		ctxOK, rwOK := false, false
		r.fieldsOf(st, v.Args[0], func(n string, ft types.Type, fv *Term) {
			switch {
			case tyNamed("context.Context")(ft):
				ctxOK = fv == k.ctx
			case types.IsInterface(ft):
				rwOK = fv.Op == "iface" && fv.Args[0] == k.rpc
			case isFuncType(ft):
				cb = fv
			}
		})
		c.check("stream", r.name, ctxOK, r, p, nil, "the context of the stream is not the one of the call")
		c.check("stream", r.name, rwOK, r, p, nil, "the stream does not use the call")
		ps := r.runClosure(st, cb)
		c.check("stream-close", r.name, len(ps) > 0, r, p, nil, "closing the stream does not end the call")
		for _, q := range ps {
			cn, cl := false, false
			for _, e := range q.Events {
				if e.Kind == "cancel" && e.Addr == k.ctx {
					cn = true
				}
				if e.Kind == "call" && e.methodName() == "Close" && len(e.Args) == 1 {
					if e.Args[0] == k.writer {
						cl = true
					}
					if e.Args[0] == k.rpc {
						cn, cl = true, true
					}
				}
			}
			c.check("stream-close", r.name, cn, r, q, nil, "closing the stream does not cancel the context of the call")
			c.check("stream-close", r.name, cl, r, q, nil, "closing the stream does not close the writer of the call")
		}
	}
	c.floor("stream", 4)
	c.floor("stream-close", 2)
	c.floor("handlers", 2)
	c.floor("errors", 3)
}

func isFuncType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Signature)
	return ok
}

// ---- streams of messages

func ruleMsgStream(c *Checker) {
	c.rule("send", "MsgSend on a live stream encodes the message and writes it as exactly one data packet which neither completes nor fails the call; the result is returned")
	c.rule("send-fails", "MsgSend writes nothing and fails if the context of the stream is canceled or the message can not be encoded")
	c.rule("recv", "MsgRecv reads exactly one message and decodes exactly that into the message of the caller; failures of either are returned")
	c.rule("close-send", "CloseSend writes exactly one completing data packet without a message or an error")
	c.rule("close", "Close writes exactly one cancel packet, then runs the close callback if there is one, even if the packet could not be written")
	p0 := c.load("linux")
	t := p0.NamedType("srpc.MsgStream")
	if t == nil {
		panic(abort{&Violation{Rule: "anchor", Construct: "srpc.MsgStream", Msg: "the type does not exist any more: the property can not be decided"}})
	}
	rw := c.role(t, "the message reader and writer", tyNamed(ModPath+"/srpc.MsgStreamRw"), "rw")
	cx := c.role(t, "the context", tyNamed("context.Context"), "ctx")
	cb := c.role(t, "the close callback", isFuncType, "closeCb")
	on := func(p *Path, m string) []*Event {
		var out []*Event
		for _, e := range p.Events {
			if e.onField(rw, m) {
				out = append(out, e)
			}
		}
		return out
	}
	silent := func(p *Path) bool {
		return len(on(p, "WriteCallData"))+len(on(p, "WriteCallCancel"))+len(on(p, "ReadOne")) == 0
	}

	r := c.run("srpc.MsgStream.MsgSend")
	msg := r.param(0)
	for _, p := range c.returns("send", r) {
		st := p.St
		seen := ctxSeen(r, p, func(v *Term) bool { return v.Op == "load" && cx.is(v.Args[0]) })
		ms := calls(p, ".MarshalVT")
		ws := on(p, "WriteCallData")
		if seen == 1 {
			c.check("send-fails", r.name+" canceled", silent(p) && r.retNil(p, 0) == -1, r, p, nil, "a message is sent on a canceled stream")
			continue
		}
		if len(ws) == 0 {
			ok := len(ms) == 1 && st.eval(r.x.mkEqNil(ms[0].Res[1])) == -1 && wrapsErr(st, p.Ret[0], ms[0].Res[1]) && silent(p)
			c.check("send-fails", r.name+" encoding", ok, r, p, nil, "the message is not sent")
			continue
		}
		c.check("send-fails", r.name+" canceled", seen == -1, r, p, nil, "a message is sent although the stream may be canceled")
		if !c.check("send", r.name, len(ws) == 1 && len(ms) == 1 && ms[0].Args[0] == msg, r, p, nil, "the message is encoded %d and sent %d times", len(ms), len(ws)) {
			continue
		}
		w := ws[0]
		c.check("send-fails", r.name+" encoding", st.eval(r.x.mkEqNil(ms[0].Res[1])) == 1, r, p, w, "a message is sent which may not be encoded")
		c.check("send", r.name, w.Args[1] == ms[0].Res[0] && st.eval(w.Args[2]) == -1 && st.isNil(w.Args[3]), r, p, w, "the packet is not a plain data packet with the message")
		c.check("send", r.name, same(st, p.Ret[0], w.Res[0]), r, p, nil, "the result of the write is not returned")
	}
	r = c.run("srpc.MsgStream.MsgRecv")
	msg = r.param(0)
	for _, p := range c.returns("recv", r) {
		st := p.St
		rs := on(p, "ReadOne")
		un := calls(p, ".UnmarshalVT")
		if !c.check("recv", r.name, len(rs) == 1, r, p, nil, "%d messages are read", len(rs)) {
			continue
		}
		switch st.eval(r.x.mkEqNil(rs[0].Res[1])) {
		case -1:
			c.check("recv", r.name, same(st, p.Ret[0], rs[0].Res[1]) && len(un) == 0, r, p, nil, "the failed read is not returned as it is")
		case 1:
			c.check("recv", r.name, len(un) == 1 && un[0].Args[0] == msg && un[0].Args[1] == rs[0].Res[0], r, p, nil, "the message read is not decoded into the message of the caller")
			if len(un) == 1 {
				n := st.eval(r.x.mkEqNil(un[0].Res[0]))
				c.check("recv", r.name, same(st, p.Ret[0], un[0].Res[0]) || n == -1 && r.retNil(p, 0) == -1 || n == 1 && r.retNil(p, 0) == 1, r, p, nil, "the result of the decoding is not returned")
			}
		default:
			c.check("recv", r.name, false, r, p, nil, "the outcome of the read is ignored")
		}
	}
	r = c.run("srpc.MsgStream.CloseSend")
	for _, p := range c.returns("close-send", r) {
		ws := on(p, "WriteCallData")
		if !c.check("close-send", r.name, len(ws) == 1 && len(on(p, "WriteCallCancel")) == 0, r, p, nil, "%d packets are written", len(ws)) {
			continue
		}
		w := ws[0]
		c.check("close-send", r.name, p.St.eval(r.lenZero(w.Args[1])) == 1 && p.St.eval(w.Args[2]) == 1 && p.St.isNil(w.Args[3]), r, p, w, "the packet is not a completing packet without a message")
		c.check("close-send", r.name, same(p.St, p.Ret[0], w.Res[0]), r, p, nil, "the result of the write is not returned")
	}
	r = c.run("srpc.MsgStream.Close")
	for _, p := range c.returns("close", r) {
		ws := on(p, "WriteCallCancel")
		if !c.check("close", r.name, len(ws) == 1 && len(on(p, "WriteCallData")) == 0, r, p, nil, "%d cancel packets are written", len(ws)) {
			continue
		}
		n := 0
		set := r.x.load(p.St, cb.addr(r.x, r.recv()), cb.typ)
		for _, e := range p.Events {
			if e.Kind == "call" && e.Recv != nil && e.Recv.Op == "load" && cb.is(e.Recv.Args[0]) {
				n++
				c.check("close", r.name, e.Idx > ws[0].Idx, r, p, e, "the close callback runs before the cancel packet was written")
			}
		}
		if p.St.isNil(set) {
			c.check("close", r.name, n == 0, r, p, nil, "a missing close callback is called")
		} else {
			c.check("close", r.name, n == 1, r, p, nil, "the close callback runs %d times", n)
		}
		c.check("close", r.name, same(p.St, p.Ret[0], ws[0].Res[0]), r, p, nil, "the result of the write is not returned")
	}
	r = c.run("srpc.MsgStream.Context")
	for _, p := range c.returns("send", r) {
		v := p.Ret[0]
		c.check("send", r.name, v.Op == "load" && cx.is(v.Args[0]), r, p, nil, "the context of the stream is %s", v)
	}
	c.floor("send", 3)
	c.floor("send-fails", 2)
	c.floor("recv", 4)
	c.floor("close", 4)
}

func init() {
	props["S09"] = ruleOutgoing
	props["S12"] = ruleExecCall
	props["S13"] = ruleNewStream
	props["S21"] = ruleMsgStream
}
