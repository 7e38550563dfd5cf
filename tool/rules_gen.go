package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- generated services

// genSvc is a service of a schema with the code generated for it.
type genSvc struct {
	file *protoFile
	svc  *protoSvc
	pkg  string
}

func (g *genSvc) id() string {
	if g.file.pkg == "" {
		return g.svc.name
	}
	return g.file.pkg + "." + g.svc.name
}

func (g *genSvc) fn(pre, post string) string {
	if g.svc.goName != "" {
		return g.pkg + "." + pre + g.svc.goName + post
	}
	return g.pkg + "." + pre + g.svc.name + post
}

// method is the name of the Go method.
func (m *protoRPC) method() string {
	if m.goName != "" {
		return m.goName
	}
	return m.name
}

func (c *Checker) services() []*genSvc {
	if c.svcs != nil {
		return c.svcs
	}
	p := c.load("linux")
	var out []*genSvc
	for _, f := range c.protos() {
		for _, s := range f.svcs {
			g := &genSvc{file: f, svc: s, pkg: f.goPkg()}
			if p.Pkg(g.pkg) == nil {
				panic(abort{&Violation{Rule: "anchor", Construct: f.path, Msg: "there is no package for the schema"}})
			}
			out = append(out, g)
		}
	}
	return out
}

// message finds the Go type of a message of a schema.
func (c *Checker) goMessage(g *genSvc, name string) (string, bool) {
	if strings.HasPrefix(name, "*") {
		return name, true
	}
	i := strings.LastIndexByte(name, '.')
	base := name[i+1:]
	if strings.Contains(name, "google.protobuf.") {
		return "*" + "github.com/aperturerobotics/protobuf-go-lite/types/known/" + strings.ToLower(base) + "pb." + base, true
	}
	want := strings.TrimPrefix(name, ".")
	for _, f := range c.protos() {
		for _, m := range f.msgs {
			full := m.name
			if f.pkg != "" {
				full = f.pkg + "." + m.name
			}
			if full == want || f == g.file && m.name == want || f.path == g.file.path && (m.name == want || full == want) {
				t := c.load("linux").NamedType(f.goPkg() + "." + m.name)
				if t == nil {
					return "", false
				}
				return "*" + types.TypeString(t, nil), true
			}
		}
	}
	return "", false
}

// deref looks through the conversion to an interface.
func deref(t *Term) *Term {
	if t != nil && t.Op == "iface" {
		return t.Args[0]
	}
	return t
}

// onStream reports a call of a method of a stream.
func onStream(e *Event, is func(*Term) bool, method string) bool {
	return e.Kind == "call" && e.methodName() == method && len(e.Args) > 0 && is(e.Args[0])
}

// streamCalls lists everything which happens to a stream, except Context.
func streamCalls(p *Path, is func(*Term) bool) []*Event {
	var out []*Event
	for _, e := range p.Events {
		if e.Kind == "call" && len(e.Args) > 0 && is(e.Args[0]) && e.methodName() != "Context" {
			out = append(out, e)
		}
	}
	return out
}

// freshMsg is a new message object of the path of the given type.
func freshMsg(v *Term, typ string) bool {
	v = deref(v)
	return v != nil && v.Op == "alloc" && v.Typ != nil && types.TypeString(v.Typ, nil) == typ
}

func freshObj(v *Term) bool { return v != nil && v.Op == "alloc" }

// genStream checks a generated stream type: its methods do what their names
// say on the stream it wraps, and the methods of the stream are those of it.
func (c *Checker) genStream(t types.Type, iface types.Type, in, out string) {
	inner := c.role(t, "the stream", tyNamed(ModPath+"/srpc.Stream"))
	is := loadOf(inner)
	base := map[string]bool{}
	bi, _ := c.load("linux").NamedType("srpc.Stream").Underlying().(*types.Interface)
	if bi == nil {
		panic(abort{&Violation{Rule: "anchor", Construct: "srpc.Stream", Msg: "the interface does not exist any more"}})
	}
	for i := 0; i < bi.NumMethods(); i++ {
		m := bi.Method(i).Name()
		base[m] = true
		r := *c.runMethod(t, m)
		r.name = typeKeyFull(t) + "." + m
		c.transparent("stream", &r, is, m)
	}
	names := map[string]bool{}
	if u, ok := iface.Underlying().(*types.Interface); ok {
		for i := 0; i < u.NumMethods(); i++ {
			names[u.Method(i).Name()] = true
		}
	}
	st := t
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		st = pt.Elem()
	}
	for _, m := range exportedMethods(c.load("linux"), st) {
		names[m] = true
	}
	for _, m := range sortedKeys(names) {
		if base[m] {
			continue
		}
		r := c.runMethod(t, m)
		// what is sent and received has the type of the schema
		want, sig := in, r.fn.Signature
		var have types.Type
		switch {
		case strings.HasPrefix(m, "Send"):
			want = out
			fallthrough
		case sig.Params().Len() == 1:
			have = sig.Params().At(0).Type()
		case sig.Results().Len() == 2:
			have = sig.Results().At(0).Type()
		}
		if have != nil {
			c.check("types", r.name, types.TypeString(have, nil) == want, r, nil, nil, "the message is a %s, the schema has %s", have, want)
		}
		for _, p := range c.returns("stream", r) {
			c.genStreamPath(r, p, m, is, in)
		}
	}
}

// offers checks that a type which users get has the methods which it should.
func (c *Checker) offers(r *Run, what string, t types.Type, names ...string) {
	ms := types.NewMethodSet(t)
	have := map[string]bool{}
	for i := 0; i < ms.Len(); i++ {
		have[ms.At(i).Obj().Name()] = true
	}
	for _, n := range names {
		c.check("offers", r.name+" "+what, have[n], r, nil, nil, "the %s has no method %s", what, n)
	}
}

// streamMethods are the methods which a stream of the kind of a method has.
func (c *Checker) streamMethods(m *protoRPC, client bool) []string {
	var out []string
	if bi, ok := c.load("linux").NamedType("srpc.Stream").Underlying().(*types.Interface); ok {
		for i := 0; i < bi.NumMethods(); i++ {
			out = append(out, bi.Method(i).Name())
		}
	}
	send, recv := m.outStrem, m.inStrm
	if client {
		send, recv = recv, send
	}
	if send {
		out = append(out, "Send")
	}
	if recv {
		out = append(out, "Recv", "RecvTo")
	}
	switch {
	case client && !recv:
		out = append(out, "CloseAndRecv")
	case !client && send:
		out = append(out, "SendAndClose")
	}
	return out
}

func (c *Checker) genStreamPath(r *Run, p *Path, m string, is func(*Term) bool, in string) {
	st := p.St
	cs := streamCalls(p, is)
	bad := func(f string, a ...any) { c.check("stream", r.name, false, r, p, nil, f, a...) }
	ok := func() { c.check("stream", r.name, true, r, p, nil, "") }
	last := p.Ret[len(p.Ret)-1]
	// the expected calls, in order
	var want []string
	var msg *Term // the message given
	switch m {
	case "Send":
		want, msg = []string{"MsgSend"}, r.param(0)
	case "SendAndClose":
		want, msg = []string{"MsgSend", "CloseSend"}, r.param(0)
	case "Recv":
		want = []string{"MsgRecv"}
	case "RecvTo":
		want, msg = []string{"MsgRecv"}, r.param(0)
	case "CloseAndRecv":
		want = []string{"CloseSend", "MsgRecv"}
	case "CloseAndMsgRecv", "CloseAndRecvTo":
		want, msg = []string{"CloseSend", "MsgRecv"}, r.param(0)
	default:
		bad("the method is not one of those of a generated stream: undecided")
		return
	}
	if msg != nil && want[0] == "MsgSend" && len(cs) < len(want) && st.eval(r.x.mkEqNil(msg)) == 1 {
		// without a message there is nothing to send
		want = want[1:]
	}
	for i, w := range want {
		if i >= len(cs) {
			bad("%s is not called", w)
			return
		}
		e := cs[i]
		if e.methodName() != w {
			bad("%s is called where %s belongs", e.methodName(), w)
			return
		}
		if w != "CloseSend" {
			a := deref(e.Args[1])
			switch {
			case msg != nil && a != msg:
				c.check("stream", r.name, false, r, p, e, "another message is passed on")
				return
			case msg == nil && !freshMsg(a, in):
				c.check("stream", r.name, false, r, p, e, "the message is not received into a new one")
				return
			}
		}
		failed := st.eval(r.x.mkEqNil(e.Res[0]))
		if failed == -1 || i == len(want)-1 && failed == 0 {
			c.check("stream", r.name, len(cs) == i+1 && same(st, last, e.Res[0]), r, p, e, "the error of %s is not returned", w)
			if failed == 0 && len(p.Ret) > 1 {
				c.check("stream", r.name, deref(p.Ret[0]) == deref(e.Args[1]), r, p, e, "the message received is not returned")
			}
			return
		}
		if failed == 0 {
			c.check("stream", r.name, false, r, p, e, "the error of %s is ignored", w)
			return
		}
	}
	if len(cs) != len(want) {
		bad("%s is called in addition", cs[len(want)].methodName())
		return
	}
	if st.eval(r.x.mkEqNil(last)) != 1 {
		bad("an error is returned although every step succeeded")
		return
	}
	if len(p.Ret) == 2 && (len(cs) == 0 || deref(p.Ret[0]) != deref(cs[len(cs)-1].Args[1])) {
		bad("the message received is not returned")
		return
	}
	ok()
}

// ifaceMethod is the signature of a method of an interface.
func ifaceMethod(t types.Type, name string) *types.Signature {
	if u, ok := t.Underlying().(*types.Interface); ok {
		for i := 0; i < u.NumMethods(); i++ {
			if m := u.Method(i); m.Name() == name {
				return m.Type().(*types.Signature)
			}
		}
	}
	return nil
}

// wrapperOf looks through a generated stream at the stream it wraps.
func (r *Run) wrapperOf(st *State, v *Term) *Term {
	v = deref(v)
	var out *Term
	n := 0
	if v == nil || !freshObj(v) {
		return nil
	}
	r.fieldsOf(st, v, func(name string, ft types.Type, fv *Term) {
		if tyNamed(ModPath + "/srpc.Stream")(ft) {
			out = fv
		}
		n++
	})
	return out
}

func ruleGenServer(c *Checker) {
	c.rule("ids", "the handler has the service id it was given, or the one of the schema, and lists exactly the methods of the schema")
	c.rule("dispatch", "a call for this service, or for no service in particular, is taken exactly if the schema has the method, and is handed to the method of the implementation with that name exactly once, and to no other")
	c.rule("request", "a method with a single request receives exactly one message into a new one before it runs, and does not run if this fails")
	c.rule("stream-arg", "a streaming method gets the stream of the call")
	c.rule("context", "a unary method runs with the context of the stream")
	c.rule("reply", "the reply of a method with a single reply is sent exactly once, and nothing if the method failed")
	c.rule("errors", "every error is returned as it is")
	c.rule("types", "requests, replies and the messages of a stream have the types of the schema")
	c.rule("stream", "the methods of a generated stream do exactly what they say on the stream of the call: sending, closing and receiving each message once, with the error returned")
	c.rule("offers", "what users get has every method: a client those of the schema, a stream those of its kind and of every stream")
	c.rule("register", "registering enters a new handler of the implementation with the default service id in the mux, once")
	p0 := c.load("linux")
	for _, g := range c.services() {
		ctor := g.fn("NewSRPC", "Handler")
		t := c.implOf(p0, ctor, 0)
		sid := c.role(t, "the service id", tyBasic(types.String))
		impl := c.role(t, "the implementation", func(u types.Type) bool { return types.IsInterface(u) })
		r := c.run(ctor)
		handler := func(r *Run, st *State, v *Term, im, id *Term) string {
			v = deref(v)
			if !freshObj(v) {
				return "the handler is not a new one"
			}
			if r.x.load(st, impl.addr(r.x, v), impl.typ) != im {
				return "the handler has another implementation"
			}
			s := r.x.load(st, sid.addr(r.x, v), sid.typ)
			if txt, ok := s.strVal(); ok && (id == nil || st.eval(r.lenZero(id)) == 1) {
				if txt != g.id() {
					return "the default service id is " + txt + ", the schema has " + g.id()
				}
				return ""
			}
			if id == nil || s != id || st.eval(r.lenZero(id)) != -1 {
				return "the service id is " + s.String()
			}
			return ""
		}
		for _, p := range c.returns("ids", r) {
			e := handler(r, p.St, p.Ret[0], r.param(0), r.param(1))
			c.check("ids", r.name, e == "", r, p, nil, "%s", e)
		}
		r = c.run(g.fn("SRPCRegister", ""))
		for _, p := range c.returns("register", r) {
			cs := calls(p, ".Register")
			if c.check("register", r.name, len(cs) == 1 && cs[0].Args[0] == r.param(0) && len(cs[0].Args) == 2, r, p, nil, "the handler is registered %d times", len(cs)) {
				e := handler(r, cs[0].st, cs[0].Args[1], r.param(1), nil)
				c.check("register", r.name, e == "" && same(p.St, p.Ret[0], cs[0].Res[0]), r, p, cs[0], "%s or the result is dropped", e)
			}
		}
		r = c.runMethod(t, "GetServiceID")
		for _, p := range c.returns("ids", r) {
			c.check("ids", r.name, loadOf(sid)(p.Ret[0]), r, p, nil, "the service id is %s", p.Ret[0])
		}
		want := map[string]*protoRPC{}
		for _, m := range g.svc.rpcs {
			want[m.name] = m
		}
		r = c.runMethod(t, "GetMethodIDs")
		for _, p := range c.returns("ids", r) {
			ids, ok := r.strings(p.St, p.Ret[0])
			c.check("ids", r.name, ok, r, p, nil, "the list of methods can not be followed: undecided")
			have := map[string]int{}
			for _, s := range ids {
				have[s]++
				c.check("ids", r.name, want[s] != nil && have[s] == 1, r, p, nil, "the method %q is listed, and not in the schema", s)
			}
			for m := range want {
				c.check("ids", r.name, have[m] == 1, r, p, nil, "the method %s is not listed", m)
			}
		}
		c.genDispatch(g, t, sid, impl, want)
	}
	c.floor("dispatch", 20)
	c.floor("stream", 30)
	c.floor("request", 6)
	c.floor("reply", 6)
}

// strings evaluates a list of constant strings.
func (r *Run) strings(st *State, v *Term) ([]string, bool) {
	v = st.rep(v)
	switch {
	case v.Op == "append":
		out, ok := r.strings(st, v.Args[0])
		for _, e := range v.Args[1:] {
			s, k := e.strVal()
			out, ok = append(out, s), ok && k
		}
		return out, ok
	case v.Op == "appends" && len(v.Args) == 2:
		a, ok1 := r.strings(st, v.Args[0])
		b, ok2 := r.strings(st, v.Args[1])
		return append(a, b...), ok1 && ok2
	case v.Ev != nil && strings.HasPrefix(v.Ev.Name, "slices.Clone"):
		return r.strings(v.Ev.st, v.Ev.Args[0])
	case v.Op == "load" && v.Args[0].Op == "global":
		return r.p.globalStrings(v.Args[0].Obj)
	}
	if v.Op == "nil" {
		return nil, true
	}
	n, ok := r.x.length(v).intVal()
	if !ok || n > 1000 {
		return nil, false
	}
	var out []string
	for i := int64(0); i < n; i++ {
		a := r.x.indexAddr(v, r.x.tt.intc(i), types.NewPointer(types.Typ[types.String]))
		s, ok := r.x.load(st, a, types.Typ[types.String]).strVal()
		if !ok {
			return nil, false
		}
		out = append(out, s)
	}
	return out, true
}

// globalStrings evaluates a package variable which holds a list of constant
// strings and is only assigned when the package is initialised.
func (p *Prog) globalStrings(name any) ([]string, bool) {
	var st *ssa.Store
	for fn := range p.allFns {
		if !inModule(fnPkg(fn)) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || any(g) != name {
						continue
					}
					switch in := in.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						if in.Val == g || st != nil || fn.Name() != "init" {
							return nil, false
						}
						st = in
					default:
						return nil, false
					}
				}
			}
		}
	}
	if st == nil {
		return nil, false
	}
	sl, ok := st.Val.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return nil, false
	}
	arr, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	at, ok := arr.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok || at.Len() > 1000 {
		return nil, false
	}
	out := make([]string, at.Len())
	for _, ref := range *arr.Referrers() {
		switch ref := ref.(type) {
		case *ssa.Slice:
		case *ssa.IndexAddr:
			k, ok := ref.Index.(*ssa.Const)
			if !ok {
				return nil, false
			}
			for _, u := range *ref.Referrers() {
				s, ok := u.(*ssa.Store)
				if !ok {
					return nil, false
				}
				v, ok := s.Val.(*ssa.Const)
				if !ok || v.Value == nil || v.Value.Kind() != constant.String {
					return nil, false
				}
				out[k.Int64()] = constant.StringVal(v.Value)
			}
		default:
			return nil, false
		}
	}
	return out, true
}

func (c *Checker) genDispatch(g *genSvc, t types.Type, sid, impl *Role, want map[string]*protoRPC) {
	r := c.runMethod(t, "InvokeMethod")
	service, method, strm := r.param(0), r.param(1), r.param(2)
	isStrm := func(t *Term) bool { return t == strm }
	ran := map[string]bool{}
	streams := map[string]bool{}
	for _, p := range c.returns("dispatch", r) {
		st := p.St
		var m *protoRPC
		open := false
		for _, k := range g.svc.rpcs {
			switch st.eval(r.x.eq(method, r.x.tt.strc(k.name), types.Typ[types.String])) {
			case 1:
				m = k
			case 0:
				open = true
			}
		}
		own := r.x.load(st, sid.addr(r.x, r.recv()), sid.typ)
		mine := 0
		switch {
		case st.eval(r.lenZero(service)) == 1 || st.eval(r.x.eq(service, own, types.Typ[types.String])) == 1:
			mine = 1
		case st.eval(r.lenZero(service)) == -1 && st.eval(r.x.eq(service, own, types.Typ[types.String])) == -1:
			mine = -1
		}
		con := r.name
		var is []*Event
		for _, e := range p.Events {
			if e.Kind == "call" && len(e.Args) > 0 && loadOf(impl)(e.Args[0]) {
				is = append(is, e)
			}
		}
		ss := streamCalls(p, isStrm)
		if mine == -1 || mine != 0 && m == nil && !open || m == nil && !open {
			c.check("dispatch", con, len(is) == 0 && len(ss) == 0 && st.eval(p.Ret[0]) == -1 && r.retNil(p, 1) == 1, r, p, nil, "a call which is not for this service is taken")
			continue
		}
		if !c.check("dispatch", con, mine == 1 && m != nil, r, p, nil, "a call is decided without regard to its service or method") {
			continue
		}
		con += " " + m.name
		if !c.check("dispatch", con, st.eval(p.Ret[0]) == 1, r, p, nil, "the call is not taken") {
			continue
		}
		in, ok1 := c.goMessage(g, m.in)
		out, ok2 := c.goMessage(g, m.out)
		if !c.check("dispatch", con, ok1 && ok2, r, p, nil, "the types of the method can not be found: undecided") {
			continue
		}
		err := p.Ret[1]
		var req *Event
		if !m.inStrm {
			if !c.check("request", con, len(ss) > 0 && ss[0].methodName() == "MsgRecv" && freshMsg(ss[0].Args[1], in), r, p, nil, "the request is not received into a new message") {
				continue
			}
			req, ss = ss[0], ss[1:]
			f := st.eval(r.x.mkEqNil(req.Res[0]))
			if f == -1 {
				c.check("request", con, len(is) == 0 && len(ss) == 0, r, p, req, "the method runs without its request")
				c.check("errors", con, same(st, err, req.Res[0]), r, p, req, "the error of receiving the request is not returned")
				continue
			}
			if !c.check("request", con, f == 1, r, p, req, "the error of receiving the request is ignored") {
				continue
			}
		}
		if !c.check("dispatch", con, len(is) == 1 && is[0].methodName() == m.method(), r, p, nil, "the method of the implementation is called %d times", len(is)) {
			continue
		}
		e := is[0]
		ran[m.name] = true
		if req != nil {
			c.check("request", con, req.Idx < e.Idx, r, p, e, "the method runs before its request was received")
		}
		args := e.Args[1:]
		bad := ""
		if !m.inStrm && !m.outStrem {
			if len(args) == 0 || args[0].Ev == nil || args[0].Ev.methodName() != "Context" || args[0].Ev.Args[0] != strm {
				c.check("context", con, false, r, p, e, "the method runs with another context")
				continue
			}
			c.check("context", con, true, r, p, e, "")
			args = args[1:]
		}
		if !m.inStrm {
			if len(args) == 0 || args[0] != deref(req.Args[1]) {
				c.check("request", con, false, r, p, e, "the method gets another request")
				continue
			}
			args = args[1:]
		}
		if m.inStrm || m.outStrem {
			if len(args) != 1 || r.wrapperOf(e.st, args[0]) != strm {
				c.check("stream-arg", con, false, r, p, e, "the method gets another stream")
				continue
			}
			c.check("stream-arg", con, true, r, p, e, "")
			if w := args[0]; !streams[m.name] && w.Op == "iface" {
				streams[m.name] = true
				if sig := ifaceMethod(impl.typ, m.method()); sig != nil && sig.Params().Len() > 0 {
					c.offers(r, "stream of "+m.name, sig.Params().At(sig.Params().Len()-1).Type(), c.streamMethods(m, false)...)
				}
				c.genStream(w.Typ, w.Typ, in, out)
			}
			args = args[1:]
		}
		if len(args) != 0 {
			bad = "the method has other arguments"
		}
		if !c.check("dispatch", con, bad == "", r, p, e, "%s", bad) {
			continue
		}
		if !m.outStrem {
			if sig := ifaceMethod(impl.typ, m.method()); sig != nil && sig.Results().Len() == 2 {
				rt := sig.Results().At(0).Type()
				c.check("types", con, types.TypeString(rt, nil) == out, r, p, e, "the reply is a %s, the schema has %s", rt, out)
			}
		}
		if m.outStrem {
			c.check("errors", con, same(st, err, e.Res[0]), r, p, e, "the result of the method is not returned")
			c.check("reply", con, len(ss) == 0, r, p, e, "something is sent besides what the method sends")
			continue
		}
		switch st.eval(r.x.mkEqNil(e.Res[1])) {
		case -1:
			c.check("errors", con, same(st, err, e.Res[1]), r, p, e, "the error of the method is not returned")
			c.check("reply", con, len(ss) == 0, r, p, e, "a reply is sent although the method failed")
		case 1:
			if c.check("reply", con, len(ss) == 1 && ss[0].methodName() == "MsgSend" && deref(ss[0].Args[1]) == e.Res[0] && ss[0].Idx > e.Idx, r, p, e, "the reply is not sent exactly once") {
				c.check("errors", con, same(st, err, ss[0].Res[0]), r, p, e, "the error of sending the reply is not returned")
			}
		default:
			c.check("errors", con, false, r, p, e, "the error of the method is ignored")
		}
	}
	for m := range want {
		c.check("dispatch", r.name+" "+m, ran[m], r, nil, nil, "no path calls the method of the implementation")
	}
}

func ruleGenClient(c *Checker) {
	c.rule("made-of", "a client uses the given srpc client, and the given service id or the one of the schema")
	c.rule("call", "a method of the client makes exactly one call, of the method with its name in its service, with the context of the caller")
	c.rule("request", "the request of a method with a single one is sent with the call, as it is; a method with a stream of requests sends none itself")
	c.rule("half-close", "a method with a single request and a stream of replies closes the sending side once, after it opened the stream, and reports if this fails")
	c.rule("reply", "a unary call returns the message the reply was decoded into, which is a new one")
	c.rule("errors", "an error is returned as it is, and nothing further is done")
	c.rule("stream-of", "the stream returned is the one of the call")
	c.rule("offers", "what users get has every method: a client those of the schema, a stream those of its kind and of every stream")
	c.rule("types", "requests, replies and the messages of a stream have the types of the schema")
	c.rule("stream", "the methods of a generated stream do exactly what they say on the stream of the call: sending, closing and receiving each message once, with the error returned")
	p0 := c.load("linux")
	for _, g := range c.services() {
		var t types.Type
		for i, name := range []string{g.fn("NewSRPC", "Client"), g.fn("NewSRPC", "ClientWithServiceID")} {
			t = c.implOf(p0, name, 0)
			cc := c.role(t, "the client", tyNamed(ModPath+"/srpc.Client"))
			sid := c.role(t, "the service id", tyBasic(types.String))
			r := c.run(name)
			offered := []string{"SRPCClient"}
			for _, m := range g.svc.rpcs {
				offered = append(offered, m.method())
			}
			c.offers(r, "client", r.fn.Signature.Results().At(0).Type(), offered...)
			for _, p := range c.returns("made-of", r) {
				v := deref(p.Ret[0])
				if !c.check("made-of", name, freshObj(v), r, p, nil, "the client is not a new one") {
					continue
				}
				c.check("made-of", name, r.x.load(p.St, cc.addr(r.x, v), cc.typ) == r.param(0), r, p, nil, "the client uses another one")
				s := r.x.load(p.St, sid.addr(r.x, v), sid.typ)
				if txt, ok := s.strVal(); ok && (i == 0 || p.St.eval(r.lenZero(r.param(1))) == 1) {
					c.check("made-of", name, txt == g.id(), r, p, nil, "the service id is %s, the schema has %s", txt, g.id())
				} else {
					c.check("made-of", name, i == 1 && s == r.param(1) && p.St.eval(r.lenZero(s)) == -1, r, p, nil, "the service id is %s", s)
				}
			}
		}
		cc := c.role(t, "the client", tyNamed(ModPath+"/srpc.Client"))
		sid := c.role(t, "the service id", tyBasic(types.String))
		r := c.runMethod(t, "SRPCClient")
		for _, p := range c.returns("made-of", r) {
			c.check("made-of", r.name, loadOf(cc)(p.Ret[0]), r, p, nil, "another client is returned")
		}
		for _, m := range g.svc.rpcs {
			c.genCall(g, c.runMethod(t, m.method()), m, cc, sid)
		}
	}
	c.floor("call", 14)
	c.floor("request", 7)
	c.floor("stream", 30)
}

func (c *Checker) genCall(g *genSvc, r *Run, m *protoRPC, cc, sid *Role) {
	in, ok1 := c.goMessage(g, m.in)
	out, ok2 := c.goMessage(g, m.out)
	if !c.check("call", r.name, ok1 && ok2, r, nil, nil, "the types of the method can not be found: undecided") {
		return
	}
	unary := !m.inStrm && !m.outStrem
	okPaths := 0
	sig := r.fn.Signature
	want := 2
	if m.inStrm {
		want = 1
	}
	c.check("types", r.name, sig.Params().Len() == want, r, nil, nil, "the method of the client has %d parameters, a context and its single requests are %d", sig.Params().Len(), want)
	if !m.inStrm && sig.Params().Len() == 2 {
		c.check("types", r.name, types.TypeString(sig.Params().At(1).Type(), nil) == in, r, nil, nil, "the request is a %s, the schema has %s", sig.Params().At(1).Type(), in)
	}
	if unary {
		c.check("types", r.name, types.TypeString(sig.Results().At(0).Type(), nil) == out, r, nil, nil, "the reply is a %s, the schema has %s", sig.Results().At(0).Type(), out)
	}
	var streamType types.Type
	for _, p := range c.returns("call", r) {
		st := p.St
		var cs []*Event
		for _, e := range p.Events {
			if e.Kind == "call" && len(e.Args) > 0 && loadOf(cc)(e.Args[0]) {
				cs = append(cs, e)
			}
		}
		want, n := "NewStream", 5
		if unary {
			want, n = "ExecCall", 6
		}
		if !c.check("call", r.name, len(cs) == 1 && cs[0].methodName() == want && len(cs[0].Args) == n, r, p, nil, "%d calls are made, or of another kind", len(cs)) {
			continue
		}
		e := cs[0]
		id, _ := e.Args[3].strVal()
		c.check("call", r.name, e.Args[1] == r.param(0) && loadOf(sid)(e.Args[2]), r, p, e, "the call has another context or service")
		c.check("call", r.name, id == m.name, r, p, e, "the method called is %q", id)
		if m.inStrm {
			c.check("request", r.name, st.isNil(e.Args[4]), r, p, e, "a message is sent with the call")
		} else {
			c.check("request", r.name, deref(e.Args[4]) == r.param(1), r, p, e, "another request is sent")
		}
		err := p.Ret[1]
		if unary {
			c.check("reply", r.name, freshMsg(e.Args[5], out), r, p, e, "the reply is not decoded into a new message")
			f := r.nilErr(st, e.Res[0])
			switch {
			case f == -1 || f == 0 && same(st, err, e.Res[0]):
				c.check("errors", r.name, same(st, err, e.Res[0]), r, p, e, "the error of the call is not returned")
			default:
				c.check("errors", r.name, f == 1 && r.nilErr(st, err) == 1, r, p, e, "the error of the call is ignored")
			}
			if f != -1 {
				okPaths++
				c.check("reply", r.name, p.Ret[0] == deref(e.Args[5]), r, p, e, "the reply is not returned")
			}
			continue
		}
		strm := e.Res[0]
		ss := streamCalls(p, func(t *Term) bool { return t == strm })
		switch r.nilErr(st, e.Res[1]) {
		case -1:
			c.check("errors", r.name, same(st, err, e.Res[1]) && len(ss) == 0, r, p, e, "the error of opening the stream is not returned")
			continue
		case 0:
			c.check("errors", r.name, false, r, p, e, "the error of opening the stream is ignored")
			continue
		}
		if !m.inStrm {
			if !c.check("half-close", r.name, len(ss) > 0 && ss[0].methodName() == "CloseSend", r, p, e, "the sending side is not closed") {
				continue
			}
			f := r.nilErr(st, ss[0].Res[0])
			if f != 1 {
				ok := f == -1
				for _, x := range ss[1:] {
					ok = ok && x.methodName() == "Close"
				}
				c.check("errors", r.name, ok && same(st, err, ss[0].Res[0]), r, p, ss[0], "the error of closing the sending side is not returned")
				continue
			}
			ss = ss[1:]
		}
		c.check("half-close", r.name, len(ss) == 0, r, p, e, "something else is done to the stream")
		c.check("errors", r.name, r.nilErr(st, err) == 1, r, p, e, "an error is returned although the stream is open")
		c.check("stream-of", r.name, r.wrapperOf(st, p.Ret[0]) == strm, r, p, e, "another stream is returned")
		okPaths++
		if v := p.Ret[0]; v.Op == "iface" {
			streamType = v.Typ
		}
	}
	c.check("call", r.name, okPaths > 0, r, nil, nil, "no path succeeds")
	if streamType != nil {
		c.offers(r, "stream of "+m.name, r.fn.Signature.Results().At(0).Type(), c.streamMethods(m, true)...)
		c.genStream(streamType, r.fn.Signature.Results().At(0).Type(), out, in)
	}
}

func init() {
	props["S34"] = ruleGenServer
	props["S35"] = ruleGenClient
}
