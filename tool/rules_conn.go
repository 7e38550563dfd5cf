package main

import (
	"go/types"
	"strings"
)

// ---- a connection over a byte stream

// sliceOf splits a slice expression into the base, the start and the end.
func sliceOf(t *Term) (base, lo, hi *Term) {
	base = t
	if t != nil && t.Op == "slice" {
		return t.Args[0], t.Args[1], t.Args[2]
	}
	return
}

func isZero(t *Term) bool {
	if t == nil {
		return true
	}
	n, ok := t.intVal()
	return ok && n == 0
}

// sentOn returns the value a path sends on a channel with the event.
func sentOn(e *Event, ch *Term) *Term {
	switch {
	case e.Kind == "send" && e.Addr == ch:
		return e.Val
	case e.Kind == "select" && e.Pick >= 0 && e.Cases[e.Pick].Send && e.Cases[e.Pick].Chan == ch:
		return e.Cases[e.Pick].Val
	}
	return nil
}

// poolPut returns the slice which is given back to a pool.
func (r *Run) poolPut(e *Event) *Term {
	if e.Kind != "call" || e.Name != "sync.Pool.Put" || len(e.Args) != 2 {
		return nil
	}
	v := unwrap(e.Args[1])
	if pt, ok := v.typ().(*types.Pointer); ok {
		return r.x.load(e.st, v, pt.Elem())
	}
	return v
}

func backing(t *Term) *Term {
	for t != nil && t.Op == "slice" {
		t = t.Args[0]
	}
	return t
}

func ruleRwcConn(c *Checker) {
	c.rule("receive", "the bytes of every read of the underlying stream are queued once, in order and completely, unless the connection ended; reading goes on until an error or the end of the connection")
	c.rule("end", "after the last bytes the queue is closed exactly once on every path, and the error which ended reading is stored before that")
	c.rule("own", "a buffer which was queued or given back is not used again: neither read into, nor queued, nor given back; a queued buffer is given back only after its bytes were taken")
	c.rule("lossless", "a read delivers the bytes which were left over first, then those of the next queued buffer; what does not fit into the output is kept for the next read")
	c.rule("order", "a read only waits while no bytes are left over")
	c.rule("count", "a read returns the number of bytes it delivered, and none with an error")
	c.rule("errors", "a read fails with the error which ended the stream, io.EOF if there is none, context.Canceled if the connection ended, and os.ErrDeadlineExceeded only if a deadline passed before that")
	c.rule("lock", "the bytes left over are only touched under their lock, which is released on every path; the deadlines are only touched under one and the same lock")
	c.rule("write", "a write passes each byte on once and in order until all are written or a write fails, and reports how many were written and the error")
	c.rule("deadline", "setting the deadline for reads, or both, stores exactly the time given, and a read which does not deliver bytes left over waits at most until that time, if it is set")
	c.rule("addr", "the addresses of a connection are those it was made with")
	c.rule("close", "closing ends the connection and closes the underlying stream, with the result returned")
	p0 := c.load("linux")
	t := c.implOf(p0, "srpc.NewRwcConn", 0)
	rwc := c.role(t, "the stream", tyNamed("io.ReadWriteCloser"), "rwc")
	queue := c.role(t, "the queue", func(u types.Type) bool {
		ch, ok := u.Underlying().(*types.Chan)
		return ok && types.TypeString(ch.Elem(), nil) == "[]byte"
	}, "packetCh")
	cerr := c.role(t, "the error which ended the stream", tyNamed("error"), "closeErr")
	ctxF := c.role(t, "the context", tyNamed("context.Context"), "ctx")
	cancelF := c.role(t, "the cancel function", func(u types.Type) bool {
		return types.TypeString(u, nil) == "context.CancelFunc" || types.TypeString(u, nil) == "func()"
	}, "ctxCancel")
	rest := c.role(t, "the bytes left over", tyString("[]byte"), "rest")
	mtx := c.role(t, "the lock of the bytes left over", func(u types.Type) bool { return tyNamed("sync.Mutex")(u) || tyNamed("sync.RWMutex")(u) }, "restMtx")

	// the constructor and the goroutine which receives
	r := c.run("srpc.NewRwcConn")
	for _, p := range c.returns("receive", r) {
		o := unwrap(p.St.rep(p.Ret[0]))
		st := p.St
		c.check("receive", r.name, o.Op == "alloc", r, p, nil, "the connection can not be followed")
		gos := r.gos(p)
		if !c.check("receive", r.name, len(gos) == 1, r, p, nil, "%d goroutines receive", len(gos)) {
			continue
		}
		_ = st
		st = gos[0].st
		ch := r.x.load(st, queue.addr(r.x, o), queue.typ)
		ctx := r.x.load(st, ctxF.addr(r.x, o), ctxF.typ)
		strm := r.x.load(st, rwc.addr(r.x, o), rwc.typ)
		c.check("receive", r.name, strm == r.param(1) && ch.Op == "make", r, p, nil, "the connection is for another stream or has no queue")
		if ch.Op == "make" {
			c.check("receive", r.name, r.ge(st, r.x.capOf(ch), r.x.tt.intc(0), 0) == 1, r, p, nil, "the size of the queue may be negative: making it panics")
		}
		for i, m := range []string{"LocalAddr", "RemoteAddr"} {
			a := c.runMethod(t, m)
			for _, q := range c.returns("addr", a) {
				v, ok := unwrap(q.Ret[0]), false
				if v.Op == "load" && v.Args[0].Op == "field" {
					r.fieldsOf(p.St, o, func(n string, _ types.Type, w *Term) {
						ok = ok || strings.HasSuffix(v.Args[0].Aux, "."+n) && w == r.param(2+i)
					})
				}
				c.check("addr", a.name, ok, a, q, nil, "the address is %s and not the one the connection was made with", v)
			}
		}
		c.check("close", r.name, ctx.derives(r.param(0)) && ctx != r.param(0) && r.cancels(r.x.load(st, cancelF.addr(r.x, o), cancelF.typ), ctx), r, p, nil, "the context of the connection does not end with the given one and its cancel function")
		for _, q := range gos[0].Sub {
			c.receiver(r, q, o, ch, ctx, strm, cerr)
		}
	}

	// reading
	r = c.runMethod(t, "Read")
	out := r.param(0)
	self := r.recv()
	ctx := r.x.load(r.x.newState(), ctxF.addr(r.x, self), ctxF.typ)
	for _, p := range r.paths {
		if !c.check("lossless", r.name, p.End != "panic", r, p, nil, "reading may panic") || p.End != "return" {
			continue
		}
		st := p.St
		given := map[*Term]bool{}
		for _, e := range p.Events {
			if v := r.poolPut(e); v != nil && unwrap(e.Args[1]).Op != "nil" {
				c.check("own", r.name, !given[unwrap(e.Args[1])] && !given[backing(v)], r, p, e, "a buffer is given back twice")
				given[unwrap(e.Args[1])], given[backing(v)] = true, true
			}
		}
		var waited *Event // the event which took something from the queue or failed
		var data *Term
		var kept *Event
		var copies []*Event
		closed, gone := false, false
		var restV *Term
		for _, e := range p.Events {
			switch {
			case e.Kind == "load" && rest.is(e.Addr):
				c.check("lock", r.name, e.holdsAddr(mtx.addr(r.x, self)) != nil, r, p, e, "the bytes left over are read without their lock")
				if waited == nil {
					restV = r.x.load(e.st, e.Addr, rest.typ)
				}
			case e.Kind == "store" && rest.is(e.Addr):
				c.check("lock", r.name, e.holdsAddr(mtx.addr(r.x, self)) != nil, r, p, e, "the bytes left over are changed without their lock")
				kept = e
			case (e.Kind == "recv" || e.Kind == "select") && loadOf(queue)(r.chanOf(e)):
				c.check("order", r.name, restV != nil && e.st.eval(r.lenZero(restV)) == 1 && waited == nil, r, p, e, "the queue is waited for although bytes may be left over")
				waited = e
				switch st.eval(e.Res[1]) {
				case 1:
					data = e.Res[0]
				case -1:
					closed = true
				default:
					c.check("errors", r.name, false, r, p, e, "the end of the queue is taken for data")
				}
			case e.Kind == "select" && e.Pick >= 0 && e.Cases[e.Pick].Chan.Op == "pure" && strings.HasPrefix(e.Cases[e.Pick].Chan.Aux, "context.Context.Done/"):
				waited = e
				gone = true
			case e.Kind == "call" && e.Name == "copy" && backing(e.Args[0]) == out:
				copies = append(copies, e)
				for _, g := range p.Events {
					if v := r.poolPut(g); v != nil && g.Idx < e.Idx {
						c.check("own", r.name, backing(v) != backing(e.Args[1]), r, p, e, "the bytes are taken from a buffer which was given back")
					}
				}
			}
		}
		n, err := p.Ret[0], p.Ret[1]
		for _, l := range st.locks {
			c.check("lock", r.name, !mtx.is(l.Addr), r, p, nil, "the path ends with the lock held")
		}
		if gone || closed {
			c.check("count", r.name, isZero(n) && len(copies) == 0, r, p, nil, "%s bytes are reported with an error", n)
			c.check("lossless", r.name, kept == nil, r, p, kept, "the bytes left over are changed although none came")
		}
		switch {
		case gone:
			live := r.ctxErrSeen(p, ctx, 0)
			if live == 0 && waited.Cases[waited.Pick].Chan.Args[0] == ctx {
				live = 1
			}
			switch {
			case isSentinel(st, err, "os.ErrDeadlineExceeded"):
				c.check("errors", r.name, live == -1, r, p, waited, "a deadline is reported although the connection may have ended")
			default:
				c.check("errors", r.name, (isSentinel(st, err, "context.Canceled") || r.isCtxErr(p, err, ctx)) && live == 1, r, p, waited, "%s is returned although the connection may be alive", err)
			}
			continue
		case closed:
			e := r.fieldAtLast(p, cerr, self)
			switch st.eval(r.x.mkEqNil(e)) {
			case 1:
				c.check("errors", r.name, isSentinel(st, err, "io.EOF"), r, p, nil, "%s is returned at the end of the stream", err)
			case -1:
				c.check("errors", r.name, wrapsErr(st, err, e), r, p, nil, "%s is returned instead of the error which ended the stream", err)
			default:
				c.check("errors", r.name, false, r, p, nil, "an end of the stream may be reported without an error")
			}
			continue
		}
		c.check("errors", r.name, r.retNil(p, 1) == 1, r, p, nil, "an error is returned with data")
		if !c.check("lossless", r.name, len(copies) == 1, r, p, nil, "bytes are delivered %d times", len(copies)) {
			continue
		}
		cp := copies[0]
		_, lo, _ := sliceOf(cp.Args[0])
		c.check("lossless", r.name, isZero(lo), r, p, cp, "the bytes are not delivered to the start of the output")
		c.check("count", r.name, st.eval(r.x.eq(n, cp.Res[0], types.Typ[types.Int])) == 1 || r.minOf(st, n, cp), r, p, cp, "%s bytes were delivered, but %s is returned", cp.Res[0], n)
		src, slo, shi := sliceOf(cp.Args[1])
		c.check("lossless", r.name, isZero(slo) && shi == nil, r, p, cp, "only part of the bytes is delivered")
		if data == nil {
			// from the bytes left over
			ok := src == restV && restV != nil && kept != nil
			if ok {
				b, l, h := sliceOf(kept.Val)
				ok = b == restV && h == nil && l != nil && same(st, l, cp.Res[0])
				if !ok && kept.Val.Op == "nil" {
					ok = st.eval(r.x.eq(r.x.length(restV), cp.Res[0], types.Typ[types.Int])) == 1
				}
			}
			c.check("lossless", r.name, ok, r, p, cp, "the bytes left over are not delivered once")
			continue
		}
		c.check("lossless", r.name, src == data, r, p, cp, "other bytes are delivered than those received")
		all := r.ge(st, cp.Res[0], r.x.length(data), 0) == 1
		if kept == nil {
			c.check("lossless", r.name, all, r, p, cp, "what does not fit is dropped")
			continue
		}
		v := kept.Val
		var tail *Term
		switch {
		case v.Op == "appends":
			tail = v.Args[1]
		case v.Op == "slice":
			tail = v
			for _, g := range p.Events {
				if pv := r.poolPut(g); pv != nil {
					c.check("own", r.name, backing(pv) != backing(v), r, p, g, "a buffer is given back although its bytes are kept")
				}
			}
		}
		if tail == nil && r.isCopyOfTail(p, kept, v, data, cp.Res[0]) {
			continue
		}
		b, l, h := sliceOf(tail)
		c.check("lossless", r.name, all && v.Op == "nil" || tail != nil && b == data && h == nil && l != nil && same(st, l, cp.Res[0]), r, p, kept, "the bytes kept are %s and not those which did not fit", v)
	}

	c.deadlines(t, queue)

	// writing
	r = c.runMethod(t, "Write")
	c.writesAll("write", r, r.param(0), func(e *Event) bool { return e.onField(rwc, "Write") })
	r = c.runMethod(t, "Close")
	for _, p := range c.returns("close", r) {
		var cs []*Event
		can := false
		for _, e := range p.Events {
			if e.onField(rwc, "Close") {
				cs = append(cs, e)
			}
			if e.Kind == "cancel" && loadOf(cancelF)(e.Addr) || e.Kind == "call" && e.Recv != nil && loadOf(cancelF)(e.Recv) {
				can = true
			}
		}
		c.check("close", r.name, len(cs) == 1 && same(p.St, p.Ret[0], cs[0].Res[0]), r, p, nil, "the stream is not closed once with the result returned")
		c.check("close", r.name, can, r, p, nil, "the connection does not end")
	}
	c.floor("receive", 10)
	c.floor("end", 4)
	c.floor("own", 4)
	c.floor("lossless", 6)
	c.floor("order", 2)
	c.floor("count", 4)
	c.floor("errors", 5)
	c.floor("lock", 3)
	c.floor("addr", 2)
	c.floor("write", 3)
	c.floor("close", 2)
}

// deadlines checks how the deadline for reads is stored and used.
func (c *Checker) deadlines(t types.Type, queue *Role) {
	set := c.runMethod(t, "SetReadDeadline")
	stored := func(r *Run, p *Path) map[string]*Term {
		out := map[string]*Term{}
		for _, e := range p.Events {
			if e.Kind == "store" && e.Addr.Op == "field" && e.Addr.base() == r.recv() && isTimeAddr(e.Addr) {
				out[e.Addr.Aux] = e.Addr
				if e.Val != r.param(0) {
					out[e.Addr.Aux] = nil
				}
			}
		}
		return out
	}
	var field *Term
	for _, p := range c.returns("deadline", set) {
		for _, a := range stored(set, p) {
			if a != nil {
				field = a
			}
		}
	}
	if !c.check("deadline", set.name, field != nil, set, nil, nil, "the deadline is not stored") {
		return
	}
	for _, m := range []string{"SetReadDeadline", "SetDeadline"} {
		r := c.runMethod(t, m)
		for _, p := range c.returns("deadline", r) {
			a, ok := stored(r, p)[field.Aux]
			c.check("deadline", r.name, ok && a != nil && r.retNil(p, 0) == 1, r, p, nil, "the deadline for reads is not set to the time given")
		}
	}
	r := c.runMethod(t, "SetWriteDeadline")
	for _, p := range c.returns("deadline", r) {
		_, ok := stored(r, p)[field.Aux]
		c.check("deadline", r.name, !ok, r, p, nil, "the deadline for writes changes that for reads")
	}
	r = c.runMethod(t, "Read")
	for _, p := range r.paths {
		var at *Event
		for _, e := range p.Events {
			if e.Kind == "wcancel" && (e.Name == "context.WithDeadline" || e.Name == "context.WithTimeout") {
				at = e
				c.check("deadline", r.name, readsField(e.Args[1], field.Aux), r, p, e, "the read waits until %s", e.Args[1])
				set := false
				for f, v := range e.st.facts {
					if !v && f.Op == "pure" && strings.HasPrefix(f.Aux, "time.Time.IsZero/") && readsField(f.Args[0], field.Aux) {
						set = true
					}
				}
				c.check("deadline", r.name, set, r, p, e, "the read ends at a deadline although none may be set")
			}
			if e.Kind == "cancel" && at != nil && e.Addr == at.Res[0] {
				for _, g := range p.Events {
					if g.Idx > e.Idx && (g.Kind == "recv" || g.Kind == "select") {
						c.check("deadline", r.name, false, r, p, e, "the read is ended before it waits")
						break
					}
				}
			}
			if (e.Kind == "recv" || e.Kind == "select" && e.Block) && at == nil {
				timer, waits := false, e.Kind == "recv" && loadOf(queue)(e.Addr)
				for _, cs := range e.Cases {
					waits = waits || loadOf(queue)(cs.Chan)
					timer = timer || !loadOf(queue)(cs.Chan) && !strings.HasPrefix(cs.Chan.Aux, "context.Context.Done/")
				}
				if !waits || timer {
					continue
				}
				unset := false
				for f, v := range e.st.facts {
					if v && f.Op == "pure" && strings.HasPrefix(f.Aux, "time.Time.IsZero/") && readsField(f.Args[0], field.Aux) {
						unset = true
					}
				}
				c.check("deadline", r.name, unset, r, p, e, "the read may wait longer than until its deadline")
			}
		}
	}
	// every deadline is guarded by a lock: a connection is used concurrently
	held := map[string]map[string]bool{}
	type touch struct {
		r *Run
		p *Path
		e *Event
	}
	var all []touch
	for _, m := range exportedMethods(c.load("linux"), t) {
		r := c.runMethod(t, m)
		for _, p := range r.paths {
			if p.End != "loop" {
				c.check("lock", r.name, len(p.St.locks) == 0, r, p, nil, "the path ends with a lock held")
			}
			for _, e := range p.Events {
				if e.Kind != "store" && e.Kind != "load" || e.Addr == nil || e.Addr.Op != "field" || e.Addr.base() != r.recv() || !isTimeAddr(e.Addr) {
					continue
				}
				all = append(all, touch{r, p, e})
				now := map[string]bool{}
				for _, l := range e.Locks {
					if l.Addr.base() == r.recv() && (l.Mode == "w" || e.Kind == "load") {
						now[l.Addr.Aux] = true
					}
				}
				was, ok := held[e.Addr.Aux]
				if !ok {
					held[e.Addr.Aux] = now
					continue
				}
				for k := range was {
					if !now[k] {
						delete(was, k)
					}
				}
			}
		}
	}
	for _, a := range all {
		c.check("lock", a.r.name, len(held[a.e.Addr.Aux]) > 0, a.r, a.p, a.e, "the deadline %s is not touched under one and the same lock", a.e.Addr.Aux)
	}
	c.floor("deadline", 5)
}

func isTimeAddr(a *Term) bool {
	if a.Typ == nil {
		return false
	}
	pt, ok := a.Typ.Underlying().(*types.Pointer)
	return ok && tyNamed("time.Time")(pt.Elem()) || tyNamed("time.Time")(a.Typ)
}

// readsField: the value was read from the field.
func readsField(t *Term, aux string) bool {
	for _, s := range subterms(t, nil) {
		if s.Op != "load" {
			continue
		}
		for a := s.Args[0]; a != nil; {
			if a.Op == "field" && a.Aux == aux {
				return true
			}
			if len(a.Args) == 0 {
				break
			}
			a = a.Args[0]
		}
	}
	return false
}

// cancels: the function ends the context.
func (r *Run) cancels(f, ctx *Term) bool {
	return f != nil && f.Op == "cancel" && len(f.Args) == 1 && f.Args[0] == ctx
}

// chanOf is the channel an event receives from.
func (r *Run) chanOf(e *Event) *Term {
	if e.Kind == "recv" {
		return e.Addr
	}
	if e.Pick >= 0 && !e.Cases[e.Pick].Send {
		return e.Cases[e.Pick].Chan
	}
	return r.x.tt.intc(0)
}

// ctxErrSeen: what the path knows about the end of a context: 1 ended, -1 not, 0 nothing.
func (r *Run) ctxErrSeen(p *Path, ctx *Term, def int) int {
	for _, e := range p.Events {
		if e.Kind == "call" && (e.Name == "context.Context.Err" || e.Name == "context.Cause") && len(e.Args) == 1 && e.Args[0] == ctx {
			switch p.St.eval(r.x.mkEqNil(e.Res[0])) {
			case -1:
				return 1
			case 1:
				return -1
			}
		}
	}
	return def
}

// fieldAtLast reads a field as the path saw it last.
func (r *Run) fieldAtLast(p *Path, ro *Role, obj *Term) *Term {
	return r.x.load(p.St, ro.addr(r.x, obj), ro.typ)
}

// minOf decides that a number is the smaller of the two lengths of a copy.
func (r *Run) minOf(st *State, n *Term, cp *Event) bool {
	d, s := r.x.length(cp.Args[0]), r.x.length(cp.Args[1])
	if n.Op == "min" && len(n.Args) == 2 && (n.Args[0] == d && n.Args[1] == s || n.Args[0] == s && n.Args[1] == d) {
		return true
	}
	return same(st, n, d) && r.ge(st, s, d, 0) == 1 || same(st, n, s) && r.ge(st, d, s, 0) == 1
}

// isCopyOfTail decides that a value is new memory with the bytes after the first n.
func (r *Run) isCopyOfTail(p *Path, e *Event, v, data, n *Term) bool {
	if backing(v) == nil || backing(v).Op != "make" {
		return false
	}
	for _, g := range p.Events {
		if g.Kind == "call" && g.Name == "copy" && g.Args[0] == v {
			b, l, h := sliceOf(g.Args[1])
			if b == data && h == nil && l != nil && same(p.St, l, n) && r.ge(p.St, r.x.length(v), r.x.length(g.Args[1]), 0) == 1 {
				return true
			}
		}
	}
	return false
}

// receiver checks a path of the goroutine which receives.
func (c *Checker) receiver(r *Run, q *Path, o, ch, ctx, strm *Term, cerr *Role) {
	st := q.St
	dead := map[*Term]string{}
	var cur *Event // a read whose bytes are not queued yet
	var failed *Term
	var open *Event // a read which may have failed
	closes := 0
	ended := false
	flush := func(e *Event) {
		if cur == nil {
			return
		}
		none := r.ge(st, r.x.tt.intc(0), cur.Res[0], 0) == 1
		c.check("receive", r.name, none || ended, r, q, cur, "bytes which were read are dropped")
		cur = nil
	}
	isEnd := func(t *Term) bool { return t == ctx }
	for _, e := range q.Events {
		if e.Kind == "select" && e.Pick >= 0 && isDone(e.Cases[e.Pick].Chan, ctx) || e.Kind == "call" && e.Name == "context.Context.Err" && isEnd(e.Args[0]) && st.eval(r.x.mkEqNil(e.Res[0])) == -1 {
			ended = true
		}
		switch {
		case e.Kind == "assert" && e.Val.Op == "res" && e.Val.Ev != nil && e.Val.Ev.Name == "sync.Pool.Get":
			made := r.fieldAt(e.st, e.Val.Ev.Args[0], "New")
			c.check("own", r.name, e.st.eval(r.x.mkEqNil(e.Val)) == -1 || made != nil && e.st.eval(r.x.mkEqNil(made)) == -1, r, q, e, "the pool may be empty: no buffer is taken from it then, and the path panics")
		case e.Kind == "call" && e.methodName() == "Read" && len(e.Args) == 2 && e.Args[0] == strm:
			flush(e)
			c.check("receive", r.name, failed == nil && open == nil, r, q, e, "reading goes on after an error")
			b := backing(e.Args[1])
			c.check("own", r.name, dead[b] == "", r, q, e, "a buffer is read into which was %s", dead[b])
			cur = e
			switch r.failed(st, e.Res[1]) {
			case 1:
				failed = e.Res[1]
			case 0:
				open = e
			}
		case sentOn(e, ch) != nil:
			v := sentOn(e, ch)
			if e.Kind == "send" || e.Block {
				watched := false
				for _, cs := range e.Cases {
					watched = watched || isDone(cs.Chan, ctx)
				}
				c.check("receive", r.name, watched, r, q, e, "the goroutine which receives may wait for ever after the connection was closed")
			}
			b, lo, hi := sliceOf(v)
			ok := cur != nil && (b == cur.Args[1] || backing(b) == backing(cur.Args[1])) && isZero(lo)
			if ok {
				_, l0, _ := sliceOf(cur.Args[1])
				ok = hi != nil && same(st, hi, cur.Res[0]) && isZero(l0)
			}
			c.check("receive", r.name, ok, r, q, e, "%s is queued and not the bytes which were read", v)
			c.check("own", r.name, dead[backing(b)] == "", r, q, e, "a buffer is queued which was %s", dead[backing(b)])
			c.check("end", r.name, closes == 0, r, q, e, "something is queued after the end")
			dead[backing(b)] = "queued"
			cur = nil
		case e.Kind == "call" && e.Name == "sync.Pool.Put":
			b := backing(r.poolPut(e))
			c.check("own", r.name, dead[b] == "", r, q, e, "a buffer is given back which was %s", dead[b])
			if cur != nil && backing(cur.Args[1]) == b {
				flush(e)
			}
			dead[b] = "given back"
		case e.Kind == "store" && cerr.is(e.Addr):
			c.check("end", r.name, closes == 0, r, q, e, "the error is stored after the end")
		case e.Kind == "close" && e.Addr == ch:
			flush(e)
			closes++
			v := r.x.load(e.st, cerr.addr(r.x, o), cerr.typ)
			if failed != nil && !ended {
				c.check("end", r.name, wrapsErr(st, v, failed), r, q, e, "the error %s is stored and not the one which ended reading", v)
			}
			if ended {
				c.check("end", r.name, st.eval(r.x.mkEqNil(v)) == -1 || st.provenNonNil(v) || failed != nil && wrapsErr(st, v, failed), r, q, e, "the end of the connection is stored as %s", v)
			}
		}
	}
	if q.End == "loop" {
		flush(nil)
		c.check("receive", r.name, failed == nil && open == nil, r, q, nil, "reading goes on after an error")
		return
	}
	flush(nil)
	c.check("end", r.name, q.End == "return" && closes == 1, r, q, nil, "the queue is closed %d times", closes)
	c.check("receive", r.name, failed != nil || ended, r, q, nil, "receiving ends without an error")
}

// writesAll checks that a method passes all bytes on with a writer, in order,
// each once, and reports how many.
func (c *Checker) writesAll(rule string, r *Run, src *Term, isWrite func(e *Event) bool) {
	type head struct {
		rem  *Term
		syms []*Term
	}
	heads := map[any]head{}
	// at is what remains at the start of the iteration a loop event begins,
	// in the variables of its own path.
	at := func(e *Event) *Term {
		h, ok := heads[e.Loop.Header]
		if !ok {
			return nil
		}
		own := e.Loop.Sym
		if own == nil {
			own = e.Loop.Cur
		}
		m := map[*Term]*Term{}
		for i, s := range h.syms {
			if i < len(own) && s.Op == "sym" {
				m[s] = own[i]
			}
		}
		return r.x.subst(h.rem, m)
	}
	for _, p := range r.paths {
		for i, e := range p.Events {
			if e.Kind != "loop" || e.Loop.Generic {
				continue
			}
			for _, f := range p.Events[i+1:] {
				if isWrite(f) {
					heads[e.Loop.Header] = head{f.Args[1], e.Loop.Sym}
				}
				if isWrite(f) || f.Kind == "loop" {
					break
				}
			}
		}
	}
	// variables which count what was written: with what remains they make up
	// the input, at every start of an iteration
	bad := map[any]map[int]bool{}
	for _, p := range r.paths {
		for _, e := range p.Events {
			if e.Kind != "loop" || at(e) == nil {
				continue
			}
			b := bad[e.Loop.Header]
			if b == nil {
				b = map[int]bool{}
				bad[e.Loop.Header] = b
			}
			sub := func(vals []*Term) *Term {
				own := e.Loop.Sym
				if own == nil {
					own = e.Loop.Cur
				}
				m := map[*Term]*Term{}
				for i, s := range own {
					if s.Op == "sym" {
						m[s] = vals[i]
					}
				}
				return r.x.length(r.x.subst(at(e), m))
			}
			for i := range e.Loop.Cur {
				if i >= len(e.Loop.Next) || !isIntType(e.Loop.Cur[i].Typ) {
					b[i] = true
					continue
				}
				cur := linOf(e.Loop.Cur[i]).plus(linOf(sub(e.Loop.Cur)), 1)
				next := linOf(e.Loop.Next[i]).plus(linOf(sub(e.Loop.Next)), 1)
				if !e.Loop.Generic && !cur.plus(linOf(r.x.length(src)), -1).isZero() || !next.plus(cur, -1).isZero() {
					b[i] = true
				}
			}
		}
	}
	for _, p := range r.paths {
		if !c.check(rule, r.name, p.End != "panic", r, p, nil, "writing may panic") {
			continue
		}
		var inv []lin // each is zero
		rem := src
		n := 0
		var failed *Term
		var last *Event
		for _, e := range p.Events {
			if e.Kind == "loop" {
				if n == 0 {
					continue
				}
				h := at(e)
				if h == nil {
					continue
				}
				for i := range e.Loop.Cur {
					if v := r.x.tt.intc(0); !bad[e.Loop.Header][i] {
						if v = e.Loop.Cur[i]; e.Loop.Sym != nil {
							v = e.Loop.Sym[i]
						}
						inv = append(inv, linOf(v).plus(linOf(r.x.length(h)), 1).plus(linOf(r.x.length(src)), -1))
					}
				}
				c.check(rule, r.name, r.x.subst(h, loopSubst(e)) == rem, r, p, e, "after a write %s follows, but %s remains", r.x.subst(h, loopSubst(e)), rem)
				if last != nil {
					c.check(rule, r.name, r.nilErr(e.st, last.Res[1]) == 1, r, p, e, "the error of a write is ignored")
				}
				rem = h
				continue
			}
			if !isWrite(e) {
				continue
			}
			n++
			if last != nil {
				c.check(rule, r.name, r.ge(e.st, r.x.length(e.Args[1]), r.x.tt.intc(1), 0) == 1 || e.st.eval(r.lenZero(e.Args[1])) == -1, r, p, e, "it is written again although everything may have been")
			}
			last = e
			c.check(rule, r.name, failed == nil, r, p, e, "something is written after a failed write")
			c.check(rule, r.name, e.Args[1] == rem, r, p, e, "%s is written, but %s remains", e.Args[1], rem)
			rem = r.x.slice(rem, e.Res[0], nil, nil, rem.Typ)
			if r.nilErr(p.St, e.Res[1]) != 1 {
				failed = e.Res[1]
			}
		}
		if p.End == "loop" {
			c.check(rule, r.name, n > 0, r, p, nil, "the loop goes on without writing anything")
			if k := lastLoop(p); k != nil && k.Loop.Generic {
				m := 0
				for _, e := range p.Events {
					if e.Kind == "loop" && e != k {
						m = 0
					}
					if isWrite(e) && e.Idx < k.Idx {
						m++
					}
				}
				c.check(rule, r.name, m > 0, r, p, k, "a round of the loop writes nothing")
			}
		}
		if p.End != "return" {
			continue
		}
		if n == 1 && len(p.Ret) == 2 && p.Ret[0] == last.Res[0] && p.Ret[1] == last.Res[1] {
			c.oblig(rule, r.name).Instances++
			continue // one write, passed on
		}
		l := linOf(p.Ret[0]).plus(linOf(r.x.length(rem)), 1).plus(linOf(r.x.length(src)), -1)
		cnt := p.St.eval(r.x.ge0(l)) == 1 && p.St.eval(r.x.ge0(l.scale(-1))) == 1
		for _, v := range inv {
			cnt = cnt || l.plus(v, -1).isZero()
		}
		if failed != nil {
			c.check(rule, r.name, wrapsErr(p.St, p.Ret[1], failed), r, p, nil, "the error of a write is not returned")
			c.check(rule, r.name, cnt, r, p, nil, "%s bytes are reported written", p.Ret[0])
			continue
		}
		c.check(rule, r.name, r.retNil(p, 1) == 1, r, p, nil, "an error is returned although nothing failed")
		c.check(rule, r.name, r.ge(p.St, r.x.tt.intc(0), r.x.length(rem), 0) == 1, r, p, nil, "success is reported although %s may not be written", rem)
		c.check(rule, r.name, r.ge(p.St, p.Ret[0], r.x.length(src), 0) == 1 || cnt, r, p, nil, "%s bytes are reported written", p.Ret[0])
	}
}

func lastLoop(p *Path) *Event {
	var k *Event
	for _, e := range p.Events {
		if e.Kind == "loop" {
			k = e
		}
	}
	return k
}

func init() { props["S32"] = ruleRwcConn }

// ---- the in-memory stream

func rulePipeStream(c *Checker) {
	c.rule("pair", "the two ends know each other, have channels of their own and contexts which end with the given one or with their own cancel function")
	c.rule("send", "a message is encoded and passed to the other end once, or not at all and an error is returned")
	c.rule("send-end", "nothing is passed on once the end was closed: that is checked first, and a send which waits ends if the end is closed or its context ends")
	c.rule("send-error", "a send fails with the encoding error, context.Canceled if its context ended or io.ErrClosedPipe if the end was closed")
	c.rule("recv", "a receive takes one message from the own channel and decodes it once into the given message, with the result of decoding")
	c.rule("recv-end", "io.EOF is only reported after the other end was closed and the channel was found empty after that; context.Canceled only if the context ended")
	c.rule("close", "closing sending marks the end exactly once and leaves the other direction alone; closing also ends the context; the channels for data are never closed")
	p0 := c.load("linux")
	t := c.implOf(p0, "srpc.NewPipeStream", 0)
	data := c.role(t, "the messages", tyString("chan []byte"), "dataCh")
	mark := c.role(t, "the mark of the end", tyString("chan struct{}"), "closedCh")
	ctxF := c.role(t, "the context", tyNamed("context.Context"), "ctx")
	cancelF := c.role(t, "the cancel function", func(u types.Type) bool {
		return types.TypeString(u, nil) == "context.CancelFunc" || types.TypeString(u, nil) == "func()"
	}, "ctxCancel")
	other := c.role(t, "the other end", func(u types.Type) bool { return types.Identical(u, t) }, "other")
	once := c.role(t, "the guard of the mark", tyNamed("sync.Once"), "closeOnce")

	r := c.run("srpc.NewPipeStream")
	for _, p := range c.returns("pair", r) {
		st := p.St
		a, b := unwrap(st.rep(p.Ret[0])), unwrap(st.rep(p.Ret[1]))
		if !c.check("pair", r.name, a.Op == "alloc" && b.Op == "alloc" && a != b, r, p, nil, "the ends can not be followed") {
			continue
		}
		get := func(o *Term, f *Role) *Term { return r.x.load(st, f.addr(r.x, o), f.typ) }
		c.check("pair", r.name, get(a, other) == b && get(b, other) == a, r, p, nil, "the ends are not connected with each other")
		chans := map[*Term]bool{}
		for _, o := range []*Term{a, b} {
			for _, f := range []*Role{data, mark} {
				ch := get(o, f)
				c.check("pair", r.name, ch.Op == "make" && !chans[ch], r, p, nil, "the channel %s is not made for one end and one purpose", f.aux)
				chans[ch] = true
			}
			ctx := get(o, ctxF)
			c.check("pair", r.name, ctx != r.param(0) && ctx.derives(r.param(0)) && r.cancels(get(o, cancelF), ctx), r, p, nil, "the context of an end does not end with the given one and its cancel function")
		}
		c.check("pair", r.name, get(a, ctxF) != get(b, ctxF), r, p, nil, "the ends share a context")
	}

	// own is what a field of the receiver holds when the method is called.
	own := func(r *Run, f *Role) *Term { return r.x.load(r.x.newState(), f.addr(r.x, r.recv()), f.typ) }
	picked := func(e *Event) *Term {
		if e.Kind == "recv" {
			return e.Addr
		}
		if e.Kind == "select" && e.Pick >= 0 && !e.Cases[e.Pick].Send {
			return e.Cases[e.Pick].Chan
		}
		return nil
	}
	empty := func(e *Event, ch *Term) bool { // found that nothing can be received
		if e.Kind != "select" || e.Pick >= 0 {
			return false
		}
		for _, k := range e.Cases {
			if !k.Send && k.Chan == ch {
				return true
			}
		}
		return false
	}
	// done: the path saw the context end.
	done := func(r *Run, p *Path, ctx *Term) bool {
		for _, e := range p.Events {
			if ch := picked(e); ch != nil && isDone(ch, ctx) {
				return true
			}
		}
		return r.ctxErrSeen(p, ctx, 0) == 1
	}
	canceled := func(r *Run, p *Path, err *Term) bool {
		return wrapsSentinel(p.St, err, "context.Canceled") || r.isCtxErr(p, err, own(r, ctxF))
	}

	r = c.runMethod(t, "MsgSend")
	peer := own(r, other)
	peerCh := r.x.load(r.x.newState(), data.addr(r.x, peer), data.typ)
	for _, p := range c.returns("send", r) {
		st := p.St
		n, over := 0, false
		checked, waits := false, true
		var failed *Term
		for _, e := range p.Events {
			if empty(e, own(r, mark)) {
				checked = true
			}
			if ch := picked(e); ch != nil && ch == own(r, mark) {
				over = true
			}
			if e.Kind == "select" && e.Block || e.Kind == "send" {
				m, d := false, false
				for _, k := range e.Cases {
					m = m || !k.Send && k.Chan == own(r, mark)
					d = d || !k.Send && isDone(k.Chan, own(r, ctxF))
				}
				waits = waits && m && d
				c.check("send-end", r.name, waits, r, p, e, "the send goes on waiting after the end was closed or its context ended")
			}
			if e.Kind == "call" && strings.HasPrefix(e.methodName(), "Marshal") && len(e.Args) == 1 && e.Args[0] == r.param(0) && len(e.Res) == 2 {
				if r.failed(st, e.Res[1]) == 1 {
					failed = e.Res[1]
				}
			}
			for _, ch := range e.sendChans() {
				v := sentOn(e, ch)
				if v == nil {
					continue
				}
				n++
				c.check("send", r.name, ch == peerCh, r, p, e, "the message is passed to %s and not to the other end", ch)
				c.check("send", r.name, r.encodes(p, v, r.param(0)), r, p, e, "%s is passed on and not the encoded message", v)
				c.check("send-end", r.name, checked, r, p, e, "the message is passed on although the end may have been closed before")
			}
		}
		c.check("send", r.name, n <= 1, r, p, nil, "the message is passed on %d times", n)
		ok := r.retNil(p, 0)
		if n == 1 {
			c.check("send", r.name, ok == 1, r, p, nil, "an error is returned although the message was passed on")
			continue
		}
		c.check("send", r.name, ok == -1, r, p, nil, "the send may succeed although the message was not passed on")
		err := p.Ret[0]
		good := failed != nil && wrapsErr(st, err, failed) ||
			failed == nil && over && wrapsSentinel(st, err, "io.ErrClosedPipe") ||
			failed == nil && canceled(r, p, err) && done(r, p, own(r, ctxF))
		c.check("send-error", r.name, good, r, p, nil, "%s is returned", err)
	}

	r = c.runMethod(t, "MsgRecv")
	peer = own(r, other)
	peerMark := r.x.load(r.x.newState(), mark.addr(r.x, peer), mark.typ)
	for _, p := range c.returns("recv", r) {
		st := p.St
		var got []*Term
		over, drained := false, false
		var dec []*Event
		for _, e := range p.Events {
			ch := picked(e)
			switch {
			case ch == nil:
			case ch == own(r, data):
				got = append(got, e.Res[0])
			case ch == peerMark:
				over = true
			default:
				c.check("recv", r.name, isDone(ch, own(r, ctxF)), r, p, e, "the receive ends because of %s", ch)
			}
			if e.Kind == "select" && e.Block || e.Kind == "recv" {
				m, d, g := false, false, false
				for _, k := range e.Cases {
					g = g || !k.Send && k.Chan == own(r, data)
					m = m || !k.Send && k.Chan == peerMark
					d = d || !k.Send && isDone(k.Chan, own(r, ctxF))
				}
				c.check("recv", r.name, g, r, p, e, "the receive waits and does not see a message which arrives")
				c.check("recv-end", r.name, m && d, r, p, e, "the receive goes on waiting after the other end was closed or its context ended")
			}
			if empty(e, own(r, data)) && over {
				drained = true
			}
			if e.Kind == "call" && strings.HasPrefix(e.methodName(), "Unmarshal") {
				dec = append(dec, e)
			}
		}
		if len(got) > 0 {
			ok := len(got) == 1 && len(dec) == 1 && len(dec[0].Args) == 2 && dec[0].Args[0] == r.param(0) && dec[0].Args[1] == got[0]
			if c.check("recv", r.name, ok, r, p, nil, "%d messages are taken and %d decoded", len(got), len(dec)) {
				res := dec[0].Res[0]
				c.check("recv", r.name, same(st, p.Ret[0], res) || r.failed(st, res) == 1 && wrapsErr(st, p.Ret[0], res), r, p, nil, "%s is returned and not the result of decoding", p.Ret[0])
			}
			continue
		}
		c.check("recv", r.name, len(dec) == 0 && r.retNil(p, 0) == -1, r, p, nil, "a receive may succeed without a message")
		switch {
		case wrapsSentinel(st, p.Ret[0], "io.EOF"):
			c.check("recv-end", r.name, over && drained, r, p, nil, "the end is reported although messages may follow")
		case canceled(r, p, p.Ret[0]):
			c.check("recv-end", r.name, done(r, p, own(r, ctxF)), r, p, nil, "context.Canceled is returned although the context did not end")
		default:
			c.check("recv-end", r.name, false, r, p, nil, "%s is returned", p.Ret[0])
		}
	}

	for _, m := range []string{"CloseSend", "Close"} {
		r = c.runMethod(t, m)
		for _, p := range c.returns("close", r) {
			n, guarded := 0, false
			can := false
			for _, e := range p.Events {
				switch {
				case (e.Kind == "once" || e.Kind == "oncedone") && e.Addr == once.addr(r.x, r.recv()):
					guarded = true
					if e.Kind == "oncedone" {
						n++
					}
				case e.Kind == "close":
					c.check("close", r.name, e.Addr == own(r, mark) && guarded && n == 0, r, p, e, "%s is closed, or not only once", e.Addr)
				case e.Kind == "cancel" || e.Kind == "call" && e.Recv == own(r, cancelF):
					can = can || e.Addr == own(r, cancelF) || e.Recv == own(r, cancelF)
				}
			}
			// the first call of the guard closes
			first := p.St.eval(r.x.tt.mk("oncedone", "", types.Typ[types.Bool], once.addr(r.x, r.recv()))) == 1
			cl := 0
			for _, e := range p.Events {
				if e.Kind == "close" {
					cl++
				}
			}
			c.check("close", r.name, guarded && (!first || cl == 1), r, p, nil, "the end is not marked")
			if m == "Close" {
				c.check("close", r.name, can, r, p, nil, "the context is not ended")
			} else {
				c.check("close", r.name, !can, r, p, nil, "the other direction is ended as well")
			}
			c.check("close", r.name, r.retNil(p, 0) == 1, r, p, nil, "an error is returned")
		}
	}
	r = c.runMethod(t, "Context")
	for _, p := range c.returns("pair", r) {
		c.check("pair", r.name, p.Ret[0] == own(r, ctxF), r, p, nil, "%s is returned as the context of the end", p.Ret[0])
	}
	c.floor("pair", 4)
	c.floor("send", 4)
	c.floor("send-end", 2)
	c.floor("send-error", 2)
	c.floor("recv", 3)
	c.floor("recv-end", 3)
	c.floor("close", 4)
}

// sendChans are the channels an event sends on.
func (e *Event) sendChans() []*Term {
	switch {
	case e.Kind == "send":
		return []*Term{e.Addr}
	case e.Kind == "select" && e.Pick >= 0 && e.Cases[e.Pick].Send:
		return []*Term{e.Cases[e.Pick].Chan}
	}
	return nil
}

// encodes decides that a value is the encoding of a message, which succeeded.
func (r *Run) encodes(p *Path, v, msg *Term) bool {
	for _, e := range p.Events {
		if e.Kind == "call" && e.methodName() == "MarshalVT" && len(e.Args) == 1 && e.Args[0] == msg && len(e.Res) == 2 && same(p.St, v, e.Res[0]) {
			return r.nilErr(p.St, e.Res[1]) == 1
		}
	}
	return false
}

func init() { props["S33"] = rulePipeStream }
