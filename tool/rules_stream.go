package main

import (
	"go/types"
	"strings"
)

// ---- raw messages

// isCopy decides that v holds a copy of the bytes of src (not src itself) in
// the state of the path before an event.
func (r *Run) isCopy(p *Path, before *Event, v, src *Term) bool {
	if v == nil || v == src || v.base() == src {
		return false
	}
	st := p.St
	if v.Op == "appends" && len(v.Args) == 2 && v.Args[1] == src && st.eval(r.lenZero(v.Args[0])) == 1 {
		return true
	}
	if v.Ev != nil && (strings.HasSuffix(v.Ev.Name, "bytes.Clone") || strings.HasPrefix(v.Ev.Name, "slices.Clone")) && v.Ev.Args[0] == src {
		return true
	}
	ok := false
	for _, e := range p.Events {
		if e == before {
			break
		}
		if e.Kind == "call" && e.Name == "copy" {
			if e.Args[0] == v && e.Args[1] == src {
				n, m := r.x.length(v), r.x.length(src)
				ok = n == m || r.ge(e.st, n, m, 0) == 1 && r.ge(e.st, m, n, 0) == 1
			} else if e.Args[0].base() == v.base() {
				ok = false
			}
		}
		if e.Kind == "store" && e.Addr.Op == "index" && e.Addr.base() == v.base() {
			ok = false
		}
	}
	return ok || st.eval(r.lenZero(v)) == 1 && st.eval(r.lenZero(src)) == 1
}

// arrayOf finds the value whose memory a slice may share.
func arrayOf(t *Term) *Term {
	for t.Op == "field" || t.Op == "index" || t.Op == "slice" || t.Op == "appends" || t.Op == "append" {
		t = t.Args[0]
	}
	return t
}

// inBounds checks the slice expressions of a path with an upper bound.
func (c *Checker) inBounds(rule string, r *Run, p *Path) {
	for _, e := range p.Events {
		if e.Kind != "bounds" || e.Name != "slice" || len(e.Args) < 2 || e.Args[1] == nil {
			continue
		}
		hi := e.Args[1]
		if n, ok := hi.intVal(); ok && n == 0 {
			continue
		}
		cp := r.x.tt.mk("cap", "", types.Typ[types.Int], e.Addr)
		c.check(rule, r.name, r.ge(e.st, r.x.length(e.Addr), hi, 0) == 1 || r.ge(e.st, cp, hi, 0) == 1, r, p, e, "the slice %s[:%s] may be out of range", e.Addr, hi)
	}
}

func ruleRawMessage(c *Checker) {
	c.rule("set", "after SetData or UnmarshalVT the message holds exactly the given bytes: a copy of them if the message copies, the given buffer otherwise")
	c.rule("get", "GetData returns the held buffer, SizeVT its length")
	c.rule("marshal", "MarshalVT returns the held bytes without an error: a new copy if the message copies, so that neither side sees later changes of the other")
	c.rule("marshal-to", "MarshalToSizedBufferVT copies all held bytes into a buffer of exactly that size, and fails without writing for any other")
	c.rule("clear", "Clear leaves an empty message which keeps its buffer, Reset one without a buffer")
	c.rule("made-of", "NewRawMessage holds the given buffer with the given mode")
	t := c.load("linux").NamedType("srpc.RawMessage")
	if t == nil {
		panic(abort{&Violation{Rule: "anchor", Construct: "srpc.RawMessage", Msg: "the type does not exist any more: the property can not be decided"}})
	}
	data := c.role(t, "the held bytes", tyString("[]byte"))
	flag := c.role(t, "the copy mode", tyBasic(types.Bool))
	run := func(m string) (*Run, *Term, *Term) {
		r := c.runMethod(types.NewPointer(t), m)
		return r, data.addr(r.x, r.recv()), flag.addr(r.x, r.recv())
	}
	start := func(r *Run, a *Term, ty types.Type) *Term { return r.x.tt.mk("load", "0", ty, a) }
	for _, m := range []string{"SetData", "UnmarshalVT"} {
		r, da, fa := run(m)
		for _, p := range c.returns("set", r) {
			v := r.x.load(p.St, da, data.typ)
			src := r.param(0)
			mode := p.St.eval(start(r, fa, flag.typ))
			cp := r.isCopy(p, nil, v, src)
			c.check("set", r.name, cp || mode == -1 && v == src, r, p, nil, "the message holds %s", v)
			c.inBounds("set", r, p)
			if m == "UnmarshalVT" {
				c.check("set", r.name, r.retNil(p, 0) == 1, r, p, nil, "setting the bytes fails")
			}
		}
	}
	r, da, _ := run("GetData")
	for _, p := range c.returns("get", r) {
		c.check("get", r.name, p.Ret[0] == start(r, da, data.typ), r, p, nil, "the result is %s", p.Ret[0])
	}
	r, da, _ = run("SizeVT")
	for _, p := range c.returns("get", r) {
		n := r.x.length(start(r, da, data.typ))
		c.check("get", r.name, p.Ret[0] == n || r.ge(p.St, p.Ret[0], n, 0) == 1 && r.ge(p.St, n, p.Ret[0], 0) == 1, r, p, nil, "the result is %s", p.Ret[0])
	}
	r, da, fa := run("MarshalVT")
	for _, p := range c.returns("marshal", r) {
		d := start(r, da, data.typ)
		mode := p.St.eval(start(r, fa, flag.typ))
		v := p.Ret[0]
		ok := r.isCopy(p, nil, v, d) && arrayOf(v) != arrayOf(d)
		c.check("marshal", r.name, ok || mode == -1 && v == d, r, p, nil, "the result is %s", v)
		c.check("marshal", r.name, r.retNil(p, 1) == 1, r, p, nil, "encoding fails")
		c.check("marshal", r.name, r.x.load(p.St, da, data.typ) == d, r, p, nil, "the held bytes are changed")
	}
	r, da, _ = run("MarshalToSizedBufferVT")
	for _, p := range c.returns("marshal-to", r) {
		d := start(r, da, data.typ)
		b := r.param(0)
		n, m := r.x.length(b), r.x.length(d)
		eq := p.St.eval(r.x.eq(n, m, types.Typ[types.Int]))
		cs := calls(p, "copy")
		if eq != 1 {
			c.check("marshal-to", r.name, eq == -1 && r.retNil(p, 1) == -1 && len(cs) == 0, r, p, nil, "a buffer which may have another size is used")
			continue
		}
		c.check("marshal-to", r.name, len(cs) == 1 && cs[0].Args[0] == b && cs[0].Args[1] == d && r.retNil(p, 1) == 1, r, p, nil, "the bytes are not copied into the buffer")
		ok := p.Ret[0] == n || p.Ret[0] == m || len(cs) == 1 && p.Ret[0] == cs[0].Res[0]
		c.check("marshal-to", r.name, ok, r, p, nil, "the number of bytes is %s", p.Ret[0])
	}
	r, da, _ = run("Clear")
	for _, p := range c.returns("clear", r) {
		v := r.x.load(p.St, da, data.typ)
		old := start(r, da, data.typ)
		c.check("clear", r.name, p.St.eval(r.lenZero(v)) == 1 && (v.Op == "slice" && v.Args[0] == old && v.Args[1] == nil || p.St.isNil(old)), r, p, nil, "the message holds %s", v)
	}
	r, da, _ = run("Reset")
	for _, p := range c.returns("clear", r) {
		c.check("clear", r.name, p.St.isNil(r.x.load(p.St, da, data.typ)), r, p, nil, "the buffer is not released")
	}
	c.ctor("made-of", "srpc.NewRawMessage", 0, map[string]int{"[]byte": 0, "bool": 1})
	c.floor("set", 4)
	c.floor("get", 2)
	c.floor("marshal", 3)
	c.floor("marshal-to", 2)
	c.floor("clear", 2)
	c.floor("made-of", 1)
}

// ---- byte streams over messages

// byteReader checks a Read method over a stream of messages.
type byteReader struct {
	c      *Checker
	r      *Run
	buf    *Term // address of the buffer
	isRecv func(e *Event) bool
	// data tells what a received message carries: the bytes, 1 if it is known
	// that there are none, and the error it reports
	data     func(p *Path, e *Event, st *State) (d *Term, none bool, rerr *Term)
	idx      map[any]int // loop header -> position of the number of bytes delivered, -1: none are
	bad      int
	quiet    bool
	counters map[*Term]bool
}

func (b *byteReader) check(rule string, ok bool, p *Path, e *Event, msg string, a ...any) bool {
	if b.quiet {
		if !ok {
			b.bad++
		}
		return ok
	}
	return b.c.check(rule, b.r.name, ok, b.r, p, e, msg, a...)
}

// copies are what is known about the results of copy on a path.
func (b *byteReader) equal(st *State, x, y *Term, copies []*Event) bool {
	r := b.r
	ok := true
	// what was delivered is never negative
	zero := map[*Term]*Term{}
	for s := range b.counters {
		if r.ge(st, r.x.tt.intc(0), s, 0) == 1 {
			zero[s] = r.x.tt.intc(0)
		}
	}
	if len(zero) != 0 {
		x, y = r.x.subst(x, zero), r.x.subst(y, zero)
	}
	var atoms []*Term
	for _, e := range copies {
		atoms = append(atoms, r.x.ge0(linOf(r.x.length(e.Args[1])).plus(linOf(r.x.length(e.Args[0])), -1)))
	}
	r.split(st, atoms, func(s2 *State, v []bool) {
		m := map[*Term]*Term{}
		for i, e := range copies {
			if v[i] {
				m[e.Res[0]] = r.x.length(e.Args[0])
			} else {
				m[e.Res[0]] = r.x.length(e.Args[1])
			}
		}
		a, c := r.x.subst(x, m), r.x.subst(y, m)
		if d := linOf(a).plus(linOf(c), -1); len(d.co) == 0 && d.k == 0 {
			return
		}
		if r.ge(s2, a, c, 0) == 1 && r.ge(s2, c, a, 0) == 1 {
			return
		}
		ok = false
	})
	return ok
}

// off is the position of a part of the output buffer in it.
func (b *byteReader) off(t *Term) *Term {
	x := b.r.x
	if t == b.r.param(0) {
		return x.tt.intc(0)
	}
	if t.Op == "slice" {
		o := b.off(t.Args[0])
		if o == nil || t.Args[2] != nil {
			return nil
		}
		if t.Args[1] == nil {
			return o
		}
		return x.tt.mkLin(linOf(o).plus(linOf(t.Args[1]), 1))
	}
	if t.Op == "sym" {
		for _, p := range b.r.paths {
			for _, e := range p.Events {
				if e.Kind != "loop" {
					continue
				}
				for _, s := range symsOf(e) {
					if s == t {
						i, ok := b.idx[e.Loop.Header]
						if !ok || i < 0 {
							return nil
						}
						return symsOf(e)[i]
					}
				}
			}
		}
	}
	return nil
}

func symsOf(e *Event) []*Term {
	if e.Loop.Sym != nil {
		return e.Loop.Sym
	}
	return e.Loop.Cur
}

// moves tells if an event delivers at least one byte of the buffer.
func (b *byteReader) moves(e *Event) bool {
	x := b.r.x
	return e.isCall("bytes.Buffer.Read") && len(e.Args) == 2 && e.Args[0] == b.buf &&
		e.st.eval(x.eq(x.buflen(e.st, b.buf), x.tt.intc(0), types.Typ[types.Int])) == -1 && e.st.eval(b.r.lenZero(e.Args[1])) == -1
}

func (b *byteReader) walk() {
	r := b.r
	x := r.x
	zero := x.tt.intc(0)
	b.counters = map[*Term]bool{}
	for _, p := range r.paths {
		for _, e := range p.Events {
			if e.Kind == "loop" {
				if j, ok := b.idx[e.Loop.Header]; ok && j >= 0 {
					b.counters[symsOf(e)[j]] = true
				}
			}
		}
	}
	used := map[*Term]bool{} // loop variables which hold the rest of the output
	for _, p := range r.paths {
		for _, e := range p.Events {
			if e.Kind == "call" && (e.Name == "copy" || e.Name == "bytes.Buffer.Read") {
				d := e.Args[0]
				if e.Name != "copy" {
					d = e.Args[1]
				}
				for d.Op == "slice" {
					d = d.Args[0]
				}
				used[d] = true
			}
		}
	}
	for _, p := range r.paths {
		if p.End == "panic" {
			b.check("read", false, p, nil, "reading can panic")
			continue
		}
		pos := zero
		enter := map[any]*Term{}
		var copies []*Event
		var cur *Event // received and not completely passed on
		var data, at *Term
		var fail *Term // the error of the stream
		flush := func(e *Event, st *State) {
			if cur == nil {
				return
			}
			c0 := cur
			cur = nil
			if data == nil {
				b.check("lossless", false, p, e, "a received message is dropped without looking at it")
				return
			}
			b.check("lossless", st.eval(r.lenZero(data)) == 1 || b.equal(st, at, x.length(data), copies), p, c0, "of the received bytes %s only those up to %s are passed on", data, at)
		}
		for i, e := range p.Events {
			switch {
			case e.Kind == "loop":
				flush(e, e.st)
				if e.Loop.Generic {
					moved := false
					for k := i - 1; k >= 0; k-- {
						f := p.Events[k]
						if f.Kind == "loop" && f.Loop.Header == e.Loop.Header {
							break
						}
						moved = moved || b.isRecv(f) || b.moves(f)
					}
					b.check("progress", moved, p, e, "reading may go on for ever: a round neither waits for a message nor delivers a byte")
				}
				j, ok := b.idx[e.Loop.Header]
				if !ok {
					j = -1
				}
				ss := symsOf(e)
				if j < 0 {
					if e.Loop.Generic {
						w, has := enter[e.Loop.Header]
						b.check("count", has && w == pos, p, e, "the number of delivered bytes is lost")
					}
					enter[e.Loop.Header] = pos
				} else {
					b.check("count", b.equal(e.st, e.Loop.Next[j], pos, copies), p, e, "%s bytes were delivered, but %s are counted", pos, e.Loop.Next[j])
					pos = ss[j]
				}
				for k, s := range ss {
					if used[s] && k < len(e.Loop.Next) {
						o := b.off(e.Loop.Next[k])
						if j >= 0 && o != nil {
							b.check("place", b.equal(e.st, o, e.Loop.Next[j], copies), p, e, "the rest of the output starts at %s, but %s bytes were delivered", o, e.Loop.Next[j])
						} else {
							b.check("place", o != nil && b.equal(e.st, o, pos, copies), p, e, "the rest of the output is %s", e.Loop.Next[k])
						}
					}
				}
				if !e.Loop.Generic {
					copies = nil
				}
			case b.isRecv(e):
				flush(e, e.st)
				err := e.Res[len(e.Res)-1]
				b.check("no-wait", r.ge(e.st, zero, pos, 0) == 1, p, e, "a message is waited for although %s bytes may be delivered already", pos)
				b.check("order", e.st.eval(x.eq(x.buflen(e.st, b.buf), zero, types.Typ[types.Int])) == 1, p, e, "a message is received although bytes may be buffered")
				switch p.St.eval(x.mkEqNil(err)) {
				case -1:
					fail = err
				case 1:
					cur, at = e, zero
					st := p.St
					if i+1 < len(p.Events) {
						st = p.Events[i+1].st
					}
					d, none, rerr := b.data(p, e, st)
					data = d
					if none {
						cur = nil
					}
					if rerr != nil {
						fail, cur = rerr, nil
					}
				default:
					b.check("errors", false, p, e, "the error of receiving is ignored")
				}
			case e.Kind == "call" && e.Name == "copy":
				dst, src := e.Args[0], e.Args[1]
				from := zero
				s := src
				if s.Op == "slice" && s.Args[2] == nil {
					if s.Args[1] != nil {
						from = s.Args[1]
					}
					s = s.Args[0]
				}
				if e.st.eval(r.lenZero(s)) == 1 {
					// nothing is copied
					copies = append(copies, e)
					pos = x.tt.mkLin(linOf(pos).plus(linOf(e.Res[0]), 1))
					continue
				}
				if cur == nil || s != data {
					b.check("lossless", dst.base() != r.param(0), p, e, "other bytes are copied to the output")
					continue
				}
				o := b.off(dst)
				b.check("place", o != nil && b.equal(e.st, o, pos, copies), p, e, "the bytes are copied to %s, but %s bytes were delivered", dst, pos)
				b.check("lossless", b.equal(e.st, from, at, copies), p, e, "the bytes from %s on are copied, but those up to %s were", from, at)
				copies = append(copies, e)
				pos = x.tt.mkLin(linOf(pos).plus(linOf(e.Res[0]), 1))
				at = x.tt.mkLin(linOf(at).plus(linOf(e.Res[0]), 1))
			case e.Kind == "call" && strings.HasPrefix(e.Name, "bytes.Buffer.") && len(e.Args) > 0 && e.Args[0] == b.buf:
				switch e.methodName() {
				case "Read":
					flush(e, e.st)
					o := b.off(e.Args[1])
					b.check("place", o != nil && b.equal(e.st, o, pos, copies), p, e, "the bytes are read to %s, but %s bytes were delivered", e.Args[1], pos)
					pos = x.tt.mkLin(linOf(pos).plus(linOf(e.Res[0]), 1))
				case "Write":
					from := zero
					s := e.Args[1]
					if s.Op == "slice" && s.Args[2] == nil {
						if s.Args[1] != nil {
							from = s.Args[1]
						}
						s = s.Args[0]
					}
					b.check("lossless", cur != nil && s == data || e.st.eval(r.lenZero(s)) == 1, p, e, "other bytes are buffered")
					if cur != nil {
						b.check("lossless", b.equal(e.st, from, at, copies), p, e, "the bytes from %s on are buffered, but those up to %s were delivered", from, at)
						at = x.length(data)
					}
				case "Len", "Bytes", "Grow", "Cap", "Available":
				default:
					b.check("lossless", false, p, e, "the buffer is changed by %s", e.Name)
				}
			}
		}
		if p.End != "return" {
			continue
		}
		flush(nil, p.St)
		n, err := p.Ret[0], p.Ret[1]
		b.check("count", b.equal(p.St, n, pos, copies), p, nil, "%s bytes were delivered, but %s is returned", pos, n)
		if fail != nil {
			b.check("errors", wrapsErr(p.St, err, fail) || p.St.provenNonNil(err) && isErrOf(err, fail), p, nil, "the error is not returned")
			continue
		}
		if p.St.eval(x.mkEqNil(err)) == 1 && p.St.eval(x.eq(pos, zero, types.Typ[types.Int])) == 1 {
			b.check("errors", p.St.eval(r.lenZero(r.param(0))) == 1, p, nil, "nothing is delivered, but no error is returned")
		}
		if p.St.eval(x.mkEqNil(err)) != 1 {
			b.check("errors", err.Ev != nil && strings.HasPrefix(err.Ev.Name, "bytes.Buffer.Read"), p, nil, "the error %s is made up", err)
			if err.Ev != nil && err.Ev.isCall("bytes.Buffer.Read") {
				got := p.St.eval(x.eq(err.Ev.Res[0], zero, types.Typ[types.Int])) == -1
				b.check("errors", got || b.moves(err.Ev) || err.Ev.st.eval(r.lenZero(err.Ev.Args[1])) == 1, p, err.Ev, "the empty buffer is taken for the end of the stream")
			}
		}
	}
}

// isErrOf decides that an error was made of a text.
func isErrOf(err, txt *Term) bool {
	a, ok := err.Obj.([]*Term)
	if !ok {
		return false
	}
	for _, x := range a {
		if x == txt {
			return true
		}
	}
	return err.contains(txt)
}

// run finds the variables which count the delivered bytes, then checks.
func (b *byteReader) run() {
	var heads []any
	cand := map[any][]int{}
	for _, p := range b.r.paths {
		for _, e := range p.Events {
			if e.Kind != "loop" || cand[e.Loop.Header] != nil {
				continue
			}
			heads = append(heads, e.Loop.Header)
			cand[e.Loop.Header] = []int{-1}
			for i, s := range symsOf(e) {
				if s.Op == "sym" && s.typ() != nil && types.Identical(s.typ(), types.Typ[types.Int]) {
					cand[e.Loop.Header] = append(cand[e.Loop.Header], i)
				}
			}
		}
	}
	best := map[any]int{}
	bestBad := -1
	b.idx = map[any]int{}
	b.quiet = true
	var rec func(i int)
	rec = func(i int) {
		if bestBad == 0 {
			return
		}
		if i == len(heads) {
			b.bad = 0
			b.walk()
			if bestBad < 0 || b.bad < bestBad {
				bestBad = b.bad
				best = map[any]int{}
				for k, v := range b.idx {
					best[k] = v
				}
			}
			return
		}
		for _, j := range cand[heads[i]] {
			b.idx[heads[i]] = j
			rec(i + 1)
		}
	}
	rec(0)
	b.idx, b.quiet = best, false
	b.walk()
}

func byteReaderRules(c *Checker) {
	c.rule("lossless", "the bytes of every received message are passed on exactly once: copied to the output, and those which do not fit to the buffer")
	c.rule("order", "a message is only received while no bytes are buffered, so that bytes never overtake each other")
	c.rule("place", "bytes are copied to the part of the output which follows the bytes delivered so far")
	c.rule("count", "the number of bytes returned is the number delivered")
	c.rule("no-wait", "no message is waited for once bytes were delivered")
	c.rule("errors", "an error of the stream is returned, no error is made up, and nothing but an empty output is answered with no bytes and no error")
	c.rule("progress", "every round of reading waits for a message or delivers a byte")
	c.rule("read", "reading never panics")
}

func ruleByteStreams(c *Checker) {
	byteReaderRules(c)
	c.rule("write", "writing sends the given bytes exactly once, in one message which does not share memory with them, and reports all of them written exactly if sending succeeded")
	c.rule("made-of", "the adapter works on the given stream, with messages which copy")
	p0 := c.load("linux")

	// over any stream
	t := p0.NamedType("srpc.StreamRwc")
	raw := p0.NamedType("srpc.RawMessage")
	if t == nil || raw == nil {
		panic(abort{&Violation{Rule: "anchor", Construct: "srpc.StreamRwc", Msg: "the type does not exist any more: the property can not be decided"}})
	}
	buf := c.role(t, "the buffer", tyNamed("bytes.Buffer"))
	strm := c.role(t, "the stream", tyNamed(ModPath+"/srpc.Stream"))
	data := c.role(raw, "the held bytes", tyString("[]byte"))
	flag := c.role(raw, "the copy mode", tyBasic(types.Bool))
	r := c.runMethod(types.NewPointer(t), "Read")
	rawOf := func(v *Term) *Term {
		if v.Op == "iface" {
			return v.Args[0]
		}
		return v
	}
	br := &byteReader{c: c, r: r, buf: buf.addr(r.x, r.recv()),
		isRecv: func(e *Event) bool { return e.onField(strm, "MsgRecv") },
		data: func(p *Path, e *Event, st *State) (*Term, bool, *Term) {
			return r.x.load(st, data.addr(r.x, rawOf(e.Args[1])), data.typ), false, nil
		}}
	br.run()
	r = c.runMethod(types.NewPointer(t), "Write")
	for _, p := range c.returns("write", r) {
		var snd []*Event
		for _, e := range p.Events {
			if e.onField(strm, "MsgSend") {
				snd = append(snd, e)
			}
		}
		src := r.param(0)
		if !c.check("write", r.name, len(snd) == 1, r, p, nil, "%d messages are sent", len(snd)) {
			continue
		}
		e := snd[0]
		obj := rawOf(e.Args[1])
		v := r.x.load(e.st, data.addr(r.x, obj), data.typ)
		mode := e.st.eval(r.x.load(e.st, flag.addr(r.x, obj), flag.typ))
		if mode == -1 && obj.Op == "field" {
			continue // the constructor makes it copy
		}
		c.check("write", r.name, r.isCopy(p, e, v, src) || v == src && mode == 1, r, p, e, "the message holds %s and not the written bytes", v)
		if v.Op != "make" {
			c.check("write", r.name, mode == 1, r, p, e, "the message shares memory which is written again")
		}
		c.wroteAll(r, p, e, src)
	}
	r = c.run("srpc.NewStreamRwc")
	for _, p := range c.returns("made-of", r) {
		o := p.St.rep(p.Ret[0])
		c.check("made-of", r.name, r.x.load(p.St, strm.addr(r.x, o), strm.typ) == r.param(0), r, p, nil, "the adapter is for another stream")
		st := elemType(o).Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if types.Identical(st.Field(i).Type(), raw) {
				a := r.x.fieldAddr(o, o.Typ, i)
				c.check("made-of", r.name, p.St.eval(r.x.load(p.St, flag.addr(r.x, a), flag.typ)) == 1, r, p, nil, "the message %s does not copy", st.Field(i).Name())
			}
		}
	}
	for pos, fn := range p0.storeSites(flag.aux) {
		n := FnName(fn)
		c.site("made-of", n, n == "srpc.NewStreamRwc" || n == "srpc.NewRawMessage", p0.Pos(pos), "%s changes the copy mode of a message", n)
	}

	// over a rpc stream
	rt := c.implOf(p0, "rpcstream.NewRpcStreamReadWriter", 0)
	rs := c.role(rt, "the stream", tyNamed(ModPath+"/rpcstream.RpcStream"))
	rb := c.role(rt, "the buffer", tyNamed("bytes.Buffer"))
	r = c.runMethod(rt, "Read")
	br = &byteReader{c: c, r: r, buf: rb.addr(r.x, r.recv()),
		isRecv: func(e *Event) bool { return e.onField(rs, "Recv") },
		data: func(p *Path, e *Event, st *State) (*Term, bool, *Term) {
			return rpcPacketData(r, p, e.Res[0])
		}}
	br.run()
	c.rpcWrite("write", c.runMethod(rt, "Write"), rs)
	c.transparentClose("write", c.runMethod(rt, "Close"), rs, "Close")
	c.ctor("made-of", "rpcstream.NewRpcStreamReadWriter", 0, map[string]int{ModPath + "/rpcstream.RpcStream": 0})
	c.floor("lossless", 2)
	c.floor("order", 2)
	c.floor("place", 2)
	c.floor("count", 2)
	c.floor("no-wait", 2)
	c.floor("errors", 2)
	c.floor("write", 3)
	c.floor("made-of", 2)
}

// wroteAll checks the result of a write.
func (c *Checker) wroteAll(r *Run, p *Path, e *Event, src *Term) {
	err := e.Res[len(e.Res)-1]
	n := r.x.length(src)
	switch p.St.eval(r.x.mkEqNil(err)) {
	case 1:
		c.check("write", r.name, p.Ret[0] == n && r.retNil(p, 1) == 1, r, p, nil, "%s bytes are reported written", p.Ret[0])
	case -1:
		z, ok := p.Ret[0].intVal()
		c.check("write", r.name, wrapsErr(p.St, p.Ret[1], err) && ok && z == 0, r, p, nil, "a failed send is reported as %s bytes written", p.Ret[0])
	default:
		c.check("write", r.name, false, r, p, e, "the result of sending is ignored")
	}
}

// rpcPacketData tells what a packet of a rpc stream carries.
func rpcPacketData(r *Run, p *Path, pk *Term) (*Term, bool, *Term) {
	st := p.St
	if st.isNil(pk) {
		return nil, true, nil
	}
	kind, inner := r.rpcBody(p, pk)
	switch kind {
	case "Data":
		return r.fieldEarly(p, inner, "Data"), false, nil
	case "Ack":
		ack := r.fieldEarly(p, inner, "Ack")
		if ack == nil {
			return nil, false, nil
		}
		if st.isNil(ack) {
			return nil, true, nil
		}
		txt := r.fieldEarly(p, ack, "Error")
		switch st.eval(r.lenZero(txt)) {
		case 1:
			return nil, true, nil
		case -1:
			return nil, false, txt
		}
		return nil, false, nil
	case "Init", "nil", "other":
		return nil, true, nil
	}
	return nil, false, nil
}

// rpcBody tells the kind of the body of a rpc stream packet, as far as the path knows.
func (r *Run) rpcBody(p *Path, pk *Term) (string, *Term) {
	body := r.bodyOf(p, pk)
	if body == nil {
		return "", nil
	}
	if p.St.isNil(body) {
		return "nil", nil
	}
	no := map[string]bool{}
	for f, v := range p.St.facts {
		if f.Op == "istype" && f.Args[0] == body {
			k := f.Aux[strings.LastIndexByte(f.Aux, '_')+1:]
			if v {
				return k, r.x.tt.mk("assert", f.Aux, nil, body)
			}
			no[k] = true
		}
	}
	if no["Data"] && no["Ack"] {
		return "other", nil
	}
	if no["Data"] {
		return "nodata", nil
	}
	return "", nil
}

// rpcWrite checks a write of bytes to a rpc stream.
func (c *Checker) rpcWrite(rule string, r *Run, rs *Role) {
	for _, p := range c.returns(rule, r) {
		src := r.param(0)
		var snd []*Event
		for _, e := range p.Events {
			if e.onField(rs, "Send") {
				snd = append(snd, e)
			}
		}
		if len(snd) == 0 {
			z, ok := p.Ret[0].intVal()
			c.check(rule, r.name, p.St.eval(r.lenZero(src)) == 1 && r.retNil(p, 1) == 1 && (ok && z == 0 || p.Ret[0] == r.x.length(src)), r, p, nil, "bytes are not sent")
			continue
		}
		if !c.check(rule, r.name, len(snd) == 1, r, p, nil, "the bytes are sent %d times", len(snd)) {
			continue
		}
		e := snd[0]
		kind, v := r.rpcPacket(e.st, e.Args[1])
		c.check(rule, r.name, kind == "Data" && v == src, r, p, e, "a packet of kind %q with %v is sent and not the bytes", kind, v)
		c.wroteAll(r, p, e, src)
	}
}

// rpcPacket finds kind and content of a packet which is made on the path.
func (r *Run) rpcPacket(st *State, pk *Term) (string, *Term) {
	b := r.fieldAt(st, pk, "Body")
	if b == nil {
		return "", nil
	}
	b = st.rep(b)
	if b.Op != "iface" {
		return "", nil
	}
	n := typeKeyFull(b.Args[0].typ())
	kind := n[strings.LastIndexByte(n, '_')+1:]
	return kind, r.fieldAt(st, b.Args[0], kind)
}

// transparentClose checks that a method closes what it wraps.
func (c *Checker) transparentClose(rule string, r *Run, ro *Role, method string) {
	for _, p := range c.returns(rule, r) {
		var cs []*Event
		for _, e := range p.Events {
			if e.Kind == "call" && len(e.Args) > 0 && loadOf(ro)(e.Args[0]) {
				cs = append(cs, e)
			}
		}
		c.check(rule, r.name, len(cs) == 1 && cs[0].methodName() == method && same(p.St, p.Ret[0], cs[0].Res[0]), r, p, nil, "the stream is not closed with its result returned")
	}
}

func init() {
	props["S22"] = ruleRawMessage
	props["S23"] = ruleByteStreams
}
