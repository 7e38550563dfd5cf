package main

import (
	"go/types"
	"strings"
)

// subst replaces terms inside a value.
func (x *Exec) subst(t *Term, m map[*Term]*Term) *Term {
	if t == nil {
		return nil
	}
	if v, ok := m[t]; ok {
		return v
	}
	switch t.Op {
	case "lin":
		l := t.Obj.(lin)
		out := lin{co: map[*Term]int64{}, k: l.k}
		for v, c := range l.co {
			out = out.plus(linOf(x.subst(v, m)), c)
		}
		return x.tt.mkLin(out)
	case "slice":
		return x.slice(x.subst(t.Args[0], m), x.subst(t.Args[1], m), x.subst(t.Args[2], m), x.subst(t.Args[3], m), t.Typ)
	case "len":
		return x.length(x.subst(t.Args[0], m))
	}
	if len(t.Args) == 0 || t.Obj != nil {
		return t
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = x.subst(a, m)
		ch = ch || args[i] != a
	}
	if !ch {
		return t
	}
	r := x.tt.mk(t.Op, t.Aux, t.Typ, args...)
	r.Fn = t.Fn
	return r
}

// loopSubst maps the loop symbols of a back edge to the values carried over.
func loopSubst(e *Event) map[*Term]*Term {
	m := map[*Term]*Term{}
	syms := e.Loop.Sym
	if syms == nil {
		syms = e.Loop.Cur
	}
	for i, s := range syms {
		if i < len(e.Loop.Next) && s.Op == "sym" {
			m[s] = e.Loop.Next[i]
		}
	}
	return m
}

// ge decides a >= b+k.
func (r *Run) ge(st *State, a, b *Term, k int64) int {
	l := linOf(a).plus(linOf(b), -1)
	l.k -= k
	return st.eval(r.x.ge0(l))
}

func (r *Run) nilErr(st *State, e *Term) int { return st.eval(r.x.mkEqNil(e)) }

// sliceType of bytes.
var bytesT = types.NewSlice(types.Typ[types.Byte])

// ---- frame writer

func (c *Checker) prw() (t types.Type, rw, mtx, buf *Role) {
	p := c.load("linux")
	t = p.NamedType("srpc.PacketReadWriter")
	if t == nil {
		panic(abort{&Violation{Rule: "anchor", Construct: "srpc.PacketReadWriter", Msg: "the type does not exist any more: the property can not be decided"}})
	}
	rw = c.role(t, "the stream", tyNamed("io.ReadWriteCloser"), "rw")
	mtx = c.role(t, "the write lock", func(u types.Type) bool { return tyNamed("sync.Mutex")(u) || tyNamed("sync.RWMutex")(u) }, "writeMtx")
	buf = c.role(t, "the receive buffer", tyNamed("bytes.Buffer"), "buf")
	return
}

// onField reports a method call on the value of a field of the receiver.
func (e *Event) onField(ro *Role, method string) bool {
	if e.Kind != "call" || e.methodName() != method || len(e.Args) == 0 {
		return false
	}
	a := e.Args[0]
	return a.Op == "load" && ro.is(a.Args[0]) || ro.is(a)
}

func ruleFrameWrite(c *Checker) {
	c.rule("frame", "the first bytes written for a packet are the whole frame: a new buffer of 4 bytes more than the encoded size, with that size as a little-endian 32-bit prefix and the encoding of the packet behind it")
	c.rule("size-fits", "the prefix is only written if the size fits in 32 bits")
	c.rule("continue", "after a partial write exactly the bytes which were not written follow, and only if the write made progress")
	c.rule("all-or-error", "success is only reported after every byte of the frame was written; every failed step is reported and nothing is written after it")
	c.rule("exclusive", "every write to the stream happens under the write lock, one packet under a single acquisition, and the lock is released on every path")
	c.rule("close", "closing the writer closes the stream, once, and returns the result")
	t, rw, mtx, _ := c.prw()
	for _, m := range exportedMethods(c.p, t) {
		r := c.runMethod(t, m)
		for _, p := range allPaths(r) {
			for _, e := range p.Events {
				if e.onField(rw, "Write") {
					c.check("exclusive", e.fnName(), e.holdsAddr(mtx.addr(r.x, r.recv())) != nil, r, p, e, "the stream is written without the write lock")
				}
			}
			for _, l := range p.St.locks {
				c.check("exclusive", r.name, p.End != "return" || !mtx.is(l.Addr), r, p, nil, "the path ends with the write lock held")
			}
		}
	}
	r := c.runMethod(t, "WritePacket")
	heads := map[any]*Term{} // what remains to be written at a loop head
	for _, p := range r.paths {
		for i, e := range p.Events {
			if e.Kind != "loop" || e.Loop.Generic {
				continue
			}
			for _, f := range p.Events[i+1:] {
				if f.onField(rw, "Write") {
					heads[e.Loop.Header] = f.Args[1]
				}
				if f.onField(rw, "Write") || f.Kind == "loop" {
					break
				}
			}
		}
	}
	con := r.name
	pk := r.param(0)
	for _, p := range r.paths {
		if p.End == "panic" {
			c.check("all-or-error", con, false, r, p, nil, "writing a packet can panic")
			continue
		}
		var rem *Term // what remains to be written
		acq := -1
		started := false
		failed := false
		for _, e := range p.Events {
			if e.Kind == "loop" {
				if !started {
					continue
				}
				h, ok := heads[e.Loop.Header]
				if !ok {
					continue
				}
				c.check("continue", con, r.x.subst(h, loopSubst(e)) == rem, r, p, e, "after a write %s follows, but %s remains", r.x.subst(h, loopSubst(e)), rem)
				if w := lastWrite(p, e, rw); w != nil {
					c.check("continue", con, e.st.eval(r.x.eq(w.Res[0], r.x.tt.intc(0), types.Typ[types.Int])) == -1 || r.ge(e.st, w.Res[0], r.x.tt.intc(0), 1) == 1, r, p, e, "a write without progress is repeated")
					c.check("all-or-error", con, r.nilErr(e.st, w.Res[1]) == 1, r, p, e, "the error of a write is ignored")
				}
				rem = h
				if !e.Loop.Generic {
					continue
				}
			}
			if !e.onField(rw, "Write") {
				continue
			}
			c.check("all-or-error", con, !failed, r, p, e, "something is written after a failed write")
			if l := e.holdsAddr(mtx.addr(r.x, r.recv())); l != nil {
				c.check("exclusive", con, acq == -1 || acq == l.N, r, p, e, "one packet is written under several acquisitions of the lock")
				acq = l.N
			}
			if !started {
				started = true
				c.frameBuffer(r, p, e, pk, con)
				rem = e.Args[1]
			}
			if lastWrite(p, e, rw) != nil {
				c.check("continue", con, r.ge(e.st, r.x.length(e.Args[1]), r.x.tt.intc(1), 0) == 1 || e.st.eval(r.lenZero(e.Args[1])) == -1, r, p, e, "it is written again although everything may have been")
			}
			c.check("continue", con, e.Args[1] == rem, r, p, e, "%s is written, but %s remains", e.Args[1], rem)
			rem = r.x.slice(rem, e.Res[0], nil, nil, rem.Typ)
			if r.nilErr(p.St, e.Res[1]) != 1 {
				failed = true
			}
		}
		if p.End != "return" {
			continue
		}
		ok := r.retNil(p, 0)
		c.check("all-or-error", con, ok != 0, r, p, nil, "it is not decided whether the write succeeds")
		if failed {
			c.check("all-or-error", con, ok == -1, r, p, nil, "a failed write is reported as success")
		}
		if ok == 1 {
			if !started {
				// only an empty frame needs no write: there is none
				mk := makeOf(p)
				c.check("all-or-error", con, mk != nil && r.ge(p.St, r.x.tt.intc(0), mk, 0) == 1, r, p, nil, "success is reported although nothing was written")
				continue
			}
			c.check("all-or-error", con, r.ge(p.St, r.x.tt.intc(0), r.x.length(rem), 0) == 1, r, p, nil, "success is reported although %s may not be written", rem)
		}
	}
	w := c.runMethod(t, "Write")
	for _, p := range w.paths {
		n := 0
		for _, e := range p.Events {
			if e.onField(rw, "Write") {
				n++
				c.check("all-or-error", w.name, e.Args[1] == w.param(0) && len(p.Ret) == 2 && p.Ret[0] == e.Res[0] && p.Ret[1] == e.Res[1], w, p, e, "the write does not forward the data or its result")
			}
		}
		c.check("all-or-error", w.name, n == 1 || p.End != "return", w, p, nil, "%d writes are made", n)
	}
	w = c.runMethod(t, "Close")
	for _, p := range c.returns("close", w) {
		var cs []*Event
		for _, e := range p.Events {
			if e.onField(rw, "Close") {
				cs = append(cs, e)
			}
		}
		c.check("close", w.name, len(cs) == 1 && same(p.St, p.Ret[0], cs[0].Res[0]), w, p, nil, "the stream is not closed once with the result returned")
	}
	c.floor("close", 1)
	c.floor("frame", 1)
	c.floor("continue", 4)
	c.floor("all-or-error", 8)
	c.floor("exclusive", 5)
}

func lastWrite(p *Path, before *Event, rw *Role) *Event {
	var w *Event
	for _, e := range p.Events {
		if e == before {
			return w
		}
		if e.onField(rw, "Write") {
			w = e
		}
	}
	return w
}

// makeOf finds the length of the frame buffer of a path which writes nothing.
func makeOf(p *Path) *Term {
	for _, e := range p.Events {
		if e.Kind == "call" && e.methodName() == "PutUint32" && len(e.Args) == 3 {
			b := e.Args[1]
			for b.Op == "slice" {
				b = b.Args[0]
			}
			if n, ok := b.Obj.(*Term); ok && b.Op == "make" {
				return n
			}
		}
	}
	return nil
}

// regionOf is the part of the frame which a slice of it covers, from a position on.
func regionOf(s, fr *Term) (lo int64, hi *Term, ok bool) {
	if s == fr {
		return 0, nil, true
	}
	if s.Op != "slice" || s.Args[0] != fr {
		return 0, nil, false
	}
	if s.Args[1] != nil {
		if lo, ok = s.Args[1].intVal(); !ok {
			return 0, nil, false
		}
	}
	return lo, s.Args[2], true
}

// leByte tells which number a byte is of.
func leByte(v *Term, i int64) *Term {
	if v.Op != "conv" && v.Op != "iconv" {
		return nil
	}
	v = v.Args[0]
	if i == 0 {
		return v
	}
	if v.Op != "bin" || v.Aux != ">>" {
		return nil
	}
	if n, ok := v.Args[1].intVal(); !ok || n != 8*i {
		return nil
	}
	return v.Args[0]
}

// frameBuffer checks the content of the frame at its first write.
func (c *Checker) frameBuffer(r *Run, p *Path, w *Event, pk *Term, con string) {
	fr := w.Args[1]
	x := r.x
	// the number in the prefix, the content and the size of the packet
	var num, size *Term
	bodies := map[*Term]bool{} // encodings of the packet
	single := map[int64]*Term{}
	prefix, enc := 0, 0
	setNum := func(e *Event, n *Term) {
		prefix++
		num = n
		st := w.st
		if e != nil {
			st = e.st
		}
		c.check("size-fits", con, r.ge(st, x.tt.intc(4294967295), n, 0) == 1, r, p, w, "the size may not fit in 32 bits")
	}
	isFrame := fr.Op == "make" && fr.Typ != nil
	var tail *Term // of a frame which is appended
	if fr.Op == "appends" {
		h := fr.Args[0]
		tail = fr.Args[1]
		fresh := func(b *Term) bool {
			return b.Op == "nil" || b.Op == "make" && w.st.eval(r.lenZero(b)) == 1
		}
		switch {
		case h.Op == "appends" && h.Args[1].Op == "fixed" && strings.Contains(h.Args[1].Aux, "littleEndian") && fresh(h.Args[0]):
			isFrame = true
			setNum(nil, h.Args[1].Args[0])
		case h.Op == "append" && len(h.Args) == 5 && fresh(h.Args[0]):
			n := leByte(h.Args[1], 0)
			isFrame = n != nil
			for i := int64(1); i < 4; i++ {
				isFrame = isFrame && leByte(h.Args[i+1], i) == n
			}
			if isFrame {
				setNum(nil, n)
			}
		}
	}
	if !c.check("frame", con, isFrame, r, p, w, "the first write is %s and not the start of a new buffer with the size", fr) {
		return
	}
	encoded := func(e *Event) {
		enc++
		c.check("all-or-error", con, r.nilErr(w.st, e.Res[1]) == 1, r, p, w, "the frame is written although the packet could not be encoded")
	}
	encs := map[*Term]*Event{}
	for _, e := range p.Events {
		if e == w {
			break
		}
		if e.Kind == "store" && e.Addr.base() == fr {
			var i int64 = -1
			if e.Addr.Op == "index" && e.Addr.Args[0] == fr {
				if n, ok := e.Addr.Args[1].intVal(); ok {
					i = n
				}
			}
			var v *Term
			if i >= 0 && i < 4 {
				v = leByte(e.Val, i)
			}
			if c.check("frame", con, v != nil && single[i] == nil, r, p, e, "the frame is changed") {
				single[i] = v
			}
		}
		if e.Kind != "call" {
			continue
		}
		switch e.methodName() {
		case "SizeVT":
			if e.Args[0] == pk {
				size = e.Res[0]
			}
		case "MarshalVT":
			if e.Args[0] == pk {
				bodies[e.Res[0]] = true
				encs[e.Res[0]] = e
				if size == nil {
					size = x.length(e.Res[0])
				}
			}
		case "PutUint32":
			lo, _, ok := regionOf(e.Args[1], fr)
			if c.check("frame", con, strings.Contains(e.Name, "littleEndian") && ok && lo == 0, r, p, e, "the size is not written in little-endian order at the start of the frame") {
				setNum(e, e.Args[2])
			}
		case "MarshalToSizedBufferVT", "MarshalToVT":
			d := e.Args[1]
			lo, hi, ok := regionOf(d, fr)
			c.check("frame", con, e.Args[0] == pk && ok && lo == 4 && (hi == nil || hi == x.length(fr)), r, p, e, "the packet is not encoded into the frame behind the prefix")
			encoded(e)
		case "copy":
			d, b := e.Args[0], e.Args[1]
			lo, _, ok := regionOf(d, fr)
			if !ok {
				continue
			}
			if c.check("frame", con, lo == 4 && bodies[b], r, p, e, "the packet is not copied into the frame behind the prefix") {
				encoded(encs[b])
			}
		default:
			for _, a := range e.Args {
				if a.base() == fr && !readOnly(e.Name) {
					c.check("frame", con, false, r, p, e, "the frame is changed by %s", e.Name)
				}
			}
		}
	}
	if tail != nil {
		if c.check("frame", con, bodies[tail], r, p, w, "behind the prefix the frame has %s", tail) {
			encoded(encs[tail])
		}
	}
	if len(single) == 4 {
		n := single[0]
		if c.check("frame", con, n == single[1] && n == single[2] && n == single[3], r, p, w, "the bytes of the prefix are not of one number") {
			setNum(nil, n)
		}
	} else if len(single) > 0 {
		c.check("frame", con, false, r, p, w, "only a part of the prefix is written")
	}
	c.check("frame", con, prefix == 1 && enc == 1, r, p, w, "the frame has %d prefixes and %d encodings", prefix, enc)
	sizes := []*Term{size}
	for b := range bodies {
		sizes = append(sizes, x.length(b))
	}
	is := func(n *Term) bool {
		for _, s := range sizes {
			if s != nil && n == s {
				return true
			}
		}
		return false
	}
	if num != nil {
		c.check("size-fits", con, is(num), r, p, w, "the prefix is %s and not the size of the packet, or the size may not fit", num)
		want := x.tt.mkLin(linOf(num).plus(lin{k: 4}, 1))
		c.check("frame", con, x.length(fr) == want, r, p, w, "the frame has length %s", x.length(fr))
	}
}

func init() {
	props["S01"] = ruleFrameWrite
}

// ---- frame reader

const le32 = "encoding/binary.littleEndian.Uint32/0"

// frameReader knows the paths of the frame reader.
type frameReader struct {
	c        *Checker
	r        *Run
	rw, buf  *Role
	bufAddr  *Term
	incoming map[*Term][]loopIn
	reads    map[any]bool // loops which start with a read
}

type loopIn struct {
	p   *Path
	e   *Event
	val *Term
}

// consumes reports if the event takes bytes out of the buffer.
func (f *frameReader) consumes(e *Event) bool {
	return e.Kind == "call" && strings.HasPrefix(e.Name, "bytes.Buffer.") && len(e.Args) > 0 && e.Args[0] == f.bufAddr &&
		e.methodName() != "Write" && !readOnlyBuf[e.methodName()]
}

var readOnlyBuf = map[string]bool{"Bytes": true, "Len": true, "Cap": true, "Available": true, "String": true}

// prefix reports if a value is the length prefix of the packet at the head of the buffer.
func (f *frameReader) prefix(p *Path, e *Event, l *Term, seen map[*Term]bool) bool {
	if l.Op == "iconv" {
		l = l.Args[0]
	}
	if l.Op == "pure" && l.Aux == le32 && len(l.Args) == 2 {
		b := l.Args[1]
		if b.Op == "slice" {
			if b.Args[1] != nil {
				return false
			}
			b = b.Args[0]
		}
		if b.Op != "bufbytes" || b.Args[0] != f.bufAddr {
			return false
		}
		v := atoi(b.Aux)
		for _, g := range p.Events {
			if g.Idx >= e.Idx {
				break
			}
			if f.consumes(g) && f.r.x.bufver(g.st, f.bufAddr) >= v {
				return false
			}
		}
		return true
	}
	if l.Op != "sym" {
		return false
	}
	// a loop variable: not stale on this path, and valid on every way in
	start := -1
	for _, g := range p.Events {
		if g.Idx >= e.Idx {
			break
		}
		if g.Kind == "loop" {
			for _, s := range g.Loop.Sym {
				if s == l {
					start = g.Idx
				}
			}
		}
	}
	if start < 0 {
		return false
	}
	for _, g := range p.Events {
		if g.Idx > start && g.Idx < e.Idx && f.consumes(g) {
			return false
		}
	}
	if seen[l] {
		return true
	}
	seen[l] = true
	for _, in := range f.incoming[l] {
		if in.val == l {
			if !f.prefix(in.p, in.e, l, seen) && f.zero(in.e.st, l) != 1 {
				return false
			}
			continue
		}
		if f.zero(in.e.st, in.val) == 1 {
			continue
		}
		if !f.prefix(in.p, in.e, in.val, seen) {
			return false
		}
	}
	return true
}

func (f *frameReader) zero(st *State, l *Term) int {
	return st.eval(f.r.x.eq(l, f.r.x.tt.intc(0), types.Typ[types.Int]))
}

// bounded reports if the length is limited by a constant of the program.
func (f *frameReader) bounded(p *Path, e *Event, l *Term, seen map[*Term]bool) bool {
	for t, v := range e.st.facts {
		switch {
		case t.Op == "ge0":
			ln := linOf(t.Args[0])
			if !v {
				ln = ln.scale(-1)
			}
			if ln.co[l] >= 0 {
				continue
			}
			ok := true
			for u := range ln.co {
				if u != l && !configTerm(u) {
					ok = false
				}
			}
			if ok {
				return true
			}
		case t.Op == "cmp" && len(t.Args) == 2:
			a, b := t.Args[0], t.Args[1]
			if a.contains(l) && configTerm(b) && (t.Aux == ">" && !v || t.Aux == ">=" && !v || t.Aux == "<=" && v || t.Aux == "<" && v) ||
				b.contains(l) && configTerm(a) && (t.Aux == "<" && !v || t.Aux == "<=" && !v || t.Aux == ">=" && v || t.Aux == ">" && v) {
				return true
			}
		}
	}
	if l.Op != "sym" || len(f.incoming[l]) == 0 {
		return false
	}
	if seen[l] {
		return true
	}
	seen[l] = true
	for _, in := range f.incoming[l] {
		if in.val == l || f.zero(in.e.st, in.val) == 1 || f.bounded(in.p, in.e, in.val, seen) {
			continue
		}
		return false
	}
	return true
}

// configTerm is a constant or a package variable.
func configTerm(t *Term) bool {
	switch t.Op {
	case "const":
		return true
	case "conv", "iconv":
		return configTerm(t.Args[0])
	case "load":
		return t.Args[0].Op == "global"
	}
	return false
}

// drained reports if no complete packet is in the buffer.
func (f *frameReader) drained(p *Path, e *Event) bool {
	x := f.r.x
	n := x.buflen(e.st, f.bufAddr)
	if f.r.ge(e.st, x.tt.intc(3), n, 0) == 1 {
		return true
	}
	cand := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil {
			return
		}
		if t.Op == "pure" && t.Aux == le32 || t.Op == "sym" {
			cand[t] = true
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for t := range e.st.facts {
		walk(t)
	}
	for l := range cand {
		if f.r.ge(e.st, x.tt.mkLin(linOf(l).plus(lin{k: 3}, 1)), n, 0) == 1 && f.zero(e.st, l) == -1 && f.prefix(p, e, l, map[*Term]bool{}) {
			return true
		}
	}
	return false
}

// ended reports if the error of the last read before the event is an orderly end.
func (f *frameReader) ended(p *Path, e *Event) bool {
	var rd *Event
	for _, g := range p.Events {
		if g.Idx >= e.Idx && g != e {
			break
		}
		if g.onField(f.rw, "Read") {
			rd = g
		}
	}
	if rd == nil {
		return false
	}
	return isSentinel(e.st, rd.Res[1], "io.EOF") || isSentinel(e.st, rd.Res[1], "context.Canceled")
}

// flagMeans: on the path a loop variable has a value which it only gets where pred holds.
func (r *Run) flagMeans(p *Path, st *State, incoming map[*Term][]loopIn, pred func(p *Path, e *Event) bool) bool {
	for s, ins := range incoming {
		v, ok := st.facts[s]
		if !ok {
			if n := st.eval(s); s.Typ != nil && types.Identical(s.Typ, types.Typ[types.Bool]) && n != 0 {
				v, ok = n == 1, true
			}
		}
		if !ok {
			continue
		}
		good := len(ins) > 0
		for _, in := range ins {
			got := in.e.st.eval(in.val)
			if in.val == s || got == 1 && !v || got == -1 && v {
				continue
			}
			if !pred(in.p, in.e) {
				good = false
			}
		}
		if good {
			return true
		}
	}
	return false
}

// loopInputs lists the values every loop variable gets.
func loopInputs(r *Run) map[*Term][]loopIn {
	out := map[*Term][]loopIn{}
	for _, p := range r.paths {
		for _, e := range p.Events {
			if e.Kind != "loop" {
				continue
			}
			syms := e.Loop.Sym
			if syms == nil {
				syms = e.Loop.Cur
			}
			for i, s := range syms {
				if s.Op == "sym" && i < len(e.Loop.Next) {
					out[s] = append(out[s], loopIn{p, e, e.Loop.Next[i]})
				}
			}
		}
	}
	return out
}

func ruleFrameRead(c *Checker) {
	c.rule("buffer-all", "all bytes of a read, also of one which reports the end, are appended to the buffer before anything else happens; only a read error other than the end skips this")
	c.rule("emit", "the handler gets exactly the bytes behind the 4 byte little-endian length prefix at the head of the buffer, as many as it says, and they leave the buffer together with the prefix")
	c.rule("limits", "a packet is only handed on if its length is not zero, is limited by the configured maximum, and is completely buffered")
	c.rule("no-wait", "no further read is made while a complete packet is buffered")
	c.rule("errors", "an error of the handler or of the stream ends the reader with that error, and an error of its own is only reported for a zero or too large length or for a stream which ends in the middle of a packet")
	c.rule("end", "success is only reported after the stream reported its end (or was canceled) with nothing left in the buffer, and then no further read is made")
	c.rule("closed-once", "the read pump calls the close handler exactly once, after the reader returned, with its error")
	t, rw, _, buf := c.prw()
	r := c.runMethod(t, "ReadToHandler")
	con := r.name
	f := &frameReader{c: c, r: r, rw: rw, buf: buf, bufAddr: buf.addr(r.x, r.recv()), incoming: loopInputs(r), reads: map[any]bool{}}
	for _, p := range r.paths {
		for i, e := range p.Events {
			if e.Kind != "loop" {
				continue
			}
			for _, g := range p.Events[i+1:] {
				if g.onField(rw, "Read") {
					f.reads[e.Loop.Header] = true
				}
				if g.Kind == "loop" || g.onField(rw, "Read") || g.Kind == "call" {
					break
				}
			}
		}
	}
	cb := r.param(0)
	for _, p := range r.paths {
		if p.End == "panic" {
			c.check("errors", con, false, r, p, nil, "the reader can panic")
			continue
		}
		var pending, last *Event // read whose bytes are not buffered yet
		var lastCb, taken *Event // taken: left the buffer but was not handed on yet
		lost := func(at *Event) {
			if taken != nil {
				c.check("emit", con, false, r, p, at, "a packet leaves the buffer and is not handed to the handler")
			}
			taken = nil
		}
		seen := false // the error of the last read was checked at a back edge
		fatal := func(st *State, rd *Event) bool {
			return r.nilErr(st, rd.Res[1]) == -1 && !isSentinel(st, rd.Res[1], "io.EOF") && !isSentinel(st, rd.Res[1], "context.Canceled")
		}
		for _, e := range p.Events {
			switch {
			case e.onField(rw, "Read"):
				c.check("buffer-all", con, pending == nil, r, p, e, "the bytes of a read are dropped")
				if last != nil && !seen {
					c.check("errors", con, r.nilErr(e.st, last.Res[1]) == 1, r, p, e, "the error of a read is ignored")
				}
				pending, last, seen = e, e, false
			case e.Kind == "call" && e.Name == "bytes.Buffer.Write" && e.Args[0] == f.bufAddr:
				ok := pending != nil
				if ok {
					want := r.x.slice(pending.Args[1], nil0(r), pending.Res[0], nil, pending.Args[1].Typ)
					ok = e.Args[1] == want
				}
				c.check("buffer-all", con, ok, r, p, e, "not the bytes of the read are buffered but %s", e.Args[1])
				pending = nil
			case e.Kind == "call" && e.Recv == cb:
				c.check("buffer-all", con, pending == nil, r, p, e, "a packet is handled before the bytes of the read are buffered")
				if lastCb != nil {
					c.check("errors", con, r.nilErr(e.st, lastCb.Res[0]) == 1, r, p, e, "the error of the handler is ignored")
				}
				lastCb = e
				if taken != nil && len(taken.Res) > 0 && e.Args[0].contains(taken.Res[0]) {
					taken = nil
				}
				f.emit(p, e, con)
			case e.Kind == "loop":
				lost(e)
				if lastCb != nil {
					c.check("errors", con, r.nilErr(e.st, lastCb.Res[0]) == 1, r, p, e, "the error of the handler is ignored")
				}
				if f.reads[e.Loop.Header] {
					c.check("buffer-all", con, pending == nil, r, p, e, "the bytes of a read are dropped")
					c.check("no-wait", con, f.drained(p, e), r, p, e, "a further read may be made although a complete packet is buffered")
					if last != nil && r.nilErr(e.st, last.Res[1]) != 1 {
						c.check("errors", con, f.ended(p, e), r, p, e, "the error of a read is ignored")
						c.check("end", con, f.stops(e), r, p, e, "a further read is made after the end of the stream")
					}
					seen = true
				}
			case f.consumes(e):
				ok := e.methodName() == "Next"
				if !c.check("emit", con, ok, r, p, e, "the buffer is changed by %s", e.Name) {
					continue
				}
				if taken != nil {
					if n, is := taken.Args[1].intVal(); is && n == 4 {
						taken = nil // the prefix of this packet
					}
				}
				lost(e)
				if lastCb != nil {
					if d := lastCb.Args[0]; d.Op == "slice" && d.Args[0].Op == "bufbytes" && d.Args[2] == e.Args[1] && !f.consumedSince(p, lastCb, e) {
						continue // was handed on before
					}
				}
				taken = e
			}
		}
		if p.End != "return" {
			continue
		}
		end := &Event{st: p.St, Idx: len(p.Events) + 1<<20}
		ret := p.Ret[0]
		if r.retNil(p, 0) != -1 {
			lost(nil)
		}
		if pending != nil {
			c.check("buffer-all", con, fatal(p.St, pending) && p.St.rep(ret) == p.St.rep(pending.Res[1]), r, p, pending, "the bytes of the last read are dropped")
		}
		switch r.retNil(p, 0) {
		case 1:
			c.check("errors", con, lastCb == nil || r.nilErr(p.St, lastCb.Res[0]) == 1, r, p, nil, "the error of the handler is ignored")
			over := last != nil && pending == nil && (f.ended(p, end) || r.flagMeans(p, p.St, f.incoming, f.ended))
			c.check("end", con, over, r, p, nil, "success is reported although the stream may not have ended")
			c.check("end", con, r.ge(p.St, r.x.tt.intc(0), r.x.buflen(p.St, f.bufAddr), 0) == 1, r, p, nil, "success is reported although a part of a packet may be left")
		case -1:
			rep := p.St.rep(ret)
			ok := false
			switch {
			case lastCb != nil && rep == p.St.rep(lastCb.Res[0]):
				ok = true
			case last != nil && rep == p.St.rep(last.Res[1]):
				ok = !isSentinel(p.St, ret, "io.EOF") && !isSentinel(p.St, ret, "context.Canceled")
			case isSentinel(p.St, ret, "io.ErrUnexpectedEOF"):
				ok = r.ge(p.St, r.x.buflen(p.St, f.bufAddr), r.x.tt.intc(0), 1) == 1 && (f.ended(p, end) || r.flagMeans(p, p.St, f.incoming, f.ended))
			case ret.Op == "newerr":
				ok = f.badLength(p)
			case ret.Ev != nil && ret.Ev.Name == "bytes.Buffer.Write":
				ok = true
			}
			c.check("errors", con, ok, r, p, nil, "the reader fails with %s although nothing failed", ret)
			if lastCb != nil && rep != p.St.rep(lastCb.Res[0]) {
				c.check("errors", con, r.nilErr(p.St, lastCb.Res[0]) == 1, r, p, nil, "the error of the handler is ignored")
			}
		default:
			// the result of a call which may have failed
			ok := lastCb != nil && ret == lastCb.Res[0]
			c.check("errors", con, ok, r, p, nil, "it is not decided whether the reader fails")
		}
	}
	c.pump(c.run("srpc.PacketReadWriter.ReadPump"), "ReadToHandler", 1)
	c.floor("emit", 4)
	c.floor("limits", 4)
	c.floor("no-wait", 4)
	c.floor("end", 2)
	c.floor("closed-once", 2)
}

// pump checks a read pump: reader called once, close handler once with its error.
func (c *Checker) pump(r *Run, reader string, closedParam int) {
	con := r.name
	cb, closed := r.param(closedParam-1), r.param(closedParam)
	for _, p := range r.paths {
		var rd *Event
		n := 0
		for _, e := range p.Events {
			if e.Kind == "call" && e.methodName() == reader {
				c.check("closed-once", con, rd == nil && e.Args[len(e.Args)-1] == cb, r, p, e, "the reader is not called once with the handler")
				rd = e
			}
			if e.Kind == "call" && e.Recv == closed {
				n++
				c.check("closed-once", con, rd != nil && len(e.Args) == 1 && e.Args[0] == rd.Res[0], r, p, e, "the close handler does not get the error of the reader")
			}
		}
		want := 1
		if p.St.eval(r.x.mkEqNil(closed)) == 1 {
			want = 0
		}
		c.check("closed-once", con, p.End == "return" && n == want && rd != nil, r, p, nil, "the close handler is called %d times", n)
	}
}

// stops: the iteration after this back edge makes no read, as a loop variable
// carries a value with which none is made.
func (f *frameReader) stops(e *Event) bool {
	syms := e.Loop.Sym
	if syms == nil {
		syms = e.Loop.Cur
	}
	for i, s := range syms {
		if s.Op != "sym" || i >= len(e.Loop.Next) {
			continue
		}
		nv := e.st.eval(e.Loop.Next[i])
		if nv == 0 {
			continue
		}
		ok, n := true, 0
		for _, p := range f.r.paths {
			in := false
			for _, g := range p.Events {
				if g.Kind == "loop" && g.Loop.Sym != nil && i < len(g.Loop.Sym) && g.Loop.Sym[i] == s {
					in = true
				}
				if in && g.onField(f.rw, "Read") {
					n++
					if v := g.st.eval(s); v != -nv {
						ok = false
					}
				}
			}
		}
		if ok && n > 0 {
			return true
		}
	}
	return false
}

// badLength: the path found the length prefix to be zero or above the limit.
func (f *frameReader) badLength(p *Path) bool {
	for t, v := range p.St.facts {
		l := prefixIn(t)
		if l == nil {
			continue
		}
		if f.zero(p.St, l) == 1 {
			return true
		}
		switch t.Op {
		case "ge0":
			ln := linOf(t.Args[0])
			if !v {
				ln = ln.scale(-1)
				ln.k--
			}
			// above the maximum, and not as long as it
			ok := ln.co[l] > 0 && ln.k < 0
			for u := range ln.co {
				if u != l && !configTerm(u) {
					ok = false
				}
			}
			if ok {
				return true
			}
		case "cmp":
			a, b := t.Args[0], t.Args[1]
			if a.contains(l) && configTerm(b) && (t.Aux == ">" && v || t.Aux == "<=" && !v) ||
				b.contains(l) && configTerm(a) && (t.Aux == "<" && v || t.Aux == ">=" && !v) {
				return true
			}
		}
	}
	return false
}

func prefixIn(t *Term) *Term {
	if t == nil {
		return nil
	}
	if t.Op == "pure" && t.Aux == le32 {
		return t
	}
	if t.Op == "lin" {
		for u := range t.Obj.(lin).co {
			if p := prefixIn(u); p != nil {
				return p
			}
		}
		return nil
	}
	for _, a := range t.Args {
		if p := prefixIn(a); p != nil {
			return p
		}
	}
	return nil
}

// emit checks a call of the packet handler.
func (f *frameReader) emit(p *Path, e *Event, con string) {
	c, r, x := f.c, f.r, f.r.x
	d := e.Args[0]
	if d.Ev != nil && d.Ev.Name == "bytes.Buffer.Next" && d.Ev.Args[0] == f.bufAddr && len(d.Ev.Args) == 2 {
		// the prefix left the buffer before
		var pre *Event
		for _, g := range p.Events {
			if g.Idx >= d.Ev.Idx {
				break
			}
			if g.Kind == "loop" || g.onField(f.rw, "Read") {
				pre = nil
			}
			if f.consumes(g) {
				if pre != nil { // for an earlier packet
					pre = nil
					continue
				}
				pre = g
			}
		}
		ok := pre != nil && pre.methodName() == "Next"
		if ok {
			n, is := pre.Args[1].intVal()
			ok = is && n == 4
		}
		if !c.check("emit", con, ok, r, p, e, "the handler gets %s", d) {
			return
		}
		for _, g := range p.Events {
			if g.Idx > d.Ev.Idx && g.Idx < e.Idx && g.Kind == "call" && strings.HasPrefix(g.Name, "bytes.Buffer.") && !readOnlyBuf[g.methodName()] {
				c.check("emit", con, false, r, p, g, "the buffer is changed before the packet is handled")
			}
		}
		f.length(p, e, pre, d.Ev.Args[1], con)
		return
	}
	if !c.check("emit", con, d.Op == "slice" && d.Args[1] != nil, r, p, e, "the handler gets %s", d) {
		return
	}
	n, is := d.Args[1].intVal()
	c.check("emit", con, is && n == 4, r, p, e, "the data of the packet starts at %s", d.Args[1])
	src := d.Args[0]
	var l *Term
	var at *Event
	switch {
	case src.Ev != nil && src.Ev.Name == "bytes.Buffer.Next" && src.Ev.Args[0] == f.bufAddr && (d.Args[2] == nil || d.Args[2] == src.Ev.Args[1] || same(p.St, d.Args[2], src.Ev.Args[1])):
		at = src.Ev
		l = x.tt.mkLin(linOf(at.Args[1]).plus(lin{k: -4}, 1))
		// the buffer may not change before the handler ran
		for _, g := range p.Events {
			if g.Idx > at.Idx && g.Idx < e.Idx && g.Kind == "call" && strings.HasPrefix(g.Name, "bytes.Buffer.") && !readOnlyBuf[g.methodName()] {
				c.check("emit", con, false, r, p, g, "the buffer is changed before the packet is handled")
			}
		}
	case src.Op == "bufbytes" && src.Args[0] == f.bufAddr && d.Args[2] != nil:
		at = e
		l = x.tt.mkLin(linOf(d.Args[2]).plus(lin{k: -4}, 1))
		next := (*Event)(nil)
		for _, g := range p.Events {
			if g.Idx > e.Idx && (f.consumes(g) || g.Kind == "loop") {
				next = g
				break
			}
		}
		ok := next == nil && p.End == "return" && r.nilErr(p.St, e.Res[0]) == -1 ||
			next != nil && next.Kind == "call" && next.methodName() == "Next" && next.Args[1] == d.Args[2]
		c.check("emit", con, ok, r, p, e, "the packet does not leave the buffer")
	default:
		c.check("emit", con, false, r, p, e, "the handler gets %s which is not from the buffer", d)
		return
	}
	f.length(p, e, at, l, con)
}

// consumedSince: something left the buffer between the two events.
func (f *frameReader) consumedSince(p *Path, a, b *Event) bool {
	for _, g := range p.Events {
		if g.Idx > a.Idx && g.Idx < b.Idx && f.consumes(g) {
			return true
		}
	}
	return false
}

// length checks the length of a packet which leaves the buffer at some event.
func (f *frameReader) length(p *Path, e, at *Event, l *Term, con string) {
	c, r, x := f.c, f.r, f.r.x
	c.check("emit", con, f.prefix(p, at, l, map[*Term]bool{}), r, p, e, "the length %s is not the prefix at the head of the buffer", l)
	c.check("limits", con, f.zero(at.st, l) == -1, r, p, e, "a packet of length zero may be handled")
	c.check("limits", con, f.bounded(p, at, l, map[*Term]bool{}), r, p, e, "the length of the packet is not limited")
	c.check("limits", con, r.ge(at.st, x.buflen(at.st, f.bufAddr), x.tt.mkLin(linOf(l).plus(lin{k: 4}, 1)), 0) == 1, r, p, e, "the packet may not be completely buffered")
}

func nil0(r *Run) *Term { return r.x.tt.intc(0) }

func atoi(s string) int {
	n := 0
	for _, c := range s {
		if c < '0' || c > '9' {
			return -1
		}
		n = n*10 + int(c-'0')
	}
	return n
}

func init() { props["S02"] = ruleFrameRead }
