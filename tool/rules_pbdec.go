package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- decoding

// vloop is a loop which reads a number: the symbols which stand for its
// variables after some rounds, and where it began.
type vloop struct {
	acc, shift, idx *Term
	start           *Term
	hdr             *ssa.BasicBlock
	a, s, i         int // positions of the variables
}

// pbDec is the decoder of one message.
type pbDec struct {
	c     *Checker
	m     *pbMsg
	r     *Run
	obj   *Term
	buf   *Term
	outer *ssa.BasicBlock
	idx   int // position of the index in the variables of the outer loop
	// per path
	p     *Path
	loops map[*Term]*vloop
	// steps seen to be right or wrong
	seen map[*Event]bool
}

// byteTerm takes (b & 0x7f) << shift apart, where b is a byte of the buffer.
func (d *pbDec) byteTerm(t *Term) (shift, idx, b *Term) {
	if t.Op != "bin" || t.Aux != "<<" {
		return
	}
	v := stripConv(t.Args[0])
	if v.Op != "bin" || v.Aux != "&" {
		return
	}
	x, y := stripConv(v.Args[0]), v.Args[1]
	if n, ok := y.intVal(); !ok || n != 0x7f {
		x, y = stripConv(y), x
		if n, ok := y.intVal(); !ok || n != 0x7f {
			return
		}
	}
	if x.Op != "load" || len(x.Args) == 0 || x.Args[0].Op != "index" || x.Args[0].Args[0] != d.buf {
		return
	}
	return t.Args[1], x.Args[0].Args[1], x
}

// step takes acc | (b & 0x7f) << shift apart.
func (d *pbDec) step(t *Term) (acc, shift, idx, b *Term) {
	t = stripConv(t)
	if t == nil || t.Op != "bin" || t.Aux != "|" {
		return
	}
	for i := 0; i < 2; i++ {
		if s, ix, b := d.byteTerm(stripConv(t.Args[1-i])); b != nil {
			return stripConv(t.Args[i]), s, ix, b
		}
	}
	return
}

func zero(t *Term) bool {
	n, ok := t.intVal()
	return ok && n == 0
}

// number resolves a term to the number which is read at a position.
func (d *pbDec) number(st *State, t *Term) (start, end *Term) {
	acc, shift, idx, b := d.step(t)
	if acc == nil || d.r.ge(st, d.r.x.tt.intc(0x7f), b, 0) != 1 {
		return
	}
	next := d.r.x.tt.mkLin(linOf(idx).plus(lin{k: 1}, 1))
	if zero(acc) && zero(shift) {
		return idx, next
	}
	if l := d.loops[acc]; l != nil && l.shift == shift && l.idx == idx {
		return l.start, next
	}
	return
}

// track follows the loops which read numbers.
func (d *pbDec) track(e *Event, dry bool) {
	l := e.Loop
	if l.Generic {
		return
	}
	for a, nx := range l.Next {
		acc, shift, idx, b := d.step(nx)
		if acc == nil || acc != l.Cur[a] || a >= len(l.Sym) {
			continue
		}
		v := &vloop{acc: l.Sym[a], hdr: l.Header, start: idx, a: a, s: -1, i: -1}
		for k := range l.Next {
			if k == a {
				continue
			}
			df := linOf(l.Next[k]).plus(linOf(l.Cur[k]), -1)
			if len(df.co) != 0 {
				continue
			}
			switch {
			case df.k == 7 && l.Cur[k] == shift:
				v.s, v.shift = k, l.Sym[k]
			case df.k == 1 && l.Cur[k] == idx:
				v.i, v.idx = k, l.Sym[k]
			}
		}
		if !dry && !d.seen[e] {
			d.seen[e] = true
			d.c.check("number", d.r.name, v.s >= 0 && v.i >= 0 && zero(acc) && zero(shift) && d.r.ge(e.st, b, d.r.x.tt.intc(0x80), 0) == 1,
				d.r, d.p, e, "a number is not read byte after byte, seven bits each, while the high bit is set")
		}
		if v.s >= 0 && v.i >= 0 && zero(acc) && zero(shift) {
			d.loops[v.acc] = v
		}
	}
}

// generic checks a later round of a loop which reads a number.
func (d *pbDec) generic(e *Event) {
	if d.seen[e] {
		return
	}
	d.seen[e] = true
	l := e.Loop
	for _, c := range l.Cur {
		v := d.loops[c]
		if v == nil || v.hdr != l.Header {
			continue
		}
		acc, shift, idx, b := d.step(l.Next[v.a])
		ok := acc == v.acc && shift == v.shift && idx == v.idx && l.Cur[v.s] == v.shift && l.Cur[v.i] == v.idx
		if ok {
			ds, di := linOf(l.Next[v.s]).plus(linOf(v.shift), -1), linOf(l.Next[v.i]).plus(linOf(v.idx), -1)
			ok = len(ds.co) == 0 && ds.k == 7 && len(di.co) == 0 && di.k == 1 && d.r.ge(e.st, b, d.r.x.tt.intc(0x80), 0) == 1
		}
		d.c.check("number", d.r.name, ok, d.r, d.p, e, "a number is not read byte after byte, seven bits each, while the high bit is set")
		d.c.check("number", d.r.name, d.r.ge(e.st, d.r.x.tt.intc(63), v.shift, 0) == 1, d.r, d.p, e, "a number of more than ten bytes is accepted")
	}
}

// seg is one round of the loop over the fields.
type pbRound struct {
	*pbDec
	evs   []*Event
	st    *State // at the end
	start *Term  // where the field begins
	tag   *Term  // the number which is the tag
	after *Term  // the position after the tag
	fns   []*Term
	wts   []*Term
	nums  []*pbNum // the numbers read
	sub   []*Term  // all terms
}

type pbNum struct{ val, start, end *Term }

// terms collects all terms which a round knows something about.
func (g *pbRound) terms(extra ...*Term) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		g.sub = append(g.sub, t)
		if t.Op == "lin" {
			for v := range t.Obj.(lin).co {
				walk(v)
			}
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for f := range g.st.facts {
		walk(f)
	}
	for _, e := range g.evs {
		walk(e.Val)
		for _, a := range e.Args {
			walk(a)
		}
	}
	for _, t := range extra {
		walk(t)
	}
}

// wide tells if a value is not converted to a smaller type.
func wide(t *Term, bits uint) bool {
	for ; t.Op == "conv"; t = t.Args[0] {
		if t.Typ == nil || intBits(t.Typ) < bits {
			return false
		}
	}
	return true
}

func (g *pbRound) eq(a, b *Term) bool {
	return a == b || a != nil && b != nil && linOf(a).plus(linOf(b), -1).isZero()
}

// parse finds the tag.
func (g *pbRound) parse() {
	for _, t := range g.sub {
		if t.Op != "bin" || t.Aux != "|" {
			continue
		}
		if s, e := g.number(g.st, t); s != nil {
			g.nums = append(g.nums, &pbNum{t, s, e})
			if g.eq(s, g.start) {
				g.tag, g.after = t, e
			}
		}
	}
	if g.tag == nil {
		return
	}
	for _, t := range g.sub {
		if u := stripConv(t); u.Op == "bin" && wide(t, 31) && wide(u.Args[0], 63) && stripConv(u.Args[0]) == g.tag {
			n, _ := u.Args[1].intVal()
			switch {
			case u.Aux == ">>" && n == 3:
				g.fns = append(g.fns, t)
			case u.Aux == "&" && n == 7:
				g.wts = append(g.wts, t)
			}
		}
	}
}

// is evaluates if one of the terms is a constant.
func (g *pbRound) is(ts []*Term, n int64) int {
	for _, t := range ts {
		if v := g.st.eval(g.r.x.eq(t, g.r.x.tt.intc(n), types.Typ[types.Int])); v != 0 {
			return v
		}
	}
	return 0
}

// field is the field which the tag is known to name. ok is false if it is not
// known whether it names one.
func (g *pbRound) field() (w *pbMsg, f *pbField, ok bool) {
	ok = true
	try := func(m *pbMsg, k *pbField) {
		switch g.is(g.fns, int64(k.num)) {
		case 1:
			w, f = m, k
		case 0:
			ok = false
		}
	}
	for _, k := range g.m.fields {
		try(g.m, k)
	}
	for _, cs := range g.m.cases {
		for _, cm := range cs {
			try(cm, cm.fields[0])
		}
	}
	if f != nil {
		ok = true
	}
	return
}

func (g *pbRound) part(v *Term) (lo, hi *Term, ok bool) {
	t := &pbTape{pbSubst: &pbSubst{r: g.r, m: map[*Term]*Term{}}, buf: g.buf}
	return t.rng(stripConv(v))
}

// partIs tells if a term is a part of the buffer.
func (g *pbRound) partIs(v, lo, hi *Term) bool {
	l, h, ok := g.part(v)
	return ok && g.eq(l, lo) && g.eq(h, hi)
}

// length is the number at a position which is a length, and the position after
// the content.
func (g *pbRound) lengthAt(pos *Term) (n, from, to *Term) {
	for _, u := range g.nums {
		if !g.eq(u.start, pos) {
			continue
		}
		for _, t := range g.sub {
			if t != u.val && stripConv(t) == u.val && wide(t, 63) {
				n = t // as it was converted
			}
		}
		if n == nil {
			n = u.val
		}
		return n, u.end, g.r.x.tt.mkLin(linOf(u.end).plus(linOf(n), 1))
	}
	return nil, nil, nil
}

// content decides that a value is the content of a field.
func (g *pbRound) content(f *pbField, v *Term, next *Term) string {
	r, x := g.r, g.r.x
	g.sub, g.nums, g.fns, g.wts = nil, nil, nil, nil
	g.terms(v, next)
	g.parse()
	if f.wt == 0 {
		var n *pbNum
		for _, u := range g.nums {
			if g.eq(u.start, g.after) {
				n = u
			}
		}
		switch {
		case n == nil:
			return "no number is read after the tag"
		case next != nil && !g.eq(next, n.end):
			return "the next field is not expected after the number"
		case f.typ != "bool":
			if stripConv(v) != n.val {
				return "the value is " + v.String()
			}
			return ""
		}
		z := x.eq(n.val, x.tt.intc(0), types.Typ[types.Int])
		for _, zero := range []bool{true, false} {
			st := g.st
			want := -1
			if !zero {
				want = 1
			}
			switch st.eval(z) {
			case 1:
				if !zero {
					continue
				}
			case -1:
				if zero {
					continue
				}
			default:
				st = st.clone()
				st.assume(z, zero)
			}
			if st.eval(v) != want {
				return "the value is not that the number is not zero: " + v.String()
			}
		}
		return ""
	}
	n, from, to := g.lengthAt(g.after)
	if n == nil {
		return "no length is read after the tag"
	}
	if next != nil && !g.eq(next, to) {
		return "the next field is not expected after the content"
	}
	if f.typ == "string" {
		if v.Op == "convstr" && g.partIs(v.Args[0], from, to) {
			return ""
		}
		return "the value is " + v.String()
	}
	// bytes
	switch v.Op {
	case "appends":
		b := v.Args[0]
		if g.partIs(v.Args[1], from, to) && g.st.eval(r.lenZero(b)) == 1 && !g.aliases(b) {
			return ""
		}
	case "make":
		var cp *Event
		for _, e := range g.evs {
			if e.isCall("copy") && e.Args[0].base() == v {
				if cp != nil {
					return "it is copied twice"
				}
				cp = e
			}
		}
		if !linOf(x.length(v)).plus(linOf(n), -1).isZero() {
			return "the value has the length " + x.length(v).String()
		}
		if cp != nil && cp.Args[0] == v && g.partIs(cp.Args[1], from, to) {
			return ""
		}
	case "res":
		for _, e := range g.evs {
			if e.isCall("bytes.Clone", "slices.Clone") && e.Res[0] == v && g.partIs(e.Args[0], from, to) {
				return ""
			}
		}
	case "convstr":
		if w := v.Args[0]; w.Op == "convstr" && g.partIs(w.Args[0], from, to) {
			return ""
		}
	}
	if _, _, ok := g.part(v); ok {
		return "the value is memory of the input"
	}
	return "the value is " + v.String()
}

// aliases tells if memory is of the input.
func (g *pbRound) aliases(v *Term) bool {
	for v.Op == "slice" {
		v = v.Args[0]
	}
	return v == g.buf
}

// bounds checks that no access of a round is outside of the input.
func (g *pbRound) bounds() {
	x := g.r.x
	for _, e := range g.evs {
		if e.Kind != "bounds" || e.Addr != g.buf || g.seen[e] {
			continue
		}
		g.seen[e] = true
		zero, l := x.tt.intc(0), x.length(g.buf)
		ok := true
		if e.Name == "index" {
			ok = g.r.ge(e.st, e.Args[0], zero, 0) == 1 && g.r.ge(e.st, l, e.Args[0], 1) == 1
		} else {
			lo, hi := e.Args[0], e.Args[1]
			if lo == nil {
				lo = zero
			}
			if hi == nil {
				hi = l
			}
			ok = g.r.ge(e.st, lo, zero, 0) == 1 && g.r.ge(e.st, hi, lo, 0) == 1 && g.r.ge(e.st, l, hi, 0) == 1
		}
		g.c.check("bounds", g.r.name, ok, g.r, g.p, e, "it is not known that %v is inside of the input", e.Args)
	}
}

// complete checks a round after which the loop goes on at next.
func (g *pbRound) complete(e *Event, next *Term) {
	r, x, st := g.r, g.r.x, g.st
	bad := func(rule, f string, a ...any) { g.c.check(rule, r.name, false, r, g.p, e, f, a...) }
	g.terms(next)
	g.parse()
	g.bounds()
	if g.tag == nil {
		bad("field", "a round does not read a tag where the field begins")
		return
	}
	g.c.check("bounds", r.name, r.ge(st, x.length(g.buf), next, 0) == 1 && (r.ge(st, next, g.start, 1) == 1 || g.skips(next)), r, g.p, e, "the next position %s is not known to be inside of the input, after this one", next)
	w, f, known := g.field()
	if !known {
		bad("field", "the round does not depend on the number of the field")
		return
	}
	if g.is(g.wts, 4) == 1 {
		bad("field", "the end of a group is accepted")
		return
	}
	skipped := f == nil
	if f != nil {
		switch g.is(g.wts, int64(f.wt)) {
		case 0:
			bad("wire", "the field %s is decoded whatever its wire type is", f.name)
			return
		case -1:
			skipped = true
		}
	}
	// what the round changes
	type st1 struct {
		i  int
		v  *Term
		ev *Event
	}
	var stores []st1
	var nested []*Event
	for _, ev := range g.evs {
		switch {
		case ev.Kind == "store":
			b := ev.Addr.base()
			if b != nil && (b.Op == "alloc" || b.Op == "make") {
				continue
			}
			i := -1
			for k := 0; k < g.m.st.NumFields(); k++ {
				if ev.Addr == g.m.fieldAddr(x, g.obj, k) {
					i = k
				}
			}
			if i < 0 {
				bad("field", "something besides the message is changed: %s", ev.Addr)
				return
			}
			stores = append(stores, st1{i, ev.Val, ev})
		case ev.Kind == "call" && ev.methodName() == "UnmarshalVT":
			nested = append(nested, ev)
		}
	}
	if skipped {
		if len(nested) > 0 {
			bad("field", "a field is decoded which the schema does not have")
			return
		}
		var sk *Event
		for _, ev := range g.evs {
			if ev.isCall(pbLib + "Skip") {
				sk = ev
			}
		}
		if sk == nil || !g.partIs(sk.Args[0], g.start, x.length(g.buf)) {
			bad("unknown", "a field which the schema does not have is not skipped from its tag")
			return
		}
		n := sk.Res[0]
		to := x.tt.mkLin(linOf(g.start).plus(linOf(n), 1))
		if !g.eq(next, to) || r.nilErr(st, sk.Res[1]) != 1 {
			bad("unknown", "the next field is not expected after the one which is skipped")
			return
		}
		if len(stores) != 1 || stores[0].i != g.m.unknown || stores[0].v.Op != "appends" || !g.partIs(stores[0].v.Args[1], g.start, to) || !g.unknownOf(stores[0].v.Args[0]) {
			bad("unknown", "a field which the schema does not have is not appended to the unknown fields")
			return
		}
		g.c.check("unknown", r.name, true, r, g.p, e, "")
		return
	}
	con := r.name + " (" + f.name + ")"
	want := f.idx
	if w.wrapper {
		want = g.m.oneofs[f.oneof]
	}
	for _, s := range stores {
		if s.i != want {
			bad("field", "the field %s is changed by the field %s", g.m.st.Field(s.i).Name(), f.name)
			return
		}
	}
	val := func(v *Term) string { return g.content(f, v, next) }
	// the content in the wrapper of a oneof
	if w.wrapper {
		inner := val
		val = func(v *Term) string {
			u := st.rep(deref(v))
			if !freshMsg(u, types.TypeString(w.ptr(), nil)) {
				return "the content is not of the case " + w.name + ": " + v.String()
			}
			return inner(w.load(r, st, u, 0))
		}
	}
	if isPtr(f.goTy) {
		g.message(w, f, e, next, nested, func() *Term {
			if len(stores) == 0 {
				return nil
			}
			return stores[len(stores)-1].v
		}())
		return
	}
	if len(nested) > 0 || len(stores) == 0 {
		bad("field", "the field %s is not stored", f.name)
		return
	}
	v := stores[len(stores)-1].v
	msg := val(v)
	if msg != "" && f.typ == "bytes" && len(stores) > 1 && st.eval(r.lenZero(v)) == 1 {
		// an empty value in place of none
		pv := stores[len(stores)-2].v
		if st.eval(x.mkEqNil(pv)) == 1 || st.eval(r.lenZero(pv)) == 1 {
			msg = val(pv)
		}
	}
	g.c.check("field", con, msg == "", r, g.p, e, "%s", msg)
}

// skips tells if the next position is after something which was skipped: this
// is not empty.
func (g *pbRound) skips(next *Term) bool {
	for _, e := range g.evs {
		if e.isCall(pbLib+"Skip") && g.eq(next, g.r.x.tt.mkLin(linOf(g.start).plus(linOf(e.Res[0]), 1))) {
			return true
		}
	}
	return false
}

// unknownOf tells if a value is the unknown fields of the message.
func (g *pbRound) unknownOf(v *Term) bool {
	for _, e := range g.evs {
		if e.Kind == "load" && e.Addr == g.m.fieldAddr(g.r.x, g.obj, g.m.unknown) && g.r.x.load(e.st, e.Addr, g.m.st.Field(g.m.unknown).Type()) == v {
			return true
		}
	}
	return false
}

// message checks that a nested message is decoded.
func (g *pbRound) message(w *pbMsg, f *pbField, e *Event, next *Term, nested []*Event, stored *Term) {
	r, x, st := g.r, g.r.x, g.st
	con := r.name + " (" + f.name + ")"
	bad := func(s string, a ...any) { g.c.check("field", con, false, r, g.p, e, s, a...) }
	n, from, to := g.lengthAt(g.after)
	if n == nil || !g.eq(next, to) {
		bad("the next field is not expected after the content")
		return
	}
	if len(nested) != 1 || !g.partIs(nested[0].Args[1], from, to) {
		bad("the content is not decoded once: %v", nested)
		return
	}
	call := nested[0]
	if r.nilErr(st, call.Res[0]) != 1 {
		bad("the error of the content is ignored")
		return
	}
	obj := call.Args[0]
	if !w.wrapper {
		v := g.m.load(r, st, g.obj, f.idx)
		if v != obj && (stored == nil || st.rep(stored) != st.rep(obj)) {
			bad("the content is decoded into %s", obj)
			return
		}
		g.c.check("field", con, true, r, g.p, e, "")
		return
	}
	// the message which is in the oneof already is continued
	var old *Term
	oi := g.m.oneofs[f.oneof]
	var body *Term
	for _, ev := range g.evs {
		if ev.Kind == "load" && ev.Addr == g.m.fieldAddr(x, g.obj, oi) {
			body = r.x.load(ev.st, ev.Addr, g.m.st.Field(oi).Type())
			break
		}
	}
	if body != nil {
		old = w.load(r, call.st, x.tt.mk("assert", typeKeyFull(w.ptr()), w.ptr(), body), 0)
	}
	if obj == old {
		if stored != nil || st.eval(x.isType(body, w.ptr())) != 1 {
			bad("the content is decoded into another case of the oneof")
			return
		}
		g.c.check("field", con, true, r, g.p, e, "")
		return
	}
	u := st.rep(deref(stored0(stored)))
	if stored == nil || !freshMsg(u, types.TypeString(w.ptr(), nil)) || w.load(r, st, u, 0) != obj || !freshObj(obj) {
		bad("the content is decoded into %s, the oneof gets %s", obj, stored0(stored))
		return
	}
	gone := body != nil && (call.st.eval(x.isType(body, w.ptr())) == -1 || call.st.eval(x.mkEqNil(body)) == 1 || old != nil && call.st.eval(x.mkEqNil(old)) == 1)
	g.c.check("field", con, gone, r, g.p, e, "a message which is in the oneof already is replaced and not continued")
}

func stored0(t *Term) *Term {
	if t == nil {
		return &Term{Op: "nothing"}
	}
	return t
}

// reason tells why the input can be refused.
func (g *pbRound) reason() string {
	r, x, st := g.r, g.r.x, g.st
	l := x.length(g.buf)
	ge := func(a, b *Term, k int64) bool { return r.ge(st, a, b, k) == 1 }
	zero := x.tt.intc(0)
	// an error of something nested
	for _, e := range g.evs {
		if e.Kind == "call" && len(e.Res) > 0 && (e.methodName() == "UnmarshalVT" || e.isCall(pbLib+"Skip")) {
			v := e.Res[len(e.Res)-1]
			if r.nilErr(st, v) == -1 {
				return "nested"
			}
		}
		if e.isCall(pbLib+"Skip") && r.nilErr(st, e.Res[1]) == 1 {
			n := e.Res[0]
			to := x.tt.mkLin(linOf(g.start).plus(linOf(n), 1))
			if ge(to, l, 1) || r.ge(st, n, zero, 0) == -1 || g.overflows(g.start, n) {
				return "the field to skip ends after the input"
			}
		}
	}
	// a number which is not complete or too long
	var due []*Term
	due = append(due, g.start)
	if g.after != nil {
		due = append(due, g.after)
	}
	for _, v := range g.loops {
		if !g.here(v) {
			continue
		}
		due = append(due, v.idx)
		if ge(v.shift, x.tt.intc(64), 0) {
			return "a number is too long"
		}
	}
	for _, p := range due {
		if ge(p, l, 0) {
			return "the input ends in a number"
		}
	}
	if g.tag == nil {
		return ""
	}
	if g.is(g.wts, 4) == 1 || g.is(g.wts, 6) == 1 || g.is(g.wts, 7) == 1 {
		return "the wire type"
	}
	for _, t := range g.fns {
		if ge(zero, t, 0) {
			return "the number of the field"
		}
	}
	_, f, _ := g.field()
	if f == nil {
		return ""
	}
	if g.is(g.wts, int64(f.wt)) == -1 {
		return "the wire type of the field"
	}
	if f.wt == 2 && g.is(g.wts, 2) == 1 {
		if n, from, to := g.lengthAt(g.after); n != nil {
			if ge(to, l, 1) || r.ge(st, n, zero, 0) == -1 || g.overflows(from, n) {
				return "the content ends after the input"
			}
		}
	}
	return ""
}

// overflows tells if the sum of two numbers is known to overflow.
func (g *pbRound) overflows(a, b *Term) bool {
	for t, v := range g.st.facts {
		if v && t.Op == "overflow" && (g.eq(t.Args[0], a) && g.eq(t.Args[1], b) || g.eq(t.Args[0], b) && g.eq(t.Args[1], a)) {
			return true
		}
	}
	return false
}

// here tells if a loop was in this round.
func (g *pbRound) here(v *vloop) bool {
	for _, e := range g.evs {
		if e.Kind == "loop" && !e.Loop.Generic && v.a < len(e.Loop.Sym) && e.Loop.Sym[v.a] == v.acc {
			return true
		}
	}
	return false
}

// returned checks a round which returns.
func (g *pbRound) returned() {
	r, x, st := g.r, g.r.x, g.st
	err := g.p.Ret[0]
	g.terms(err)
	g.parse()
	g.bounds()
	if r.nilErr(st, err) == 1 {
		ok := r.ge(st, g.start, x.length(g.buf), 0) == 1
		for _, e := range g.evs {
			if e.Kind == "store" {
				if b := e.Addr.base(); b == nil || b.Op != "alloc" && b.Op != "make" {
					ok = false
				}
			}
		}
		g.c.check("end", r.name, ok, r, g.p, nil, "decoding ends without an error and it is not known that the input is used up")
		return
	}
	g.c.check("refused", r.name, g.reason() != "", r, g.p, nil, "the error %s is returned and nothing is known to be wrong with the input", err)
}

func rulePbDecode(c *Checker) {
	c.rule("schema", "the Go type of a message has exactly the fields of the schema, with their numbers, names and types")
	c.rule("number", "a number is read byte after byte, seven bits of each from the low ones on, until the high bit is not set, and has ten bytes at most")
	c.rule("wire", "the content of a field is decoded only with the wire type of the schema")
	c.rule("field", "a round of the loop reads one tag and changes exactly the field of the message, or the oneof, with this number: to the content between the length and the next tag, in memory of its own, decoded once if it is a message; the next round begins right after it")
	c.rule("unknown", "a field which the schema does not have is skipped and appended to the unknown fields with its tag")
	c.rule("bounds", "no access is outside of the input, whatever the input says, and every round makes progress")
	c.rule("end", "decoding ends without an error only at the end of the input")
	c.rule("refused", "an error is returned only for an input which ends early, has a number of more than ten bytes, a field with the wrong wire type or an illegal tag, or a nested message with an error")
	for _, m := range c.pbMsgs() {
		if m.wrapper {
			continue
		}
		c.pbDecode(m)
	}
	c.floor("number", 30)
	c.floor("field", 20)
	c.floor("unknown", 7)
	c.floor("bounds", 40)
	c.floor("refused", 40)
}

func (c *Checker) pbDecode(m *pbMsg) {
	r := c.run(m.full+".UnmarshalVT", ropts{pb: true, ovf: true})
	d := &pbDec{c: c, m: m, r: r, obj: r.recv(), buf: r.param(0), idx: -1, seen: map[*Event]bool{}}
	// the outermost loop
	ls := r.x.loopSet(r.fn)
	for h := range ls {
		in := false
		for h2, b2 := range ls {
			in = in || h2 != h && b2[h]
		}
		if in {
			continue
		}
		if d.outer != nil {
			anchorBad(r.name, "there is more than one loop over the input: the property can not be decided")
		}
		d.outer = h
	}
	if d.outer == nil {
		anchorBad(r.name, "there is no loop over the input: the property can not be decided")
	}
	for _, p := range r.paths {
		for _, e := range p.Events {
			if e.Kind == "enter" && e.Loop != nil && e.Loop.Header == d.outer && d.idx < 0 {
				for k, v := range e.Loop.Cur {
					if isIntType(e.Loop.Phis[k].Type()) && zero(v) && e.Loop.Sym[k] != v {
						if d.idx >= 0 {
							anchorBad(r.name, "the position could not be identified: the property can not be decided")
						}
						d.idx = k
					}
				}
			}
		}
	}
	if d.idx < 0 {
		anchorBad(r.name, "the position could not be identified: the property can not be decided")
	}
	for _, p := range r.paths {
		if p.End == "panic" {
			c.check("bounds", r.name, false, r, p, nil, "the path ends with a panic")
			continue
		}
		d.p, d.loops = p, map[*Term]*vloop{}
		start := r.x.tt.intc(0)
		from := 0
		for i, e := range p.Events {
			if e.Kind == "enter" && e.Loop != nil {
				for _, b := range p.Events[:i] {
					ok := true
					switch b.Kind {
					case "store":
						o := b.Addr.base()
						ok = o != nil && (o.Op == "alloc" || o.Op == "make")
					case "call":
						for _, a := range b.Args {
							ok = ok && a != d.obj
						}
					}
					if !ok {
						c.check("field", r.name, false, r, p, b, "the message is changed before anything is read")
					}
				}
				from, start = i+1, e.Loop.Sym[d.idx]
			}
			if e.Kind != "loop" {
				continue
			}
			if e.Loop.Header != d.outer {
				if e.Loop.Generic {
					d.generic(e)
				} else {
					d.track(e, false)
				}
				continue
			}
			g := &pbRound{pbDec: d, evs: p.Events[from:i], st: e.st, start: start}
			g.complete(e, e.Loop.Next[d.idx])
		}
		if p.End == "return" {
			g := &pbRound{pbDec: d, evs: p.Events[from:], st: p.St, start: start}
			g.returned()
		}
	}
}

func init() { props["S37"] = rulePbDecode }
