package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- generated messages

// pbField is a field of a Go message (or of the wrapper of a case of a oneof)
// together with the field of the schema.
type pbField struct {
	*protoField
	idx  int // of the Go field, in the struct
	goTy types.Type
	wt   int // wire type
}

// pbMsg is a Go type which is written on the wire: a message, or the wrapper of
// a case of a oneof.
type pbMsg struct {
	name    string // of the Go type
	full    string // pkg.Type
	named   *types.Named
	st      *types.Struct
	fields  []*pbField
	oneofs  map[string]int // oneof name -> index of the interface field
	cases   map[string][]*pbMsg
	unknown int // index of the unknown fields, or -1
	wrapper bool
}

func (m *pbMsg) ptr() types.Type { return types.NewPointer(m.named) }

func pbWire(typ string, enum bool) int {
	switch typ {
	case "bool", "int32", "int64", "uint32", "uint64", "sint32", "sint64":
		return 0
	case "fixed64", "sfixed64", "double":
		return 1
	case "fixed32", "sfixed32", "float":
		return 5
	}
	if enum {
		return 0
	}
	return 2
}

func anchorBad(con, f string, a ...any) {
	panic(abort{&Violation{Rule: "anchor", Construct: con, Msg: fmt.Sprintf(f, a...)}})
}

// pbMsgs pairs the messages of the schemas with the Go types. It also checks
// that the tags of the Go fields are those of the schema.
func (c *Checker) pbMsgs() []*pbMsg {
	p := c.load("linux")
	var out []*pbMsg
	for _, f := range c.protos() {
		for _, m := range f.msgs {
			out = append(out, c.pbMsg(p, f, m)...)
		}
	}
	return out
}

func goCamel(s string) string {
	var b strings.Builder
	up := true
	for _, r := range s {
		switch {
		case r == '_':
			up = true
		case up:
			b.WriteString(strings.ToUpper(string(r)))
			up = false
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

func (c *Checker) pbMsg(p *Prog, f *protoFile, m *protoMsg) []*pbMsg {
	get := func(name string) *pbMsg {
		full := f.goPkg() + "." + name
		t := p.NamedType(full)
		if t == nil {
			anchorBad(full, "there is no Go type for the message")
		}
		n, _ := types.Unalias(t).(*types.Named)
		if n == nil {
			anchorBad(full, "the Go type of the message is not a struct")
		}
		st, _ := n.Underlying().(*types.Struct)
		if st == nil {
			anchorBad(full, "the Go type of the message is not a struct")
		}
		return &pbMsg{name: name, full: full, named: n, st: st, oneofs: map[string]int{}, cases: map[string][]*pbMsg{}, unknown: -1}
	}
	g := get(m.name)
	out := []*pbMsg{g}
	byNum := map[int]int{}
	for i := 0; i < g.st.NumFields(); i++ {
		tag := reflect.StructTag(g.st.Tag(i))
		if pb := tag.Get("protobuf"); pb != "" {
			byNum[pbTagNum(pb)] = i + 1
		}
		if o := tag.Get("protobuf_oneof"); o != "" {
			g.oneofs[o] = i
		}
		if g.st.Field(i).Name() == "unknownFields" {
			g.unknown = i
		}
	}
	for _, pf := range m.fields {
		con := g.full + "." + goCamel(pf.name)
		if pf.label != "" || strings.HasPrefix(pf.typ, "map") {
			anchorBad(con, "a %s field is not decided", pf.label+pf.typ)
		}
		fl := &pbField{protoField: pf, wt: pbWire(pf.typ, pf.isEnum || f.enum[pf.typ])}
		if pf.oneof != "" {
			if _, ok := g.oneofs[pf.oneof]; !ok {
				c.fail("schema", con, g.full, "the oneof %s has no Go field", pf.oneof)
				continue
			}
			w := get(m.name + "_" + goCamel(pf.name))
			w.wrapper = true
			if w.st.NumFields() != 1 {
				anchorBad(w.full, "the wrapper does not have one field")
			}
			fl.goTy = w.st.Field(0).Type()
			pb := reflect.StructTag(w.st.Tag(0)).Get("protobuf")
			c.site("schema", con, pbTagNum(pb) == pf.num, g.full, "the Go field has the tag %q, the schema number %d", pb, pf.num)
			w.fields = []*pbField{fl}
			g.cases[pf.oneof] = append(g.cases[pf.oneof], w)
			out = append(out, w)
			continue
		}
		i := byNum[pf.num] - 1
		if !c.site("schema", con, i >= 0 && g.st.Field(i).Name() == goCamel(pf.name), g.full, "there is no Go field with the number %d and the name %s", pf.num, goCamel(pf.name)) {
			continue
		}
		delete(byNum, pf.num)
		fl.idx, fl.goTy = i, g.st.Field(i).Type()
		g.fields = append(g.fields, fl)
	}
	for n := range byNum {
		c.fail("schema", g.full, g.full, "the Go field number %d is not in the schema", n)
	}
	for _, w := range out {
		for _, fl := range w.fields {
			c.site("schema", w.full+"."+goCamel(fl.name), pbGoType(fl), w.full, "the type %s is not that of the schema, %s", fl.goTy, fl.typ)
		}
	}
	return out
}

func pbTagNum(tag string) int {
	p := strings.Split(tag, ",")
	if len(p) < 2 {
		return -1
	}
	n, err := strconv.Atoi(p[1])
	if err != nil {
		return -1
	}
	return n
}

// pbGoType tells if the Go type can hold the field.
func pbGoType(f *pbField) bool {
	switch f.typ {
	case "string", "bool", "int32", "int64", "uint32", "uint64":
		return types.TypeString(f.goTy, nil) == f.typ
	case "bytes":
		return types.TypeString(f.goTy, nil) == "[]byte"
	}
	pt, ok := f.goTy.Underlying().(*types.Pointer)
	if !ok {
		return f.isEnum
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	return ok && n.Obj().Name() == f.typ[strings.LastIndexByte(f.typ, '.')+1:]
}

func (m *pbMsg) fieldAddr(x *Exec, obj *Term, i int) *Term { return x.fieldAddr(obj, m.ptr(), i) }

func (m *pbMsg) load(r *Run, st *State, obj *Term, i int) *Term {
	return r.x.load(st, m.fieldAddr(r.x, obj, i), m.st.Field(i).Type())
}

// vtMethods are the methods of other messages: they have their own check.
var vtMethods = map[string]bool{
	"MarshalToSizedBufferVT": true, "MarshalToVT": true, "MarshalVT": true, "SizeVT": true, "UnmarshalVT": true, "CloneVT": true,
	"CloneOneofVT": true, "CloneMessageVT": true, "EqualVT": true, "EqualMessageVT": true,
	"MarshalProtoJSON": true, "UnmarshalProtoJSON": true, "MarshalProtoText": true,
}

// pbRun runs a method of a message.
func (c *Checker) pbRun(m *pbMsg, method string) *Run {
	return c.run(m.full+"."+method, ropts{pb: true, live: m.wrapper})
}

// noNil checks that no message which may be nil is dereferenced.
func (c *Checker) noNil(rule string, r *Run) {
	for _, p := range r.paths {
		var bad *Event
		for _, e := range p.Events {
			if e.Kind == "deref" && bad == nil {
				bad = e
			}
		}
		what := ""
		if bad != nil {
			what = fmt.Sprint(bad.Addr)
		}
		c.check(rule, r.name, bad == nil, r, p, bad, "%s is dereferenced although it may be nil", what)
	}
}

// runFnIn runs a function in a state.
func (r *Run) runFnIn(st *State, fn *ssa.Function, args ...*Term) []*Path {
	s2 := st.clone()
	s2.evs, s2.locks, s2.recs = nil, nil, nil
	var out []*Path
	r.x.callFn(s2, nil, fn, args, nil, fn.Pos(), func(s3 *State, res []*Term, end string) {
		if end == "" {
			end = "return"
		}
		out = append(out, &Path{Events: s3.events(), Ret: res, End: end, St: s3, Root: FnName(fn)})
	})
	return out
}

// ---- sizes

// pbSubst maps the results of the calls of a path to what they are, in terms of
// the size of other messages and of the length of varints.
type pbSubst struct {
	r *Run
	m map[*Term]*Term
}

func (s *pbSubst) of(t *Term) *Term {
	for t != nil {
		n := s.r.x.subst(t, s.m)
		if n == t {
			break
		}
		t = n
	}
	return t
}

func (s *pbSubst) sov(v *Term) *Term {
	v = s.of(v)
	if n, ok := v.intVal(); ok && n >= 0 {
		k := int64(1)
		for ; n >= 0x80; n >>= 7 {
			k++
		}
		return s.r.x.tt.intc(k)
	}
	return s.r.x.tt.mk("sizeof", "varint", types.Typ[types.Int], v)
}

func (s *pbSubst) sz(obj *Term) *Term {
	return s.r.x.tt.mk("sizeof", "message", types.Typ[types.Int], stripAssert(obj))
}

// stripAssert is the value which an assertion looks at.
func stripAssert(v *Term) *Term {
	for v != nil && (v.Op == "assert" || v.Op == "iface") {
		v = v.Args[0]
	}
	return v
}

const pbLib = "github.com/aperturerobotics/protobuf-go-lite."

// size follows the calls which compute sizes.
func (s *pbSubst) size(p *Path) {
	for _, e := range p.Events {
		if e.Kind != "call" {
			continue
		}
		switch {
		case e.isCall(pbLib + "SizeOfVarint"):
			s.m[e.Res[0]] = s.sov(e.Args[0])
		case e.methodName() == "SizeVT":
			s.m[e.Res[0]] = s.sz(e.Args[0])
		}
	}
}

// ---- encoding

type pbSeg struct {
	lo, hi *Term
	kind   string // byte, varint, data, message
	val    *Term  // the byte, the number, the content, the object
	ev     *Event
	used   bool
}

type pbTape struct {
	*pbSubst
	c    *Checker
	m    *pbMsg
	p    *Path
	obj  *Term
	buf  *Term
	segs []*pbSeg
	err  string
	ev   *Event
	errs []*Event // nested calls
}

func (t *pbTape) fail(e *Event, f string, a ...any) {
	if t.err == "" {
		t.err, t.ev = fmt.Sprintf(f, a...), e
	}
}

// rng is the part of the buffer which a slice is.
func (t *pbTape) rng(v *Term) (lo, hi *Term, ok bool) {
	v = t.of(v)
	x := t.r.x
	if v == t.buf {
		return x.tt.intc(0), x.length(t.buf), true
	}
	if v.Op != "slice" || v.Args[0] != t.buf {
		return nil, nil, false
	}
	lo, hi = v.Args[1], v.Args[2]
	if lo == nil {
		lo = x.tt.intc(0)
	}
	if hi == nil {
		hi = x.length(t.buf)
	}
	return lo, hi, true
}

func (t *pbTape) add(a, b *Term, f int64) *Term {
	return t.of(t.r.x.tt.mkLin(linOf(a).plus(linOf(b), f)))
}

func (t *pbTape) eq(a, b *Term) bool {
	if a == b {
		return true
	}
	return linOf(t.of(a)).plus(linOf(t.of(b)), -1).isZero() || same(t.p.St, t.of(a), t.of(b))
}

func (t *pbTape) put(s *pbSeg) {
	for i, o := range t.segs {
		if t.eq(o.lo, s.lo) && t.eq(o.hi, s.hi) {
			t.segs[i] = s
			return
		}
	}
	t.segs = append(t.segs, s)
}

// tape collects what is written to the buffer, in terms of the message.
func (t *pbTape) tape() {
	x := t.r.x
	for _, e := range t.p.Events {
		switch e.Kind {
		case "store":
			a := t.of(e.Addr)
			if a.Op == "index" && a.Args[0] == t.buf {
				t.put(&pbSeg{lo: a.Args[1], hi: t.add(a.Args[1], x.tt.intc(1), 1), kind: "byte", val: e.Val, ev: e})
				continue
			}
			if b := a.base(); b != nil && b.Op != "alloc" && b.Op != "make" {
				t.fail(e, "something besides the buffer is changed")
			}
		case "call":
			switch {
			case e.isCall(pbLib + "EncodeVarint"):
				lo, _, ok := t.rng(e.Args[0])
				if !ok || !t.eq(lo, x.tt.intc(0)) {
					t.fail(e, "a number is written to another buffer")
					return
				}
				v := t.of(e.Args[2])
				hi := t.of(e.Args[1])
				at := t.add(hi, t.sov(v), -1)
				t.m0(e.Res[0], at)
				t.put(&pbSeg{lo: at, hi: hi, kind: "varint", val: v, ev: e})
			case e.isCall(pbLib + "SizeOfVarint"):
				t.m0(e.Res[0], t.sov(e.Args[0]))
			case e.methodName() == "SizeVT":
				t.m0(e.Res[0], t.sz(e.Args[0]))
			case e.methodName() == "MarshalToSizedBufferVT" || e.methodName() == "MarshalToVT":
				lo, hi, ok := t.rng(e.Args[1])
				if !ok {
					t.fail(e, "a message is written to another buffer")
					return
				}
				t.errs = append(t.errs, e)
				if t.r.nilErr(t.p.St, e.Res[1]) != 1 {
					continue
				}
				n := t.sz(e.Args[0])
				t.m0(e.Res[0], n)
				if e.methodName() == "MarshalToVT" {
					t.put(&pbSeg{lo: lo, hi: t.add(lo, n, 1), kind: "message", val: deref(e.Args[0]), ev: e})
				} else {
					t.put(&pbSeg{lo: t.add(hi, n, -1), hi: hi, kind: "message", val: deref(e.Args[0]), ev: e})
				}
			case e.isCall("copy"):
				lo, hi, ok := t.rng(e.Args[0])
				if !ok {
					if b := t.of(e.Args[0]).base(); b != nil && (b.Op == "make" || b.Op == "alloc") {
						continue
					}
					t.fail(e, "something besides the buffer is changed")
					return
				}
				src := t.of(e.Args[1])
				n := t.of(x.length(src))
				if !t.eq(hi, x.length(t.buf)) && !t.eq(t.add(hi, lo, -1), n) {
					t.fail(e, "the room for the copy is not that of the data")
					return
				}
				t.m0(e.Res[0], n)
				t.put(&pbSeg{lo: lo, hi: t.add(lo, n, 1), kind: "data", val: src, ev: e})
			}
		}
	}
}

func (t *pbTape) m0(k, v *Term) {
	if k != v {
		t.pbSubst.m[k] = v
	}
}

// seg takes the segment at a position.
func (t *pbTape) seg(pos *Term) *pbSeg {
	for _, s := range t.segs {
		if !s.used && t.eq(s.lo, pos) && !linOf(t.of(s.hi)).plus(linOf(t.of(s.lo)), -1).isZero() {
			s.used = true
			return s
		}
	}
	return nil
}

// number reads a varint.
func (t *pbTape) number(pos *Term) (v, next *Term, ev *Event) {
	x := t.r.x
	s := t.seg(pos)
	if s == nil {
		return nil, pos, nil
	}
	if s.kind == "varint" {
		return s.val, s.hi, s.ev
	}
	if s.kind != "byte" {
		t.fail(s.ev, "content is written where a tag or a length belongs")
		return nil, pos, s.ev
	}
	n, ok := s.val.intVal()
	if !ok {
		return s.val, s.hi, s.ev
	}
	acc, shift := n&0x7f, uint(7)
	for n >= 0x80 {
		s2 := t.seg(s.hi)
		if s2 == nil || s2.kind != "byte" {
			t.fail(s.ev, "the number is not complete")
			return nil, pos, s.ev
		}
		k, ok := s2.val.intVal()
		if !ok {
			t.fail(s2.ev, "the number is not constant")
			return nil, pos, s.ev
		}
		acc |= (k & 0x7f) << shift
		shift += 7
		s, n = s2, k
	}
	return x.tt.intc(acc), s.hi, s.ev
}

func stripConv(v *Term) *Term {
	for v != nil && strings.HasPrefix(v.Op, "conv") && len(v.Args) == 1 {
		v = v.Args[0]
	}
	return v
}

// ofOneof tells if an object is the content of a oneof.
func (t *pbTape) ofOneof(v *Term) string {
	v = stripAssert(v)
	for o, i := range t.m.oneofs {
		if v == t.m.load(t.r, t.p.St, t.obj, i) {
			return o
		}
	}
	return ""
}

// read reads the tape back.
func (t *pbTape) read() {
	x, st := t.r.x, t.p.St
	end := x.length(t.buf)
	ret := t.of(t.p.Ret[0])
	pos := t.add(end, ret, -1)
	done := map[string]bool{}
	for i := 0; !t.eq(pos, end) && t.err == ""; i++ {
		// what follows at the top level: a tag, the unknown fields or a oneof
		var s *pbSeg
		for _, u := range t.segs {
			if !u.used && t.eq(u.lo, pos) && (u.kind == "data" || u.kind == "message") && !linOf(t.of(u.hi)).plus(linOf(t.of(u.lo)), -1).isZero() {
				s = u
			}
		}
		if s != nil {
			s.used = true
			what := "the unknown fields"
			if s.kind == "message" {
				what = t.ofOneof(s.val)
				if what == "" {
					t.fail(s.ev, "a message is written without a tag")
					return
				}
			} else if t.m.unknown < 0 || s.val != t.m.load(t.r, st, t.obj, t.m.unknown) {
				t.fail(s.ev, "data is written without a tag")
				return
			}
			if done[what] {
				t.fail(s.ev, "%s is written twice", what)
			}
			done[what] = true
			pos = s.hi
			continue
		}
		tag, next, ev := t.number(pos)
		if tag == nil {
			t.fail(ev, "the bytes written are not contiguous: there is nothing at %s from %s", pos, ret)
			return
		}
		n, ok := tag.intVal()
		if !ok {
			t.fail(ev, "the tag %s is not constant", tag)
			return
		}
		var f *pbField
		for _, k := range t.m.fields {
			if int64(k.num) == n>>3 {
				f = k
			}
		}
		if f == nil {
			t.fail(ev, "the field number %d is not in the schema", n>>3)
			return
		}
		if done[f.name] {
			t.fail(ev, "the field %s is written twice", f.name)
			return
		}
		done[f.name] = true
		if int64(f.wt) != n&7 {
			t.fail(ev, "the field %s is written with the wire type %d", f.name, n&7)
			return
		}
		fv := t.m.load(t.r, st, t.obj, f.idx)
		val, next, ev2 := t.number(next)
		if val == nil {
			t.fail(ev, "nothing follows the tag of %s", f.name)
			return
		}
		pos = next
		switch f.wt {
		case 0:
			if f.typ == "bool" {
				k, ok := val.intVal()
				want := st.eval(fv)
				if !ok || want == 0 || (k != 0) != (want == 1) || k != 0 && k != 1 {
					t.fail(ev2, "the value written for %s is %s, the field is %d", f.name, val, want)
				}
			} else if stripConv(val) != fv {
				t.fail(ev2, "the value written for %s is %s", f.name, val)
			}
		case 2:
			msg := isPtr(f.goTy)
			if k, ok := val.intVal(); ok && k == 0 {
				if msg && st.eval(x.mkEqNil(fv)) != 1 || !msg && st.eval(t.r.lenZero(fv)) != 1 {
					t.fail(ev2, "the field %s is written as empty", f.name)
				}
				continue
			}
			s := t.seg(pos)
			if s == nil {
				// nothing is written: it must be empty
				if st.eval(x.eq(t.of(val), x.tt.intc(0), val.Typ)) != 1 {
					t.fail(ev2, "the content of %s is not written after its length", f.name)
				}
				continue
			}
			pos = s.hi
			if !t.eq(val, t.add(s.hi, s.lo, -1)) {
				t.fail(ev2, "the length written for %s is %s, the content has %s bytes", f.name, t.of(val), t.add(s.hi, s.lo, -1))
				return
			}
			v := s.val
			if s.kind == "data" {
				v = stripConv(v)
			}
			if msg != (s.kind == "message") || s.kind != "message" && s.kind != "data" || v != fv {
				t.fail(s.ev, "the content written for %s is %s", f.name, s.val)
			}
		default:
			t.fail(ev, "the wire type of %s is not decided", f.name)
		}
	}
	if t.err != "" {
		return
	}
	for _, s := range t.segs {
		if !s.used && !linOf(t.of(s.hi)).plus(linOf(t.of(s.lo)), -1).isZero() && st.eval(x.eq(t.of(s.hi), t.of(s.lo), types.Typ[types.Int])) != 1 {
			t.fail(s.ev, "bytes are written outside of the range returned, which has the length %s", ret)
			return
		}
	}
	for _, f := range t.m.fields {
		if done[f.name] {
			continue
		}
		if t.m.wrapper || !t.r.pbZero(st, t.m.load(t.r, st, t.obj, f.idx)) {
			t.fail(nil, "the field %s is not written", f.name)
		}
	}
	for o, i := range t.m.oneofs {
		if !done[o] && !t.c.oneofUnset(t.r, st, t.m, o, t.m.load(t.r, st, t.obj, i)) {
			t.fail(nil, "the oneof %s is not written", o)
		}
	}
	if t.m.unknown >= 0 && !done["the unknown fields"] && !t.r.pbZero(st, t.m.load(t.r, st, t.obj, t.m.unknown)) {
		t.fail(nil, "the unknown fields are not written")
	}
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// pbZero tells if a field is proven to have the default value.
func (r *Run) pbZero(st *State, v *Term) bool {
	t := v.typ()
	switch u := t.(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return st.eval(v) == -1
		case u.Info()&types.IsString != 0:
			return st.eval(r.lenZero(v)) == 1
		}
		return st.eval(r.x.eq(v, r.x.tt.zero(v.Typ), v.Typ)) == 1
	case *types.Slice:
		return st.eval(r.lenZero(v)) == 1 || st.eval(r.x.mkEqNil(v)) == 1
	}
	return st.eval(r.x.mkEqNil(v)) == 1
}

// oneofUnset tells if a oneof is proven to have no case: it is nil, or it is
// none of the types which can be in it.
func (c *Checker) oneofUnset(r *Run, st *State, m *pbMsg, oneof string, v *Term) bool {
	if st.eval(r.x.mkEqNil(v)) == 1 {
		return true
	}
	for _, w := range m.cases[oneof] {
		if st.eval(r.x.isType(v, w.ptr())) == -1 {
			continue
		}
		// an assertion to an interface which the type has
		no := false
		for t := range st.facts {
			if t.Op != "istype" || t.Args[0] != v || st.eval(t) != -1 {
				continue
			}
			if it, ok := t.Obj.(types.Type); ok {
				if i, ok := it.Underlying().(*types.Interface); ok && types.Implements(w.ptr(), i) {
					no = true
				}
			}
		}
		if !no {
			return false
		}
	}
	return true
}

// possible tells if what a path knows about the types in a oneof can be: every
// type which can be in it has the methods.
func (c *Checker) oneofPossible(r *Run, st *State, m *pbMsg, obj *Term) bool {
	for o, i := range m.oneofs {
		v := m.load(r, st, obj, i)
		if !c.oneofUnset(r, st, m, o, v) {
			continue
		}
		if st.eval(r.x.mkEqNil(v)) == -1 {
			return false
		}
		for t := range st.facts {
			if t.Op == "istype" && t.Args[0] == v && st.eval(t) == 1 {
				return false
			}
		}
	}
	return true
}

func rulePbEncode(c *Checker) {
	c.rule("schema", "the Go type of a message has exactly the fields of the schema, with their numbers, names and types")
	c.rule("methods", "every message, and every type which can be in a oneof, has the methods which write it, under the names the code for the surrounding message asks for")
	c.rule("wire", "the bytes written, read from the front, are exactly: each field at most once, with the number and the wire type of the schema and the length of its content, then the content of this field; the unknown fields; the content of a oneof; they are contiguous, end at the end of the buffer and have the length which is returned")
	c.rule("complete", "a field which is not written has the default value")
	c.rule("size", "SizeVT is exactly the length of the bytes written")
	c.rule("errors", "the error of a nested message is returned")
	c.rule("whole", "MarshalVT returns exactly the bytes of the message, in a new buffer, or the error; MarshalToVT writes them to the front of the buffer it is given")
	for _, m := range c.pbMsgs() {
		for _, meth := range []string{"MarshalToSizedBufferVT", "MarshalToVT", "SizeVT"} {
			c.pbMethod(m, meth)
		}
		for o := range m.oneofs {
			c.oneofClosed(m, o)
		}
		c.pbEncode(m)
		c.pbWhole(m)
	}
	c.floor("schema", 14)
	c.floor("wire", 50)
	c.floor("size", 50)
	c.floor("whole", 20)
}

// pbMethod finds a method and checks that it has the usual signature.
func (c *Checker) pbMethod(m *pbMsg, name string) {
	p := c.load("linux")
	fn := p.Func(m.full + "." + name)
	if fn == nil {
		c.fail("methods", m.full, m.full, "there is no method %s", name)
		return
	}
	want := map[string]string{
		"MarshalToSizedBufferVT": "func(dAtA []byte) (int, error)",
		"MarshalToVT":            "func(dAtA []byte) (int, error)",
		"SizeVT":                 "func() int",
	}[name]
	have := sigString(fn.Signature)
	c.site("methods", m.full, have == want || want == "", p.Pos(fn.Pos()), "%s has the signature %s", name, have)
}

func sigString(s *types.Signature) string {
	var b strings.Builder
	b.WriteString("func(")
	for i := 0; i < s.Params().Len(); i++ {
		if i > 0 {
			b.WriteString(", ")
		}
		b.WriteString("dAtA " + types.TypeString(s.Params().At(i).Type(), nil))
	}
	b.WriteString(")")
	var rs []string
	for i := 0; i < s.Results().Len(); i++ {
		rs = append(rs, types.TypeString(s.Results().At(i).Type(), nil))
	}
	switch len(rs) {
	case 0:
	case 1:
		b.WriteString(" " + rs[0])
	default:
		b.WriteString(" (" + strings.Join(rs, ", ") + ")")
	}
	return b.String()
}

// oneofClosed checks that the types which can be in a oneof are the wrappers of
// its cases.
func (c *Checker) oneofClosed(m *pbMsg, o string) {
	it, ok := m.st.Field(m.oneofs[o]).Type().Underlying().(*types.Interface)
	if !ok {
		c.fail("methods", m.full, m.full, "the oneof %s is not an interface", o)
		return
	}
	ok = false
	for i := 0; i < it.NumMethods(); i++ {
		ok = ok || !it.Method(i).Exported()
	}
	c.site("methods", m.full, ok, m.full, "the interface of the oneof %s is open to other types", o)
	want := map[*types.Named]bool{}
	for _, w := range m.cases[o] {
		want[w.named] = true
		c.site("methods", w.full, types.Implements(w.ptr(), it), m.full, "%s can not be in the oneof", w.name)
	}
	sc := m.named.Obj().Pkg().Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) {
			continue
		}
		nt, ok := types.Unalias(tn.Type()).(*types.Named)
		if !ok || nt.TypeParams().Len() > 0 {
			continue
		}
		if types.Implements(types.NewPointer(nt), it) || types.Implements(nt, it) {
			c.site("methods", nt.Obj().Name(), want[nt] && !types.Implements(nt, it), m.full, "%s can be in the oneof %s and is not in the schema", nt.Obj().Name(), o)
		}
	}
}

func (c *Checker) pbEncode(m *pbMsg) {
	r := c.pbRun(m, "MarshalToSizedBufferVT")
	c.noNil("wire", r)
	obj, buf := r.recv(), r.param(0)
	size := c.anchor(r.p, m.full+".SizeVT")
	c.noNil("size", c.pbRun(m, "SizeVT"))
	for _, p := range c.returns("wire", r) {
		st := p.St
		if !c.oneofPossible(r, st, m, obj) {
			continue
		}
		t := &pbTape{pbSubst: &pbSubst{r: r, m: map[*Term]*Term{}}, c: c, m: m, p: p, obj: obj, buf: buf}
		t.tape()
		// errors
		var failed *Event
		for _, e := range t.errs {
			switch r.nilErr(st, e.Res[1]) {
			case 0:
				c.check("errors", r.name, false, r, p, e, "the error is not tested")
				failed = e
			case -1:
				failed = e
				c.check("errors", r.name, same(st, p.Ret[1], e.Res[1]), r, p, e, "the error is not returned")
			}
		}
		if failed != nil {
			continue
		}
		if !c.check("errors", r.name, r.nilErr(st, p.Ret[1]) == 1, r, p, nil, "an error is returned which no part of the message has") {
			continue
		}
		if st.eval(r.x.mkEqNil(obj)) == 1 {
			n, ok := p.Ret[0].intVal()
			c.check("wire", r.name, ok && n == 0 && len(t.segs) == 0, r, p, nil, "something is written for no message")
		} else {
			if t.err == "" {
				t.read()
			}
			rule := "wire"
			if strings.HasSuffix(t.err, "not written") {
				rule = "complete"
			}
			if !c.check(rule, r.name, t.err == "", r, p, t.ev, "%s", t.err) {
				continue
			}
			c.oblig("complete", r.name)
		}
		// the size
		for _, q := range r.runFnIn(st, size, obj) {
			if q.End != "return" || !c.oneofPossible(r, q.St, m, obj) {
				if q.End != "return" {
					c.check("size", m.full+".SizeVT", false, r, q, nil, "the size is not computed: %s", q.End)
				}
				continue
			}
			t2 := &pbTape{pbSubst: &pbSubst{r: r, m: map[*Term]*Term{}}, p: q}
			for k, v := range t.pbSubst.m {
				t2.pbSubst.m[k] = v
			}
			t2.size(q)
			a, b := t2.of(q.Ret[0]), t2.of(p.Ret[0])
			c.check("size", m.full+".SizeVT", t2.eq(a, b) || q.St.eval(r.x.eq(a, b, types.Typ[types.Int])) == 1, r, q, nil, "the size is %s, the bytes written are %s", a, b)
		}
	}
}

// pbWhole checks the methods which write a whole message.
func (c *Checker) pbWhole(m *pbMsg) {
	if !m.wrapper {
		r := c.pbRun(m, "MarshalVT")
		c.noNil("whole", r)
		obj := r.recv()
		for _, p := range c.returns("whole", r) {
			c.pbWholePath(r, p, obj, nil)
		}
	}
	r := c.pbRun(m, "MarshalToVT")
	c.noNil("whole", r)
	obj := r.recv()
	for _, p := range c.returns("whole", r) {
		c.pbWholePath(r, p, obj, r.param(0))
	}
}

func (c *Checker) pbWholePath(r *Run, p *Path, obj, buf *Term) {
	st := p.St
	t := &pbTape{pbSubst: &pbSubst{r: r, m: map[*Term]*Term{}}, c: c, p: p, obj: obj, buf: buf}
	ok := func(v bool, e *Event, f string, a ...any) bool { return c.check("whole", r.name, v, r, p, e, f, a...) }
	t.size(p)
	if buf == nil && st.eval(r.x.mkEqNil(obj)) == 1 {
		ok(st.eval(r.lenZero(p.Ret[0])) == 1 && r.nilErr(st, p.Ret[1]) == 1, nil, "no message is not written as no bytes")
		return
	}
	var w *Event
	for _, e := range p.Events {
		if e.Kind == "call" && (e.methodName() == "MarshalToSizedBufferVT" || e.methodName() == "MarshalToVT") {
			if !ok(w == nil, e, "the message is written twice") {
				return
			}
			w = e
		}
		if e.Kind == "store" {
			if b := e.Addr.base(); b != nil && b.Op != "alloc" && b.Op != "make" {
				ok(false, e, "something besides the buffer is changed")
			}
		}
	}
	if !ok(w != nil && w.Args[0] == obj, w, "the message is not written") {
		return
	}
	if buf == nil {
		t.buf = t.of(w.Args[1]).base()
		if t.of(w.Args[1]).Op == "make" {
			t.buf = t.of(w.Args[1])
		}
		if !ok(t.buf != nil && t.buf.Op == "make", w, "the buffer is not a new one") {
			return
		}
	}
	lo, hi, k := t.rng(w.Args[1])
	if !ok(k, w, "the message is written to another buffer") {
		return
	}
	n := t.sz(obj)
	if w.methodName() == "MarshalToSizedBufferVT" {
		// the bytes are at the end
		ok(t.fits(t.add(hi, lo, -1), n), w, "the buffer does not have the room for the message")
		lo = t.add(hi, n, -1)
	} else {
		ok(t.fits(t.add(hi, lo, -1), n), w, "the buffer does not have the room for the message")
		hi = t.add(lo, n, 1)
	}
	switch r.nilErr(st, w.Res[1]) {
	case 0:
		// passed on untested
		if buf == nil {
			ok(false, w, "the error is not tested")
			return
		}
		if !ok(same(st, p.Ret[1], w.Res[1]), w, "the error is not returned") {
			return
		}
	case -1:
		ok(same(st, p.Ret[1], w.Res[1]), w, "the error is not returned")
		return
	case 1:
		if !ok(r.nilErr(st, p.Ret[1]) == 1, w, "an error is returned although the message was written") {
			return
		}
	}
	t.m0(w.Res[0], n)
	if buf != nil {
		ok(t.eq(lo, r.x.tt.intc(0)), w, "the bytes are not at the front of the buffer")
		ok(t.eq(p.Ret[0], n), w, "the length returned is %s", p.Ret[0])
		return
	}
	l2, h2, k := t.rng(p.Ret[0])
	ok(k && t.eq(l2, lo) && t.eq(h2, hi), w, "the bytes returned are not those of the message: %s", t.of(p.Ret[0]))
}

func (t *pbTape) fits(room, n *Term) bool {
	return t.eq(room, n) || t.r.ge(t.p.St, t.of(room), t.of(n), 0) == 1
}

func init() { props["S36"] = rulePbEncode }

// ---- copies, comparison, access

func rulePbValues(c *Checker) {
	c.rule("clone", "the clone of a message is a new message with the same value in every field, the clone of no message is none")
	c.rule("deep", "a clone shares no memory with the original: bytes and unknown fields are copied into new memory as a whole, nested messages and the content of a oneof are cloned")
	c.rule("equal", "two messages are equal exactly if all fields, unknown fields and nested messages are")
	c.rule("getters", "a getter returns the value of its field, and the default without a message or in another case of the oneof")
	c.rule("reset", "Reset leaves a message with the default value in every field")
	c.rule("methods", "every type which can be in a oneof has the methods which the code for the surrounding message asks for")
	for _, m := range c.pbMsgs() {
		for o := range m.oneofs {
			c.oneofClosed(m, o)
		}
		c.pbClone(m)
		c.pbEqual(m)
		if !m.wrapper {
			c.pbGetters(m)
			c.pbReset(m)
		}
	}
	c.floor("clone", 30)
	c.floor("equal", 60)
	c.floor("getters", 14)
}

// copied tells if a value is new memory with the content of another.
func (r *Run) copied(p *Path, v, src *Term) string {
	st := p.St
	if st.eval(r.lenZero(src)) == 1 || st.eval(r.x.mkEqNil(src)) == 1 {
		if st.eval(r.lenZero(v)) == 1 || st.isNil(v) {
			return ""
		}
	}
	v = st.rep(v)
	switch v.Op {
	case "make":
		if !linOf(r.x.length(v)).plus(linOf(r.x.length(src)), -1).isZero() {
			return fmt.Sprintf("the copy has the length %s", r.x.length(v))
		}
		n := 0
		for _, e := range p.Events {
			switch {
			case e.isCall("copy") && e.Args[0].base() == v:
				n++
				if e.Args[0] != v || stripConv(e.Args[1]) != src {
					return "something else is copied: " + e.Args[1].String()
				}
			case e.isCall("copy") && e.Args[0].Op == "slice" && e.Args[0].Args[0] == v:
				return "a part is copied"
			case e.Kind == "store" && e.Addr.base() == v && e.Addr.Op == "index":
				return "the copy is changed"
			}
		}
		if n != 1 {
			return fmt.Sprintf("the content is copied %d times", n)
		}
		return ""
	case "appends":
		// append to nothing
		b := v.Args[0]
		if len(v.Args) == 2 && stripConv(v.Args[1]) == src && (b.Op == "nil" || b.Op == "make" || b.Op == "slice" && b.Args[0].Op == "alloc") && st.eval(r.lenZero(b)) == 1 {
			return ""
		}
	case "res":
		for _, e := range p.Events {
			if e.Kind == "call" && len(e.Res) == 1 && e.Res[0] == v && e.isCall("bytes.Clone", "slices.Clone") && e.Args[0] == src {
				return ""
			}
		}
	}
	return "it is not new memory with the content: " + v.String()
}

// cloneOf tells if a value is the clone of another.
func (r *Run) cloneOf(p *Path, v, src *Term) bool {
	st := p.St
	if st.eval(r.x.mkEqNil(src)) == 1 && st.eval(r.x.mkEqNil(v)) == 1 {
		return true
	}
	for _, e := range p.Events {
		if e.Kind == "call" && len(e.Res) == 1 && (st.rep(deref(v)) == e.Res[0] || deref(v) == e.Res[0]) {
			switch e.methodName() {
			case "CloneVT", "CloneOneofVT", "CloneMessageVT":
				return stripAssert(e.Args[0]) == stripAssert(src)
			}
		}
	}
	return false
}

func (c *Checker) onlyNew(rule string, r *Run, p *Path) {
	for _, e := range p.Events {
		if e.Kind == "store" {
			if b := e.Addr.base(); b != nil && b.Op != "alloc" && b.Op != "make" {
				c.check(rule, r.name, false, r, p, e, "the original is changed")
			}
		}
	}
}

func (c *Checker) pbClone(m *pbMsg) {
	r := c.pbRun(m, "CloneVT")
	c.noNil("clone", r)
	obj := r.recv()
	for _, p := range c.returns("clone", r) {
		st := p.St
		v := st.rep(p.Ret[0])
		if st.eval(r.x.mkEqNil(obj)) == 1 {
			c.check("clone", r.name, st.isNil(v), r, p, nil, "the clone of nothing is %s", v)
			continue
		}
		if !c.check("clone", r.name, freshMsg(v, types.TypeString(m.ptr(), nil)), r, p, nil, "the clone is not a new message: %s", v) {
			continue
		}
		c.onlyNew("clone", r, p)
		if m.wrapper {
			c.pbCloneField(r, p, m, m.fields[0], obj, v)
			continue
		}
		for _, f := range m.fields {
			c.pbCloneField(r, p, m, f, obj, v)
		}
		if m.unknown >= 0 {
			e := r.copied(p, m.load(r, st, v, m.unknown), m.load(r, st, obj, m.unknown))
			c.check("deep", r.name, e == "", r, p, nil, "the unknown fields: %s", e)
		}
		for o, i := range m.oneofs {
			c.check("deep", r.name, r.cloneOf(p, m.load(r, st, v, i), m.load(r, st, obj, i)), r, p, nil, "the oneof %s of the clone is %s", o, m.load(r, st, v, i))
		}
	}
	for _, n := range []string{"CloneMessageVT", "CloneOneofVT"} {
		if m.wrapper != (n == "CloneOneofVT") {
			continue
		}
		r := c.pbRun(m, n)
		c.noNil("clone", r)
		for _, p := range c.returns("clone", r) {
			c.onlyNew("clone", r, p)
			c.check("clone", r.name, r.cloneOf(p, p.Ret[0], r.recv()), r, p, nil, "the clone is %s", p.Ret[0])
		}
	}
}

func (c *Checker) pbCloneField(r *Run, p *Path, m *pbMsg, f *pbField, obj, v *Term) {
	a, b := m.load(r, p.St, v, f.idx), m.load(r, p.St, obj, f.idx)
	con := r.name + " (" + f.name + ")"
	switch {
	case isPtr(f.goTy):
		c.check("deep", con, r.cloneOf(p, a, b), r, p, nil, "it is %s in the clone", a)
	case f.typ == "bytes":
		e := r.copied(p, a, b)
		c.check("deep", con, e == "", r, p, nil, "%s", e)
	default:
		c.check("clone", con, same(p.St, a, b) || p.St.eval(r.x.eq(a, b, f.goTy)) == 1, r, p, nil, "it is %s in the clone", a)
	}
}

// sameField decides if a field is equal (1), different (-1) or not known.
func (c *Checker) sameField(r *Run, p *Path, st *State, a, b *Term, typ types.Type) int {
	x := r.x
	if a == b {
		return 1
	}
	calls := func(names ...string) int {
		for _, e := range p.Events {
			if e.Kind != "call" || len(e.Args) != 2 || len(e.Res) != 1 {
				continue
			}
			ok := false
			for _, n := range names {
				ok = ok || e.methodName() == n || e.isCall(n)
			}
			if !ok {
				continue
			}
			l, k := e.Args[0], deref(e.Args[1])
			if c.standsFor(r, p, e, l, a) && c.standsFor(r, p, e, k, b) || c.standsFor(r, p, e, l, b) && c.standsFor(r, p, e, k, a) {
				if v := st.eval(e.Res[0]); v != 0 {
					return v
				}
			}
		}
		return 0
	}
	switch t := typ.Underlying().(type) {
	case *types.Slice:
		if v := calls("bytes.Equal", "slices.Equal"); v != 0 {
			return v
		}
		for f := range st.facts {
			if f.Op == "eq" && len(f.Args) == 2 && f.Args[0].Op == "convstr" && f.Args[1].Op == "convstr" {
				l, k := f.Args[0].Args[0], f.Args[1].Args[0]
				if l == a && k == b || l == b && k == a {
					return st.eval(f)
				}
			}
			if f.Op == "pure" && f.Aux == "bytes.Equal/0" && len(f.Args) == 2 && (f.Args[0] == a && f.Args[1] == b || f.Args[0] == b && f.Args[1] == a) {
				return st.eval(f)
			}
		}
		za, zb := st.eval(r.lenZero(a)), st.eval(r.lenZero(b))
		if za == 1 && zb == 1 {
			return 1
		}
		if st.eval(x.eq(x.length(a), x.length(b), types.Typ[types.Int])) == -1 {
			return -1
		}
	case *types.Pointer:
		if st.eval(x.eq(a, b, typ)) == 1 || st.eval(x.mkEqNil(a)) == 1 && st.eval(x.mkEqNil(b)) == 1 {
			return 1
		}
		return calls("EqualVT")
	case *types.Interface:
		na, nb := st.eval(x.mkEqNil(a)), st.eval(x.mkEqNil(b))
		switch {
		case na == 1 && nb == 1 || st.eval(x.eq(a, b, typ)) == 1:
			return 1
		case na*nb == -1:
			return -1
		}
		return calls("EqualVT")
	case *types.Basic:
		if v := st.eval(x.eq(a, b, typ)); v != 0 {
			return v
		}
		if t.Info()&types.IsBoolean != 0 {
			return st.eval(a) * st.eval(b)
		}
	}
	return 0
}

// standsFor tells if an argument of a comparison is the field, or an empty
// message in place of none.
func (c *Checker) standsFor(r *Run, p *Path, e *Event, arg, f *Term) bool {
	if stripAssert(arg) == stripAssert(f) {
		return true
	}
	arg = deref(arg)
	if !freshObj(arg) || e.st.eval(r.x.mkEqNil(f)) != 1 {
		return false
	}
	for _, o := range p.Events {
		if o == e {
			break
		}
		if o.Kind == "store" && o.Addr.base() == arg {
			return false
		}
	}
	return true
}

func (c *Checker) pbEqual(m *pbMsg) {
	r := c.pbRun(m, "EqualVT")
	c.noNil("equal", r)
	x := r.x
	for _, p := range c.returns("equal", r) {
		c.onlyNew("equal", r, p)
		for _, v := range []bool{true, false} {
			st := p.St
			switch st.eval(p.Ret[0]) {
			case 1:
				if !v {
					continue
				}
			case -1:
				if v {
					continue
				}
			default:
				st = st.clone()
				st.assume(p.Ret[0], v)
			}
			c.pbEqualPath(m, r, x, p, st, v)
		}
	}
	if m.wrapper {
		return
	}
	r = c.pbRun(m, "EqualMessageVT")
	c.noNil("equal", r)
	is := r.x.isType(r.param(0), m.ptr())
	for _, p := range c.returns("equal", r) {
		ret := p.Ret[0]
		ok := p.St.eval(is) == -1 && p.St.eval(ret) == -1
		for _, e := range p.Events {
			if e.Kind == "call" && e.methodName() == "EqualVT" && e.Res[0] == ret {
				a, b := e.Args[0], stripAssert(e.Args[1])
				ok = p.St.eval(is) == 1 && (a == r.recv() && b == r.param(0) || stripAssert(a) == r.param(0) && b == r.recv())
			}
		}
		c.check("equal", r.name, ok, r, p, nil, "the result is %s", ret)
	}
}

func (c *Checker) pbEqualPath(m *pbMsg, r *Run, x *Exec, p *Path, st *State, v bool) {
	this, that := r.recv(), r.param(0)
	ok := func(good bool, f string, a ...any) { c.check("equal", r.name, good, r, p, nil, f, a...) }
	if types.IsInterface(that.Typ) {
		is := x.isType(that, m.ptr())
		switch st.eval(is) {
		case -1:
			ok(!v, "another type is equal")
			return
		case 0:
			if st.eval(x.mkEqNil(that)) == 1 && !v {
				ok(true, "")
				return
			}
			ok(false, "the result does not depend on the type")
			return
		}
		that = x.tt.mk("assert", typeKeyFull(m.ptr()), m.ptr(), that)
	}
	na, nb := st.eval(x.mkEqNil(this)), st.eval(x.mkEqNil(that))
	switch {
	case st.eval(x.eq(this, that, m.ptr())) == 1 || na == 1 && nb == 1:
		ok(v, "a message is not equal to itself")
		return
	case na*nb == -1:
		ok(!v, "a message is equal to no message")
		return
	}
	type fld struct {
		name string
		i    int
	}
	var fs []fld
	for _, f := range m.fields {
		fs = append(fs, fld{f.name, f.idx})
	}
	for o, i := range m.oneofs {
		fs = append(fs, fld{o, i})
	}
	if m.unknown >= 0 {
		fs = append(fs, fld{"unknown fields", m.unknown})
	}
	diff := false
	for _, f := range fs {
		s := c.sameField(r, p, st, m.load(r, st, this, f.i), m.load(r, st, that, f.i), m.st.Field(f.i).Type())
		if v {
			ok(s == 1, "equal is returned although the field %s may differ", f.name)
		}
		diff = diff || s == -1
	}
	if !v {
		ok(diff, "different is returned although no field is known to differ")
	}
}

func (c *Checker) pbGetters(m *pbMsg) {
	get := func(name string, val func(r *Run, st *State) *Term) {
		r := c.pbRun(m, name)
		c.noNil("getters", r)
		for _, p := range c.returns("getters", r) {
			c.onlyNew("getters", r, p)
			st := p.St
			var w *Term
			if st.eval(r.x.mkEqNil(r.recv())) != 1 {
				w = val(r, st)
			}
			if w == nil {
				z := st.rep(p.Ret[0])
				c.check("getters", r.name, st.isNil(z) || z == r.x.tt.zero(r.fn.Signature.Results().At(0).Type()), r, p, nil, "the default is %s", z)
				continue
			}
			c.check("getters", r.name, same(st, p.Ret[0], w) || st.eval(r.x.eq(p.Ret[0], w, w.Typ)) == 1, r, p, nil, "the value is %s", p.Ret[0])
		}
	}
	for _, f := range m.fields {
		i := f.idx
		get("Get"+goCamel(f.name), func(r *Run, st *State) *Term { return m.load(r, st, r.recv(), i) })
	}
	for o, i := range m.oneofs {
		i := i
		get("Get"+goCamel(o), func(r *Run, st *State) *Term { return m.load(r, st, r.recv(), i) })
		for _, w := range m.cases[o] {
			w := w
			get("Get"+goCamel(w.fields[0].name), func(r *Run, st *State) *Term {
				b := m.load(r, st, r.recv(), i)
				if st.eval(r.x.mkEqNil(b)) == 1 || st.eval(r.x.isType(b, w.ptr())) == -1 {
					return nil
				}
				if st.eval(r.x.isType(b, w.ptr())) != 1 {
					return r.x.tt.mk("unknown", "", nil)
				}
				return w.load(r, st, r.x.tt.mk("assert", typeKeyFull(w.ptr()), w.ptr(), b), 0)
			})
		}
	}
}

func (c *Checker) pbReset(m *pbMsg) {
	r := c.pbRun(m, "Reset")
	for _, p := range c.returns("reset", r) {
		for i := 0; i < m.st.NumFields(); i++ {
			v := m.load(r, p.St, r.recv(), i)
			z := r.x.tt.zero(m.st.Field(i).Type())
			c.check("reset", r.name, p.St.rep(v) == z || p.St.isNil(v), r, p, nil, "%s is %s", m.st.Field(i).Name(), v)
		}
	}
}

func init() { props["S38"] = rulePbValues }
