package main

import (
	"go/constant"
	"go/types"
	"strconv"
	"strings"
)

// ---- the JSON and text forms of messages

// pbJSON is the kind of the methods which read and write a field of a type.
func pbJSON(f *pbField) string {
	switch f.typ {
	case "string", "bytes", "bool":
		return strings.ToUpper(f.typ[:1]) + f.typ[1:]
	case "int32", "sint32", "sfixed32":
		return "Int32"
	case "int64", "sint64", "sfixed64":
		return "Int64"
	case "uint32", "fixed32":
		return "Uint32"
	case "uint64", "fixed64":
		return "Uint64"
	case "float":
		return "Float32"
	case "double":
		return "Float64"
	}
	if isPtr(f.goTy) {
		return "message"
	}
	return "Enum"
}

// jsonName is the name of a field in the JSON form.
func (f *pbField) jsonName() string {
	g := goCamel(f.name)
	if f.name == "" {
		return ""
	}
	return f.name[:1] + g[1:]
}

// strConst is the text of a constant.
func strConst(t *Term) (string, bool) {
	t = unwrap(t)
	if t == nil || t.Op != "const" {
		return "", false
	}
	if k, ok := t.Obj.(constant.Value); ok && k.Kind() == constant.String {
		return constant.StringVal(k), true
	}
	if s, err := strconv.Unquote(t.Aux); err == nil {
		return s, true
	}
	return "", false
}

// pbSlot is a field of a message, or the content of a case of a oneof.
type pbSlot struct {
	f *pbField
	w *pbMsg // the wrapper of a case
	o int    // index of the oneof
}

func (m *pbMsg) slots() []*pbSlot {
	var out []*pbSlot
	for _, f := range m.fields {
		out = append(out, &pbSlot{f: f})
	}
	for _, o := range sortedKeys(m.oneofs) {
		for _, w := range m.cases[o] {
			out = append(out, &pbSlot{f: w.fields[0], w: w, o: m.oneofs[o]})
		}
	}
	return out
}

// of is the value of a slot, and whether the slot is in use (1), not (-1).
func (s *pbSlot) of(r *Run, st *State, m *pbMsg, obj *Term) (*Term, int) {
	if s.w == nil {
		return m.load(r, st, obj, s.f.idx), 1
	}
	b := m.load(r, st, obj, s.o)
	is := st.eval(r.x.isType(b, s.w.ptr()))
	if st.eval(r.x.mkEqNil(b)) == 1 {
		is = -1
	}
	if is != 1 {
		for _, w := range m.cases[strings.TrimSpace(s.f.oneof)] {
			if w != s.w && st.eval(r.x.isType(b, w.ptr())) == 1 {
				is = -1
			}
		}
	}
	return s.w.load(r, st, r.x.tt.mk("assert", typeKeyFull(s.w.ptr()), s.w.ptr(), b), 0), is
}

const jsonPkg = "github.com/aperturerobotics/protobuf-go-lite/json."

func rulePbText(c *Checker) {
	c.rule("json-write", "the JSON form of a message is an object with each field at most once, under its JSON name, with its value as the schema types it; no message is written as null")
	c.rule("json-complete", "a field which is left out of the JSON form has the default value, and the case of a oneof which is set is always written")
	c.rule("json-read", "reading the JSON form sets, for each field name (in the schema or the JSON spelling), exactly this field to the value read, once, and nothing else; null leaves the message as it is")
	c.rule("json-skip", "the value of an unknown name is skipped once and changes nothing")
	c.rule("json-whole", "MarshalJSON and UnmarshalJSON return what the encoder and decoder of the library return for the message")
	c.rule("text", "the text form is the name of the message and in braces each field at most once, with its name and its value (texts quoted, bytes in base64), one space between two fields; a field left out has the default value; String returns it")
	for _, m := range c.pbMsgs() {
		if m.wrapper {
			continue
		}
		c.jsonWrite(m)
		c.jsonRead(m)
		c.jsonWhole(m)
		c.pbText(m)
	}
	c.floor("json-write", 40)
	c.floor("json-read", 20)
	c.floor("text", 20)
}


// absent checks that every slot which was not written has the default value.
func (c *Checker) absent(rule string, r *Run, p *Path, m *pbMsg, got map[string]bool, zeroCase bool) {
	for _, s := range m.slots() {
		if got[s.f.name] {
			continue
		}
		v, is := s.of(r, p.St, m, r.recv())
		ok := is == -1
		if s.w == nil || is == 1 && zeroCase {
			ok = ok || r.pbZero(p.St, v)
		}
		if !ok && s.w != nil && is == 0 {
			ok = c.oneofUnset(r, p.St, m, s.f.oneof, m.load(r, p.St, r.recv(), s.o))
		}
		c.check(rule, r.name, ok, r, p, nil, "%s is left out although it may have a value", s.f.name)
	}
}

func (m *pbMsg) slot(name string, json bool) *pbSlot {
	for _, s := range m.slots() {
		if s.f.name == name && !json || s.f.jsonName() == name && json {
			return s
		}
	}
	return nil
}

func (c *Checker) jsonWrite(m *pbMsg) {
	const rule = "json-write"
	r := c.pbRun(m, "MarshalProtoJSON")
	c.noNil("json-write", r)
	s := r.param(0)
	for _, p := range c.returns(rule, r) {
		if !c.oneofPossible(r, p.St, m, r.recv()) {
			continue
		}
		null := p.St.eval(r.x.mkEqNil(r.recv())) == 1
		state, name, first := "start", "", true
		var slot *pbSlot
		var more *Term
		got := map[string]bool{}
		bad := false
		fail := func(e *Event, f string, a ...any) {
			bad = true
			c.check(rule, r.name, false, r, p, e, f, a...)
		}
		for _, e := range p.Events {
			if e.Kind == "store" && !freshObj(e.Addr.base()) {
				fail(e, "writing changes the message")
			}
			if e.Kind != "call" || bad {
				continue
			}
			if e.methodName() == "MarshalProtoJSON" && len(e.Args) == 2 && state == "value" {
				w := madeByName(e.st, e.Args[1], jsonPkg+"MarshalState.WithField")
				if e.Args[1] != s && (w == nil || w.Args[0] != s) {
					fail(e, "the nested message is written to %s", e.Args[1])
					continue
				}
				v, _ := slot.of(r, e.st, m, r.recv())
				c.check(rule, r.name, pbJSON(slot.f) == "message" && same(e.st, e.Args[0], v), r, p, e, "the value of %s is %s", name, e.Args[0])
				state = "next"
				continue
			}
			if !strings.HasPrefix(e.Name, jsonPkg) || len(e.Args) == 0 || e.Args[0] != s {
				continue
			}
			k := e.methodName()
			switch {
			case k == "HasField" || k == "WithField" || k == "Config" || k == "Err":
			case null && k == "WriteNil" && state == "start":
				state = "end"
			case !null && k == "WriteObjectStart" && state == "start":
				state = "next"
			case k == "WriteMoreIf" && state == "next":
				v := r.x.tt.boolc(false)
				if more == nil {
					if v = r.x.load(e.st, e.Args[1], types.Typ[types.Bool]); !v.isFalse() {
						fail(e, "the flag of the first field is %s", v)
					}
				}
				if more != nil && more != e.Args[1] || !freshObj(e.Args[1]) {
					fail(e, "the separator depends on %s", e.Args[1])
				}
				if more == nil && !first {
					fail(e, "the second field is taken for the first")
				}
				more, state = e.Args[1], "name"
			case k == "WriteMore" && state == "next" && !first && more == nil:
				state = "name"
			case k == "WriteObjectField" && (state == "name" || state == "next" && first && more == nil):
				var ok bool
				name, ok = strConst(e.Args[1])
				if slot = m.slot(name, true); !ok || slot == nil {
					fail(e, "there is no field with the JSON name %s", e.Args[1])
					continue
				}
				_, is := slot.of(r, e.st, m, r.recv())
				c.check(rule, r.name, is == 1, r, p, e, "%s is written although it may not be set", name)
				c.check(rule, r.name, !got[slot.f.name], r, p, e, "%s is written twice", name)
				got[slot.f.name] = true
				state, first = "value", false
			case state == "value" && strings.HasPrefix(k, "Write"):
				v, _ := slot.of(r, e.st, m, r.recv())
				if k == "WriteNil" {
					c.check(rule, r.name, pbJSON(slot.f) == "message" && e.st.eval(r.x.mkEqNil(v)) == 1, r, p, e, "%s is written as null", name)
					state = "next"
					continue
				}
				kind := strings.TrimPrefix(k, "Write")
				if strings.HasPrefix(kind, "Enum") {
					kind = "Enum"
				}
				c.check(rule, r.name, kind == pbJSON(slot.f) && len(e.Args) >= 2 && same(e.st, e.Args[1], v), r, p, e, "%s is written by %s of %s", name, k, e.Args[1])
				state = "next"
			case k == "WriteObjectEnd" && state == "next":
				state = "end"
			default:
				fail(e, "%s is called where the form needs the %s", k, state)
			}
		}
		if bad {
			continue
		}
		if c.check(rule, r.name, state == "end", r, p, nil, "the form ends where it needs the %s", state) && !null {
			c.absent("json-complete", r, p, m, got, false)
		}
	}
}

func (c *Checker) jsonRead(m *pbMsg) {
	r := c.pbRun(m, "UnmarshalProtoJSON")
	s := r.param(0)
	for _, p := range c.returns("json-read", r) {
		var obj *Event
		null, bad := 0, false
		for _, e := range p.Events {
			if e.Kind == "store" && !freshObj(e.Addr.base()) {
				bad = true
				c.check("json-read", r.name, false, r, p, e, "the message is changed before its form is read")
			}
			if e.Kind != "call" || !strings.HasPrefix(e.Name, jsonPkg) || len(e.Args) == 0 || e.Args[0] != s {
				continue
			}
			switch k := e.methodName(); {
			case k == "ReadNil" && obj == nil && null == 0:
				null = p.St.eval(e.Res[0])
			case k == "ReadObject" && obj == nil:
				obj = e
			case k == "Err" || k == "Config" || k == "WhatIsNext":
			default:
				bad = true
				c.check("json-read", r.name, false, r, p, e, "%s is called", k)
			}
		}
		if bad || !c.check("json-read", r.name, null == 1 && obj == nil || null == -1 && obj != nil, r, p, obj, "the form is not read as null or an object") || obj == nil {
			continue
		}
		key := r.x.tt.mk("param", "c0/key", types.Typ[types.String])
		seen := map[string]bool{}
		qs := r.runClosure(obj.st, obj.Args[1], key)
		if !c.check("json-read", r.name, len(qs) > 0, r, p, obj, "the function which reads the fields can not be followed") {
			continue
		}
		for _, q := range qs {
			c.jsonField(m, r, q, obj.st, s, key, seen)
		}
		for _, sl := range m.slots() {
			c.check("json-read", r.name, seen[sl.f.name], r, p, obj, "the name %s is not read", sl.f.name)
			c.check("json-read", r.name, seen[sl.f.jsonName()], r, p, obj, "the name %s is not read", sl.f.jsonName())
		}
	}
}

// jsonField checks a path which reads the value of one name.
func (c *Checker) jsonField(m *pbMsg, r *Run, p *Path, before *State, s, key *Term, seen map[string]bool) {
	const rule = "json-read"
	if !c.check(rule, r.name, p.End == "return", r, p, nil, "the path ends with a %s", p.End) {
		return
	}
	st := p.St
	var slot *pbSlot
	for _, sl := range m.slots() {
		for _, n := range []string{sl.f.name, sl.f.jsonName()} {
			if st.eval(r.x.eq(key, r.x.tt.strc(n), key.Typ)) == 1 {
				slot = sl
				seen[n] = true
			}
		}
	}
	// what is read, in order
	var read *Event
	var nested []*Event
	null := false
	for _, e := range p.Events {
		if e.Kind != "call" {
			continue
		}
		if e.methodName() == "UnmarshalProtoJSON" && len(e.Args) == 2 {
			w := madeByName(e.st, e.Args[1], jsonPkg+"UnmarshalState.WithField")
			c.check(rule, r.name, (e.Args[1] == s || w != nil && w.Args[0] == s) && read == nil && !null, r, p, e, "the value is read twice, or from elsewhere")
			read = e
			nested = append(nested, e)
			continue
		}
		if !strings.HasPrefix(e.Name, jsonPkg) || len(e.Args) == 0 || e.Args[0] != s {
			continue
		}
		switch k := e.methodName(); {
		case k == "AddField" || k == "WithField" || k == "Err" || k == "Config" || k == "WhatIsNext":
		case k == "ReadNil":
			c.check(rule, r.name, read == nil && !null, r, p, e, "the value is read twice")
			switch st.eval(e.Res[0]) {
			case 1:
				null = true
			case 0:
				c.check(rule, r.name, false, r, p, e, "the value may be read without being used")
			}
		case strings.HasPrefix(k, "Read") || strings.HasPrefix(k, "Skip"):
			c.check(rule, r.name, read == nil && !null, r, p, e, "the value is read twice")
			read = e
		default:
			c.check(rule, r.name, false, r, p, e, "%s is called", k)
		}
	}
	if !c.check(rule, r.name, read != nil || null, r, p, nil, "the value is not read") {
		return
	}
	// nothing else changes
	var own int = -1
	if slot != nil {
		if own = slot.f.idx; slot.w != nil {
			own = slot.o
		}
	}
	for i := 0; i < m.st.NumFields(); i++ {
		if i == own {
			continue
		}
		a, b := m.load(r, before, r.recv(), i), m.load(r, st, r.recv(), i)
		c.check(rule, r.name, a == b, r, p, nil, "%s is changed", m.st.Field(i).Name())
	}
	if slot == nil {
		ok := read != nil && strings.HasPrefix(read.methodName(), "Skip")
		c.check("json-skip", r.name, ok, r, p, read, "the value of an unknown name is not skipped")
		for _, sl := range m.slots() {
			for _, n := range []string{sl.f.name, sl.f.jsonName()} {
				c.check("json-skip", r.name, st.eval(r.x.eq(key, r.x.tt.strc(n), key.Typ)) == -1, r, p, read, "the value of %s is skipped", n)
			}
		}
		return
	}
	v := m.load(r, st, r.recv(), own)
	if slot.w != nil {
		w := unwrap(st.rep(v))
		if !c.check(rule, r.name, freshMsg(w, types.TypeString(slot.w.ptr(), nil)), r, p, nil, "the oneof is %s after %s was read", v, slot.f.name) {
			return
		}
		v = slot.w.load(r, st, w, 0)
	}
	kind := pbJSON(slot.f)
	switch {
	case null:
		if kind == "message" {
			c.check(rule, r.name, st.isNil(v), r, p, nil, "%s is %s after null", slot.f.name, v)
			return
		}
		old := slot.w == nil && v == m.load(r, before, r.recv(), own)
		c.check(rule, r.name, old || r.pbZero(st, v) || st.isNil(v) || st.rep(v) == r.x.tt.zero(v.Typ), r, p, nil, "%s is %s after null", slot.f.name, v)
	case kind == "message":
		n := st.rep(v)
		c.check(rule, r.name, len(nested) == 1 && n.Op == "alloc" && same(st, nested[0].Args[0], n) && types.Identical(n.typ(), slot.f.goTy), r, p, read, "%s is not read into a new message of its own", slot.f.name)
	default:
		k := strings.TrimPrefix(strings.TrimPrefix(read.methodName(), "Read"), "Wrapped")
		c.check(rule, r.name, len(read.Res) == 1 && k == kind && same(st, v, read.Res[0]), r, p, read, "%s is set to %s", slot.f.name, v)
	}
}

func (c *Checker) jsonWhole(m *pbMsg) {
	const rule = "json-whole"
	for _, d := range []struct{ name, lib, cfg string }{
		{"MarshalJSON", "Marshal", "DefaultMarshalerConfig"}, {"UnmarshalJSON", "Unmarshal", "DefaultUnmarshalerConfig"}} {
		r := c.pbRun(m, d.name)
		for _, p := range c.returns(rule, r) {
			var ev *Event
			n := 0
			for _, e := range p.Events {
				if e.Kind == "call" && strings.HasPrefix(e.Name, jsonPkg) {
					ev = e
					n++
				}
			}
			if !c.check(rule, r.name, n == 1 && ev.methodName() == d.lib, r, p, nil, "the library is called %d times", n) {
				continue
			}
			// the configuration, the bytes and the message
			args := ev.Args
			msg := args[len(args)-1]
			c.check(rule, r.name, deref(msg) == r.recv(), r, p, ev, "%s is converted", msg)
			if d.lib == "Unmarshal" {
				c.check(rule, r.name, len(args) >= 2 && args[len(args)-2] == r.param(0), r, p, ev, "other bytes are read")
			}
			ok := len(p.Ret) == len(ev.Res)
			for i := range p.Ret {
				same1 := ok && same(p.St, p.Ret[i], ev.Res[i])
				if i == 0 && d.lib == "Marshal" && r.failed(p.St, ev.Res[1]) == 1 {
					same1 = ok
				}
				c.check(rule, r.name, same1, r, p, ev, "the result of the library is not returned")
			}
		}
	}
}

// pbText follows what is written to the builder whose text is returned.
func (c *Checker) pbText(m *pbMsg) {
	const rule = "text"
	rs := c.pbRun(m, "String")
	for _, p := range c.returns(rule, rs) {
		e := madeByName(p.St, p.Ret[0], m.full+".MarshalProtoText")
		c.check(rule, rs.name, e != nil && e.Args[0] == rs.recv(), rs, p, nil, "%s is returned", p.Ret[0])
	}
	r := c.pbRun(m, "MarshalProtoText")
	for _, p := range c.returns(rule, r) {
		if !c.oneofPossible(r, p.St, m, r.recv()) {
			continue
		}
		end := madeByName(p.St, p.Ret[0], "strings.Builder.String")
		var b *Term
		if end != nil {
			b = end.Args[0]
		}
		if !c.check(rule, r.name, b != nil && freshObj(b), r, p, nil, "%s is returned, which can not be followed", p.Ret[0]) {
			continue
		}
		// the text, as constants and values
		type part struct {
			lit string
			val *Term
		}
		var tape []part
		put := func(lit string, v *Term) {
			if n := len(tape); v == nil && n > 0 && tape[n-1].val == nil {
				tape[n-1].lit += lit
				return
			}
			tape = append(tape, part{lit, v})
		}
		var add func(st *State, v *Term)
		add = func(st *State, v *Term) {
			v = st.rep(v)
			if s, ok := strConst(v); ok {
				put(s, nil)
				return
			}
			if v.Op == "concat" || v.Op == "bin" && v.Aux == "+" {
				for _, a := range v.Args {
					add(st, a)
				}
				return
			}
			put("", v)
		}
		ok, possible := true, true
		for _, e := range p.Events {
			if e.Kind == "store" && !freshObj(e.Addr.base()) {
				ok = c.check(rule, r.name, false, r, p, e, "the message is changed") && ok
			}
			if e.Kind != "call" || len(e.Args) == 0 || e.Args[0] != b || e.Idx > end.Idx {
				continue
			}
			switch e.methodName() {
			case "WriteString":
				add(e.st, e.Args[1])
			case "WriteByte", "WriteRune":
				if n, isC := e.Args[1].intVal(); isC {
					put(string(rune(n)), nil)
				} else {
					ok = c.check(rule, r.name, false, r, p, e, "the character %s is written", e.Args[1])
				}
			case "Len":
				// what the text is so far bounds its length
				lo, exact := 0, true
				for _, t := range tape {
					lo += len(t.lit)
					if t.val != nil {
						exact = false
						if q := madeByName(e.st, t.val, "strconv.Quote"); q != nil {
							lo += 2
						}
					}
				}
				l := linOf(e.Res[0])
				at := func(k int64) lin { q := lin{co: l.co, k: l.k - k}; return q }
				if p.St.eval(r.x.ge0(at(int64(lo)))) == -1 || exact && p.St.eval(r.x.ge0(at(int64(lo)+1))) == 1 {
					possible = false
				}
			case "String", "Grow", "Cap":
			default:
				ok = c.check(rule, r.name, false, r, p, e, "%s is called", e.methodName())
			}
		}
		if !ok || !possible {
			continue
		}
		// read it
		i, off := 0, 0
		rest := func() string {
			if i < len(tape) && tape[i].val == nil {
				return tape[i].lit[off:]
			}
			return ""
		}
		eat := func(s string) bool {
			if !strings.HasPrefix(rest(), s) {
				return false
			}
			if off += len(s); off == len(tape[i].lit) {
				i, off = i+1, 0
			}
			return true
		}
		val := func() *Term {
			if i < len(tape) && tape[i].val != nil {
				i++
				return tape[i-1].val
			}
			return nil
		}
		if !c.check(rule, r.name, eat(m.name+" {"), r, p, nil, "the text begins with %q", rest()) {
			continue
		}
		got := map[string]bool{}
		done := false
		for !done {
			if rest() == "}" && i == len(tape)-1 {
				done = true
				break
			}
			if len(got) > 0 && !eat(" ") {
				c.check(rule, r.name, false, r, p, nil, "there is no space between two fields, but %q", rest())
				break
			}
			name, _, found := strings.Cut(rest(), ": ")
			slot := m.slot(name, false)
			if !found || slot == nil || got[name] {
				c.check(rule, r.name, false, r, p, nil, "the text goes on with %q, which is no field or one again", rest())
				break
			}
			got[name] = true
			eat(name + ": ")
			v, is := slot.of(r, p.St, m, r.recv())
			c.check(rule, r.name, is == 1, r, p, nil, "%s is written although it may not be set", name)
			if !c.textValue(r, p, slot, v, eat, val) {
				c.check(rule, r.name, false, r, p, nil, "the value of %s is not written as a %s", name, slot.f.typ)
				break
			}
			c.check(rule, r.name, true, r, p, nil, "")
		}
		if done {
			c.absent(rule, r, p, m, got, true)
		}
	}
}

// textValue reads the value of a field of the text form.
func (c *Checker) textValue(r *Run, p *Path, s *pbSlot, v *Term, eat func(string) bool, val func() *Term) bool {
	made := func(t *Term, name string, i int) bool {
		if t == nil {
			return false
		}
		if e := madeByName(p.St, t, name); e != nil {
			return len(e.Args) > i && same(p.St, e.Args[i], v)
		}
		return t.Op == "pure" && strings.HasPrefix(t.Aux, name) && len(t.Args) > i && same(p.St, t.Args[i], v)
	}
	switch pbJSON(s.f) {
	case "String":
		return made(val(), "strconv.Quote", 0)
	case "Bytes":
		if !eat(`"`) {
			return false
		}
		t := val()
		return made(t, "encoding/base64.Encoding.EncodeToString", 1) && strings.Contains(t.Ev.Args[0].String(), "base64.StdEncoding") && eat(`"`)
	case "Bool":
		if b := p.St.eval(v); b == 1 && eat("true") || b == -1 && eat("false") {
			return true
		}
		return made(val(), "strconv.FormatBool", 0)
	case "message":
		t := val()
		e := p.St.rep(t)
		if t == nil || e.Op != "res" || e.Ev == nil || !strings.HasSuffix(e.Ev.Name, ".MarshalProtoText") {
			return false
		}
		return same(p.St, e.Ev.Args[0], v)
	}
	return false
}

func init() { props["S59"] = rulePbText }
