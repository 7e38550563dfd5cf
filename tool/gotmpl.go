package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file extracts the text a code generator emits from its source. The
// functions of the generator are evaluated over abstract inputs: a name is a
// symbol whose text nothing may depend on, a method is known by its kind only,
// and a question to the environment is answered both ways. What can not be
// followed makes the property undecided.

// tSym is a name of the schema.
type tSym struct {
	name string   // what it is the name of
	rep  string   // the name it is shown as, in an example of the text
	via  []string // functions applied to it
	fns  []func(string) string
}

func (s *tSym) text() string {
	t := s.rep
	for _, f := range s.fns {
		t = f(t)
	}
	return t
}

func (s *tSym) with(name string, f func(string) string) *tSym {
	return &tSym{s.name, s.rep, append(s.via[:len(s.via):len(s.via)], name), append(s.fns[:len(s.fns):len(s.fns)], f)}
}

// tPart is a piece of a text: literal, or a symbol.
type tPart struct {
	lit string
	sym *tSym
}

type tStr []tPart

func lit(s string) tStr {
	if s == "" {
		return nil
	}
	return tStr{{lit: s}}
}

func symStr(name, rep string) tStr { return tStr{{sym: &tSym{name: name, rep: rep}}} }

func (s tStr) cat(o tStr) tStr {
	out := append(tStr(nil), s...)
	for _, p := range o {
		if n := len(out); n > 0 && p.sym == nil && out[n-1].sym == nil {
			out[n-1].lit += p.lit
			continue
		}
		out = append(out, p)
	}
	return out
}

func (s tStr) text() string {
	var b strings.Builder
	for _, p := range s {
		if p.sym != nil {
			b.WriteString(p.sym.text())
		} else {
			b.WriteString(p.lit)
		}
	}
	return b.String()
}

// show writes symbols by what they name.
func (s tStr) show() string {
	var b strings.Builder
	for _, p := range s {
		if p.sym != nil {
			b.WriteString("<" + strings.Join(append([]string{p.sym.name}, p.sym.via...), "|") + ">")
		} else {
			b.WriteString(p.lit)
		}
	}
	return b.String()
}

func (s tStr) literal() (string, bool) {
	for _, p := range s {
		if p.sym != nil {
			return "", false
		}
	}
	return s.text(), true
}

// apply runs a function on every piece.
func (s tStr) apply(name string, f func(string) string) tStr {
	var out tStr
	for _, p := range s {
		if p.sym != nil {
			out = append(out, tPart{sym: p.sym.with(name, f)})
		} else {
			out = out.cat(lit(f(p.lit)))
		}
	}
	return out
}

type (
	tLen   struct{ min int } // the length of a text with symbols
	tSlot  struct{ v *any }  // a pointer
	tRec   struct{ f []any } // a struct value
	tArr   struct{ e []any }
	tSlice struct {
		a      *[]any
		lo, hi int
	}
	tMap struct {
		keys []string
		kv   map[string]any
	}
	tClosure struct {
		fn *ssa.Function
		fv []any
	}
	tTuple []any
	tIface struct {
		typ types.Type
		v   any
	}
	tBuf struct{ s tStr }
	tRng struct{ i int }
	// tObj is an input of the generator, or an object of the plugin library.
	tObj struct {
		kind, name string
		f          map[string]*any
		m          map[string]func([]any) any
	}
)

func (o *tObj) set(name string, v any) *tObj {
	if o.f == nil {
		o.f = map[string]*any{}
	}
	o.f[name] = &v
	return o
}

func (o *tObj) get(name string) any {
	if p := o.f[name]; p != nil {
		return *p
	}
	return nil
}

func list(v ...any) tSlice { return tSlice{&v, 0, len(v)} }

// tmplEval evaluates functions of the generator.
type tmplEval struct {
	p      *Prog
	asks   []bool // answers of the environment
	asked  int
	steps  int
	depth  int
	fns    map[*ssa.Function]bool
	calls  map[string]func(ev *tmplEval, in ssa.CallInstruction, a []any) any
	global map[*ssa.Global]*any
	trace  []string
}

type undecidedText struct{ where, msg string }

func (e *tmplEval) stop(pos token.Pos, f string, a ...any) any {
	panic(undecidedText{e.p.Pos(pos), fmt.Sprintf(f, a...)})
}

// ask is a question which has both answers.
func (e *tmplEval) ask() bool {
	if e.asked == len(e.asks) {
		e.asks = append(e.asks, false)
	}
	e.asked++
	return e.asks[e.asked-1]
}

// next moves on to the next combination of answers.
func (e *tmplEval) next() bool {
	a := e.asks[:e.asked]
	for len(a) > 0 && a[len(a)-1] {
		a = a[:len(a)-1]
	}
	if len(a) == 0 {
		return false
	}
	a[len(a)-1] = true
	e.asks, e.asked = a, 0
	return true
}

func (e *tmplEval) zero(t types.Type) any {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case "strings.Builder", "bytes.Buffer":
			return &tBuf{}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return tStr(nil)
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		}
	case *types.Struct:
		r := &tRec{}
		for i := 0; i < u.NumFields(); i++ {
			r.f = append(r.f, e.zero(u.Field(i).Type()))
		}
		return r
	case *types.Array:
		a := &tArr{}
		for i := int64(0); i < u.Len() && i < 1<<12; i++ {
			a.e = append(a.e, e.zero(u.Elem()))
		}
		return a
	case *types.Slice:
		return tSlice{}
	}
	return nil
}

// cp copies a struct or array value.
func cp(v any) any {
	switch v := v.(type) {
	case *tRec:
		n := &tRec{}
		for _, f := range v.f {
			n.f = append(n.f, cp(f))
		}
		return n
	case *tArr:
		n := &tArr{}
		for _, f := range v.e {
			n.e = append(n.e, cp(f))
		}
		return n
	}
	return v
}

func (e *tmplEval) constant(c *ssa.Const) any {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.String:
		return lit(constant.StringVal(c.Value))
	case constant.Bool:
		return constant.BoolVal(c.Value)
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger == 0 {
			return nil
		}
		n, _ := constant.Int64Val(c.Value)
		return n
	}
	return nil
}

// run evaluates a function.
func (e *tmplEval) run(fn *ssa.Function, args, fv []any) any {
	if len(fn.Blocks) == 0 {
		return e.stop(fn.Pos(), "%s can not be followed", fn)
	}
	e.fns[fn] = true
	e.depth++
	defer func() { e.depth-- }()
	if e.depth > 100 {
		return e.stop(fn.Pos(), "%s does not come to an end", fn)
	}
	env := map[ssa.Value]any{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		env[p] = fv[i]
	}
	var defers []func()
	val := func(v ssa.Value) any {
		switch v := v.(type) {
		case *ssa.Const:
			return e.constant(v)
		case *ssa.Function:
			return &tClosure{fn: v}
		case *ssa.Global:
			s := e.global[v]
			if s == nil {
				z := e.zero(v.Type().(*types.Pointer).Elem())
				s = &z
				e.global[v] = s
			}
			return tSlot{s}
		}
		return env[v]
	}
	b, prev := fn.Blocks[0], (*ssa.BasicBlock)(nil)
	for {
		var phis []any
		n := 0
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			n++
			for i, q := range b.Preds {
				if q == prev {
					phis = append(phis, val(p.Edges[i]))
					break
				}
			}
		}
		for i := 0; i < n; i++ {
			env[b.Instrs[i].(*ssa.Phi)] = phis[i]
		}
		next := (*ssa.BasicBlock)(nil)
		for _, in := range b.Instrs[n:] {
			if e.steps++; e.steps > 2000000 {
				return e.stop(in.Pos(), "the generator does not come to an end")
			}
			switch in := in.(type) {
			case *ssa.DebugRef:
			case *ssa.Return:
				for i := len(defers) - 1; i >= 0; i-- {
					defers[i]()
				}
				defers = nil
				switch len(in.Results) {
				case 0:
					return nil
				case 1:
					return cp(val(in.Results[0]))
				}
				var t tTuple
				for _, r := range in.Results {
					t = append(t, cp(val(r)))
				}
				return t
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.If:
				k, ok := val(in.Cond).(bool)
				if !ok {
					return e.stop(e.near(b, in), "%s depends on something which can not be followed", fn.Name())
				}
				if next = b.Succs[1]; k {
					next = b.Succs[0]
				}
			case *ssa.Panic:
				return e.stop(in.Pos(), "the generator panics")
			case *ssa.RunDefers:
				for i := len(defers) - 1; i >= 0; i-- {
					defers[i]()
				}
				defers = nil
			case *ssa.Defer:
				c, a := in, e.args(in.Common(), val)
				defers = append(defers, func() { e.call(c, a) })
			case *ssa.Store:
				p, ok := val(in.Addr).(tSlot)
				if !ok {
					return e.stop(in.Pos(), "a store can not be followed")
				}
				*p.v = cp(val(in.Val))
			case *ssa.MapUpdate:
				m, ok := val(in.Map).(*tMap)
				k, ok2 := e.key(val(in.Key))
				if !ok || !ok2 {
					return e.stop(in.Pos(), "a map can not be followed")
				}
				if _, have := m.kv[k]; !have {
					m.keys = append(m.keys, k)
				}
				m.kv[k] = val(in.Value)
			case *ssa.Go, *ssa.Send, *ssa.Select:
				return e.stop(in.Pos(), "the generator is concurrent")
			case ssa.Value:
				env[in] = e.instr(in, val)
			default:
				return e.stop(in.Pos(), "%T can not be followed", in)
			}
		}
		if next == nil {
			return e.stop(fn.Pos(), "%s does not return", fn)
		}
		b, prev = next, b
	}
}

func (e *tmplEval) near(b *ssa.BasicBlock, in ssa.Instruction) token.Pos {
	if in.Pos().IsValid() {
		return in.Pos()
	}
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if p := b.Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	return b.Parent().Pos()
}

func (e *tmplEval) key(v any) (string, bool) {
	switch v := v.(type) {
	case tIface:
		return e.key(v.v)
	case tStr:
		return "s:" + v.show(), true
	case int64:
		return fmt.Sprint("i:", v), true
	case bool:
		return fmt.Sprint("b:", v), true
	case *tObj:
		return fmt.Sprintf("o:%p", v), true
	}
	return "", false
}

func (e *tmplEval) args(c *ssa.CallCommon, val func(ssa.Value) any) []any {
	var a []any
	if c.IsInvoke() {
		a = append(a, val(c.Value))
	} else if _, ok := c.Value.(*ssa.Builtin); !ok && c.StaticCallee() == nil {
		a = append(a, val(c.Value))
	} else if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		a = append(a, val(mc))
	}
	for _, x := range c.Args {
		a = append(a, cp(val(x)))
	}
	return a
}

// call evaluates a call; the first argument of a dynamic call is the function.
func (e *tmplEval) call(in ssa.CallInstruction, a []any) any {
	c := in.Common()
	if c.IsInvoke() {
		v := a[0]
		if i, ok := v.(tIface); ok {
			if i.typ == nil {
				// an object of the library
			} else if fn := e.p.SSA.LookupMethod(i.typ, c.Method.Pkg(), c.Method.Name()); fn != nil {
				return e.static(in, fn, append([]any{i.v}, a[1:]...))
			}
			v = i.v
		}
		if o, ok := v.(*tObj); ok && o.m[c.Method.Name()] != nil {
			return o.m[c.Method.Name()](a[1:])
		}
		return e.stop(in.Pos(), "what %s returns is not known", c.Method.FullName())
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(in, b.Name(), a)
	}
	fn := c.StaticCallee()
	if _, isc := c.Value.(*ssa.MakeClosure); fn != nil && !isc {
		return e.static(in, fn, a)
	}
	cl, ok := a[0].(*tClosure)
	if !ok {
		return e.stop(in.Pos(), "the function called is not known")
	}
	if len(cl.fv) == 0 {
		return e.static(in, cl.fn, a[1:])
	}
	return e.run(cl.fn, a[1:], cl.fv)
}

func (e *tmplEval) static(in ssa.CallInstruction, fn *ssa.Function, a []any) any {
	if m := e.calls[fn.String()]; m != nil {
		return m(e, in, a)
	}
	if len(a) > 0 && fn.Signature.Recv() != nil {
		if o, ok := a[0].(*tObj); ok && o.m[fn.Name()] != nil {
			return o.m[fn.Name()](a[1:])
		}
	}
	if len(fn.Blocks) == 0 {
		return e.stop(in.Pos(), "what %s does is not known", fn)
	}
	return e.run(fn, a, nil)
}

func (e *tmplEval) builtin(in ssa.CallInstruction, name string, a []any) any {
	switch name {
	case "len":
		switch v := a[0].(type) {
		case tSlice:
			return int64(v.hi - v.lo)
		case tStr:
			if s, ok := v.literal(); ok {
				return int64(len(s))
			}
			n := 0
			for _, p := range v {
				if n += len(p.lit); p.sym != nil {
					n++
				}
			}
			return tLen{n}
		case *tMap:
			return int64(len(v.keys))
		case *tArr:
			return int64(len(v.e))
		}
	case "cap":
		if v, ok := a[0].(tSlice); ok {
			return int64(v.hi - v.lo)
		}
	case "append":
		x, ok1 := a[0].(tSlice)
		y, ok2 := a[1].(tSlice)
		if s, ok := a[1].(tStr); ok {
			// bytes of a text: kept as pieces
			y, ok2 = tSlice{}, true
			if len(s) > 0 {
				y = list(s)
			}
		}
		if ok1 && ok2 {
			var out []any
			out = append(append(out, x.elems()...), y.elems()...)
			return tSlice{&out, 0, len(out)}
		}
	case "copy":
	case "ssa:wrapnilchk":
		return a[0]
	}
	return e.stop(in.Pos(), "%s can not be followed", name)
}

func (s tSlice) elems() []any {
	if s.a == nil {
		return nil
	}
	return (*s.a)[s.lo:s.hi]
}

func (e *tmplEval) instr(in ssa.Value, val func(ssa.Value) any) any {
	pos := in.Pos()
	switch in := in.(type) {
	case *ssa.Alloc:
		z := e.zero(in.Type().(*types.Pointer).Elem())
		return tSlot{&z}
	case *ssa.Call:
		return e.call(in, e.args(in.Common(), val))
	case *ssa.BinOp:
		return e.binop(in, val(in.X), val(in.Y))
	case *ssa.UnOp:
		v := val(in.X)
		switch in.Op {
		case token.MUL:
			switch p := v.(type) {
			case tSlot:
				return cp(*p.v)
			case *tObj:
				return p
			}
			return e.stop(pos, "a load can not be followed")
		case token.NOT:
			if b, ok := v.(bool); ok {
				return !b
			}
		case token.SUB:
			if n, ok := v.(int64); ok {
				return -n
			}
		}
		return e.stop(pos, "%s can not be followed", in)
	case *ssa.ChangeInterface:
		return val(in.X)
	case *ssa.ChangeType:
		return val(in.X)
	case *ssa.Convert:
		v := val(in.X)
		switch v.(type) {
		case tStr, int64, tLen:
			_, toSlice := in.Type().Underlying().(*types.Slice)
			_, fromSlice := in.X.Type().Underlying().(*types.Slice)
			b, isb := in.Type().Underlying().(*types.Basic)
			bx, isx := in.X.Type().Underlying().(*types.Basic)
			switch {
			case toSlice:
				return list(v)
			case fromSlice:
				return v
			case isb && isx && b.Info()&types.IsString != 0 && bx.Info()&types.IsInteger != 0:
				n, _ := v.(int64)
				return lit(string(rune(n)))
			}
			return v
		case tSlice:
			var s tStr
			for _, x := range v.(tSlice).elems() {
				t, ok := x.(tStr)
				if !ok {
					n, ok := x.(int64)
					if !ok {
						return e.stop(pos, "%s can not be followed", in)
					}
					t = lit(string(byte(n)))
				}
				s = s.cat(t)
			}
			return s
		}
		return e.stop(pos, "%s can not be followed", in)
	case *ssa.MakeInterface:
		return tIface{in.X.Type(), cp(val(in.X))}
	case *ssa.TypeAssert:
		v := val(in.X)
		i, ok := v.(tIface)
		hit := false
		switch {
		case v == nil:
		case !ok:
			if _, isi := in.AssertedType.Underlying().(*types.Interface); !isi {
				return e.stop(pos, "the type of %s is not known", in.X.Name())
			}
			return e.stop(pos, "the type of %s is not known", in.X.Name())
		case types.IsInterface(in.AssertedType):
			hit = types.Implements(i.typ, in.AssertedType.Underlying().(*types.Interface))
			if hit {
				v = i
			}
		default:
			if hit = types.Identical(i.typ, in.AssertedType); hit {
				v = i.v
			}
		}
		if !hit {
			if !in.CommaOk {
				return e.stop(pos, "the generator panics")
			}
			v = e.zero(in.AssertedType)
		}
		if in.CommaOk {
			return tTuple{v, hit}
		}
		return v
	case *ssa.Extract:
		if t, ok := val(in.Tuple).(tTuple); ok {
			return t[in.Index]
		}
	case *ssa.FieldAddr:
		st := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		switch x := val(in.X).(type) {
		case *tObj:
			name := st.Field(in.Field).Name()
			s := x.f[name]
			if s == nil {
				return e.stop(pos, "the %s of a %s is not known", name, x.kind)
			}
			return tSlot{s}
		case tSlot:
			switch r := (*x.v).(type) {
			case *tRec:
				return tSlot{&r.f[in.Field]}
			case *tObj:
				if s := r.f[st.Field(in.Field).Name()]; s != nil {
					return tSlot{s}
				}
			}
		}
	case *ssa.Field:
		st := in.X.Type().Underlying().(*types.Struct)
		switch x := val(in.X).(type) {
		case *tRec:
			return x.f[in.Field]
		case *tObj:
			if s := x.f[st.Field(in.Field).Name()]; s != nil {
				return *s
			}
			return e.stop(pos, "the %s of a %s is not known", st.Field(in.Field).Name(), x.kind)
		}
	case *ssa.IndexAddr:
		n, ok := val(in.Index).(int64)
		if !ok {
			break
		}
		switch x := val(in.X).(type) {
		case tSlice:
			if int(n) < 0 || int(n) >= x.hi-x.lo {
				return e.stop(pos, "the generator panics")
			}
			return tSlot{&(*x.a)[x.lo+int(n)]}
		case tSlot:
			if a, ok := (*x.v).(*tArr); ok && int(n) < len(a.e) {
				return tSlot{&a.e[n]}
			}
		}
	case *ssa.Index:
		n, ok := val(in.Index).(int64)
		if a, isa := val(in.X).(*tArr); ok && isa && int(n) < len(a.e) {
			return a.e[n]
		}
	case *ssa.Lookup:
		if m, ok := val(in.X).(*tMap); ok {
			k, ok := e.key(val(in.Index))
			if !ok {
				break
			}
			v, have := m.kv[k]
			if !have {
				v = e.zero(in.X.Type().Underlying().(*types.Map).Elem())
			}
			if in.CommaOk {
				return tTuple{v, have}
			}
			return v
		}
	case *ssa.MakeMap:
		return &tMap{kv: map[string]any{}}
	case *ssa.MakeSlice:
		if n, ok := val(in.Len).(int64); ok && n < 1<<16 {
			out := make([]any, n)
			for i := range out {
				out[i] = e.zero(in.Type().Underlying().(*types.Slice).Elem())
			}
			return tSlice{&out, 0, len(out)}
		}
	case *ssa.MakeClosure:
		var fv []any
		for _, b := range in.Bindings {
			fv = append(fv, val(b))
		}
		return &tClosure{in.Fn.(*ssa.Function), fv}
	case *ssa.Slice:
		lo, hi := 0, -1
		if in.Low != nil {
			n, ok := val(in.Low).(int64)
			if !ok {
				return e.stop(pos, "%s can not be followed", in)
			}
			lo = int(n)
		}
		if in.High != nil {
			n, ok := val(in.High).(int64)
			if !ok {
				return e.stop(pos, "%s can not be followed", in)
			}
			hi = int(n)
		}
		switch x := val(in.X).(type) {
		case tSlot:
			if a, ok := (*x.v).(*tArr); ok {
				if hi < 0 {
					hi = len(a.e)
				}
				return tSlice{&a.e, lo, hi}
			}
		case tSlice:
			if hi < 0 {
				hi = x.hi - x.lo
			}
			if x.a == nil && lo == 0 && hi == 0 {
				return x
			}
			if x.a == nil || lo > hi || x.lo+hi > len(*x.a) {
				return e.stop(pos, "the generator panics")
			}
			return tSlice{x.a, x.lo + lo, x.lo + hi}
		case tStr:
			if s, ok := x.literal(); ok {
				if hi < 0 {
					hi = len(s)
				}
				if lo <= hi && hi <= len(s) {
					return lit(s[lo:hi])
				}
			}
			return e.stop(pos, "the text depends on what %s is", x.show())
		}
	}
	return e.stop(pos, "%s can not be followed", in)
}

func (e *tmplEval) binop(in *ssa.BinOp, x, y any) any {
	if i, ok := x.(tIface); ok {
		x = i.v
	}
	if i, ok := y.(tIface); ok {
		y = i.v
	}
	if in.Op == token.EQL || in.Op == token.NEQ {
		eq, ok := e.equal(x, y)
		if !ok {
			return e.stop(in.Pos(), "the text depends on what %s is", showVal(x, y))
		}
		return eq == (in.Op == token.EQL)
	}
	switch a := x.(type) {
	case tStr:
		if b, ok := y.(tStr); ok {
			if in.Op == token.ADD {
				return a.cat(b)
			}
			s, ok1 := a.literal()
			t, ok2 := b.literal()
			if ok1 && ok2 {
				switch in.Op {
				case token.LSS:
					return s < t
				case token.GTR:
					return s > t
				}
			}
			return e.stop(in.Pos(), "the text depends on what %s is", showVal(x, y))
		}
	case tLen:
		if b, ok := y.(int64); ok && (b <= 0 || int(b) <= a.min) {
			switch {
			case in.Op == token.GTR && int(b) < a.min, in.Op == token.GEQ:
				return true
			case in.Op == token.LEQ && int(b) < a.min, in.Op == token.LSS:
				return false
			}
		}
	case int64:
		if b, ok := y.(int64); ok {
			switch in.Op {
			case token.ADD:
				return a + b
			case token.SUB:
				return a - b
			case token.MUL:
				return a * b
			case token.AND:
				return a & b
			case token.OR:
				return a | b
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			case token.REM:
				if b != 0 {
					return a % b
				}
			case token.SHL:
				if b >= 0 && b < 63 {
					return a << uint(b)
				}
			}
		}
	case bool:
		if b, ok := y.(bool); ok {
			switch in.Op {
			case token.AND, token.LAND:
				return a && b
			case token.OR, token.LOR:
				return a || b
			}
		}
	}
	return e.stop(in.Pos(), "%s can not be followed", in)
}

func showVal(v ...any) string {
	for _, x := range v {
		if s, ok := x.(tStr); ok {
			if _, l := s.literal(); !l {
				return s.show()
			}
		}
	}
	return fmt.Sprintf("%v", v)
}

func (e *tmplEval) equal(x, y any) (eq, ok bool) {
	switch a := x.(type) {
	case nil:
		switch b := y.(type) {
		case nil:
			return true, true
		case tSlice:
			return b.a == nil, true
		}
		return false, true
	case tStr:
		b, isb := y.(tStr)
		if !isb {
			return false, y == nil
		}
		if a.show() == b.show() {
			return true, true
		}
		s, ok1 := a.literal()
		t, ok2 := b.literal()
		if ok1 && ok2 {
			return s == t, true
		}
		// no name is empty
		if ok1 && s == "" || ok2 && t == "" {
			return false, true
		}
		// different beginnings
		if len(a) > 0 && len(b) > 0 && a[0].sym == nil && b[0].sym == nil && !strings.HasPrefix(a[0].lit, b[0].lit) && !strings.HasPrefix(b[0].lit, a[0].lit) {
			return false, true
		}
		return false, false
	case int64:
		if b, isb := y.(int64); isb {
			return a == b, true
		}
		if b, isb := y.(tLen); isb && int(a) < b.min {
			return false, true
		}
	case tLen:
		if b, isb := y.(int64); isb && int(b) < a.min {
			return false, true
		}
	case bool:
		if b, isb := y.(bool); isb {
			return a == b, true
		}
	case tSlice:
		if y == nil {
			return a.a == nil, true
		}
		if b, isb := y.(tSlice); isb && (a.a == nil || b.a == nil) {
			return a.a == nil && b.a == nil, true
		}
	case *tObj:
		b, isb := y.(*tObj)
		return isb && a == b, true
	case tSlot:
		b, isb := y.(tSlot)
		return isb && a.v == b.v, true
	case *tClosure, *tMap:
		if y == nil {
			return false, true
		}
	}
	return false, false
}

// print is the text fmt makes of a value.
func (e *tmplEval) print(pos token.Pos, v any) tStr {
	if i, ok := v.(tIface); ok {
		if o := i.v; i.typ != nil {
			ms := types.NewMethodSet(i.typ)
			for _, n := range []string{"String", "Error", "GoString", "Format"} {
				if ms.Lookup(nil, n) == nil {
					continue
				}
				key := "(" + types.TypeString(i.typ, nil) + ")." + n
				if f := e.calls[key]; f != nil {
					s, _ := f(e, nil, []any{o}).(tStr)
					return s
				}
				e.stop(pos, "how a %s is printed is not known", i.typ)
			}
		}
		v = i.v
	}
	switch v := v.(type) {
	case tStr:
		return v
	case int64:
		return lit(strconv.FormatInt(v, 10))
	case bool:
		return lit(strconv.FormatBool(v))
	}
	e.stop(pos, "how %T is printed is not known", v)
	return nil
}

func quoteStr(s tStr) tStr {
	out := lit(`"`)
	for _, p := range s {
		if p.sym != nil {
			// the names of a schema need no escape
			out = append(out, p)
		} else {
			q := strconv.Quote(p.lit)
			out = out.cat(lit(q[1 : len(q)-1]))
		}
	}
	return out.cat(lit(`"`))
}

func (e *tmplEval) sprintf(pos token.Pos, format any, args []any) tStr {
	f, ok := format.(tStr)
	s, isl := f.literal()
	if !ok || !isl {
		e.stop(pos, "the format is not known")
	}
	var out tStr
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			out = out.cat(lit(s[i : i+1]))
			continue
		}
		if i++; i == len(s) {
			e.stop(pos, "the format is not known")
		}
		if s[i] == '%' {
			out = out.cat(lit("%"))
			continue
		}
		if n >= len(args) {
			e.stop(pos, "the format has more verbs than arguments")
		}
		switch s[i] {
		case 's', 'v', 'd', 't':
			out = out.cat(e.print(pos, args[n]))
		case 'q':
			out = out.cat(quoteStr(e.print(pos, args[n])))
		default:
			e.stop(pos, "the format %%%c is not known", s[i])
		}
		n++
	}
	if n != len(args) {
		e.stop(pos, "the format has fewer verbs than arguments")
	}
	return out
}

func sliceElems(v any) []any {
	s, _ := v.(tSlice)
	return s.elems()
}

// trimmed cuts at the ends, as far as no symbol is reached: names have nothing
// to cut off but for the characters of a name.
func trimmed(s tStr, left, right func(string) string) tStr {
	out := append(tStr(nil), s...)
	for left != nil && len(out) > 0 && out[0].sym == nil {
		t := left(out[0].lit)
		if t != "" {
			out[0].lit = t
			break
		}
		out = out[1:]
	}
	for right != nil && len(out) > 0 && out[len(out)-1].sym == nil {
		t := right(out[len(out)-1].lit)
		if t != "" {
			out[len(out)-1].lit = t
			break
		}
		out = out[:len(out)-1]
	}
	return out
}

type tCall = func(e *tmplEval, in ssa.CallInstruction, a []any) any

func callPos(in ssa.CallInstruction) token.Pos {
	if in == nil {
		return token.NoPos
	}
	return in.Pos()
}

// textCalls models the functions on texts.
func textCalls() map[string]tCall {
	m := map[string]tCall{}
	str := func(v any) tStr { s, _ := v.(tStr); return s }
	nameChars := func(cut string) bool {
		return strings.ContainsAny(cut, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.")
	}
	each := func(name string, f func(string) string) {
		m[name] = func(e *tmplEval, in ssa.CallInstruction, a []any) any { return str(a[0]).apply(name, f) }
	}
	each("strings.ToLower", strings.ToLower)
	each("strings.ToUpper", strings.ToUpper)
	repl := func(e *tmplEval, in ssa.CallInstruction, a []any) any {
		o, ok1 := str(a[1]).literal()
		n, ok2 := str(a[2]).literal()
		if len(a) > 3 {
			if c, ok := a[3].(int64); !ok || c >= 0 {
				ok1 = false
			}
		}
		if !ok1 || !ok2 || len(o) != 1 {
			return e.stop(callPos(in), "what is replaced is not known")
		}
		return str(a[0]).apply(fmt.Sprintf("%s for %s", n, o), func(s string) string { return strings.ReplaceAll(s, o, n) })
	}
	m["strings.ReplaceAll"] = repl
	m["strings.Replace"] = repl
	m["strconv.Quote"] = func(e *tmplEval, in ssa.CallInstruction, a []any) any { return quoteStr(str(a[0])) }
	m["strconv.Itoa"] = func(e *tmplEval, in ssa.CallInstruction, a []any) any { return e.print(callPos(in), a[0]) }
	m["fmt.Sprintf"] = func(e *tmplEval, in ssa.CallInstruction, a []any) any {
		return e.sprintf(callPos(in), a[0], sliceElems(a[1]))
	}
	concat := func(nl bool) tCall {
		return func(e *tmplEval, in ssa.CallInstruction, a []any) any {
			var s tStr
			for i, v := range sliceElems(a[0]) {
				if i > 0 && nl {
					s = s.cat(lit(" "))
				}
				if iv, ok := v.(tIface); ok && !nl {
					if _, ok := iv.v.(tStr); !ok {
						return e.stop(callPos(in), "how %s is printed is not known", iv.typ)
					}
				}
				s = s.cat(e.print(callPos(in), v))
			}
			if nl {
				s = s.cat(lit("\n"))
			}
			return s
		}
	}
	m["fmt.Sprint"] = concat(false)
	m["fmt.Sprintln"] = concat(true)
	m["strings.Join"] = func(e *tmplEval, in ssa.CallInstruction, a []any) any {
		var s tStr
		for i, v := range sliceElems(a[0]) {
			if i > 0 {
				s = s.cat(str(a[1]))
			}
			s = s.cat(str(v))
		}
		return s
	}
	m["strings.Repeat"] = func(e *tmplEval, in ssa.CallInstruction, a []any) any {
		n, ok := a[1].(int64)
		if !ok || n < 0 || n > 1000 {
			return e.stop(callPos(in), "what is repeated is not known")
		}
		var s tStr
		for ; n > 0; n-- {
			s = s.cat(str(a[0]))
		}
		return s
	}
	trim := func(name string, left, right bool, f func(s, cut string) string) {
		m[name] = func(e *tmplEval, in ssa.CallInstruction, a []any) any {
			cut := " \t\r\n\v\f"
			if len(a) > 1 {
				var ok bool
				if cut, ok = str(a[1]).literal(); !ok || nameChars(cut) {
					return e.stop(callPos(in), "what is cut off is not known")
				}
			}
			var l, r func(string) string
			g := func(s string) string { return f(s, cut) }
			if left {
				l = func(s string) string { return g(s + "x")[:len(g(s+"x"))-1] }
			}
			if right {
				r = func(s string) string { return g("x" + s)[1:] }
			}
			return trimmed(str(a[0]), l, r)
		}
	}
	trim("strings.TrimSpace", true, true, strings.Trim)
	trim("strings.Trim", true, true, strings.Trim)
	trim("strings.TrimLeft", true, false, strings.Trim)
	trim("strings.TrimRight", false, true, strings.Trim)
	once := func(name string, pre bool) {
		m[name] = func(e *tmplEval, in ssa.CallInstruction, a []any) any {
			cut, ok := str(a[1]).literal()
			s := append(tStr(nil), str(a[0])...)
			if !ok {
				return e.stop(callPos(in), "what is cut off is not known")
			}
			if len(s) == 0 || cut == "" {
				return s
			}
			if i := len(s) - 1; !pre {
				if s[i].sym == nil && (len(s[i].lit) >= len(cut) || len(s) == 1) {
					s[i].lit = strings.TrimSuffix(s[i].lit, cut)
					if s[i].lit == "" {
						s = s[:i]
					}
					return s
				}
				if !nameChars(cut[len(cut)-1:]) {
					return s
				}
			} else {
				if s[0].sym == nil && (len(s[0].lit) >= len(cut) || len(s) == 1) {
					s[0].lit = strings.TrimPrefix(s[0].lit, cut)
					if s[0].lit == "" {
						s = s[1:]
					}
					return s
				}
				if !nameChars(cut[:1]) {
					return s
				}
			}
			return e.stop(callPos(in), "the text depends on what %s is", s.show())
		}
	}
	once("strings.TrimSuffix", false)
	once("strings.TrimPrefix", true)
	m["strings.HasPrefix"] = func(e *tmplEval, in ssa.CallInstruction, a []any) any {
		s, pre := str(a[0]), str(a[1])
		p, ok := pre.literal()
		if ok && len(s) == 0 {
			return p == ""
		}
		if ok && s[0].sym == nil {
			if len(s[0].lit) >= len(p) || len(s) == 1 {
				return strings.HasPrefix(s[0].lit, p)
			}
			if !strings.HasPrefix(p, s[0].lit) {
				return false
			}
		}
		return e.stop(callPos(in), "the text depends on what %s is", s.show())
	}
	m["strings.HasSuffix"] = func(e *tmplEval, in ssa.CallInstruction, a []any) any {
		s, post := str(a[0]), str(a[1])
		p, ok := post.literal()
		if ok && len(s) == 0 {
			return p == ""
		}
		if n := len(s) - 1; ok && s[n].sym == nil {
			if len(s[n].lit) >= len(p) || n == 0 {
				return strings.HasSuffix(s[n].lit, p)
			}
			if !strings.HasSuffix(p, s[n].lit) {
				return false
			}
		}
		return e.stop(callPos(in), "the text depends on what %s is", s.show())
	}
	m["strings.Contains"] = func(e *tmplEval, in ssa.CallInstruction, a []any) any {
		s, ok := str(a[0]).literal()
		p, ok2 := str(a[1]).literal()
		if ok2 {
			for _, q := range str(a[0]) {
				if strings.Contains(q.lit, p) {
					return true
				}
			}
		}
		if ok && ok2 {
			return strings.Contains(s, p)
		}
		return e.stop(callPos(in), "the text depends on what %s is", str(a[0]).show())
	}
	for _, t := range []string{"*strings.Builder", "*bytes.Buffer"} {
		buf := func(f func(e *tmplEval, b *tBuf, in ssa.CallInstruction, a []any) any) tCall {
			return func(e *tmplEval, in ssa.CallInstruction, a []any) any {
				if p, ok := a[0].(tSlot); ok {
					if b, ok := (*p.v).(*tBuf); ok {
						return f(e, b, in, a)
					}
				}
				return e.stop(callPos(in), "a buffer can not be followed")
			}
		}
		m["("+t+").WriteString"] = buf(func(e *tmplEval, b *tBuf, in ssa.CallInstruction, a []any) any {
			b.s = b.s.cat(str(a[1]))
			return tTuple{int64(0), nil}
		})
		m["("+t+").WriteByte"] = buf(func(e *tmplEval, b *tBuf, in ssa.CallInstruction, a []any) any {
			n, _ := a[1].(int64)
			b.s = b.s.cat(lit(string(rune(n))))
			return nil
		})
		m["("+t+").WriteRune"] = buf(func(e *tmplEval, b *tBuf, in ssa.CallInstruction, a []any) any {
			n, _ := a[1].(int64)
			b.s = b.s.cat(lit(string(rune(n))))
			return tTuple{int64(0), nil}
		})
		m["("+t+").String"] = buf(func(e *tmplEval, b *tBuf, in ssa.CallInstruction, a []any) any { return b.s })
		m["("+t+").Len"] = buf(func(e *tmplEval, b *tBuf, in ssa.CallInstruction, a []any) any {
			return e.builtin(in, "len", []any{b.s})
		})
		m["("+t+").Reset"] = buf(func(e *tmplEval, b *tBuf, in ssa.CallInstruction, a []any) any { b.s = nil; return nil })
		m["("+t+").Grow"] = buf(func(e *tmplEval, b *tBuf, in ssa.CallInstruction, a []any) any { return nil })
	}
	return m
}
