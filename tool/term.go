package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed symbolic value. Terms are immutable: a term denotes one
// value for the whole of a path, memory maps addresses (terms) to values (terms).
type Term struct {
	Op   string
	Args []*Term
	Aux  string
	Typ  types.Type
	Fn   *ssa.Function // closure, func, method
	Ev   *Event        // res: the event which produced the value
	Obj  any           // snapshot payload of struct values
	Cell *ssa.Alloc    // alloc: the local variable
	id   int
	key  string
}

// TermTab interns terms.
type TermTab struct {
	tab  map[string]*Term
	n    int
	next int
}

func newTermTab() *TermTab { return &TermTab{tab: map[string]*Term{}} }

func (tt *TermTab) mk(op, aux string, typ types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(aux)
	for _, a := range args {
		if a == nil {
			sb.WriteString("|_")
			continue
		}
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	k := sb.String()
	if t, ok := tt.tab[k]; ok {
		return t
	}
	tt.n++
	t := &Term{Op: op, Aux: aux, Typ: typ, Args: args, id: tt.n, key: k}
	tt.tab[k] = t
	return t
}

func (tt *TermTab) fresh(op, hint string, typ types.Type) *Term {
	tt.next++
	return tt.mk(op, fmt.Sprintf("%s#%d", hint, tt.next), typ)
}

func (tt *TermTab) nilc(typ types.Type) *Term { return tt.mk("nil", "", nil) }
func (tt *TermTab) boolc(b bool) *Term {
	return tt.mk("const", fmt.Sprint(b), types.Typ[types.Bool])
}
func (tt *TermTab) intc(n int64) *Term {
	return tt.mk("const", fmt.Sprint(n), types.Typ[types.Int])
}
func (tt *TermTab) strc(s string) *Term {
	return tt.mk("const", fmt.Sprintf("%q", s), types.Typ[types.String])
}

func (tt *TermTab) constv(c *ssa.Const) *Term {
	if c.Value == nil {
		return tt.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return tt.boolc(constant.BoolVal(c.Value))
	case constant.String:
		return tt.strc(constant.StringVal(c.Value))
	case constant.Int:
		return tt.mk("const", c.Value.ExactString(), types.Typ[types.Int])
	default:
		if v := constant.ToInt(c.Value); v.Kind() == constant.Int {
			return tt.mk("const", v.ExactString(), types.Typ[types.Int])
		}
		return tt.mk("const", "f"+c.Value.ExactString(), c.Type())
	}
}

// zero returns the zero value of a type.
func (tt *TermTab) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tt.boolc(false)
		case u.Info()&types.IsString != 0:
			return tt.strc("")
		case u.Info()&types.IsNumeric != 0:
			return tt.intc(0)
		}
		return tt.nilc(t)
	case *types.Struct, *types.Array:
		return tt.mk("zerostruct", typeKey(t), t)
	case *types.Tuple:
		return tt.mk("zerotuple", "", t)
	}
	return tt.nilc(t)
}

func (t *Term) isConst() bool { return t != nil && (t.Op == "const" || t.Op == "nil") }
func (t *Term) isTrue() bool  { return t != nil && t.Op == "const" && t.Aux == "true" }
func (t *Term) isFalse() bool { return t != nil && t.Op == "const" && t.Aux == "false" }
func (t *Term) intVal() (int64, bool) {
	if t == nil || t.Op != "const" || t.Typ != types.Typ[types.Int] {
		return 0, false
	}
	var n int64
	if _, err := fmt.Sscanf(t.Aux, "%d", &n); err != nil {
		return 0, false
	}
	return n, true
}
func (t *Term) strVal() (string, bool) {
	if t == nil || t.Op != "const" || t.Typ != types.Typ[types.String] {
		return "", false
	}
	v := constant.StringVal(constant.MakeFromLiteral(t.Aux, token.STRING, 0))
	return v, true
}

// String renders a term for reports.
func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	if t == nil {
		return "_"
	}
	if d == 0 {
		return "…"
	}
	arg := func(i int) string {
		if i >= len(t.Args) {
			return "?"
		}
		return t.Args[i].str(d - 1)
	}
	switch t.Op {
	case "nil":
		return "nil"
	case "const":
		return t.Aux
	case "param":
		return strings.SplitN(t.Aux, "/", 2)[1]
	case "sym", "alloc":
		return t.Aux
	case "field":
		return arg(0) + "." + t.Aux[strings.LastIndexByte(t.Aux, '.')+1:]
	case "load":
		return "*" + arg(0) + strings.Repeat("'", strings.Count(t.Aux, "e"))
	case "res":
		return t.Aux
	case "not":
		return "!" + arg(0)
	case "eq":
		return "(" + arg(0) + " == " + arg(1) + ")"
	case "ge0":
		return "(" + linOf(t.Args[0]).String() + " >= 0)"
	case "len":
		return "len(" + arg(0) + ")"
	case "closure", "func":
		return FnName(t.Fn)
	}
	var parts []string
	for i := range t.Args {
		parts = append(parts, arg(i))
	}
	return t.Op + "[" + t.Aux + "](" + strings.Join(parts, ", ") + ")"
}

// lin is a linear integer form.
type lin struct {
	co map[*Term]int64
	k  int64
}

func (l lin) String() string {
	ts := make([]*Term, 0, len(l.co))
	for t := range l.co {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var p []string
	for _, t := range ts {
		p = append(p, fmt.Sprintf("%d*%s", l.co[t], t))
	}
	return strings.Join(append(p, fmt.Sprint(l.k)), " + ")
}

func linOf(t *Term) lin {
	l := lin{co: map[*Term]int64{}}
	l.add(t, 1)
	return l
}

func (l *lin) add(t *Term, f int64) {
	if n, ok := t.intVal(); ok {
		l.k += f * n
		return
	}
	switch t.Op {
	case "bin":
		switch t.Aux {
		case "+":
			l.add(t.Args[0], f)
			l.add(t.Args[1], f)
			return
		case "-":
			l.add(t.Args[0], f)
			l.add(t.Args[1], -f)
			return
		case "*":
			if n, ok := t.Args[0].intVal(); ok {
				l.add(t.Args[1], f*n)
				return
			}
			if n, ok := t.Args[1].intVal(); ok {
				l.add(t.Args[0], f*n)
				return
			}
		}
	case "iconv":
		l.add(t.Args[0], f)
		return
	case "neg":
		l.add(t.Args[0], -f)
		return
	case "lin":
		o := t.Obj.(lin)
		for x, c := range o.co {
			l.co[x] += f * c
			if l.co[x] == 0 {
				delete(l.co, x)
			}
		}
		l.k += f * o.k
		return
	}
	l.co[t] += f
	if l.co[t] == 0 {
		delete(l.co, t)
	}
}

func (l lin) plus(o lin, f int64) lin {
	r := lin{co: map[*Term]int64{}, k: l.k + f*o.k}
	for t, c := range l.co {
		r.co[t] = c
	}
	for t, c := range o.co {
		r.co[t] += f * c
		if r.co[t] == 0 {
			delete(r.co, t)
		}
	}
	return r
}

func (l lin) isZero() bool {
	for _, f := range l.co {
		if f != 0 {
			return false
		}
	}
	return l.k == 0
}

func (l lin) scale(f int64) lin {
	return lin{co: map[*Term]int64{}}.plus(l, f)
}

// mkLin interns a linear form as a term.
func (tt *TermTab) mkLin(l lin) *Term {
	if len(l.co) == 0 {
		return tt.intc(l.k)
	}
	if len(l.co) == 1 && l.k == 0 {
		for t, c := range l.co {
			if c == 1 {
				return t
			}
		}
	}
	ts := make([]*Term, 0, len(l.co))
	for t := range l.co {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	aux := fmt.Sprint(l.k)
	for _, t := range ts {
		aux += fmt.Sprintf(",%d", l.co[t])
	}
	r := tt.mk("lin", aux, types.Typ[types.Int], ts...)
	r.Obj = l
	return r
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// nonNil reports if the term can not be nil whatever the path.
func (t *Term) nonNil() bool {
	switch t.Op {
	case "alloc", "closure", "func", "iface", "make", "field", "index", "method", "cancel", "ctx", "newerr", "global", "slicelit":
		return true
	case "load":
		return t.Aux == "sentinel"
	case "convstr":
		return false
	}
	return false
}

// distinctConst reports if two terms are surely different.
func distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.Op == "const" && b.Op == "const" {
		return true
	}
	if a.Op == "nil" && b.nonNil() || b.Op == "nil" && a.nonNil() {
		return true
	}
	if a.Op == "load" && b.Op == "load" && a.Aux == "sentinel" && b.Aux == "sentinel" {
		return true
	}
	fresh := func(t *Term) bool {
		return t.Op == "alloc" || t.Op == "newerr" || t.Op == "make" || t.Op == "ctx"
	}
	old := func(t *Term) bool {
		return t.Op == "param" || t.Op == "global" || t.Op == "load" && t.Aux == "sentinel"
	}
	if fresh(a) && (fresh(b) || old(b)) || fresh(b) && old(a) {
		return true
	}
	if a.Op == "iface" && b.Op == "iface" {
		if a.Aux != b.Aux {
			return true
		}
		return distinct(a.Args[0], b.Args[0])
	}
	return false
}

// sub reports if x occurs in t.
func (t *Term) contains(x *Term) bool {
	if t == nil {
		return false
	}
	if t == x {
		return true
	}
	for _, a := range t.Args {
		if a.contains(x) {
			return true
		}
	}
	return false
}

// base strips field and index steps from an address.
func (t *Term) base() *Term {
	for t.Op == "field" || t.Op == "index" {
		t = t.Args[0]
	}
	return t
}
