package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callee resolves the function term and the argument terms of a call.
// For interface calls the receiver is the first argument.
func (x *Exec) callee(fr *Frame, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	var fn *Term
	if c.IsInvoke() {
		args = append(args, x.val(fr, c.Value))
	} else {
		fn = x.val(fr, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, x.val(fr, a))
	}
	return fn, args
}

type ck func(st *State, fr *Frame, res *Term)

// call runs a call instruction.
func (x *Exec) call(st *State, fr *Frame, c *ssa.CallCommon, v ssa.Value, pos token.Pos, next ck, k kont) {
	fn, args := x.callee(fr, c)
	x.invoke(st, fr, c, fn, args, v, pos, next, k)
}

func resultTuple(x *Exec, sig *types.Signature, res []*Term) *Term {
	switch sig.Results().Len() {
	case 0:
		return x.tt.mk("unit", "", nil)
	case 1:
		return res[0]
	}
	return x.tt.mk("tuple", "", sig.Results(), res...)
}

func (x *Exec) inlineDepth(fr *Frame, fn *ssa.Function) (depth, rec int) {
	for f := fr; f != nil; f = f.caller {
		depth++
		if f.fn == fn {
			rec++
		}
	}
	return
}

// invoke runs a call whose callee and arguments are terms.
func (x *Exec) invoke(st *State, fr *Frame, c *ssa.CallCommon, fn *Term, args []*Term, v ssa.Value, pos token.Pos, next ck, k kont) {
	sig := c.Signature()
	if c.IsInvoke() {
		recv := args[0]
		if r := st.rep(recv); r.Op == "iface" {
			recv = r
		}
		if recv.Op == "iface" && !types.IsInterface(recv.Typ) {
			if sel := x.p.SSA.MethodSets.MethodSet(recv.Typ).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
				if m := x.p.SSA.MethodValue(sel); m != nil {
					a2 := append([]*Term{recv.Args[0]}, args[1:]...)
					x.static(st, fr, m, a2, nil, sig, pos, next, k)
					return
				}
			}
		}
		name := recvIfaceName(c) + "." + c.Method.Name()
		if st.eval(x.mkEqNil(recv)) == 1 {
			st.emit(&Event{Kind: "nilcall", Name: name, Val: recv, Pos: pos}, fr)
		}
		x.opaqueCall(st, fr, name, nil, args, sig, pos, next, k)
		return
	}
	switch fn.Op {
	case "builtin":
		x.builtin(st, fr, c, fn.Aux, args, pos, next, k)
		return
	case "func":
		x.static(st, fr, fn.Fn, args, nil, sig, pos, next, k)
		return
	case "closure":
		x.static(st, fr, fn.Fn, args, fn.Args, sig, pos, next, k)
		return
	case "cancel":
		st.emit(&Event{Kind: "cancel", Addr: fn.Args[0], Pos: pos, Defer: fr.inDef}, fr)
		next(st, fr, x.tt.mk("unit", "", nil))
		return
	case "bfn":
		st.emit(&Event{Kind: fn.Aux, Addr: fn.Args[0], Pos: pos}, fr)
		if fn.Aux == "waitch" {
			l := 0
			for _, h := range st.locks {
				if h.Addr == fn.Args[0] {
					l = h.N
				}
			}
			ch := x.tt.mk("waitchan", itoa(l), sig.Results().At(0).Type(), fn.Args[0])
			next(st, fr, ch)
			return
		}
		next(st, fr, x.tt.mk("unit", "", nil))
		return
	}
	// a function value which is not known here
	if isCancelFunc(fn) {
		st.emit(&Event{Kind: "cancel", Addr: fn, Pos: pos, Defer: fr.inDef}, fr)
		next(st, fr, x.tt.mk("unit", "", nil))
		return
	}
	if st.eval(x.mkEqNil(fn)) == 1 {
		st.emit(&Event{Kind: "nilcall", Name: "function value", Val: fn, Pos: pos}, fr)
	}
	x.opaqueCall(st, fr, "call", fn, args, sig, pos, next, k)
}

func isCancelFunc(t *Term) bool {
	if t.Typ == nil {
		return false
	}
	n, ok := types.Unalias(t.Typ).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "context" && n.Obj().Name() == "CancelFunc"
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}

// recvIfaceName names the interface which declares the method called.
func recvIfaceName(c *ssa.CallCommon) string {
	t := types.Unalias(c.Value.Type())
	if tp, ok := t.(*types.TypeParam); ok {
		t = types.Unalias(tp.Constraint())
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return shortPkg(n.Obj().Pkg().Path()) + "." + n.Obj().Name()
	}
	return "interface"
}

// static runs a call of a known function.
func (x *Exec) static(st *State, fr *Frame, fn *ssa.Function, args, fvs []*Term, sig *types.Signature, pos token.Pos, next ck, k kont) {
	name := FnName(fn)
	// a bound method is the method: what it calls is decided there
	bound := len(fvs) == 1 && strings.HasPrefix(fn.Synthetic, "bound method wrapper") && len(fn.Blocks) != 0
	if !bound && x.intrinsic(st, fr, fn, name, args, pos, next, k) {
		return
	}
	inline := len(fn.Blocks) != 0 && (bound || !x.opaque[name])
	if x.pb {
		inline = inline && !vtMethods[fn.Name()]
	} else if inline && isGenerated(x.p, fn) && fn.Synthetic == "" {
		if i, ok := getterField(fn); ok && len(args) > 0 {
			// a nil receiver reads as the zero value
			if st.isNil(args[0]) {
				next(st, fr, x.tt.zero(sig.Results().At(0).Type()))
				return
			}
			a := x.fieldAddr(args[0], fn.Params[0].Type(), i)
			next(st, fr, x.load(st, a, sig.Results().At(0).Type()))
			return
		}
		if !strings.HasPrefix(fn.Name(), "Get") {
			inline = false
		}
	}
	if inline {
		depth, rec := x.inlineDepth(fr, fn)
		if depth > 24 || rec > 1 {
			x.note("recursion or depth limit at %s", name)
			inline = false
		}
	}
	if !inline {
		x.opaqueCall(st, fr, name, nil, args, fn.Signature, pos, next, k)
		return
	}
	st.emit(&Event{Kind: "enter", Name: name, Fn: fn, Args: args, Pos: pos, Defer: fr.inDef}, fr)
	frc := fr
	x.callFn(st, frc, fn, args, fvs, pos, func(s2 *State, res []*Term, end string) {
		if end != "" {
			k(s2, nil, end)
			return
		}
		f2 := frc.clone()
		s2.emit(&Event{Kind: "exit", Name: name, Fn: fn, Args: args, Res: res, Pos: pos}, f2)
		next(s2, f2, resultTuple(x, fn.Signature, res))
	})
}

// getterField recognises the generated accessor of one field.
func getterField(fn *ssa.Function) (int, bool) {
	if fn.Signature.Recv() == nil || len(fn.Params) != 1 || fn.Signature.Results().Len() != 1 || !strings.HasPrefix(fn.Name(), "Get") {
		return 0, false
	}
	idx, n := -1, 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.FieldAddr:
				if in.X != fn.Params[0] {
					return 0, false
				}
				idx = in.Field
				n++
			case *ssa.UnOp, *ssa.Return, *ssa.If, *ssa.BinOp, *ssa.Jump, *ssa.Phi, *ssa.DebugRef:
			default:
				return 0, false
			}
		}
	}
	return idx, n == 1
}

// pure external functions: the result depends on the arguments only.
var pureFns = map[string]bool{
	"strings.HasPrefix": true, "strings.HasSuffix": true, "strings.TrimPrefix": true, "strings.TrimSuffix": true,
	"strings.CutPrefix": true, "strings.Contains": true, "strings.Split": true, "strings.Index": true, "strings.TrimSpace": true,
	"error.Error": true, "context.Context.Done": true, "context.Context.Value": true, "time.Time.IsZero": true,
	"encoding/binary.littleEndian.Uint32": true, "encoding/binary.bigEndian.Uint32": true,
	"encoding/binary.littleEndian.Uint16": true, "encoding/binary.bigEndian.Uint16": true,
	"encoding/binary.littleEndian.Uint64": true, "encoding/binary.bigEndian.Uint64": true,
	"time.Time.Sub": true, "time.Duration.String": true, "time.Time.Before": true, "time.Time.After": true, "errors.Is": true, "bytes.Equal": true,
	"slices.Contains": true, "strings.EqualFold": true, "bytes.Compare": true,
}

// calls which do not change their arguments.
func readOnly(name string) bool {
	if pureFns[name] || strings.HasPrefix(name, "github.com/sirupsen/logrus.") || strings.HasPrefix(name, "fmt.") {
		return true
	}
	m := name[strings.LastIndexByte(name, '.')+1:]
	switch m {
	case "WritePacket", "MarshalVT", "SizeVT", "Send", "MsgSend", "Err", "Done", "Context", "GetServiceID", "GetMethodIDs", "Write",
		"MarshalToSizedBufferVT", "MarshalToVT", "Error", "CloneVT", "CloneOneofVT", "CloneMessageVT", "EqualVT", "EqualMessageVT", "HandleStream", "Close", "CloseSend", "PutUint32", "Accept", "IsClosed":
		return true
	}
	return false
}

var newErrs = map[string]bool{
	"errors.New": true, "fmt.Errorf": true, "github.com/pkg/errors.New": true, "github.com/pkg/errors.Errorf": true,
}
var wrapErrs = map[string]bool{
	"github.com/pkg/errors.Wrap": true, "github.com/pkg/errors.Wrapf": true, "github.com/pkg/errors.WithMessage": true,
	"github.com/pkg/errors.WithStack": true, "github.com/pkg/errors.WithMessagef": true,
}

// intrinsic models the functions of the standard library and of util/broadcast.
func (x *Exec) intrinsic(st *State, fr *Frame, fn *ssa.Function, name string, args []*Term, pos token.Pos, next ck, k kont) bool {
	tt := x.tt
	unit := tt.mk("unit", "", nil)
	switch name {
	case "github.com/aperturerobotics/util/broadcast.Broadcast.HoldLock",
		"github.com/aperturerobotics/util/broadcast.Broadcast.HoldLockMaybeAsync",
		"github.com/aperturerobotics/util/broadcast.Broadcast.TryHoldLock":
		if strings.HasSuffix(name, ".TryHoldLock") {
			s2, f2 := st.clone(), fr.clone()
			next(s2, f2, tt.boolc(false))
		}
		x.lock(st, fr, args[0], "w", pos)
		held := args[0]
		cbArgs := []*Term{}
		for _, kind := range []string{"broadcast", "waitch"} {
			cbArgs = append(cbArgs, tt.mk("bfn", kind, nil, args[0]))
		}
		cb := args[1]
		after := func(s2 *State, f2 *Frame, _ *Term) {
			x.unlock(s2, f2, held, "w", pos)
			next(s2, f2, tt.boolc(true))
		}
		kk := k
		if cb.Op == "closure" || cb.Op == "func" {
			x.static(st, fr, cb.Fn, cbArgs, cb.Args, cb.Fn.Signature, pos, after, kk)
		} else {
			x.opaqueCall(st, fr, "call", cb, cbArgs, fn.Signature, pos, after, kk)
		}
		return true
	case "sync.Mutex.Lock", "sync.RWMutex.Lock":
		x.lock(st, fr, args[0], "w", pos)
		next(st, fr, unit)
		return true
	case "sync.RWMutex.RLock":
		x.lock(st, fr, args[0], "r", pos)
		next(st, fr, unit)
		return true
	case "sync.Mutex.TryLock", "sync.RWMutex.TryLock", "sync.RWMutex.TryRLock":
		s2, f2 := st.clone(), fr.clone()
		next(s2, f2, tt.boolc(false))
		m := "w"
		if strings.HasSuffix(name, "TryRLock") {
			m = "r"
		}
		x.lock(st, fr, args[0], m, pos)
		next(st, fr, tt.boolc(true))
		return true
	case "sync.Mutex.Unlock", "sync.RWMutex.Unlock":
		x.unlock(st, fr, args[0], "w", pos)
		next(st, fr, unit)
		return true
	case "sync.RWMutex.RUnlock":
		x.unlock(st, fr, args[0], "r", pos)
		next(st, fr, unit)
		return true
	case "sync.Once.Do":
		done := tt.mk("oncedone", "", types.Typ[types.Bool], args[0])
		if st.eval(done) <= 0 {
			s2, f2 := st.clone(), fr.clone()
			s2.assume(done, true)
			s2.emit(&Event{Kind: "once", Addr: args[0], Pos: pos}, f2)
			cb := args[1]
			fin := func(s3 *State, f3 *Frame, _ *Term) { next(s3, f3, unit) }
			if cb.Op == "closure" || cb.Op == "func" {
				x.static(s2, f2, cb.Fn, nil, cb.Args, cb.Fn.Signature, pos, fin, k)
			} else {
				x.opaqueCall(s2, f2, "call", cb, nil, types.NewSignatureType(nil, nil, nil, nil, nil, false), pos, fin, k)
			}
		}
		st.emit(&Event{Kind: "oncedone", Addr: args[0], Pos: pos}, fr)
		next(st, fr, unit)
		return true
	case "context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.WithCancelCause":
		ctx := tt.fresh("ctx", strings.TrimPrefix(name, "context."), fn.Signature.Results().At(0).Type())
		ctx.Obj = args
		cancel := tt.mk("cancel", "", nil, ctx)
		if st.eval(x.mkEqNil(args[0])) == 1 {
			st.emit(&Event{Kind: "nilcall", Name: name, Val: args[0], Pos: pos}, fr)
		}
		st.emit(&Event{Kind: "wcancel", Name: name, Args: args, Res: []*Term{ctx, cancel}, Pos: pos}, fr)
		next(st, fr, tt.mk("tuple", "", fn.Signature.Results(), ctx, cancel))
		return true
	case "bytes.Buffer.Len":
		next(st, fr, x.buflen(st, args[0]))
		return true
	case "bytes.Buffer.Bytes":
		r := tt.mk("bufbytes", itoa(x.bufver(st, args[0])), fn.Signature.Results().At(0).Type(), args[0])
		st.emit(&Event{Kind: "call", Name: name, Fn: fn, Args: args, Res: []*Term{r}, Pos: pos}, fr)
		next(st, fr, r)
		return true
	case "errors.As":
		// the target is written
	}
	if newErrs[name] {
		ev := st.emit(&Event{Kind: "call", Name: name, Fn: fn, Args: args, Pos: pos}, fr)
		r := tt.fresh("newerr", name, errType)
		r.Obj = args
		ev.Res = []*Term{r}
		next(st, fr, r)
		return true
	}
	if wrapErrs[name] {
		if st.isNil(args[0]) {
			next(st, fr, tt.nilc(nil))
			return true
		}
		ev := st.emit(&Event{Kind: "call", Name: name, Fn: fn, Args: args, Pos: pos}, fr)
		var r *Term
		if st.provenNonNil(args[0]) {
			r = tt.fresh("newerr", name, errType)
		} else {
			r = tt.fresh("res", name, errType)
		}
		r.Obj = args
		ev.Res = []*Term{r}
		next(st, fr, r)
		return true
	}
	return false
}

func (x *Exec) lock(st *State, fr *Frame, a *Term, mode string, pos token.Pos) {
	st.emit(&Event{Kind: "lock", Name: mode, Addr: a, Pos: pos}, fr)
	x.tt.next++
	st.locks = append(append([]Lock(nil), st.locks...), Lock{a, mode, x.tt.next})
	// others may have changed the object since
	x.forget(st, a.base(), false)
}

func (x *Exec) unlock(st *State, fr *Frame, a *Term, mode string, pos token.Pos) {
	st.emit(&Event{Kind: "unlock", Name: mode, Addr: a, Pos: pos, Defer: fr.inDef}, fr)
	var out []Lock
	done := false
	for i := len(st.locks) - 1; i >= 0; i-- {
		if !done && st.locks[i].Addr == a && st.locks[i].Mode == mode {
			done = true
			continue
		}
		out = append([]Lock{st.locks[i]}, out...)
	}
	if !done {
		st.emit(&Event{Kind: "nilcall", Name: "unlocking a lock which is not held", Val: a, Pos: pos}, fr)
	}
	if !done {
		x.note("unlock without lock at %s", x.p.Pos(pos))
	}
	st.locks = out
	x.forget(st, a.base(), false)
}

// opaqueCall records a call whose body is not entered.
// bufver is the version of the contents of a bytes.Buffer.
func (x *Exec) bufver(st *State, b *Term) int {
	if v, ok := st.epoch[x.tt.mk("bufver", "", nil, b)]; ok {
		return v
	}
	if v, ok := st.epoch[b.base()]; ok && b.base().Op != "alloc" {
		return v
	}
	return 0
}

// buflen is the number of unread bytes of a bytes.Buffer.
func (x *Exec) buflen(st *State, b *Term) *Term {
	return x.tt.mk("buflen", itoa(x.bufver(st, b)), types.Typ[types.Int], b)
}

// ctxEnded says that a context was seen to have ended, which is for good.
func (x *Exec) ctxEnded(ctx *Term) *Term {
	return x.tt.mk("ctxended", "", types.Typ[types.Bool], ctx)
}

// received records what follows from something having been received.
func (x *Exec) received(st *State, ch *Term) {
	if ch.Op == "pure" && strings.HasPrefix(ch.Aux, "context.Context.Done/") {
		st.assume(x.ctxEnded(ch.Args[0]), true)
	}
}

func (x *Exec) opaqueCall(st *State, fr *Frame, name string, fn *Term, args []*Term, sig *types.Signature, pos token.Pos, next ck, k kont) {
	tt := x.tt
	if pureFns[name] {
		var res []*Term
		for i := 0; i < sig.Results().Len(); i++ {
			res = append(res, tt.mk("pure", name+"/"+itoa(i), sig.Results().At(i).Type(), args...))
		}
		next(st, fr, resultTuple(x, sig, res))
		return
	}
	if strings.HasSuffix(name, "Endian.AppendUint32") && len(args) == 3 && args[1].Op != "" {
		// the number behind the bytes
		next(st, fr, tt.mk("appends", "", sig.Results().At(0).Type(), args[1], tt.mk("fixed", name, sig.Results().At(0).Type(), args[2])))
		return
	}
	ev := &Event{Kind: "call", Name: name, Recv: fn, Args: args, Pos: pos, Defer: fr.inDef}
	for i := 0; i < sig.Results().Len(); i++ {
		t := tt.fresh("res", name+"."+itoa(i), sig.Results().At(i).Type())
		t.Ev = ev
		ev.Res = append(ev.Res, t)
	}
	st.emit(ev, fr)
	if (name == "context.Context.Err" || name == "context.Cause") && len(args) == 1 {
		ended := st.eval(x.ctxEnded(args[0])) == 1
		// a context which was seen to have ended has
		for n := st.evs.prev; n != nil && !ended; n = n.prev {
			if e := n.ev; e.Kind == "call" && (e.Name == "context.Context.Err" || e.Name == "context.Cause") && len(e.Args) == 1 && e.Args[0] == args[0] {
				ended = st.eval(x.mkEqNil(e.Res[0])) == -1
			}
		}
		if ended {
			st.assume(x.mkEqNil(ev.Res[0]), false)
		}
	}
	if !readOnly(name) {
		for _, a := range args {
			x.clobber(st, a)
		}
	}
	if strings.HasPrefix(name, "bytes.Buffer.") && len(args) > 0 {
		m := strings.TrimPrefix(name, "bytes.Buffer.")
		if m != "Bytes" && m != "Cap" && m != "String" && m != "Available" {
			some := false
			if m == "Next" {
				n := st.lowerDepth(linOf(x.buflen(st, args[0])), 3)
				some = n != nil && *n > 0
			}
			var left *Term
			if m == "Next" && len(args) == 2 {
				if rest := linOf(x.buflen(st, args[0])).plus(linOf(args[1]), -1); st.eval(x.ge0(rest)) == 1 {
					left = tt.mkLin(rest)
				}
			}
			st.bump(tt.mk("bufver", "", nil, args[0]))
			if left != nil {
				st.assume(x.eq(x.buflen(st, args[0]), left, types.Typ[types.Int]), true)
			}
			if m == "Next" && len(ev.Res) == 1 && len(args) == 2 {
				ev.Res[0].Obj = args[1]
				if some { // a part of the buffer
					st.assume(x.mkEqNil(ev.Res[0]), false)
				}
			}
		}
	}
	next(st, fr, resultTuple(x, sig, ev.Res))
}

// clobber forgets what an unknown callee may have written through an argument.
func (x *Exec) clobber(st *State, t *Term) {
	if t == nil {
		return
	}
	switch t.Op {
	case "closure", "method":
		for _, a := range t.Args {
			if a.Op == "alloc" { // a captured variable
				if _, isCell := st.mem[a]; isCell {
					x.escape(st, st.mem[a])
					if closureWrites(t.Fn, a, t) {
						x.forget(st, a, true)
					}
					continue
				}
			}
			x.escape(st, a)
		}
		return
	case "iface", "struct", "tuple", "append":
		for _, a := range t.Args {
			x.clobber(st, a)
		}
		return
	case "slice", "appends":
		x.clobber(st, t.Args[0])
		return
	case "nil", "const", "func", "global", "cancel", "ctx":
		return
	}
	if t.Typ == nil {
		return
	}
	switch t.Typ.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
		_, isPtr := t.Typ.Underlying().(*types.Pointer)
		if !isPtr {
			if _, ok := t.Typ.Underlying().(*types.Interface); ok {
				return
			}
		}
		x.forget(st, t, false)
		if isPtr {
			// a local variable or an external object passed by address
			if _, ok := st.mem[t]; ok {
				st.setMem(t, x.tt.fresh("sym", "out", elemType(t)))
				st.record(t)
			}
		}
	}
}

// closureWrites reports if the closure body stores to the captured cell.
func closureWrites(fn *ssa.Function, cell *Term, clo *Term) bool {
	if fn == nil {
		return true
	}
	for i, a := range clo.Args {
		if a != cell || i >= len(fn.FreeVars) {
			continue
		}
		fv := fn.FreeVars[i]
		if refs := fv.Referrers(); refs != nil {
			for _, r := range *refs {
				if s, ok := r.(*ssa.Store); ok && s.Addr == fv {
					return true
				}
				if _, ok := r.(*ssa.MakeClosure); ok {
					return true
				}
			}
		}
	}
	return false
}

// builtin models the builtin functions.
func (x *Exec) builtin(st *State, fr *Frame, c *ssa.CallCommon, name string, args []*Term, pos token.Pos, next ck, k kont) {
	tt := x.tt
	unit := tt.mk("unit", "", nil)
	switch name {
	case "len":
		if _, ok := args[0].typ().(*types.Map); ok {
			tag := "0"
			if e, has := st.epoch[args[0].base()]; has {
				tag = "e" + itoa(e)
			}
			st.emit(&Event{Kind: "maplen", Addr: args[0], Pos: pos}, fr)
			next(st, fr, tt.mk("len", tag, types.Typ[types.Int], args[0]))
			return
		}
		next(st, fr, x.length(args[0]))
	case "cap":
		t := args[0]
		if t.Op == "make" {
			if n, ok := t.Obj.(*Term); ok {
				next(st, fr, n)
				return
			}
		}
		if t.Op == "nil" {
			next(st, fr, tt.intc(0))
			return
		}
		next(st, fr, tt.mk("cap", "", types.Typ[types.Int], t))
	case "append":
		if len(args) == 1 {
			next(st, fr, args[0])
			return
		}
		typ := c.Args[0].Type()
		s, e := args[0], args[1]
		if e.Op == "nil" {
			next(st, fr, s)
			return
		}
		if e.Op == "slice" && e.Args[0].Op == "alloc" && e.Args[1] == nil && e.Args[2] == nil {
			if p, ok := e.Args[0].typ().(*types.Pointer); ok {
				if arr, ok := p.Elem().Underlying().(*types.Array); ok && arr.Len() <= 16 {
					out := []*Term{s}
					if s.Op == "append" {
						out = append([]*Term(nil), s.Args...)
					}
					for i := int64(0); i < arr.Len(); i++ {
						out = append(out, x.load(st, tt.mk("index", "", types.NewPointer(arr.Elem()), e.Args[0], tt.intc(i)), arr.Elem()))
					}
					next(st, fr, tt.mk("append", "", typ, out...))
					return
				}
			}
		}
		next(st, fr, tt.mk("appends", "", typ, s, e))
	case "copy":
		n := tt.fresh("res", "copy", types.Typ[types.Int])
		ev := st.emit(&Event{Kind: "call", Name: "copy", Args: args, Res: []*Term{n}, Pos: pos}, fr)
		n.Ev = ev
		// 0 <= n <= len(dst), n <= len(src)
		st.assume(x.ge0(linOf(n)), true)
		st.assume(x.ge0(linOf(x.length(args[0])).plus(linOf(n), -1)), true)
		st.assume(x.ge0(linOf(x.length(args[1])).plus(linOf(n), -1)), true)
		x.clobber(st, args[0])
		next(st, fr, n)
	case "close":
		st.emit(&Event{Kind: "close", Addr: args[0], Pos: pos, Defer: fr.inDef}, fr)
		next(st, fr, unit)
	case "delete":
		st.emit(&Event{Kind: "mapdelete", Addr: args[0], Args: args[1:], Pos: pos}, fr)
		st.bump(args[0])
		x.mapDrop(st, args[0])
		next(st, fr, unit)
	case "clear":
		st.emit(&Event{Kind: "mapclear", Addr: args[0], Pos: pos}, fr)
		st.bump(args[0])
		x.mapDrop(st, args[0])
		next(st, fr, unit)
	case "min", "max":
		var t types.Type = types.Typ[types.Int]
		r := tt.mk(name, "", t, args...)
		for _, a := range args {
			if isIntType(c.Args[0].Type()) {
				d := linOf(a).plus(linOf(r), -1)
				if name == "max" {
					d = d.scale(-1)
				}
				st.assume(x.ge0(d), true)
			}
		}
		next(st, fr, r)
	case "panic":
		st.emit(&Event{Kind: "panic", Pos: pos}, fr)
		k(st, nil, "panic")
	case "ssa:wrapnilchk":
		next(st, fr, args[0])
	case "recover":
		next(st, fr, tt.nilc(nil))
	default:
		st.emit(&Event{Kind: "call", Name: name, Args: args, Pos: pos}, fr)
		if c.Signature().Results().Len() > 0 {
			next(st, fr, tt.fresh("res", name, c.Signature().Results().At(0).Type()))
		} else {
			next(st, fr, unit)
		}
	}
}
