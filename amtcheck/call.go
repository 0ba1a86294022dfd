package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (r *Run) callee(s *State, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	if c.IsInvoke() {
		args = append(args, r.operand(s, c.Value))
		for _, a := range c.Args {
			args = append(args, r.operand(s, a))
		}
		if T := boxed(c.Value); T != nil && !types.IsInterface(T) && !hasTypeParam(T) {
			if fn := r.a.prog.LookupMethod(T, r.a.pkg.Types, c.Method.Name()); fn != nil {
				return VFunc{fn: fn}, args
			}
		}
		return term("invoke:" + c.Method.Name()), args
	}
	for _, a := range c.Args {
		args = append(args, r.operand(s, a))
	}
	return r.operand(s, c.Value), args
}

func topResult(t types.Type, why string) Value {
	if tt, ok := t.(*types.Tuple); ok {
		v := VTuple{}
		for i := 0; i < tt.Len(); i++ {
			v.e = append(v.e, VTop{why})
		}
		return v
	}
	return VTop{why}
}

func (r *Run) call(s *State, in *ssa.Call) []*State {
	fnv, args := r.callee(s, &in.Call)
	for i, a := range args {
		args[i] = r.simp(s, a)
	}
	pos := r.posOf(in)
	switch fv := fnv.(type) {
	case VNil:
		panic(goPanic{"call of a nil function"})
	case VFunc:
		return r.callFn(s, in, fv, args, pos)
	case VTerm:
		switch {
		case strings.HasPrefix(fv.op, "builtin:"):
			return r.set(s, in, r.builtin(s, fv.op[8:], in, args, pos))
		case fv.op == "callback":
			c := r.callbackPanics(s)
			out := r.set(s, in, r.callback(s, in, args, pos))
			if c != nil {
				out = append(out, r.unwind(c, pos)...)
			}
			return out
		case strings.HasPrefix(fv.op, "invoke:"):
			return r.set(s, in, r.invoke(s, fv.op[7:], in, args, pos))
		}
	}
	s.note("call of %s at %s", str(fnv), r.a.pos(pos))
	r.undecided(pos, "call of an unknown function")
	return r.set(s, in, topResult(in.Type(), "result of an unknown function"))
}

// callbackPanics is the state in which the user's callback of Mod panics, if
// there is anything to follow: without deferred calls all stays as it is.
func (r *Run) callbackPanics(s *State) *State {
	if r.scan || r.method != "Mod" || s.cbPanic {
		return nil
	}
	for _, f := range s.frames {
		if len(f.defers) > 0 || len(s.locks) > 0 {
			c := s.clone()
			c.cbPanic, c.panicking = true, true
			return c
		}
	}
	return nil
}

// unwind goes on with a panic: the next deferred call, or the end.
func (r *Run) unwind(s *State, pos token.Pos) []*State {
	for len(s.frames) > 0 {
		f := s.top()
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			fv, ok := d.fn.(VFunc)
			if ok && r.lockCall(s, fnName(fv.fn), d.args) {
				continue
			}
			if !ok || !r.a.inPkg(fv.fn) {
				s.note("deferred call of %s", str(d.fn))
				continue
			}
			r.push(s, fv, d.args, nil)
			s.top().discard, s.top().unwind = true, true
			return []*State{s}
		}
		if !s.panicking { // recovered: the function returns
			if b := f.fi.fn.Recover; b != nil {
				f.prev, f.blk, f.pc = f.blk, b, 0
				s.enter, s.phis = true, true
				return []*State{s}
			}
			var res []Value
			rt := f.fi.fn.Signature.Results()
			for i := 0; i < rt.Len(); i++ {
				res = append(res, r.zero(rt.At(i).Type(), f.tsub))
			}
			return r.ret(s, res, pos)
		}
		s.frames = s.frames[:len(s.frames)-1]
	}
	r.final(&Final{s: s, pos: pos})
	return nil
}

func (r *Run) invoke(s *State, name string, in *ssa.Call, args []Value, pos token.Pos) Value {
	switch name {
	case "Hash":
		if len(args) == 3 {
			it, ok := r.vecOf(s, args[2])
			if !ok {
				return term("hash", args...)
			}
			return VHash{term("Key.Hash", args[0], args[1]), it, C(0), C(64)}
		}
	case "Equal":
		if len(args) == 2 {
			return r.equal(s, args[0], args[1], nil)
		}
	case "KeyBytes":
		return term("KeyBytes", args[0])
	}
	r.undecided(pos, "call of method "+name)
	return topResult(in.Type(), "result of method "+name)
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func (r *Run) callFn(s *State, in *ssa.Call, fv VFunc, args []Value, pos token.Pos) []*State {
	fn := fv.fn
	var targs []string
	if o := fn.Origin(); o != nil {
		for _, t := range fn.TypeArgs() {
			targs = append(targs, typeKey(t, s.top().tsub))
		}
		fn = o
	}
	if r.a.inPkg(fn) {
		if len(fn.Blocks) == 0 {
			r.undecided(pos, "call of "+fn.Name()+", which has no body")
			return r.set(s, in, topResult(in.Type(), "external"))
		}
		if r.scan && r.a.mayCallback(fn) && (r.onStack(s, fn) || hasLoop(fn)) {
			if i, ok := r.subItem(s, args); ok {
				return r.visitSub(s, in, VFunc{fn, fv.bind, fv.sub}, args, targs, i, pos)
			}
		}
		if len(s.frames) > int(r.lmax)+20 {
			r.undecided(pos, "recursion too deep")
			panic(abort{why: "recursion"})
		}
		r.push(s, VFunc{fn, fv.bind, fv.sub}, args, targs)
		return []*State{s}
	}
	return r.external(s, in, fn, args, pos)
}

func (r *Run) onStack(s *State, fn *ssa.Function) bool {
	for _, f := range s.frames {
		if f.fi.fn == fn {
			return true
		}
	}
	return false
}

func hasLoop(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, t := range b.Succs {
			if t.Dominates(b) {
				return true
			}
		}
	}
	return false
}

// mayCallback: fn, or a function it calls, calls a function value.
func (a *Analysis) mayCallback(fn *ssa.Function) bool {
	a.cbMu.Lock()
	defer a.cbMu.Unlock()
	if v, ok := a.cbMemo[fn]; ok {
		return v
	}
	if a.cbMemo == nil {
		a.cbMemo = map[*ssa.Function]bool{}
	}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if o := f.Origin(); o != nil {
			f = o
		}
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					switch c.Common().Value.(type) {
					case *ssa.Function, *ssa.Builtin, *ssa.MakeClosure:
					default:
						return true
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && (a.inPkg(g) || g.Parent() != nil) && walk(g) {
						return true
					}
				}
			}
		}
		return false
	}
	v := walk(fn)
	a.cbMemo[fn] = v
	return v
}

// subItem recognises an argument that refers to an item of the level being iterated.
func (r *Run) subItem(s *State, args []Value) (Vec, bool) {
	for _, a := range args {
		if v, ok := r.itemOf(s, a); ok {
			return v, true
		}
	}
	return Vec{}, false
}

func (r *Run) itemOf(s *State, a Value) (Vec, bool) {
	switch v := a.(type) {
	case VPtr:
		if v.ref.k == RNode && len(v.path) == 1 && v.path[0].f < 0 {
			_, _, iv := r.slot(s, v.ref.L, v.path[0].idx, r.lastPos, false)
			return iv, true
		}
		if v.ref.k == RFresh && len(v.path) == 0 && v.ref.id < len(s.objs) { // a copy of the item
			if t, ok := s.objs[v.ref.id].val.(VTerm); ok {
				return r.itemOf(s, t)
			}
		}
	case VTerm:
		if v.op == "elem" {
			i, _ := v.args[1].(VInt).l.vec()
			return i, true
		}
		if strings.HasPrefix(v.op, "sub:") && len(v.args) == 1 {
			i, _ := v.args[0].(VInt).l.vec()
			return i, true
		}
	}
	return Vec{}, false
}

// subCall is a function that iterates over the level below an item: calls of it
// are taken at its contract, which is then checked by a run of its own.
type subCall struct {
	fn    *ssa.Function
	st    *State // entry state, joined over all calls
	dirty bool
	runs  int
	depth int // number of calls that lead there, at least
}

// header is the header of the level being iterated.
func (r *Run) header(s *State) VStruct {
	return r.linkVal(nodePtr(C(0)), vvec(s.sp), VBM{'T', C(0), -1, 0}).(VStruct)
}

// noteSub records a call whose item argument is i, seen from the callee.
func (r *Run) noteSub(s *State, fv VFunc, args []Value, targs []string, i Vec) {
	c := s.clone()
	r.push(c, fv, args, targs)
	c.frames = c.frames[len(c.frames)-1:]
	c.facts, c.digs, c.conds, c.heap, c.cbs = nil, nil, nil, nil, nil
	c.choice, c.cpos, c.kstream = nil, 0, nil
	c.stopped, c.shared = false, false
	c.spine = C(0)
	var full State
	scanLanes(&full)
	head := r.header(&full)
	bad := false
	m := &mapper{vec: func(v Vec) Vec {
		if x, ok := v.uni(); ok {
			return C(x)
		}
		bad = true
		return C(0)
	}}
	gen := func(v Value) Value {
		bad = false
		if v = m.val(v); bad {
			return VTop{"differs between calls"}
		}
		return v
	}
	var lift func(v Value) Value
	lift = func(v Value) Value {
		switch x := v.(type) {
		case VPtr:
			if x.ref.k == RNode && len(x.path) == 1 && x.path[0].f < 0 {
				if iv, ok := r.itemOf(s, x); ok && vsame(iv, i) {
					return VPtr{ref: Ref{k: RCell, L: C(0)}}
				}
			}
			if x.ref.k != RFresh && x.ref.k != RRoot && x.ref.k != RGlobal {
				return VTop{"another level"}
			}
		case VSlice:
			if x.base.ref.k != RFresh {
				return VTop{"another level"}
			}
		case VUPtr:
			return VTop{"another level"}
		case VTerm:
			if iv, ok := r.itemOf(s, x); ok {
				switch {
				case !vsame(iv, i):
					return VTop{"another item"}
				case x.op == "elem":
					return head
				}
				for f := range head.f {
					if x.op == fmt.Sprintf("sub:%d", f) {
						return head.f[f]
					}
				}
				return VTop{"part of an item"}
			}
		case VStruct:
			o := VStruct{}
			for _, f := range x.f {
				o.f = append(o.f, lift(f))
			}
			return o
		case VArr:
			o := VArr{}
			for _, f := range x.e {
				o.e = append(o.e, lift(f))
			}
			return o
		case VFunc:
			o := VFunc{fn: x.fn, sub: x.sub}
			for _, f := range x.bind {
				o.bind = append(o.bind, lift(f))
			}
			return o
		}
		return gen(v)
	}
	f := c.frames[0]
	for j, v := range f.env {
		if v != nil {
			f.env[j] = lift(v)
		}
	}
	for j, o := range c.objs {
		if o != nil {
			n := *o
			n.val = lift(o.val)
			c.objs[j] = &n
		}
	}
	scanLanes(c)
	c.itLo, c.itHi = C(0), C(1<<40)
	c.canon(r)
	same := func(x, y Value) bool {
		if (x == nil) != (y == nil) {
			return false
		}
		if x == nil {
			return true
		}
		if a, ok := x.(VFunc); ok {
			if b, ok := y.(VFunc); ok {
				return a.fn == b.fn && len(a.bind) == len(b.bind)
			}
		}
		return valEq(x, y)
	}
	// calls with other constants (a depth, say) are contexts of their own, as
	// deep as the trees considered
	list := r.subs[fv.fn]
	depth := r.ctxDepth + 1
	for _, sc := range list {
		if equal, _ := sameEntry(sc.st, c, same); equal {
			return
		}
	}
	fits := len(list) == 0
	if n := len(list); n > 0 && n < maxContexts {
		_, fits = sameEntry(list[0].st, c, same)
	}
	if fits {
		if depth <= int(r.a.lmax) {
			r.subs[fv.fn] = append(list, &subCall{fn: fv.fn, st: c, dirty: true, depth: depth})
		}
		return
	}
	sc := list[0]
	old := sc.st.frames[0]
	widen := func(p *Value) {
		if _, top := (*p).(VTop); !top {
			*p = VTop{"differs between calls"}
			sc.dirty = true
		}
	}
	if len(sc.st.objs) != len(c.objs) {
		for j := range old.env {
			if old.env[j] != nil && refersFresh(old.env[j]) {
				widen(&old.env[j])
			}
		}
	} else {
		for j, o := range sc.st.objs {
			if !same(o.val, c.objs[j].val) {
				n := *o
				widen(&n.val)
				sc.st.objs[j] = &n
			}
		}
	}
	for j := range old.env {
		if !same(old.env[j], f.env[j]) {
			widen(&old.env[j])
		}
	}
}

const maxContexts = 250

// sameEntry: the two entry states are equal; or they differ in constants only.
func sameEntry(a, b *State, same func(x, y Value) bool) (equal, constants bool) {
	if len(a.objs) != len(b.objs) {
		return false, false
	}
	equal, constants = true, true
	cmp := func(x, y Value) {
		if same(x, y) {
			return
		}
		equal = false
		if x == nil || y == nil {
			constants = false
			return
		}
		_, okx := constOf(x)
		_, oky := constOf(y)
		if !okx || !oky {
			constants = false
		}
	}
	for j := range a.objs {
		cmp(a.objs[j].val, b.objs[j].val)
	}
	for j := range a.frames[0].env {
		cmp(a.frames[0].env[j], b.frames[0].env[j])
	}
	return
}

func refersFresh(v Value) bool {
	found := false
	(&mapper{obj: func(id int) int { found = true; return id }}).val(v)
	return found
}

func (r *Run) visit(s *State, i Vec, pos token.Pos, what string) {
	r.did("visit-after-stop")
	r.did("visit-twice")
	if s.stopped {
		r.fail(s, pos, "visit-after-stop", "%s visited after the callback asked to stop", what)
		panic(endPath{})
	}
	bit := vmap1(i, func(x int64) int64 { return 1 << uint(x) })
	dup := vmap2(s.visited, bit, func(v, b int64) int64 { return v & b })
	if t, _ := vcmp(s.N, dup, C(0), eqI); t != 1 {
		r.fail(s, pos, "visit-twice", "%s may be visited twice", what)
	}
	s.visited = vmap2(s.visited, bit, func(v, b int64) int64 { return v | b })
}

func (r *Run) visitSub(s *State, in *ssa.Call, fv VFunc, args []Value, targs []string, i Vec, pos token.Pos) []*State {
	fn := fv.fn
	if r.ordLeaf(s, C(0), i) {
		// a leaf handed to a helper is followed
		for _, f := range s.frames {
			if f.fi.fn == fn && f.leaf {
				r.fail(s, pos, "leaf-as-branch", "a leaf item is traversed as a branch")
				panic(goPanic{"leaf traversed as a branch"})
			}
		}
		r.push(s, fv, args, targs)
		s.top().leaf = true
		return []*State{s}
	}
	k := 0
	tb, isBool := in.Type().Underlying().(*types.Basic)
	isBool = isBool && tb.Info()&types.IsBoolean != 0
	if isBool {
		k = r.choose(s, 2)
	}
	if k == 0 {
		r.noteSub(s, fv, args, targs, i)
	}
	r.events["sub-visits"]++
	r.visit(s, i, pos, "branch")
	if !isBool {
		if tt, ok := in.Type().(*types.Tuple); !ok || tt.Len() != 0 {
			r.undecided(pos, "result of the recursive iteration is not a bool")
		} else {
			r.fail(s, pos, "stop-lost", "a stop requested within a branch is not reported by %s", fn.Name())
		}
		return r.set(s, in, VTuple{})
	}
	if k == 1 {
		s.stopped = true
		return r.set(s, in, VBool{!r.pol})
	}
	return r.set(s, in, VBool{r.pol})
}

func (r *Run) callback(s *State, in *ssa.Call, args []Value, pos token.Pos) Value {
	if !r.scan {
		if r.method != "Mod" || len(args) != 2 {
			r.undecided(pos, "callback")
			return topResult(in.Type(), "callback")
		}
		p, ok := args[0].(VPtr)
		rec := &CBRec{args: args, shared: s.shared, pos: pos}
		if s.shared {
			rec.pending = r.a.pos(s.sharedPos)
		}
		s.cbs = append(s.cbs, rec)
		if ok {
			pt := in.Call.Args[0].Type().Underlying().(*types.Pointer).Elem()
			rec.old = r.load(s, p, pt, pos)
			was, wp := s.shared, s.sharedPos
			r.store(s, p, term("cbval"), pt, pos)
			if !was && p.ref.k == RKV {
				// the value itself is the callback's to write
				s.shared, s.sharedPos = was, wp
			}
		}
		return VTuple{}
	}
	// iteration
	k := r.choose(s, 2)
	i, ok := r.visitArgs(s, args, pos)
	r.events["visits"]++
	if !ok {
		panic(endPath{})
	}
	r.visit(s, i, pos, "entry")
	if k == 1 {
		s.stopped = true
	}
	return VBool{k == 0}
}

// visitArgs checks that the callback receives an entry's own key and value.
func (r *Run) visitArgs(s *State, args []Value, pos token.Pos) (Vec, bool) {
	r.did("visit-args")
	bad := func(f string, a ...any) (Vec, bool) {
		r.fail(s, pos, "visit-args", f, a...)
		return Vec{}, false
	}
	want := 2
	if r.c.isSet {
		want = 1
	}
	if len(args) != want {
		return bad("callback takes %d arguments", len(args))
	}
	var key VTerm
	switch k := args[0].(type) {
	case VTerm:
		key, _ = strip(k).(VTerm)
	case VBV:
		if len(k.s) == 1 && k.s[0].lo == 0 && k.s[0].w == 64 {
			key, _ = k.s[0].src.(VTerm)
		}
	case VTop:
		r.undecided(pos, "callback receives an unknown key: "+k.why)
		return Vec{}, false
	}
	if key.op != "skeyE" {
		return bad("callback receives key %s, not the stored key", str(args[0]))
	}
	i, _ := key.args[0].(VInt).l.vec()
	if !r.c.isSet {
		p, ok := args[1].(VPtr)
		if !ok || p.ref.k != RKVElem || len(p.path) != 1 || p.path[0].f != r.valField(s.kvType) {
			return bad("callback receives value pointer %s, not a pointer to the stored value", str(args[1]))
		}
		if !vsame(p.ref.i, i) {
			return bad("callback receives key and value of different entries")
		}
	}
	return i, true
}

// checkScanReturn: on completion everything was visited, and the result says
// whether the callback asked to stop.
func (r *Run) checkScanReturn(s *State, f *Frame, res []Value, pos token.Pos) {
	if len(s.frames) != 1 {
		return
	}
	if r.fn == r.allFn {
		r.checkLocks(s, pos)
	}
	r.events["scan-returns"]++
	r.did("stop-lost")
	r.did("visit-missed")
	if len(res) == 1 && r.fn != r.allFn {
		b, ok := res[0].(VBool)
		if !ok {
			r.undecided(pos, "iteration result "+str(res[0]))
		} else if s.stopped && b.b == r.pol {
			r.fail(s, pos, "stop-lost", "%s reports completion (%v) although the callback asked to stop", f.fi.fn.Name(), b.b)
		} else if !s.stopped && b.b != r.pol {
			r.fail(s, pos, "stop-lost", "%s reports a stop (%v) although the callback never asked to stop", f.fi.fn.Name(), b.b)
		}
	}
	if !s.stopped {
		all := vmap1(s.sp, func(p int64) int64 { return 1<<uint(bits.OnesCount64(uint64(p))) - 1 })
		if t, mask := vcmp(s.N, s.visited, all, eqI); t != 1 {
			ex := 0
			for i := range mask {
				if !mask[i] {
					ex = i
					break
				}
			}
			r.fail(s, pos, "visit-missed", "%s finishes without visiting every item%s (e.g. presence bits %#x, visited ordinals %#x)", f.fi.fn.Name(), r.atDepth(), s.sp.at(ex), s.visited.at(ex))
		}
	}
}

func (r *Run) atDepth() string {
	if r.ctxDepth > 1 {
		return fmt.Sprintf(" %d calls down", r.ctxDepth)
	}
	return ""
}

func (r *Run) hasher(s *State, v Value, pos token.Pos) (VPtr, VHasher, bool) {
	p, ok := v.(VPtr)
	if !ok {
		if _, n := v.(VNil); n {
			panic(goPanic{"nil pointer dereference"})
		}
		return VPtr{}, VHasher{}, false
	}
	h, ok := r.load(s, p, types.Typ[types.Invalid], pos).(VHasher)
	return p, h, ok
}

func (r *Run) external(s *State, in *ssa.Call, fn *ssa.Function, args []Value, pos token.Pos) []*State {
	name := fnName(fn)
	one := func(v Value) []*State { return r.set(s, in, v) }
	if strings.HasPrefix(name, "(*hash/maphash.Hash).") {
		return one(r.hasherCall(s, in, name[len("(*hash/maphash.Hash)."):], args, pos))
	}
	switch name {
	case "hash/maphash.MakeSeed":
		s.makeSeeds++
		return one(term("makeseed", vint(int64(s.makeSeeds))))
	case "hash/maphash.String", "hash/maphash.Bytes":
		c := strip(r.sliceContent(s, args[1]))
		return one(VHash{term("maphash", args[0], c), C(0), C(0), C(64)})
	case "math/bits.RotateLeft64", "math/bits.RotateLeft":
		if h, ok := r.simp(s, args[0]).(VHash); ok {
			if k, ok := r.vecOf(s, args[1]); ok && r.rel(s, C(64), h.w, eqI) && r.rel(s, C(0), h.s, leI) {
				h.s = vmap2(h.s, k, func(x, k int64) int64 { return (x - k) & 63 })
				return one(h)
			}
		}
	case "math/bits.OnesCount", "math/bits.OnesCount8", "math/bits.OnesCount16", "math/bits.OnesCount32", "math/bits.OnesCount64":
		return one(r.onesCount(s, args[0]))
	case "math/bits.TrailingZeros", "math/bits.TrailingZeros64":
		return one(r.trailingZeros(s, args[0], 64))
	case "math/bits.TrailingZeros32":
		return one(r.trailingZeros(s, args[0], 32))
	case "math/bits.TrailingZeros16":
		return one(r.trailingZeros(s, args[0], 16))
	case "math/bits.Len", "math/bits.Len8", "math/bits.Len16", "math/bits.Len32", "math/bits.Len64":
		if v, ok := r.vecOf(s, args[0]); ok {
			return one(vvec(vmap1(v, func(x int64) int64 { return int64(bits.Len64(uint64(x))) })))
		}
		if d, ok := single(args[0]); ok {
			return one(term("+", d, vint(1)))
		}
		return one(opaque(term("len", args[0])))
	case "math/bits.LeadingZeros16", "math/bits.LeadingZeros32", "math/bits.LeadingZeros64":
		if v, ok := r.vecOf(s, args[0]); ok {
			w := int64(64)
			switch name[len(name)-2:] {
			case "16":
				w = 16
			case "32":
				w = 32
			}
			return one(vvec(vmap1(v, func(x int64) int64 { return w - int64(bits.Len64(uint64(x))) })))
		}
	case "bytes.Equal":
		return one(r.equal(s, r.sliceContent(s, args[0]), r.sliceContent(s, args[1]), nil))
	case "slices.Equal":
		return one(r.equal(s, r.sliceContent(s, args[0]), r.sliceContent(s, args[1]), nil))
	case "bytes.Compare", "strings.Compare", "cmp.Compare":
		x, y := r.sliceContent(s, args[0]), r.sliceContent(s, args[1])
		if eq, ok := r.equal(s, x, y, nil).(VBool); ok {
			if eq.b {
				return one(vint(0))
			}
			if r.condFact(s, term("less", strip(x), strip(y))) {
				return one(vint(-1))
			}
			return one(vint(1))
		}
	case "bytes.Clone", "strings.Clone", "slices.Clone":
		return one(term("clone", strip(r.sliceContent(s, args[0]))))
	case "strings.EqualFold", "bytes.EqualFold":
		x, y := strip(r.sliceContent(s, args[0])), strip(r.sliceContent(s, args[1]))
		if eq, ok := r.equal(s, x, y, nil).(VBool); ok {
			return one(VBool{eq.b || r.condFact(s, term("equalfold", x, y))})
		}
	case "strings.HasPrefix", "bytes.HasPrefix", "strings.HasSuffix", "bytes.HasSuffix", "strings.Contains", "bytes.Contains":
		x, y := strip(r.sliceContent(s, args[0])), strip(r.sliceContent(s, args[1]))
		if eq, ok := r.equal(s, x, y, nil).(VBool); ok {
			if eq.b {
				return one(eq)
			}
			if same, ok := r.equal(s, r.lenOf(s, args[0]), r.lenOf(s, args[1]), nil).(VBool); ok {
				return one(VBool{!same.b && r.condFact(s, term(name, x, y))})
			}
		}
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "bytes.ToLower", "bytes.ToUpper", "bytes.TrimSpace":
		x := strip(r.sliceContent(s, args[0]))
		if _, ok := x.(VTerm); ok {
			return one(term("many:"+name, x)) // maps many values to one
		}
	case "runtime.KeepAlive":
		return one(VTuple{})
	case "(encoding/binary.littleEndian).PutUint64", "(encoding/binary.bigEndian).PutUint64",
		"(encoding/binary.littleEndian).PutUint32", "(encoding/binary.bigEndian).PutUint32":
		n := 8
		if strings.HasSuffix(name, "32") {
			n = 4
		}
		sl, ok := args[1].(VSlice)
		bv, ok2 := asBV(args[2], 8*n)
		if ok && ok2 {
			if r.less(s, sl.len, linK(int64(n))) {
				panic(goPanic{"index out of range"})
			}
			for i := 0; i < n; i++ {
				j := i
				if strings.Contains(name, "big") {
					j = n - 1 - i
				}
				p := sl.base
				p.path = append(p.path[:len(p.path):len(p.path)], Step{-1, linAdd(sl.off, linK(int64(i)), 1)})
				r.store(s, p, bvSlice(bv, 8*j, 8), types.Typ[types.Uint8], pos)
			}
			return one(VTuple{})
		}
	case "(encoding/binary.littleEndian).AppendUint64", "(encoding/binary.bigEndian).AppendUint64":
		bv, ok2 := asBV(args[2], 64)
		if n, ok := constOf(r.lenOf(s, args[1])); ok && n == 0 && ok2 {
			a := VArr{}
			for i := 0; i < 8; i++ {
				j := i
				if strings.Contains(name, "big") {
					j = 7 - i
				}
				a.e = append(a.e, bvSlice(bv, 8*j, 8))
			}
			s.objs = append(s.objs, &Obj{val: a, typ: "[]uint8", pos: pos})
			return one(VSlice{VPtr{ref: Ref{k: RFresh, id: len(s.objs) - 1}}, linK(0), linK(8), linK(8)})
		}
	}
	if r.lockCall(s, name, args) {
		return one(VTuple{})
	}
	if v, ok := r.atomic(s, name, in, args, pos); ok {
		return one(v)
	}
	s.note("call of %s at %s", name, r.a.pos(pos))
	for _, a := range args {
		if p, ok := a.(VPtr); ok && p.ref.k != RFresh {
			r.undecided(pos, "container memory is passed to "+name)
		}
	}
	r.events["unknown-call:"+name]++
	return one(topResult(in.Type(), "result of "+name))
}

// lockCall: mutexes of the container. Operations start and end with all of them
// free, and callers that use a container from one goroutine never wait.
func (r *Run) lockCall(s *State, name string, args []Value) bool {
	var lock bool
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		lock = true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
	default:
		return false
	}
	p, ok := r.simp(s, args[0]).(VPtr)
	if !ok || p.ref.k != RRoot {
		return false
	}
	r.did("lock")
	read := strings.Contains(name, ".R")
	k := str(p)
	if read {
		k += " (read)"
	}
	for i, l := range s.locks {
		if !lock && l == k {
			s.locks = append(s.locks[:i:i], s.locks[i+1:]...)
			return true
		}
		if lock && !(read && l == k) && strings.TrimSuffix(l, " (read)") == str(p) {
			panic(goPanic{"waits forever for a lock that it holds itself"})
		}
	}
	if !lock {
		panic(goPanic{"unlock of a lock that is not held"})
	}
	s.locks = append(s.locks[:len(s.locks):len(s.locks)], k)
	return true
}

// checkLocks: no lock stays held after an operation.
func (r *Run) checkLocks(s *State, pos token.Pos) {
	if len(s.locks) > 0 {
		how := "returns"
		if s.cbPanic {
			how = "is left by a panic of the callback"
		}
		r.fail(s, pos, "lock", "%s %s while %s is held: the next operation waits forever", r.name, how, s.locks[0])
	}
}

// atomic: without concurrent writers, atomic accesses are ordinary ones.
func (r *Run) atomic(s *State, name string, in *ssa.Call, args []Value, pos token.Pos) (Value, bool) {
	op, ok := strings.CutPrefix(name, "sync/atomic.")
	if !ok || len(args) == 0 {
		return nil, false
	}
	pt, ok := in.Call.Args[0].Type().Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	T := pt.Elem()
	switch {
	case strings.HasPrefix(op, "Load"):
		return r.load(s, args[0], T, pos), true
	case strings.HasPrefix(op, "Store"):
		r.store(s, args[0], args[1], T, pos)
		return VTuple{}, true
	case strings.HasPrefix(op, "Swap"):
		old := r.load(s, args[0], T, pos)
		r.store(s, args[0], args[1], T, pos)
		return old, true
	case strings.HasPrefix(op, "Add"):
		v := r.binop(s, token.ADD, r.load(s, args[0], T, pos), args[1], T, T)
		r.store(s, args[0], v, T, pos)
		return v, true
	case strings.HasPrefix(op, "CompareAndSwap"):
		eq, ok := r.binop(s, token.EQL, r.load(s, args[0], T, pos), args[1], T, types.Typ[types.Bool]).(VBool)
		if !ok {
			return nil, false
		}
		if eq.b {
			r.store(s, args[0], args[2], T, pos)
		}
		return eq, true
	}
	return nil, false
}

func (r *Run) hasherCall(s *State, in *ssa.Call, m string, args []Value, pos token.Pos) Value {
	p, h, ok := r.hasher(s, args[0], pos)
	if !ok {
		r.undecided(pos, "hash state is not tracked")
		return topResult(in.Type(), "hash state")
	}
	put := func() { r.store(s, p, h, types.Typ[types.Invalid], pos) }
	switch m {
	case "SetSeed":
		h = VHasher{seed: args[1]}
		put()
		return VTuple{}
	case "Reset":
		h = VHasher{seed: h.seed}
		put()
		return VTuple{}
	case "Seed":
		return h.seed
	case "Write", "WriteString":
		c := strip(r.sliceContent(s, args[1]))
		switch {
		case h.content == nil:
			h.content = c
		case !valEq(h.content, c):
			h.bad = "mixed contents"
		}
		h.writes = vaddc(h.writes, 1)
		put()
		return VTuple{[]Value{VInt{linA(Atom{k: aTerm, t: term("n")})}, VNil{}}}
	case "Sum64":
		if h.seed == nil {
			h.seed = term("unseeded")
		}
		c := h.content
		if c == nil {
			c = term("nothing")
		}
		if h.bad != "" {
			c = term(h.bad)
		}
		return r.mkHash(s, VHash{term("maphash", h.seed, c), vaddc(h.writes, -1), C(0), C(64)})
	}
	h.bad = m
	put()
	return topResult(in.Type(), "hash."+m)
}

// ---- builtins

func (r *Run) sliceElem(s *State, v VSlice, i int64, T types.Type, pos token.Pos) Value {
	p := v.base
	p.path = append(p.path[:len(p.path):len(p.path)], Step{-1, linAdd(v.off, linK(i), 1)})
	return r.load(s, p, T, pos)
}

func (r *Run) builtin(s *State, name string, in *ssa.Call, args []Value, pos token.Pos) Value {
	switch name {
	case "len":
		return r.lenOf(s, args[0])
	case "cap":
		switch v := args[0].(type) {
		case VSlice:
			return VInt{v.cap}
		case VNil:
			return vint(0)
		}
		return opaque(term("cap", args[0]))
	case "append":
		return r.appendB(s, in, args, pos)
	case "copy":
		return r.copyB(s, in, args, pos)
	case "clear":
		sl, ok := args[0].(VSlice)
		if !ok {
			return VTuple{}
		}
		et := in.Call.Args[0].Type().Underlying().(*types.Slice).Elem()
		n, ok := r.needVec(s, sl.len)
		if !ok {
			r.undecided(pos, "clear of unknown length")
			return VTuple{}
		}
		c := r.uniform(s, n)
		for i := int64(0); i < c; i++ {
			p := sl.base
			p.path = append(p.path[:len(p.path):len(p.path)], Step{-1, linAdd(sl.off, linK(i), 1)})
			r.store(s, p, r.zero(et, s.top().tsub), et, pos)
		}
		return VTuple{}
	case "min", "max":
		cur := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if name == "max" {
				op = token.GTR
			}
			b, ok := r.order(s, op, a, cur, in.Type()).(VBool)
			if !ok {
				return VTop{name}
			}
			if b.b {
				cur = a
			}
		}
		return cur
	case "Add":
		p, ok := args[0].(VPtr)
		iv, ok2 := args[1].(VInt)
		if ok && ok2 {
			return r.ptrAdd(s, p, iv.l)
		}
		return VTop{"unsafe.Add"}
	case "Slice":
		iv, ok2 := args[1].(VInt)
		if t, ok := args[0].(VTerm); ok && t.op == "sdata" {
			if valEq(args[1], r.lenOf(s, t.args[0])) {
				return term("conv", t.args[0])
			}
			return term("slice", t.args[0], vint(0), args[1])
		}
		p, ok := args[0].(VPtr)
		if ok && ok2 {
			if p.ref.k == RCell && len(p.path) == 0 && !r.eqL(s, p.ref.L, C(0)) {
				L := vaddc(p.ref.L, -1)
				p = VPtr{ref: Ref{k: RNode, L: L}, path: []Step{{-1, linA(Atom{k: aRank, L: L})}}}
			}
			if n := len(p.path); n > 0 && p.path[n-1].f < 0 {
				off := p.path[n-1].idx
				p.path = p.path[: n-1 : n-1]
				return VSlice{p, off, iv.l, iv.l}
			}
		}
		return VTop{"unsafe.Slice"}
	case "SliceData":
		if sl, ok := args[0].(VSlice); ok {
			p := sl.base
			p.path = append(p.path[:len(p.path):len(p.path)], Step{-1, sl.off})
			return p
		}
		if t, ok := args[0].(VTerm); ok {
			return term("sdata", t)
		}
		return VTop{"unsafe.SliceData"}
	case "StringData":
		return term("sdata", args[0])
	case "String":
		if t, ok := args[0].(VTerm); ok && t.op == "sdata" && valEq(args[1], r.lenOf(s, t.args[0])) {
			return term("conv", t.args[0])
		}
		return VTop{"unsafe.String"}
	case "print", "println":
		return VTuple{}
	case "ssa:wrapnilchk":
		if _, ok := args[0].(VNil); ok {
			panic(goPanic{"nil pointer dereference"})
		}
		return args[0]
	case "recover":
		if s.panicking && s.top().unwind {
			s.panicking = false
			return term("panic value")
		}
		return VNil{}
	case "Sizeof":
		// of a type parameter: any size
		return opaque(term("sizeof", term(in.Call.Args[0].Type().String())))
	}
	return topResult(in.Type(), "builtin "+name)
}

const hugeCap = int64(1) << 40

func (r *Run) appendB(s *State, in *ssa.Call, args []Value, pos token.Pos) Value {
	et := in.Type().Underlying().(*types.Slice).Elem()
	if len(args) < 2 {
		return args[0]
	}
	if _, ok := args[1].(VNil); ok {
		return args[0]
	}
	base, isSl := args[0].(VSlice)
	_, isNil := args[0].(VNil)
	if t, ok := args[1].(VTerm); ok {
		if isNil {
			return term("clone", strip(t))
		}
		if isSl {
			if n, ok := base.len.vec(); ok && n.is(0) {
				return term("clone", strip(t))
			}
		}
		return term("append", r.sliceContent(s, args[0]), strip(t))
	}
	if t, ok := args[0].(VTerm); ok {
		return term("append", t, r.sliceContent(s, args[1]))
	}
	add, ok := args[1].(VSlice)
	if !ok || (!isSl && !isNil) {
		return VTop{"append"}
	}
	nv, ok := r.needVec(s, add.len)
	if !ok {
		return VTop{"append of unknown length"}
	}
	n := r.uniform(s, nv)
	var vals []Value
	for i := int64(0); i < n; i++ {
		vals = append(vals, r.sliceElem(s, add, i, et, pos))
	}
	if isNil {
		base = VSlice{off: linK(0), len: linK(0), cap: linK(0)}
	}
	lv, ok := r.needVec(s, base.len)
	if !ok {
		return VTop{"append to unknown length"}
	}
	newLen := vaddc(lv, n)
	if isNil || r.less(s, base.cap, linC(newLen)) {
		// grow into a new allocation
		var segs VSegs
		if isSl {
			c := r.content(s, base.base.ref)
			for _, st := range base.base.path {
				if st.f >= 0 {
					c = r.field(c, st.f)
				}
			}
			off, ok := base.off.vec()
			switch a := c.(type) {
			case VSegs:
				if !ok || !off.is(0) {
					return VTop{"append to part of a slice"}
				}
				segs = r.segPrefix(s, a, lv)
			case VArr:
				o := r.uniform(s, off)
				k := r.uniform(s, lv)
				for i := o; i < o+k && i < int64(len(a.e)); i++ {
					segs.s = append(segs.s, Seg{C(i - o), C(i - o + 1), a.e[i], nil})
				}
				segs = segs.norm()
			default:
				return VTop{"append"}
			}
		}
		for i, v := range vals {
			e := vaddc(lv, int64(i))
			segs.s = append(segs.s, Seg{e, vaddc(e, 1), v, nil})
		}
		s.objs = append(s.objs, &Obj{val: segs.norm(), typ: "[]" + typeKey(et, s.top().tsub), pos: pos, grow: true})
		return VSlice{VPtr{ref: Ref{k: RFresh, id: len(s.objs) - 1}}, linK(0), linC(newLen), linK(hugeCap)}
	}
	for i, v := range vals {
		p := base.base
		p.path = append(p.path[:len(p.path):len(p.path)], Step{-1, linAdd(base.off, linC(vaddc(lv, int64(i))), 1)})
		r.store(s, p, v, et, pos)
	}
	base.len = linC(newLen)
	return base
}

func (r *Run) copyB(s *State, in *ssa.Call, args []Value, pos token.Pos) Value {
	dst, ok := args[0].(VSlice)
	if !ok {
		if _, isNil := args[0].(VNil); isNil {
			return vint(0)
		}
		r.undecided(pos, "copy to "+str(args[0]))
		return VTop{"copy"}
	}
	et := in.Call.Args[0].Type().Underlying().(*types.Slice).Elem()
	switch src := args[1].(type) {
	case VNil:
		return vint(0)
	case VTerm:
		if dst.base.ref.k == RFresh && len(dst.base.path) == 0 {
			if valEq(VInt{dst.len}, r.lenOf(s, src)) {
				r.setContent(s, dst.base.ref, term("clone", strip(src)), pos)
				return VInt{dst.len}
			}
		}
	case VSlice:
		n := src.len
		if r.less(s, dst.len, src.len) {
			n = dst.len
		}
		nv, ok := r.needVec(s, n)
		if !ok {
			break
		}
		k := r.uniform(s, nv)
		var vals []Value
		for i := int64(0); i < k; i++ {
			vals = append(vals, r.sliceElem(s, src, i, et, pos))
		}
		for i := int64(0); i < k; i++ {
			p := dst.base
			p.path = append(p.path[:len(p.path):len(p.path)], Step{-1, linAdd(dst.off, linK(i), 1)})
			r.store(s, p, vals[i], et, pos)
		}
		return vint(k)
	}
	if dst.base.ref.k == RFresh {
		r.setContent(s, dst.base.ref, VTop{"copied bytes"}, pos)
	} else {
		r.undecided(pos, "copy to "+str(dst))
	}
	return VTop{"copy"}
}
