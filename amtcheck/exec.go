package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Run is one analysis of one operation: all paths of the method from the
// abstract initial state, with the in-package calls followed.
type Run struct {
	probe   bool // only to find the order of digits
	flipped bool // level 0 was looked up with the last digit of the hash

	a          *Analysis
	c          *Container
	method     string
	fn         *ssa.Function
	lmax       int64
	nilRt      bool // uninitialised receiver
	scan       bool // iteration: generic node, contract for recursive calls
	pol        bool // iteration: value returned by the recursive function on completion
	solo       bool // plain function (no container)
	steps      int
	finals     []*Final
	checkUntil time.Time // when checking the path ends has to stop
	ends       int       // path ends found
	anchor     token.Pos
	events     map[string]int
	lastPos    token.Pos
	maxVisits  int
	readers    bool // a read operation: no shared writes allowed
	instrs     map[ssa.Instruction]bool
	ctxDepth   int                          // calls that lead to this level, at least
	subs       map[*ssa.Function][]*subCall // functions iterating over the level below an item
	subRun     bool                         // the level analysed is not the root's
	granted    int                          // times a loop was left early
	until      time.Time                    // end of the time granted after that
	kill       atomic.Bool                  // stop: out of memory or time
	late       atomic.Bool                  // out of time
	began      time.Time
	stepsSeen  atomic.Int64
	allFn      *ssa.Function
	role       string
	cat        string
	cats       map[string]int
	obl        int
	rules      map[ruleCase]int // times each rule was decided, by case
	pend       *[]*Violation
	streams    map[string]string
	violCount  int
	out        []*Violation
	name       string
}

type ruleCase struct{ rule, cat string }

// did counts one decision of a rule.
func (r *Run) did(rule string) { r.rules[ruleCase{rule, r.cat}]++ }

type Final struct {
	s     *State
	panic string // non-empty: the path panics
	res   []Value
	pos   token.Pos
}

type abort struct {
	why   string
	final bool
}

const soloVisits = 300

// maxNotes bounds the unknowns that a path may depend on.
const maxNotes = 3

// inductive: every iteration so far advanced all integers by constant steps;
// the rest follows by induction if no counter is narrower than the bound.
func (r *Run) inductive(s *State, l *Loop) {
	for _, in := range l.head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if w, _, ok := intInfo(phi.Type()); ok && w < 64 {
			r.fail(s, phi.Pos(), "narrow-counter", "loop counter %s has %d bits, fewer than the iteration count", phi.Comment, w)
		}
	}
}

func (r *Run) posOf(in ssa.Instruction) token.Pos {
	if p := in.Pos(); p.IsValid() {
		r.lastPos = p
		return p
	}
	return r.lastPos
}

type scope struct {
	fi   int
	loop *Loop
}

func (r *Run) isHead(s *State) *Loop {
	f := s.top()
	return f.fi.loops[f.blk]
}

func (r *Run) evalPhis(s *State) {
	f := s.top()
	var vals []Value
	var ids []int
	pi := -1
	for i, p := range f.blk.Preds {
		if p == f.prev {
			pi = i
		}
	}
	n := 0
	for _, in := range f.blk.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		vals = append(vals, r.operand(s, phi.Edges[pi]))
		ids = append(ids, f.fi.idx[phi])
	}
	for i, v := range vals {
		f.env[ids[i]] = v
	}
	f.pc = n
}

// region explores all paths from start until they leave the scope.
func (r *Run) region(start []*State, sc *scope) (backs, exits []*State) {
	stack := append([]*State(nil), start...)
	for len(stack) > 0 {
		s := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
	run:
		for {
			if len(s.frames) == 0 {
				break
			}
			top := len(s.frames) - 1
			if sc != nil && top < sc.fi {
				exits = append(exits, s)
				break
			}
			if s.enter {
				b := s.top().blk
				if sc != nil && top == sc.fi {
					if b == sc.loop.head {
						backs = append(backs, s)
						break
					}
					if !sc.loop.blocks[b] {
						exits = append(exits, s)
						break
					}
				}
				if l := r.isHead(s); l != nil {
					stack = append(stack, r.loop(s, top, l)...)
					break
				}
				if !s.phis {
					r.evalPhis(s)
				}
				s.enter, s.phis = false, false
			}
			out := r.step(s)
			switch len(out) {
			case 0:
				break run
			case 1:
				s = out[0]
			default:
				stack = append(stack, out[1:]...)
				s = out[0]
			}
		}
	}
	return
}

// loop computes the states leaving a loop: states meeting at the head are
// joined by shape, and only new lanes are propagated, until nothing is new.
// When it has to give up, what left the loop until then is still followed.
func (r *Run) loop(s *State, fi int, l *Loop) []*State {
	lp := &looping{seen: map[string]map[uint64]bool{}, work: []*State{s}, fi: fi, l: l}
	if why := r.attempt(func() {
		for len(lp.work) > 0 {
			r.goRound(lp)
		}
	}); why != "" {
		r.undecided(r.headPos(l), "loop not followed to its end: "+why)
		lp.seen, lp.work, lp.partial = nil, nil, true
	}
	exits := lp.exits
	if lp.partial || lp.sampled {
		exits = thin(exits)
	}
	for _, e := range exits {
		if e.enter && !e.phis && len(e.frames)-1 == fi {
			r.evalPhis(e)
			e.phis = true
		}
	}
	out, _ := mergeStates(r, exits, nil)
	return out
}

type looping struct {
	fi      int
	l       *Loop
	n       int // visits of the head
	seen    map[string]map[uint64]bool
	work    []*State
	exits   []*State
	sampled bool
	partial bool
}

func (r *Run) goRound(lp *looping) {
	l := lp.l
	if r.solo && lp.n > soloVisits {
		r.inductive(lp.work[0], l)
		lp.work = nil
		return
	}
	if lp.n > r.a.maxVisits {
		rule := "no-progress"
		if r.role == "iter" { // may take as many iterations as there are entries
			rule = "undecided"
		}
		r.fail(lp.work[0], r.headPos(l), rule, "loop does not finish within %d iterations", lp.n)
		lp.work, lp.partial = nil, true
		return
	}
	if lp.n > r.maxVisits {
		r.maxVisits = lp.n
	}
	for _, h := range lp.work {
		if !h.phis {
			r.evalPhis(h)
		}
		h.enter, h.phis = false, false
	}
	heads, rep := mergeStates(r, lp.work, lp.seen)
	if rep > 0 && lp.n > 0 && r.noProgress(heads, rep, lp.work) {
		r.fail(lp.work[0], r.headPos(l), "no-progress", "loop may repeat a state (no progress)")
	}
	if len(heads) > 400 || lp.sampled && len(heads) > 12 {
		// only a sample of these is followed further; what is found is kept
		if !lp.sampled {
			r.fail(lp.work[0], r.headPos(l), "undecided", "too many abstract states at loop head")
		}
		lp.sampled = true
		var some []*State
		for i := 0; i < 6; i++ {
			some = append(some, heads[i*(len(heads)-1)/5].sample(64))
		}
		heads = some
	}
	b, e := r.region(heads, &scope{lp.fi, l})
	lp.work = b
	lp.exits = append(lp.exits, e...)
	lp.n++
}

// sample keeps about n lanes.
func (s *State) sample(n int) *State {
	if step := s.N / n; step > 1 {
		mask := make([]bool, s.N)
		for j := 0; j < s.N; j += step {
			mask[j] = true
		}
		s.filter(mask)
	}
	return s
}

func thin(in []*State) (out []*State) {
	const states, lanes = 200, 2048
	for i, s := range in {
		if len(in) > states && i > states/2 && i%(2*len(in)/states) != 0 {
			continue // more of those that came first
		}
		out = append(out, s.sample(lanes))
	}
	return
}

// grace is the time given to following up what is known when a loop had to be left.
const grace = 15 * time.Second

// attempt runs f; if the analysis has to stop in it, it says why, and a little
// time is granted for the rest.
func (r *Run) attempt(f func()) (why string) {
	defer func() {
		if e := recover(); e != nil {
			ab, ok := e.(abort)
			if !ok || ab.final || r.granted >= 3 {
				panic(e)
			}
			why = ab.why
			r.granted++
			if ab.why == "steps" {
				r.kill.Store(true)
			}
			r.until = time.Now().Add(grace)
		}
	}()
	f()
	return ""
}

// stopNow: the run was told to stop, and the time granted after that is over.
func (r *Run) stopNow() bool {
	return r.kill.Load() && (r.granted == 0 || time.Now().After(r.until))
}

// noProgress: a repeated lane at a loop head is a cycle of the abstract
// transition relation, unless two paths of one iteration merely met again.
func (r *Run) noProgress(heads []*State, rep int, work []*State) bool {
	n := 0
	for _, w := range work {
		n += w.N
	}
	return len(heads) == 0 && n > 0
}

func (r *Run) headPos(l *Loop) token.Pos {
	for _, in := range l.head.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return l.head.Parent().Pos()
}

// step executes one instruction; several successors if the state had to split.
func (r *Run) step(s *State) (out []*State) {
	r.steps++
	r.stepsSeen.Store(int64(r.steps))
	if r.stopNow() {
		why := "memory"
		if r.late.Load() {
			why = "time"
		}
		r.fail(s, r.lastPos, "undecided", "analysis ran out of %s", why)
		panic(abort{why: why})
	}
	if r.granted == 0 && r.steps > r.a.maxSteps || r.steps&1023 == 0 && !r.a.deadline.IsZero() && r.granted == 0 && time.Now().After(r.a.deadline) {
		r.fail(s, r.lastPos, "undecided", "analysis budget exhausted")
		panic(abort{why: "steps"})
	}
	if len(s.notes) > maxNotes && !r.scan {
		// nothing definite can come of it
		r.fail(s, r.lastPos, "undecided", "path left: it depends on too much that is unknown")
		return nil
	}
	f := s.top()
	in := f.blk.Instrs[f.pc]
	r.instrs[in] = true
	var snap *State
	switch in.(type) {
	case *ssa.Call, *ssa.Store, *ssa.RunDefers, *ssa.Defer, *ssa.Convert:
		snap = s.clone()
	}
	defer func() {
		if e := recover(); e != nil {
			d, ok := e.(demand)
			if !ok {
				panic(e)
			}
			base := s
			if snap != nil {
				base = snap
			}
			base.cpos = 0
			out = r.splitBy(base, d, 0)
		}
	}()
	s.cpos = 0
	out = r.exec(s, in)
	for _, o := range out {
		o.choice, o.cpos = nil, 0
	}
	return
}

func (r *Run) splitBy(s *State, d demand, depth int) (out []*State) {
	if depth > 8 {
		panic(abort{why: "nested demand"})
	}
	for _, alt := range d.alts {
		c := s.clone()
		ok, inner := tryAlt(alt, c)
		if inner != nil {
			return r.splitBy(s, *inner, depth+1)
		}
		if ok {
			out = append(out, c)
		}
	}
	return
}

func tryAlt(alt func(*State) bool, c *State) (ok bool, inner *demand) {
	defer func() {
		if e := recover(); e != nil {
			d, is := e.(demand)
			if !is {
				panic(e)
			}
			inner = &d
		}
	}()
	return alt(c), nil
}

func (r *Run) operand(s *State, v ssa.Value) Value {
	f := s.top()
	switch v := v.(type) {
	case *ssa.Const:
		return r.constVal(v, f.tsub)
	case *ssa.Function:
		return VFunc{fn: v, sub: f.tsub}
	case *ssa.Global:
		return VPtr{ref: Ref{k: RGlobal, id: r.a.globalID(v)}}
	case *ssa.Builtin:
		return term("builtin:" + v.Name())
	}
	j, ok := f.fi.idx[v]
	if !ok || f.env[j] == nil {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), f.fi.fn))
	}
	return f.env[j]
}

func (r *Run) constVal(c *ssa.Const, sub map[*types.TypeParam]string) Value {
	if c.Value == nil {
		return r.zero(c.Type(), sub)
	}
	switch c.Value.Kind() {
	case constant.Int:
		if i, ok := constant.Int64Val(c.Value); ok {
			if isFloat(c.Type()) {
				return term("float:" + c.Value.String())
			}
			return vint(i)
		}
		if u, ok := constant.Uint64Val(c.Value); ok {
			return vint(int64(u))
		}
	case constant.Bool:
		return VBool{constant.BoolVal(c.Value)}
	case constant.String:
		return term("str:" + c.Value.ExactString())
	case constant.Float:
		return term("float:" + c.Value.String())
	}
	return VTop{"constant"}
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (r *Run) zero(t types.Type, sub map[*types.TypeParam]string) Value {
	t = types.Unalias(t)
	if tp, ok := t.(*types.TypeParam); ok {
		return term("zero:" + typeKey(tp, sub))
	}
	if isNamed(t, "hash/maphash", "Hash") {
		return VHasher{}
	}
	if isNamed(t, "hash/maphash", "Seed") {
		return term("zeroseed")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return VNil{}
		case u.Info()&types.IsInteger != 0:
			return vint(0)
		case u.Info()&types.IsBoolean != 0:
			return VBool{false}
		case u.Info()&types.IsString != 0:
			return term(`str:""`)
		case u.Info()&types.IsFloat != 0:
			return term("float:0")
		}
		return VTop{"zero " + u.String()}
	case *types.Pointer, *types.Signature, *types.Slice, *types.Interface, *types.Map, *types.Chan:
		return VNil{}
	case *types.Struct:
		v := VStruct{}
		for i := 0; i < u.NumFields(); i++ {
			v.f = append(v.f, r.zero(u.Field(i).Type(), subOf(t, sub)))
		}
		return v
	case *types.Array:
		if u.Len() > 16 || r.a.isPathElem(u.Elem()) {
			return VSegs{[]Seg{{C(0), C(u.Len()), r.zero(u.Elem(), sub), nil}}}.norm()
		}
		v := VArr{}
		for i := int64(0); i < u.Len(); i++ {
			v.e = append(v.e, r.zero(u.Elem(), sub))
		}
		return v
	case *types.Tuple:
		v := VTuple{}
		for i := 0; i < u.Len(); i++ {
			v.e = append(v.e, r.zero(u.At(i).Type(), sub))
		}
		return v
	}
	return VTop{"zero"}
}

func subOf(t types.Type, sub map[*types.TypeParam]string) map[*types.TypeParam]string { return sub }

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

// intInfo returns the width in bits and signedness of an integer type.
func intInfo(t types.Type) (w int, signed, ok bool) {
	b, is := t.Underlying().(*types.Basic)
	if !is || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 64, false, true
}

func wrap(x int64, w int, signed bool) int64 {
	if w == 64 {
		return x
	}
	m := int64(1)<<w - 1
	x &= m
	if signed && x>>(w-1) != 0 {
		x |= ^m
	}
	return x
}

func (r *Run) set(s *State, in ssa.Value, v Value) []*State {
	f := s.top()
	f.env[f.fi.idx[in]] = v
	f.pc++
	return []*State{s}
}

func (r *Run) goTo(s *State, b *ssa.BasicBlock) []*State {
	f := s.top()
	f.prev, f.blk, f.pc = f.blk, b, 0
	s.enter, s.phis = true, false
	return []*State{s}
}

func (r *Run) panicExit(s *State, why string, pos token.Pos) []*State {
	r.final(&Final{s: s, panic: why, pos: pos})
	return nil
}

func (r *Run) final(f *Final) { r.finals = append(r.finals, f); r.ends++ }

type goPanic struct{ why string }

// endPath drops a path on which a violation was reported: what follows from it
// is of no interest.
type endPath struct{}

func (r *Run) exec(s *State, in ssa.Instruction) (out []*State) {
	pos := r.posOf(in)
	defer func() {
		if e := recover(); e != nil {
			if g, ok := e.(goPanic); ok {
				out = r.panicExit(s, g.why, pos)
				return
			}
			if _, ok := e.(endPath); ok {
				out = nil
				return
			}
			panic(e)
		}
	}()
	f := s.top()
	switch in := in.(type) {
	case *ssa.DebugRef:
		f.pc++
		return []*State{s}
	case *ssa.Alloc:
		T := in.Type().Underlying().(*types.Pointer).Elem()
		return r.set(s, in, r.alloc(s, T, f.tsub, in.Pos()))
	case *ssa.UnOp:
		return r.set(s, in, r.unop(s, in))
	case *ssa.BinOp:
		x, y := r.operand(s, in.X), r.operand(s, in.Y)
		if (in.Op == token.EQL || in.Op == token.NEQ) && types.IsInterface(in.X.Type()) {
			r.comparable(s, in.X, in.Y)
		}
		return r.set(s, in, r.binop(s, in.Op, x, y, in.X.Type(), in.Type()))
	case *ssa.ChangeType:
		return r.set(s, in, r.operand(s, in.X))
	case *ssa.Convert:
		return r.set(s, in, r.convert(s, r.operand(s, in.X), in.X.Type(), in.Type(), f.tsub, pos))
	case *ssa.MultiConvert:
		return r.set(s, in, r.convert(s, r.operand(s, in.X), in.X.Type(), in.Type(), f.tsub, pos))
	case *ssa.ChangeInterface:
		return r.set(s, in, r.operand(s, in.X))
	case *ssa.MakeInterface:
		return r.set(s, in, r.operand(s, in.X))
	case *ssa.FieldAddr:
		p := r.simp(s, r.operand(s, in.X))
		return r.set(s, in, r.fieldAddr(s, p, in.Field))
	case *ssa.Field:
		return r.set(s, in, r.field(r.operand(s, in.X), in.Field))
	case *ssa.IndexAddr:
		return r.set(s, in, r.indexAddr(s, r.operand(s, in.X), r.operand(s, in.Index), in.X.Type(), pos))
	case *ssa.Index:
		return r.set(s, in, r.index(s, r.operand(s, in.X), r.operand(s, in.Index)))
	case *ssa.Slice:
		return r.set(s, in, r.slice(s, in))
	case *ssa.SliceToArrayPointer:
		v := r.operand(s, in.X)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		sl, ok := v.(VSlice)
		if !ok {
			return r.set(s, in, VTop{"slice to array"})
		}
		if !r.less(s, sl.len, linK(n)) {
			p := sl.base
			p.path = append(p.path[:len(p.path):len(p.path)], Step{-1, sl.off})
			return r.set(s, in, p)
		}
		panic(goPanic{"slice too short for array"})
	case *ssa.Extract:
		t := r.operand(s, in.Tuple)
		if tp, ok := t.(VTuple); ok {
			return r.set(s, in, tp.e[in.Index])
		}
		return r.set(s, in, VTop{"tuple"})
	case *ssa.Store:
		r.store(s, r.operand(s, in.Addr), r.operand(s, in.Val), in.Val.Type(), pos)
		f.pc++
		return []*State{s}
	case *ssa.MakeClosure:
		v := VFunc{fn: in.Fn.(*ssa.Function), sub: f.tsub}
		for _, b := range in.Bindings {
			v.bind = append(v.bind, r.operand(s, b))
		}
		return r.set(s, in, v)
	case *ssa.MakeSlice:
		return r.set(s, in, r.makeSlice(s, in))
	case *ssa.Jump:
		return r.goTo(s, f.blk.Succs[0])
	case *ssa.If:
		c := r.operand(s, in.Cond)
		b, ok := c.(VBool)
		if !ok {
			s.note("branch on %s at %s", str(c), r.a.pos(pos))
			n := s.clone()
			return append(r.goTo(s, f.blk.Succs[0]), r.goTo(n, n.top().blk.Succs[1])...)
		}
		if b.b {
			return r.goTo(s, f.blk.Succs[0])
		}
		return r.goTo(s, f.blk.Succs[1])
	case *ssa.Return:
		var res []Value
		for _, x := range in.Results {
			res = append(res, r.operand(s, x))
		}
		return r.ret(s, res, pos)
	case *ssa.Panic:
		return r.panicExit(s, "panic", pos)
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			if fv, ok := d.fn.(VFunc); ok && r.a.inPkg(fv.fn) {
				r.push(s, fv, d.args, nil)
				s.top().discard = true
				return []*State{s}
			} else if ok && r.lockCall(s, fnName(fv.fn), d.args) {
				return []*State{s}
			}
			s.note("deferred call of %s", str(d.fn))
			return []*State{s}
		}
		f.pc++
		return []*State{s}
	case *ssa.Defer:
		fnv, args := r.callee(s, &in.Call)
		f.defers = append(f.defers, deferred{fnv, args})
		f.pc++
		return []*State{s}
	case *ssa.Call:
		return r.call(s, in)
	case *ssa.TypeAssert:
		return r.set(s, in, r.typeAssert(s, in))
	case *ssa.Go:
		if r.waits() {
			s.note("goroutine started at %s", r.a.pos(pos))
		}
		// one schedule: it does not get to run before the operation ends
		f.pc++
		return []*State{s}
	case *ssa.MapUpdate:
		s.note("map update at %s", r.a.pos(pos))
		f.pc++
		return []*State{s}
	}
	if v, ok := in.(ssa.Value); ok {
		var t Value = VTop{fmt.Sprintf("%T", in)}
		if tt, ok := v.Type().(*types.Tuple); ok {
			tv := VTuple{}
			for i := 0; i < tt.Len(); i++ {
				tv.e = append(tv.e, t)
			}
			t = tv
		}
		return r.set(s, v, t)
	}
	r.fail(s, pos, "undecided", "unsupported instruction %s", in)
	panic(abort{why: "instr"})
}

func (r *Run) alloc(s *State, T types.Type, sub map[*types.TypeParam]string, pos token.Pos) Value {
	o := &Obj{val: r.zero(T, sub), typ: typeKey(T, sub), T: T, tsub: sub, pos: pos}
	s.objs = append(s.objs, o)
	p := VPtr{ref: Ref{k: RFresh, id: len(s.objs) - 1}}
	return r.normPtr(p, T)
}

// normPtr: a pointer to an array of items is represented by a pointer to its first item.
func (r *Run) normPtr(p VPtr, T types.Type) VPtr {
	if a, ok := T.Underlying().(*types.Array); ok && r.a.isLink(a.Elem()) {
		if len(p.path) == 0 || p.path[len(p.path)-1].f >= 0 {
			p.path = append(p.path[:len(p.path):len(p.path)], Step{-1, linK(0)})
		}
	}
	return p
}

func (r *Run) ret(s *State, res []Value, pos token.Pos) []*State {
	f := s.top()
	if r.scan {
		r.checkScanReturn(s, f, res, pos)
	}
	if len(s.frames) == 1 {
		s.frames = nil
		for i := range res {
			res[i] = r.simp(s, res[i])
		}
		r.final(&Final{s: s, res: res, pos: pos})
		return nil
	}
	s.frames = s.frames[:len(s.frames)-1]
	if f.unwind {
		return r.unwind(s, pos)
	}
	if f.discard {
		return []*State{s}
	}
	c := s.top()
	in := c.blk.Instrs[c.pc].(ssa.Value)
	var v Value
	switch len(res) {
	case 0:
		v = VTuple{}
	case 1:
		v = res[0]
	default:
		v = VTuple{res}
	}
	return r.set(s, in, v)
}

func (r *Run) push(s *State, fv VFunc, args []Value, targs []string) {
	fn := fv.fn
	sub := map[*types.TypeParam]string{}
	if len(fv.bind) > 0 || fn.Parent() != nil {
		// closures share the type parameters of the enclosing function
		for k, v := range fv.sub {
			sub[k] = v
		}
	}
	for i, tp := range typeParamsOf(fn) {
		if i < len(targs) {
			sub[tp] = targs[i]
		}
	}
	fi := r.info(fn)
	f := &Frame{fi: fi, env: make([]Value, fi.n), blk: fn.Blocks[0], tsub: sub}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[fi.idx[p]] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(fv.bind) {
			f.env[fi.idx[p]] = fv.bind[i]
		}
	}
	s.frames = append(s.frames, f)
	s.enter, s.phis = true, true
}

func typeParamsOf(fn *ssa.Function) []*types.TypeParam {
	var out []*types.TypeParam
	sig := fn.Signature
	if l := sig.RecvTypeParams(); l != nil {
		for i := 0; i < l.Len(); i++ {
			out = append(out, l.At(i))
		}
	}
	if l := fn.TypeParams(); l != nil && len(out) == 0 {
		for i := 0; i < l.Len(); i++ {
			out = append(out, l.At(i))
		}
	}
	return out
}
