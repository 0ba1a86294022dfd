package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	unk = int8(0)
	yes = int8(1)
	no  = int8(2)
)

func tri(b bool) int8 {
	if b {
		return yes
	}
	return no
}

// CR is the set of possible (count, rank) pairs of a node, rank bits per count.
type CR [17]uint32

func (c *CR) size() int {
	n := 0
	for _, r := range c {
		for ; r != 0; r &= r - 1 {
			n++
		}
	}
	return n
}

func (c *CR) single() (int64, int64, bool) {
	if c.size() != 1 {
		return 0, 0, false
	}
	for k, r := range c {
		for j := 0; j < 17; j++ {
			if r&(1<<j) != 0 {
				return int64(k), int64(j), true
			}
		}
	}
	return 0, 0, false
}

// count reports the single possible count, if there is one.
func (c *CR) count() (int64, bool) {
	k := int64(-1)
	for i, r := range c {
		if r != 0 {
			if k >= 0 {
				return 0, false
			}
			k = int64(i)
		}
	}
	return k, k >= 0
}

func (c *CR) maxmin(a AtomK) (lo, hi int64) {
	lo, hi = 99, -1
	for k, r := range c {
		for j := 0; j < 17; j++ {
			if r&(1<<j) == 0 {
				continue
			}
			x := int64(k)
			if a == aRank {
				x = int64(j)
			}
			lo, hi = min(lo, x), max(hi, x)
		}
	}
	return
}

type partFact struct {
	lo, w int
	eq    bool
}

type ordFact struct {
	i    Vec
	leaf bool
}

// NodeFact is what is known about the initial contents of the level-L node.
type NodeFact struct {
	L          Vec
	memP, memT int8 // the key's digit is in the presence / type bitmap
	cr         *CR
	key        int8 // the leaf at the key's digit holds an equal key
	parts      []partFact
	surv       int8 // the single other item is a leaf
	allLeaf    int8 // all other items are leaves
	noLeaf     int8 // no other item is a leaf
	ords       []ordFact
}

type DigFact struct {
	L      Vec
	eq, lt int8 // digit of the key = / < digit of the conflicting key
}

type Cond struct {
	t Value
	b bool
}

type HEntry struct {
	ref Ref
	val Value
}

type Obj struct {
	val  Value
	typ  string
	T    types.Type
	tsub map[*types.TypeParam]string
	pos  token.Pos
	grow bool // slice backing without a known capacity
}

type deferred struct {
	fn   Value
	args []Value
}

type Frame struct {
	fi        *FnInfo
	env       []Value
	blk, prev *ssa.BasicBlock
	pc        int
	tsub      map[*types.TypeParam]string
	defers    []deferred
	bind      []Value
	leaf      bool // iteration: entered with a leaf item
	discard   bool // result is not stored in the caller (deferred call)
	unwind    bool // deferred call run because of a panic
}

// CBRec is one call of the user's callback.
type CBRec struct {
	args    []Value
	old     Value // what the value pointer pointed to
	shared  bool  // the container had been written before
	pos     token.Pos
	pending string
}

type State struct {
	N      int
	frames []*Frame
	objs   []*Obj
	heap   []HEntry
	facts  []*NodeFact
	digs   []*DigFact
	conds  []Cond
	spine  Vec // nodes 0..spine exist on the key's path
	enter  bool
	phis   bool
	choice []int
	cpos   int

	shared    bool // memory shared through the container was written
	sharedPos token.Pos
	cbs       []*CBRec
	visited   Vec // iteration: mask of visited items
	asked     Vec // iteration: mask of items whose kind was known and is forgotten
	sp        Vec // iteration: presence bitmap of the node
	itLo      Vec // hash functions: bounds of the iter parameter
	itHi      Vec
	stopped   bool
	cbPanic   bool // the user's callback panicked
	panicking bool // and the panic was not recovered (yet)
	kvType    string
	kstream   Value
	notes     []string
	makeSeeds int
	locks     []string // mutexes of the container that are held
	res       []Value // results of the operation (final states)
}

type demand struct{ alts []func(*State) bool }

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) clone() *State {
	c := *s
	c.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.env = append([]Value(nil), f.env...)
		g.defers = append([]deferred(nil), f.defers...)
		c.frames[i] = &g
	}
	c.objs = append([]*Obj(nil), s.objs...)
	c.heap = append([]HEntry(nil), s.heap...)
	c.facts = make([]*NodeFact, len(s.facts))
	for i, f := range s.facts {
		g := *f
		g.parts = append([]partFact(nil), f.parts...)
		g.ords = append([]ordFact(nil), f.ords...)
		c.facts[i] = &g
	}
	c.digs = make([]*DigFact, len(s.digs))
	for i, d := range s.digs {
		g := *d
		c.digs[i] = &g
	}
	c.conds = append([]Cond(nil), s.conds...)
	c.cbs = append([]*CBRec(nil), s.cbs...)
	c.choice = append([]int(nil), s.choice...)
	c.notes = append([]string(nil), s.notes...)
	c.locks = append([]string(nil), s.locks...)
	return &c
}

// apply rewrites all values of the state in place.
func (s *State) apply(m *mapper) {
	for _, f := range s.frames {
		f.env = m.vals(f.env)
		f.bind = m.vals(f.bind)
		for i, d := range f.defers {
			f.defers[i] = deferred{m.val(d.fn), m.vals(d.args)}
		}
	}
	for i, h := range s.heap {
		s.heap[i] = HEntry{m.ref(h.ref), m.val(h.val)}
	}
	for _, f := range s.facts {
		f.L = m.mv(f.L)
		for i := range f.ords {
			f.ords[i].i = m.mv(f.ords[i].i)
		}
	}
	for _, d := range s.digs {
		d.L = m.mv(d.L)
	}
	for i, c := range s.conds {
		s.conds[i] = Cond{m.val(c.t), c.b}
	}
	s.spine = m.mv(s.spine)
	s.visited = m.mv(s.visited)
	s.asked = m.mv(s.asked)
	s.sp = m.mv(s.sp)
	s.itLo, s.itHi = m.mv(s.itLo), m.mv(s.itHi)
	for i, c := range s.cbs {
		d := *c
		d.args = m.vals(c.args)
		d.old = m.val(c.old)
		s.cbs[i] = &d
	}
	s.kstream = m.val(s.kstream)
	s.res = m.vals(s.res)
}

func (s *State) applyObjs(m *mapper) {
	for i, o := range s.objs {
		if o != nil {
			n := *o
			n.val = m.val(o.val)
			s.objs[i] = &n
		}
	}
}

// filter keeps the lanes of the mask.
func (s *State) filter(mask []bool) bool {
	n := 0
	for _, b := range mask {
		if b {
			n++
		}
	}
	if n == 0 {
		return false
	}
	m := &mapper{vec: func(v Vec) Vec { return v.filter(mask) }}
	s.apply(m)
	s.applyObjs(m)
	s.N = n
	return true
}

// canon drops dead values and garbage and renames objects in discovery order.
func (s *State) canon(r *Run) {
	for i, f := range s.frames {
		live := f.fi.liveAt(f.blk, f.pc, s.enter && !s.phis && i == len(s.frames)-1, f.prev, i < len(s.frames)-1)
		for j := range f.env {
			if f.env[j] != nil && !live.has(j) {
				f.env[j] = nil
			}
		}
	}
	for _, f := range s.frames {
		for j := range f.env {
			if f.env[j] != nil {
				f.env[j] = r.simp(s, f.env[j])
			}
		}
	}
	sort.SliceStable(s.heap, func(i, j int) bool {
		a, b := s.heap[i].ref, s.heap[j].ref
		if a.k != b.k {
			return a.k < b.k
		}
		return a.L.at(0) < b.L.at(0)
	})
	sort.SliceStable(s.facts, func(i, j int) bool { return s.facts[i].L.at(0) < s.facts[j].L.at(0) })
	sort.SliceStable(s.digs, func(i, j int) bool { return s.digs[i].L.at(0) < s.digs[j].L.at(0) })
	ren := map[int]int{}
	var order []int
	m := &mapper{obj: func(id int) int {
		if n, ok := ren[id]; ok {
			return n
		}
		n := len(order)
		ren[id] = n
		order = append(order, id)
		return n
	}}
	old := s.objs
	s.apply(m)
	var objs []*Obj
	for i := 0; i < len(order); i++ {
		o := *old[order[i]]
		o.val = m.val(o.val)
		objs = append(objs, &o)
	}
	s.objs = objs
	if r.scan { // facts about single items are only needed while they are visited
		for _, f := range s.facts {
			for _, o := range f.ords {
				s.asked = vmap2(s.asked, o.i, func(m, i int64) int64 { return m | 1<<uint(i) })
			}
			f.ords = nil
		}
	}
}

// shape encodes everything but the integers.
func (s *State) shape() string {
	var e enc
	fmt.Fprintf(&e.sb, "%v %v %v %v%v %v %v %s %d %v|", s.enter, s.shared, s.stopped, s.cbPanic, s.panicking, s.choice, len(s.cbs), s.kvType, s.makeSeeds, s.locks)
	for _, f := range s.frames {
		fmt.Fprintf(&e.sb, "F%s:%d:%d:%v:%v:%v ", f.fi.fn.String(), f.blk.Index, f.pc, f.discard, f.leaf, f.unwind)
		e.vals(f.env)
		e.vals(f.bind)
		for _, d := range f.defers {
			e.val(d.fn)
			e.vals(d.args)
		}
	}
	for _, o := range s.objs {
		e.s("O" + o.typ)
		if o.grow {
			e.s("g")
		}
		e.val(o.val)
	}
	for _, h := range s.heap {
		e.s("H")
		e.ref(h.ref)
		e.val(h.val)
	}
	for _, f := range s.facts {
		fmt.Fprintf(&e.sb, "N%d%d%d%d%d%d", f.memP, f.memT, f.key, f.surv, f.allLeaf, f.noLeaf)
		if f.cr != nil {
			fmt.Fprintf(&e.sb, "%v", *f.cr)
		}
		fmt.Fprintf(&e.sb, "%v", f.parts)
		e.vec(f.L)
		for _, o := range f.ords {
			e.vec(o.i)
			e.s(fmt.Sprint(o.leaf))
		}
	}
	for _, d := range s.digs {
		fmt.Fprintf(&e.sb, "D%d%d", d.eq, d.lt)
		e.vec(d.L)
	}
	for _, c := range s.conds {
		fmt.Fprintf(&e.sb, "C%v", c.b)
		e.val(c.t)
	}
	for _, c := range s.cbs {
		fmt.Fprintf(&e.sb, "B%v", c.shared)
		e.vals(c.args)
		e.val(c.old)
	}
	e.s("S")
	e.val(s.kstream)
	fmt.Fprintf(&e.sb, "%d", len(s.notes))
	return e.sb.String()
}

// lanes collects the integer slots in traversal order.
func (s *State) lanes() []Vec {
	var vs []Vec
	m := &mapper{vec: func(v Vec) Vec { vs = append(vs, v); return v }}
	c := *s
	c = *s.clone()
	c.apply(m)
	c.applyObjs(m)
	return vs
}

func (s *State) setLanes(vs []Vec, n int) {
	i := 0
	m := &mapper{vec: func(v Vec) Vec { x := vs[i]; i++; return x }}
	s.apply(m)
	s.applyObjs(m)
	s.N = n
}

const (
	maxLanes = 1 << 22 // in one abstract state
	maxSeen  = 1 << 23 // of one shape at a loop head
)

type bucket struct {
	st *State
	vs []Vec
	n  int
}

// mergeStates joins states of equal shape by uniting their lanes (no loss).
// seen, if given, drops the lanes met before under the same shape.
func mergeStates(r *Run, in []*State, seen map[string]map[uint64]bool) (out []*State, repeated int) {
	var order []string
	bk := map[string]*bucket{}
	for _, s := range in {
		s.canon(r)
		sh := s.shape()
		vs := s.lanes()
		b := bk[sh]
		if b == nil {
			b = &bucket{st: s, vs: vs, n: s.N}
			bk[sh] = b
			order = append(order, sh)
			continue
		}
		if len(vs) != len(b.vs) {
			panic("lane layout")
		}
		if b.n+s.N > maxLanes || r.stopNow() {
			panic(abort{why: "too many abstract states"})
		}
		for i := range vs {
			b.vs[i] = vconcat(b.vs[i], b.n, vs[i], s.N)
		}
		b.n += s.N
	}
	for _, sh := range order {
		b := bk[sh]
		// deduplicate lanes
		local := map[uint64]bool{}
		if seen != nil {
			if seen[sh] == nil {
				seen[sh] = map[uint64]bool{}
			}
			local = seen[sh]
		}
		mask := make([]bool, b.n)
		keep := 0
		if len(local)+b.n > maxSeen || r.stopNow() {
			panic(abort{why: "too many abstract states"})
		}
		for i := 0; i < b.n; i++ {
			h := uint64(14695981039346656037)
			for _, v := range b.vs {
				x := uint64(v.at(i))
				h = (h ^ (x & 0xffffffff)) * 1099511628211
				h = (h ^ (x >> 32)) * 1099511628211
				h ^= h >> 29
			}
			if !local[h] {
				local[h] = true
				mask[i] = true
				keep++
			}
		}
		if keep < b.n {
			repeated += b.n - keep
		}
		if keep == 0 {
			continue
		}
		b.st.setLanes(b.vs, b.n)
		if keep < b.n {
			b.st.filter(mask)
		}
		out = append(out, b.st)
	}
	return
}

// ---- facts

// rel compares two level vectors lanewise; a mixed outcome splits the state.
func (r *Run) rel(s *State, a, b Vec, pred func(x, y int64) bool) bool {
	t, mask := vcmp(s.N, a, b, pred)
	if t == 2 {
		panic(splitMask(mask))
	}
	return t == 1
}

func splitMask(mask []bool) demand {
	inv := make([]bool, len(mask))
	for i, b := range mask {
		inv[i] = !b
	}
	return demand{[]func(*State) bool{
		func(s *State) bool { return s.filter(mask) },
		func(s *State) bool { return s.filter(inv) },
	}}
}

func eqI(x, y int64) bool { return x == y }
func leI(x, y int64) bool { return x <= y }
func ltI(x, y int64) bool { return x < y }

func (r *Run) eqL(s *State, a, b Vec) bool { return r.rel(s, a, b, eqI) }

// uniform splits the state until v has one value.
func (r *Run) uniform(s *State, v Vec) int64 {
	if x, ok := v.uni(); ok {
		return x
	}
	vals := map[int64][]bool{}
	var order []int64
	for i := 0; i < s.N; i++ {
		x := v.at(i)
		if vals[x] == nil {
			vals[x] = make([]bool, s.N)
			order = append(order, x)
		}
		vals[x][i] = true
	}
	var alts []func(*State) bool
	for _, x := range order {
		m := vals[x]
		alts = append(alts, func(s *State) bool { return s.filter(m) })
	}
	panic(demand{alts})
}

// fact finds or creates the fact record of the level-L node.
func (r *Run) fact(s *State, L Vec) *NodeFact {
	for _, f := range s.facts {
		if r.eqL(s, f.L, L) {
			return f
		}
	}
	f := &NodeFact{L: L}
	s.facts = append(s.facts, f)
	return f
}

// factRO is fact without creating a record.
func (r *Run) factRO(s *State, L Vec) *NodeFact {
	for _, f := range s.facts {
		if r.eqL(s, f.L, L) {
			return f
		}
	}
	return &NodeFact{L: L}
}

// onSpine reports whether the key's digit at level L is known to lead to a branch.
func (r *Run) onSpine(s *State, L Vec) bool { return r.rel(s, L, s.spine, ltI) }

func (r *Run) memP(s *State, L Vec) int8 {
	if r.onSpine(s, L) {
		return yes
	}
	return r.factRO(s, L).memP
}

func (r *Run) memT(s *State, L Vec) int8 {
	if r.onSpine(s, L) {
		return no
	}
	f := r.factRO(s, L)
	if f.memP == no {
		return no
	}
	return f.memT
}

func (r *Run) setMemP(s *State, L Vec, b bool) bool {
	f := r.fact(s, L)
	f.memP = tri(b)
	return r.crOf(s, L).size() > 0
}

func (r *Run) setMemT(s *State, L Vec, leaf bool) bool {
	f := r.fact(s, L)
	if leaf {
		f.memT = yes
		return r.crOf(s, L).size() > 0
	}
	if !vsame(L, s.spine) {
		f.memT = no
		return true
	}
	// one more node on the path
	mask := make([]bool, s.N)
	for i := range mask {
		mask[i] = s.spine.at(i) < r.lmax-1 // assumption: bounded depth
	}
	s.spine = vaddc(s.spine, 1)
	if f.cr == nil && f.key == 0 && len(f.parts) == 0 && f.surv == 0 && f.allLeaf == 0 && f.noLeaf == 0 {
		for i, g := range s.facts {
			if g == f {
				s.facts = append(s.facts[:i:i], s.facts[i+1:]...)
				break
			}
		}
	} else {
		f.memP, f.memT = unk, unk
	}
	all := true
	for _, b := range mask {
		all = all && b
	}
	if !all {
		return s.filter(mask)
	}
	return true
}

// needMemP makes membership of the key's digit at level L known.
func (r *Run) needMemP(s *State, L Vec) bool {
	switch r.memP(s, L) {
	case yes:
		return true
	case no:
		return false
	}
	panic(demand{[]func(*State) bool{
		func(s *State) bool { return r.setMemP(s, r.reL(s, L), true) },
		func(s *State) bool { return r.setMemP(s, r.reL(s, L), false) },
	}})
}

// reL: alternatives run on a clone with the same lanes, so L is still valid.
func (r *Run) reL(s *State, L Vec) Vec { return L }

func (r *Run) needMemT(s *State, L Vec) bool {
	switch r.memT(s, L) {
	case yes:
		return true
	case no:
		return false
	}
	r.needMemP(s, L)
	panic(demand{[]func(*State) bool{
		func(s *State) bool { return r.setMemT(s, L, true) },
		func(s *State) bool { return r.setMemT(s, L, false) },
	}})
}

// crOf returns the possible (count, rank) pairs of the level-L node.
func (r *Run) crOf(s *State, L Vec) *CR {
	isRoot := r.eqL(s, L, C(0))
	f := r.factRO(s, L)
	mp, mt := r.memP(s, L), r.memT(s, L)
	var out CR
	for c := 0; c <= 16; c++ {
		if c == 0 && !isRoot {
			continue // no empty branch below the root
		}
		if c < 2 && !isRoot && mt == yes {
			continue // no single entry in a branch below the root
		}
		for k := 0; k <= 15 && k <= c; k++ {
			if mp == yes && k >= c {
				continue
			}
			if mp == no && c == 16 {
				continue
			}
			if mp == unk && k == c && c == 16 {
				continue
			}
			if f.cr != nil && f.cr[c]&(1<<k) == 0 {
				continue
			}
			out[c] |= 1 << k
		}
	}
	return &out
}

func (r *Run) setCR(s *State, L Vec, keep func(c, k int64) bool) bool {
	cur := r.crOf(s, L)
	var n CR
	for c := range cur {
		for k := 0; k < 17; k++ {
			if cur[c]&(1<<k) != 0 && keep(int64(c), int64(k)) {
				n[c] |= 1 << k
			}
		}
	}
	r.fact(s, L).cr = &n
	return n.size() > 0
}

// concretise splits the state into one per possible (count, rank) of level L.
func (r *Run) concretise(s *State, L Vec) (int64, int64) {
	r.needMemP(s, L)
	cr := r.crOf(s, L)
	if c, k, ok := cr.single(); ok {
		return c, k
	}
	var alts []func(*State) bool
	for c := int64(0); c < 17; c++ {
		for k := int64(0); k < 17; k++ {
			if cr[c]&(1<<k) != 0 {
				c, k := c, k
				alts = append(alts, func(s *State) bool {
					return r.setCR(s, L, func(a, b int64) bool { return a == c && b == k })
				})
			}
		}
	}
	panic(demand{alts})
}

// splitCount makes the count of level L satisfy exactly one of the classes.
func (r *Run) splitCR(s *State, L Vec, pred func(c, k int64) bool) bool {
	cr := r.crOf(s, L)
	t, f := 0, 0
	for c := range cr {
		for k := 0; k < 17; k++ {
			if cr[c]&(1<<k) != 0 {
				if pred(int64(c), int64(k)) {
					t++
				} else {
					f++
				}
			}
		}
	}
	if f == 0 {
		return true
	}
	if t == 0 {
		return false
	}
	panic(demand{[]func(*State) bool{
		func(s *State) bool { return r.setCR(s, L, pred) },
		func(s *State) bool { return r.setCR(s, L, func(c, k int64) bool { return !pred(c, k) }) },
	}})
}

func (r *Run) digFact(s *State, L Vec) *DigFact {
	for _, d := range s.digs {
		if r.eqL(s, d.L, L) {
			return d
		}
	}
	d := &DigFact{L: L}
	s.digs = append(s.digs, d)
	return d
}

// digEq decides whether the key and the conflicting key share the level-L digit.
func (r *Run) digEq(s *State, L Vec) bool {
	d := r.digFact(s, L)
	switch d.eq {
	case yes:
		return true
	case no:
		return false
	}
	panic(demand{[]func(*State) bool{
		func(s *State) bool {
			r.digFact(s, L).eq = yes
			mask := make([]bool, s.N)
			all := true
			for i := range mask {
				mask[i] = L.at(i) < r.lmax-1 // assumption: unequal keys differ before the depth bound
				all = all && mask[i]
			}
			if !all {
				return s.filter(mask)
			}
			return true
		},
		func(s *State) bool { r.digFact(s, L).eq = no; return true },
	}})
}

func (r *Run) digLt(s *State, L Vec) bool {
	if r.digEq(s, L) {
		return false
	}
	d := r.digFact(s, L)
	switch d.lt {
	case yes:
		return true
	case no:
		return false
	}
	panic(demand{[]func(*State) bool{
		func(s *State) bool { r.digFact(s, L).lt = yes; return true },
		func(s *State) bool { r.digFact(s, L).lt = no; return true },
	}})
}

// keyEq decides whether the leaf found in level L holds an equal key.
func (r *Run) keyEq(s *State, L Vec) bool {
	f := r.factRO(s, L)
	switch f.key {
	case yes:
		return true
	case no:
		return false
	}
	panic(demand{[]func(*State) bool{
		func(s *State) bool { r.fact(s, L).key = yes; return true },
		func(s *State) bool { r.fact(s, L).key = no; return true },
	}})
}

func (r *Run) keyPart(s *State, L Vec, lo, w int) bool {
	f := r.factRO(s, L)
	switch f.key {
	case yes:
		return true
	}
	for _, p := range f.parts {
		if p.lo == lo && p.w == w {
			return p.eq
		}
	}
	set := func(s *State, eq bool) bool {
		f := r.fact(s, L)
		f.parts = append(f.parts, partFact{lo, w, eq})
		cover := uint64(0)
		for _, p := range f.parts {
			if !p.eq {
				f.key = no
				return true
			}
			for b := p.lo; b < p.lo+p.w; b++ {
				cover |= 1 << b
			}
		}
		if cover == ^uint64(0) {
			if f.key == no {
				return false
			}
			f.key = yes
		}
		return true
	}
	panic(demand{[]func(*State) bool{
		func(s *State) bool { return set(s, true) },
		func(s *State) bool { return set(s, false) },
	}})
}

// choose splits the state n ways on an otherwise unconstrained outcome.
func (r *Run) choose(s *State, n int) int {
	if s.cpos < len(s.choice) {
		k := s.choice[s.cpos]
		s.cpos++
		return k
	}
	var alts []func(*State) bool
	for i := 0; i < n; i++ {
		i := i
		alts = append(alts, func(s *State) bool { s.choice = append(s.choice, i); return true })
	}
	panic(demand{alts})
}

// condFact decides an uninterpreted condition consistently along the path.
func (r *Run) condFact(s *State, t Value) bool {
	for _, c := range s.conds {
		if valEq(c.t, t) {
			return c.b
		}
	}
	set := func(v bool) func(*State) bool {
		return func(s *State) bool {
			s.conds = append(s.conds, Cond{t, v})
			if foreignIndex(t) {
				s.note("bits of a bitmap selected by %s, which is not a hash digit", str(t))
			}
			return true
		}
	}
	panic(demand{[]func(*State) bool{set(true), set(false)}})
}

// foreignIndex: the term joins a bitmap with something other than bitmaps and
// constants. Which of its bits are tested is then not known, and the outcome
// not arbitrary.
func foreignIndex(t Value) bool {
	bm, other := false, false
	var walk func(v Value)
	walk = func(v Value) {
		switch v := v.(type) {
		case VBM:
			bm = true
		case VTerm:
			if len(v.args) == 0 {
				other = true
			}
			for _, a := range v.args {
				walk(a)
			}
		case VBV:
			for _, g := range v.s {
				if g.src != nil {
					walk(g.src)
				}
			}
		case VInt:
			for _, l := range v.l.t {
				if l.a.k == aTerm {
					walk(l.a.t)
				}
			}
		case VBool, VNil:
		default:
			other = true
		}
	}
	walk(t)
	return bm && other
}

func (s *State) note(f string, a ...any) {
	m := fmt.Sprintf(f, a...)
	for _, n := range s.notes {
		if n == m {
			return
		}
	}
	s.notes = append(s.notes, m)
}

// ---- function information: value numbering, liveness, loops

type bitset []uint64

func newBitset(n int) bitset    { return make(bitset, (n+63)/64) }
func (b bitset) has(i int) bool { return b[i/64]&(1<<(i%64)) != 0 }
func (b bitset) set(i int)      { b[i/64] |= 1 << (i % 64) }
func (b bitset) clr(i int)      { b[i/64] &^= 1 << (i % 64) }
func (b bitset) or(c bitset) bool {
	ch := false
	for i := range b {
		n := b[i] | c[i]
		if n != b[i] {
			ch = true
			b[i] = n
		}
	}
	return ch
}
func (b bitset) copy() bitset { return append(bitset(nil), b...) }

type Loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type FnInfo struct {
	fn      *ssa.Function
	idx     map[ssa.Value]int
	n       int
	liveOut []bitset
	loops   map[*ssa.BasicBlock]*Loop
	cache   map[[3]int]bitset
}

func newFnInfo(fn *ssa.Function) *FnInfo {
	fi := &FnInfo{fn: fn, idx: map[ssa.Value]int{}, loops: map[*ssa.BasicBlock]*Loop{}, cache: map[[3]int]bitset{}}
	add := func(v ssa.Value) { fi.idx[v] = fi.n; fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	n := len(fn.Blocks)
	fi.liveOut = make([]bitset, n)
	liveIn := make([]bitset, n)
	for i := range fi.liveOut {
		fi.liveOut[i] = newBitset(fi.n)
		liveIn[i] = newBitset(fi.n)
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			for _, sc := range b.Succs {
				if fi.liveOut[i].or(liveIn[sc.Index]) {
					ch = true
				}
				for pi, p := range sc.Preds {
					if p != b {
						continue
					}
					for _, in := range sc.Instrs {
						phi, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						if j, ok := fi.idx[phi.Edges[pi]]; ok && !fi.liveOut[i].has(j) {
							fi.liveOut[i].set(j)
							ch = true
						}
					}
				}
			}
			l := fi.back(b, 0, fi.liveOut[i].copy())
			if liveIn[i].or(l) {
				ch = true
			}
		}
	}
	// natural loops
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := fi.loops[h]
			if l == nil {
				l = &Loop{h, map[*ssa.BasicBlock]bool{h: true}}
				fi.loops[h] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return fi
}

// back computes liveness before instruction pc, going backwards from the block's end.
func (fi *FnInfo) back(b *ssa.BasicBlock, pc int, l bitset) bitset {
	for i := len(b.Instrs) - 1; i >= pc; i-- {
		in := b.Instrs[i]
		if v, ok := in.(ssa.Value); ok {
			l.clr(fi.idx[v])
		}
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		for _, op := range in.Operands(nil) {
			if *op != nil {
				if j, ok := fi.idx[*op]; ok {
					l.set(j)
				}
			}
		}
	}
	return l
}

// liveAt returns the values live at (b, pc); if beforePhis, those live on the
// edge from prev; if inCall, those live after the call at pc.
func (fi *FnInfo) liveAt(b *ssa.BasicBlock, pc int, beforePhis bool, prev *ssa.BasicBlock, inCall bool) bitset {
	if beforePhis {
		return fi.liveOut[prev.Index]
	}
	k := [3]int{b.Index, pc, 0}
	if inCall {
		k[2] = 1
	}
	if l, ok := fi.cache[k]; ok {
		return l
	}
	p := pc
	if inCall {
		p++
	}
	l := fi.back(b, p, fi.liveOut[b.Index].copy())
	if inCall {
		if _, ok := b.Instrs[pc].(*ssa.RunDefers); ok {
			l = fi.back(b, pc, fi.liveOut[b.Index].copy())
		}
	}
	fi.cache[k] = l
	return l
}

// ---- types

func typeKey(t types.Type, sub map[*types.TypeParam]string) string {
	t = types.Unalias(t)
	switch t := t.(type) {
	case *types.TypeParam:
		if s, ok := sub[t]; ok {
			return s
		}
		return "?" + t.Obj().Name()
	case *types.Named:
		s := t.Obj().Name()
		if p := t.Obj().Pkg(); p != nil {
			s = p.Path() + "." + s
		}
		if a := t.TypeArgs(); a != nil {
			var p []string
			for i := 0; i < a.Len(); i++ {
				p = append(p, typeKey(a.At(i), sub))
			}
			s += "[" + strings.Join(p, ",") + "]"
		}
		return s
	case *types.Pointer:
		return "*" + typeKey(t.Elem(), sub)
	case *types.Slice:
		return "[]" + typeKey(t.Elem(), sub)
	case *types.Array:
		return fmt.Sprintf("[%d]%s", t.Len(), typeKey(t.Elem(), sub))
	case *types.Struct:
		var p []string
		for i := 0; i < t.NumFields(); i++ {
			p = append(p, t.Field(i).Name()+" "+typeKey(t.Field(i).Type(), sub))
		}
		return "struct{" + strings.Join(p, ";") + "}"
	case *types.Tuple:
		var p []string
		for i := 0; i < t.Len(); i++ {
			p = append(p, typeKey(t.At(i).Type(), sub))
		}
		return "(" + strings.Join(p, ",") + ")"
	case *types.Signature:
		return "func" + typeKey(t.Params(), sub) + typeKey(t.Results(), sub)
	case *types.Map:
		return "map[" + typeKey(t.Key(), sub) + "]" + typeKey(t.Elem(), sub)
	}
	if b, ok := t.(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8:
			return "uint8"
		case types.Int32:
			return "int32"
		}
	}
	return types.TypeString(t, nil)
}
