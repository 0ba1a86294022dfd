package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- segmented arrays

func slotsOf(v Value) []Vec {
	var vs []Vec
	m := &mapper{vec: func(x Vec) Vec { vs = append(vs, x); return x }}
	m.val(v)
	return vs
}

func shapeOf(v Value) string {
	var e enc
	e.val(v)
	return e.sb.String()
}

// elemAt is element e of the segment.
func (g Seg) elemAt(e Vec) Value {
	if len(g.rel) == 0 {
		return g.v
	}
	d := vsub(e, g.from)
	i := 0
	m := &mapper{vec: func(x Vec) Vec {
		k := i
		i++
		if g.rel[k] {
			return vadd(x, d)
		}
		return x
	}}
	return m.val(g.v)
}

func joinSegs(a, b Seg) (Seg, bool) {
	if !vsame(a.to, b.from) || shapeOf(a.v) != shapeOf(b.v) {
		return a, false
	}
	sa, sb := slotsOf(a.v), slotsOf(b.v)
	la := vsub(a.to, a.from)
	rel := make([]bool, len(sa))
	for i := range sa {
		eqAbs := vsame(sa[i], sb[i])
		eqRel := vsame(vadd(sa[i], la), sb[i])
		switch {
		case a.rel != nil && !a.rel[i]:
			if !eqAbs {
				return a, false
			}
		case a.rel != nil:
			if !eqRel {
				return a, false
			}
			rel[i] = true
		case eqAbs:
		case eqRel:
			rel[i] = true
		default:
			return a, false
		}
		if b.rel != nil && b.rel[i] != rel[i] {
			return a, false
		}
	}
	return Seg{a.from, b.to, a.v, rel}, true
}

func (v VSegs) norm() VSegs {
	var out []Seg
	for _, g := range v.s {
		if vsame(g.from, g.to) {
			continue
		}
		if g.rel == nil && !vsame(vsub(g.to, g.from), C(1)) {
			g.rel = make([]bool, len(slotsOf(g.v)))
		}
		if g.rel != nil && vsame(vsub(g.to, g.from), C(1)) {
			g.rel = nil
		}
		if n := len(out); n > 0 {
			if j, ok := joinSegs(out[n-1], g); ok {
				out[n-1] = j
				continue
			}
		}
		out = append(out, g)
	}
	return VSegs{out}
}

func (r *Run) segRead(s *State, v VSegs, e Vec) Value {
	for _, g := range v.s {
		if r.rel(s, g.from, e, leI) && r.rel(s, e, g.to, ltI) {
			return g.elemAt(e)
		}
	}
	panic(goPanic{"array index out of range"})
}

func (r *Run) segWrite(s *State, v VSegs, e Vec, x Value) VSegs {
	var out []Seg
	done := false
	for _, g := range v.s {
		if !(r.rel(s, g.from, e, leI) && r.rel(s, e, g.to, ltI)) {
			out = append(out, g)
			continue
		}
		done = true
		e1 := vaddc(e, 1)
		if r.rel(s, g.from, e, ltI) {
			out = append(out, Seg{g.from, e, g.v, g.rel})
		}
		out = append(out, Seg{e, e1, x, nil})
		if r.rel(s, e1, g.to, ltI) {
			out = append(out, Seg{e1, g.to, g.elemAt(e1), g.rel})
		}
	}
	if !done {
		// growing at the end
		n := len(v.s)
		if n == 0 || r.eqL(s, v.s[n-1].to, e) {
			out = append(out, Seg{e, vaddc(e, 1), x, nil})
		} else {
			panic(goPanic{"array index out of range"})
		}
	}
	return VSegs{out}.norm()
}

// segPrefix is the part of v below n.
func (r *Run) segPrefix(s *State, v VSegs, n Vec) VSegs {
	var out []Seg
	for _, g := range v.s {
		if r.rel(s, g.to, n, leI) {
			out = append(out, g)
		} else if r.rel(s, g.from, n, ltI) {
			out = append(out, Seg{g.from, n, g.v, g.rel})
		}
	}
	return VSegs{out}.norm()
}

// ---- addresses

func (r *Run) fieldAddr(s *State, v Value, i int) Value {
	switch p := v.(type) {
	case VNil:
		panic(goPanic{"nil pointer dereference"})
	case VPtr:
		lay := r.a.lay
		if p.ref.k == RRoot && len(p.path) == 0 {
			switch i {
			case lay.fLink:
				if r.subRun {
					return VTop{"the root level"}
				}
				return VPtr{ref: Ref{k: RCell, L: C(0)}}
			case lay.fItems:
				if r.subRun {
					return VTop{"the root level"}
				}
				return VPtr{ref: Ref{k: RNode, L: C(0)}, path: []Step{{-1, linK(0)}}}
			}
		}
		p.path = append(p.path[:len(p.path):len(p.path)], Step{f: i})
		if o := r.objOf(s, p.ref); o != nil {
			if t := typeAt(o.T, p.path); t != nil {
				return r.normPtr(p, t)
			}
		}
		return p
	}
	return VTop{"field of " + str(v)}
}

func (r *Run) objOf(s *State, ref Ref) *Obj {
	if ref.k == RFresh {
		return s.objs[ref.id]
	}
	return nil
}

// typeAt follows a path through a type.
func typeAt(t types.Type, path []Step) types.Type {
	for _, st := range path {
		if t == nil {
			return nil
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if st.f < 0 || st.f >= u.NumFields() {
				return nil
			}
			t = u.Field(st.f).Type()
		case *types.Array:
			if st.f >= 0 {
				return nil
			}
			t = u.Elem()
		default:
			return nil
		}
	}
	return t
}

func (r *Run) indexAddr(s *State, x, idx Value, xt types.Type, pos token.Pos) Value {
	x = r.simp(s, x)
	switch v := idx.(type) {
	case VDig, VHash:
		_ = v
		return VTop{"index by hash bits"}
	}
	iv, ok := r.simp(s, idx).(VInt)
	if !ok {
		return VTop{"index " + str(idx)}
	}
	switch p := x.(type) {
	case VNil:
		if _, isp := xt.Underlying().(*types.Pointer); isp {
			panic(goPanic{"nil pointer dereference"})
		}
		panic(goPanic{"index out of range"})
	case VPtr:
		arr, isArr := xt.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !isArr {
			return VTop{"index"}
		}
		if r.less(s, iv.l, linK(0)) || !r.less(s, iv.l, linK(arr.Len())) {
			panic(goPanic{"index out of range"})
		}
		if n := len(p.path); r.a.isLink(arr.Elem()) && n > 0 && p.path[n-1].f < 0 {
			path := append([]Step(nil), p.path...)
			path[n-1].idx = linAdd(path[n-1].idx, iv.l, 1)
			p.path = path
			return p
		}
		p.path = append(p.path[:len(p.path):len(p.path)], Step{-1, iv.l})
		return p
	case VSlice:
		if r.less(s, iv.l, linK(0)) || !r.less(s, iv.l, p.len) {
			panic(goPanic{"index out of range"})
		}
		b := p.base
		b.path = append(b.path[:len(b.path):len(b.path)], Step{-1, linAdd(p.off, iv.l, 1)})
		return b
	}
	return VTop{"index of " + str(x)}
}

func (r *Run) index(s *State, x, idx Value) Value {
	iv, ok := r.simp(s, idx).(VInt)
	if !ok {
		return VTop{"index"}
	}
	v, ok := iv.l.vec()
	if !ok {
		return VTop{"index"}
	}
	switch a := x.(type) {
	case VArr:
		i := r.uniform(s, v)
		if i < 0 || i >= int64(len(a.e)) {
			panic(goPanic{"index out of range"})
		}
		return a.e[i]
	case VSegs:
		return r.segRead(s, a, v)
	case VTerm:
		return term("index", a, vvec(v))
	}
	return VTop{"index"}
}

func (r *Run) field(v Value, i int) Value {
	switch v := v.(type) {
	case VStruct:
		return v.f[i]
	case VTerm:
		return term(fmt.Sprintf("field:%d", i), v)
	}
	return VTop{"field of " + str(v)}
}

func (r *Run) slice(s *State, in *ssa.Slice) Value {
	x := r.simp(s, r.operand(s, in.X))
	get := func(v ssa.Value) *Lin {
		if v == nil {
			return nil
		}
		if iv, ok := r.simp(s, r.operand(s, v)).(VInt); ok {
			return &iv.l
		}
		return &Lin{t: []LT{{Atom{k: aTerm, t: term("unknown")}, 1}}}
	}
	lo, hi, mx := get(in.Low), get(in.High), get(in.Max)
	zero := linK(0)
	if lo == nil {
		lo = &zero
	}
	switch p := x.(type) {
	case VPtr:
		arr, ok := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			return VTop{"slice"}
		}
		n := linK(arr.Len())
		off := *lo
		base := p
		if k := len(p.path); r.a.isLink(arr.Elem()) && k > 0 && p.path[k-1].f < 0 {
			off = linAdd(off, p.path[k-1].idx, 1)
			base.path = p.path[: k-1 : k-1]
		}
		if hi == nil {
			hi = &n
		}
		capL := n
		if mx != nil {
			capL = *mx
		}
		if r.less(s, *hi, *lo) || r.less(s, capL, *hi) || r.less(s, n, capL) || r.less(s, *lo, linK(0)) {
			panic(goPanic{"slice bounds out of range"})
		}
		return VSlice{base, off, linAdd(*hi, *lo, -1), linAdd(capL, *lo, -1)}
	case VSlice:
		if hi == nil {
			hi = &p.len
		}
		capL := p.cap
		if mx != nil {
			capL = *mx
		}
		if r.less(s, *hi, *lo) || r.less(s, capL, *hi) || r.less(s, p.cap, capL) || r.less(s, *lo, linK(0)) {
			panic(goPanic{"slice bounds out of range"})
		}
		return VSlice{p.base, linAdd(p.off, *lo, 1), linAdd(*hi, *lo, -1), linAdd(capL, *lo, -1)}
	case VNil:
		return VNil{}
	case VTerm:
		if in.Low == nil && in.High == nil && in.Max == nil {
			return p
		}
		if v, ok := lo.vec(); ok && v.is(0) && hi == nil && mx == nil {
			return p
		}
		h := Value(VNil{})
		if hi != nil {
			h = VInt{*hi}
			// key[:len(key)]
			if valEq(h, r.lenOf(s, p)) && len(lo.t) == 0 && lo.c.is(0) {
				return p
			}
		}
		return term("slice", p, VInt{*lo}, h)
	}
	return VTop{"slice of " + str(x)}
}

func (r *Run) makeSlice(s *State, in *ssa.MakeSlice) Value {
	n, ok1 := r.simp(s, r.operand(s, in.Len)).(VInt)
	c, ok2 := r.simp(s, r.operand(s, in.Cap)).(VInt)
	if !ok1 || !ok2 {
		return VTop{"make slice"}
	}
	nv, ok1 := r.needVec(s, n.l)
	cv, ok2 := r.needVec(s, c.l)
	if !ok1 || !ok2 {
		return VTop{"make slice of unknown length"}
	}
	et := in.Type().Underlying().(*types.Slice).Elem()
	f := s.top()
	var val Value
	if k, ok := cv.uni(); ok && k <= 16 && !r.a.isPathElem(et) {
		a := VArr{}
		for i := int64(0); i < k; i++ {
			a.e = append(a.e, r.zero(et, f.tsub))
		}
		val = a
	} else {
		val = VSegs{[]Seg{{C(0), cv, r.zero(et, f.tsub), nil}}}.norm()
	}
	s.objs = append(s.objs, &Obj{val: val, typ: "[]" + typeKey(et, f.tsub), pos: in.Pos()})
	return VSlice{VPtr{ref: Ref{k: RFresh, id: len(s.objs) - 1}}, linK(0), linC(nv), linC(cv)}
}

// ---- memory

func (r *Run) entry(s *State, ref Ref) (int, bool) {
	for i, h := range s.heap {
		if h.ref.k != ref.k {
			continue
		}
		switch ref.k {
		case RRoot:
			return i, true
		case RCell, RNode, RKV:
			if r.eqL(s, h.ref.L, ref.L) {
				return i, true
			}
		case RKVElem:
			if r.eqL(s, h.ref.L, ref.L) && r.eqL(s, h.ref.i, ref.i) {
				return i, true
			}
		}
	}
	return 0, false
}

func (r *Run) initRoot() Value {
	lay := r.a.lay
	v := VStruct{}
	for i := 0; i < lay.root.NumFields(); i++ {
		var x Value
		switch i {
		case lay.fSeed:
			x = term("seed")
		case lay.fLen:
			x = VInt{linA(Atom{k: aTerm, t: term("len0")})}
		case lay.fDep:
			x = VInt{linA(Atom{k: aTerm, t: term("dep0")})}
		case lay.fLink, lay.fItems:
			x = term("see cell/node")
		case lay.fPath:
			x = r.zero(lay.root.Field(i).Type(), nil)
		default:
			x = term(fmt.Sprintf("rootfield:%d", i))
		}
		v.f = append(v.f, x)
	}
	return v
}

func (r *Run) linkVal(ptr, p, t Value) Value {
	lay := r.a.lay
	f := make([]Value, lay.link.NumFields())
	for i := range f {
		f[i] = term(fmt.Sprintf("linkfield:%d", i))
	}
	f[lay.lPtr], f[lay.lP], f[lay.lT] = ptr, p, t
	return VStruct{f}
}

func nodePtr(L Vec) VPtr {
	return VPtr{ref: Ref{k: RNode, L: L}, path: []Step{{-1, linK(0)}}}
}

func keyBV(src Value, lo, w int) Value { return VBV{[]BVSeg{{src, lo, w}}} }

func skey(L Vec) Value { return term("skey", vvec(L)) }

// initCell is the initial header of the item on the path at the given level.
func (r *Run) initCell(s *State, L Vec) Value {
	if r.rel(s, L, s.spine, leI) {
		if r.scan {
			return r.linkVal(nodePtr(L), vvec(s.sp), VBM{'T', L, -1, 0})
		}
		return r.linkVal(nodePtr(L), VBM{'P', L, -1, 0}, VBM{'T', L, -1, 0})
	}
	if !r.eqL(s, L, vaddc(s.spine, 1)) {
		panic(abort{why: "item beyond the path"})
	}
	N := s.spine
	if !r.needMemP(s, N) {
		return VTop{"item at an empty position"}
	}
	if !r.needMemT(s, N) {
		return r.initCell(s, L) // now a branch
	}
	if r.c.inline {
		var p Value = VPtr{ref: Ref{k: RKV, L: N}}
		if r.c.noEntry {
			p = VNil{}
		}
		return r.linkVal(p, keyBV(skey(N), 0, 32), keyBV(skey(N), 32, 32))
	}
	return r.linkVal(VPtr{ref: Ref{k: RKV, L: N}}, term("junk", vvec(L)), vint(0))
}

// kvInit is the initial content of an entry.
func (r *Run) kvInit(s *State, key Value, val Value, T types.Type, sub map[*types.TypeParam]string) Value {
	if typeKey(T, sub) == r.c.valType {
		return val
	}
	st, ok := T.Underlying().(*types.Struct)
	if !ok {
		return VTop{"entry is not a struct"}
	}
	v := VStruct{}
	for i := 0; i < st.NumFields(); i++ {
		fk := typeKey(st.Field(i).Type(), sub)
		switch {
		case !r.c.inline && i == r.keyField(st, sub):
			v.f = append(v.f, key)
		case fk == r.c.valType:
			v.f = append(v.f, val)
		default:
			v.f = append(v.f, term(fmt.Sprintf("kvfield:%d", i), val))
		}
	}
	return v
}

func (r *Run) keyField(st *types.Struct, sub map[*types.TypeParam]string) int {
	k := -1
	for i := 0; i < st.NumFields(); i++ {
		if typeKey(st.Field(i).Type(), sub) == r.c.keyType {
			if k >= 0 && st.Field(i).Name() != "k" {
				continue
			}
			k = i
		}
	}
	return k
}

func (r *Run) content(s *State, ref Ref) Value {
	if ref.k == RFresh {
		return s.objs[ref.id].val
	}
	if i, ok := r.entry(s, ref); ok {
		return s.heap[i].val
	}
	switch ref.k {
	case RRoot:
		return r.initRoot()
	case RCell:
		return r.initCell(s, ref.L)
	case RNode:
		return VNode{}
	case RKV, RKVElem:
		kt, ok := r.c.kvTypes[s.kvType]
		if !ok {
			return VTop{"entry of unknown type"}
		}
		if ref.k == RKV {
			return r.kvInit(s, skey(ref.L), term("val", vvec(ref.L)), kt.T, kt.sub)
		}
		return r.kvInit(s, term("skeyE", vvec(ref.i)), term("valE", vvec(ref.i)), kt.T, kt.sub)
	}
	return VTop{"global variable"}
}

func (r *Run) setContent(s *State, ref Ref, v Value, pos token.Pos) {
	if ref.k == RFresh {
		o := *s.objs[ref.id]
		o.val = v
		s.objs[ref.id] = &o
		return
	}
	r.sharedWrite(s, ref, pos)
	if i, ok := r.entry(s, ref); ok {
		s.heap[i].val = v
		return
	}
	s.heap = append(s.heap, HEntry{ref, v})
}

func (r *Run) sharedWrite(s *State, ref Ref, pos token.Pos) {
	if !s.shared {
		s.shared, s.sharedPos = true, pos
	}
	r.events["shared-store"]++
	if r.readers {
		r.fail(s, pos, "reader-writes", "%s writes %s, memory shared through the container", r.method, str(VPtr{ref: ref}))
	}
}

// slot resolves an index into the item array of the level-L node: either the
// key's own item, or an explicit slot number.
func (r *Run) slot(s *State, L Vec, idx Lin, pos token.Pos, write bool) (cell bool, i int64, iv Vec) {
	idx = r.simpLin(s, idx)
	r.did("out-of-bounds")
	if r.scan {
		v, ok := idx.vec()
		if !ok {
			panic(abort{why: "symbolic index in iteration"})
		}
		n := popcount(s.sp)
		if t, mask := vcmp(s.N, v, n, func(x, y int64) bool { return x >= 0 && x < y }); t != 1 {
			if t == 2 {
				panic(splitMask(mask))
			}
			r.fail(s, pos, "out-of-bounds", "access to slot %s of a level holding %s items", str(vvec(v)), str(vvec(n)))
			panic(goPanic{"access outside the level's items"})
		}
		return false, 0, v
	}
	if len(idx.t) == 1 && idx.t[0].k == 1 && idx.c.is(0) && idx.t[0].a.k == aRank && r.eqL(s, idx.t[0].a.L, L) {
		if r.needMemP(s, L) {
			return true, 0, C(0)
		}
	}
	for _, t := range idx.t {
		if t.a.k == aTerm {
			r.fail(s, pos, "out-of-bounds", "item index %s is not bounded by the level's item count", str(VInt{idx}))
			panic(goPanic{"unbounded index"})
		}
		r.concretise(s, t.a.L)
	}
	c, k := r.concretise(s, L)
	v, ok := r.simpLin(s, idx).vec()
	if !ok {
		panic(abort{why: "index"})
	}
	i = r.uniform(s, v)
	capN := int64(16)
	if !r.eqL(s, L, C(0)) {
		capN = (c + 3) / 4 * 4
	}
	if i < 0 || i >= capN {
		r.fail(s, pos, "out-of-bounds", "access to slot %d of an array of %d slots (level holds %d items)", i, capN, c)
		panic(goPanic{"access outside the level's array"})
	}
	if r.memP(s, L) == yes && i == k {
		return true, 0, C(0)
	}
	return false, i, C(i)
}

func (r *Run) initSlot(s *State, L Vec, i int64, iv Vec) Value {
	if r.scan {
		return term("elem", vvec(L), vvec(iv))
	}
	c, _ := r.concretise(s, L)
	if i < c {
		return term("elem", vvec(L), vint(i))
	}
	return r.linkVal(VNil{}, vint(0), vint(0))
}

func (r *Run) slotVal(s *State, L Vec, i int64, iv Vec) Value {
	if !r.scan {
		n, ok := r.content(s, Ref{k: RNode, L: L}).(VNode)
		if ok {
			for _, e := range n.e {
				if e.i == i {
					return e.v
				}
			}
		}
	}
	return r.initSlot(s, L, i, iv)
}

func (r *Run) load(s *State, v Value, T types.Type, pos token.Pos) Value {
	p, ok := v.(VPtr)
	if !ok {
		if _, isNil := v.(VNil); isNil {
			panic(goPanic{"nil pointer dereference"})
		}
		return VTop{"load through " + str(v)}
	}
	path := p.path
	if arr, isArr := T.Underlying().(*types.Array); isArr && r.a.isLink(arr.Elem()) && len(path) > 0 && path[len(path)-1].f < 0 {
		if n := path[len(path)-1].idx; len(n.t) == 0 && n.c.is(0) && p.ref.k == RFresh {
			path = path[:len(path)-1]
		} else {
			return VTop{"load of a whole item array"}
		}
	}
	switch p.ref.k {
	case RNode:
		if len(path) == 0 || path[0].f >= 0 {
			return VTop{"item array"}
		}
		cell, i, iv := r.slot(s, p.ref.L, path[0].idx, pos, false)
		if cell {
			return r.walk(s, r.content(s, Ref{k: RCell, L: vaddc(p.ref.L, 1)}), path[1:], pos)
		}
		return r.walk(s, r.slotVal(s, p.ref.L, i, iv), path[1:], pos)
	case RGlobal:
		return r.a.globalLoad(r, s, p, pos)
	case RRoot:
		if len(path) == 0 {
			return VTop{"copy of the root"}
		}
	}
	return r.walk(s, r.content(s, p.ref), path, pos)
}

func (r *Run) walk(s *State, v Value, path []Step, pos token.Pos) Value {
	for _, st := range path {
		switch x := v.(type) {
		case VStruct:
			if st.f < 0 {
				return VTop{"index into struct"}
			}
			v = x.f[st.f]
		case VArr:
			i := r.constIdx(s, st.idx)
			if i < 0 || i >= int64(len(x.e)) {
				r.fail(s, pos, "out-of-bounds", "access to slot %d of an array of %d slots", i, len(x.e))
				panic(goPanic{"access outside the array"})
			}
			v = x.e[i]
		case VSegs:
			e, ok := r.needVec(s, st.idx)
			if !ok {
				return VTop{"index"}
			}
			v = r.segRead(s, x, e)
		case VTerm:
			if st.f < 0 {
				e, ok := r.needVec(s, st.idx)
				if !ok {
					return VTop{"index"}
				}
				v = term("index", x, vvec(e))
				continue
			}
			if x.op == "elem" && r.scan {
				v = r.elemField(s, x, st.f, pos)
				continue
			}
			v = term(fmt.Sprintf("field:%d", st.f), x)
		default:
			return VTop{"part of " + str(v)}
		}
	}
	return v
}

func (r *Run) constIdx(s *State, l Lin) int64 {
	v, ok := r.needVec(s, l)
	if !ok {
		panic(goPanic{"unbounded index"})
	}
	return r.uniform(s, v)
}

// needVec makes the value of l known on every lane, if l is bounded.
func (r *Run) needVec(s *State, l Lin) (Vec, bool) {
	l = r.simpLin(s, l)
	for _, t := range l.t {
		if t.a.k == aTerm {
			return Vec{}, false
		}
		r.concretise(s, t.a.L)
	}
	return r.simpLin(s, l).vec()
}

func (r *Run) store(s *State, a, v Value, T types.Type, pos token.Pos) {
	if r.readers {
		r.did("reader-writes")
	}
	p, ok := a.(VPtr)
	if !ok {
		if _, isNil := a.(VNil); isNil {
			panic(goPanic{"nil pointer dereference"})
		}
		s.note("store through %s at %s", str(a), r.a.pos(pos))
		r.fail(s, pos, "undecided", "store through %s", str(a))
		return
	}
	path := p.path
	if arr, isArr := T.Underlying().(*types.Array); isArr && r.a.isLink(arr.Elem()) && len(path) > 0 && path[len(path)-1].f < 0 {
		if n := path[len(path)-1].idx; len(n.t) == 0 && n.c.is(0) && p.ref.k == RFresh {
			path = path[:len(path)-1]
		} else {
			s.note("store of a whole item array at %s", r.a.pos(pos))
			r.fail(s, pos, "undecided", "store of a whole item array")
			return
		}
	}
	v = r.simp(s, v)
	switch p.ref.k {
	case RNode:
		if len(path) == 0 {
			r.fail(s, pos, "undecided", "store to an item array")
			return
		}
		cell, i, iv := r.slot(s, p.ref.L, path[0].idx, pos, true)
		if cell {
			ref := Ref{k: RCell, L: vaddc(p.ref.L, 1)}
			nv := v
			if len(path) > 1 {
				nv = r.update(s, r.content(s, ref), path[1:], v, pos)
			}
			r.setContent(s, ref, nv, pos)
			return
		}
		if r.scan {
			r.sharedWrite(s, p.ref, pos)
			return
		}
		nv := v
		if len(path) > 1 {
			nv = r.update(s, r.slotVal(s, p.ref.L, i, iv), path[1:], v, pos)
		}
		ref := Ref{k: RNode, L: p.ref.L}
		n, _ := r.content(s, ref).(VNode)
		out := VNode{}
		put := false
		for _, e := range n.e {
			if e.i == i {
				out.e = append(out.e, NElem{i, nv})
				put = true
			} else {
				if !put && e.i > i {
					out.e = append(out.e, NElem{i, nv})
					put = true
				}
				out.e = append(out.e, e)
			}
		}
		if !put {
			out.e = append(out.e, NElem{i, nv})
		}
		r.setContent(s, ref, out, pos)
		return
	case RGlobal:
		r.a.globalStore(r, p, pos)
		return
	case RRoot:
		if len(path) == 0 {
			r.fail(s, pos, "undecided", "store of a whole root")
			return
		}
	}
	if len(path) == 0 {
		if p.ref.k == RFresh {
			if t, isT := v.(VTop); isT {
				_ = t
			}
		}
		r.setContent(s, p.ref, v, pos)
		return
	}
	r.setContent(s, p.ref, r.update(s, r.content(s, p.ref), path, v, pos), pos)
}

func (r *Run) update(s *State, old Value, path []Step, v Value, pos token.Pos) Value {
	if len(path) == 0 {
		return v
	}
	st := path[0]
	switch x := old.(type) {
	case VStruct:
		if st.f < 0 {
			break
		}
		n := VStruct{append([]Value(nil), x.f...)}
		n.f[st.f] = r.update(s, x.f[st.f], path[1:], v, pos)
		return n
	case VArr:
		i := r.constIdx(s, st.idx)
		if i < 0 || i >= int64(len(x.e)) {
			r.fail(s, pos, "out-of-bounds", "write to slot %d of an array of %d slots", i, len(x.e))
			panic(goPanic{"write outside the array"})
		}
		n := VArr{append([]Value(nil), x.e...)}
		n.e[i] = r.update(s, x.e[i], path[1:], v, pos)
		return n
	case VSegs:
		e, ok := r.needVec(s, st.idx)
		if !ok {
			break
		}
		nv := v
		if len(path) > 1 {
			nv = r.update(s, r.segRead(s, x, e), path[1:], v, pos)
		}
		return r.segWrite(s, x, e, nv)
	}
	if t, ok := old.(VTerm); ok && st.f >= 0 && t.op == "elem" {
		// partial write to an item: keep the other fields symbolic
		n := VStruct{make([]Value, r.a.lay.link.NumFields())}
		for i := range n.f {
			n.f[i] = term(fmt.Sprintf("field:%d", i), t)
		}
		n.f[st.f] = r.update(s, n.f[st.f], path[1:], v, pos)
		return n
	}
	s.note("write to a part of %s at %s", str(old), r.a.pos(pos))
	return VTop{"written part of " + str(old)}
}

// castPtr checks that memory is viewed with the type it was created with.
func (r *Run) castPtr(s *State, v Value, elem types.Type, sub map[*types.TypeParam]string, pos token.Pos) Value {
	p, ok := v.(VPtr)
	if !ok {
		return v
	}
	r.events["cast"]++
	r.did("type-confusion")
	key := typeKey(elem, sub)
	isItems := r.a.isLink(elem)
	if arr, isArr := elem.Underlying().(*types.Array); isArr && r.a.isLink(arr.Elem()) {
		isItems = true
	}
	bad := func(what string) Value {
		r.fail(s, pos, "type-confusion", "%s is viewed as %s", what, key)
		return VTop{"wrongly typed memory"}
	}
	switch p.ref.k {
	case RCell, RNode:
		if len(p.path) > 0 && p.path[len(p.path)-1].f >= 0 {
			return p // pointer to a field
		}
		if !isItems {
			return bad("an item (level array)")
		}
		return p
	case RKV, RKVElem:
		if len(p.path) > 0 {
			return p
		}
		if isItems {
			return bad("an entry")
		}
		if s.kvType == "" {
			s.kvType = key
			r.c.kvTypes[key] = kvType{elem, sub}
			r.c.noteKV(key, r.method)
		} else if s.kvType != key {
			if kt, ok := r.c.kvTypes[s.kvType]; ok {
				if st, ok := kt.T.Underlying().(*types.Struct); ok && st.NumFields() > 0 && typeKey(st.Field(0).Type(), kt.sub) == key {
					p.path = []Step{{f: 0}}
					return p
				}
			}
			return bad("an entry of type " + s.kvType)
		}
		return p
	case RFresh:
		o := s.objs[p.ref.id]
		if len(p.path) == 0 {
			if o.typ == key {
				return p
			}
			if o.T != nil {
				if st, ok := o.T.Underlying().(*types.Struct); ok && st.NumFields() > 0 && typeKey(st.Field(0).Type(), o.tsub) == key {
					p.path = []Step{{f: 0}}
					return p
				}
			}
			return bad("memory of type " + o.typ)
		}
		last := p.path[len(p.path)-1]
		if last.f < 0 && o.T != nil {
			if arr, ok := o.T.Underlying().(*types.Array); ok && r.a.isLink(arr.Elem()) {
				if !isItems {
					return bad("an item array")
				}
			}
		}
		return p
	case RRoot:
		if len(p.path) == 0 && !types.Identical(elem, r.a.lay.rootT) {
			if r.a.isLink(elem) && r.a.lay.fLink == 0 {
				if r.subRun {
					return VTop{"the root level"}
				}
				return VPtr{ref: Ref{k: RCell, L: C(0)}}
			}
			return bad("the root")
		}
	}
	return p
}

// ptrAdd is pointer arithmetic in bytes.
func (r *Run) ptrAdd(s *State, p VPtr, off Lin) Value {
	off = r.simpLin(s, off)
	if len(off.t) == 0 && off.c.is(0) {
		return p
	}
	if p.ref.k == RCell && len(p.path) == 0 && !r.eqL(s, p.ref.L, C(0)) {
		L := vaddc(p.ref.L, -1)
		p = VPtr{ref: Ref{k: RNode, L: L}, path: []Step{{-1, linA(Atom{k: aRank, L: L})}}}
	}
	sz := r.a.lay.linkSize
	n := len(p.path)
	if n > 0 && p.path[n-1].f < 0 && sz > 0 {
		rem := int64(-1)
		for i := 0; i < s.N; i++ {
			x := ((off.c.at(i) % sz) + sz) % sz
			if i == 0 {
				rem = x
			} else if x != rem {
				return VTop{"pointer arithmetic"}
			}
			if off.c.v == nil {
				break
			}
		}
		d := Lin{c: vmap1(off.c, func(x int64) int64 { return (x - rem) / sz })}
		for _, t := range off.t {
			if t.k%sz != 0 {
				// not a multiple of the item size: only exact if the atoms become known
				if t.a.k != aTerm {
					r.concretise(s, t.a.L)
					return r.ptrAdd(s, p, off)
				}
				return VTop{"pointer arithmetic"}
			}
			d.t = append(d.t, LT{t.a, t.k / sz})
		}
		path := append([]Step(nil), p.path...)
		path[n-1].idx = linAdd(path[n-1].idx, d, 1)
		p.path = path
		if rem != 0 {
			f, ok := r.a.lay.linkOff[rem]
			if !ok {
				return VTop{"pointer into the middle of an item"}
			}
			p.path = append(p.path, Step{f: f})
		}
		return p
	}
	return VTop{"pointer arithmetic on " + str(p)}
}
