package main

import (
	"go/token"
	"go/types"
	"math/bits"
	"strings"
)

func popcount(v Vec) Vec {
	return vmap1(v, func(x int64) int64 { return int64(bits.OnesCount64(uint64(x))) })
}

// ---- simplification with the known facts (never splits)

func (r *Run) knownCR(s *State, L Vec) *CR {
	for _, f := range s.facts {
		if f.cr != nil && vsame(f.L, L) {
			return f.cr
		}
	}
	return nil
}

func (r *Run) simpLin(s *State, l Lin) Lin {
	if len(l.t) == 0 {
		return l
	}
	out := Lin{c: l.c}
	for _, t := range l.t {
		if t.a.k != aTerm {
			if cr := r.knownCR(s, t.a.L); cr != nil {
				lo, hi := cr.maxmin(t.a.k)
				if lo == hi {
					out.c = vaddc(out.c, lo*t.k)
					continue
				}
			}
		} else if tt, ok := t.a.t.(VTerm); ok && tt.op == "iter" && vsame(s.itLo, s.itHi) {
			out.c = vadd(out.c, vmulc(s.itLo, t.k))
			continue
		}
		out.t = append(out.t, t)
	}
	return out
}

func (r *Run) simp(s *State, v Value) Value {
	switch v := v.(type) {
	case VInt:
		return VInt{r.simpLin(s, v.l)}
	case VPtr:
		for i, st := range v.path {
			if st.f < 0 && len(st.idx.t) > 0 {
				p := append([]Step(nil), v.path...)
				p[i].idx = r.simpLin(s, st.idx)
				v.path = p
			}
		}
		return v
	}
	return v
}

// ---- integer comparison

func cmpPred(op token.Token) func(x, y int64) bool {
	switch op {
	case token.EQL:
		return func(x, y int64) bool { return x == y }
	case token.NEQ:
		return func(x, y int64) bool { return x != y }
	case token.LSS:
		return func(x, y int64) bool { return x < y }
	case token.LEQ:
		return func(x, y int64) bool { return x <= y }
	case token.GTR:
		return func(x, y int64) bool { return x > y }
	}
	return func(x, y int64) bool { return x >= y }
}

func (r *Run) less(s *State, a, b Lin) bool { return r.cmpLin(s, token.LSS, a, b, false) }

func evalLin(s *State, l Lin, L Vec, c, k int64) int64 {
	x := l.c.at(0)
	for _, t := range l.t {
		if t.a.k == aCount {
			x += t.k * c
		} else {
			x += t.k * k
		}
	}
	return x
}

func (r *Run) cmpLin(s *State, op token.Token, a, b Lin, uns64 bool) bool {
	a, b = r.simpLin(s, a), r.simpLin(s, b)
	pred := cmpPred(op)
	if uns64 {
		p := pred
		pred = func(x, y int64) bool { return p(int64(uint64(x)^(1<<63)), int64(uint64(y)^(1<<63))) }
	}
	va, ok1 := a.vec()
	vb, ok2 := b.vec()
	if ok1 && ok2 {
		t, mask := vcmp(s.N, va, vb, pred)
		if t == 2 {
			panic(splitMask(mask))
		}
		return t == 1
	}
	var L *Vec
	multi, opaque := false, false
	for _, t := range append(append([]LT(nil), a.t...), b.t...) {
		if t.a.k == aTerm {
			opaque = true
			continue
		}
		if L == nil {
			l := t.a.L
			L = &l
		} else if !vsame(*L, t.a.L) {
			multi = true
		}
	}
	if opaque {
		return r.cmpOpaque(s, op, a, b)
	}
	_, u1 := a.c.uni()
	_, u2 := b.c.uni()
	if multi || !u1 || !u2 {
		for _, t := range append(append([]LT(nil), a.t...), b.t...) {
			r.concretise(s, t.a.L)
		}
		return r.cmpLin(s, op, a, b, uns64)
	}
	sp := cmpPred(op)
	return r.splitCR(s, *L, func(c, k int64) bool {
		return sp(evalLin(s, a, *L, c, k), evalLin(s, b, *L, c, k))
	})
}

// cmpOpaque decides comparisons with uninterpreted integers.
func (r *Run) cmpOpaque(s *State, op token.Token, a, b Lin) bool {
	d := linAdd(a, b, -1) // d op 0
	pred := cmpPred(op)
	if v, ok := d.vec(); ok {
		t, mask := vcmp(s.N, v, C(0), pred)
		if t == 2 {
			panic(splitMask(mask))
		}
		return t == 1
	}
	if len(d.t) == 1 && (d.t[0].k == 1 || d.t[0].k == -1) && d.t[0].a.k == aTerm {
		k := d.t[0].k
		t, _ := d.t[0].a.t.(VTerm)
		if c, ok := d.c.uni(); ok && t.op == "len0" {
			at := func(x int64) bool { return pred(k*x+c, 0) }
			big := []int64{2, 3, 17, 1000, 1 << 40}
			same := true
			for _, x := range big {
				same = same && at(x) == at(1)
			}
			if same {
				if at(0) == at(1) {
					return at(0)
				}
				// the container is empty exactly when its root level holds nothing
				var empty bool
				if r.scan {
					empty = r.eqL(s, s.sp, C(0))
				} else {
					empty = r.splitCR(s, C(0), func(c, _ int64) bool { return c == 0 })
				}
				return at(0) == empty
			}
		}
		if t.op == "iter" {
			return r.cmpIter(s, op, k, d.c)
		}
	}
	// equal keys have equal lengths
	if len(d.t) == 2 && d.t[0].k*d.t[1].k == -1 && d.c.is(0) && d.t[0].a.k == aTerm && d.t[1].a.k == aTerm {
		t0, ok0 := d.t[0].a.t.(VTerm)
		t1, ok1 := d.t[1].a.t.(VTerm)
		if ok0 && ok1 && t0.op == "len" && t1.op == "len" {
			if L, ok := keyPair(t0.args[0], t1.args[0]); ok {
				if r.factRO(s, L).key == yes {
					return pred(0, 0)
				}
				eq := term("lenEq", vvec(L))
				known := false
				for _, c := range s.conds {
					if valEq(c.t, eq) {
						if c.b {
							return pred(0, 0)
						}
						known = true
					}
				}
				if !known {
					panic(demand{[]func(*State) bool{
						func(s *State) bool { s.conds = append(s.conds, Cond{eq, true}); return true },
						func(s *State) bool {
							s.conds = append(s.conds, Cond{eq, false})
							r.fact(s, L).key = no
							return true
						},
					}})
				}
				if op == token.EQL || op == token.NEQ {
					return op == token.NEQ
				}
			}
		}
	}
	return r.condFact(s, term("cmp"+op.String(), VInt{d}))
}

// cmpIter decides k*iter + c op 0 by splitting the interval of iter.
func (r *Run) cmpIter(s *State, op token.Token, k int64, c Vec) bool {
	pred := cmpPred(op)
	lo, hi, cc := r.uniform(s, s.itLo), r.uniform(s, s.itHi), r.uniform(s, c)
	at := func(x int64) bool { return pred(k*x+cc, 0) }
	// pred changes at most twice (for ==, !=); find the first change after lo
	pivot := -cc * k // k is 1 or -1
	cand := []int64{pivot - 1, pivot, pivot + 1}
	for _, x := range cand {
		if x > lo && x <= hi && at(x) != at(x-1) {
			panic(demand{[]func(*State) bool{
				func(s *State) bool { s.itHi = C(x - 1); return true },
				func(s *State) bool { s.itLo = C(x); return true },
			}})
		}
	}
	return at(lo)
}

// intRes gives the result of integer arithmetic in a type of w bits.
func (r *Run) intRes(s *State, l Lin, w int, signed bool) Value {
	l = r.simpLin(s, l)
	if v, ok := l.vec(); ok {
		return vvec(vmap1(v, func(x int64) int64 { return wrap(x, w, signed) }))
	}
	lo, hi := int64(0), int64(0)
	for _, t := range l.t {
		if t.a.k == aTerm {
			if w == 64 {
				return VInt{l}
			}
			return term("wrap", VInt{l}, vint(int64(w)))
		}
		cr := r.crOf(s, t.a.L)
		a, b := cr.maxmin(t.a.k)
		if t.k > 0 {
			lo, hi = lo+t.k*a, hi+t.k*b
		} else {
			lo, hi = lo+t.k*b, hi+t.k*a
		}
	}
	for i := 0; i < s.N; i++ {
		c := l.c.at(i)
		if wrap(lo+c, w, signed) != lo+c || wrap(hi+c, w, signed) != hi+c || (!signed && lo+c < 0) {
			for _, t := range l.t {
				r.concretise(s, t.a.L)
			}
		}
		if l.c.v == nil {
			break
		}
	}
	return VInt{l}
}

// ---- hash bits

func (r *Run) mkHash(s *State, h VHash) Value {
	t, mask := vcmp(s.N, h.w, h.s, func(w, s int64) bool { return w == 4 && s >= 0 && s%4 == 0 })
	if t == 2 {
		panic(splitMask(mask))
	}
	if t == 1 {
		nth := vmap1(h.s, func(x int64) int64 { return (x & 63) / 4 })
		if r.c.topFirst {
			nth = vmap1(nth, func(x int64) int64 { return 15 - x })
		}
		return r.mkDig(s, h.stream, vadd(vmulc(h.q, 16), nth))
	}
	if t, mask := vcmp(s.N, h.w, C(0), leI); t == 1 {
		return vint(0)
	} else if t == 2 {
		panic(splitMask(mask))
	}
	return h
}

func replaceKey(v Value, to Value) Value {
	m := &mapper{term: func(t VTerm) (Value, bool) {
		if t.op == "key" && len(t.args) == 0 {
			return to, true
		}
		return nil, false
	}}
	return m.val(v)
}

// cstream is the stream of the conflicting key: the key's stream for the key stored at the leaf.
func (r *Run) cstream(s *State) Value {
	if s.kstream == nil {
		return nil
	}
	return replaceKey(s.kstream, skey(s.spine))
}

// mkDig: up to the level of the leaf, the stored key has the same digits as
// the key whose path leads there.
func (r *Run) mkDig(s *State, stream Value, L Vec) Value {
	if s.kstream != nil && !valEq(stream, s.kstream) && valEq(stream, r.cstream(s)) {
		if r.rel(s, L, s.spine, leI) && r.rel(s, C(0), L, leI) {
			return VDig{s.kstream, L}
		}
	}
	return VDig{stream, L}
}

// own reports whether d is the analysed key's digit for level L.
func (r *Run) own(s *State, d VDig, L Vec, pos string) bool {
	if s.kstream == nil {
		if r.eqL(s, L, C(0)) && r.eqL(s, d.L, L) {
			s.kstream = d.stream
			if r.probe {
				r.kill.Store(true)
			}
			return true
		}
		if k, ok := d.L.uni(); ok && r.probe && k == 15 && r.eqL(s, L, C(0)) {
			r.flipped = true
			r.kill.Store(true)
		}
		return false
	}
	return valEq(d.stream, s.kstream) && r.eqL(s, d.L, L)
}

func (r *Run) ownOrFail(s *State, d VDig, L Vec) bool {
	r.did("foreign-digit")
	if r.own(s, d, L, "") {
		return true
	}
	r.fail(s, r.lastPos, "foreign-digit", "bitmap of level %s is indexed with %s, which is not the key's digit for that level", str(vvec(L)), str(d))
	return false
}

func isAllOnes(v Value, w int) bool {
	i, ok := v.(VInt)
	if !ok {
		return false
	}
	x, ok := i.l.vec()
	if !ok {
		return false
	}
	k, ok := x.uni()
	return ok && wrap(k, w, true) == -1
}

func constOf(v Value) (int64, bool) {
	i, ok := v.(VInt)
	if !ok {
		return 0, false
	}
	x, ok := i.l.vec()
	if !ok {
		return 0, false
	}
	return x.uni()
}

func lowMask(k int64) (int64, bool) { // k = 2^m - 1
	u := uint64(k)
	if u&(u+1) == 0 {
		return int64(bits.Len64(u)), true
	}
	return 0, false
}

func single(v Value) (VDig, bool) {
	if b, ok := v.(VBits); ok && len(b.d) == 1 {
		return b.d[0], true
	}
	return VDig{}, false
}

// isKC orders two digits of one level: the key's and the conflicting key's.
func (r *Run) isKC(s *State, a, b VDig) (L Vec, swapped, ok bool) {
	if s.kstream == nil || !r.eqL(s, a.L, b.L) {
		return
	}
	c := r.cstream(s)
	switch {
	case valEq(a.stream, s.kstream) && valEq(b.stream, c):
		return a.L, false, true
	case valEq(b.stream, s.kstream) && valEq(a.stream, c):
		return a.L, true, true
	}
	return
}

func (r *Run) digsEqual(s *State, a, b VDig) (bool, bool) {
	if valEq(a, b) {
		return true, true
	}
	if L, _, ok := r.isKC(s, a, b); ok {
		return r.digEq(s, L), true
	}
	return r.condFact(s, term("digeq", a, b)), true
}

func (r *Run) digsLess(s *State, a, b VDig) bool {
	if valEq(a, b) {
		return false
	}
	if L, sw, ok := r.isKC(s, a, b); ok {
		if r.digEq(s, L) {
			return false
		}
		return r.digLt(s, L) != sw
	}
	return r.condFact(s, term("diglt", a, b))
}

// mkBits builds the bit set of the given digits.
func (r *Run) mkBits(s *State, ds []VDig) Value {
	var out []VDig
outer:
	for _, d := range ds {
		for _, o := range out {
			if eq, _ := r.digsEqual(s, d, o); eq {
				continue outer
			}
		}
		out = append(out, d)
	}
	if len(out) == 0 {
		return vint(0)
	}
	// the key's digit first
	if len(out) == 2 && s.kstream != nil && valEq(out[1].stream, s.kstream) && !valEq(out[0].stream, s.kstream) {
		out[0], out[1] = out[1], out[0]
	}
	return VBits{out}
}

// ---- bitmaps

// ownBit is the state of the key's own digit in the bitmap.
func (r *Run) ownBit(s *State, b VBM) bool {
	switch b.own {
	case 0:
		return false
	case 1:
		return true
	}
	if b.base == 'P' {
		return r.needMemP(s, b.L)
	}
	if !r.needMemP(s, b.L) {
		return false
	}
	return r.needMemT(s, b.L)
}

func (r *Run) others(s *State, L Vec) int64 { // number of other items; concretises the count
	m := int64(0)
	if r.needMemP(s, L) {
		m = 1
	}
	cr := r.crOf(s, L)
	if c, ok := cr.count(); ok {
		return c - m
	}
	// only 0, 1 and "2 or more" matter
	if r.splitCR(s, L, func(c, k int64) bool { return c-m == 0 }) {
		return 0
	}
	if r.splitCR(s, L, func(c, k int64) bool { return c-m == 1 }) {
		return 1
	}
	return 2
}

func (r *Run) triFact(s *State, L Vec, get func(f *NodeFact) *int8) bool {
	switch *get(r.factRO(s, L)) {
	case yes:
		return true
	case no:
		return false
	}
	panic(demand{[]func(*State) bool{
		func(s *State) bool { *get(r.fact(s, L)) = yes; return true },
		func(s *State) bool { *get(r.fact(s, L)) = no; return true },
	}})
}

func (r *Run) surv(s *State, L Vec) bool {
	return r.triFact(s, L, func(f *NodeFact) *int8 { return &f.surv })
}

func (r *Run) bmEqual(s *State, a, b VBM) bool {
	if a.view != b.view || !r.eqL(s, a.L, b.L) {
		return r.condFact(s, term("bmeq", a, b))
	}
	if a.view != 0 {
		if valEq(a, b) {
			return true
		}
		return r.condFact(s, term("bmeq", a, b))
	}
	if r.ownBit(s, a) != r.ownBit(s, b) {
		return false
	}
	if a.base == b.base {
		return true
	}
	switch r.others(s, a.L) {
	case 0:
		return true
	case 1:
		return r.surv(s, a.L)
	}
	return r.triFact(s, a.L, func(f *NodeFact) *int8 { return &f.allLeaf })
}

func (r *Run) bmEmpty(s *State, a VBM) bool {
	if a.view != 0 {
		v, ok := r.onesCount(s, a).(VInt)
		if ok {
			return r.cmpLin(s, token.EQL, v.l, linK(0), false)
		}
		return r.condFact(s, term("bmempty", a))
	}
	if a.base == 'P' && a.own == -1 {
		return r.splitCR(s, a.L, func(c, k int64) bool { return c == 0 })
	}
	if r.ownBit(s, a) {
		return false
	}
	n := r.others(s, a.L)
	if n == 0 {
		return true
	}
	if a.base == 'P' {
		return false
	}
	if n == 1 {
		return !r.surv(s, a.L)
	}
	return r.triFact(s, a.L, func(f *NodeFact) *int8 { return &f.noLeaf })
}

func (r *Run) onesCount(s *State, v Value) Value {
	switch v := v.(type) {
	case VInt:
		if x, ok := v.l.vec(); ok {
			return vvec(popcount(x))
		}
	case VBits:
		return vint(int64(len(v.d)))
	case VTerm:
		if v.op == "shifted" || v.op == "unshift" {
			return r.onesCount(s, v.args[0])
		}
	case VBM:
		if v.base == 'P' {
			cnt, rank := linA(Atom{k: aCount, L: v.L}), linA(Atom{k: aRank, L: v.L})
			switch v.view {
			case 'b':
				return VInt{rank}
			case 's', 0:
				if v.own != -1 {
					m := r.needMemP(s, v.L)
					if v.own == 1 && !m {
						cnt = linAdd(cnt, linK(1), 1)
					} else if v.own == 0 && m {
						cnt = linAdd(cnt, linK(1), -1)
					}
				}
				if v.view == 's' {
					return VInt{linAdd(cnt, rank, -1)}
				}
				return r.intRes(s, cnt, 64, true)
			}
		} else if v.view == 0 {
			own := int64(0)
			if r.ownBit(s, v) {
				own = 1
			}
			switch r.others(s, v.L) {
			case 0:
				return vint(own)
			case 1:
				if r.surv(s, v.L) {
					return vint(own + 1)
				}
				return vint(own)
			}
		}
	}
	return VInt{linA(Atom{k: aTerm, t: term("onescount", v)})}
}

func (r *Run) trailingZeros(s *State, v Value, w int64) Value {
	switch v := v.(type) {
	case VInt:
		if x, ok := v.l.vec(); ok {
			return vvec(vmap1(x, func(y int64) int64 {
				if y == 0 {
					return w
				}
				return int64(bits.TrailingZeros64(uint64(y)))
			}))
		}
	case VBits:
		if len(v.d) == 1 {
			return v.d[0]
		}
		if len(v.d) == 2 {
			if r.digsLess(s, v.d[0], v.d[1]) {
				return v.d[0]
			}
			return v.d[1]
		}
	}
	return term("trailingzeros", v)
}

// ---- concatenated bit fields

func bvOf(v Value) (VBV, bool) {
	b, ok := v.(VBV)
	return b, ok
}

func bvNorm(s []BVSeg) VBV {
	var out []BVSeg
	for _, g := range s {
		if g.w <= 0 {
			continue
		}
		if n := len(out); n > 0 {
			p := &out[n-1]
			if p.src == nil && g.src == nil {
				p.w += g.w
				continue
			}
			if p.src != nil && g.src != nil && valEq(p.src, g.src) && p.lo+p.w == g.lo {
				p.w += g.w
				continue
			}
		}
		out = append(out, g)
	}
	return VBV{out}
}

func bvWidth(b VBV) int {
	n := 0
	for _, g := range b.s {
		n += g.w
	}
	return n
}

// bvFit truncates or zero-extends to w bits.
func bvFit(b VBV, w int) VBV {
	var out []BVSeg
	n := 0
	for _, g := range b.s {
		if n+g.w > w {
			g.w = w - n
		}
		out = append(out, g)
		n += g.w
		if n >= w {
			break
		}
	}
	if n < w {
		out = append(out, BVSeg{nil, 0, w - n})
	}
	return bvNorm(out)
}

func bvShr(b VBV, k int) VBV {
	var out []BVSeg
	for _, g := range b.s {
		if k >= g.w {
			k -= g.w
			continue
		}
		if g.src != nil {
			g.lo += k
		}
		g.w -= k
		k = 0
		out = append(out, g)
	}
	return bvNorm(out)
}

func bvShl(b VBV, k, w int) VBV {
	return bvFit(bvNorm(append([]BVSeg{{nil, 0, k}}, b.s...)), w)
}

func bvSlice(b VBV, lo, w int) VBV { return bvFit(bvShr(b, lo), w) }

// bvPieces cuts both fields at the union of their boundaries.
func bvPieces(a, b VBV, f func(x, y BVSeg) bool) bool {
	i, j, oi, oj := 0, 0, 0, 0
	for i < len(a.s) && j < len(b.s) {
		x, y := a.s[i], b.s[j]
		w := min(x.w-oi, y.w-oj)
		px, py := BVSeg{x.src, x.lo + oi, w}, BVSeg{y.src, y.lo + oj, w}
		if x.src == nil {
			px.lo = 0
		}
		if y.src == nil {
			py.lo = 0
		}
		if !f(px, py) {
			return false
		}
		oi += w
		oj += w
		if oi == x.w {
			i, oi = i+1, 0
		}
		if oj == y.w {
			j, oj = j+1, 0
		}
	}
	return true
}

func bvOr(a, b VBV, w int) (VBV, bool) {
	a, b = bvFit(a, w), bvFit(b, w)
	var out []BVSeg
	ok := bvPieces(a, b, func(x, y BVSeg) bool {
		switch {
		case x.src == nil:
			out = append(out, y)
		case y.src == nil:
			out = append(out, x)
		case x.lo == y.lo && valEq(x.src, y.src):
			out = append(out, x)
		default:
			return false
		}
		return true
	})
	return bvNorm(out), ok
}

func asBV(v Value, w int) (VBV, bool) {
	switch v := v.(type) {
	case VBV:
		return bvFit(v, w), true
	case VInt:
		if k, ok := constOf(v); ok && k == 0 {
			return VBV{[]BVSeg{{nil, 0, w}}}, true
		}
	}
	return VBV{}, false
}

func (r *Run) bvEqual(s *State, a, b VBV, w int) bool {
	a, b = bvFit(a, w), bvFit(b, w)
	if valEq(a, b) {
		return true
	}
	if len(a.s) == 1 && len(b.s) == 1 && w == 64 {
		if L, ok := keyPair(a.s[0].src, b.s[0].src); ok && a.s[0].lo == 0 && b.s[0].lo == 0 {
			return r.keyEq(s, L)
		}
	}
	return bvPieces(a, b, func(x, y BVSeg) bool {
		if valEq(keyBV(x.src, x.lo, x.w), keyBV(y.src, y.lo, y.w)) {
			return true
		}
		if L, ok := keyPair(x.src, y.src); ok && x.lo == y.lo {
			return r.keyPart(s, L, x.lo, x.w)
		}
		return r.condFact(s, term("bveq", keyBV(x.src, x.lo, x.w), keyBV(y.src, y.lo, y.w)))
	})
}

// strip removes conversions that keep the contents of a key.
func strip(v Value) Value {
	for {
		t, ok := v.(VTerm)
		if !ok {
			return v
		}
		switch t.op {
		case "conv", "clone":
			v = t.args[0]
			continue
		}
		return v
	}
}

// keyPair recognises the analysed key and a stored key.
func keyPair(a, b Value) (Vec, bool) {
	ta, ok1 := strip(a).(VTerm)
	tb, ok2 := strip(b).(VTerm)
	if !ok1 || !ok2 {
		return Vec{}, false
	}
	if ta.op == "skey" {
		ta, tb = tb, ta
	}
	if ta.op == "key" && tb.op == "skey" {
		v, _ := tb.args[0].(VInt).l.vec()
		return v, true
	}
	return Vec{}, false
}

// ---- equality

func (r *Run) equal(s *State, x, y Value, T types.Type) Value {
	b := func(v bool) Value { return VBool{v} }
	if _, ok := x.(VTop); ok {
		return x
	}
	if _, ok := y.(VTop); ok {
		return y
	}
	_, xn := x.(VNil)
	_, yn := y.(VNil)
	if xn && yn {
		return b(true)
	}
	if xn {
		x, y, xn, yn = y, x, yn, xn
	}
	if yn {
		switch v := x.(type) {
		case VPtr, VFunc, VSlice, VUPtr:
			return b(false)
		case VTerm:
			if v.op == "callback" {
				return b(false)
			}
			return b(r.condFact(s, term("isnil", v)))
		case VInt:
			if k, ok := constOf(v); ok {
				return b(k == 0)
			}
		}
		return VTop{"comparison with nil"}
	}
	if L, ok := keyPair(x, y); ok {
		return b(r.keyEq(s, L))
	}
	if a, ok := x.(VTerm); ok && strings.HasPrefix(a.op, "many:") {
		if c, ok := y.(VTerm); ok && c.op == a.op {
			e, ok := r.equal(s, a.args[0], c.args[0], nil).(VBool)
			if !ok {
				return VTop{a.op}
			}
			if !valEq(a, c) && lessTerm(c, a) {
				a, c = c, a
			}
			return b(e.b || r.condFact(s, term("same", a, c)))
		}
	}
	// orient
	rank := func(v Value) int {
		switch v.(type) {
		case VBM:
			return 0
		case VBits:
			return 1
		case VDig:
			return 2
		case VBV:
			return 3
		case VHash:
			return 4
		}
		return 9
	}
	if rank(y) < rank(x) {
		x, y = y, x
	}
	switch a := x.(type) {
	case VInt:
		if c, ok := y.(VInt); ok {
			return b(r.cmpLin(s, token.EQL, a.l, c.l, false))
		}
	case VBool:
		if c, ok := y.(VBool); ok {
			return b(a.b == c.b)
		}
	case VBM:
		switch c := y.(type) {
		case VBM:
			return b(r.bmEqual(s, a, c))
		case VInt:
			if k, ok := constOf(c); ok && k == 0 {
				return b(r.bmEmpty(s, a))
			}
		case VBits:
			// equal to a single bit: exactly the key's own digit
			if len(c.d) == 1 && a.view == 0 && r.own(s, c.d[0], a.L, "") {
				if !r.ownBit(s, a) {
					return b(false)
				}
				n := r.others(s, a.L)
				if n == 0 {
					return b(true)
				}
				if a.base == 'P' {
					return b(false)
				}
				if n == 1 {
					return b(!r.surv(s, a.L))
				}
				return b(r.triFact(s, a.L, func(f *NodeFact) *int8 { return &f.noLeaf }))
			}
		}
	case VBits:
		switch c := y.(type) {
		case VBits:
			if len(a.d) == 1 && len(c.d) == 1 {
				eq, _ := r.digsEqual(s, a.d[0], c.d[0])
				return b(eq)
			}
			if valEq(a, c) {
				return b(true)
			}
			if len(a.d) != len(c.d) {
				return b(false)
			}
		case VInt:
			if k, ok := constOf(c); ok && k == 0 {
				return b(false)
			}
		}
	case VDig:
		if c, ok := y.(VDig); ok {
			eq, _ := r.digsEqual(s, a, c)
			return b(eq)
		}
		if k, ok := constOf(y); ok && (k < 0 || k > 15) {
			return b(false)
		}
	case VPtr:
		if c, ok := y.(VPtr); ok {
			return b(r.ptrEqual(s, a, c))
		}
	case VBV:
		w := bvWidth(a)
		if c, ok := asBV(y, w); ok {
			return b(r.bvEqual(s, a, c, w))
		}
	case VStruct:
		if c, ok := y.(VStruct); ok && len(a.f) == len(c.f) {
			for i := range a.f {
				e := r.equal(s, r.simp(s, a.f[i]), r.simp(s, c.f[i]), nil)
				eb, ok := e.(VBool)
				if !ok || !eb.b {
					return e
				}
			}
			return b(true)
		}
	case VArr:
		if c, ok := y.(VArr); ok && len(a.e) == len(c.e) {
			for i := range a.e {
				e := r.equal(s, r.simp(s, a.e[i]), r.simp(s, c.e[i]), nil)
				eb, ok := e.(VBool)
				if !ok || !eb.b {
					return e
				}
			}
			return b(true)
		}
	}
	if k, ok := constOf(y); ok && k == 0 {
		if t, ok := x.(VTerm); ok {
			switch t.op {
			case "bmdiff":
				return b(r.bmEqual(s, t.args[0].(VBM), t.args[1].(VBM)))
			case "bmpop":
				if v, ok := r.onesCount(s, t.args[0]).(VInt); ok {
					return b(r.cmpLin(s, token.LEQ, v.l, linK(1), false))
				}
			case "bvxor":
				return b(r.bvEqual(s, t.args[0].(VBV), t.args[1].(VBV), bvWidth(t.args[0].(VBV))))
			}
		}
	}
	if valEq(x, y) {
		return b(true)
	}
	ka, kb := str(x), str(y)
	if kb < ka {
		x, y = y, x
	}
	return b(r.condFact(s, term("==", x, y)))
}

func (r *Run) ptrEqual(s *State, a, c VPtr) bool {
	norm := func(p VPtr) VPtr {
		if p.ref.k == RNode && len(p.path) > 0 {
			cell, i, _ := r.slotAddr(s, p.ref.L, p.path[0].idx)
			if cell {
				return VPtr{Ref{k: RCell, L: vaddc(p.ref.L, 1)}, p.path[1:]}
			}
			if i >= 0 {
				path := append([]Step(nil), p.path...)
				path[0].idx = linK(i)
				p.path = path
			}
		}
		return p
	}
	if a.ref.k != c.ref.k {
		if (a.ref.k == RNode && c.ref.k == RCell) || (a.ref.k == RCell && c.ref.k == RNode) {
			a, c = norm(a), norm(c)
			if a.ref.k != c.ref.k {
				return false
			}
		} else {
			return false
		}
	}
	switch a.ref.k {
	case RCell, RNode, RKV:
		if !r.eqL(s, a.ref.L, c.ref.L) {
			return false
		}
	case RFresh, RGlobal:
		if a.ref.id != c.ref.id {
			return false
		}
	case RKVElem:
		if !r.eqL(s, a.ref.i, c.ref.i) {
			return false
		}
	}
	if len(a.path) != len(c.path) {
		return false
	}
	for i := range a.path {
		if a.path[i].f != c.path[i].f {
			return false
		}
		if a.path[i].f < 0 && !r.cmpLin(s, token.EQL, a.path[i].idx, c.path[i].idx, false) {
			return false
		}
	}
	return true
}

// slotAddr is slot without an access: i is -1 if the index stays symbolic.
func (r *Run) slotAddr(s *State, L Vec, idx Lin) (cell bool, i int64, ok bool) {
	idx = r.simpLin(s, idx)
	if len(idx.t) == 1 && idx.t[0].k == 1 && idx.c.is(0) && idx.t[0].a.k == aRank && vsame(idx.t[0].a.L, L) {
		if r.needMemP(s, L) {
			return true, 0, true
		}
	}
	v, isv := idx.vec()
	if !isv {
		return false, -1, true
	}
	_, k := r.concretise(s, L)
	i = r.uniform(s, v)
	return r.memP(s, L) == yes && i == k, i, true
}

func lessTerm(a, b Value) bool { return str(a) < str(b) }
