package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (r *Run) unop(s *State, in *ssa.UnOp) Value {
	x := r.operand(s, in.X)
	switch in.Op {
	case token.MUL:
		return r.load(s, x, in.Type(), r.lastPos)
	case token.NOT:
		if b, ok := x.(VBool); ok {
			return VBool{!b.b}
		}
		return x
	case token.SUB:
		w, sg, ok := intInfo(in.Type())
		if iv, is := x.(VInt); is && ok {
			return r.intRes(s, linMul(iv.l, -1), w, sg)
		}
		return term("neg", x)
	case token.XOR:
		w, sg, ok := intInfo(in.Type())
		if !ok {
			return VTop{"complement"}
		}
		switch v := r.simp(s, x).(type) {
		case VInt:
			if c, isv := r.vecOf(s, v); isv {
				return vvec(vmap1(c, func(x int64) int64 { return wrap(^x, w, sg) }))
			}
		case VMask:
			return VMask{!v.hi, v.d}
		case VTerm:
			if v.op == "not" {
				return v.args[0]
			}
		}
		return term("not", x)
	}
	return VTop{"operator " + in.Op.String()}
}

// vecOf is the integer on every lane, making symbolic counts known if needed.
func (r *Run) vecOf(s *State, v Value) (Vec, bool) {
	iv, ok := v.(VInt)
	if !ok {
		return Vec{}, false
	}
	return r.needVec(s, iv.l)
}

func isOpaque(v Value) bool {
	iv, ok := v.(VInt)
	if !ok {
		return false
	}
	for _, t := range iv.l.t {
		if t.a.k == aTerm {
			return true
		}
	}
	return false
}

func opaque(t Value) Value { return VInt{linA(Atom{k: aTerm, t: t})} }

func (r *Run) binop(s *State, op token.Token, x, y Value, xt, rt types.Type) Value {
	x, y = r.simp(s, x), r.simp(s, y)
	switch op {
	case token.EQL, token.NEQ:
		e := r.equal(s, x, y, xt)
		if b, ok := e.(VBool); ok {
			return VBool{b.b == (op == token.EQL)}
		}
		return e
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return r.order(s, op, x, y, xt)
	}
	if t, ok := x.(VTop); ok {
		return t
	}
	if t, ok := y.(VTop); ok {
		return t
	}
	w, sg, isInt := intInfo(rt)
	if !isInt {
		if b, ok := rt.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			bx, ok1 := x.(VBool)
			by, ok2 := y.(VBool)
			if ok1 && ok2 {
				switch op {
				case token.AND:
					return VBool{bx.b && by.b}
				case token.OR:
					return VBool{bx.b || by.b}
				case token.XOR:
					return VBool{bx.b != by.b}
				}
			}
		}
		return term(op.String(), x, y)
	}
	switch op {
	case token.ADD:
		return r.add(s, x, y, w, sg)
	case token.SUB:
		return r.sub(s, x, y, w, sg)
	case token.MUL:
		return r.mul(s, x, y, w, sg)
	case token.QUO, token.REM:
		return r.quo(s, op, x, y, w, sg)
	case token.AND:
		return r.and(s, x, y, w, sg)
	case token.AND_NOT:
		return r.andNot(s, x, y, w, sg)
	case token.OR, token.XOR:
		return r.or(s, op, x, y, w, sg)
	case token.SHL:
		return r.shl(s, x, y, w, sg)
	case token.SHR:
		return r.shr(s, x, y, w, sg)
	}
	return VTop{"operator " + op.String()}
}

func (r *Run) uptrLin(u VUPtr) (VPtr, Lin) {
	off := u.off
	p := u.p
	if n := len(p.path); n > 0 && p.path[n-1].f < 0 && r.a.lay.linkSize > 0 {
		off = linAdd(off, linMul(p.path[n-1].idx, r.a.lay.linkSize), 1)
		path := append([]Step(nil), p.path...)
		path[n-1].idx = linK(0)
		p.path = path
	}
	return p, off
}

func (r *Run) order(s *State, op token.Token, x, y Value, xt types.Type) Value {
	if t, ok := x.(VTop); ok {
		return t
	}
	if t, ok := y.(VTop); ok {
		return t
	}
	w, sg, isInt := intInfo(xt)
	b := func(v bool) Value { return VBool{v} }
	flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
	if isInt {
		ix, ok1 := x.(VInt)
		iy, ok2 := y.(VInt)
		if ok1 && ok2 {
			return b(r.cmpLin(s, op, ix.l, iy.l, w == 64 && !sg))
		}
		dx, okx := x.(VDig)
		dy, oky := y.(VDig)
		if !okx || !oky {
			if sx, ok := single(x); ok {
				if sy, ok := single(y); ok {
					dx, dy, okx, oky = sx, sy, true, true
				}
			}
		}
		if okx && oky {
			switch op {
			case token.LSS:
				return b(r.digsLess(s, dx, dy))
			case token.GTR:
				return b(r.digsLess(s, dy, dx))
			case token.LEQ:
				return b(!r.digsLess(s, dy, dx))
			default:
				return b(!r.digsLess(s, dx, dy))
			}
		}
		if _, ok := constOf(x); ok {
			x, y, op = y, x, flip[op]
		}
		if k, ok := constOf(y); ok {
			switch v := x.(type) {
			case VBM, VBits:
				if !sg && (k == 0 || (k == 1 && (op == token.LSS || op == token.GEQ))) {
					e, isb := r.equal(s, v, vint(0), xt).(VBool)
					if isb {
						if k == 0 {
							switch op {
							case token.LSS:
								return b(false)
							case token.GEQ:
								return b(true)
							case token.LEQ:
								return b(e.b)
							case token.GTR:
								return b(!e.b)
							}
						} else if op == token.LSS {
							return b(e.b)
						} else {
							return b(!e.b)
						}
					}
				}
			case VDig:
				p := cmpPred(op)
				if p(0, k) == p(15, k) {
					return b(p(0, k))
				}
			}
		}
		if ux, ok := x.(VUPtr); ok {
			if uy, ok := y.(VUPtr); ok {
				px, lx := r.uptrLin(ux)
				py, ly := r.uptrLin(uy)
				if valEq(px, py) {
					return b(r.cmpLin(s, op, lx, ly, false))
				}
			}
		}
	}
	// canonical direction
	if op == token.GTR || op == token.GEQ {
		x, y, op = y, x, flip[op]
	}
	if op == token.LEQ {
		return b(!r.condFact(s, term("<", y, x)))
	}
	return b(r.condFact(s, term("<", x, y)))
}

func (r *Run) add(s *State, x, y Value, w int, sg bool) Value {
	if _, ok := x.(VInt); ok {
		if _, ok := y.(VInt); !ok {
			x, y = y, x
		}
	}
	if ix, ok := x.(VInt); ok {
		return r.intRes(s, linAdd(ix.l, y.(VInt).l, 1), w, sg)
	}
	if ub, ok := y.(VUPtr); ok {
		x, y = ub, x
	}
	if u, ok := x.(VUPtr); ok {
		if iy, ok := y.(VInt); ok {
			return VUPtr{u.p, r.simpLin(s, linAdd(u.off, iy.l, 1))}
		}
		return VTop{"pointer arithmetic"}
	}
	if k, ok := constOf(y); ok && k == 0 {
		return x
	}
	if m, ok := x.(VMask); ok && !m.hi {
		if k, ok := constOf(y); ok && k == 1 {
			return VBits{[]VDig{m.d}}
		}
	}
	// all ones added: decrement
	if isAllOnes(y, w) {
		if d, ok := single(x); ok {
			return VMask{false, d}
		}
	}
	if bx, ok := x.(VBits); ok {
		if bm, ok := y.(VBM); ok {
			x, y = bm, bx
		} else if by, ok := y.(VBits); ok {
			n := r.mkBits(s, append(append([]VDig(nil), bx.d...), by.d...))
			if nb, ok := n.(VBits); ok && len(nb.d) == len(bx.d)+len(by.d) {
				return n
			}
		}
	}
	if bm, ok := x.(VBM); ok {
		if d, ok := single(y); ok && bm.view == 0 && r.own(s, d, bm.L, "") && !r.ownBit(s, bm) {
			bm.own = 1
			return bm
		}
	}
	if bx, ok := asBV(x, w); ok {
		if by, ok := asBV(y, w); ok {
			if o, ok := r.bvDisjoint(bx, by, w); ok {
				return o
			}
		}
	}
	if t, ok := x.(VTerm); ok && t.op == "rsub" {
		if iy, ok := y.(VInt); ok {
			return VTerm{"rsub", []Value{r.intRes(s, linAdd(t.args[0].(VInt).l, iy.l, 1), w, sg), t.args[1]}}
		}
	}
	return term("+", x, y)
}

// bvDisjoint joins two bit fields if no bit is used in both.
func (r *Run) bvDisjoint(a, b VBV, w int) (VBV, bool) {
	a, b = bvFit(a, w), bvFit(b, w)
	ok := bvPieces(a, b, func(x, y BVSeg) bool { return x.src == nil || y.src == nil })
	if !ok {
		return VBV{}, false
	}
	return bvOr(a, b, w)
}

func (r *Run) sub(s *State, x, y Value, w int, sg bool) Value {
	ix, okx := x.(VInt)
	iy, oky := y.(VInt)
	if okx && oky {
		return r.intRes(s, linAdd(ix.l, iy.l, -1), w, sg)
	}
	if u, ok := x.(VUPtr); ok {
		if oky {
			return VUPtr{u.p, r.simpLin(s, linAdd(u.off, iy.l, -1))}
		}
		if v, ok := y.(VUPtr); ok {
			px, lx := r.uptrLin(u)
			py, ly := r.uptrLin(v)
			if valEq(px, py) {
				return r.intRes(s, linAdd(lx, ly, -1), 64, true)
			}
		}
		return VTop{"pointer arithmetic"}
	}
	if k, ok := constOf(y); ok {
		if k == 0 {
			return x
		}
		if k == 1 {
			if d, ok := single(x); ok {
				return VMask{false, d}
			}
			if b, ok := x.(VBM); ok {
				return term("bmdec", b)
			}
		}
	}
	if okx {
		if d, ok := y.(VDig); ok {
			return term("rsub", ix, d)
		}
	}
	if bm, ok := x.(VBM); ok {
		if d, ok := single(y); ok && bm.view == 0 && r.own(s, d, bm.L, "") && r.ownBit(s, bm) {
			bm.own = 0
			return bm
		}
	}
	return term("-", x, y)
}

func (r *Run) mul(s *State, x, y Value, w int, sg bool) Value {
	ix, okx := x.(VInt)
	iy, oky := y.(VInt)
	if !okx || !oky {
		if k, ok := constOf(y); ok && k == 1 {
			return x
		}
		if k, ok := constOf(x); ok && k == 1 {
			return y
		}
		return term("*", x, y)
	}
	vx, ok1 := ix.l.vec()
	vy, ok2 := iy.l.vec()
	if ok1 && ok2 {
		return vvec(vmap2(vx, vy, func(a, b int64) int64 { return wrap(a*b, w, sg) }))
	}
	if ok1 {
		ix, iy, vy, ok2 = iy, ix, vx, true
	}
	if ok2 {
		if k, ok := vy.uni(); ok {
			return r.intRes(s, linMul(ix.l, k), w, sg)
		}
	}
	if isOpaque(ix) || isOpaque(iy) {
		return opaque(term("*", ix, iy))
	}
	vx, _ = r.vecOf(s, ix)
	vy, _ = r.vecOf(s, iy)
	return vvec(vmap2(vx, vy, func(a, b int64) int64 { return wrap(a*b, w, sg) }))
}

func log2(k int64) (int64, bool) {
	if k > 0 && k&(k-1) == 0 {
		n := int64(0)
		for k > 1 {
			k >>= 1
			n++
		}
		return n, true
	}
	return 0, false
}

func (r *Run) quo(s *State, op token.Token, x, y Value, w int, sg bool) Value {
	if k, ok := constOf(y); ok {
		if k == 0 {
			panic(goPanic{"division by zero"})
		}
		if m, ok := log2(k); ok {
			switch x.(type) {
			case VHash, VDig, VBV, VBM:
				if !sg || w == 64 {
					if op == token.REM {
						return r.and(s, x, vint(k-1), w, sg)
					}
					return r.shr(s, x, vint(m), w, false)
				}
			}
		}
	}
	if isOpaque(x) || isOpaque(y) {
		return opaque(term(op.String(), x, y))
	}
	vx, ok1 := r.vecOf(s, x)
	vy, ok2 := r.vecOf(s, y)
	if ok1 && ok2 {
		if t, mask := vcmp(s.N, vy, C(0), eqI); t == 2 {
			panic(splitMask(mask))
		} else if t == 1 {
			panic(goPanic{"division by zero"})
		}
		return vvec(vmap2(vx, vy, func(a, b int64) int64 {
			if b == 0 {
				return 0
			}
			if !sg && w == 64 {
				if op == token.QUO {
					return int64(uint64(a) / uint64(b))
				}
				return int64(uint64(a) % uint64(b))
			}
			if op == token.QUO {
				return wrap(a/b, w, sg)
			}
			return a % b
		}))
	}
	return term(op.String(), x, y)
}

// leafBit is whether the item at the given bit of the bitmap is a leaf (iteration).
func (r *Run) leafBit(s *State, L Vec, bit Vec) bool {
	in := vmap2(s.sp, bit, func(p, b int64) int64 {
		if b != 0 && b&(b-1) == 0 && p&b != 0 {
			return 1
		}
		return 0
	})
	if !r.eqL(s, in, C(1)) {
		return false // leaves are present items
	}
	ord := vmap2(s.sp, bit, func(p, b int64) int64 { return popcount(C(p & (b - 1))).c })
	return r.ordLeaf(s, L, ord)
}

func (r *Run) ordLeaf(s *State, L Vec, i Vec) bool {
	for _, o := range r.factRO(s, L).ords {
		if r.eqL(s, o.i, i) {
			return o.leaf
		}
	}
	if again := vmap2(s.asked, i, func(m, i int64) int64 { return m >> uint(i) & 1 }); !r.eqL(s, again, C(0)) {
		s.note("kind of an item, forgotten since it was first asked")
	}
	panic(demand{[]func(*State) bool{
		func(s *State) bool {
			f := r.fact(s, L)
			f.ords = append(f.ords, ordFact{i, true})
			return true
		},
		func(s *State) bool {
			f := r.fact(s, L)
			f.ords = append(f.ords, ordFact{i, false})
			return true
		},
	}})
}

func (r *Run) singleBits(s *State, v Vec) bool {
	t, mask := vcmp(s.N, v, C(0), func(x, _ int64) bool { return x != 0 && x&(x-1) == 0 })
	if t == 2 {
		panic(splitMask(mask))
	}
	return t == 1
}

func (r *Run) and(s *State, x, y Value, w int, sg bool) Value {
	if t, ok := y.(VTerm); ok && t.op == "not" {
		return r.andNot(s, x, t.args[0], w, sg)
	}
	if t, ok := x.(VTerm); ok && t.op == "not" {
		return r.andNot(s, y, t.args[0], w, sg)
	}
	if _, ok := x.(VInt); ok {
		x, y = y, x
	}
	if _, ok := y.(VBM); ok {
		if _, ok := x.(VBM); !ok {
			x, y = y, x
		}
	}
	if k, ok := constOf(y); ok && k == 0 {
		return vint(0)
	}
	if isAllOnes(y, w) {
		return x
	}
	switch a := x.(type) {
	case VInt:
		if isOpaque(x) || isOpaque(y) {
			return opaque(term("&", x, y))
		}
		vx, ok1 := r.vecOf(s, x)
		vy, ok2 := r.vecOf(s, y)
		if ok1 && ok2 {
			return vvec(vmap2(vx, vy, func(a, b int64) int64 { return wrap(a&b, w, sg) }))
		}
	case VHash:
		if k, ok := constOf(y); ok {
			if m, ok := lowMask(k); ok {
				a.w = vmap1(a.w, func(x int64) int64 { return min(x, m) })
				return r.mkHash(s, a)
			}
		}
	case VDig:
		if k, ok := constOf(y); ok && k&15 == 15 {
			return a
		}
	case VBM:
		switch b := y.(type) {
		case VInt:
			k, ok := constOf(b)
			if ok && a.view == 0 && k&0xffff == 0xffff {
				return a
			}
			if ok && a.view == 's' && k == 1 {
				if r.ownBit(s, a) {
					return vint(1)
				}
				return vint(0)
			}
			if r.scan && a.view == 0 && a.base == 'T' {
				if v, ok := b.l.vec(); ok && r.singleBits(s, v) {
					if r.leafBit(s, a.L, v) {
						return b
					}
					return vint(0)
				}
			}
		case VBits:
			if d, ok := single(b); ok {
				if a.view == 0 && r.ownOrFail(s, d, a.L) {
					if r.ownBit(s, a) {
						return b
					}
					return vint(0)
				}
			}
		case VMask:
			if a.view == 0 && r.ownOrFail(s, b.d, a.L) {
				if b.hi {
					// the bits from the key's digit on
					a.view = 's'
					return term("unshift", a)
				}
				a.view = 'b'
				return a
			}
		case VBM:
			if a.view == 0 && b.view == 0 && a.base != b.base && a.own == b.own && r.eqL(s, a.L, b.L) {
				a.base = 'T'
				return a
			}
			if valEq(a, b) {
				return a
			}
		case VTerm:
			if b.op == "bmdec" && valEq(b.args[0], a) {
				return term("bmpop", a)
			}
		}
	case VBits:
		switch b := y.(type) {
		case VBits:
			var out []VDig
			for _, d := range a.d {
				for _, e := range b.d {
					if eq, _ := r.digsEqual(s, d, e); eq {
						out = append(out, d)
						break
					}
				}
			}
			return r.mkBits(s, out)
		case VMask:
			var out []VDig
			for _, d := range a.d {
				if r.digsLess(s, d, b.d) != b.hi {
					out = append(out, d)
				}
			}
			return r.mkBits(s, out)
		case VInt:
			if k, ok := constOf(b); ok && k&0xffff == 0xffff {
				return a
			}
		}
	case VMask:
		if b, ok := y.(VBits); ok {
			return r.and(s, b, a, w, sg)
		}
		if k, ok := constOf(y); ok && !a.hi && k&0xffff == 0xffff {
			return a
		}
	case VBV:
		if k, ok := constOf(y); ok {
			var out []BVSeg
			f := bvFit(a, w)
			u := uint64(k)
			for pos := 0; pos < w; {
				bit := u >> pos & 1
				n := 1
				for pos+n < w && u>>(pos+n)&1 == bit {
					n++
				}
				if bit == 1 {
					out = append(out, bvSlice(f, pos, n).s...)
				} else {
					out = append(out, BVSeg{nil, 0, n})
				}
				pos += n
			}
			return bvNorm(out)
		}
	case VTerm:
		if a.op == "tshr" {
			if k, ok := constOf(y); ok && k == 1 {
				bm := a.args[0].(VBM)
				sh, _ := a.args[1].(VInt).l.vec()
				bit := vmap1(sh, func(x int64) int64 {
					if x < 0 || x > 31 {
						return 0
					}
					return 1 << x
				})
				if r.leafBit(s, bm.L, bit) {
					return vint(1)
				}
				return vint(0)
			}
		}
	}
	return term("&", x, y)
}

func (r *Run) andNot(s *State, x, y Value, w int, sg bool) Value {
	if t, ok := y.(VTerm); ok && t.op == "not" {
		return r.and(s, x, t.args[0], w, sg)
	}
	if k, ok := constOf(y); ok && k == 0 {
		return x
	}
	if k, ok := constOf(x); ok && k == 0 {
		return x
	}
	switch a := x.(type) {
	case VInt:
		if isAllOnes(x, w) {
			if m, ok := y.(VMask); ok {
				return VMask{!m.hi, m.d}
			}
		}
		if _, ok := y.(VInt); ok {
			if isOpaque(x) || isOpaque(y) {
				return opaque(term("&^", x, y))
			}
			vx, ok1 := r.vecOf(s, x)
			vy, ok2 := r.vecOf(s, y)
			if ok1 && ok2 {
				return vvec(vmap2(vx, vy, func(a, b int64) int64 { return wrap(a&^b, w, sg) }))
			}
		}
	case VBM:
		switch b := y.(type) {
		case VMask:
			return r.and(s, a, VMask{!b.hi, b.d}, w, sg)
		case VBits:
			if a.view == 0 {
				for _, d := range b.d {
					if !r.ownOrFail(s, d, a.L) {
						return term("&^", x, y)
					}
					a.own = 0
				}
				return a
			}
		case VBM:
			if a.view == 0 && b.view == 0 && a.base == 'P' && b.base == 'T' && a.own == b.own && r.eqL(s, a.L, b.L) {
				return term("bmdiff", a, b)
			}
		}
	case VBits:
		switch b := y.(type) {
		case VBits:
			var out []VDig
		outer:
			for _, d := range a.d {
				for _, e := range b.d {
					if eq, _ := r.digsEqual(s, d, e); eq {
						continue outer
					}
				}
				out = append(out, d)
			}
			return r.mkBits(s, out)
		case VMask:
			return r.and(s, a, VMask{!b.hi, b.d}, w, sg)
		}
	case VBV:
		if k, ok := constOf(y); ok {
			return r.and(s, a, vint(wrap(^k, w, sg)), w, sg)
		}
	case VHash:
		if k, ok := constOf(y); ok {
			return r.and(s, a, vint(wrap(^k, w, sg)), w, sg)
		}
	}
	return term("&^", x, y)
}

func (r *Run) or(s *State, op token.Token, x, y Value, w int, sg bool) Value {
	if k, ok := constOf(y); ok && k == 0 {
		return x
	}
	if k, ok := constOf(x); ok && k == 0 {
		return y
	}
	if op == token.XOR {
		if isAllOnes(y, w) {
			if m, ok := x.(VMask); ok {
				return VMask{!m.hi, m.d}
			}
			if _, ok := x.(VInt); !ok {
				return term("not", x)
			}
		}
		if isAllOnes(x, w) {
			if m, ok := y.(VMask); ok {
				return VMask{!m.hi, m.d}
			}
			if _, ok := y.(VInt); !ok {
				return term("not", y)
			}
		}
	}
	if _, ok := y.(VBM); ok {
		if _, ok := x.(VBM); !ok {
			x, y = y, x
		}
	}
	switch a := x.(type) {
	case VInt:
		if _, ok := y.(VInt); ok {
			if isOpaque(x) || isOpaque(y) {
				return opaque(term(op.String(), x, y))
			}
			vx, ok1 := r.vecOf(s, x)
			vy, ok2 := r.vecOf(s, y)
			if ok1 && ok2 {
				return vvec(vmap2(vx, vy, func(a, b int64) int64 {
					if op == token.OR {
						return wrap(a|b, w, sg)
					}
					return wrap(a^b, w, sg)
				}))
			}
		}
	case VBM:
		switch b := y.(type) {
		case VBits:
			if a.view == 0 {
				for _, d := range b.d {
					if !r.ownOrFail(s, d, a.L) {
						return term(op.String(), x, y)
					}
					if op == token.XOR && r.ownBit(s, a) {
						a.own = 0
					} else {
						a.own = 1
					}
				}
				return a
			}
		case VBM:
			if a.view == 0 && b.view == 0 && a.own == b.own && r.eqL(s, a.L, b.L) {
				if a.base == b.base {
					if op == token.OR {
						return a
					}
					return vint(0)
				}
				if op == token.OR {
					a.base = 'P'
					return a
				}
				if a.base == 'T' {
					a, b = b, a
				}
				return term("bmdiff", a, b)
			}
		}
	case VBits:
		if b, ok := y.(VBits); ok {
			if op == token.OR {
				return r.mkBits(s, append(append([]VDig(nil), a.d...), b.d...))
			}
			var out []VDig
			for _, p := range [2][2]VBits{{a, b}, {b, a}} {
			outer:
				for _, d := range p[0].d {
					for _, e := range p[1].d {
						if eq, _ := r.digsEqual(s, d, e); eq {
							continue outer
						}
					}
					out = append(out, d)
				}
			}
			return r.mkBits(s, out)
		}
	}
	if bx, ok := asBV(x, w); ok {
		if by, ok := asBV(y, w); ok {
			if op == token.OR {
				if o, ok := bvOr(bx, by, w); ok {
					return o
				}
			} else if o, ok := r.bvDisjoint(bx, by, w); ok {
				return o
			} else {
				// zero exactly where the fields agree
				return term("bvxor", bx, by)
			}
		}
	}
	return term(op.String(), x, y)
}

func (r *Run) shl(s *State, x, y Value, w int, sg bool) Value {
	if k, ok := constOf(y); ok && k == 0 {
		return x
	}
	switch d := y.(type) {
	case VDig:
		if w >= 16 {
			if k, ok := constOf(x); ok && k == 1 {
				return VBits{[]VDig{d}}
			}
			if isAllOnes(x, w) {
				return VMask{true, d}
			}
			if k, ok := constOf(x); ok && k == 0xffff && w > 16 {
				return VMask{true, d} // also bits above the bitmap
			}
		}
	case VTerm:
		if d.op == "rsub" {
			if bm, ok := x.(VBM); ok && bm.view == 0 {
				if k, ok := constOf(d.args[0]); ok && k == int64(w) && r.ownOrFail(s, d.args[1].(VDig), bm.L) {
					bm.view = 'b'
					return term("shifted", bm)
				}
			}
		}
	case VInt:
		if _, ok := x.(VInt); ok {
			if isOpaque(x) || isOpaque(y) {
				if k, ok := constOf(y); ok && k < 62 && k >= 0 {
					return r.intRes(s, linMul(x.(VInt).l, 1<<k), w, sg)
				}
				return opaque(term("<<", x, y))
			}
			if k, ok := constOf(y); ok && k >= 0 && k < 32 {
				if _, isv := x.(VInt).l.vec(); !isv {
					return r.intRes(s, linMul(x.(VInt).l, 1<<k), w, sg)
				}
			}
			vx, ok1 := r.vecOf(s, x)
			vy, ok2 := r.vecOf(s, y)
			if ok1 && ok2 {
				if !r.rel(s, C(0), vy, leI) {
					panic(goPanic{"negative shift"})
				}
				return vvec(vmap2(vx, vy, func(a, b int64) int64 {
					if b >= int64(w) {
						return 0
					}
					return wrap(a<<uint(b), w, sg)
				}))
			}
		}
		if bv, ok := x.(VBV); ok {
			if v, ok := r.vecOf(s, d); ok {
				k := r.uniform(s, v)
				if k < 0 {
					panic(goPanic{"negative shift"})
				}
				if k >= int64(w) {
					return vint(0)
				}
				return bvShl(bv, int(k), w)
			}
		}
		if h, ok := x.(VHash); ok && w == 64 {
			if v, ok := r.vecOf(s, d); ok && r.rel(s, C(0), v, leI) && r.rel(s, h.s, C(0), leI) {
				h.s = vmap2(h.s, v, func(x, k int64) int64 { return x - k })
				h.w = vmap2(h.w, v, func(x, k int64) int64 { return min(64, x+k) })
				return r.mkHash(s, h)
			}
		}
	}
	return term("<<", x, y)
}

func (r *Run) shr(s *State, x, y Value, w int, sg bool) Value {
	if k, ok := constOf(y); ok && k == 0 {
		return x
	}
	switch d := y.(type) {
	case VDig:
		if bm, ok := x.(VBM); ok && bm.view == 0 && r.ownOrFail(s, d, bm.L) {
			bm.view = 's'
			return bm
		}
	case VTerm:
		if d.op == "rsub" {
			k, ok1 := constOf(d.args[0])
			c, ok2 := constOf(x)
			if m, ok := lowMask(c); ok1 && ok2 && ok && m == k && k >= 16 {
				return VMask{false, d.args[1].(VDig)}
			}
		}
	case VInt:
		switch a := x.(type) {
		case VInt:
			if isOpaque(x) || isOpaque(y) {
				return opaque(term(">>", x, y))
			}
			vx, ok1 := r.vecOf(s, x)
			vy, ok2 := r.vecOf(s, y)
			if ok1 && ok2 {
				if !r.rel(s, C(0), vy, leI) {
					panic(goPanic{"negative shift"})
				}
				return vvec(vmap2(vx, vy, func(a, b int64) int64 {
					if b >= int64(w) {
						if sg && a < 0 {
							return -1
						}
						return 0
					}
					if sg {
						return a >> uint(b)
					}
					if w == 64 {
						return int64(uint64(a) >> uint(b))
					}
					return wrap(a, w, false) >> uint(b)
				}))
			}
		case VHash:
			if v, ok := r.vecOf(s, d); ok {
				if !r.rel(s, C(0), v, leI) {
					panic(goPanic{"negative shift"})
				}
				a.s = vadd(a.s, v)
				a.w = vmap2(a.w, v, func(x, k int64) int64 { return max(0, x-k) })
				return r.mkHash(s, a)
			}
		case VDig:
			if k, ok := constOf(y); ok {
				if k >= 4 {
					return vint(0)
				}
			}
		case VBV:
			if v, ok := r.vecOf(s, d); ok {
				k := r.uniform(s, v)
				if k < 0 {
					panic(goPanic{"negative shift"})
				}
				f := bvFit(a, w)
				if k >= int64(w) && !sg {
					return vint(0)
				}
				k = min(k, int64(w))
				if !sg {
					return bvFit(bvShr(f, int(k)), w)
				}
				top := f.s[len(f.s)-1]
				out := bvShr(f, int(k)).s
				if top.src == nil {
					out = append(out, BVSeg{nil, 0, int(k)})
				} else {
					out = append(out, BVSeg{term("sign", keyBV(top.src, top.lo, top.w)), 0, int(k)})
				}
				return bvNorm(out)
			}
		case VBM:
			if r.scan && a.view == 0 && a.base == 'T' {
				if _, ok := d.l.vec(); ok {
					return term("tshr", a, d)
				}
			}
		}
	}
	return term(">>", x, y)
}

// ---- conversions

// textual: a string or byte-slice type, or a type parameter for these only.
func textual(t types.Type) bool {
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		it, ok := tp.Constraint().Underlying().(*types.Interface)
		if !ok || it.NumEmbeddeds() != 1 {
			return false
		}
		u, ok := it.EmbeddedType(0).(*types.Union)
		if !ok {
			return textual(it.EmbeddedType(0))
		}
		for i := 0; i < u.Len(); i++ {
			if !textual(u.Term(i).Type()) {
				return false
			}
		}
		return u.Len() > 0
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

func (r *Run) convert(s *State, v Value, from, to types.Type, sub map[*types.TypeParam]string, pos token.Pos) Value {
	if _, ok := v.(VTop); ok {
		return v
	}
	fu, tu := from.Underlying(), to.Underlying()
	fb, _ := fu.(*types.Basic)
	tb, _ := tu.(*types.Basic)
	if tb != nil && tb.Kind() == types.UnsafePointer {
		if fb != nil && fb.Kind() == types.Uintptr {
			switch u := v.(type) {
			case VUPtr:
				return r.ptrAdd(s, u.p, u.off)
			case VInt:
				if k, ok := constOf(u); ok && k == 0 {
					return VNil{}
				}
			}
			return VTop{"pointer made from an integer"}
		}
		return v
	}
	if fb != nil && fb.Kind() == types.UnsafePointer {
		if tb != nil && tb.Kind() == types.Uintptr {
			switch p := v.(type) {
			case VPtr:
				return VUPtr{p, linK(0)}
			case VNil:
				return vint(0)
			}
			return opaque(term("uintptr", v))
		}
		if pt, ok := tu.(*types.Pointer); ok {
			return r.castPtr(s, v, pt.Elem(), sub, pos)
		}
	}
	w1, s1, ok1 := intInfo(from)
	w2, s2, ok2 := intInfo(to)
	if ok1 && ok2 {
		return r.convInt(s, r.simp(s, v), w1, s1, w2, s2)
	}
	if ok1 && isFloat(to) {
		if tb.Kind() == types.Float32 {
			return term("float32", v)
		}
		return term("float", v)
	}
	if fb != nil && tb != nil && isFloat(from) && isFloat(to) {
		if fb.Kind() == tb.Kind() {
			return v
		}
		return term(tb.Name(), v)
	}
	isStr := func(b *types.Basic) bool { return b != nil && b.Info()&types.IsString != 0 }
	if _, ok := tu.(*types.Slice); ok && isStr(fb) {
		return term("conv", v)
	}
	if _, ok := fu.(*types.Slice); ok && isStr(tb) {
		return term("conv", r.sliceContent(s, v))
	}
	if isStr(fb) && isStr(tb) {
		return v
	}
	if types.Identical(fu, tu) {
		return v
	}
	if textual(from) && textual(to) {
		return term("conv", r.sliceContent(s, v))
	}
	return VTop{"conversion to " + typeKey(to, sub)}
}

func (r *Run) convInt(s *State, v Value, w1 int, s1 bool, w2 int, s2 bool) Value {
	switch a := v.(type) {
	case VInt:
		return r.intRes(s, a.l, w2, s2)
	case VHash:
		a.w = vmap1(a.w, func(x int64) int64 { return min(x, int64(w2)) })
		return r.mkHash(s, a)
	case VDig:
		return a
	case VBM, VBits:
		if w2 >= 16 {
			return a
		}
	case VMask:
		if w2 >= 16 && (!a.hi || w2 <= w1) {
			return a
		}
		if w2 >= 16 && a.hi && s1 && w2 > w1 {
			return a
		}
		if w2 >= 16 && a.hi {
			return a // only the 16 bitmap bits matter
		}
	case VBV:
		if w2 <= w1 {
			return bvFit(bvFit(a, w1), w2)
		}
		f := bvFit(a, w1)
		top := f.s[len(f.s)-1]
		if s1 && top.src != nil {
			return bvNorm(append(append([]BVSeg(nil), f.s...), BVSeg{term("sign", keyBV(top.src, top.lo, top.w)), 0, w2 - w1}))
		}
		return bvFit(f, w2)
	case VUPtr:
		if w2 == 64 {
			return a
		}
	case VTerm:
		if a.op == "rsub" {
			return a
		}
		if w2 >= w1 {
			return a
		}
	}
	return term(fmt.Sprintf("int%d", w2), v)
}

// sliceContent is the value of the bytes a slice refers to.
func (r *Run) sliceContent(s *State, v Value) Value {
	switch p := v.(type) {
	case VNil:
		return term(`str:""`)
	case VTerm:
		return p
	case VSlice:
		c := r.content(s, p.base.ref)
		ok := true
		for _, st := range p.base.path {
			if st.f >= 0 {
				c = r.field(c, st.f)
			} else {
				ok = false
			}
		}
		if !ok {
			return VTop{"slice contents"}
		}
		off, ok1 := p.off.vec()
		switch a := c.(type) {
		case VArr:
			n, ok2 := r.needVec(s, p.len)
			if !ok1 || !ok2 {
				return VTop{"slice contents"}
			}
			o, l := r.uniform(s, off), r.uniform(s, n)
			if o < 0 || o+l > int64(len(a.e)) {
				return VTop{"slice contents"}
			}
			return VTerm{"bytes", a.e[o : o+l]}
		case VSegs:
			n, ok2 := r.needVec(s, p.len)
			if !ok1 || !ok2 {
				return VTop{"slice contents"}
			}
			o, l := r.uniform(s, off), r.uniform(s, n)
			t := VTerm{op: "bytes"}
			for i := o; i < o+l; i++ {
				t.args = append(t.args, r.segRead(s, a, C(i)))
			}
			return t
		case VTerm:
			if o := r.objOf(s, p.base.ref); o != nil && o.T != nil {
				if arr, ok := typeAt(o.T, p.base.path).(*types.Array); ok && arr != nil {
					if n, ok := p.len.vec(); ok && ok1 && off.is(0) && n.is(arr.Len()) {
						return a
					}
					return term("slice", a, VInt{p.off}, VInt{p.len})
				}
				if t := typeAt(o.T, p.base.path); t != nil {
					if arr, ok := t.Underlying().(*types.Array); ok {
						if n, ok := p.len.vec(); ok && ok1 && off.is(0) && n.is(arr.Len()) {
							return a
						}
						return term("slice", a, VInt{p.off}, VInt{p.len})
					}
				}
			}
			if ok1 && off.is(0) && (valEq(VInt{p.len}, r.lenOf(s, a))) {
				return a
			}
			return term("slice", a, VInt{p.off}, VInt{p.len})
		}
	}
	return VTop{"slice contents"}
}

func (r *Run) lenOf(s *State, v Value) Value {
	switch a := v.(type) {
	case VNil:
		return vint(0)
	case VSlice:
		return VInt{a.len}
	case VArr:
		return vint(int64(len(a.e)))
	case VTerm:
		if a.op == `str:""` {
			return vint(0)
		}
		if a.op == "bytes" {
			return vint(int64(len(a.args)))
		}
		return opaque(term("len", strip(v)))
	}
	return opaque(term("len", v))
}

// elemField is a field of item i while iterating over a level.
func (r *Run) elemField(s *State, x VTerm, f int, pos token.Pos) Value {
	lay := r.a.lay
	L, _ := x.args[0].(VInt).l.vec()
	i, _ := x.args[1].(VInt).l.vec()
	if !r.ordLeaf(s, L, i) {
		return term(fmt.Sprintf("sub:%d", f), vvec(i))
	}
	kv := Value(VPtr{ref: Ref{k: RKVElem, L: L, i: i}})
	if r.c.noEntry {
		kv = VNil{}
	}
	switch f {
	case lay.lPtr:
		return kv
	case lay.lP:
		if r.c.inline {
			return keyBV(term("skeyE", vvec(i)), 0, 32)
		}
	case lay.lT:
		if r.c.inline {
			return keyBV(term("skeyE", vvec(i)), 32, 32)
		}
		return vint(0)
	}
	return term(fmt.Sprintf("field:%d", f), x)
}
