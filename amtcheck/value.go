package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract values.

type Value interface{}

// RK is the kind of a memory object.
type RK byte

const (
	RRoot   RK = 'R' // the root struct of the analysed container
	RCell   RK = 'C' // item header on the path of the analysed key: level L (0: the root's own header)
	RNode   RK = 'N' // item array of the level-L node on that path
	RKV     RK = 'K' // entry stored at the leaf found in level L
	RKVElem RK = 'E' // entry stored in element i of the level-L node (iteration)
	RFresh  RK = 'F' // object allocated by the analysed operation
	RGlobal RK = 'G' // package-level variable (id)
)

type Ref struct {
	k    RK
	L, i Vec
	id   int
}

type Step struct {
	f   int // field index, or -1 for an index step
	idx Lin
}

type AtomK byte

const (
	aCount AtomK = 'c' // number of items initially in the level-L node
	aRank  AtomK = 'r' // number of those with a digit below the key's digit at level L
	aTerm  AtomK = 't' // an uninterpreted integer
)

type Atom struct {
	k AtomK
	L Vec
	t Value
}

type LT struct {
	a Atom
	k int64
}

// Lin is c + sum of k*atom.
type Lin struct {
	c Vec
	t []LT
}

type VInt struct{ l Lin }
type VBool struct{ b bool }
type VNil struct{}
type VPtr struct {
	ref  Ref
	path []Step
}
type VUPtr struct { // integer value of pointer p plus off bytes
	p   VPtr
	off Lin
}
type VSlice struct {
	base          VPtr
	off, len, cap Lin
}
type VStruct struct{ f []Value }
type VArr struct{ e []Value }
type Seg struct {
	from, to Vec
	v        Value  // the element at from
	rel      []bool // per integer slot of v: increases by one per element (nil: single element)
}
type VSegs struct{ s []Seg }
type NElem struct {
	i int64
	v Value
}
type VNode struct{ e []NElem } // explicitly written slots of an existing item array
type VTerm struct {
	op   string
	args []Value
}
type VHash struct { // bits [s, s+w) of the q'th 64-bit hash of stream; bits below 0 are zero, from 64 on they repeat (rotated)
	stream  Value
	q, s, w Vec
}
type VDig struct { // the 4 hash bits of stream for level L
	stream Value
	L      Vec
}
type VBM struct { // presence (P) or type (T) bitmap of the level-L node
	base byte
	L    Vec
	own  int8 // the key's own digit: -1 as initially, 0 cleared, 1 set
	view byte // 0 all bits; 'b' bits below the key's digit; 's' shifted right by it
}
type VBits struct{ d []VDig } // bits of a set of digits
type VMask struct {           // hi: all bits >= digit; otherwise all bits < digit
	hi bool
	d  VDig
}
type BVSeg struct { // bits [lo, lo+w) of src (nil: zero bits)
	src Value
	lo  int
	w   int
}
type VBV struct{ s []BVSeg }
type VFunc struct {
	fn   *ssa.Function
	bind []Value
	sub  map[*types.TypeParam]string
}
type VTuple struct{ e []Value }
type VTop struct{ why string }
type VHasher struct {
	seed    Value
	content Value
	writes  Vec
	bad     string
}

func linC(v Vec) Lin                   { return Lin{c: v} }
func linK(k int64) Lin                 { return Lin{c: C(k)} }
func linA(a Atom) Lin                  { return Lin{t: []LT{{a, 1}}} }
func vint(k int64) Value               { return VInt{linK(k)} }
func vvec(v Vec) Value                 { return VInt{linC(v)} }
func term(op string, a ...Value) VTerm { return VTerm{op, a} }

func atomEq(a, b Atom) bool {
	if a.k != b.k {
		return false
	}
	if a.k == aTerm {
		return valEq(a.t, b.t)
	}
	return vsame(a.L, b.L)
}

func linAdd(a, b Lin, kb int64) Lin {
	r := Lin{c: vadd(a.c, vmulc(b.c, kb))}
	r.t = append(r.t, a.t...)
outer:
	for _, t := range b.t {
		for i := range r.t {
			if atomEq(r.t[i].a, t.a) {
				n := make([]LT, len(r.t))
				copy(n, r.t)
				n[i].k += t.k * kb
				if n[i].k == 0 {
					n = append(n[:i], n[i+1:]...)
				}
				r.t = n
				continue outer
			}
		}
		r.t = append(r.t[:len(r.t):len(r.t)], LT{t.a, t.k * kb})
	}
	return r
}

func linMul(a Lin, k int64) Lin {
	r := Lin{c: vmulc(a.c, k)}
	if k != 0 {
		for _, t := range a.t {
			r.t = append(r.t, LT{t.a, t.k * k})
		}
	}
	return r
}

func (l Lin) vec() (Vec, bool) {
	if len(l.t) == 0 {
		return l.c, true
	}
	return Vec{}, false
}

// ---- traversal

type mapper struct {
	vec  func(Vec) Vec
	obj  func(int) int
	term func(VTerm) (Value, bool)
}

func (m *mapper) mv(v Vec) Vec {
	if m.vec == nil {
		return v
	}
	return m.vec(v)
}

func (m *mapper) ref(r Ref) Ref {
	switch r.k {
	case RCell, RNode, RKV:
		r.L = m.mv(r.L)
	case RKVElem:
		r.L = m.mv(r.L)
		r.i = m.mv(r.i)
	case RFresh:
		if m.obj != nil {
			r.id = m.obj(r.id)
		}
	}
	return r
}

func (m *mapper) lin(l Lin) Lin {
	r := Lin{c: m.mv(l.c)}
	for _, t := range l.t {
		r.t = append(r.t, LT{m.atom(t.a), t.k})
	}
	return r
}

func (m *mapper) atom(a Atom) Atom {
	if a.k == aTerm {
		a.t = m.val(a.t)
	} else {
		a.L = m.mv(a.L)
	}
	return a
}

func (m *mapper) ptr(p VPtr) VPtr {
	r := VPtr{ref: m.ref(p.ref)}
	for _, s := range p.path {
		if s.f < 0 {
			s.idx = m.lin(s.idx)
		}
		r.path = append(r.path, s)
	}
	return r
}

func (m *mapper) vals(a []Value) []Value {
	if a == nil {
		return nil
	}
	r := make([]Value, len(a))
	for i, v := range a {
		r[i] = m.val(v)
	}
	return r
}

func (m *mapper) dig(d VDig) VDig { return VDig{m.val(d.stream), m.mv(d.L)} }

func (m *mapper) val(v Value) Value {
	switch v := v.(type) {
	case nil:
		return nil
	case VInt:
		return VInt{m.lin(v.l)}
	case VBool, VNil, VTop:
		return v
	case VPtr:
		return m.ptr(v)
	case VUPtr:
		return VUPtr{m.ptr(v.p), m.lin(v.off)}
	case VSlice:
		return VSlice{m.ptr(v.base), m.lin(v.off), m.lin(v.len), m.lin(v.cap)}
	case VStruct:
		return VStruct{m.vals(v.f)}
	case VArr:
		return VArr{m.vals(v.e)}
	case VSegs:
		r := VSegs{}
		for _, s := range v.s {
			r.s = append(r.s, Seg{m.mv(s.from), m.mv(s.to), m.val(s.v), s.rel})
		}
		return r
	case VNode:
		r := VNode{}
		for _, e := range v.e {
			r.e = append(r.e, NElem{e.i, m.val(e.v)})
		}
		return r
	case VTerm:
		if m.term != nil {
			if x, ok := m.term(v); ok {
				return x
			}
		}
		return VTerm{v.op, m.vals(v.args)}
	case VHash:
		return VHash{m.val(v.stream), m.mv(v.q), m.mv(v.s), m.mv(v.w)}
	case VDig:
		return m.dig(v)
	case VBM:
		v.L = m.mv(v.L)
		return v
	case VBits:
		r := VBits{}
		for _, d := range v.d {
			r.d = append(r.d, m.dig(d))
		}
		return r
	case VMask:
		return VMask{v.hi, m.dig(v.d)}
	case VBV:
		r := VBV{}
		for _, s := range v.s {
			r.s = append(r.s, BVSeg{m.val(s.src), s.lo, s.w})
		}
		return r
	case VFunc:
		return VFunc{v.fn, m.vals(v.bind), v.sub}
	case VTuple:
		return VTuple{m.vals(v.e)}
	case VHasher:
		return VHasher{m.val(v.seed), m.val(v.content), m.mv(v.writes), v.bad}
	}
	panic(fmt.Sprintf("mapper: %T", v))
}

// ---- encoding: shape string plus the integer slots in order

type enc struct {
	sb   strings.Builder
	vecs []Vec
}

func (e *enc) s(x string) { e.sb.WriteString(x); e.sb.WriteByte(' ') }
func (e *enc) n(x int)    { fmt.Fprintf(&e.sb, "%d ", x) }
func (e *enc) vec(v Vec)  { e.sb.WriteString("# "); e.vecs = append(e.vecs, v) }
func (e *enc) ref(r Ref) {
	e.sb.WriteByte(byte(r.k))
	switch r.k {
	case RCell, RNode, RKV:
		e.vec(r.L)
	case RKVElem:
		e.vec(r.L)
		e.vec(r.i)
	case RFresh, RGlobal:
		e.n(r.id)
	}
}
func (e *enc) lin(l Lin) {
	e.vec(l.c)
	for _, t := range l.t {
		e.n(int(t.k))
		e.sb.WriteByte(byte(t.a.k))
		if t.a.k == aTerm {
			e.val(t.a.t)
		} else {
			e.vec(t.a.L)
		}
	}
	e.s(";")
}
func (e *enc) ptr(p VPtr) {
	e.ref(p.ref)
	for _, s := range p.path {
		if s.f >= 0 {
			e.s(".")
			e.n(s.f)
		} else {
			e.s("[")
			e.lin(s.idx)
		}
	}
	e.s("|")
}
func (e *enc) vals(a []Value) {
	e.n(len(a))
	for _, v := range a {
		e.val(v)
	}
}
func (e *enc) dig(d VDig) { e.val(d.stream); e.vec(d.L) }

func (e *enc) val(v Value) {
	switch v := v.(type) {
	case nil:
		e.s("_")
	case VInt:
		e.s("i")
		e.lin(v.l)
	case VBool:
		if v.b {
			e.s("true")
		} else {
			e.s("false")
		}
	case VNil:
		e.s("nil")
	case VTop:
		e.s("top")
	case VPtr:
		e.s("p")
		e.ptr(v)
	case VUPtr:
		e.s("u")
		e.ptr(v.p)
		e.lin(v.off)
	case VSlice:
		e.s("sl")
		e.ptr(v.base)
		e.lin(v.off)
		e.lin(v.len)
		e.lin(v.cap)
	case VStruct:
		e.s("st")
		e.vals(v.f)
	case VArr:
		e.s("ar")
		e.vals(v.e)
	case VSegs:
		e.s("sg")
		e.n(len(v.s))
		for _, s := range v.s {
			e.vec(s.from)
			e.vec(s.to)
			e.val(s.v)
			for _, r := range s.rel {
				if r {
					e.sb.WriteByte('1')
				} else {
					e.sb.WriteByte('0')
				}
			}
			e.s("/")
		}
	case VNode:
		e.s("nd")
		e.n(len(v.e))
		for _, x := range v.e {
			e.n(int(x.i))
			e.val(x.v)
		}
	case VTerm:
		e.s("t")
		e.s(v.op)
		e.vals(v.args)
	case VHash:
		e.s("h")
		e.val(v.stream)
		e.vec(v.q)
		e.vec(v.s)
		e.vec(v.w)
	case VDig:
		e.s("d")
		e.dig(v)
	case VBM:
		e.s("bm")
		e.sb.WriteByte(v.base)
		e.n(int(v.own))
		e.n(int(v.view))
		e.vec(v.L)
	case VBits:
		e.s("b")
		e.n(len(v.d))
		for _, d := range v.d {
			e.dig(d)
		}
	case VMask:
		if v.hi {
			e.s("mh")
		} else {
			e.s("ml")
		}
		e.dig(v.d)
	case VBV:
		e.s("bv")
		e.n(len(v.s))
		for _, s := range v.s {
			e.n(s.lo)
			e.n(s.w)
			e.val(s.src)
		}
	case VFunc:
		e.s("fn")
		fmt.Fprintf(&e.sb, "%p ", v.fn)
		e.vals(v.bind)
	case VTuple:
		e.s("tu")
		e.vals(v.e)
	case VHasher:
		e.s("hs")
		e.val(v.seed)
		e.val(v.content)
		e.vec(v.writes)
		e.s(v.bad)
	default:
		panic(fmt.Sprintf("enc: %T", v))
	}
}

// valEq is structural equality on all lanes.
func valEq(a, b Value) bool {
	var ea, eb enc
	ea.val(a)
	eb.val(b)
	if ea.sb.String() != eb.sb.String() {
		return false
	}
	for i := range ea.vecs {
		if !vsame(ea.vecs[i], eb.vecs[i]) {
			return false
		}
	}
	return true
}

// hasTop reports whether an unknown value occurs in v, and why.
func hasTop(v Value) (string, bool) {
	why, found := "", false
	var walk func(v Value)
	walk = func(v Value) {
		switch v := v.(type) {
		case VTop:
			why, found = v.why, true
		case VStruct:
			for _, x := range v.f {
				walk(x)
			}
		case VArr:
			for _, x := range v.e {
				walk(x)
			}
		case VTerm:
			for _, x := range v.args {
				walk(x)
			}
		case VTuple:
			for _, x := range v.e {
				walk(x)
			}
		}
	}
	walk(v)
	return why, found
}

// str renders a value for reports.
func str(v Value) string {
	vs := func(v Vec) string {
		if v.v == nil {
			return fmt.Sprint(v.c)
		}
		if len(v.v) > 3 {
			return fmt.Sprintf("%d,%d..%d", v.v[0], v.v[1], v.v[len(v.v)-1])
		}
		return strings.Trim(fmt.Sprint(v.v), "[]")
	}
	var ptr func(p VPtr) string
	var lin func(l Lin) string
	lin = func(l Lin) string {
		var p []string
		for _, t := range l.t {
			n := ""
			switch t.a.k {
			case aCount:
				n = "count(" + vs(t.a.L) + ")"
			case aRank:
				n = "rank(" + vs(t.a.L) + ")"
			default:
				n = str(t.a.t)
			}
			if t.k != 1 {
				n = fmt.Sprintf("%d*%s", t.k, n)
			}
			p = append(p, n)
		}
		if !l.c.is(0) || len(p) == 0 {
			p = append(p, vs(l.c))
		}
		return strings.Join(p, "+")
	}
	ptr = func(p VPtr) string {
		s := ""
		switch p.ref.k {
		case RRoot:
			s = "root"
		case RCell:
			s = "item@level" + vs(p.ref.L)
		case RNode:
			s = "array@level" + vs(p.ref.L)
		case RKV:
			s = "entry@level" + vs(p.ref.L)
		case RKVElem:
			s = "entry of item " + vs(p.ref.i)
		case RFresh:
			s = fmt.Sprintf("new#%d", p.ref.id)
		default:
			s = "global"
		}
		for _, st := range p.path {
			if st.f >= 0 {
				s += fmt.Sprintf(".%d", st.f)
			} else {
				s += "[" + lin(st.idx) + "]"
			}
		}
		return s
	}
	list := func(a []Value) string {
		var p []string
		for _, x := range a {
			p = append(p, str(x))
		}
		return strings.Join(p, ", ")
	}
	dig := func(d VDig) string { return "digit(" + str(d.stream) + "," + vs(d.L) + ")" }
	switch v := v.(type) {
	case nil:
		return "?"
	case VInt:
		return lin(v.l)
	case VBool:
		return fmt.Sprint(v.b)
	case VNil:
		return "nil"
	case VPtr:
		return "&" + ptr(v)
	case VUPtr:
		return "uintptr(" + ptr(v.p) + "+" + lin(v.off) + ")"
	case VSlice:
		return ptr(v.base) + "[" + lin(v.off) + ":+" + lin(v.len) + "]"
	case VStruct:
		return "{" + list(v.f) + "}"
	case VArr:
		return "[" + list(v.e) + "]"
	case VSegs:
		s := ""
		for _, g := range v.s {
			s += "[" + vs(g.from) + ":" + vs(g.to) + "]=" + str(g.v) + " "
		}
		return "segs(" + s + ")"
	case VTerm:
		if len(v.args) == 0 {
			return v.op
		}
		return v.op + "(" + list(v.args) + ")"
	case VHash:
		return "hash(" + str(v.stream) + ")#" + vs(v.q) + ">>" + vs(v.s) + ":" + vs(v.w)
	case VDig:
		return dig(v)
	case VBM:
		s := map[byte]string{'P': "present", 'T': "leaves"}[v.base] + "(" + vs(v.L) + ")"
		switch v.own {
		case 0:
			s += "-own"
		case 1:
			s += "+own"
		}
		if v.view != 0 {
			s += "/" + string(v.view)
		}
		return s
	case VBits:
		var p []string
		for _, d := range v.d {
			p = append(p, dig(d))
		}
		return "bits{" + strings.Join(p, ", ") + "}"
	case VMask:
		return fmt.Sprintf("mask(hi=%v,%s)", v.hi, dig(v.d))
	case VBV:
		var p []string
		for _, s := range v.s {
			if s.src == nil {
				p = append(p, fmt.Sprintf("0:%d", s.w))
			} else {
				p = append(p, fmt.Sprintf("%s[%d:%d]", str(s.src), s.lo, s.lo+s.w))
			}
		}
		return "bv(" + strings.Join(p, "|") + ")"
	case VFunc:
		return v.fn.Name()
	case VTuple:
		return "(" + list(v.e) + ")"
	case VTop:
		return "unknown(" + v.why + ")"
	case VHasher:
		return fmt.Sprintf("hasher(%s,%s,%s)", str(v.seed), str(v.content), vs(v.writes))
	case VNode:
		s := ""
		for _, e := range v.e {
			s += fmt.Sprintf("%d:%s ", e.i, str(e.v))
		}
		return "slots(" + s + ")"
	}
	return fmt.Sprintf("%T", v)
}
