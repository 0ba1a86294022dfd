package main

import (
	"fmt"
	"go/token"
	"go/types"
	"runtime/debug"
	"strings"
	"time"
)

// The specification: for every abstract final state of an operation, what the
// result and the container must be, given what the path established about the
// initial contents.

// kvField is the index of the value (or key) field of an entry type; -1 if the
// entry is the value itself, -2 if there is none.
func (r *Run) kvFields(T types.Type, sub map[*types.TypeParam]string) (kf, vf int) {
	if typeKey(T, sub) == r.c.valType && !r.c.isSet {
		return -2, -1
	}
	st, ok := T.Underlying().(*types.Struct)
	if !ok {
		return -2, -2
	}
	kf = -2
	if !r.c.inline {
		if k := r.keyField(st, sub); k >= 0 {
			kf = k
		}
	}
	vf = -2
	for i := 0; i < st.NumFields(); i++ {
		if i != kf && typeKey(st.Field(i).Type(), sub) == r.c.valType {
			if vf < 0 || st.Field(i).Name() == "v" {
				vf = i
			}
		}
	}
	return
}

func (r *Run) valField(kv string) int {
	kt, ok := r.c.kvTypes[kv]
	if !ok {
		return -2
	}
	_, vf := r.kvFields(kt.T, kt.sub)
	return vf
}

func fieldPath(f int) []Step {
	if f < 0 {
		return nil
	}
	return []Step{{f: f}}
}

// forall runs check on every refinement of the final state that it asks for.
func (r *Run) forall(s *State, check func(s *State)) {
	work := []*State{s}
	for n := 0; len(work) > 0; n++ {
		if n > 200000 || n > 2000 && len(s.notes) > 0 || n&15 == 15 && !r.checkUntil.IsZero() && time.Now().After(r.checkUntil) {
			r.undecided(r.lastPos, "too many cases in a final state")
			return
		}
		s := work[len(work)-1]
		work = work[:len(work)-1]
		c := s.clone()
		c.choice, c.cpos = nil, 0
		var pend []*Violation
		r.pend = &pend
		d, why := tryCheck(check, c)
		r.pend = nil
		if d != nil {
			s.cpos = 0
			work = append(work, r.splitBy(s, *d, 0)...)
			continue
		}
		r.obl++
		for _, v := range pend {
			r.emit(v)
		}
		if why != "" {
			r.undecided(r.lastPos, "final state: "+why)
		}
	}
}

func tryCheck(check func(*State), s *State) (d *demand, why string) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case demand:
			d = &e
		case goPanic:
			why = e.why
		default:
			panic(e)
		}
	}()
	check(s)
	return
}

// guard runs f, turning internal aborts into undecided reports.
func (r *Run) guard(f func()) {
	defer func() {
		r.pend = nil
		if e := recover(); e != nil {
			if ab, ok := e.(abort); ok {
				r.undecided(r.lastPos, "checking stopped: "+ab.why)
				return
			}
			r.undecided(r.lastPos, fmt.Sprintf("internal error while checking: %v", e)+stack())
		}
	}()
	f()
}

// category of the analysed key with respect to the initial contents.
func (r *Run) category(s *State) string {
	for {
		if !r.needMemP(s, s.spine) {
			return "absent"
		}
		if r.needMemT(s, s.spine) {
			break
		}
	}
	if r.keyEq(s, s.spine) {
		return "present"
	}
	return "conflict"
}

func (r *Run) checkFinals() {
	r.checkUntil = time.Now().Add(60 * time.Second)
	if d := r.a.deadline; !d.IsZero() && d.Sub(r.checkUntil) > 0 {
		r.checkUntil = d
	}
	r.guard(func() {
		for _, f := range r.finals {
			if time.Now().After(r.checkUntil) {
				r.undecided(f.pos, "too many path ends")
				return
			}
			f.s.res = f.res
			pos := f.pos
			r.lastPos = pos
			if f.panic == "" {
				r.checkLocks(f.s, pos)
			}
			if r.role == "meta" {
				r.cat = ""
				r.forall(f.s, func(s *State) { r.checkMeta(s, f) })
				continue
			}
			r.forall(f.s, func(s *State) {
				r.cat = ""
				cat := r.category(s)
				r.cat = cat
				r.cats[cat]++
				r.noteStream(s)
				if s.cbPanic {
					r.did("callback-panic")
					r.untouched(s, pos, func(Ref) bool { return false })
					r.rootAfter(s, pos, 0, C(0))
					return
				}
				r.did("panic")
				if f.panic != "" {
					r.fail(s, pos, "panic", "%s panics (%s) in the case: key %s", r.name, f.panic, r.situation(s))
					return
				}
				switch r.role {
				case "read":
					r.checkRead(s, pos)
				case "insert":
					r.checkInsert(s, pos)
				case "del":
					r.checkDel(s, pos)
				}
			})
			r.cat = ""
		}
	})
}

func stack() string { return "\n" + string(debug.Stack()) }

func (r *Run) situation(s *State) string {
	return fmt.Sprintf("%s at level %s", r.cat, str(vvec(s.spine)))
}

// ---- generic comparisons of final values

// must compares a value; an unknown value is undecided, another one a violation.
func (r *Run) must(s *State, pos token.Pos, rule string, ok bool, got Value, what string) bool {
	r.did(rule)
	if ok {
		return true
	}
	if why, top := hasTop(got); top {
		if r.reported(nil, pos, "undecided") {
			return false
		}
		r.undecided(pos, fmt.Sprintf("%s: %s is unknown (%s)", r.situation(s), what, why))
		return false
	}
	if x, ok := got.(VStruct); ok && r.role == "del" && (rule == "slots" || rule == "collapse") {
		if p, ok := x.f[r.a.lay.lPtr].(VPtr); ok && p.ref.k == RFresh {
			rule += "-copy" // deleting makes no entries: this is a copy of one
		}
	}
	if !r.reported(s, pos, rule) {
		r.fail(s, pos, rule, "key %s: %s is %s", r.situation(s), what, str(got))
	}
	return false
}

func (r *Run) isZeroInt(s *State, v Value) bool {
	switch x := r.simp(s, v).(type) {
	case VInt:
		y, ok := x.l.vec()
		return ok && y.is(0)
	case VBM, VBits:
		b, ok := r.equal(s, x, vint(0), nil).(VBool)
		return ok && b.b
	case VBV:
		for _, g := range x.s {
			if g.src != nil {
				return false
			}
		}
		return true
	}
	return false
}

func (r *Run) bmIs(s *State, v Value, base byte, L Vec, own int8) bool {
	v = r.simp(s, v)
	switch v.(type) {
	case VBM, VBits, VInt:
		b, ok := r.equal(s, v, VBM{base, L, own, 0}, nil).(VBool)
		return ok && b.b
	}
	return false
}

func (r *Run) bitsAre(s *State, v Value, ds ...VDig) bool {
	v = r.simp(s, v)
	b, ok := v.(VBits)
	if !ok || len(b.d) != len(ds) {
		return false
	}
	want, ok := r.mkBits(s, ds).(VBits)
	return ok && valEq(b, want)
}

func (r *Run) linIs(s *State, v Value, want Lin) bool {
	x, ok := r.simp(s, v).(VInt)
	if !ok {
		return false
	}
	d, ok := r.simpLin(s, linAdd(x.l, want, -1)).vec()
	return ok && d.is(0)
}

func (r *Run) linkField(v Value, f int) Value {
	switch x := v.(type) {
	case VStruct:
		if f < len(x.f) {
			return x.f[f]
		}
	case VTerm:
		return term(fmt.Sprintf("field:%d", f), x)
	}
	return VTop{"item " + str(v)}
}

// isElem reports whether v is the initial item i of the level-L node.
func (r *Run) isElem(s *State, v Value, L Vec, i int64) bool {
	want := term("elem", vvec(L), vint(i))
	switch x := v.(type) {
	case VTerm:
		return valEq(x, want)
	case VStruct:
		for _, f := range []int{r.a.lay.lPtr, r.a.lay.lP, r.a.lay.lT} {
			if !valEq(x.f[f], term(fmt.Sprintf("field:%d", f), want)) {
				return false
			}
		}
		return true
	}
	return false
}

func (r *Run) isZeroLink(s *State, v Value) bool {
	x, ok := v.(VStruct)
	if !ok {
		return false
	}
	_, isNil := x.f[r.a.lay.lPtr].(VNil)
	return isNil && r.isZeroInt(s, x.f[r.a.lay.lP]) && r.isZeroInt(s, x.f[r.a.lay.lT])
}

// keyOf is the key a leaf's inline bits or an entry's key field stand for.
func isKeyVal(v Value, key Value) bool {
	if b, ok := v.(VBV); ok {
		if len(b.s) == 1 && b.s[0].lo == 0 && b.s[0].w == 64 {
			return valEq(b.s[0].src, key)
		}
		return false
	}
	return valEq(strip(v), key)
}

// linkSlots are the slots of the item array p points to (fresh allocation).
func (r *Run) freshSlots(s *State, p VPtr) ([]Value, bool) {
	if p.ref.k != RFresh || len(p.path) == 0 {
		return nil, false
	}
	last := p.path[len(p.path)-1]
	if last.f >= 0 {
		return nil, false
	}
	c := s.objs[p.ref.id].val
	for _, st := range p.path[:len(p.path)-1] {
		if st.f < 0 {
			return nil, false
		}
		c = r.field(c, st.f)
	}
	iv, ok := r.needVec(s, last.idx)
	if !ok {
		return nil, false
	}
	o := r.uniform(s, iv)
	switch a := c.(type) {
	case VArr:
		if o < 0 || o > int64(len(a.e)) {
			return nil, false
		}
		return a.e[o:], true
	case VSegs:
		var out []Value
		n := int64(0)
		if k := len(a.s); k > 0 {
			n = r.uniform(s, a.s[k-1].to)
		}
		for i := o; i < n; i++ {
			out = append(out, r.segRead(s, a, C(i)))
		}
		return out, true
	}
	return nil, false
}

func ceil4(n int64) int64 { return (n + 3) / 4 * 4 }

// finalSlots are the slots of the array the level-L header refers to at the end.
func (r *Run) finalSlots(s *State, L Vec, ptr Value, pos token.Pos) (slots []Value, fresh, ok bool) {
	p, isP := ptr.(VPtr)
	if !isP {
		r.must(s, pos, "level-array", false, ptr, "the level's array")
		return nil, false, false
	}
	if p.ref.k == RNode {
		if len(p.path) != 1 || p.path[0].f >= 0 || !r.eqL(s, p.ref.L, L) || !r.linIs(s, VInt{p.path[0].idx}, linK(0)) {
			r.must(s, pos, "level-array", false, ptr, "the level's array")
			return nil, false, false
		}
		c, k := r.concretise(s, L)
		n := int64(16)
		if !r.eqL(s, L, C(0)) {
			n = ceil4(c)
		}
		for i := int64(0); i < n; i++ {
			if r.memP(s, L) == yes && i == k {
				slots = append(slots, r.content(s, Ref{k: RCell, L: vaddc(L, 1)}))
			} else {
				slots = append(slots, r.slotVal(s, L, i, C(i)))
			}
		}
		return slots, false, true
	}
	sl, ok2 := r.freshSlots(s, p)
	if !ok2 {
		r.must(s, pos, "level-array", false, ptr, "the level's array")
		return nil, false, false
	}
	return sl, true, true
}

// ---- readers

func (r *Run) checkRead(s *State, pos token.Pos) {
	hit := r.cat == "present"
	S := s.spine
	isTrue := func(v Value) (bool, bool) {
		b, ok := v.(VBool)
		return b.b, ok
	}
	switch r.method {
	case "Has":
		b, ok := isTrue(s.res[0])
		r.must(s, pos, "lookup", ok && b == hit, s.res[0], "Has")
	case "Ptr":
		if !hit {
			_, ok := s.res[0].(VNil)
			r.must(s, pos, "lookup", ok, s.res[0], "Ptr")
			return
		}
		r.must(s, pos, "lookup", r.isValPtr(s, s.res[0], S), s.res[0], "Ptr")
	case "Get", "Val":
		want := Value(term("zero:" + r.c.valType))
		if hit {
			want = term("val", vvec(S))
		}
		r.must(s, pos, "lookup", valEq(s.res[0], want), s.res[0], "the value")
		if r.method == "Get" {
			b, ok := isTrue(s.res[1])
			r.must(s, pos, "lookup", ok && b == hit, s.res[1], "the ok result")
		}
	}
}

func (r *Run) isValPtr(s *State, v Value, S Vec) bool {
	p, ok := v.(VPtr)
	if !ok || p.ref.k != RKV || !r.eqL(s, p.ref.L, S) {
		return false
	}
	vf := r.valField(s.kvType)
	if vf == -1 {
		return len(p.path) == 0
	}
	return len(p.path) == 1 && p.path[0].f == vf
}

// checkMeta: Nil, Len and Dep of an initialised container.
func (r *Run) checkMeta(s *State, f *Final) {
	r.did("meta")
	if f.panic != "" {
		r.fail(s, f.pos, "panic", "%s panics (%s)", r.name, f.panic)
		return
	}
	len0 := VInt{linA(Atom{k: aTerm, t: term("len0")})}
	dep0 := VInt{linA(Atom{k: aTerm, t: term("dep0")})}
	v := s.res[0]
	bad := func(ok bool, want string) {
		if ok {
			return
		}
		if why, top := hasTop(v); top {
			r.undecided(f.pos, r.name+" returns an unknown value: "+why)
			return
		}
		r.fail(s, f.pos, "meta", "%s returns %s, not %s", r.name, str(v), want)
	}
	r.cats["initialised"]++
	switch r.method {
	case "Nil":
		b, ok := v.(VBool)
		bad(ok && !b.b, "false")
	case "Len":
		if r.cmpLin(s, token.EQL, len0.l, linK(0), false) && r.isZeroInt(s, v) {
			return
		}
		bad(r.linIs(s, v, len0.l), "the entry count")
	case "Dep":
		if r.cmpLin(s, token.EQL, len0.l, linK(0), false) {
			bad(valEq(v, term("float:0")), "0 for an empty container")
			return
		}
		bad(valEq(v, term("/", term("float", dep0), term("float", len0))), "the mean depth")
	}
}

// ---- common checks of the final container

func (r *Run) rootAfter(s *State, pos token.Pos, dlen int64, ddep Vec) {
	lay := r.a.lay
	root, ok := r.content(s, Ref{k: RRoot}).(VStruct)
	if !ok {
		r.undecided(pos, "the root is unknown")
		return
	}
	r.must(s, pos, "count", r.linIs(s, root.f[lay.fLen], linAdd(linA(Atom{k: aTerm, t: term("len0")}), linK(dlen), 1)),
		root.f[lay.fLen], fmt.Sprintf("the entry count (should change by %d)", dlen))
	r.must(s, pos, "depth", r.linIs(s, root.f[lay.fDep], linAdd(linA(Atom{k: aTerm, t: term("dep0")}), linC(ddep), 1)),
		root.f[lay.fDep], fmt.Sprintf("the depth sum (should change by %s)", str(vvec(ddep))))
	r.must(s, pos, "seed", valEq(root.f[lay.fSeed], term("seed")), root.f[lay.fSeed], "the hash seed")
	if lay.fPath >= 0 {
		r.pathClear(s, pos, root.f[lay.fPath])
	}
	for i := 0; i < lay.root.NumFields(); i++ {
		switch i {
		case lay.fLen, lay.fDep, lay.fSeed, lay.fPath, lay.fLink, lay.fItems:
			continue
		}
		if p, ok := root.f[i].(VPtr); ok && p.ref.k != RFresh && p.ref.k != RRoot {
			r.fail(s, pos, "retention", "key %s: root.%s keeps %s", r.situation(s), lay.root.Field(i).Name(), str(p))
		}
	}
}

func (r *Run) pathClear(s *State, pos token.Pos, v Value) {
	r.did("path-retention")
	var segs VSegs
	switch x := v.(type) {
	case VSegs:
		segs = x
	case VArr:
		for i, e := range x.e {
			segs.s = append(segs.s, Seg{C(int64(i)), C(int64(i + 1)), e, nil})
		}
	default:
		r.must(s, pos, "path-retention", false, v, "the scratch path")
		return
	}
	for _, g := range segs.s {
		x, ok := g.v.(VStruct)
		if !ok {
			r.must(s, pos, "path-retention", false, g.v, "a scratch path element")
			return
		}
		for _, e := range x.f {
			if p, isP := e.(VPtr); isP {
				r.fail(s, pos, "path-retention", "key %s: the scratch path still refers to %s", r.situation(s), str(p))
				return
			}
		}
		l := x.f[r.a.lay.pathLink]
		if _, isNil := l.(VNil); !isNil {
			r.must(s, pos, "path-retention", false, l, "a scratch path element")
			return
		}
	}
}

// untouched checks that every memory object outside allowed is as initially.
func (r *Run) untouched(s *State, pos token.Pos, allowed func(Ref) bool) {
	heap := append([]HEntry(nil), s.heap...)
	for _, h := range heap {
		if h.ref.k == RRoot || allowed(h.ref) {
			continue
		}
		switch h.ref.k {
		case RCell:
			r.did("stray-write")
			r.cellSame(s, pos, h.ref.L)
		case RNode:
			n, ok := h.val.(VNode)
			if !ok {
				r.undecided(pos, "item array is unknown")
				continue
			}
			for _, e := range n.e {
				r.must(s, pos, "stray-write", valEq(e.v, r.initSlot(s, h.ref.L, e.i, C(e.i))) || r.isElem(s, e.v, h.ref.L, e.i), e.v,
					fmt.Sprintf("slot %d of level %s, which this operation must not change,", e.i, str(vvec(h.ref.L))))
			}
		case RKV:
			kt := r.c.kvTypes[s.kvType]
			if kt.T == nil {
				continue
			}
			r.must(s, pos, "stray-write", valEq(h.val, r.kvInit(s, skey(h.ref.L), term("val", vvec(h.ref.L)), kt.T, kt.sub)), h.val,
				"the stored entry, which this operation must not change,")
		}
	}
}

// cellSame checks that the header of the level-L item is as initially.
func (r *Run) cellSame(s *State, pos token.Pos, L Vec) {
	ref := Ref{k: RCell, L: L}
	if _, ok := r.entry(s, ref); !ok {
		return
	}
	got, ok := r.content(s, ref).(VStruct)
	init, ok2 := r.initCell(s, L).(VStruct)
	if !ok || !ok2 {
		r.must(s, pos, "stray-write", ok, r.content(s, ref), "an item header")
		return
	}
	lay := r.a.lay
	for i := range got.f {
		same := valEq(got.f[i], init.f[i])
		if !same {
			if p, ok := got.f[i].(VPtr); ok {
				if q, ok := init.f[i].(VPtr); ok {
					same = r.ptrEqual(s, p, q)
				}
			}
			if bm, ok := init.f[i].(VBM); ok {
				same = r.bmIs(s, got.f[i], bm.base, bm.L, bm.own)
			}
			if t, ok := init.f[i].(VTerm); ok && t.op == "junk" {
				same = true
			}
		}
		name := "a field"
		switch i {
		case lay.lPtr:
			name = "the pointer"
		case lay.lP:
			name = "the presence bitmap"
		case lay.lT:
			name = "the type bitmap"
		}
		r.must(s, pos, "stray-write", same, got.f[i], fmt.Sprintf("%s of the level %s item, which this operation must not change,", name, str(vvec(L))))
	}
}

func (r *Run) refIs(s *State, x Ref, k RK, L Vec) bool {
	return x.k == k && r.eqL(s, x.L, L)
}

// newLeaf checks the item added for the analysed key.
func (r *Run) newLeaf(s *State, pos token.Pos, v Value) {
	lay := r.a.lay
	ptr, P, T := r.linkField(v, lay.lPtr), r.linkField(v, lay.lP), r.linkField(v, lay.lT)
	if r.c.inline {
		k := term("key")
		okP := valEq(P, keyBV(k, 0, 32))
		okT := valEq(T, keyBV(k, 32, 32))
		r.must(s, pos, "leaf-key", okP, P, "the key stored with the new entry (low half)")
		r.must(s, pos, "leaf-key", okT, T, "the key stored with the new entry (high half)")
	} else {
		r.must(s, pos, "leaf-bits", r.isZeroInt(s, T), T, "the type bitmap of the new entry's item")
	}
	if r.c.noEntry {
		_, isNil := ptr.(VNil)
		r.must(s, pos, "leaf-entry", isNil, ptr, "the new entry's pointer")
		return
	}
	p, ok := ptr.(VPtr)
	if !ok || p.ref.k != RFresh {
		r.must(s, pos, "leaf-entry", false, ptr, "the new entry")
		return
	}
	o := s.objs[p.ref.id]
	if len(p.path) != 0 || o.T == nil {
		r.must(s, pos, "leaf-entry", false, ptr, "the new entry")
		return
	}
	kf, vf := r.kvFields(o.T, o.tsub)
	if vf == -2 && !r.c.isSet || kf == -2 && !r.c.inline {
		r.fail(s, pos, "entry-type", "the new entry has type %s, without a key or value", o.typ)
		return
	}
	r.c.noteKV(o.typ, r.method)
	if s.kvType != "" && s.kvType != o.typ {
		r.fail(s, pos, "entry-type", "%s adds entries of type %s and reads entries of type %s", r.name, o.typ, s.kvType)
	}
	if _, ok := r.c.kvTypes[o.typ]; !ok {
		r.c.kvTypes[o.typ] = kvType{o.T, o.tsub}
	}
	if kf >= 0 {
		k := r.field(o.val, kf)
		r.must(s, pos, "leaf-key", isKeyVal(k, term("key")), k, "the key stored with the new entry")
	}
	if r.c.isSet {
		return
	}
	val := o.val
	if vf >= 0 {
		val = r.field(o.val, vf)
	}
	want := Value(term("value"))
	if r.method == "Mod" {
		want = term("cbval")
	}
	r.must(s, pos, "value", valEq(val, want), val, "the value stored with the new entry")
	if r.method == "Mod" && len(s.cbs) > 0 {
		q, ok := s.cbs[0].args[0].(VPtr)
		same := ok && q.ref.k == RFresh && q.ref.id == p.ref.id && (vf < 0 && len(q.path) == 0 || len(q.path) == 1 && q.path[0].f == vf)
		r.must(s, pos, "callback-args", same, s.cbs[0].args[0], "the pointer passed to the callback, which should be that of the stored value,")
	}
}

func (c *Container) noteKV(typ, m string) {
	for _, x := range c.kvNames[typ] {
		if x == m {
			return
		}
	}
	c.kvNames[typ] = append(c.kvNames[typ], m)
}

// ---- insertion

func (r *Run) checkInsert(s *State, pos token.Pos) {
	if s.kvType != "" {
		r.c.noteKV(s.kvType, r.method)
	}
	if r.method == "Mod" {
		r.checkCallback(s, pos)
	}
	switch r.cat {
	case "absent":
		r.insertAbsent(s, pos)
	case "conflict":
		r.insertConflict(s, pos)
	case "present":
		r.insertPresent(s, pos)
	}
}

func (r *Run) checkCallback(s *State, pos token.Pos) {
	r.did("callback-count")
	r.did("callback-timing")
	if len(s.cbs) != 1 {
		r.fail(s, pos, "callback-count", "key %s: the callback is called %d times", r.situation(s), len(s.cbs))
		return
	}
	cb := s.cbs[0]
	b, ok := cb.args[1].(VBool)
	r.must(s, cb.pos, "callback-args", ok && b.b == (r.cat == "present"), cb.args[1], "the existed flag passed to the callback")
	if r.cat == "present" {
		r.must(s, cb.pos, "callback-args", r.isValPtr(s, cb.args[0], s.spine), cb.args[0], "the pointer passed to the callback")
		if cb.old != nil {
			r.must(s, cb.pos, "callback-args", valEq(cb.old, term("val", vvec(s.spine))), cb.old, "the value seen by the callback")
		}
	} else if cb.old != nil {
		r.must(s, cb.pos, "callback-args", valEq(cb.old, term("zero:"+r.c.valType)), cb.old, "the initial value seen by the callback")
	}
	if cb.shared {
		r.fail(s, cb.pos, "callback-timing", "key %s: the callback runs after the container was changed (at %s)", r.situation(s), cb.pending)
	}
}

func (r *Run) insertPresent(s *State, pos token.Pos) {
	S := s.spine
	r.rootAfter(s, pos, 0, C(0))
	if r.method == "Add" {
		r.untouched(s, pos, func(x Ref) bool {
			return r.refIs(s, x, RKV, S) && r.kvKeySame(s, pos, x)
		})
		return
	}
	r.untouched(s, pos, func(x Ref) bool {
		return r.refIs(s, x, RKV, S)
	})
	// the leaf still refers to the same entry
	kt, ok := r.c.kvTypes[s.kvType]
	if !ok {
		r.fail(s, pos, "value", "key %s: the stored value is not written", r.situation(s))
		return
	}
	_, vf := r.kvFields(kt.T, kt.sub)
	v := r.content(s, Ref{k: RKV, L: S})
	val := v
	if vf >= 0 {
		val = r.field(v, vf)
	}
	want := Value(term("value"))
	if r.method == "Mod" {
		want = term("cbval")
	}
	r.comparedEqual(s, val, want)
	r.must(s, pos, "value", valEq(val, want), val, "the stored value")
	r.kvKeySame(s, pos, Ref{k: RKV, L: S})
}

// kvKeySame checks that an entry that was written still holds an equal key.
func (r *Run) kvKeySame(s *State, pos token.Pos, ref Ref) bool {
	kt, ok := r.c.kvTypes[s.kvType]
	if !ok {
		return true
	}
	kf, _ := r.kvFields(kt.T, kt.sub)
	if kf < 0 {
		return true
	}
	k := r.field(r.content(s, ref), kf)
	r.must(s, pos, "stray-write", isKeyVal(k, skey(ref.L)) || isKeyVal(k, term("key")), k, "the stored key")
	return true
}

func (r *Run) insertAbsent(s *State, pos token.Pos) {
	S := s.spine
	lay := r.a.lay
	r.rootAfter(s, pos, 1, S)
	cell, ok := r.content(s, Ref{k: RCell, L: S}).(VStruct)
	if !ok {
		r.undecided(pos, "the level's header is unknown")
		return
	}
	r.must(s, pos, "bitmap", r.bmIs(s, cell.f[lay.lP], 'P', S, 1), cell.f[lay.lP], "the level's presence bitmap (the new key's bit should be added)")
	r.must(s, pos, "bitmap", r.bmIs(s, cell.f[lay.lT], 'T', S, 1), cell.f[lay.lT], "the level's type bitmap (the new key's bit should be added)")
	c, k := r.concretise(s, S)
	slots, fresh, ok := r.finalSlots(s, S, cell.f[lay.lPtr], pos)
	if !ok {
		return
	}
	n := int64(len(slots))
	need := ceil4(c + 1)
	if r.eqL(s, S, C(0)) {
		need = 16
		if fresh && n >= need {
			r.fail(s, pos, "root-array", "key %s: the root level moves out of the root", r.situation(s))
		}
	}
	r.did("capacity")
	if n < need {
		r.fail(s, pos, "capacity", "key %s: the level then holds %d items in an array of %d slots", r.situation(s), c+1, n)
	}
	r.layout(s, pos, n, need, c+1)
	for i := int64(0); i < n; i++ {
		switch {
		case i < k:
			r.must(s, pos, "slots", r.isElem(s, slots[i], S, i), slots[i], fmt.Sprintf("slot %d (of %d items, new item at %d), which should keep item %d,", i, c, k, i))
		case i == k:
			r.newLeaf(s, pos, slots[i])
		case i <= c:
			r.must(s, pos, "slots", r.isElem(s, slots[i], S, i-1), slots[i], fmt.Sprintf("slot %d (of %d items, new item at %d), which should hold item %d,", i, c, k, i-1))
		default:
			r.must(s, pos, "retention", r.isZeroLink(s, slots[i]), slots[i], fmt.Sprintf("slot %d, which should be unused (level of %d items),", i, c+1))
		}
	}
	if n <= k {
		r.fail(s, pos, "capacity", "key %s: no slot %d for the new item", r.situation(s), k)
	}
	r.untouched(s, pos, func(x Ref) bool {
		return r.refIs(s, x, RCell, S) || r.refIs(s, x, RNode, S)
	})
}

func (r *Run) insertConflict(s *State, pos token.Pos) {
	S := s.spine
	lay := r.a.lay
	// the level holding the conflicting entry
	cell, ok := r.content(s, Ref{k: RCell, L: S}).(VStruct)
	if !ok {
		r.undecided(pos, "the level's header is unknown")
		return
	}
	r.must(s, pos, "bitmap", r.bmIs(s, cell.f[lay.lP], 'P', S, 1), cell.f[lay.lP], "the level's presence bitmap (which should keep the key's bit)")
	r.must(s, pos, "bitmap", r.bmIs(s, cell.f[lay.lT], 'T', S, 0), cell.f[lay.lT], "the level's type bitmap (the key's bit should be cleared: the item becomes a branch)")
	if p, ok := cell.f[lay.lPtr].(VPtr); !ok || !r.ptrEqual(s, p, nodePtr(S)) {
		r.must(s, pos, "level-array", false, cell.f[lay.lPtr], "the level's array")
		return
	}
	cur := r.content(s, Ref{k: RCell, L: vaddc(S, 1)})
	if s.kstream == nil {
		r.fail(s, pos, "chain", "key %s: the key is never hashed", r.situation(s))
		return
	}
	ks, cs := s.kstream, r.cstream(s)
	L := vaddc(S, 1)
	seen := map[int]bool{}
	for n := 0; ; n++ {
		if n > int(r.lmax)+4 {
			r.undecided(pos, "chain of branches too long")
			return
		}
		ptr, P, T := r.linkField(cur, lay.lPtr), r.linkField(cur, lay.lP), r.linkField(cur, lay.lT)
		kd, cd := VDig{ks, L}, VDig{cs, L}
		same := r.digEq(s, L)
		what := fmt.Sprintf("new branch at level %s (the keys %s there)", str(vvec(L)), map[bool]string{true: "agree", false: "differ"}[same])
		if same {
			r.must(s, pos, "chain", r.bitsAre(s, P, kd) || r.bitsAre(s, P, cd), P, "the presence bitmap of the "+what)
			r.must(s, pos, "chain-type", r.isZeroInt(s, T), T, "the type bitmap of the "+what)
		} else {
			r.must(s, pos, "chain", r.bitsAre(s, P, kd, cd), P, "the presence bitmap of the "+what)
			r.must(s, pos, "chain-type", r.bitsAre(s, T, kd, cd), T, "the type bitmap of the "+what)
		}
		p, okp := ptr.(VPtr)
		if !okp || p.ref.k != RFresh {
			r.must(s, pos, "chain", false, ptr, "the array of the "+what)
			return
		}
		if seen[p.ref.id] {
			r.fail(s, pos, "chain", "key %s: two new branches share an array", r.situation(s))
			return
		}
		seen[p.ref.id] = true
		slots, okp := r.freshSlots(s, p)
		if !okp {
			r.must(s, pos, "chain", false, ptr, "the array of the "+what)
			return
		}
		r.did("capacity")
		if len(slots) < 4 {
			r.fail(s, pos, "capacity", "key %s: array of %d slots for the %s", r.situation(s), len(slots), what)
			return
		}
		r.layout(s, pos, int64(len(slots)), 4, map[bool]int64{true: 1, false: 2}[same])
		used := 1
		if !same {
			used = 2
		}
		for i := used; i < len(slots); i++ {
			r.must(s, pos, "retention", r.isZeroLink(s, slots[i]), slots[i], fmt.Sprintf("slot %d of the %s, which should be unused,", i, what))
		}
		if same {
			cur = slots[0]
			L = vaddc(L, 1)
			continue
		}
		mine, other := 0, 1
		if !r.digLt(s, L) {
			mine, other = 1, 0
		}
		r.newLeaf(s, pos, slots[mine])
		r.oldLeaf(s, pos, slots[other])
		break
	}
	r.rootAfter(s, pos, 1, vsub(vmulc(L, 2), S))
	r.untouched(s, pos, func(x Ref) bool {
		return r.refIs(s, x, RCell, S) || r.refIs(s, x, RCell, vaddc(S, 1))
	})
}

// layout: no more slots than the smallest multiple of four that holds the items.
func (r *Run) layout(s *State, pos token.Pos, n, need, items int64) {
	r.did("layout")
	if n > need {
		r.fail(s, pos, "layout", "key %s: an array of %d slots for a level of %d items", r.situation(s), n, items)
	}
}

// oldLeaf checks the item of the conflicting entry after it moved down.
func (r *Run) oldLeaf(s *State, pos token.Pos, v Value) {
	lay := r.a.lay
	S := s.spine
	ptr, P, T := r.linkField(v, lay.lPtr), r.linkField(v, lay.lP), r.linkField(v, lay.lT)
	if r.c.noEntry {
		_, isNil := ptr.(VNil)
		r.must(s, pos, "moved-leaf", isNil, ptr, "the moved entry's pointer")
	} else {
		p, ok := ptr.(VPtr)
		r.did("entry-moved")
		if ok && p.ref.k == RFresh {
			r.fail(s, pos, "entry-moved", "key %s: the conflicting entry is copied, not kept", r.situation(s))
			return
		}
		r.must(s, pos, "moved-leaf", ok && p.ref.k == RKV && len(p.path) == 0 && r.eqL(s, p.ref.L, S), ptr, "the moved entry")
	}
	if r.c.inline {
		okP := valEq(P, keyBV(skey(S), 0, 32))
		okT := valEq(T, keyBV(skey(S), 32, 32))
		r.must(s, pos, "leaf-key", okP, P, "the moved entry's key (low half)")
		r.must(s, pos, "leaf-key", okT, T, "the moved entry's key (high half)")
	} else {
		r.must(s, pos, "leaf-bits", r.isZeroInt(s, T), T, "the type bitmap of the moved entry's item")
	}
}

// ---- deletion

func (r *Run) checkDel(s *State, pos token.Pos) {
	if s.kvType != "" {
		r.c.noteKV(s.kvType, r.method)
	}
	if r.cat != "present" {
		r.rootAfter(s, pos, 0, C(0))
		r.untouched(s, pos, func(Ref) bool { return false })
		return
	}
	S := s.spine
	lay := r.a.lay
	c, k := r.concretise(s, S)
	isRoot := r.eqL(s, S, C(0))
	if c-1 == 1 && !isRoot && r.surv(s, S) {
		// the branch collapses: the surviving entry moves up
		F := vaddc(S, -1)
		for {
			if r.eqL(s, F, C(0)) {
				break
			}
			if r.splitCR(s, F, func(c, _ int64) bool { return c >= 2 }) {
				break
			}
			F = vaddc(F, -1)
		}
		moved := vsub(S, F)
		cell, ok := r.content(s, Ref{k: RCell, L: F}).(VStruct)
		if !ok {
			r.undecided(pos, "the level's header is unknown")
			return
		}
		lvl := str(vvec(F))
		r.must(s, pos, "collapse", r.bmIs(s, cell.f[lay.lP], 'P', F, 1), cell.f[lay.lP], "the presence bitmap of level "+lvl+" (which takes the surviving entry)")
		r.must(s, pos, "collapse", r.bmIs(s, cell.f[lay.lT], 'T', F, 1), cell.f[lay.lT], "the type bitmap of level "+lvl+" (where the branch becomes the surviving entry)")
		if p, ok := cell.f[lay.lPtr].(VPtr); !ok || !r.ptrEqual(s, p, nodePtr(F)) {
			r.must(s, pos, "collapse", false, cell.f[lay.lPtr], "the array of level "+lvl)
		}
		it := r.content(s, Ref{k: RCell, L: vaddc(F, 1)})
		r.must(s, pos, "collapse", r.isElem(s, it, S, 1-k), it, "the item of level "+lvl+" that should become the surviving entry")
		r.rootAfter(s, pos, -1, vsub(vmulc(S, -1), moved))
		r.cats["collapse"]++
		r.untouched(s, pos, func(x Ref) bool {
			if r.refIs(s, x, RKV, S) {
				return true // the deleted entry
			}
			if x.k != RCell && x.k != RNode {
				return false
			}
			if x.k == RNode { // level arrays below F are no longer in use
				return r.rel(s, F, x.L, ltI)
			}
			return r.rel(s, F, x.L, leI)
		})
		return
	}
	r.rootAfter(s, pos, -1, vmulc(S, -1))
	cell, ok := r.content(s, Ref{k: RCell, L: S}).(VStruct)
	if !ok {
		r.undecided(pos, "the level's header is unknown")
		return
	}
	r.must(s, pos, "bitmap", r.bmIs(s, cell.f[lay.lP], 'P', S, 0), cell.f[lay.lP], "the level's presence bitmap (the key's bit should be cleared)")
	r.must(s, pos, "bitmap", r.bmIs(s, cell.f[lay.lT], 'T', S, 0), cell.f[lay.lT], "the level's type bitmap (the key's bit should be cleared)")
	slots, fresh, ok := r.finalSlots(s, S, cell.f[lay.lPtr], pos)
	if !ok {
		return
	}
	n := int64(len(slots))
	need := ceil4(c - 1)
	if isRoot {
		need = 16
		if fresh && n >= need {
			r.fail(s, pos, "root-array", "key %s: the root level moves out of the root", r.situation(s))
		}
	}
	r.did("capacity")
	if n < need {
		r.fail(s, pos, "capacity", "key %s: the level then holds %d items in an array of %d slots", r.situation(s), c-1, n)
	}
	r.layout(s, pos, n, need, c-1)
	for i := int64(0); i < n; i++ {
		switch {
		case i < k && i < c-1:
			r.must(s, pos, "slots", r.isElem(s, slots[i], S, i), slots[i], fmt.Sprintf("slot %d (of %d items, item %d deleted), which should keep item %d,", i, c, k, i))
		case i < c-1:
			r.must(s, pos, "slots", r.isElem(s, slots[i], S, i+1), slots[i], fmt.Sprintf("slot %d (of %d items, item %d deleted), which should hold item %d,", i, c, k, i+1))
		default:
			r.must(s, pos, "retention", r.isZeroLink(s, slots[i]), slots[i], fmt.Sprintf("slot %d, which should be unused (level of %d items),", i, c-1))
		}
	}
	r.untouched(s, pos, func(x Ref) bool {
		return r.refIs(s, x, RCell, S) || r.refIs(s, x, RNode, S) || r.refIs(s, x, RCell, vaddc(S, 1)) || r.refIs(s, x, RKV, S)
	})
}

// ---- uninitialised containers

func (r *Run) checkNil() {
	r.guard(func() {
		quiet := map[string]bool{"Nil": true, "Len": true, "Dep": true, "Val": true}
		if len(r.finals) == 0 {
			r.undecided(r.fn.Pos(), "no path of "+r.name+" ends")
		}
		for _, f := range r.finals {
			s := f.s
			s.res = f.res
			r.obl++
			r.did("nil-receiver")
			if !quiet[r.method] {
				r.cats["panics"]++
				if f.panic == "" {
					if len(s.notes) > 0 {
						r.undecided(f.pos, "uninitialised receiver: depends on "+strings.Join(s.notes, "; "))
						continue
					}
					r.fail(s, f.pos, "nil-receiver", "%s on an uninitialised container returns instead of panicking", r.name)
				}
				continue
			}
			r.cats["returns"]++
			if f.panic != "" {
				r.fail(s, f.pos, "nil-receiver", "%s on an uninitialised container panics (%s)", r.name, f.panic)
				continue
			}
			v := s.res[0]
			ok := false
			switch r.method {
			case "Nil":
				b, is := v.(VBool)
				ok = is && b.b
			case "Len":
				ok = r.isZeroInt(s, v)
			case "Dep":
				ok = valEq(v, term("float:0"))
			case "Val":
				ok = valEq(v, term("zero:"+r.c.valType))
			}
			if !ok {
				if why, top := hasTop(v); top {
					r.undecided(f.pos, "uninitialised receiver: unknown result: "+why)
					continue
				}
				r.fail(s, f.pos, "nil-receiver", "%s on an uninitialised container returns %s", r.name, str(v))
			}
		}
	})
}

// ---- iteration

func (r *Run) checkScanFinals() {
	r.guard(func() {
		for _, f := range r.finals {
			r.obl++
			r.did("panic")
			if f.panic != "" {
				r.fail(f.s, f.pos, "panic", "%s panics (%s) while iterating", r.name, f.panic)
				continue
			}
			r.cats["returns"]++
		}
		if r.events["visits"]+r.events["sub-visits"] == 0 && r.fn == r.allFn && len(r.out) == 0 {
			r.undecided(r.fn.Pos(), "no visit of an entry was found")
		}
	})
	r.finals = nil
}
