package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func addP(ps []string, qs ...string) []string {
	for _, q := range qs {
		found := false
		for _, p := range ps {
			found = found || p == q
		}
		if !found {
			ps = append(ps, q)
		}
	}
	return ps
}

// roleProps are the properties that rest on the operation working in the case at hand.
func (r *Run) roleProps(s *State) []string {
	deep := s != nil && len(r.cat) > 0 && !s.spine.is(0)
	var ps []string
	switch r.role {
	case "read":
		ps = []string{"C01"}
		switch r.cat {
		case "present":
			ps = addP(ps, "C02", "C04", "C05")
			if deep {
				ps = addP(ps, "C03")
			}
		case "absent":
			ps = addP(ps, "C05")
		case "conflict":
			ps = addP(ps, "C03", "C05")
		default:
			ps = addP(ps, "C02", "C03", "C05")
		}
	case "insert":
		switch r.cat {
		case "absent":
			ps = []string{"C02", "C01", "C06", "C11"}
		case "conflict":
			ps = []string{"C03", "C01", "C06", "C11"}
		case "present":
			ps = []string{"C04", "C01", "C06"}
		default:
			ps = []string{"C02", "C03", "C04", "C01", "C06"}
		}
		if r.method == "Mod" {
			ps = addP(ps, "C09")
		}
	case "del":
		ps = []string{"C05", "C01", "C06", "C11"}
	case "iter":
		ps = []string{"C11"}
	case "nil":
		ps = []string{"C15"}
	case "keys":
		ps = []string{"C16"}
	case "ctor":
		ps = []string{"C19"}
	case "meta":
		switch r.method {
		case "Len":
			ps = []string{"C07"}
		case "Dep":
			ps = []string{"C08"}
		default:
			ps = []string{"C15"}
		}
	}
	return ps
}

func (r *Run) propsOf(rule string, s *State) []string {
	if s != nil && s.cbPanic {
		c := *s
		c.cbPanic = false
		return addP([]string{"C10"}, r.propsOf(rule, &c)...)
	}
	base := r.roleProps(s)
	inl := func(ps []string) []string {
		if r.c != nil && r.c.inline {
			ps = addP(ps, "C17")
		}
		return ps
	}
	switch rule {
	case "undecided":
		return base
	case "constructor":
		return addP([]string{"C19", "C15", "C07", "C08", "C13"}, base...)
	case "out-of-bounds", "capacity":
		return addP([]string{"C13"}, base...)
	case "root-array":
		return []string{"C18"}
	case "type-confusion", "entry-type":
		return inl(addP([]string{"C14"}, base...))
	case "leaf-as-branch":
		return inl(addP([]string{"C14"}, base...))
	case "reader-writes":
		return []string{"C12"}
	case "foreign-digit":
		return addP(base, "C01", "C06")
	case "global-state":
		return []string{"C19", "C12"}
	case "count":
		ps := []string{"C07"}
		if r.cat == "present" && r.role == "insert" {
			ps = addP(ps, "C04")
		}
		if r.cat != "present" && r.role == "del" {
			ps = addP(ps, "C05")
		}
		return ps
	case "depth":
		return []string{"C08"}
	case "seed":
		return addP([]string{"C19", "C06"}, base...)
	case "retention", "path-retention":
		return []string{"C18"}
	case "callback-count", "callback-args":
		ps := []string{"C09"}
		if rule == "callback-args" {
			ps = addP(ps, "C20")
			if r.cat == "conflict" && r.role == "insert" {
				ps = addP(ps, "C03")
			}
		}
		return ps
	case "callback-timing":
		return []string{"C10"}
	case "entry-moved":
		return []string{"C20"}
	case "collapse":
		return addP(base, "C06", "C01")
	case "collapse-copy", "slots-copy":
		return addP(base, "C06", "C01", "C20")
	case "lookup":
		if r.method == "Ptr" && r.cat == "present" {
			base = addP(base, "C20")
		}
		return inl(base)
	case "leaf-key", "chain-type", "leaf-bits", "bitmap", "slots", "moved-leaf", "chain", "leaf-entry", "level-array":
		ps := inl(base)
		if rule == "moved-leaf" {
			ps = addP(ps, "C20")
		}
		if rule == "chain-type" || rule == "leaf-bits" {
			ps = addP(ps, "C14")
		}
		return ps
	case "value":
		ps := addP(base, "C01")
		if r.cat == "present" {
			ps = addP(ps, "C20")
		}
		return ps
	case "stray-write":
		return inl(addP(base, "C20"))
	case "visit-args":
		return inl(addP(base, "C20"))
	case "panic", "no-progress", "lock":
		if r.role != "nil" && r.role != "keys" && r.role != "ctor" {
			base = addP(base, "C21")
		}
		return base
	case "layout":
		return []string{"C23"}
	case "narrow-counter":
		return base
	case "hash-stream":
		return addP([]string{"C01", "C02", "C03", "C05"}, base...)
	}
	return base
}

// ---- rules across the operations of one container

func (r *Run) noteStream(s *State) {
	if s.kstream == nil {
		return
	}
	k := str(s.kstream)
	for _, m := range r.c.streams[k] {
		if m == r.method {
			return
		}
	}
	r.c.streams[k] = append(r.c.streams[k], r.method)
	r.c.streamV[k] = s.kstream
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (a *Analysis) checkContainer(c *Container, runs []*Run, need func(string) bool) []*Run {
	r := a.newRun(c, "(all operations)", nil, "cross")
	pos := c.named.Obj().Pos()
	emit := func(rule string, props []string, pos token.Pos, f string, x ...any) {
		r.emit(&Violation{Props: props, Rule: rule, Container: c.name, Method: r.method, Pos: a.pos(pos), Msg: fmt.Sprintf(f, x...)})
	}
	// required operations
	wantM := []string{"Nil", "Len", "Dep", "Get", "Val", "Ptr", "Set", "Mod", "Del", "All"}
	if c.isSet {
		wantM = []string{"Nil", "Len", "Dep", "Has", "Add", "Del", "All"}
	}
	for _, m := range wantM {
		if c.methods[m] == nil {
			r.undecided(pos, c.name+" has no method "+m)
		}
	}
	// one entry type
	names := sortedKeys(c.kvNames)
	for i, n := range names {
		r.obl++
		for _, m := range names[:i] {
			if !a.kvCompatible(c, n, m) {
				emit("entry-type", []string{"C14", "C01"}, a.methodPos(c, c.kvNames[n][0]),
					"entries are of type %s in %v and of type %s in %v", m, c.kvNames[m], n, c.kvNames[n])
			}
		}
	}
	// one hash stream, of the whole key, under the container's own seed
	streams := sortedKeys(c.streams)
	for i, k := range streams {
		r.obl++
		if i > 0 {
			emit("hash-stream", []string{"C01", "C02", "C03", "C05", "C06"}, a.methodPos(c, c.streams[k][0]),
				"%v use hash bits of %s, %v of %s", c.streams[k], k, c.streams[streams[0]], streams[0])
		}
		p := a.methodPos(c, c.streams[k][0])
		switch why, st := wholeKey(c.streamV[k], term("seed"), c.inline); st {
		case 1:
			r.undecided(p, "hash stream "+k+": "+why)
		case 2:
			props := []string{"C03", "C01"}
			if c.inline {
				props = addP(props, "C17")
			}
			if strings.Contains(why, "seed") {
				props = addP(props, "C19", "C06")
			}
			emit("hash-stream", props, p, "%v hash %s: %s", c.streams[k], k, why)
		}
	}
	// every case was met
	for _, q := range runs {
		if len(q.out) > 0 {
			continue
		}
		var cs []string
		switch q.role {
		case "read", "insert":
			cs = []string{"absent", "conflict", "present"}
		case "del":
			cs = []string{"absent", "conflict", "present", "collapse"}
		case "nil":
			if q.cats["panics"]+q.cats["returns"] == 0 {
				r.undecided(pos, q.name+": no case analysed")
			}
		}
		for _, x := range cs {
			if q.cats[x] == 0 {
				r.undecided(q.fn.Pos(), q.name+": case \""+x+"\" was never met")
			}
		}
	}
	return []*Run{r}
}

func (a *Analysis) methodPos(c *Container, m string) token.Pos {
	if fn := c.methods[m]; fn != nil {
		return fn.Pos()
	}
	if i := strings.IndexByte(m, '/'); i > 0 {
		if fn := c.methods[m[:i]]; fn != nil {
			return fn.Pos()
		}
	}
	return c.named.Obj().Pos()
}

func (a *Analysis) kvCompatible(c *Container, n, m string) bool {
	if n == m {
		return true
	}
	for _, p := range [2][2]string{{n, m}, {m, n}} {
		kt, ok := c.kvTypes[p[0]]
		if !ok {
			continue
		}
		if st, ok := kt.T.Underlying().(*types.Struct); ok && st.NumFields() > 0 && p[1] == c.valType && typeKey(st.Field(0).Type(), kt.sub) == p[1] {
			return true
		}
	}
	return false
}

// wholeKey decides whether a hash stream hashes all of the key under the given
// seed: 0 yes, 1 unknown, 2 no.
func wholeKey(v Value, seed Value, inline bool) (string, int) {
	t, ok := v.(VTerm)
	if !ok {
		return "unknown hash", 1
	}
	switch t.op {
	case "Key.Hash":
		if !valEq(t.args[0], term("key")) && !isKeyVal(t.args[0], term("key")) {
			return "not the key's hash", 2
		}
		if !valEq(t.args[1], seed) {
			return "not under the container's seed", 2
		}
		return "", 0
	case "maphash":
		if why, top := hasTop(t); top {
			return why, 1
		}
		if !valEq(t.args[0], seed) {
			return "not under the given seed", 2
		}
		c := strip(t.args[1])
		if valEq(c, term("key")) || valEq(c, term("KeyBytes", term("key"))) {
			return "", 0
		}
		if b, ok := c.(VTerm); ok && b.op == "bytes" {
			cover := [64]bool{}
			for _, e := range b.args {
				bv, ok := e.(VBV)
				if !ok {
					if b, isI := e.(VInt); isI {
						if _, isC := b.l.vec(); isC {
							continue // constant padding
						}
					}
					return "unknown byte " + str(e), 1
				}
				for _, g := range bv.s {
					if g.src == nil {
						continue
					}
					if !valEq(g.src, term("key")) {
						return "bytes of something else", 2
					}
					for i := g.lo; i < g.lo+g.w && i < 64; i++ {
						cover[i] = true
					}
				}
			}
			for i, x := range cover {
				if !x {
					return fmt.Sprintf("bit %d of the key does not take part", i), 2
				}
			}
			return "", 0
		}
		if b, ok := c.(VTerm); ok && (b.op == "slice" || b.op == "nothing" || b.op == "append") {
			return "only a part of the key takes part: " + str(c), 2
		}
		if b, ok := c.(VTerm); ok && strings.HasPrefix(b.op, "many:") {
			return "different keys are mapped to one: " + str(c), 2
		}
		if b, ok := c.(VTerm); ok && b.op == "mixed contents" {
			return "rehashing mixes different contents", 2
		}
		return "hash of " + str(c), 1
	}
	return "unknown hash " + t.op, 1
}

// ---- constructors

func (a *Analysis) runCtors() []*Run {
	var runs []*Run
	sc := a.pkg.Types.Scope()
	for _, c := range a.containers {
		found := false
		for _, n := range sc.Names() {
			f, ok := sc.Lookup(n).(*types.Func)
			if !ok || !f.Exported() {
				continue
			}
			sig := f.Type().(*types.Signature)
			if sig.Recv() != nil || sig.Results().Len() != 1 {
				continue
			}
			rt, ok := sig.Results().At(0).Type().(*types.Named)
			if !ok || rt.Origin() != c.named.Origin() || !strings.HasPrefix(n, "New") {
				continue
			}
			found = true
			fn := a.prog.FuncValue(f)
			r := a.newRun(c, n, fn, "ctor")
			r.name = n
			var args []Value
			for _, p := range fn.Params {
				args = append(args, VTop{"parameter " + p.Name()})
			}
			r.explore(r.initState(args, canonSub(fn)))
			r.checkCtor()
			runs = append(runs, r)
		}
		if !found {
			r := a.newRun(c, "New"+c.name, nil, "ctor")
			r.undecided(c.named.Obj().Pos(), "no constructor of "+c.name+" found")
			runs = append(runs, r)
		}
	}
	return runs
}

func (r *Run) checkCtor() {
	lay := r.a.lay
	r.guard(func() {
		for _, f := range r.finals {
			s := f.s
			r.obl++
			r.did("constructor")
			bad := func(props []string, v Value, what string) {
				if v != nil {
					if why, top := hasTop(v); top {
						r.undecided(f.pos, what+" is unknown ("+why+")")
						return
					}
					what += " is " + str(v)
				}
				r.emit(&Violation{Props: props, Rule: "constructor", Container: r.c.name, Method: r.method, Pos: r.a.pos(f.pos), Msg: what, Undecided: len(s.notes) > 0})
			}
			if f.panic != "" {
				bad([]string{"C19", "C15"}, nil, "the constructor panics ("+f.panic+")")
				continue
			}
			h, ok := f.res[0].(VStruct)
			if !ok {
				bad([]string{"C19"}, f.res[0], "the new container")
				continue
			}
			st := r.c.named.Underlying().(*types.Struct)
			for i := range h.f {
				if p, ok := st.Field(i).Type().Underlying().(*types.Pointer); !ok || !types.Identical(p.Elem(), lay.rootT) {
					continue
				}
				p, ok := h.f[i].(VPtr)
				if !ok || p.ref.k != RFresh || len(p.path) != 0 {
					bad([]string{"C19", "C15"}, h.f[i], "the root of the new container, which should be newly allocated,")
					continue
				}
				root, ok := s.objs[p.ref.id].val.(VStruct)
				if !ok {
					bad([]string{"C19"}, s.objs[p.ref.id].val, "the new root")
					continue
				}
				for _, x := range []struct {
					f    int
					n, p string
				}{{lay.fLen, "len", "C07"}, {lay.fDep, "dep", "C08"}} {
					if !r.isZeroInt(s, root.f[x.f]) {
						bad([]string{x.p, "C19"}, root.f[x.f], x.n+" of the new root")
					}
				}
				l, ok := root.f[lay.fLink].(VStruct)
				if !ok {
					bad([]string{"C19"}, root.f[lay.fLink], "header of the new root")
					continue
				}
				if !r.isZeroInt(s, l.f[lay.lP]) || !r.isZeroInt(s, l.f[lay.lT]) {
					bad([]string{"C19", "C01"}, l.f[lay.lP], "the presence bitmap of the new root")
				}
				q, ok := l.f[lay.lPtr].(VPtr)
				okItems := ok && q.ref.k == RFresh && q.ref.id == p.ref.id && len(q.path) == 2 && q.path[0].f == lay.fItems && r.linIs(s, VInt{q.path[1].idx}, linK(0))
				if !okItems {
					bad([]string{"C19", "C13", "C02"}, l.f[lay.lPtr], "the level array of the new root, which should be its own items,")
				}
				if items, ok := root.f[lay.fItems].(VArr); ok {
					for _, e := range items.e {
						if !r.isZeroLink(s, e) {
							bad([]string{"C19"}, e, "an item of the new root")
							break
						}
					}
				}
				sd, ok := root.f[lay.fSeed].(VTerm)
				if !ok || sd.op != "makeseed" {
					bad([]string{"C19"}, root.f[lay.fSeed], "the seed of the new root, which should be a fresh random one,")
				}
			}
			r.cats["constructed"]++
		}
		if len(r.finals) == 0 {
			r.undecided(r.fn.Pos(), "no path of the constructor ends")
		}
	})
}

// ---- key types

func (a *Analysis) runKeys() []*Run {
	var runs []*Run
	sc := a.pkg.Types.Scope()
	mk := func(name string, fn *ssa.Function, keyIsInt bool) *Run {
		c := &Container{name: "keys", kvTypes: map[string]kvType{}, kvNames: map[string][]string{}, infos: map[*ssa.Function]*FnInfo{},
			streams: map[string][]string{}, streamV: map[string]Value{}, methods: map[string]*ssa.Function{}, inline: keyIsInt}
		r := a.newRun(c, name, fn, "keys")
		r.name, r.solo = name, true
		return r
	}
	rep := mk("key types", nil, false)
	bad := func(pos token.Pos, f string, x ...any) {
		rep.emit(&Violation{Props: []string{"C16"}, Rule: "key-type", Container: "keys", Method: "key types", Pos: a.pos(pos), Msg: fmt.Sprintf(f, x...)})
	}
	runs = append(runs, rep)
	var keyIface *types.Named
	if tn, ok := sc.Lookup("Key").(*types.TypeName); ok {
		keyIface, _ = tn.Type().(*types.Named)
	}
	if keyIface == nil {
		rep.undecided(token.NoPos, "no Key interface found")
		return runs
	}
	iter := VInt{linA(Atom{k: aTerm, t: term("iter")})}
	hash := func(name string, fn *ssa.Function, key Value, isInt bool) {
		r := mk(name, fn, isInt)
		var args []Value
		for i, p := range fn.Params {
			switch {
			case i == 0:
				args = append(args, key)
			case isNamed(p.Type(), "hash/maphash", "Seed"):
				args = append(args, term("seed"))
			default:
				if _, _, ok := intInfo(p.Type()); ok {
					args = append(args, iter)
				} else {
					args = append(args, VTop{"parameter " + p.Name()})
				}
			}
		}
		r.explore(r.initState(args, canonSub(fn)))
		r.checkHash()
		runs = append(runs, r)
	}
	need := map[string]bool{"Int": true, "String": true, "Bytes": true}
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || !tn.Exported() || tn.IsAlias() {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok || nt.TypeParams().Len() > 0 {
			continue
		}
		var mh, me *types.Func
		for i := 0; i < nt.NumMethods(); i++ {
			switch nt.Method(i).Name() {
			case "Hash":
				mh = nt.Method(i)
			case "Equal":
				me = nt.Method(i)
			}
		}
		if mh == nil && me == nil && !need[n] {
			continue
		}
		delete(need, n)
		rep.obl++
		inst, err := types.Instantiate(nil, keyIface, []types.Type{nt}, false)
		if err != nil {
			rep.undecided(tn.Pos(), "cannot instantiate Key["+n+"]")
			continue
		}
		if m, wrong := types.MissingMethod(nt, inst.Underlying().(*types.Interface), true); m != nil {
			w := "misses"
			if wrong {
				w = "has the wrong type for"
			}
			bad(tn.Pos(), "%s cannot be used as a generic key: it %s method %s", n, w, m.Name())
		}
		_, _, isInt := intInfo(nt)
		key, sk := Value(term("key")), Value(term("skey", vint(0)))
		if isInt {
			key, sk = keyBV(key, 0, 64), keyBV(sk, 0, 64)
		}
		if mh != nil && mh.Type().(*types.Signature).Params().Len() == 2 {
			hash(n+".Hash", a.prog.FuncValue(mh), key, isInt)
		}
		if me != nil && me.Type().(*types.Signature).Params().Len() == 1 {
			fn := a.prog.FuncValue(me)
			r := mk(n+".Equal", fn, isInt)
			r.explore(r.initState([]Value{key, sk}, canonSub(fn)))
			r.checkEqual()
			runs = append(runs, r)
		}
	}
	for n := range need {
		bad(token.NoPos, "key type %s does not exist", n)
	}
	if f, ok := sc.Lookup("HashBytes").(*types.Func); ok {
		hash("HashBytes", a.prog.FuncValue(f), term("key"), false)
	} else {
		bad(token.NoPos, "HashBytes does not exist")
	}
	return runs
}

func (r *Run) checkHash() {
	r.guard(func() {
		for _, f := range r.finals {
			s := f.s
			s.res = f.res
			r.obl++
			if f.panic != "" {
				r.fail(s, f.pos, "panic", "%s panics (%s)", r.name, f.panic)
				continue
			}
			r.forall(s, func(s *State) {
				r.did("hash-result")
				r.did("hash-count")
				v := s.res[0]
				h, ok := v.(VHash)
				if !ok || !h.s.is(0) || !h.w.is(64) {
					if why, top := hasTop(v); top {
						r.undecided(f.pos, r.name+" returns an unknown value: "+why)
						return
					}
					r.fail(s, f.pos, "hash-result", "%s returns %s, not the 64-bit hash", r.name, str(v))
					return
				}
				if why, st := wholeKey(h.stream, term("seed"), r.c.inline); st == 1 {
					r.undecided(f.pos, r.name+": "+why)
				} else if st == 2 {
					r.fail(s, f.pos, "hash-result", "%s: %s", r.name, why)
				}
				lo, hi := r.uniform(s, s.itLo), r.uniform(s, s.itHi)
				q, ok := h.q.uni()
				if !ok || lo != hi || q != lo {
					r.fail(s, f.pos, "hash-count", "%s hashes the key %s times for an iter count of %d..%d (should be iter+1)", r.name, str(vvec(vaddc(h.q, 1))), lo, hi)
				}
				r.cats["hashed"]++
			})
		}
		if len(r.finals) == 0 {
			r.undecided(r.fn.Pos(), "no path of "+r.name+" ends")
		}
	})
}

func (r *Run) checkEqual() {
	r.guard(func() {
		for _, f := range r.finals {
			f.s.res = f.res
			if f.panic != "" {
				r.fail(f.s, f.pos, "panic", "%s panics (%s)", r.name, f.panic)
				continue
			}
			r.forall(f.s, func(s *State) {
				r.did("key-equality")
				eq := r.keyEq(s, C(0))
				b, ok := s.res[0].(VBool)
				if !ok {
					r.undecided(f.pos, r.name+" returns an unknown value: "+str(s.res[0]))
					return
				}
				if b.b != eq {
					r.fail(s, f.pos, "key-equality", "%s returns %v for keys that are equal: %v", r.name, b.b, eq)
				}
				r.cats[map[bool]string{true: "equal", false: "different"}[eq]]++
			})
		}
		if len(r.finals) == 0 {
			r.undecided(r.fn.Pos(), "no path of "+r.name+" ends")
		}
	})
}

// ---- rules over the syntax and the types

// uintptrRule: a pointer held as an integer must be turned back into a pointer
// within the same expression (otherwise the collector may free or move it).
func (a *Analysis) uintptrRule() (sites int) {
	info := a.pkg.TypesInfo
	isConv := func(e ast.Expr, pred func(types.Type) bool) (ast.Expr, bool) {
		c, ok := e.(*ast.CallExpr)
		if !ok || len(c.Args) != 1 {
			return nil, false
		}
		tv, ok := info.Types[c.Fun]
		if !ok || !tv.IsType() || !pred(tv.Type) {
			return nil, false
		}
		return c.Args[0], true
	}
	isUintptr := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uintptr
	}
	var safe func(e ast.Expr) bool
	safe = func(e ast.Expr) bool {
		switch x := e.(type) {
		case *ast.ParenExpr:
			return safe(x.X)
		case *ast.BinaryExpr:
			switch x.Op {
			case token.ADD:
				return safe(x.X) || safe(x.Y)
			case token.SUB, token.AND_NOT:
				return safe(x.X)
			}
			return false
		}
		if arg, ok := isConv(e, isUintptr); ok {
			t := info.TypeOf(arg)
			if t != nil && isUnsafePtr(t) {
				return true
			}
			if tv, ok := info.Types[arg]; ok && tv.Value != nil {
				return true
			}
		}
		if tv, ok := info.Types[e]; ok && tv.Value != nil {
			return true
		}
		return false
	}
	for _, f := range a.pkg.Syntax {
		var fname string
		ast.Inspect(f, func(n ast.Node) bool {
			if d, ok := n.(*ast.FuncDecl); ok {
				fname = d.Name.Name
			}
			e, ok := n.(ast.Expr)
			if !ok {
				return true
			}
			arg, ok := isConv(e, isUnsafePtr)
			if !ok {
				return true
			}
			t := info.TypeOf(arg)
			if t == nil || !isUintptr(t) {
				return true
			}
			sites++
			if !safe(arg) {
				a.addViol(&Violation{Props: []string{"C14"}, Rule: "integer-held-pointer", Container: "package", Method: fname, Pos: a.pos(e.Pos()),
					Msg: "a pointer is rebuilt from an integer that was computed in another expression: the collector does not see it in between"})
			}
			return true
		})
	}
	return
}

// seedRule: the seed of a root is set only where the root is created.
func (a *Analysis) seedRule() (sites int) {
	if a.lay.root == nil {
		return
	}
	for _, fn := range a.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fa.Field != a.lay.fSeed {
					continue
				}
				p, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok || !types.Identical(p.Elem(), a.lay.rootT) {
					continue
				}
				sites++
				for _, ref := range *fa.Referrers() {
					st, ok := ref.(*ssa.Store)
					if !ok || st.Addr != fa {
						continue
					}
					if !freshIn(fa.X) {
						a.addViol(&Violation{Props: []string{"C19", "C06", "C01"}, Rule: "seed", Container: "root", Method: fn.Name(), Pos: a.pos(instrPos(st)),
							Msg: fn.Name() + " changes the seed of an existing root"})
					}
				}
			}
		}
	}
	return
}

func freshIn(v ssa.Value) bool {
	_, ok := v.(*ssa.Alloc)
	return ok
}

// handleRule: container values share all their state when copied.
func (a *Analysis) handleRule() (n int) {
	for _, c := range a.containers {
		st := c.named.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			n++
			f := st.Field(i)
			switch f.Type().Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Chan:
				continue
			}
			if fn := a.writesField(c.named, i); fn != nil {
				a.addViol(&Violation{Props: []string{"C15"}, Rule: "handle-state", Container: c.name, Method: fn.Name(), Pos: a.pos(f.Pos()),
					Msg: fmt.Sprintf("field %s is state of the handle itself: %s changes it, and copies do not share it", f.Name(), fn.Name())})
			}
		}
		for _, name := range sortedKeys(c.methods) {
			fn := c.methods[name]
			n++
			if g := a.writesRecvField(fn, c); g != token.NoPos {
				a.addViol(&Violation{Props: []string{"C15"}, Rule: "handle-state", Container: c.name, Method: name, Pos: a.pos(g),
					Msg: name + " replaces the root in its own copy of the handle: other copies do not see it"})
			}
		}
	}
	return
}

func (a *Analysis) writesField(t *types.Named, i int) *ssa.Function {
	for _, fn := range a.fns {
		if rs := fn.Signature.Results(); fn.Signature.Recv() == nil && rs.Len() == 1 {
			if nt, ok := rs.At(0).Type().(*types.Named); ok && nt.Origin() == t.Origin() {
				continue // constructor
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fa.Field != i {
					continue
				}
				p, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok {
					continue
				}
				nt, ok := p.Elem().(*types.Named)
				if !ok || nt.Origin() != t.Origin() {
					continue
				}
				for _, ref := range *fa.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == fa {
						return fn
					}
				}
			}
		}
	}
	return nil
}

// writesRecvField finds stores to the root field of the method's receiver copy.
func (a *Analysis) writesRecvField(fn *ssa.Function, c *Container) token.Pos {
	if len(fn.Params) == 0 {
		return token.NoPos
	}
	recv := map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Val == fn.Params[0] {
				recv[st.Addr] = true // the receiver's spill slot
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && recv[fa.X] {
				return instrPos(st)
			}
		}
	}
	return token.NoPos
}
