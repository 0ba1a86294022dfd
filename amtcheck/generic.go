package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What depends on the type arguments of a container, which are arbitrary.

// boxed is the type of a value that was converted to an interface.
func boxed(v ssa.Value) types.Type {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			return x.X.Type()
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			if isTypeParam(x.X.Type()) {
				return x.X.Type()
			}
			v = x.X
		default:
			return nil
		}
	}
}

func isTypeParam(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.TypeParam)
	return ok
}

func hasTypeParam(t types.Type) bool {
	switch t := types.Unalias(t).(type) {
	case *types.TypeParam:
		return true
	case *types.Pointer:
		return hasTypeParam(t.Elem())
	case *types.Slice:
		return hasTypeParam(t.Elem())
	case *types.Array:
		return hasTypeParam(t.Elem())
	case *types.Chan:
		return hasTypeParam(t.Elem())
	case *types.Map:
		return hasTypeParam(t.Key()) || hasTypeParam(t.Elem())
	case *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if hasTypeParam(t.Field(i).Type()) {
				return true
			}
		}
	case *types.Named:
		for i := 0; i < t.TypeArgs().Len(); i++ {
			if hasTypeParam(t.TypeArgs().At(i)) {
				return true
			}
		}
	}
	return false
}

// comparable: comparing interfaces panics if they hold values of one type
// without equality.
func (r *Run) comparable(s *State, x, y ssa.Value) {
	tx, ty := boxed(x), boxed(y)
	if tx == nil || ty == nil || types.IsInterface(tx) && !isTypeParam(tx) || !types.Identical(tx, ty) || types.Comparable(tx) {
		return
	}
	if !hasTypeParam(tx) || r.condFact(s, term("uncomparable", term(tx.String()))) {
		panic(goPanic{"comparing values of a type without equality"})
	}
}

func (r *Run) typeAssert(s *State, in *ssa.TypeAssert) Value {
	res := func(ok bool, v Value) Value {
		if in.CommaOk {
			if !ok {
				v = r.zero(in.AssertedType, s.top().tsub)
			}
			return VTuple{[]Value{v, VBool{ok}}}
		}
		if !ok {
			panic(goPanic{"interface conversion"})
		}
		return v
	}
	T := boxed(in.X)
	if T == nil || types.IsInterface(T) && !isTypeParam(T) {
		v := Value(VTop{"type assertion"})
		if in.CommaOk {
			v = VTuple{[]Value{v, VTop{"type assertion"}}}
		}
		return v
	}
	x := r.operand(s, in.X)
	if it, ok := in.AssertedType.Underlying().(*types.Interface); ok && !isTypeParam(in.AssertedType) {
		if types.Implements(T, it) {
			return res(true, x)
		}
	} else if types.Identical(T, in.AssertedType) {
		return res(true, x)
	}
	if !hasTypeParam(T) && !hasTypeParam(in.AssertedType) {
		return res(false, nil)
	}
	if !types.IsInterface(in.AssertedType) {
		// one type argument is only one concrete type
		for _, c := range s.conds {
			if t, ok := c.t.(VTerm); ok && c.b && t.op == "isa" && valEq(t.args[0], term(T.String())) && !valEq(t.args[1], term(in.AssertedType.String())) {
				if t.args[1].(VTerm).op[0] != '~' {
					return res(false, nil)
				}
			}
		}
	}
	name := in.AssertedType.String()
	if types.IsInterface(in.AssertedType) {
		name = "~" + name
	}
	ok := r.condFact(s, term("isa", term(T.String()), term(name)))
	if ok {
		if !types.IsInterface(in.AssertedType) && !hasTypeParam(in.AssertedType) && r.a.pkg.TypesSizes.Sizeof(in.AssertedType) == 0 {
			s.note("type argument %s, whose values are all equal", name)
		}
		return res(true, x)
	}
	return res(false, nil)
}

// comparedEqual: the operation itself found that two values are equal, so that
// it may use either.
func (r *Run) comparedEqual(s *State, x, y Value) {
	if valEq(x, y) {
		return
	}
	for _, c := range s.conds {
		if t, ok := c.t.(VTerm); ok && t.op == "==" && c.b && len(t.args) == 2 {
			if valEq(t.args[0], x) && valEq(t.args[1], y) || valEq(t.args[0], y) && valEq(t.args[1], x) {
				s.note("%s found equal to %s", str(x), str(y))
			}
		}
	}
}

// waits: the operation may wait for a goroutine.
func (r *Run) waits() bool {
	seen := map[*ssa.Function]bool{}
	var walk func(fn *ssa.Function) bool
	walk = func(fn *ssa.Function) bool {
		if fn == nil || seen[fn] {
			return false
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Select, *ssa.Send:
					return true
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						return true
					}
				case *ssa.Range, *ssa.MakeClosure:
					if mc, ok := in.(*ssa.MakeClosure); ok && walk(mc.Fn.(*ssa.Function)) {
						return true
					}
				case ssa.CallInstruction:
					callee := x.Common().StaticCallee()
					if callee == nil {
						if _, ok := x.Common().Value.(*ssa.Builtin); !ok && !x.Common().IsInvoke() {
							if _, ok := x.Common().Value.(*ssa.Parameter); !ok {
								return true // what it does is not known
							}
						}
						continue
					}
					if r.a.inPkg(callee) {
						if o := callee.Origin(); o != nil {
							callee = o
						}
						if walk(callee) {
							return true
						}
						continue
					}
					n := strings.TrimLeft(fnName(callee), "(*")
					for _, p := range []string{"sync", "runtime.", "context."} {
						if strings.HasPrefix(n, p) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return walk(r.fn)
}
