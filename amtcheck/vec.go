package main

// Vec is an integer of the relational value-set domain: one value per lane. A
// lane is one concrete assignment of all the level-like integers of a state;
// a state with n lanes stands for n such assignments that share one shape.
// v == nil means that every lane has the value c.
type Vec struct {
	c int64
	v []int64
}

func C(x int64) Vec { return Vec{c: x} }

func (a Vec) at(i int) int64 {
	if a.v == nil {
		return a.c
	}
	return a.v[i]
}

// uni returns the common value of all lanes, if there is one.
func (a Vec) uni() (int64, bool) {
	if a.v == nil {
		return a.c, true
	}
	return 0, false
}

func (a Vec) is(x int64) bool { return a.v == nil && a.c == x }

func normVec(v []int64) Vec {
	for i := 1; i < len(v); i++ {
		if v[i] != v[0] {
			return Vec{v: v}
		}
	}
	if len(v) == 0 {
		return Vec{}
	}
	return Vec{c: v[0]}
}

func vmap1(a Vec, f func(int64) int64) Vec {
	if a.v == nil {
		return C(f(a.c))
	}
	r := make([]int64, len(a.v))
	for i, x := range a.v {
		r[i] = f(x)
	}
	return normVec(r)
}

func vmap2(a, b Vec, f func(x, y int64) int64) Vec {
	if a.v == nil && b.v == nil {
		return C(f(a.c, b.c))
	}
	n := len(a.v)
	if n == 0 {
		n = len(b.v)
	}
	r := make([]int64, n)
	for i := range r {
		r[i] = f(a.at(i), b.at(i))
	}
	return normVec(r)
}

func vadd(a, b Vec) Vec { return vmap2(a, b, func(x, y int64) int64 { return x + y }) }
func vsub(a, b Vec) Vec { return vmap2(a, b, func(x, y int64) int64 { return x - y }) }
func vaddc(a Vec, k int64) Vec {
	if k == 0 {
		return a
	}
	return vmap1(a, func(x int64) int64 { return x + k })
}
func vmulc(a Vec, k int64) Vec { return vmap1(a, func(x int64) int64 { return x * k }) }

// vsame reports whether a and b agree on every lane.
func vsame(a, b Vec) bool {
	if a.v == nil && b.v == nil {
		return a.c == b.c
	}
	n := len(a.v)
	if n == 0 {
		n = len(b.v)
	}
	if a.v != nil && b.v != nil && &a.v[0] == &b.v[0] {
		return true
	}
	for i := 0; i < n; i++ {
		if a.at(i) != b.at(i) {
			return false
		}
	}
	return true
}

// vcmp evaluates pred on all lanes: 1 all true, 0 all false, 2 mixed (with the mask).
func vcmp(n int, a, b Vec, pred func(x, y int64) bool) (int, []bool) {
	if a.v == nil && b.v == nil {
		if pred(a.c, b.c) {
			return 1, nil
		}
		return 0, nil
	}
	mask := make([]bool, n)
	t := 0
	for i := range mask {
		if pred(a.at(i), b.at(i)) {
			mask[i] = true
			t++
		}
	}
	switch t {
	case n:
		return 1, nil
	case 0:
		return 0, nil
	}
	return 2, mask
}

func (a Vec) filter(mask []bool) Vec {
	if a.v == nil {
		return a
	}
	r := make([]int64, 0, len(a.v))
	for i, x := range a.v {
		if mask[i] {
			r = append(r, x)
		}
	}
	return normVec(r)
}

func vconcat(a Vec, na int, b Vec, nb int) Vec {
	if a.v == nil && b.v == nil && a.c == b.c {
		return a
	}
	r := make([]int64, 0, na+nb)
	for i := 0; i < na; i++ {
		r = append(r, a.at(i))
	}
	for i := 0; i < nb; i++ {
		r = append(r, b.at(i))
	}
	return normVec(r)
}
