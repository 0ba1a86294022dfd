package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/bits"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type kvType struct {
	T   types.Type
	sub map[*types.TypeParam]string
}

type layout struct {
	root                                    *types.Struct
	rootT                                   types.Type
	linkT                                   types.Type
	link                                    *types.Struct
	fLink, fSeed, fLen, fDep, fItems, fPath int
	lPtr, lP, lT                            int
	linkSize                                int64
	linkOff                                 map[int64]int
	pathT                                   types.Type
	pathLink                                int
}

// Analysis holds the loaded package and what was found.
type Analysis struct {
	cbMu       sync.Mutex
	cbMemo     map[*ssa.Function]bool
	running    map[*Run]bool
	dir        string
	fset       *token.FileSet
	pkg        *packages.Package
	prog       *ssa.Program
	spkg       *ssa.Package
	lay        layout
	lmax       int64
	ctxMax     int // iteration that passes constants down: depth of calls followed for all occupancies
	maxVisits  int
	maxSteps   int
	deadline   time.Time
	budget     time.Duration
	mu         sync.Mutex
	globals    []*ssa.Global
	gconst     map[*ssa.Global]*ssa.Const
	gtable     map[*ssa.Global]map[int64]ssa.Value // array variables that keep their constant initial elements
	containers []*Container
	viols      []*Violation
	runs       []*Run
	structural []string // problems that stop the analysis
	rulesObl   map[string]int
	fns        []*ssa.Function // all functions of the package
}

// Container is one map or set kind.
type Container struct {
	name    string
	named   *types.Named
	methods map[string]*ssa.Function
	isSet   bool
	inline  bool
	noEntry bool
	keyType string
	valType string
	ntp     int
	kvTypes map[string]kvType
	kvNames map[string][]string // entry type -> where used
	infos   map[*ssa.Function]*FnInfo
	streams map[string][]string
	streamV map[string]Value

	topFirst bool // the levels use the digits of a hash from the highest one down
}

type Violation struct {
	Props     []string `json:"properties"`
	Rule      string   `json:"rule"`
	Container string   `json:"container"`
	Method    string   `json:"method"`
	Case      string   `json:"case,omitempty"`
	Pos       string   `json:"construct"`
	Msg       string   `json:"message"`
	Undecided bool     `json:"undecided,omitempty"`
	Chain     []string `json:"call_chain,omitempty"`
}

func (a *Analysis) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := a.fset.Position(p)
	return fmt.Sprintf("%s:%d:%d", filepath.Base(q.Filename), q.Line, q.Column)
}

func (a *Analysis) globalID(g *ssa.Global) int {
	a.mu.Lock()
	defer a.mu.Unlock()
	for i, h := range a.globals {
		if h == g {
			return i
		}
	}
	a.globals = append(a.globals, g)
	return len(a.globals) - 1
}

func (a *Analysis) globalLoad(r *Run, s *State, p VPtr, pos token.Pos) Value {
	a.mu.Lock()
	g := a.globals[p.ref.id]
	c := a.gconst[g]
	tab := a.gtable[g]
	a.mu.Unlock()
	if c != nil && len(p.path) == 0 {
		return r.constVal(c, nil)
	}
	if isNamed(g.Type().(*types.Pointer).Elem(), "hash/maphash", "Seed") {
		return term("package-level seed " + g.Name())
	}
	if tab != nil && len(p.path) == 1 && p.path[0].f < 0 && s != nil {
		if v, ok := r.needVec(s, p.path[0].idx); ok {
			if c := tab[r.uniform(s, v)]; c != nil {
				switch c := c.(type) {
				case *ssa.Const:
					return r.constVal(c, nil)
				case *ssa.Function:
					return VFunc{fn: c}
				}
			}
			return r.zero(g.Type().(*types.Pointer).Elem().Underlying().(*types.Array).Elem(), nil)
		}
	}
	if g.Pkg != nil && g.Pkg.Pkg.Path() == "encoding/binary" {
		return term("endian")
	}
	r.events["global-load"]++
	return VTop{"package-level variable " + g.Name()}
}

func (a *Analysis) globalStore(r *Run, p VPtr, pos token.Pos) {
	a.mu.Lock()
	g := a.globals[p.ref.id]
	a.mu.Unlock()
	r.fail(nil, pos, "global-state", "%s writes package-level variable %s", r.name, g.Name())
}

func (a *Analysis) inPkg(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg == a.spkg
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg() == a.pkg.Types
	}
	return fn.Synthetic != "" && fn.Pkg == nil && len(fn.Blocks) > 0
}

func (a *Analysis) isLink(t types.Type) bool {
	return a.lay.linkT != nil && types.Identical(types.Unalias(t), a.lay.linkT)
}

func (a *Analysis) isPathElem(t types.Type) bool {
	return a.lay.pathT != nil && types.Identical(types.Unalias(t), a.lay.pathT)
}

func (r *Run) info(fn *ssa.Function) *FnInfo {
	fi := r.c.infos[fn]
	if fi == nil {
		fi = newFnInfo(fn)
		r.c.infos[fn] = fi
	}
	return fi
}

// load reads the package under analysis from its current source.
func load(dir string, lmax int64) (*Analysis, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir: dir,
	}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("expected one package, found %d", len(pkgs))
	}
	p := pkgs[0]
	for _, e := range p.Errors {
		return nil, fmt.Errorf("package does not type-check: %v", e)
	}
	prog, sp := ssautil.Packages(pkgs, ssa.BuilderMode(0))
	prog.Build()
	a := &Analysis{dir: dir, fset: p.Fset, pkg: p, prog: prog, spkg: sp[0], lmax: lmax, ctxMax: 18,
		maxVisits: int(lmax)*2 + 400, maxSteps: 60_000_000, gconst: map[*ssa.Global]*ssa.Const{}, gtable: map[*ssa.Global]map[int64]ssa.Value{}, rulesObl: map[string]int{}}
	a.collectFns()
	a.findGlobals()
	a.findLayout()
	a.findContainers()
	return a, nil
}

func (a *Analysis) collectFns() {
	seen := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || seen[fn] {
			return
		}
		seen[fn] = true
		a.fns = append(a.fns, fn)
		for _, c := range fn.AnonFuncs {
			add(c)
		}
	}
	for _, m := range a.spkg.Members {
		if fn, ok := m.(*ssa.Function); ok {
			add(fn)
		}
	}
	sc := a.pkg.Types.Scope()
	for _, n := range sc.Names() {
		if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
			if nt, ok := tn.Type().(*types.Named); ok {
				for i := 0; i < nt.NumMethods(); i++ {
					add(a.prog.FuncValue(nt.Method(i)))
				}
			}
		}
	}
	sort.Slice(a.fns, func(i, j int) bool { return a.fns[i].Pos() < a.fns[j].Pos() })
}

// findGlobals finds package-level variables that keep their constant initial
// value, and reports those that are mutable state.
func (a *Analysis) findGlobals() {
	stores := map[*ssa.Global]int{}
	other := map[*ssa.Global]ssa.Instruction{} // uses that may change it
	for _, m := range a.spkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			if arr, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
				_, isFunc := arr.Elem().Underlying().(*types.Signature)
				if _, _, isInt := intInfo(arr.Elem()); isInt || isFunc {
					a.gtable[g] = map[int64]ssa.Value{}
				}
			}
		}
	}
	for _, fn := range append([]*ssa.Function{a.spkg.Func("init")}, a.fns...) {
		if fn == nil {
			continue
		}
		isInit := fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, isStore := in.(*ssa.Store)
				if isStore {
					if g, ok := st.Addr.(*ssa.Global); ok && g.Pkg == a.spkg {
						stores[g]++
						if c, ok := st.Val.(*ssa.Const); ok && fn.Name() == "init" {
							a.gconst[g] = c
						}
						if !isInit {
							other[g] = in
						} else if a.gtable[g] != nil && !tableStore(st.Val, a.gtable[g]) {
							delete(a.gtable, g)
						}
						continue
					}
				}
				if ia, ok := in.(*ssa.IndexAddr); ok {
					if g, ok := ia.X.(*ssa.Global); ok && a.gtable[g] != nil {
						for _, ref := range *ia.Referrers() {
							switch x := ref.(type) {
							case *ssa.UnOp, *ssa.DebugRef:
								continue
							case *ssa.Store:
								k, ok1 := ia.Index.(*ssa.Const)
								val := staticValue(x.Val)
								if x.Addr == ia && isInit && ok1 && val != nil {
									a.gtable[g][k.Int64()] = val
									continue
								}
							}
							if isInit {
								delete(a.gtable, g)
							} else {
								other[g] = in
							}
						}
						continue
					}
				}
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg != a.spkg {
						continue
					}
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
						// a read; the value itself may still be a reference to shared state
						switch u.Type().Underlying().(type) {
						case *types.Map, *types.Slice, *types.Pointer, *types.Chan:
							if !isInit && a.mutatedThrough(u) {
								other[g] = in
							}
						}
						continue
					}
					switch x := in.(type) {
					case *ssa.DebugRef:
						continue
					case *ssa.IndexAddr:
						if isInit || !a.mutatedThrough(x) {
							continue
						}
					case *ssa.FieldAddr:
						if isInit || !a.mutatedThrough(x) {
							continue
						}
					case *ssa.Slice:
						if isInit || !a.mutatedThrough(x) {
							continue
						}
					}
					if !isInit {
						other[g] = in
					}
				}
			}
		}
	}
	for g, n := range stores {
		if n != 1 || other[g] != nil {
			delete(a.gconst, g)
		}
	}
	for g, in := range other {
		delete(a.gtable, g)
		if strings.HasPrefix(g.Name(), "init$") {
			continue
		}
		a.addViol(&Violation{Props: []string{"C19", "C12"}, Rule: "global-state", Container: "package", Method: in.Parent().Name(), Pos: a.pos(instrPos(in)),
			Msg: fmt.Sprintf("%s may change package-level variable %s, state shared by all containers", in.Parent().Name(), g.Name())})
	}
}

// staticValue is a constant or function, or nil if the value is neither.
func staticValue(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function:
		return v
	case *ssa.ChangeType:
		return staticValue(x.X)
	case *ssa.MakeClosure:
		if len(x.Bindings) == 0 {
			return x.Fn
		}
	}
	return nil
}

// tableStore records the elements of an array literal.
func tableStore(v ssa.Value, tab map[int64]ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok || al.Heap {
		return false
	}
	for _, ref := range *al.Referrers() {
		switch x := ref.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.IndexAddr:
			k, ok := x.Index.(*ssa.Const)
			if !ok {
				return false
			}
			for _, r := range *x.Referrers() {
				st, ok := r.(*ssa.Store)
				val := ssa.Value(nil)
				if ok && st.Addr == x {
					val = staticValue(st.Val)
				}
				if old := tab[k.Int64()]; val == nil || old != nil && old != val {
					return false
				}
				tab[k.Int64()] = val
			}
		default:
			return false
		}
	}
	return true
}

func instrPos(in ssa.Instruction) token.Pos {
	if in.Pos().IsValid() {
		return in.Pos()
	}
	for _, x := range in.Block().Instrs {
		if x.Pos().IsValid() {
			return x.Pos()
		}
	}
	return in.Parent().Pos()
}

// mutatedThrough reports whether memory reached through a loaded reference is
// written, or handed to code that may write it.
func (a *Analysis) mutatedThrough(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.MapUpdate, *ssa.Send, *ssa.Select:
				return true
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return true
				}
				if x.Op == token.MUL {
					switch x.Type().Underlying().(type) {
					case *types.Map, *types.Slice, *types.Pointer, *types.Chan:
						if walk(x) {
							return true
						}
					}
				}
			case *ssa.Store:
				return true // written through, or kept in other memory
			case *ssa.FieldAddr:
				if walk(x) {
					return true
				}
			case *ssa.IndexAddr:
				if walk(x) {
					return true
				}
			case *ssa.Slice:
				if walk(x) {
					return true
				}
			case *ssa.Phi:
				if walk(x) {
					return true
				}
			case *ssa.Convert:
				if walk(x) {
					return true
				}
			case *ssa.ChangeType:
				if walk(x) {
					return true
				}
			case *ssa.Return, *ssa.MakeInterface, *ssa.MakeClosure:
				return true
			case ssa.CallInstruction:
				if b, ok := x.Common().Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
					continue
				}
				callee := x.Common().StaticCallee()
				if callee == nil || x.Common().Value == v || !a.inPkg(callee) {
					return true
				}
				if o := callee.Origin(); o != nil && len(callee.Blocks) == 0 {
					callee = o
				}
				for i, arg := range x.Common().Args {
					if arg == v && (i >= len(callee.Params) || len(callee.Blocks) == 0 || walk(callee.Params[i])) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(v)
}

func (a *Analysis) problem(f string, x ...any) {
	a.structural = append(a.structural, fmt.Sprintf(f, x...))
}

func (a *Analysis) findLayout() {
	lay := &a.lay
	lay.fLink, lay.fSeed, lay.fLen, lay.fDep, lay.fItems, lay.fPath = -1, -1, -1, -1, -1, -1
	lay.lPtr, lay.lP, lay.lT, lay.pathLink = -1, -1, -1, -1
	sc := a.pkg.Types.Scope()
	// the root: struct type that exported structs embed by pointer
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || !tn.Exported() {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			p, ok := st.Field(i).Type().Underlying().(*types.Pointer)
			if !ok {
				continue
			}
			if rs, ok := p.Elem().Underlying().(*types.Struct); ok {
				if nt, ok := p.Elem().(*types.Named); ok && nt.Obj().Pkg() == a.pkg.Types {
					lay.root, lay.rootT = rs, nt
				}
			}
		}
	}
	if lay.root == nil {
		a.problem("no root type found (struct embedded by pointer in the exported containers)")
		return
	}
	for i := 0; i < lay.root.NumFields(); i++ {
		f := lay.root.Field(i)
		switch {
		case isNamed(f.Type(), "hash/maphash", "Seed"):
			lay.fSeed = i
		case f.Name() == "len":
			lay.fLen = i
		case f.Name() == "dep":
			lay.fDep = i
		default:
			if st, ok := f.Type().Underlying().(*types.Struct); ok && hasUnsafePtr(st) {
				lay.fLink = i
				lay.link, lay.linkT = st, types.Unalias(f.Type())
			}
		}
	}
	if lay.link == nil {
		a.problem("no item type found in the root (struct with an unsafe.Pointer)")
		return
	}
	for i := 0; i < lay.link.NumFields(); i++ {
		f := lay.link.Field(i)
		switch {
		case isUnsafePtr(f.Type()):
			lay.lPtr = i
		case f.Name() == "pmap":
			lay.lP = i
		case f.Name() == "tmap":
			lay.lT = i
		}
	}
	for i := 0; i < lay.root.NumFields(); i++ {
		arr, ok := lay.root.Field(i).Type().Underlying().(*types.Array)
		if !ok {
			continue
		}
		if a.isLink(arr.Elem()) {
			lay.fItems = i
			if arr.Len() != 16 {
				a.addViol(&Violation{Props: []string{"C13"}, Rule: "root-capacity", Container: "root", Pos: a.pos(lay.root.Field(i).Pos()),
					Msg: fmt.Sprintf("the root level has room for %d items; 16 digits are possible", arr.Len())})
			}
			continue
		}
		st, ok := arr.Elem().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for j := 0; j < st.NumFields(); j++ {
			if p, ok := st.Field(j).Type().Underlying().(*types.Pointer); ok && a.isLink(p.Elem()) {
				lay.fPath, lay.pathT, lay.pathLink = i, types.Unalias(arr.Elem()), j
			}
		}
	}
	if lay.fLink < 0 || lay.fSeed < 0 || lay.fLen < 0 || lay.fDep < 0 || lay.fItems < 0 || lay.lPtr < 0 || lay.lP < 0 || lay.lT < 0 {
		a.problem("the root or item type misses a field (link, seed, len, dep, items / ptr, pmap, tmap)")
		return
	}
	sz := types.SizesFor("gc", "amd64")
	lay.linkSize = sz.Sizeof(lay.linkT)
	if n := lay.linkSize; n > 16 {
		a.addViol(&Violation{Props: []string{"C23"}, Rule: "item-size", Container: "root", Pos: a.pos(lay.link.Field(0).Pos()),
			Msg: fmt.Sprintf("an item takes %d bytes instead of 16", n)})
	}
	if n := sz.Sizeof(lay.rootT); n > 512 {
		a.addViol(&Violation{Props: []string{"C23"}, Rule: "root-size", Container: "root", Pos: a.pos(lay.root.Field(0).Pos()),
			Msg: fmt.Sprintf("a root takes %d bytes instead of 512", n)})
	}
	lay.linkOff = map[int64]int{}
	var fs []*types.Var
	for i := 0; i < lay.link.NumFields(); i++ {
		fs = append(fs, lay.link.Field(i))
	}
	for i, o := range sz.Offsetsof(fs) {
		lay.linkOff[o] = i
	}
	if w, _, ok := intInfo(lay.link.Field(lay.lP).Type()); !ok || w < 16 {
		a.problem("the presence bitmap has fewer than 16 bits")
	}
	if w, _, ok := intInfo(lay.link.Field(lay.lT).Type()); !ok || w < 16 {
		a.problem("the type bitmap has fewer than 16 bits")
	}
	for _, fi := range []int{lay.fLen, lay.fDep} {
		f := lay.root.Field(fi)
		w, _, ok := intInfo(f.Type())
		if !ok {
			a.problem("root.%s is not an integer", f.Name())
		} else if w < 64 {
			p := "C07"
			if fi == lay.fDep {
				p = "C08"
			}
			a.addViol(&Violation{Props: []string{p}, Rule: "counter-width", Container: "root", Pos: a.pos(f.Pos()),
				Msg: fmt.Sprintf("root.%s has only %d bits: it wraps around on large containers", f.Name(), w)})
		}
	}
}

func isUnsafePtr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

func hasUnsafePtr(st *types.Struct) bool {
	for i := 0; i < st.NumFields(); i++ {
		if isUnsafePtr(st.Field(i).Type()) {
			return true
		}
	}
	return false
}

func canonSub(fn *ssa.Function) map[*types.TypeParam]string {
	sub := map[*types.TypeParam]string{}
	for i, tp := range typeParamsOf(fn) {
		sub[tp] = fmt.Sprintf("$%d", i)
	}
	return sub
}

func (a *Analysis) findContainers() {
	if a.lay.root == nil {
		return
	}
	sc := a.pkg.Types.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || !tn.Exported() {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		st, ok := nt.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		ri := -1
		for i := 0; i < st.NumFields(); i++ {
			if p, ok := st.Field(i).Type().Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), a.lay.rootT) {
				ri = i
			}
		}
		if ri < 0 {
			continue
		}
		c := &Container{name: n, named: nt, methods: map[string]*ssa.Function{}, kvTypes: map[string]kvType{}, kvNames: map[string][]string{},
			infos: map[*ssa.Function]*FnInfo{}, streams: map[string][]string{}, streamV: map[string]Value{}}
		for i := 0; i < nt.NumMethods(); i++ {
			m := nt.Method(i)
			if fn := a.prog.FuncValue(m); fn != nil {
				c.methods[m.Name()] = fn
			}
		}
		c.isSet = c.methods["Has"] != nil && c.methods["Ptr"] == nil
		look := c.methods["Ptr"]
		if c.isSet {
			look = c.methods["Has"]
		}
		if look == nil || len(look.Params) != 2 {
			a.problem("%s has neither Ptr(key) nor Has(key)", n)
			continue
		}
		sub := canonSub(look)
		c.ntp = len(sub)
		c.keyType = typeKey(look.Params[1].Type(), sub)
		c.valType = "struct{}"
		if !c.isSet {
			if p, ok := look.Signature.Results().At(0).Type().Underlying().(*types.Pointer); ok {
				c.valType = typeKey(p.Elem(), sub)
			}
		}
		if w, _, ok := intInfo(look.Params[1].Type()); ok {
			c.inline = true
			c.noEntry = c.isSet
			if w != 64 {
				a.addViol(&Violation{Props: []string{"C17"}, Rule: "key-width", Container: n, Pos: a.pos(look.Pos()),
					Msg: fmt.Sprintf("integer keys have %d bits instead of 64", w)})
			}
		}
		a.containers = append(a.containers, c)
	}
	if len(a.containers) == 0 {
		a.problem("no containers found")
	}
}

func (a *Analysis) addViol(v *Violation) {
	a.mu.Lock()
	defer a.mu.Unlock()
	for _, w := range a.viols {
		if w.Rule == v.Rule && w.Pos == v.Pos && w.Container == v.Container && w.Method == v.Method && w.Case == v.Case && w.Undecided == v.Undecided {
			for _, p := range v.Props {
				found := false
				for _, q := range w.Props {
					found = found || p == q
				}
				if !found {
					w.Props = append(w.Props, p)
				}
			}
			return
		}
	}
	a.viols = append(a.viols, v)
}

// fail records a violation found by this run.
func (r *Run) fail(s *State, pos token.Pos, rule string, f string, x ...any) {
	if r.reported(s, pos, rule) {
		return
	}
	v := &Violation{Rule: rule, Container: r.c.name, Method: r.method, Case: r.cat, Pos: r.a.pos(pos), Msg: fmt.Sprintf(f, x...)}
	if rule == "undecided" {
		v.Undecided = true
	}
	if s != nil {
		for i := len(s.frames) - 1; i >= 0; i-- {
			v.Chain = append(v.Chain, s.frames[i].fi.fn.Name())
		}
		if len(s.notes) > 0 {
			v.Undecided = true
			v.Msg += " [depends on: " + strings.Join(s.notes, "; ") + "]"
		}
	}
	v.Props = r.propsOf(rule, s)
	if r.pend != nil {
		*r.pend = append(*r.pend, v)
		return
	}
	r.emit(v)
}

// reported: the same has been said before.
func (r *Run) reported(s *State, pos token.Pos, rule string) bool {
	if len(r.out) == 0 {
		return false
	}
	props, und, at := r.propsOf(rule, s), rule == "undecided" || s != nil && len(s.notes) > 0, r.a.pos(pos)
	for _, w := range r.out {
		if w.Rule == rule && w.Pos == at && w.Case == r.cat && w.Undecided == und && len(w.Props) >= len(props) {
			return true
		}
	}
	return false
}

func (r *Run) emit(v *Violation) {
	for _, w := range r.out {
		if w.Rule == v.Rule && w.Pos == v.Pos && w.Case == v.Case && w.Undecided == v.Undecided {
			if len(w.Props) >= len(v.Props) {
				return
			}
		}
	}
	r.out = append(r.out, v)
	if len(r.out) > 200 {
		panic(abort{why: "too many violations", final: true})
	}
}

func (r *Run) undecided(pos token.Pos, why string) { r.fail(nil, pos, "undecided", "%s", why) }

// ---- runs

func (a *Analysis) newRun(c *Container, name string, fn *ssa.Function, role string) *Run {
	return &Run{a: a, c: c, method: name, name: c.name + "." + name, fn: fn, lmax: a.lmax, role: role, events: map[string]int{},
		instrs: map[ssa.Instruction]bool{}, cats: map[string]int{}, rules: map[ruleCase]int{}, subs: map[*ssa.Function][]*subCall{}, streams: map[string]string{}}
}

// explore runs the analysis from one initial state.
func (r *Run) explore(s *State) {
	defer func() {
		if e := recover(); e != nil {
			if ab, ok := e.(abort); ok {
				r.undecided(r.lastPos, "analysis stopped: "+ab.why)
				return
			}
			if d, ok := e.(demand); ok {
				_ = d
				r.undecided(r.lastPos, "analysis stopped: split outside an instruction")
				return
			}
			r.undecided(r.lastPos, fmt.Sprintf("internal error: %v\n%s", e, debug.Stack()))
		}
	}()
	r.a.active(r, true)
	defer r.a.active(r, false)
	r.region([]*State{s}, nil)
}

func (a *Analysis) active(r *Run, on bool) {
	a.cbMu.Lock()
	defer a.cbMu.Unlock()
	if a.running == nil {
		a.running = map[*Run]bool{}
	}
	if on {
		if r.began.IsZero() {
			r.began = time.Now()
		}
		a.running[r] = true
	} else {
		delete(a.running, r)
	}
}

const memoryLimit = 12 << 30

// watchMemory ends the run with the most work done when memory gets short.
func (a *Analysis) watchMemory(stop chan bool) {
	for n := 0; ; n++ {
		select {
		case <-stop:
			return
		case <-time.After(100 * time.Millisecond):
		}
		if !a.deadline.IsZero() {
			// time: one operation gets at most 45% of the budget
			now := time.Now()
			a.cbMu.Lock()
			for r := range a.running {
				if now.After(a.deadline) || now.Sub(r.began) > a.budget*45/100 {
					r.late.Store(true)
					r.kill.Store(true)
				}
			}
			a.cbMu.Unlock()
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc < memoryLimit {
			continue
		}
		a.cbMu.Lock()
		var worst *Run
		for r := range a.running {
			switch {
			case r.kill.Load():
			case r.scan:
				r.kill.Store(true)
				worst = r
			case worst == nil || !worst.scan && r.stepsSeen.Load() > worst.stepsSeen.Load():
				worst = r
			}
		}
		if worst != nil {
			worst.kill.Store(true)
		}
		a.cbMu.Unlock()
		time.Sleep(time.Second)
		runtime.GC()
	}
}

func (r *Run) initState(args []Value, sub map[*types.TypeParam]string) *State {
	fi := r.info(r.fn)
	f := &Frame{fi: fi, env: make([]Value, fi.n), blk: r.fn.Blocks[0], tsub: sub}
	for i, p := range r.fn.Params {
		f.env[fi.idx[p]] = args[i]
	}
	return &State{N: 1, frames: []*Frame{f}, enter: true, phis: true, itLo: C(0), itHi: C(1 << 40)}
}

func (r *Run) keyVal() Value {
	if r.c.inline {
		return keyBV(term("key"), 0, 64)
	}
	return term("key")
}

func (r *Run) recvVal(c *Container, root Value) Value {
	st := c.named.Underlying().(*types.Struct)
	v := VStruct{}
	for i := 0; i < st.NumFields(); i++ {
		if p, ok := st.Field(i).Type().Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), r.a.lay.rootT) {
			v.f = append(v.f, root)
		} else {
			v.f = append(v.f, VTop{"extra handle field"})
		}
	}
	return v
}

func rootVal(nilRoot bool) Value {
	if nilRoot {
		return VNil{}
	}
	return VPtr{ref: Ref{k: RRoot}}
}

func (r *Run) isFuncParam(t types.Type) bool {
	_, ok := t.Underlying().(*types.Signature)
	return ok
}

// args builds the arguments of a container method.
func (r *Run) methodArgs(root Value) []Value {
	sub := canonSub(r.fn)
	var out []Value
	for i, p := range r.fn.Params {
		switch {
		case i == 0:
			if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
				_ = pt
				out = append(out, VTop{"pointer receiver"})
			} else {
				out = append(out, r.recvVal(r.c, root))
			}
		case r.isFuncParam(p.Type()):
			out = append(out, term("callback"))
		case i == 1 && typeKey(p.Type(), sub) == r.c.keyType:
			out = append(out, r.keyVal())
		case typeKey(p.Type(), sub) == r.c.valType:
			out = append(out, term("value"))
		default:
			out = append(out, VTop{"parameter " + p.Name()})
		}
	}
	return out
}

var roles = map[string]string{"Get": "read", "Val": "read", "Ptr": "read", "Has": "read", "Set": "insert", "Add": "insert", "Mod": "insert",
	"Del": "del", "All": "iter", "Len": "meta", "Dep": "meta", "Nil": "meta"}

var methodOrder = []string{"Nil", "Len", "Dep", "Get", "Val", "Ptr", "Has", "Set", "Add", "Mod", "Del", "All"}

func (a *Analysis) runContainer(c *Container, need func(role string) bool, done func([]*Run)) []*Run {
	var runs []*Run
	for _, name := range []string{"Has", "Get"} {
		if fn := c.methods[name]; fn != nil {
			// the order in which lookups use the digits of a hash is the order for all
			r := a.newRun(c, name, fn, "read")
			r.readers, r.probe = true, true
			limit := time.AfterFunc(3*time.Second, func() { r.kill.Store(true) })
			r.explore(r.initState(r.methodArgs(rootVal(false)), canonSub(fn)))
			limit.Stop()
			c.topFirst = r.flipped
			break
		}
	}
	defer func() { done(nil) }()
	for _, name := range methodOrder {
		fn := c.methods[name]
		if fn == nil {
			continue
		}
		role := roles[name]
		if need(role) {
			switch role {
			case "iter":
				runs = append(runs, a.runScan(c, name, fn)...)
			default:
				r := a.newRun(c, name, fn, role)
				r.readers = role == "read" || role == "meta"
				r.explore(r.initState(r.methodArgs(rootVal(false)), canonSub(fn)))
				r.checkFinals()
				runs = append(runs, r)
			}
			done(runs)
		}
		if need("nil") {
			r := a.newRun(c, name, fn, "nil")
			r.nilRt = true
			s := r.initState(r.methodArgs(rootVal(true)), canonSub(fn))
			if role == "iter" {
				r.scan, r.pol = true, true
				s.sp = C(0)
				r.allFn = fn
			}
			r.explore(s)
			r.checkNil()
			runs = append(runs, r)
		}
	}
	return runs
}

// scanState gives the generic level: every possible set of present items.
func scanLanes(s *State) {
	v := make([]int64, 65536)
	for i := range v {
		v[i] = int64(i)
	}
	s.N = 65536
	s.sp = Vec{v: v}
	s.visited, s.asked = C(0), C(0)
}

// fewOccupancies keeps a selection: nearly empty and nearly full levels, and some others.
func fewOccupancies(s *State) {
	mask := make([]bool, s.N)
	for i := range mask {
		n := bits.OnesCount64(uint64(s.sp.at(i)))
		mask[i] = n <= 2 || n >= 15 || i%37 == 0
	}
	s.filter(mask)
}

func (a *Analysis) runScan(c *Container, name string, fn *ssa.Function) []*Run {
	var best []*Run
	bestN := -1
	for _, pol := range []bool{true, false} {
		var runs []*Run
		r := a.newRun(c, name, fn, "iter")
		r.scan, r.pol, r.readers, r.allFn = true, pol, true, fn
		s := r.initState(r.methodArgs(rootVal(false)), canonSub(fn))
		scanLanes(s)
		r.explore(s)
		r.checkScanFinals()
		// the contract of each function called for a branch item is checked in turn
		sub := map[*subCall]*Run{}
		for again, found := true, false; again && !found; {
			again = false
			var todo []*subCall
			for _, l := range r.subs {
				for _, sc := range l {
					if sc.dirty {
						todo = append(todo, sc)
					}
				}
			}
			sort.SliceStable(todo, func(i, j int) bool {
				if todo[i].fn != todo[j].fn {
					return todo[i].fn.Pos() < todo[j].fn.Pos()
				}
				return todo[i].depth < todo[j].depth
			})
			for _, sc := range todo {
				again = true
				sc.dirty = false
				if sc.runs++; sc.runs > 6 {
					r.undecided(sc.fn.Pos(), "arguments of "+sc.fn.Name()+" do not settle")
					continue
				}
				n := a.newRun(c, name+"/"+sc.fn.Name(), sc.fn, "iter")
				n.scan, n.pol, n.readers, n.allFn, n.subs, n.subRun, n.ctxDepth = true, pol, true, fn, r.subs, true, sc.depth
				st := sc.st.clone()
				if sc.depth > a.ctxMax {
					fewOccupancies(st)
				}
				n.explore(st)
				n.checkScanFinals()
				sub[sc] = n
				for _, v := range n.out {
					found = found || !v.Undecided
				}
			}
		}
		runs = append(runs, r)
		for _, l := range r.subs {
			for _, sc := range l {
				if n := sub[sc]; n != nil {
					runs = append(runs, n)
				}
			}
		}
		sort.SliceStable(runs[1:], func(i, j int) bool { return runs[i+1].fn.Pos() < runs[j+1].fn.Pos() })
		bad := 0
		for _, q := range runs {
			for _, v := range q.out {
				if !v.Undecided {
					bad += 1000
				} else {
					bad++
				}
			}
		}
		if bestN < 0 || bad < bestN {
			best, bestN = runs, bad
		}
		if bad == 0 {
			break
		}
	}
	return best
}

// Run all analyses for the requested roles.
func (a *Analysis) runAll(need func(role string) bool) {
	if len(a.structural) > 0 {
		return
	}
	var mu sync.Mutex
	res := make([][]*Run, len(a.containers))
	left := make(chan int, len(a.containers))
	stop := make(chan bool)
	defer close(stop)
	go a.watchMemory(stop)
	if need("ctor") {
		a.runs = append(a.runs, a.runCtors()...)
	}
	if need("keys") {
		a.runs = append(a.runs, a.runKeys()...)
	}
	sem := make(chan bool, 8)
	// longest first
	for i, c := range a.containers {
		go func() {
			sem <- true
			defer func() { <-sem }()
			keep := func(rs []*Run) {
				if rs != nil {
					mu.Lock()
					res[i] = rs
					mu.Unlock()
				}
			}
			rs := a.runContainer(c, need, keep)
			keep(append(rs, a.checkContainer(c, rs, need)...))
			left <- i
		}()
	}
	// an analysis that does not stop when asked to is left behind: what was
	// finished is reported
	last := make(<-chan time.Time)
	if !a.deadline.IsZero() {
		last = time.After(time.Until(a.deadline) + a.budget/5)
	}
	running := map[int]bool{}
	for i := range a.containers {
		running[i] = true
	}
wait:
	for len(running) > 0 {
		select {
		case i := <-left:
			delete(running, i)
		case <-last:
			break wait
		}
	}
	mu.Lock()
	defer mu.Unlock()
	for i, rs := range res {
		a.runs = append(a.runs, rs...)
		if running[i] {
			c := a.containers[i]
			r := a.newRun(c, "(all operations)", nil, "cross")
			r.undecided(c.named.Obj().Pos(), c.name+": the analysis did not stop in time")
			a.runs = append(a.runs, r)
		}
	}
	for _, r := range a.runs {
		for _, v := range r.out {
			a.addViol(v)
		}
	}
}
