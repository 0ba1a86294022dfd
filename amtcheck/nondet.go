package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// orderRule: nothing reachable from All may depend on chance, time or the
// scheduler, so that two iterations over the same contents agree.
func (a *Analysis) orderRule() (n int) {
	for _, c := range a.containers {
		all := c.methods["All"]
		if all == nil {
			continue
		}
		seen := map[*ssa.Function]bool{}
		var walk func(fn *ssa.Function)
		walk = func(fn *ssa.Function) {
			if fn == nil || seen[fn] || len(fn.Blocks) == 0 || !a.inPkg(fn) {
				return
			}
			seen[fn] = true
			for _, f := range fn.AnonFuncs {
				walk(f)
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					what := ""
					switch in := in.(type) {
					case *ssa.Go:
						what = "starts a goroutine"
					case *ssa.Select:
						what = "selects between channels"
					case *ssa.Range:
						if _, ok := in.X.Type().Underlying().(*types.Map); ok {
							what = "ranges over a Go map"
						}
					case ssa.CallInstruction:
						n++
						callee := in.Common().StaticCallee()
						if callee == nil {
							continue
						}
						if a.inPkg(callee) {
							if o := callee.Origin(); o != nil {
								callee = o
							}
							walk(callee)
							continue
						}
						if nm := fnName(callee); chance(nm) {
							what = "calls " + nm
						}
					}
					if what != "" {
						a.addViol(&Violation{Props: []string{"C11"}, Rule: "order", Container: c.name, Method: "All", Pos: a.pos(instrPos(in)),
							Msg: fmt.Sprintf("%s %s: the order of iteration is not the same for repeated calls", fn.Name(), what)})
					}
				}
			}
		}
		walk(all)
	}
	return
}

func chance(name string) bool {
	name = strings.TrimLeft(name, "(*")
	for _, p := range []string{"math/rand", "crypto/rand", "time.Now", "time.Since", "time.Until", "hash/maphash.MakeSeed"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}
