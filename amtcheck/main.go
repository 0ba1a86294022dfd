package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

func main() {
	dir := flag.String("repo", "/repo", "package to analyse")
	prop := flag.String("prop", "", "property to report (default: all)")
	lmax := flag.Int64("depth", 48, "number of tree levels analysed")
	ev := flag.String("evidence", "", "evidence file to write")
	tier := flag.String("tier", "quick", "tier")
	seed := flag.Int("seed", 1, "seed (recorded only: the analysis is deterministic)")
	only := flag.String("only", "", "analyse only this container (debugging)")
	known := flag.String("known", "", "known-findings file")
	replay := flag.String("replay", "", "where to write the violation report")
	budget := flag.Duration("budget", 10*time.Minute, "time after which the analysis stops")
	flag.Parse()
	debug.SetMemoryLimit(10 << 30)
	start := time.Now()
	a, err := load(*dir, *lmax)
	if err != nil {
		fmt.Fprintln(os.Stderr, "amtcheck:", err)
		os.Exit(2)
	}
	if *tier == "thorough" {
		a.ctxMax = 66
	}
	a.deadline, a.budget = start.Add(*budget), *budget
	if *only != "" {
		var cs []*Container
		for _, c := range a.containers {
			if c.name == *only {
				cs = append(cs, c)
			}
		}
		a.containers = cs
	}
	rep := &Report{a: a, prop: *prop, tier: *tier, seed: *seed, depth: *lmax, sites: map[string]int{}}
	rep.sites["uintptr-to-pointer conversions"] = a.uintptrRule()
	rep.sites["accesses to the seed field"] = a.seedRule()
	rep.sites["handle fields and methods"] = a.handleRule()
	rep.sites["calls reachable from All"] = a.orderRule()
	rep.sites["sizes of items and roots"] = 2
	rep.sites["package-level variables"] = len(a.globals)
	a.runAll(rolesFor(*prop))
	rep.wall = time.Since(start)
	rep.known = readKnown(*known)
	os.Exit(rep.write(*ev, *replay))
}

// rolesFor lists the analyses that have a rule of the property; the others are
// skipped.
func rolesFor(prop string) func(string) bool {
	roles := map[string][]string{
		"C07": {"insert", "del", "meta", "ctor"}, "C08": {"insert", "del", "meta", "ctor"},
		"C09": {"insert"}, "C10": {"insert"},
		"C11": {"insert", "del", "iter"},
		"C12": {"read", "meta", "iter"},
		"C15": {"nil", "meta", "ctor"},
		"C16": {"keys"},
		"C18": {"insert", "del"},
		"C21": {"read", "insert", "del", "meta", "iter"},
		"C23": {"insert", "del", "ctor"},
		"C20": {"read", "insert", "del", "iter"},
	}[prop]
	return func(r string) bool { return roles == nil || has(roles, r) }
}

type Report struct {
	a     *Analysis
	prop  string
	tier  string
	seed  int
	depth int64
	sites map[string]int
	wall  time.Duration
	known []knownFinding
}

type knownFinding struct{ prop, key, what string }

// key identifies a finding by what fails, not by line numbers.
func (v *Violation) key() string {
	return strings.ReplaceAll(fmt.Sprintf("%s.%s/%s/%s", v.Container, v.Method, v.Rule, v.Case), " ", "_")
}

// readKnown reads lines "known: property=<id> key=<key> <what fails>"; lines
// starting with "fixed:" suppress nothing.
func readKnown(file string) (out []knownFinding) {
	f, err := os.Open(file)
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		var k knownFinding
		var rest []string
		for _, w := range strings.Fields(l)[1:] {
			switch {
			case strings.HasPrefix(w, "property=") && k.prop == "":
				k.prop = w[len("property="):]
			case strings.HasPrefix(w, "key=") && k.key == "":
				k.key = w[len("key="):]
			default:
				rest = append(rest, w)
			}
		}
		k.what = strings.Join(rest, " ")
		out = append(out, k)
	}
	return
}

var siteProps = map[string]string{
	"uintptr-to-pointer conversions": "C14", "accesses to the seed field": "C19",
	"handle fields and methods": "C15", "sizes of items and roots": "C23", "calls reachable from All": "C11", "package-level variables": "C19",
}

func has(ps []string, p string) bool {
	for _, q := range ps {
		if p == q {
			return true
		}
	}
	return false
}

func (rep *Report) write(ev, replay string) int {
	a, prop := rep.a, rep.prop
	sort.Slice(a.viols, func(i, j int) bool {
		x, y := a.viols[i], a.viols[j]
		if x.Container != y.Container {
			return x.Container < y.Container
		}
		if x.Method != y.Method {
			return x.Method < y.Method
		}
		if x.Pos != y.Pos {
			return x.Pos < y.Pos
		}
		return x.Rule+x.Case+x.Msg < y.Rule+y.Case+y.Msg
	})
	var bad, und []*Violation
	knownHit := map[int]bool{}
	for _, v := range a.viols {
		if prop != "" && !has(v.Props, prop) {
			continue
		}
		if v.Undecided {
			und = append(und, v)
			continue
		}
		listed := false
		for i, k := range rep.known {
			if k.prop == prop && k.key == v.key() {
				listed, knownHit[i] = true, true
			}
		}
		if !listed {
			bad = append(bad, v)
		}
	}
	for _, p := range a.structural {
		und = append(und, &Violation{Rule: "structure", Container: "package", Msg: p, Undecided: true})
	}

	// what was covered, as counted in this run
	type opInfo struct {
		Op    string         `json:"operation"`
		Role  string         `json:"analysis"`
		Steps int            `json:"abstract_steps"`
		Ends  int            `json:"path_ends"`
		Cases map[string]int `json:"cases,omitempty"`
		Rules map[string]int `json:"rule_decisions,omitempty"`
	}
	var ops []opInfo
	total, steps, ends, covered := 0, 0, 0, 0
	ruleSum := map[string]int{}
	fns := map[string]bool{}
	instrs := 0
	for _, r := range a.runs {
		oi := opInfo{Op: r.name, Role: r.role, Steps: r.steps, Ends: r.ends, Cases: r.cats, Rules: map[string]int{}}
		sum := 0
		for rc, n := range r.rules {
			r.cat = rc.cat
			if prop != "" && !has(r.propsOf(rc.rule, nil), prop) {
				continue
			}
			k := rc.rule
			if rc.cat != "" {
				k += " (" + rc.cat + ")"
			}
			oi.Rules[k] += n
			ruleSum[rc.rule] += n
			sum += n
		}
		r.cat = ""
		if sum == 0 && prop != "" {
			continue
		}
		covered++
		total += sum
		steps += r.steps
		ends += r.ends
		for in := range r.instrs {
			fns[in.Parent().String()] = true
		}
		instrs += len(r.instrs)
		ops = append(ops, oi)
	}
	sites := map[string]int{}
	for k, n := range rep.sites {
		if prop == "" || siteProps[k] == prop {
			sites[k] = n
			total += n
		}
	}
	for _, v := range und {
		m := v.Msg
		if i := strings.IndexByte(m, '\n'); i > 0 && os.Getenv("AMTCHECK_DEBUG") == "" {
			m = m[:i]
		}
		fmt.Printf("UNDECIDED %s.%s %s [%s] %s\n", v.Container, v.Method, v.Pos, strings.Join(v.Props, ","), m)
	}
	for _, v := range bad {
		fmt.Printf("%s: %s.%s: %s (%s) [%s]\n", v.Pos, v.Container, v.Method, v.Msg, v.Rule, strings.Join(v.Props, ","))
	}
	for i, k := range rep.known {
		if knownHit[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", k.prop, k.key, k.what)
		}
	}
	fmt.Printf("%s: %d operations analysed, %d levels, %d abstract steps, %d path ends, %d rule decisions, %d violations, %d undecided, %.1fs\n",
		orAll(prop), covered, rep.depth, steps, ends, total, len(bad), len(und), rep.wall.Seconds())

	if len(bad) > 0 && replay != "" {
		_ = os.MkdirAll(filepath.Dir(replay), 0o755)
		b, _ := json.MarshalIndent(map[string]any{"property": prop, "violations": bad, "undecided": und}, "", " ")
		_ = os.WriteFile(replay, append(b, '\n'), 0o644)
	}
	if ev != "" {
		_ = os.MkdirAll(filepath.Dir(ev), 0o755)
		if und == nil {
			und = []*Violation{}
		}
		if bad == nil {
			bad = []*Violation{}
		}
		doc := map[string]any{
			"property": prop, "tier": rep.tier, "seed": rep.seed, "level": "other", "wall_s": rep.wall.Seconds(), "violations": len(bad),
			"coverage": map[string]any{
				"explanation": "Abstract interpretation of the SSA form of every operation in /repo, from an abstract state that stands for all valid containers and keys; " +
					"each path end (and each access, cast, store and callback on the way) is compared with what the property demands. The counts are of this run: operations (the ones with a rule of this property), " +
					"path ends, rule decisions per operation and case (one decision covers every occupancy, position and level its abstract state stands for), and syntactic sites. " +
					"Levels 0.." + fmt.Sprint(rep.depth-1) + " of the tree are covered. Anything the analysis could not decide is listed under undecided and is not claimed.",
				"operations_analysed": covered, "functions_analysed": len(fns), "instructions_analysed": instrs,
				"abstract_steps": steps, "path_ends": ends, "rule_decisions": total, "decisions_by_rule": ruleSum,
				"levels": rep.depth, "sites": sites, "operations": ops, "undecided": und, "found": bad,
			},
			"assumptions": assumptions,
		}
		b, _ := json.MarshalIndent(doc, "", " ")
		if err := os.WriteFile(ev, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "amtcheck:", err)
			return 2
		}
	}
	if len(bad) > 0 {
		if prop != "" {
			if replay == "" {
				replay = "-"
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		}
		return 1
	}
	return 0
}

func orAll(p string) string {
	if p == "" {
		return "all properties"
	}
	return p
}

var assumptions = []string{
	"the tree is at most as deep as the number of levels analysed (and always below 240)",
	"hash streams of unequal keys differ at some level",
	"user-supplied Equal is an equivalence relation; Hash and KeyBytes are deterministic and agree with it",
	"byte-slice keys are not modified while they are stored",
	"callbacks do not modify the container they are called from",
	"64-bit platform (sizes of amd64)",
	"modifying operations are not run concurrently with any other operation on the same container",
	"soundness of golang.org/x/tools/go/ssa and of the analyzer's own transfer functions",
}
