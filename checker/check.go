package main

// Running a check: obligations, violations, evidence.

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Violation struct {
	Rule  string   `json:"rule"`
	What  string   `json:"what"`
	Where string   `json:"where"`
	Fn    string   `json:"function,omitempty"`
	Path  []string `json:"path,omitempty"`
	key   string
}

type Check struct {
	id       string
	p        *Program
	engines  []*Engine
	viols    []Violation
	obligs   int
	paths    int
	rules    map[string]int
	minimum  int // the least number of obligations a meaningful run has
	samples  []string
	explain  string
	assume   []string
	analysed map[string]bool
	sites    map[string]bool

	boundsAll bool // every engine generates index, slice and assertion obligations
}

func (c *Check) engine() *Engine {
	e := newEngine(c.p)
	if c.boundsAll {
		e.bounds, e.typePanics, e.nilChecks = true, true, true
	}
	c.engines = append(c.engines, e)
	return e
}

// require discharges one obligation of a rule
func (c *Check) require(ok bool, rule string, pos token.Pos, sc *Scope, format string, args ...any) bool {
	c.obligs++
	c.rules[rule]++
	where := c.p.pos(pos)
	if pos.IsValid() {
		c.sites[where] = true
	}
	if ok {
		if len(c.samples) < 12 && c.rules[rule] <= 2 {
			c.samples = append(c.samples, fmt.Sprintf("%s: %s [%s]", where, rule, clip(fmt.Sprintf(format, args...))))
		}
		return true
	}
	v := Violation{Rule: rule, What: fmt.Sprintf(format, args...), Where: where}
	if sc != nil {
		v.Path = sc.describe(c.p)
		if len(v.Path) > 80 {
			v.Path = append(v.Path[:40], append([]string{"..."}, v.Path[len(v.Path)-39:]...)...)
		}
	}
	if sc != nil && os.Getenv("GCDUMP") == rule {
		fmt.Println("=== failing", v.What)
		printItems(c.p, sc.items, "  ")
	}
	v.key = rule + "|" + where + "|" + v.What
	for _, o := range c.viols {
		if o.key == v.key {
			return false
		}
	}
	c.viols = append(c.viols, v)
	return false
}

// one outcome of stage calls
func (c *Check) single(outs []Outcome, what string) Outcome {
	var live []Outcome
	for _, o := range outs {
		if o.Panic == nil {
			live = append(live, o)
		}
	}
	if len(live) != 1 {
		panic(undecided(fmt.Sprintf("%s: %d ways to return, expected one", what, len(live))))
	}
	return live[0]
}

type spec struct {
	run     func(c *Check)
	min     int
	explain string
	assume  []string
}

var specs = map[string]spec{}

func runCheck(p *Program, id string) (c *Check) {
	c = &Check{id: id, p: p, rules: map[string]int{}, analysed: map[string]bool{}, sites: map[string]bool{}}
	s, ok := specs[id]
	if !ok {
		c.viols = append(c.viols, Violation{Rule: "unknown-check", What: "no such check " + id})
		return
	}
	c.minimum, c.explain, c.assume = s.min, s.explain, s.assume
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecidedErr); ok {
				c.viols = append(c.viols, Violation{Rule: "undecided", What: "the rule cannot be decided for this code: " + u.msg})
			} else {
				c.viols = append(c.viols, Violation{Rule: "internal-error", What: fmt.Sprint(r), Path: strings.Split(string(debug.Stack()), "\n")})
			}
		}
		for _, e := range c.engines {
			for f := range e.fnsSeen {
				c.analysed[f.String()] = true
			}
		}
	}()
	s.run(c)
	if c.obligs < c.minimum && len(c.viols) == 0 {
		c.viols = append(c.viols, Violation{Rule: "vacuous", What: fmt.Sprintf("only %d obligations were generated, at least %d expected", c.obligs, c.minimum)})
	}
	return
}

type knownFinding struct{ prop, key string }

func readKnown(path string) (out []knownFinding) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "finding: property=") {
			rest := strings.TrimPrefix(l, "finding: property=")
			if i := strings.IndexByte(rest, ' '); i > 0 {
				out = append(out, knownFinding{rest[:i], strings.TrimSpace(rest[i:])})
			}
		}
	}
	return
}

func cmdCheck(ids []string, root, out, tier string) int {
	start := time.Now()
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	p, err := loadProgram(root)
	code := 0
	for _, id := range ids {
		t0 := start
		var c *Check
		if err != nil {
			c = &Check{id: id, rules: map[string]int{}, viols: []Violation{{Rule: "load", What: "the analysed program does not load: " + err.Error()}}}
		} else {
			c = runCheck(p, id)
		}
		known := readKnown(filepath.Join(out, "known_findings.txt"))
		var left []Violation
		for _, v := range c.viols {
			hit := false
			for _, k := range known {
				if k.prop == id && k.key == v.Rule+" "+v.What {
					hit = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.key)
				}
			}
			if !hit {
				left = append(left, v)
			}
		}
		fns := sortedKeys(c.analysed)
		var ssaFns []*ssa.Function
		loops, forks, calls := 0, 0, 0
		for _, e := range c.engines {
			for f := range e.fnsSeen {
				ssaFns = append(ssaFns, f)
			}
			loops += e.loopsN
			forks += e.forks
			calls += e.callsN
		}
		short := make([]string, len(fns))
		for i := range fns {
			short[i] = strings.ReplaceAll(fns[i], modPath+"/", "")
		}
		blocks, instrs := fnSize(ssaFns)
		ev := map[string]any{
			"property": id, "tier": tier, "seed": seed, "level": "other",
			"coverage": map[string]any{
				"explanation":           c.explain,
				"obligations":           c.obligs,
				"discharged":            c.obligs - len(c.viols),
				"rules":                 c.rules,
				"functions_analysed":    short,
				"ssa_blocks":            blocks,
				"ssa_instructions":      instrs,
				"calls_resolved":        calls,
				"paths_explored":        c.paths,
				"path_splits":           forks,
				"loops_analysed":        loops,
				"sites_checked":         len(c.sites),
				"repo_packages_loaded":  packagesLoaded(p),
				"samples":               c.samples,
				"exhaustive":            true,
				"known_findings_active": len(c.viols) - len(left),
			},
			"assumptions": append([]string{"the Go type checker and SSA construction (golang.org/x/tools v0.52.0) represent the source faithfully", "library functions behave as their models say (DESIGN.md, section Models)"}, c.assume...),
			"violations":  len(left),
			"wall_s":      time.Since(t0).Seconds(),
		}
		os.MkdirAll(filepath.Join(out, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(out, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		replay := filepath.Join(out, "evidence", id+".violation.json")
		if len(left) > 0 {
			sort.SliceStable(left, func(i, j int) bool { return left[i].Where < left[j].Where })
			b, _ := json.MarshalIndent(map[string]any{"property": id, "violations": left, "replay": "./run.sh " + id}, "", " ")
			os.WriteFile(replay, append(b, '\n'), 0o644)
			for i, v := range left {
				if i >= 10 {
					fmt.Printf("  ... and %d more\n", len(left)-10)
					break
				}
				fmt.Printf("  %s: [%s] %s\n", v.Where, v.Rule, clip(v.What))
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
			code = 1
		} else {
			os.Remove(replay)
			fmt.Printf("OK property=%s obligations=%d functions=%d paths=%d\n", id, c.obligs, len(fns), c.paths)
		}
	}
	return code
}

func packagesLoaded(p *Program) int {
	if p == nil {
		return 0
	}
	return p.stats.packages
}
