package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Finding is one violated obligation. Key identifies rule + construct, never a line.
type Finding struct {
	Key   string   `json:"key"`
	Rule  string   `json:"rule"`
	Where string   `json:"where"`
	Msg   string   `json:"msg"`
	Path  []string `json:"path,omitempty"`
}

type Report struct {
	Property  string
	Rules     []string
	Findings  []Finding
	seen      map[string]bool
	Oblig     map[string]int // rule -> obligations examined
	obligSeen map[string]bool
	Samples   []string
	Funcs     map[string]bool
	Paths     int
	Assume    []string
	Known     map[string]string
}

func NewReport(id string) *Report {
	return &Report{Property: id, seen: map[string]bool{}, Oblig: map[string]int{}, obligSeen: map[string]bool{}, Funcs: map[string]bool{}, Known: map[string]string{}}
}

// Rule documents a rule that was applied.
func (r *Report) Rule(s string) { r.Rules = append(r.Rules, s) }

// Ob records that an obligation (rule instance) was examined; duplicates by key count once.
func (r *Report) Ob(rule, key string) {
	k := rule + "|" + key
	if r.obligSeen[k] {
		return
	}
	r.obligSeen[k] = true
	r.Oblig[rule]++
	if len(r.Samples) < 40 && r.Oblig[rule] <= 4 {
		r.Samples = append(r.Samples, rule+": "+key)
	}
}

// Bad records a violation.
func (r *Report) Bad(rule, construct, where, msg string, path ...string) {
	k := r.Property + "/" + rule + "/" + construct
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.Findings = append(r.Findings, Finding{Key: k, Rule: rule, Where: where, Msg: msg, Path: path})
}

// Min fails the property when a rule matched fewer instances than were confirmed by hand: a rule
// that no longer sees its sites must not pass vacuously.
func (r *Report) Min(rule string, min int) {
	if r.Oblig[rule] < min {
		r.Bad(rule, "instances", "-", fmt.Sprintf("rule matched %d instances, at least %d are expected: the construct it guards has been removed or is no longer recognised", r.Oblig[rule], min))
	}
}

func (r *Report) Saw(x *Exec) {
	for f := range x.FuncsSeen {
		r.Funcs[FuncName(f)] = true
	}
	r.Paths += x.States
}

func (r *Report) SawFn(fs ...*ssa.Function) {
	for _, f := range fs {
		r.Funcs[FuncName(f)] = true
	}
}

type knownEntry struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

// Finish prints the verdict, writes the evidence file and returns the exit code.
func (r *Report) Finish(verif string, start time.Time, pd *propDef) int {
	known := map[string]string{}
	var kf struct {
		Known []knownEntry `json:"known"`
		Fixed []string     `json:"fixed"`
	}
	if b, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Printf("known_findings.json: %v\n", err)
		}
		for _, k := range kf.Known {
			if k.Property == r.Property {
				known[k.Key] = k.What
			}
		}
	}
	sort.Slice(r.Findings, func(i, j int) bool { return r.Findings[i].Key < r.Findings[j].Key })
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0o755)
	replay := filepath.Join(evdir, r.Property+".violations.txt")
	os.Remove(replay)
	var viol []Finding
	var sb strings.Builder
	for _, f := range r.Findings {
		if what, ok := known[f.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", r.Property, what, f.Key)
			continue
		}
		viol = append(viol, f)
		fmt.Fprintf(&sb, "%s\n  rule: %s\n  at:   %s\n  %s\n", f.Key, f.Rule, f.Where, f.Msg)
		for _, p := range f.Path {
			fmt.Fprintf(&sb, "    path: %s\n", p)
		}
	}
	total := 0
	for _, n := range r.Oblig {
		total += n
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := 0
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	cov := map[string]interface{}{
		"explanation":          pd.explain,
		"rules":                r.Rules,
		"obligations":          total,
		"obligations_by_rule":  r.Oblig,
		"discharged":           total - len(viol),
		"functions_analysed":   len(r.Funcs),
		"abstract_states":      r.Paths,
		"samples":              r.Samples,
		"known_findings_seen":  len(r.Findings) - len(viol),
		"source":               "current working tree of /repo, type-checked and in SSA form",
		"functions_analysed_l": keysOf(r.Funcs, 80),
	}
	ev := map[string]interface{}{
		"property": r.Property, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": len(viol),
	}
	if len(r.Assume) > 0 {
		ev["assumptions"] = r.Assume
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, r.Property+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	var rules []string
	for _, k := range sortedKeys(r.Oblig) {
		rules = append(rules, fmt.Sprintf("%s=%d", k, r.Oblig[k]))
	}
	fmt.Printf("%s: %d obligations (%s), %d functions, %d abstract states, %.1fs\n", r.Property, total, strings.Join(rules, " "), len(r.Funcs), r.Paths, time.Since(start).Seconds())
	if len(viol) == 0 {
		return 0
	}
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	if out := sb.String(); len(out) > 6000 && os.Getenv("VERIF_FULL") == "" {
		fmt.Print(out[:6000] + "\n... (full list in the replay file)\n")
	} else {
		fmt.Print(out)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, replay)
	return 1
}

func keysOf(m map[string]bool, max int) []string {
	ks := sortedKeys(m)
	if len(ks) > max {
		ks = append(ks[:max], fmt.Sprintf("... %d more", len(ks)-max))
	}
	return ks
}
