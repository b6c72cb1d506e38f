// Command vrun decides one property: it builds the harness of that property
// against /repo's current working tree, explores, and writes the evidence.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"vtools/instr"
)

var repo = "/repo"

func init() {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		repo = r
	}
}

const module = "github.com/NVIDIA/vdisc"

type report struct {
	Scenarios   int               `json:"scenarios"`
	Completed   int               `json:"completed"`
	Execs       int64             `json:"execs"`
	Steps       int64             `json:"steps"`
	States      int64             `json:"states"`
	Pruned      int64             `json:"pruned"`
	Divergences int64             `json:"divergences"`
	Outcomes    map[string]int64  `json:"outcomes"`
	PerScenario map[string]int64  `json:"per_scenario"`
	Violations  []*violation      `json:"violations"`
	Unconfirmed []*violation      `json:"unconfirmed"`
	Known       map[string]string `json:"known"`
	Samples     []interface{}     `json:"samples"`
	Exhaustive  bool              `json:"exhaustive"`
	Error       string            `json:"error"`
	WallS       float64           `json:"wall_s"`
	Notes       []string          `json:"notes"`
}

type violation struct {
	Scenario string   `json:"scenario"`
	Choices  []int    `json:"choices"`
	Key      string   `json:"key"`
	Msg      string   `json:"msg"`
	Trace    []string `json:"trace,omitempty"`
	Property string   `json:"property"`
	Build    string   `json:"build"`
}

func fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, format+"\n", args...)
	panic(exitCode(2))
}

type exitCode int

func main() {
	code := 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				if c, ok := r.(exitCode); ok {
					code = int(c)
					return
				}
				panic(r)
			}
		}()
		if len(os.Args) < 2 {
			fatal("usage: vrun ID | -warm")
		}
		if os.Args[1] == "-warm" {
			warm()
			return
		}
		if os.Args[1] == "-manifest" {
			manifest()
			return
		}
		code = check(os.Args[1], os.Args[2:])
	}()
	os.Exit(code)
}

type known struct{ prop, key, what string }

// readKnown parses known-findings.txt: `known: property=<id> key=<key> | <what>`.
func readKnown(root string) []known {
	var out []known
	b, _ := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		i := strings.Index(l, " key=")
		j := strings.Index(l, " | ")
		if i < 0 || j < 0 {
			continue
		}
		out = append(out, known{l[:i], l[i+5 : j], l[j+3:]})
	}
	return out
}

// overlay builds the overlay map for a harness and instruments packages.
func overlay(root, scratch string, c *config, b *buildCfg) string {
	harness, instrument := b.harness, c.instrument
	if b.plain {
		instrument = nil
	}
	rep := map[string]string{}
	var add func(dir string)
	done := map[string]bool{}
	add = func(dir string) {
		if done[dir] {
			return
		}
		done[dir] = true
		fs, err := filepath.Glob(filepath.Join(root, "harness", dir, "*.go"))
		if err != nil || len(fs) == 0 {
			fatal("no harness files in %s", dir)
		}
		for _, f := range fs {
			rep[filepath.Join(repo, "zzverif", dir, filepath.Base(f))] = f
			b, _ := os.ReadFile(f)
			for _, l := range strings.Split(string(b), "\n") {
				l = strings.TrimSpace(l)
				if i := strings.Index(l, `"`+module+"/zzverif/"); i >= 0 && strings.HasSuffix(l, `"`) {
					d := strings.TrimSuffix(l[i+len(module)+len(`"/zzverif/`):], `"`)
					if !strings.HasPrefix(d, "x/") {
						add(d)
					}
				}
			}
		}
	}
	add(harness)
	if len(instrument) > 0 {
		for _, d := range []string{"vs", "vs/sync", "vs/atomic", "vs/time", "vs/context", "vs/io", "vs/rand"} {
			add(d)
		}
	}
	path := filepath.Join(scratch, "overlay-"+harness+".json")
	write := func() {
		b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
		if err := os.WriteFile(path, b, 0644); err != nil {
			fatal("%v", err)
		}
	}
	write()
	if len(instrument) > 0 {
		if err := instr.Instrument(instr.Config{Repo: repo, Module: module, Overlay: path, Replace: rep, Scratch: scratch,
			Packages: instrument, Redirect: c.redirect, Root: "./zzverif/" + harness, HarnessPkgs: c.instrHarness}); err != nil {
			fatal("instrument: %v", err)
		}
		write()
	}
	return path
}

func build(root, scratch string, c *config, b *buildCfg) (string, error) {
	ov := overlay(root, scratch, c, b)
	bin := filepath.Join(scratch, "h-"+b.name)
	args := []string{"build", "-overlay", ov, "-o", bin}
	if b.race {
		// The scheduler and the monitors are not subject to race detection.
		args = append(args, "-race")
		for _, p := range []string{"mc", "vs", "vs/...", "cfs", "xhttp", "xnet", "xfuse", "xfuseutil", "xristretto", b.harness} {
			args = append(args, "-gcflags="+module+"/zzverif/"+p+"=-race=false -l")
		}
	}
	args = append(args, "./zzverif/"+b.harness)
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	if b.race {
		// Otherwise packages compiled without the race detector allocate
		// memory that still carries its former users' accesses.
		cmd.Env = append(os.Environ(), "GOEXPERIMENT=nosizespecializedmalloc")
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("build: %v\n%s", err, out)
	}
	return bin, nil
}

func mkScratch() string {
	d, err := os.MkdirTemp("", "vdiscv")
	if err != nil {
		fatal("%v", err)
	}
	return d
}

func warm() {
	root := os.Getenv("VERIF_ROOT")
	scratch := mkScratch()
	defer os.RemoveAll(scratch)
	var ids []string
	for id := range configs {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		for i := range configs[id].builds {
			if _, err := build(root, scratch, configs[id], &configs[id].builds[i]); err != nil {
				fmt.Fprintln(os.Stderr, id, err)
			}
		}
	}
}

func check(id string, extra []string) int {
	t0 := time.Now()
	root := os.Getenv("VERIF_ROOT")
	c, ok := configs[id]
	if !ok {
		fatal("no check for %s", id)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	scratch := mkScratch()
	defer os.RemoveAll(scratch)
	os.Chmod(scratch, 0755)
	var keys []string
	what := map[string]string{}
	for _, k := range readKnown(root) {
		if k.prop == id {
			keys = append(keys, k.key)
			what[k.key] = k.what
		}
	}
	kf := filepath.Join(scratch, "known")
	os.WriteFile(kf, []byte(strings.Join(keys, "\n")), 0644)

	total := &report{Outcomes: map[string]int64{}, PerScenario: map[string]int64{}, Known: map[string]string{}, Exhaustive: true}
	var viols []*violation
	perBuild := map[string]interface{}{}
	for i := range c.builds {
		b := &c.builds[i]
		if b.thoroughOnly && tier != "thorough" {
			continue
		}
		bin, err := build(root, scratch, c, b)
		if err != nil {
			fatal("%v", err)
		}
		out := filepath.Join(scratch, "report-"+b.name+".json")
		dl := b.quickS
		if tier == "thorough" {
			dl = b.thoroughS
		}
		if dl == 0 {
			dl = 250
			if tier == "thorough" {
				dl = 780 / len(c.builds)
				if dl > 600 {
					dl = 600
				}
			}
		}
		hs := filepath.Join(scratch, "run-"+b.name)
		os.MkdirAll(hs, 0777)
		os.Chmod(hs, 0777)
		args := append([]string{"-tier", tier, "-out", out, "-known", kf, "-scratch", hs, "-deadline", fmt.Sprintf("%ds", dl)}, extra...)
		cmd := exec.Command(bin, args...)
		cmd.Dir = hs
		cmd.Stdout, cmd.Stderr = os.Stderr, os.Stderr
		cmd.Env = append(os.Environ(), "TMPDIR="+hs)
		rerr := cmd.Run()
		data, err := os.ReadFile(out)
		if err != nil {
			fatal("harness %s: %v (no report)", b.name, rerr)
		}
		var r report
		if err := json.Unmarshal(data, &r); err != nil {
			fatal("harness %s: bad report: %v", b.name, err)
		}
		for _, v := range r.Violations {
			v.Property, v.Build = id, b.name
			viols = append(viols, v)
		}
		if r.Error != "" && len(r.Violations) == 0 {
			fatal("harness %s: %s", b.name, r.Error)
		}
		if len(r.Unconfirmed) > 0 && len(r.Violations) == 0 {
			v := r.Unconfirmed[0]
			fatal("harness %s: unreproducible failure in %s: %s: %s", b.name, v.Scenario, v.Key, v.Msg)
		}
		total.Scenarios += r.Scenarios
		total.Completed += r.Completed
		total.Execs += r.Execs
		total.Steps += r.Steps
		total.States += r.States
		total.Pruned += r.Pruned
		total.Divergences += r.Divergences
		total.Exhaustive = total.Exhaustive && r.Exhaustive
		total.Samples = append(total.Samples, r.Samples...)
		total.Notes = append(total.Notes, r.Notes...)
		for k, v := range r.Outcomes {
			total.Outcomes[k] += v
		}
		for k, v := range r.Known {
			total.Known[k] = v
		}
		perBuild[b.name] = map[string]interface{}{"executions": r.Execs, "scenarios": r.Scenarios, "completed": r.Completed, "pruned": r.Pruned, "wall_s": r.WallS, "exhaustive": r.Exhaustive}
		if len(viols) > 0 {
			break
		}
	}
	cov := map[string]interface{}{
		"samples":           total.Samples,
		"exhaustive":        total.Exhaustive,
		"scenarios":         total.Scenarios,
		"completed":         total.Completed,
		"pruned_executions": total.Pruned,
		"divergences":       total.Divergences,
		"distinct_outcomes": len(total.Outcomes),
		"outcomes":          total.Outcomes,
		"builds":            perBuild,
		"bounds":            c.bounds,
		"notes":             total.Notes,
	}
	if c.level == "model_checking" {
		cov["states"] = total.States
		cov["transitions"] = total.Steps
		cov["traces_validated_against_impl"] = total.Execs
	} else {
		cov["evaluations"] = total.Execs
		cov["distinct_nontrivial"] = total.States
		cov["rule"] = c.rule
		cov["checked_steps"] = total.Steps
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": c.level, "coverage": cov,
		"assumptions": append([]string{}, c.assumptions...), "wall_s": time.Since(t0).Seconds(), "violations": len(viols),
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", id+".json"), b, 0644); err != nil {
		fatal("%v", err)
	}
	var ks []string
	for k := range total.Known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, what[k])
	}
	fmt.Printf("%s %s: scenarios=%d/%d executions=%d states=%d steps=%d pruned=%d outcomes=%d exhaustive=%v wall=%.1fs\n", id, tier,
		total.Completed, total.Scenarios, total.Execs, total.States, total.Steps, total.Pruned, len(total.Outcomes), total.Exhaustive, time.Since(t0).Seconds())
	if len(viols) > 0 {
		dir := filepath.Join(root, "evidence", "replay")
		os.MkdirAll(dir, 0755)
		for i, v := range viols {
			p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, i))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(p, b, 0644)
			fmt.Printf("  %s [%s]: %s: %s\n", v.Scenario, v.Build, v.Key, firstLines(v.Msg, 12))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		}
		return 1
	}
	return 0
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n    ")
}

// manifest rewrites MANIFEST.json from the table of checks.
func manifest() {
	root := os.Getenv("VERIF_ROOT")
	b, err := os.ReadFile(filepath.Join(root, "properties.jsonl"))
	if err != nil {
		fatal("%v", err)
	}
	checks := []interface{}{}
	na := []interface{}{}
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		var p struct{ ID string }
		if err := json.Unmarshal([]byte(l), &p); err != nil {
			fatal("%v", err)
		}
		c, ok := configs[p.ID]
		if !ok {
			r := notApplicable[p.ID]
			if r == "" {
				r = "check not built yet"
			}
			na = append(na, map[string]string{"property": p.ID, "reason": r})
			continue
		}
		checks = append(checks, map[string]string{"property": p.ID, "quick_cmd": "bash run.sh " + p.ID, "thorough_cmd": "bash run.sh " + p.ID,
			"evidence_file": "evidence/" + p.ID + ".json", "technique": c.technique, "level": c.level, "level_note": c.bounds})
	}
	m := map[string]interface{}{
		"version": 1, "setup_cmd": "bash setup.sh",
		"hooks":  map[string]interface{}{"guard": "none", "enable": "no hooks in /repo: harnesses and instrumented copies are added at build time with go build -overlay", "source_commits": []string{}},
		"checks": checks, "not_applicable": na, "notes": "Every check enumerates its bounded space on the code of /repo's working tree; bounds are in level_note and DESIGN.md.",
	}
	o, _ := json.MarshalIndent(m, "", " ")
	if err := os.WriteFile(filepath.Join(root, "MANIFEST.json"), append(o, '\n'), 0644); err != nil {
		fatal("%v", err)
	}
}
