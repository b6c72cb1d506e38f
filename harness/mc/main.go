//go:build go1.22

package mc

import (
	"bufio"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Job is a subtree of a scenario's choice tree.
type Job struct {
	Sc     int   `json:"sc"`
	Prefix []int `json:"prefix"`
	Lo     int   `json:"lo"`
	Hi     int   `json:"hi"`
}

type reply struct {
	Donate *Job              `json:"donate,omitempty"`
	Done   bool              `json:"done,omitempty"`
	NoWork bool              `json:"nowork,omitempty"`
	Execs  int64             `json:"execs,omitempty"`
	Steps  int64             `json:"steps,omitempty"`
	Pruned int64             `json:"pruned,omitempty"`
	Div    int64             `json:"div,omitempty"`
	States string            `json:"states,omitempty"`
	Outs   map[string]int64  `json:"outs,omitempty"`
	Viol   *Violation        `json:"viol,omitempty"`
	Known  map[string]string `json:"known,omitempty"`
	Sample []string          `json:"sample,omitempty"`
}

// Report is what a harness run produced; the runner turns it into evidence.
type Report struct {
	Scenarios   int               `json:"scenarios"`
	Completed   int               `json:"completed"`
	Execs       int64             `json:"execs"`
	Steps       int64             `json:"steps"`
	States      int64             `json:"states"`
	Pruned      int64             `json:"pruned"`
	Divergences int64             `json:"divergences"`
	Outcomes    map[string]int64  `json:"outcomes"`
	PerScenario map[string]int64  `json:"per_scenario"`
	Violations  []*Violation      `json:"violations"`
	Unconfirmed []*Violation      `json:"unconfirmed"`
	Known       map[string]string `json:"known"`
	Samples     []interface{}     `json:"samples"`
	Exhaustive  bool              `json:"exhaustive"`
	Error       string            `json:"error"`
	WallS       float64           `json:"wall_s"`
	Notes       []string          `json:"notes"`
}

// Def describes a harness.
type Def struct {
	Scenarios func(tier string) []Scenario
	// HangS is how long one execution may take before it counts as hanging.
	HangS int
	// ExecCleanup runs after a worker died, with the worker's scratch dir.
	Setup func(scratch string)
}

// Scratch is a private directory of this worker process.
var Scratch string

// Tier is the tier being run.
var Tier string

// Race reports whether this is the race-monitor build.
var Race bool

// Main runs the harness.
func Main(d Def) {
	var (
		workerF  = flag.Bool("worker", false, "")
		tier     = flag.String("tier", "quick", "")
		out      = flag.String("out", "", "")
		knownF   = flag.String("known", "", "")
		jobs     = flag.Int("j", runtime.NumCPU(), "")
		deadline = flag.Duration("deadline", 10*time.Minute, "")
		scratch  = flag.String("scratch", "", "")
		replayF  = flag.String("replay", "", "")
		only     = flag.String("only", "", "")
		list     = flag.Bool("list", false, "")
	)
	flag.Parse()
	Tier = *tier
	if d.HangS == 0 {
		d.HangS = 90
	}
	scs := d.Scenarios(*tier)
	seen := map[string]bool{}
	for _, s := range scs {
		if seen[s.Name] {
			fmt.Fprintf(os.Stderr, "duplicate scenario %q\n", s.Name)
			os.Exit(70)
		}
		seen[s.Name] = true
	}
	if *list {
		for _, s := range scs {
			fmt.Println(s.Name)
		}
		return
	}
	if *only != "" {
		var keep []Scenario
		for _, s := range scs {
			if strings.Contains(s.Name, *only) {
				keep = append(keep, s)
			}
		}
		scs = keep
	}
	known := map[string]bool{}
	if *knownF != "" {
		b, _ := os.ReadFile(*knownF)
		for _, l := range strings.Split(string(b), "\n") {
			if l != "" {
				known[l] = true
			}
		}
	}
	if *scratch == "" {
		dir, err := os.MkdirTemp("", "mcw")
		if err != nil {
			panic(err)
		}
		*scratch = dir
		if !*workerF {
			defer os.RemoveAll(dir)
		}
	}
	Scratch = *scratch
	switch {
	case *workerF:
		runWorker(d, scs, known)
	case *replayF != "":
		os.Exit(runReplay(d, scs, *replayF))
	default:
		m := &master{d: d, scs: scs, tier: *tier, known: *knownF, knownSet: known, n: *jobs, deadline: time.Now().Add(*deadline), scratch: *scratch, only: *only}
		rep := m.run()
		b, _ := json.MarshalIndent(rep, "", " ")
		if *out != "" {
			os.WriteFile(*out, b, 0644)
		} else {
			os.Stdout.Write(b)
			fmt.Println()
		}
	}
}

func newWorker(known map[string]bool) *worker {
	return &worker{visited: map[uint64]uint32{}, states: map[uint64]struct{}{}, outs: map[string]int64{}, known: known, khits: map[string]string{}}
}

func runReplay(d Def, scs []Scenario, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		panic(err)
	}
	if d.Setup != nil {
		d.Setup(Scratch)
	}
	for i := range scs {
		if scs[i].Name != v.Scenario {
			continue
		}
		w := newWorker(nil)
		w.sc = &scs[i]
		w.log = true
		w.start(&Job{Prefix: v.Choices})
		done := make(chan bool)
		go func() { w.exec(); close(done) }()
		select {
		case <-done:
		case <-time.After(time.Duration(d.HangS) * time.Second):
			w.viol = &Violation{Scenario: v.Scenario, Key: "does not terminate", Msg: "execution did not finish"}
		}
		res := map[string]interface{}{"trace": w.sample, "viol": w.viol}
		o, _ := json.MarshalIndent(res, "", " ")
		fmt.Println(string(o))
		if w.viol != nil {
			return 1
		}
		return 0
	}
	fmt.Fprintln(os.Stderr, "no such scenario", v.Scenario)
	return 70
}

func runWorker(d Def, scs []Scenario, known map[string]bool) {
	outw := os.NewFile(3, "out")
	statusf := os.NewFile(4, "status")
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	enc := json.NewEncoder(outw)
	w := newWorker(known)
	if m, err := syscall.Mmap(int(statusf.Fd()), 0, statusSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
		w.status = m
	}
	if d.Setup != nil {
		d.Setup(Scratch)
	}
	debug.SetGCPercent(100)
	debug.SetMemoryLimit(3 << 30)
	var steal atomic.Bool
	jobs := make(chan Job, 4)
	go func() {
		for {
			line, err := in.ReadBytes('\n')
			if err != nil {
				os.Exit(0)
			}
			if string(line) == "steal\n" {
				steal.Store(true)
				continue
			}
			var j Job
			if err := json.Unmarshal(line, &j); err != nil {
				os.Exit(71)
			}
			jobs <- j
		}
	}()
	cur := -1
	for j := range jobs {
		if j.Sc != cur {
			cur = j.Sc
			w.visited = map[uint64]uint32{}
			w.states = map[uint64]struct{}{}
		}
		w.sc = &scs[j.Sc]
		w.newst = nil
		w.execs, w.steps, w.pruned, w.diverg = 0, 0, 0, 0
		w.outs = map[string]int64{}
		w.khits = map[string]string{}
		w.viol = nil
		w.sample = nil
		w.start(&j)
		first := len(j.Prefix) == 0 && j.Lo == 0
		for {
			if first {
				w.log = true
			}
			w.exec()
			if w.log {
				w.log = false
				first = false
			}
			if w.viol != nil || !w.next() {
				break
			}
			if steal.Load() {
				steal.Store(false)
				if dj := w.donate(); dj != nil {
					dj.Sc = j.Sc
					enc.Encode(reply{Donate: dj})
				} else {
					enc.Encode(reply{NoWork: true})
				}
			}
		}
		buf := make([]byte, 8*len(w.newst))
		for i, h := range w.newst {
			binary.LittleEndian.PutUint64(buf[8*i:], h)
		}
		enc.Encode(reply{Done: true, Execs: w.execs, Steps: w.steps, Pruned: w.pruned, Div: w.diverg,
			States: base64.StdEncoding.EncodeToString(buf), Outs: w.outs, Viol: w.viol, Known: w.khits, Sample: w.sample})
	}
}

const statusSize = 1 << 16

type wproc struct {
	id      int
	cmd     *exec.Cmd
	in      io.WriteCloser
	status  *os.File
	busy    bool
	job     Job
	asked   bool
	stderr  string
	lastT   time.Time
	stealT  time.Time // when it may be asked for work
	lastPos uint64
	gen     int
	dir     string
}

type event struct {
	w   *wproc
	gen int
	r   *reply
	err error
}

type master struct {
	d        Def
	scs      []Scenario
	tier     string
	known    string
	knownSet map[string]bool
	n        int
	deadline time.Time
	scratch  string
	only     string
	events   chan event
	rep      *Report
}

func (m *master) spawn(p *wproc) error {
	p.gen++
	p.dir = filepath.Join(m.scratch, fmt.Sprintf("w%d.%d", p.id, p.gen))
	if err := os.MkdirAll(p.dir, 0777); err != nil {
		return err
	}
	cmd := exec.Command(os.Args[0], "-worker", "-tier", m.tier, "-known", m.known, "-scratch", p.dir, "-only", m.only)
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, wr, err := os.Pipe()
	if err != nil {
		return err
	}
	p.stderr = filepath.Join(m.scratch, fmt.Sprintf("stderr.%d.%d", p.id, p.gen))
	ef, err := os.Create(p.stderr)
	if err != nil {
		return err
	}
	sf, err := os.Create(filepath.Join(m.scratch, fmt.Sprintf("status.%d.%d", p.id, p.gen)))
	if err != nil {
		return err
	}
	sf.Truncate(statusSize)
	cmd.Stderr = ef
	cmd.Stdout = ef
	cmd.ExtraFiles = []*os.File{wr, sf}
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0 history_size=2")
	if err := cmd.Start(); err != nil {
		return err
	}
	wr.Close()
	ef.Close()
	p.cmd, p.in, p.status = cmd, in, sf
	gen := p.gen
	go func() {
		br := bufio.NewReaderSize(r, 1<<20)
		dec := json.NewDecoder(br)
		for {
			var rp reply
			if err := dec.Decode(&rp); err != nil {
				werr := cmd.Wait()
				if werr == nil {
					werr = err
				}
				m.events <- event{w: p, gen: gen, err: werr}
				return
			}
			m.events <- event{w: p, gen: gen, r: &rp}
		}
	}()
	return nil
}

func (p *wproc) choices() []int {
	b := make([]byte, statusSize)
	p.status.ReadAt(b, 0)
	n := int(binary.LittleEndian.Uint32(b))
	var out []int
	for i := 0; i < n && 8+i*2+2 <= len(b); i++ {
		out = append(out, int(binary.LittleEndian.Uint16(b[8+i*2:])))
	}
	return out
}

func (p *wproc) posHash() uint64 {
	b := make([]byte, 4096)
	p.status.ReadAt(b, 0)
	return Hash(b)
}

func (m *master) run() *Report {
	t0 := time.Now()
	rep := &Report{Outcomes: map[string]int64{}, PerScenario: map[string]int64{}, Known: map[string]string{}, Exhaustive: true, Scenarios: len(m.scs)}
	m.rep = rep
	m.events = make(chan event, 64)
	var queue []Job
	for i := range m.scs {
		queue = append(queue, Job{Sc: i})
	}
	open := make([]int, len(m.scs)) // outstanding jobs per scenario
	for i := range open {
		open[i] = 1
	}
	dead := make([]bool, len(m.scs))
	var ws []*wproc
	for i := 0; i < m.n; i++ {
		p := &wproc{id: i}
		if err := m.spawn(p); err != nil {
			rep.Error = err.Error()
			return rep
		}
		ws = append(ws, p)
	}
	states := map[uint64]struct{}{}
	stateExtra := int64(0)
	finish := func(sc int) {
		open[sc]--
		if open[sc] == 0 && !dead[sc] {
			rep.Completed++
		}
	}
	crashes := 0
	tick := time.NewTicker(20 * time.Millisecond)
	defer tick.Stop()
	for {
		busy := 0
		for _, p := range ws {
			if p.busy {
				busy++
				continue
			}
			for len(queue) > 0 {
				j := queue[0]
				queue = queue[1:]
				if dead[j.Sc] {
					finish(j.Sc)
					continue
				}
				b, _ := json.Marshal(j)
				p.in.Write(append(b, '\n'))
				p.busy, p.job, p.asked = true, j, false
				p.lastT, p.lastPos = time.Now(), 0
				p.stealT = time.Now().Add(5 * time.Millisecond)
				busy++
				break
			}
		}
		if busy == 0 && len(queue) == 0 {
			break
		}
		if busy < len(ws) && len(queue) == 0 {
			for _, p := range ws {
				if p.busy && !p.asked && time.Now().After(p.stealT) {
					p.asked = true
					p.in.Write([]byte("steal\n"))
				}
			}
		}
		select {
		case ev := <-m.events:
			p := ev.w
			if ev.gen != p.gen {
				continue
			}
			if ev.err != nil {
				// The worker died.
				crashes++
				if p.busy {
					dead[p.job.Sc] = true
					m.death(p, ev.err)
					finish(p.job.Sc)
					p.busy = false
				}
				if crashes > 40 {
					b, _ := os.ReadFile(p.stderr)
					rep.Error = "too many worker crashes: " + ev.err.Error() + "\n" + string(b)
					m.kill(ws)
					goto out
				}
				if err := m.spawn(p); err != nil {
					rep.Error = err.Error()
					goto out
				}
				continue
			}
			r := ev.r
			p.lastT = time.Now()
			if r.Donate != nil {
				open[r.Donate.Sc]++
				queue = append(queue, *r.Donate)
				p.asked = false
			}
			if r.NoWork {
				p.asked = false
				p.stealT = time.Now().Add(5 * time.Millisecond)
			}
			if r.Done {
				rep.Execs += r.Execs
				rep.Steps += r.Steps
				rep.Pruned += r.Pruned
				rep.Divergences += r.Div
				rep.PerScenario[m.scs[p.job.Sc].Name] += r.Execs
				b, _ := base64.StdEncoding.DecodeString(r.States)
				for i := 0; i+8 <= len(b); i += 8 {
					if len(states) < 2*maxStates {
						states[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
					}
				}
				for k, v := range r.Outs {
					rep.Outcomes[k] += v
				}
				for k, v := range r.Known {
					rep.Known[k] = v
				}
				if len(r.Sample) > 0 && len(rep.Samples) < 3 {
					s := r.Sample
					if len(s) > 40 {
						s = s[:40]
					}
					rep.Samples = append(rep.Samples, map[string]interface{}{"scenario": m.scs[p.job.Sc].Name, "trace": s})
				}
				if r.Viol != nil && !dead[p.job.Sc] {
					dead[p.job.Sc] = true
					rep.Violations = append(rep.Violations, r.Viol)
				}
				finish(p.job.Sc)
				p.busy = false
				// A violation is enough to decide; do not burn the rest of the budget.
				if len(rep.Violations) >= 3 {
					rep.Exhaustive = false
					m.kill(ws)
					goto out
				}
			}
		case <-tick.C:
			if time.Now().After(m.deadline) {
				rep.Exhaustive = false
				rep.Notes = append(rep.Notes, "internal deadline reached")
				m.kill(ws)
				goto out
			}
			for _, p := range ws {
				if !p.busy {
					continue
				}
				if h := p.posHash(); h != p.lastPos {
					p.lastPos, p.lastT = h, time.Now()
				} else if time.Since(p.lastT) > time.Duration(m.d.HangS)*time.Second {
					rep.Violations = append(rep.Violations, &Violation{Scenario: m.scs[p.job.Sc].Name, Choices: p.choices(), Key: "does not terminate",
						Msg: "execution did not finish"})
					dead[p.job.Sc] = true
					p.cmd.Process.Signal(syscall.SIGQUIT)
					time.Sleep(200 * time.Millisecond)
					p.cmd.Process.Kill()
				}
			}
		}
	}
	m.kill(ws)
out:
	rep.States = int64(len(states)) + stateExtra
	for i := range open {
		if open[i] > 0 || dead[i] {
			rep.Exhaustive = false
		}
	}
	if rep.Divergences > 0 {
		rep.Exhaustive = false
	}
	m.confirm()
	rep.WallS = time.Since(t0).Seconds()
	if len(rep.Outcomes) > 60 {
		keys := make([]string, 0, len(rep.Outcomes))
		for k := range rep.Outcomes {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		o := map[string]int64{}
		for _, k := range keys[:60] {
			o[k] = rep.Outcomes[k]
		}
		rep.Notes = append(rep.Notes, fmt.Sprintf("%d distinct outcomes, 60 listed", len(keys)))
		rep.Outcomes = o
	}
	return rep
}

func (m *master) kill(ws []*wproc) {
	for _, p := range ws {
		p.gen++
		p.cmd.Process.Kill()
	}
}

// death classifies a worker that died while running an execution.
func (m *master) death(p *wproc, err error) {
	b, _ := os.ReadFile(p.stderr)
	txt := string(b)
	if len(txt) > 12000 {
		txt = txt[:12000]
	}
	name := m.scs[p.job.Sc].Name
	for _, v := range m.rep.Violations {
		if v.Scenario == name {
			return // already reported as hanging
		}
	}
	key, ok := classify(txt)
	if !ok {
		m.rep.Error = fmt.Sprintf("worker died in %s: %v\n%s", name, err, txt)
		return
	}
	if m.knownSet[key] {
		m.rep.Known[key] = key
		return
	}
	m.rep.Violations = append(m.rep.Violations, &Violation{Scenario: name, Choices: p.choices(), Key: key, Msg: txt})
}

// classify decides whether a crash text is a finding about the code under test.
func classify(txt string) (string, bool) {
	if i := strings.Index(txt, "WARNING: DATA RACE"); i >= 0 {
		// Both accesses must be in the code under test (or in a library it
		// calls directly), not in the harness.
		secs := strings.Split(txt[i:], "\n\n")
		for _, s := range secs[:min(2, len(secs))] {
			if strings.Contains(s, "NVIDIA/vdisc/pkg/") {
				fr := RepoFrames(strings.ReplaceAll(s, "      ", "\t"))
				var where []string
				for _, l := range strings.Split(s, "\n") {
					if strings.Contains(l, "NVIDIA/vdisc/pkg/") && strings.HasSuffix(l, "()") {
						where = append(where, strings.TrimSpace(l))
					}
				}
				_ = fr
				if len(where) > 0 {
					return "data race in " + where[0], true
				}
				return "data race", true
			}
		}
		return "", false
	}
	if strings.Contains(txt, "harness panic") {
		return "", false
	}
	if strings.Contains(txt, "panic:") || strings.Contains(txt, "fatal error:") {
		i := strings.Index(txt, "panic:")
		if i < 0 {
			i = strings.Index(txt, "fatal error:")
		}
		// Only look at the crashing goroutine.
		st := txt[i:]
		if k := strings.Index(st, "\n\ngoroutine "); k >= 0 {
			if k2 := strings.Index(st[k+2:], "\n\ngoroutine "); k2 >= 0 {
				st = st[:k+2+k2]
			}
		}
		if len(RepoFrames(st)) > 0 {
			return PanicKey(st), true
		}
	}
	return "", false
}

// confirm re-runs each violation in fresh processes.
func (m *master) confirm() {
	var ok, bad []*Violation
	for i, v := range m.rep.Violations {
		if v.Key == "does not terminate" && m.d.HangS > 30 && i > 0 {
			ok = append(ok, v)
			continue
		}
		f := filepath.Join(m.scratch, fmt.Sprintf("viol%d.json", i))
		b, _ := json.Marshal(v)
		os.WriteFile(f, b, 0644)
		tries := 5
		if v.Key == "does not terminate" {
			tries = 1
		}
		hits := 0
		for t := 0; t < tries; t++ {
			dir := filepath.Join(m.scratch, fmt.Sprintf("r%d.%d", i, t))
			os.MkdirAll(dir, 0777)
			cmd := exec.Command(os.Args[0], "-replay", f, "-tier", m.tier, "-scratch", dir)
			cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0 history_size=2")
			out, err := cmd.CombinedOutput()
			if err == nil {
				continue
			}
			if ee, isx := err.(*exec.ExitError); isx && ee.ExitCode() == 1 {
				hits++
				if len(v.Trace) == 0 {
					var r struct {
						Trace []string
						Viol  *Violation
					}
					if json.Unmarshal(out, &r) == nil {
						v.Trace = r.Trace
					}
				}
			} else if _, isf := classify(string(out)); isf {
				hits++
			}
		}
		v.Msg += fmt.Sprintf("\n(reproduced %d of %d re-runs)", hits, tries)
		if hits > 0 {
			ok = append(ok, v)
		} else {
			bad = append(bad, v)
		}
	}
	m.rep.Violations, m.rep.Unconfirmed = ok, bad
}
