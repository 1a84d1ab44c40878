package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/simrt"
)

func mix64(a, b uint64) uint64 {
	x := a ^ (b+0x9e3779b97f4a7c15)*0xbf58476d1ce4e5b9
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	return x ^ x>>31
}

func caseSeed(seed uint64, prop string, i uint64) uint64 {
	h := fnv.New64a()
	h.Write([]byte(prop))
	return mix64(mix64(seed, h.Sum64()), i)
}

func makeCase(sp *Spec, seed uint64) *Case {
	c := &Case{Prop: sp.ID, Seed: seed}
	g := newGen(seed)
	sp.Gen(g, c)
	if g.p(1, 8) {
		g.addOther(c)
	}
	return c
}

// digest of everything observable in a run.
func digest(r *Run) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, r.Out.Hash, r.Out.Steps)
	for _, x := range r.All {
		fmt.Fprint(h, x.Inv, x.Ret, x.Bool, x.Err, x.Out, firstLine(x.Panic), x.Win)
	}
	return h.Sum64()
}

// summary is what a worker reports.
type summary struct {
	Runs, NonTrivial, Steps, Ops, SimNS int64
	DetChecks, DetBad                   int64
	Fired                               simrt.Counters
	Strategies                          [4]int64
	PoolModes, MapModes                 [3]int64
	Stats                               map[string]int64
	Hashes                              []uint64 // distinct schedules
	Cases                               []uint64 // distinct non-trivial cases
	MaxTasks                            int
	Samples                             []json.RawMessage
	Viol                                *Case
	ViolMsg                             string
	Wall                                float64
}

func addCounters(a *simrt.Counters, b *simrt.Counters) {
	a.Switches += b.Switches
	a.Preempts += b.Preempts
	a.Blocks += b.Blocks
	a.Ticks += b.Ticks
	a.BackTicks += b.BackTicks
	a.Jumps += b.Jumps
	a.PoolReuse += b.PoolReuse
	a.PoolNew += b.PoolNew
	a.PoolDrop += b.PoolDrop
	a.MapShuffles += b.MapShuffles
	a.Stalls += b.Stalls
	a.LockWaits += b.LockWaits
	a.RangeExtra += b.RangeExtra
	a.NondetRange += b.NondetRange
	a.Yields += b.Yields
	a.Spawned += b.Spawned
}

const maxHashes = 400000

func worker(args []string) int {
	// id seed from stride secs progress output
	sp := specs[args[0]]
	seed, _ := strconv.ParseUint(args[1], 10, 64)
	from, _ := strconv.ParseUint(args[2], 10, 64)
	stride, _ := strconv.ParseUint(args[3], 10, 64)
	secs, _ := strconv.ParseFloat(args[4], 64)
	debug.SetMaxStack(96 << 20)
	prog, err := os.OpenFile(args[5], os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	s := &summary{Stats: map[string]int64{}}
	hs, cs := map[uint64]bool{}, map[uint64]bool{}
	start := time.Now()
	var buf [24]byte
	lastRun := start
	var mu sync.Mutex
	go func() { // a run that does not advance at all
		for {
			time.Sleep(time.Second)
			mu.Lock()
			d := time.Since(lastRun)
			mu.Unlock()
			if d > 120*time.Second {
				fmt.Fprintln(os.Stderr, "run does not end")
				os.Exit(3)
			}
		}
	}()
	for i := from; ; i += stride {
		now := time.Now()
		if now.Sub(start).Seconds() > secs {
			break
		}
		mu.Lock()
		lastRun = now
		mu.Unlock()
		prog.WriteAt(strconv.AppendUint(buf[:0], i, 10), 0)
		c := makeCase(sp, caseSeed(seed, sp.ID, i))
		r := execute(sp, c)
		s.Runs++
		s.Steps += r.Out.Steps
		s.Ops += int64(c.nops())
		s.SimNS += r.Out.ClockMove
		addCounters(&s.Fired, &r.Out.Fired)
		s.Strategies[c.Cfg.Strategy]++
		s.PoolModes[c.Cfg.PoolMode]++
		s.MapModes[c.Cfg.MapMode]++
		for k, v := range r.Stats {
			s.Stats[k] += v
		}
		for _, p := range c.Phases {
			if len(p.Tasks) > s.MaxTasks {
				s.MaxTasks = len(p.Tasks)
			}
		}
		if len(hs) < maxHashes && r.Out.Fired.Switches > 0 {
			hs[r.Out.Hash] = true
		}
		if r.Viol != nil {
			c.Expect = r.Viol.Class
			c.Race = simrt.RaceEnabled
			s.Viol, s.ViolMsg = c, r.Viol.Msg
			break
		}
		if sp.NT == nil || sp.NT(r) {
			s.NonTrivial++
			if len(cs) < maxHashes {
				cs[mix64(c.opHash(), r.Out.Hash)] = true
			}
			if len(s.Samples) < 1 && from == 0 {
				c.Trace = traceOf(r, 60)
				b, _ := json.Marshal(c)
				c.Trace = nil
				s.Samples = append(s.Samples, b)
			}
		}
		if s.Runs%97 == 1 {
			d1 := digest(r)
			d2 := digest(execute(sp, makeCase(sp, caseSeed(seed, sp.ID, i))))
			s.DetChecks++
			if d1 != d2 {
				s.DetBad++
			}
		}
	}
	s.Wall = time.Since(start).Seconds()
	for h := range hs {
		s.Hashes = append(s.Hashes, h)
	}
	for h := range cs {
		s.Cases = append(s.Cases, h)
	}
	b, _ := json.Marshal(s)
	if err := os.WriteFile(args[6], b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}

// traceOf writes a run down for a reader.
func traceOf(r *Run, max int) []string {
	var t []string
	recs := append([]*Rec(nil), r.All...)
	sort.SliceStable(recs, func(i, j int) bool { return recs[i].Inv < recs[j].Inv })
	for _, x := range recs {
		if x.Inv == 0 {
			continue
		}
		t = append(t, x.String())
		if len(t) >= max {
			t = append(t, "...")
			break
		}
	}
	return t
}

type proc struct {
	cmd  *exec.Cmd
	err  bytes.Buffer
	prog string
	race bool
	res  *summary
	fail error
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

const raceEnv = "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=2"

func check(args []string) int {
	id := args[0]
	sp := specs[id]
	if sp == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	begin := time.Now()
	tier := env("VERIF_TIER", "quick")
	seed, err := strconv.ParseUint(env("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		seed = 1
	}
	secs := 40.0
	if tier == "thorough" {
		secs = 600
	}
	if v := os.Getenv("VERIF_SECS"); v != "" {
		secs, _ = strconv.ParseFloat(v, 64)
	}
	exe, _ := os.Executable()
	dir := filepath.Dir(exe)
	root := filepath.Dir(dir)
	raceBin := filepath.Join(dir, "sim-race")
	tmp, err := os.MkdirTemp(dir, "run-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 2 {
		n = 2
	}
	nrace := 0
	if sp.Race {
		nrace = n / 2
	}
	var ps []*proc
	for i := 0; i < n; i++ {
		p := &proc{race: i >= n-nrace, prog: filepath.Join(tmp, fmt.Sprint("p", i))}
		bin := exe
		off, stride := i, n-nrace
		if p.race {
			bin = raceBin
			off, stride = 1_000_000_000+i, nrace
		}
		p.cmd = exec.Command(bin, "worker", id, fmt.Sprint(seed), fmt.Sprint(off), fmt.Sprint(stride), fmt.Sprint(secs), p.prog, p.prog+".out")
		p.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", raceEnv, "GOTRACEBACK=single")
		p.cmd.Stderr = &p.err
		ps = append(ps, p)
	}
	var wg sync.WaitGroup
	for _, p := range ps {
		if err := p.cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	for _, p := range ps {
		wg.Add(1)
		go func(p *proc) {
			defer wg.Done()
			p.fail = p.cmd.Wait()
			if p.fail == nil {
				s := &summary{}
				b, _ := os.ReadFile(p.prog + ".out")
				if err := json.Unmarshal(b, s); err != nil {
					p.fail = err
					return
				}
				p.res = s
				if s.Viol != nil {
					for _, q := range ps { // no need to search further
						if q != p {
							q.cmd.Process.Kill()
						}
					}
				}
			}
		}(p)
	}
	wg.Wait()
	tot := &summary{Stats: map[string]int64{}}
	hs, cs := map[uint64]bool{}, map[uint64]bool{}
	var viol *proc
	var broken *proc
	var raceRuns int64
	for _, p := range ps {
		s := p.res
		if s == nil {
			if p.fail != nil && !strings.Contains(p.fail.Error(), "signal: killed") && broken == nil {
				broken = p
			}
			continue
		}
		if s.Viol != nil && viol == nil {
			viol = p
		}
		tot.Runs += s.Runs
		if p.race {
			raceRuns += s.Runs
		}
		tot.NonTrivial += s.NonTrivial
		tot.Steps += s.Steps
		tot.Ops += s.Ops
		tot.SimNS += s.SimNS
		tot.DetChecks += s.DetChecks
		tot.DetBad += s.DetBad
		addCounters(&tot.Fired, &s.Fired)
		for i := range s.Strategies {
			tot.Strategies[i] += s.Strategies[i]
		}
		for i := range s.PoolModes {
			tot.PoolModes[i] += s.PoolModes[i]
			tot.MapModes[i] += s.MapModes[i]
		}
		for k, v := range s.Stats {
			tot.Stats[k] += v
		}
		for _, h := range s.Hashes {
			hs[h] = true
		}
		for _, h := range s.Cases {
			cs[h] = true
		}
		if s.MaxTasks > tot.MaxTasks {
			tot.MaxTasks = s.MaxTasks
		}
		tot.Samples = append(tot.Samples, s.Samples...)
		if s.Wall > tot.Wall {
			tot.Wall = s.Wall
		}
	}
	code := 0
	nviol := 0
	if viol == nil && broken != nil {
		// A worker died. If the run it died in kills a fresh process too, the
		// code under test crashes the process there.
		b, _ := os.ReadFile(broken.prog)
		if i, err := strconv.ParseUint(string(b), 10, 64); err == nil && len(b) > 0 {
			c := makeCase(sp, caseSeed(seed, id, i))
			c.Expect, c.Race = "crash", broken.race
			f := filepath.Join(tmp, "crash.json")
			c.save(f)
			bin := exe
			if c.Race {
				bin = raceBin
			}
			cmd := exec.Command(bin, "replay", f)
			cmd.Env = append(os.Environ(), raceEnv)
			out, err := runLimited(cmd, 180*time.Second)
			if err != nil && !strings.Contains(out, "REPLAY") {
				viol = &proc{race: c.Race, res: &summary{Viol: c, ViolMsg: "the process crashed: " + firstLine(strings.TrimSpace(out))}}
			}
		}
		if viol == nil {
			fmt.Fprintf(os.Stderr, "a worker failed: %v\n%s\n", broken.fail, tail(broken.err.String(), 3000))
			return 2
		}
	}
	if viol != nil {
		nviol = 1
		code = 1
		path := report(root, tmp, exe, raceBin, viol)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	}
	writeEvidence(root, sp, tier, seed, tot, len(hs), len(cs), raceRuns, nviol, secs, time.Since(begin).Seconds())
	if code == 0 {
		fmt.Printf("property %s held in %d simulated runs (%d distinct non-trivial, %d schedules) in %.0f s\n", id, tot.Runs, len(cs), len(hs), time.Since(begin).Seconds())
	}
	return code
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func runLimited(cmd *exec.Cmd, d time.Duration) (string, error) {
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	if err := cmd.Start(); err != nil {
		return "", err
	}
	t := time.AfterFunc(d, func() { cmd.Process.Kill() })
	defer t.Stop()
	err := cmd.Wait()
	return b.String(), err
}

// report minimises a violation, makes sure the replay file reproduces it and
// returns its path.
func report(root, tmp, exe, raceBin string, p *proc) string {
	c := p.res.Viol
	rdir := filepath.Join(root, "replays")
	os.MkdirAll(rdir, 0o755)
	path := filepath.Join(rdir, fmt.Sprintf("%s-%016x.json", c.Prop, c.Seed))
	c.Note = p.res.ViolMsg
	bin := exe
	if p.race {
		bin = raceBin
	}
	if c.Expect == "crash" {
		c.save(path)
		fmt.Println(c.Note)
		return path
	}
	in := filepath.Join(tmp, "in.json")
	out := filepath.Join(tmp, "out.json")
	c.save(in)
	cmd := exec.Command(bin, "minimise", in, out)
	cmd.Env = append(os.Environ(), raceEnv)
	log, _ := runLimited(cmd, 150*time.Second)
	best := in
	for _, f := range []string{out, in} {
		if _, err := os.Stat(f); err != nil {
			continue
		}
		ok := false
		for try := 0; try < 3 && !ok; try++ {
			cmd := exec.Command(bin, "replay", f)
			cmd.Env = append(os.Environ(), raceEnv)
			o, _ := runLimited(cmd, 120*time.Second)
			if strings.Contains(o, "REPLAY reproduces") {
				ok = true
				log = o
			}
		}
		if ok {
			best = f
			break
		}
	}
	m, err := loadCase(best)
	if err != nil {
		m = c
	}
	if m.Expect == "race" {
		m.Trace = append(m.Trace, raceReport(log)...)
	}
	m.save(path)
	fmt.Println(m.Note)
	fmt.Printf("minimised to %d operations, %d task switches; seed %d\n", m.nops(), len(m.Cfg.Switches), m.Seed)
	for _, l := range m.Trace {
		fmt.Println("  " + l)
	}
	return path
}

func raceReport(s string) []string {
	var r []string
	on := false
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "WARNING: DATA RACE") {
			on = true
		}
		if on {
			r = append(r, l)
			if len(r) > 40 || strings.HasPrefix(l, "Goroutine") {
				break
			}
		}
	}
	return r
}

func replay(args []string) int {
	c, err := loadCase(args[0])
	if err != nil {
		fmt.Println(err)
		return 2
	}
	sp := specs[c.Prop]
	if sp == nil {
		fmt.Println("unknown property", c.Prop)
		return 2
	}
	if c.Race && !simrt.RaceEnabled {
		exe, _ := os.Executable()
		cmd := exec.Command(filepath.Join(filepath.Dir(exe), "sim-race"), "replay", args[0])
		cmd.Env = append(os.Environ(), raceEnv)
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		if err := cmd.Run(); err != nil {
			if e, ok := err.(*exec.ExitError); ok {
				return e.ExitCode()
			}
			fmt.Println(err)
			return 2
		}
		return 0
	}
	debug.SetMaxStack(96 << 20)
	r := execute(sp, c)
	for _, l := range traceOf(r, 400) {
		fmt.Println("  " + l)
	}
	if r.Viol == nil {
		fmt.Println("REPLAY: no violation")
		return 0
	}
	fmt.Printf("%s: %s\n", r.Viol.Class, r.Viol.Msg)
	if c.Expect == "" || r.Viol.Class == c.Expect {
		fmt.Println("REPLAY reproduces the violation")
	} else {
		fmt.Println("REPLAY shows another violation")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, args[0])
	return 1
}

func writeEvidence(root string, sp *Spec, tier string, seed uint64, t *summary, schedules, cases int, raceRuns int64, nviol int, secs, wall float64) {
	perHour := 0.0
	if t.Wall > 0 {
		perHour = float64(t.Runs) / t.Wall * 3600
	}
	f := t.Fired
	samples := []any{}
	for _, s := range t.Samples {
		samples = append(samples, s)
	}
	faults := map[string]int64{
		"preemptions inside a call":                     f.Preempts,
		"task switches":                                 f.Switches,
		"callers stalled while preempted":               f.Stalls,
		"waits for a lock":                              f.LockWaits,
		"blocked on a wait":                             f.Blocks,
		"clock ticks during calls":                      f.Ticks,
		"backward clock ticks during calls":             f.BackTicks,
		"clock jumps":                                   f.Jumps,
		"pool buffers recycled":                         f.PoolReuse,
		"pool buffers dropped":                          f.PoolDrop,
		"pool buffers allocated":                        f.PoolNew,
		"map iterations in another order":               f.MapShuffles,
		"map entries revisited or added during a range": f.RangeExtra,
	}
	for k, v := range t.Stats {
		if strings.HasPrefix(k, "sink_") || strings.HasPrefix(k, "fault_") {
			faults[strings.ReplaceAll(k, "_", " ")] = v
		}
	}
	cov := map[string]any{
		"evaluations":           t.Runs,
		"distinct_nontrivial":   cases,
		"rule":                  sp.Rule + "; distinct by the operations and the complete schedule",
		"samples":               samples,
		"runs_per_hour":         int64(perHour),
		"seeds":                 t.Runs,
		"search_seconds":        secs,
		"simulated_steps":       t.Steps,
		"simulated_clock_ns":    t.SimNS,
		"operations":            t.Ops,
		"judgements":            t.Stats,
		"fault_kinds_injected":  faults,
		"distinct_schedules":    schedules,
		"schedule_measure":      "hash over every task switch: step, task and source position",
		"race_detector_runs":    raceRuns,
		"strategies":            map[string]int64{"random": t.Strategies[0], "priority (PCT)": t.Strategies[1], "serial": t.Strategies[2]},
		"pool_modes":            map[string]int64{"reuse at once": t.PoolModes[0], "random": t.PoolModes[1], "never": t.PoolModes[2]},
		"map_orders":            map[string]int64{"sorted": t.MapModes[0], "random": t.MapModes[1], "reverse": t.MapModes[2]},
		"max_concurrent_tasks":  t.MaxTasks,
		"determinism_checks":    t.DetChecks,
		"determinism_mismatch":  t.DetBad,
		"unwatched_map_ranges":  f.NondetRange,
		"faults":                sp.Faults,
		"components_real":       sp.Real,
		"components_stubbed":    "sync (mutexes, pools, once), time (clock), xsync and maps libraries (same contract, deterministic), goroutine scheduler",
		"distinct_counts_limit": maxHashes,
	}
	e := map[string]any{
		"property": sp.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"interleavings are explored at the granularity of statements, lock and map operations of the instrumented copy",
			"the stand-ins for sync, time, xsync and maps follow the contracts of the originals",
			"search is by seeded sampling, not exhaustive",
		},
		"wall_s": wall, "violations": nviol,
	}
	b, _ := json.MarshalIndent(e, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	os.WriteFile(filepath.Join(root, "evidence", sp.ID+".json"), append(b, '\n'), 0o644)
}

func main() {
	loadSites()
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: sim check ID | replay FILE | minimise IN OUT | worker ... | one ID SEED")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2:]))
	case "worker":
		os.Exit(worker(os.Args[2:]))
	case "replay":
		os.Exit(replay(os.Args[2:]))
	case "needsrace":
		if sp := specs[os.Args[2]]; sp != nil && sp.Race {
			os.Exit(0)
		}
		os.Exit(1)
	case "minimise":
		os.Exit(minimise(os.Args[2], os.Args[3]))
	}
	os.Exit(2)
}
