package h

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"simws/core"
)

// Outcome is what one simulated run showed.
type Outcome struct {
	Viols      []Violation
	Hash       uint64
	Shape      uint64
	Vals       []int
	Setup      int
	Log        []string
	Steps      int
	Calls      int
	Sim        time.Duration
	Faults     map[string]int
	Ops        map[string]int
	Nontrivial bool
	Contended  int
	Tasks      int
	Variant    string
	Stmts      int
	Multi      int
	Locks      int
	Pools      int
	States     []string
}

type runOpts struct {
	keep   bool
	serial bool
	fresh  bool
}

func (w *World) scenario() {
	if w.P.Scenario != nil && w.D.P(w.P.Extra, 100, "scenario") {
		w.P.Scenario(w)
		return
	}
	mixed(w)
}

// Run executes one simulated world.
func Run(t *testing.T, p *Profile, d *core.Decider, o runOpts) (out Outcome) {
	runtime.SimReseed(0x9e3779b97f4a7c15)
	synctest.Test(t, func(t *testing.T) {
		w := newWorld(p, d, o.keep)
		world = w
		sync.SimPoolHook = poolHook
		sync.SimLockHook = w.Sim.Lock
		defer func() { sync.SimPoolHook, sync.SimLockHook = nil, nil; world = nil }()
		start := time.Now()
		w.fresh = o.fresh
		w.scenario()
		if o.serial {
			w.Sim.Serial = true
		}
		ok := w.Sim.Run()
		w.end(ok)
		out = Outcome{Viols: w.Viols, Hash: w.Sim.Hash(), Shape: w.Sim.Shape(), Vals: d.Values(), Setup: w.setup, Log: w.Sim.Log,
			Steps: w.Sim.Steps, Calls: w.Calls, Sim: time.Since(start), Faults: w.Faults, Ops: w.OpsRun, Nontrivial: w.Nontrivial,
			Contended: w.Sim.Contended, Tasks: w.ntasks, Variant: w.V.Name, Stmts: len(w.events), Multi: w.multi, Locks: w.locksRan}
		for s := range w.states {
			h := sha256.Sum256([]byte(s))
			out.States = append(out.States, hex.EncodeToString(h[:6]))
		}
	})
	return out
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// control says whether the violation also shows without interleaving and
// without pooled objects passing between calls.
func isolated(t *testing.T, p *Profile, o Outcome, sig string) bool {
	show := func(ro runOpts, vals []int) bool {
		c := Run(t, p, core.NewReplay(vals), ro)
		for _, v := range c.Viols {
			if v.Sig == sig {
				return true
			}
		}
		return false
	}
	return show(runOpts{fresh: true}, o.Vals) && show(runOpts{fresh: true, serial: true}, o.Vals[:min(o.Setup, len(o.Vals))])
}

// relevant picks the violations of the checked property.
func relevant(t *testing.T, p *Profile, o Outcome) []Violation {
	var l []Violation
	for _, v := range o.Viols {
		if has(v.Props, p.Prop) {
			l = append(l, v)
		} else if p.Prop == "C04" && o.Tasks >= 1 && o.Calls > 1 && !isolated(t, p, o, v.Sig) {
			v.Props = append(v.Props, "C04")
			v.Msg = "only when calls interleave or share pooled objects: " + v.Msg
			l = append(l, v)
		}
	}
	return l
}

// Report is what one worker hands to the orchestrator.
type Report struct {
	Prop       string
	Runs       int
	Nontrivial int
	Steps      int
	Calls      int
	Stmts      int
	Contended  int
	Multi      int
	Locks      int
	Concurrent int
	SimSecs    float64
	Faults     map[string]int
	Ops        map[string]int
	Variants   map[string]int
	Shapes     []uint64
	States     []string
	Mismatch   int
	Checked    int
	Found      []Found
	Known      map[string]int
	KnownMsg   map[string]string
	FirstSeed  uint64
	LastSeed   uint64
	Wall       float64
	Samples    []string
}

// Found is one reported violation with its replay.
type Found struct {
	Prop    string
	Seed    uint64
	Sig     string
	Msg     string
	Vals    []int
	Full    int
	Log     []string
	Hash    string
	Profile string
}

// Replay is the file a violation is reproduced from.
type Replay struct {
	Prop  string   `json:"property"`
	Seed  uint64   `json:"seed"`
	Sig   string   `json:"signature"`
	Msg   string   `json:"message"`
	Vals  []int    `json:"decisions"`
	Hash  string   `json:"event_log_hash"`
	Log   []string `json:"event_log"`
	Setup string   `json:"workspace_seed"`
}

func knownSig(known []string, sig string) string {
	for _, k := range known {
		if k == sig || strings.HasSuffix(k, "*") && strings.HasPrefix(sig, k[:len(k)-1]) || strings.HasPrefix(k, "*/") && strings.HasSuffix(sig, k[1:]) {
			return k
		}
	}
	return ""
}

// Main is the worker: it is driven by environment variables.
func Main(t *testing.T) {
	cfg := struct {
		Prop   string
		Seed   uint64
		Worker uint64
		Stride uint64
		Secs   float64
		Max    int
		Known  []string
		Out    string
		Replay string
		Hashes string
		Only   []string
		Beat   string
		Survey bool
		Exact  uint64
		Sample int
	}{}
	if err := json.Unmarshal([]byte(os.Getenv("SIM_CFG")), &cfg); err != nil {
		t.Fatal(err)
	}
	p := Profiles[cfg.Prop]
	if p == nil {
		t.Fatal("unknown property " + cfg.Prop)
	}
	if len(cfg.Only) > 0 {
		p.Variants = cfg.Only
	}
	if cfg.Replay != "" {
		replay(t, p, cfg.Replay)
		return
	}
	if cfg.Sample > 0 {
		var logs [][]string
		for i := uint64(0); i < 400 && len(logs) < cfg.Sample; i++ {
			seed := cfg.Seed*1_000_003 + i
			if o := Run(t, p, core.NewSeeded(seed), runOpts{keep: true}); o.Nontrivial && len(o.Log) < 120 {
				logs = append(logs, append([]string{fmt.Sprintf("seed %d variant %s", seed, o.Variant)}, o.Log...))
			}
		}
		b, _ := json.Marshal(logs)
		os.WriteFile(cfg.Out, b, 0o644)
		return
	}
	rep := Report{Prop: cfg.Prop, Faults: map[string]int{}, Ops: map[string]int{}, Variants: map[string]int{}, Known: map[string]int{}, KnownMsg: map[string]string{}}
	shapes := map[uint64]bool{}
	states := map[string]bool{}
	start := time.Now()
	var hashes *os.File
	if cfg.Hashes != "" {
		hashes, _ = os.Create(cfg.Hashes)
		defer hashes.Close()
	}
	foundSig := map[string]bool{}
	flush := func() {
		rep.Wall = time.Since(start).Seconds()
		rep.Shapes, rep.States = nil, nil
		for s := range shapes {
			rep.Shapes = append(rep.Shapes, s)
		}
		for s := range states {
			rep.States = append(rep.States, s)
		}
		sort.Slice(rep.Shapes, func(i, j int) bool { return rep.Shapes[i] < rep.Shapes[j] })
		sort.Strings(rep.States)
		b, _ := json.Marshal(rep)
		os.WriteFile(cfg.Out, b, 0o644)
	}
	defer flush()
	for i := uint64(0); ; i++ {
		if cfg.Max > 0 && rep.Runs >= cfg.Max || time.Since(start).Seconds() > cfg.Secs {
			break
		}
		seed := cfg.Seed*1_000_003 + cfg.Worker + i*cfg.Stride
		if cfg.Exact != 0 {
			seed = cfg.Exact
		}
		if i == 0 {
			rep.FirstSeed = seed
		}
		rep.LastSeed = seed
		if cfg.Beat != "" {
			os.WriteFile(cfg.Beat, []byte(fmt.Sprint(seed)), 0o644)
		}
		o := Run(t, p, core.NewSeeded(seed), runOpts{})
		rep.Runs++
		if hashes != nil {
			fmt.Fprintf(hashes, "%d %x\n", seed, o.Hash)
		}
		rep.Steps += o.Steps
		rep.Calls += o.Calls
		rep.Stmts += o.Stmts
		rep.Contended += o.Contended
		rep.Multi += o.Multi
		rep.Locks += o.Locks
		rep.SimSecs += o.Sim.Seconds()
		if o.Tasks > 1 {
			rep.Concurrent++
		}
		if o.Nontrivial {
			rep.Nontrivial++
		}
		for k, v := range o.Faults {
			rep.Faults[k] += v
		}
		for k, v := range o.Ops {
			rep.Ops[k] += v
		}
		rep.Variants[o.Variant]++
		if o.Nontrivial && len(shapes) < 400000 {
			shapes[o.Shape] = true
		}
		if len(states) < 400000 {
			for _, s := range o.States {
				states[s] = true
			}
		}
		if i%64 == 0 {
			rep.Checked++
			if again := Run(t, p, core.NewSeeded(seed), runOpts{}); again.Hash != o.Hash {
				rep.Mismatch++
				if len(rep.Samples) < 3 {
					a, b := Run(t, p, core.NewSeeded(seed), runOpts{keep: true}), Run(t, p, core.NewSeeded(seed), runOpts{keep: true})
					rep.Samples = append(rep.Samples, fmt.Sprintf("seed %d: %s", seed, firstDiff(a.Log, b.Log)))
				}
			}
		}
		if i%512 == 511 {
			runtime.GC()
		}
		if cfg.Survey {
			for _, v := range relevant(t, p, o) {
				rep.Known[v.Sig]++
				if rep.KnownMsg[v.Sig] == "" {
					rep.KnownMsg[v.Sig] = fmt.Sprintf("seed %d %v: %s", seed, v.Props, v.Msg)
				}
			}
			continue
		}
		for _, v := range relevant(t, p, o) {
			if k := knownSig(cfg.Known, v.Sig); k != "" {
				rep.Known[k]++
				if rep.KnownMsg[k] == "" {
					rep.KnownMsg[k] = v.Msg
				}
				continue
			}
			if foundSig[v.Sig] || len(rep.Found) >= 4 {
				continue
			}
			foundSig[v.Sig] = true
			rep.Found = append(rep.Found, minimise(t, p, seed, o, v))
			flush()
		}
		if len(rep.Found) >= 4 {
			break
		}
	}
}

func firstDiff(a, b []string) string {
	for i := range a {
		if i >= len(b) {
			return "second log ends at " + a[i]
		}
		if a[i] != b[i] {
			return fmt.Sprintf("line %d after %q: %q vs %q", i, a[max(i-3, 0):i], a[i], b[i])
		}
	}
	return fmt.Sprintf("same prefix, %d vs %d lines", len(a), len(b))
}

func minimise(t *testing.T, p *Profile, seed uint64, o Outcome, v Violation) Found {
	deadline := time.Now().Add(15 * time.Second)
	shows := func(vals []int, keep bool) (Outcome, *Violation) {
		r := Run(t, p, core.NewReplay(vals), runOpts{keep: keep})
		for _, x := range relevant(t, p, r) {
			if x.Sig == v.Sig {
				return r, &x
			}
		}
		return r, nil
	}
	vals := o.Vals
	if _, x := shows(vals, false); x == nil {
		return Found{Prop: p.Prop, Seed: seed, Sig: v.Sig, Msg: v.Msg, Vals: vals, Full: len(vals)}
	}
	vals = core.Minimise(vals, 600, func(c []int) bool {
		if time.Now().After(deadline) {
			return false
		}
		_, x := shows(c, false)
		return x != nil
	})
	r, x := shows(vals, true)
	if x == nil {
		x = &v
	}
	return Found{Prop: p.Prop, Seed: seed, Sig: v.Sig, Msg: x.Msg, Vals: vals, Full: len(o.Vals), Log: r.Log, Hash: fmt.Sprintf("%x", r.Hash)}
}

func replay(t *testing.T, p *Profile, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		t.Fatal(err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		t.Fatal(err)
	}
	o := Run(t, p, core.NewReplay(r.Vals), runOpts{keep: true})
	for _, l := range o.Log {
		fmt.Println(l)
	}
	for _, v := range relevant(t, p, o) {
		if v.Sig == r.Sig {
			same := fmt.Sprintf("%x", o.Hash) == r.Hash
			fmt.Printf("REPRODUCED %s %s (event log identical: %v)\n%s\n", p.Prop, v.Sig, same, v.Msg)
			return
		}
	}
	fmt.Println("NOT REPRODUCED")
}
