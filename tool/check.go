package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"time"
)

// Verdict on one obligation
type Verdict struct {
	Key    string   `json:"obligation"`
	Where  string   `json:"where,omitempty"`
	Detail string   `json:"detail,omitempty"`
	Path   []string `json:"path,omitempty"`
}

type Ctx struct {
	P         *Program
	ID        string
	Tier      string
	total     int
	passed    map[string]int
	viol      []Verdict
	undec     []Verdict
	seenV     map[string]bool
	tracks    [][]*evInput // of the current file
	fileOf    func(st *State, tracks [][]*evInput) []Seg
	onlyShape func(key string) bool
	fixedX    *int64
	quietly   bool // only panics are reported
	refining  bool
	undecSeen int
	samples   []string
	funcs     map[string]bool
	counts    map[string]int
	rule      string
	assume    []string
	base      *Interp
	shard     int
	shards    int
	unit      int
}

// partial result of one shard
type partial struct {
	Total   int
	Passed  map[string]int
	Viol    []Verdict
	Undec   []Verdict
	Samples []string
	Funcs   map[string]bool
	Counts  map[string]int
}

type Check struct {
	ID    string
	Rule  string
	Assum []string
	Run   func(c *Ctx)
	Shard bool // the obligations are independent units (guard) that may run in parallel processes
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

func (c *Ctx) Pass(key, sample string) {
	if c.refining {
		return
	}
	c.total++
	c.passed[key]++
	if len(c.samples) < 12 && sample != "" && c.passed[key] == 1 {
		c.samples = append(c.samples, key+": "+clip(sample))
	}
}

func (c *Ctx) Fail(key, where, detail string, path ...string) {
	c.total++
	if c.quietly && !strings.Contains(key, ":panic:") {
		c.passed[key]++
		return
	}
	if c.seenV["v"+key] {
		return
	}
	c.seenV["v"+key] = true
	c.viol = append(c.viol, Verdict{key, where, detail, path})
}

func (c *Ctx) Undecided(key, where, detail string) {
	if c.quietly {
		c.total++
		c.passed[key]++
		return
	}
	if c.refining {
		if verbose {
			fmt.Println("REFINED", pin.run, key, detail)
		}
		return
	}
	c.total++
	c.undecSeen++
	if c.seenV["u"+key] {
		return
	}
	c.seenV["u"+key] = true
	c.undec = append(c.undec, Verdict{key, where, detail, nil})
}

// interp gives an interpreter with the package level state initialised
func (c *Ctx) interp() *Interp {
	if c.base == nil {
		c.base = NewInterp(c.P)
		c.base.initGlobals()
	}
	in := NewInterp(c.P)
	in.base = c.base.base
	in.globals = cpMap(c.base.globals)
	in.fresh = c.base.fresh
	return in
}

var started = time.Now()

// budget of one check: what is left when it is used up is reported as undecided
func budget() time.Duration {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 40 * time.Minute
	}
	return 7 * time.Minute
}

// guard runs f; if the analysis gives up, the obligation is undecided
func (c *Ctx) guard(key string, in *Interp, f func()) (ok bool) {
	c.unit++
	if o := os.Getenv("VERIF_ONLY"); o != "" && !strings.Contains(key, o) {
		return true
	}
	if c.shards > 1 && c.unit%c.shards != c.shard {
		return true
	}
	if time.Since(started) > budget() {
		c.Undecided(key, "", "time budget of the check used up")
		return false
	}
	t0 := time.Now()
	u0, v0 := c.undecSeen, len(c.viol)
	defer func() {
		dumpProf()
		if os.Getenv("VERIF_TIME") != "" {
			n := 0
			if in != nil {
				n = in.steps
			}
			fmt.Fprintf(os.Stderr, "%8.2fs %8d steps %s\n", time.Since(t0).Seconds(), n, key)
		}
		if r := recover(); r != nil {
			if s, is := r.(stop); is {
				c.Undecided(key, "", "analysis stopped: "+s.why)
			} else {
				d := ""
				if os.Getenv("VERIF_DEBUG") != "" {
					d = string(debug.Stack())
				}
				c.Undecided(key, "", fmt.Sprintf("analysis error: %v %s", r, d))
			}
			ok = false
		}
		if in != nil {
			in.stack, in.sites = nil, nil
		}
		if c.undecSeen > u0 && len(c.viol) == v0 {
			c.refine(f, in)
		}
		if in != nil {
			in.stack, in.sites = nil, nil
			for fn := range in.funcs {
				c.funcs[fn.String()] = true
			}
		}
	}()
	n0 := c.total
	f()
	if c.total == n0 && !noEvents[key] { // nothing was reached: the unit decided nothing
		c.Undecided(key+": vacuous", "", "no path of the analysis reached an obligation")
	}
	return true
}

// units that have no inputs: an escape is not dispatched outside a track, and a continuation does not follow one
var noEvents = map[string]bool{"SysExEscapeMessage/event": true, "SysExEscapeMessage SysExContinuationMessage": true}

type known struct{ prop, key, what string }

func loadKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(f) < 3 {
			continue
		}
		out = append(out, known{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "key="), f[2]})
	}
	return out
}

func run(id, repo, verif, tier string) int {
	ck := checks[id]
	if ck == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	t0 := time.Now()
	p, err := LoadProgram(repo)
	if err != nil {
		fmt.Println("cannot load the repository:", err)
		return 2
	}
	c := &Ctx{P: p, ID: id, Tier: tier, passed: map[string]int{}, seenV: map[string]bool{}, funcs: map[string]bool{}, counts: map[string]int{}}
	if sh := os.Getenv("VERIF_SHARD"); sh != "" {
		fmt.Sscanf(sh, "%d/%d", &c.shard, &c.shards)
		ck.Run(c)
		json.NewEncoder(os.Stdout).Encode(partial{c.total, c.passed, c.viol, c.undec, c.samples, c.funcs, c.counts})
		return 0
	}
	if ck.Shard && runtime.NumCPU() > 1 && os.Getenv("VERIF_NOSHARD") == "" {
		if err := c.parallel(id, repo, verif, tier, min(8, runtime.NumCPU())); err != nil {
			fmt.Println("shards:", err)
			return 2
		}
	} else {
		ck.Run(c)
	}
	kn := loadKnown(filepath.Join(verif, "known-findings.txt"))
	var bad []Verdict
	nk := 0
	for _, v := range c.viol {
		hit := ""
		for _, k := range kn {
			if k.prop == id && k.key == v.Key {
				hit = k.what
			}
		}
		if hit != "" {
			nk++
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", id, hit, v.Key)
			continue
		}
		bad = append(bad, v)
	}
	keys := []string{}
	for k := range c.passed {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	dis := 0
	for _, n := range c.passed {
		dis += n
	}
	cov := map[string]any{
		"explanation":          ck.Rule,
		"rule":                 ck.Rule,
		"obligations":          c.total,
		"discharged":           dis,
		"distinct_obligations": len(keys),
		"known_findings":       nk,
		"undecided":            len(c.undec),
		"undecided_list":       clipV(c.undec, 40),
		"functions_analysed":   len(c.funcs),
		"repository_functions": len(p.fns),
		"counts":               c.counts,
		"samples":              c.samples,
		"obligation_keys":      clipS(keys, 80),
	}
	if len(bad) > 0 {
		cov["violations"] = clipV(bad, 40)
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed(), "level": "other", "coverage": cov, "assumptions": ck.Assum,
		"wall_s": time.Since(t0).Seconds(), "violations": len(bad)}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s: %d obligations (%d distinct), %d discharged, %d known, %d undecided, %d violated; %d functions analysed, %.1fs\n",
		id, c.total, len(keys), dis, nk, len(c.undec), len(bad), len(c.funcs), time.Since(t0).Seconds())
	for i, u := range c.undec {
		if i == 10 && os.Getenv("VERIF_DEBUG") == "" {
			break
		}
		fmt.Printf("undecided: %s %s %s\n", u.Key, u.Where, clip(u.Detail))
	}
	if len(bad) > 0 {
		rp := filepath.Join(verif, "evidence", id+".violations.txt")
		var sb strings.Builder
		for _, v := range bad {
			fmt.Fprintf(&sb, "property %s\nobligation: %s\nat: %s\n%s\n", id, v.Key, v.Where, v.Detail)
			for _, l := range v.Path {
				fmt.Fprintf(&sb, "    path: %s\n", l)
			}
			sb.WriteString("\n")
			fmt.Printf("violated: %s at %s: %s\n", v.Key, v.Where, clip(v.Detail))
		}
		os.WriteFile(rp, []byte(sb.String()), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	return 0
}

func (c *Ctx) parallel(id, repo, verif, tier string, n int) error {
	parts := make([]partial, n)
	errs := make([]error, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ctx, cancel := context.WithTimeout(context.Background(), budget()+100*time.Second)
			defer cancel()
			cmd := exec.CommandContext(ctx, os.Args[0], id)
			cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_SHARD=%d/%d", i, n), "VERIF_REPO="+repo, "VERIF_DIR="+verif, "VERIF_TIER="+tier, "GOMAXPROCS=2")
			cmd.Stderr = os.Stderr
			b, err := cmd.Output()
			if err == nil {
				err = json.Unmarshal(b, &parts[i])
			}
			errs[i] = err
		}()
	}
	wg.Wait()
	for i, p := range parts {
		if errs[i] != nil {
			if _, ok := errs[i].(*exec.ExitError); !ok {
				return fmt.Errorf("shard %d: %v", i, errs[i])
			}
			// ran out of time or memory: what it had to decide is open
			c.Undecided(fmt.Sprintf("shard %d of %d", i, n), "", errs[i].Error())
			continue
		}
		c.total += p.Total
		for k, v := range p.Passed {
			c.passed[k] += v
		}
		for k, v := range p.Counts {
			c.counts[k] += v
		}
		for k := range p.Funcs {
			c.funcs[k] = true
		}
		for _, v := range p.Viol {
			if !c.seenV["v"+v.Key] {
				c.seenV["v"+v.Key] = true
				c.viol = append(c.viol, v)
			}
		}
		for _, v := range p.Undec {
			if !c.seenV["u"+v.Key] {
				c.seenV["u"+v.Key] = true
				c.undec = append(c.undec, v)
			}
		}
		for _, s := range p.Samples {
			if len(c.samples) < 12 {
				c.samples = append(c.samples, s)
			}
		}
	}
	sort.Slice(c.viol, func(i, j int) bool { return c.viol[i].Key < c.viol[j].Key })
	sort.Slice(c.undec, func(i, j int) bool { return c.undec[i].Key < c.undec[j].Key })
	return nil
}

func seed() int {
	n := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}

func clipV(v []Verdict, n int) []Verdict {
	if len(v) > n {
		return v[:n]
	}
	return v
}

func clipS(v []string, n int) []string {
	if len(v) > n {
		return v[:n]
	}
	return v
}

var debugOn = os.Getenv("VERIF_DEBUG") != ""

// memory limit of one process
const maxHeap = 2800 << 20

func heap() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}
