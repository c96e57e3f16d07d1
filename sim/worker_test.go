package fdosim

import (
	"bufio"
	"crypto/rsa"
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"net/http"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"testing"
	"testing/cryptotest"
	"testing/synctest"
	"time"
)

type Job struct {
	Before *struct {
		First, Stride, Count, Verify int
	} `json:"before"`
	Mode     string   `json:"mode"` // pool | search | replay | minimise
	Prop     string   `json:"prop"`
	Tier     string   `json:"tier"`
	Seed     uint64   `json:"seed"`  // base seed
	First    int      `json:"first"` // run index of the first run
	Stride   int      `json:"stride"`
	MaxRuns  int      `json:"max_runs"`
	BudgetMS int64    `json:"budget_ms"`
	Pool     []string `json:"pool"`
	Out      string   `json:"out"`
	PoolPart int      `json:"pool_part"`
	PoolN    int      `json:"pool_n"`
	PoolPer  int      `json:"pool_per"`
	Run      *Replay  `json:"run"`
	Class    string   `json:"class"`
	Known    []string `json:"known"`
	Verify   int      `json:"verify"` // every n-th run is executed twice and compared
}

// Replay identifies one execution completely (given the pool).
type Replay struct {
	RunSeed uint64   `json:"run_seed"`
	Index   int      `json:"index"`
	Choices []uint16 `json:"choices"`
	Fixed   bool     `json:"fixed"` // choices are authoritative; otherwise they are drawn from run_seed
}

type RunResult struct {
	Index      int              `json:"index"`
	RunSeed    uint64           `json:"run_seed"`
	Violations []Violation      `json:"violations,omitempty"`
	Choices    []uint16         `json:"choices,omitempty"`
	LogHash    uint64           `json:"log_hash"`
	Log        string           `json:"log,omitempty"`
	EndErr     string           `json:"end_err,omitempty"`
	Harness    string           `json:"harness,omitempty"`
	Values     []string         `json:"values,omitempty"` // values that no other process may make
	Stats      map[string]int64 `json:"-"`
	notes      map[string]int64
	distinct   map[uint64]bool
	evals      int64
	sig        uint64
	steps      int
	simMS      int64
}

type Summary struct {
	Summary   bool             `json:"summary"`
	Runs      int              `json:"runs"`
	Steps     int64            `json:"steps"`
	SimMS     int64            `json:"sim_ms"`
	Evals     int64            `json:"evals"`
	Distinct  []uint64         `json:"distinct"`
	Sigs      []uint64         `json:"sigs"`
	Stats     map[string]int64 `json:"stats"`
	Notes     map[string]int64 `json:"notes"`
	EndErrs   map[string]int   `json:"end_errs"`
	Verified  int              `json:"verified"`
	Mismatch  []string         `json:"mismatch"`
	WallMS    int64            `json:"wall_ms"`
	KnownHits map[string]int   `json:"known_hits"`
	Samples   []string         `json:"samples"`
}

type Scenario func(w *World)

var scenarios = map[string]Scenario{}

func runSeedOf(base uint64, prop string, idx int) uint64 {
	r := newRng(base)
	for _, c := range prop {
		r.s ^= uint64(c) * 0x100000001b3
		r.next()
	}
	r.s += uint64(idx) * 0x9E3779B97F4A7C15 * 3
	r.next()
	return r.next() >> 1
}

func runOne(t *testing.T, prop, tier string, rp Replay, keepLog bool) (res RunResult) {
	cryptotest.SetGlobalRandom(t, rp.RunSeed)
	mrand.Seed(int64(rp.RunSeed))
	rsa.SimMapOrder(rp.RunSeed*0x9E3779B97F4A7C15 | 1)
	http.DefaultServeMux = http.NewServeMux()
	w := &World{Seed: rp.RunSeed, Prop: prop, Tier: tier, rnd: newRng(rp.RunSeed), maxSteps: 60000,
		tasks: map[uint64]*Task{}, nodes: map[string]*Node{}, Stats: map[string]int64{}, notes: map[string]int64{},
		distinct: map[uint64]bool{}, keepLog: keepLog, Index: rp.Index}
	w.dbnodes = newDBNodes()
	if rp.Fixed {
		w.replayOn = true
		w.replay = rp.Choices
	}
	w.Net.Down = map[string]bool{}
	w.Net.Slow = map[string]time.Duration{}
	var harness string
	synctest.Test(t, func(t *testing.T) {
		time.Sleep(time.Date(2026, 1, 15, 0, 0, 0, 0, time.UTC).Sub(time.Now()))
		w.wake = make(chan struct{}, 1)
		w.start = time.Now()
		w.rootGoid = goid()
		theWorld = w
		w.rsaStore()
		http.DefaultTransport = simTransport{w}
		http.DefaultClient.Transport = simTransport{w}
		func() {
			defer func() {
				if e := recover(); e != nil {
					harness = fmt.Sprintf("%v\n%s", e, debug.Stack())
				}
			}()
			scenarios[prop](w)
		}()
		res.simMS = w.NowMS()
		// end of the run: kill what is left, let timers fire, close the stores
		w.stopped = true
		for k := 0; k < 3; k++ {
			synctest.Wait()
			for _, tk := range w.parked {
				tk.dead = true
				tk.ch <- struct{}{}
			}
			w.parked = nil
			synctest.Wait()
			time.Sleep(75 * time.Second)
		}
		closingAll = true
		theWorld = nil
		for _, s := range w.stores {
			s.DB.Close()
		}
		closingAll = false
		synctest.Wait()
	})
	res.Index = rp.Index
	res.RunSeed = rp.RunSeed
	res.Violations = w.violations
	res.LogHash = w.loghash
	res.EndErr = w.endErr
	res.Choices = w.choices
	res.Stats = w.Stats
	res.notes = w.notes
	res.distinct = w.distinct
	res.evals = w.evals
	res.sig = w.sig
	res.steps = w.steps
	res.Harness = harness
	res.Values = w.values
	if keepLog {
		res.Log = w.log.String()
	}
	return
}

func hasClass(vs []Violation, class string) bool {
	for _, v := range vs {
		if v.Class == class {
			return true
		}
	}
	return false
}

func TestWorker(t *testing.T) {
	path := os.Getenv("FDOSIM_JOB")
	if path == "" {
		t.Skip("no job")
	}
	b, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	var job Job
	if err := json.Unmarshal(b, &job); err != nil {
		t.Fatal(err)
	}
	installHooks()
	out, err := os.Create(job.Out)
	if err != nil {
		t.Fatal(err)
	}
	defer out.Close()
	bw := bufio.NewWriter(out)
	defer bw.Flush()
	emit := func(v interface{}) {
		j, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		bw.Write(j)
		bw.WriteByte('\n')
		bw.Flush()
	}
	debug.SetGCPercent(400)

	switch job.Mode {
	case "pool":
		cryptotest.SetGlobalRandom(t, job.Seed*1000+uint64(job.PoolPart))
		mrand.Seed(int64(job.Seed*1000 + uint64(job.PoolPart)))
		synctest.Test(t, func(t *testing.T) {
			time.Sleep(time.Date(2026, 1, 14, 0, 0, 0, 0, time.UTC).Sub(time.Now()))
			savePool(buildPoolPart(job.PoolPart, job.PoolN, job.PoolPer), job.Out+".pool")
		})
		return
	case "search":
		loadPool(job.Pool)
		sum := Summary{Summary: true, Stats: map[string]int64{}, Notes: map[string]int64{}, EndErrs: map[string]int{}, KnownHits: map[string]int{}}
		distinct := map[uint64]bool{}
		sigs := map[uint64]bool{}
		known := map[string]bool{}
		for _, k := range job.Known {
			known[k] = true
		}
		start := realNow()
		nviol := 0
		for i := 0; (job.MaxRuns == 0 || i < job.MaxRuns) && nviol < 3; i++ {
			if job.BudgetMS > 0 && realNow()-start > job.BudgetMS {
				break
			}
			idx := job.First + i*job.Stride
			rp := Replay{RunSeed: runSeedOf(job.Seed, job.Prop, idx), Index: idx}
			fmt.Fprintf(os.Stderr, "run %d seed %d\n", idx, rp.RunSeed)
			r := runOne(t, job.Prop, job.Tier, rp, false)
			sum.Runs++
			sum.Steps += int64(r.steps)
			sum.SimMS += r.simMS
			sum.Evals += r.evals
			for k := range r.distinct {
				distinct[k] = true
			}
			sigs[r.sig] = true
			for k, v := range r.Stats {
				sum.Stats[k] += v
			}
			for k, v := range r.notes {
				sum.Notes[k] += v
			}
			if r.EndErr != "" {
				sum.EndErrs[r.EndErr]++
			}
			if r.Harness != "" {
				emit(r)
				break
			}
			fresh := false
			for _, v := range r.Violations {
				if known[v.Class] {
					sum.KnownHits[v.Class]++
				} else {
					fresh = true
				}
			}
			if i == 0 && len(r.Values) > 0 {
				emit(map[string]interface{}{"first": true, "index": idx, "run_seed": rp.RunSeed, "values": r.Values})
			}
			r.Values = nil
			if fresh {
				nviol++
				emit(r)
			}
			if job.Verify > 0 && i%job.Verify == 0 {
				r2 := runOne(t, job.Prop, job.Tier, Replay{RunSeed: rp.RunSeed, Index: idx, Choices: r.Choices, Fixed: true}, false)
				sum.Verified++
				if r2.LogHash != r.LogHash || r2.steps != r.steps {
					if dir := os.Getenv("FDOSIM_DIFF"); dir != "" && len(sum.Mismatch) == 0 {
						for k := 0; k < 2; k++ {
							x := runOne(t, job.Prop, job.Tier, Replay{RunSeed: rp.RunSeed, Index: idx, Choices: r.Choices, Fixed: true}, true)
							os.WriteFile(fmt.Sprintf("%s/run%d", dir, k), []byte(x.Log), 0o600)
						}
					}
					sum.Mismatch = append(sum.Mismatch, fmt.Sprintf("run %d seed %d: %x/%d vs %x/%d", idx, rp.RunSeed, r.LogHash, r.steps, r2.LogHash, r2.steps))
				}
			}
			if i%64 == 63 {
				runtime.GC()
			}
		}
		for k := range distinct {
			sum.Distinct = append(sum.Distinct, k)
		}
		for k := range sigs {
			sum.Sigs = append(sum.Sigs, k)
		}
		sort.Slice(sum.Distinct, func(i, j int) bool { return sum.Distinct[i] < sum.Distinct[j] })
		sort.Slice(sum.Sigs, func(i, j int) bool { return sum.Sigs[i] < sum.Sigs[j] })
		sum.WallMS = realNow() - start
		emit(sum)
	case "replay":
		loadPool(job.Pool)
		// code that keeps state outside its database may need the runs that
		// the process went through before
		if b := job.Before; b != nil {
			for i := 0; i < b.Count; i++ {
				idx := b.First + i*b.Stride
				r := runOne(t, job.Prop, job.Tier, Replay{RunSeed: runSeedOf(job.Seed, job.Prop, idx), Index: idx}, false)
				if b.Verify > 0 && i%b.Verify == 0 {
					runOne(t, job.Prop, job.Tier, Replay{RunSeed: r.RunSeed, Index: idx, Choices: r.Choices, Fixed: true}, false)
				}
				if i%64 == 63 {
					runtime.GC()
				}
				fmt.Fprintf(os.Stderr, "before %d\n", idx)
			}
		}
		r := runOne(t, job.Prop, job.Tier, *job.Run, true)
		emit(r)
	case "minimise":
		loadPool(job.Pool)
		start := realNow()
		over := func() bool { return realNow()-start > job.BudgetMS }
		best := runOne(t, job.Prop, job.Tier, *job.Run, false)
		if !hasClass(best.Violations, job.Class) {
			emit(best)
			return
		}
		try := func(c []uint16) bool {
			r := runOne(t, job.Prop, job.Tier, Replay{RunSeed: job.Run.RunSeed, Index: job.Run.Index, Choices: c, Fixed: true}, false)
			if r.Harness == "" && hasClass(r.Violations, job.Class) {
				best = r
				return true
			}
			return false
		}
		trim := func(c []uint16) []uint16 {
			n := len(c)
			for n > 0 && c[n-1] == 0 {
				n--
			}
			return append([]uint16{}, c[:n]...)
		}
		cur := trim(best.Choices)
		try(cur)
		// 1. shortest prefix that still fails (the rest becomes benign)
		for size := len(cur) / 2; size >= 1 && !over(); size /= 2 {
			for len(cur) > size && !over() {
				c := trim(cur[:len(cur)-size])
				if len(c) < len(cur) && try(c) {
					cur = c
				} else {
					break
				}
			}
		}
		// 2. zero, then delete, chunks of decisions
		for size := (len(cur) + 1) / 2; size >= 1 && !over(); size /= 2 {
			for i := 0; i < len(cur) && !over(); i += size {
				j := i + size
				if j > len(cur) {
					j = len(cur)
				}
				nz := false
				for _, x := range cur[i:j] {
					if x != 0 {
						nz = true
					}
				}
				if nz {
					c := append([]uint16{}, cur...)
					for k := i; k < j; k++ {
						c[k] = 0
					}
					if try(trim(c)) {
						cur = trim(c)
						continue
					}
				}
				c := append(append([]uint16{}, cur[:i]...), cur[min(j, len(cur)):]...)
				if len(c) < len(cur) && try(trim(c)) {
					cur = trim(c)
				}
			}
		}
		// 3. lower single decisions
		for i := 0; i < len(cur) && !over(); i++ {
			for cur[i] > 1 && !over() {
				c := append([]uint16{}, cur...)
				c[i] = c[i] / 2
				if !try(trim(c)) {
					break
				}
				cur = c
			}
		}
		r := runOne(t, job.Prop, job.Tier, Replay{RunSeed: job.Run.RunSeed, Index: job.Run.Index, Choices: trim(cur), Fixed: true}, true)
		if !hasClass(r.Violations, job.Class) {
			r = runOne(t, job.Prop, job.Tier, Replay{RunSeed: job.Run.RunSeed, Index: job.Run.Index, Choices: best.Choices, Fixed: true}, true)
			r.Choices = best.Choices
		} else {
			r.Choices = trim(cur)
		}
		emit(r)
	}
}

var _ = strings.Contains
