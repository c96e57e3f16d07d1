package fdosim

// The simulator core: one World is one simulated execution. Everything that
// happens in it is decided by a single sequence of choices (World.Choose),
// drawn from a seeded generator in search mode and from a recorded list in
// replay mode; choice 0 is always the plain, fault-free alternative.

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"hash/fnv"
	"log"
	mrand "math/rand"
	"net/http"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	badger "github.com/dgraph-io/badger/v4"
	"github.com/dgraph-io/badger/v4/options"
)

// ---------------------------------------------------------------- PRNG

type rng struct{ s uint64 }

func newRng(seed uint64) *rng { return &rng{seed*0x9E3779B97F4A7C15 + 0x1234567} }
func (r *rng) next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *rng) n(n int) int { return int(r.next() % uint64(n)) }

// ---------------------------------------------------------------- World

type Violation struct {
	Class  string `json:"class"`  // stable identity of the failure, used for known findings and minimising
	Detail string `json:"detail"` // this run's particulars
	Step   int    `json:"step"`
	AtMS   int64  `json:"at_ms"`
}

type World struct {
	values   []string // see RunResult.Values
	Seed     uint64
	Prop     string
	Tier     string
	replay   []uint16 // nil in search mode
	replayOn bool
	choices  []uint16
	rnd      *rng

	start    time.Time
	steps    int
	maxSteps int
	log      bytes.Buffer
	keepLog  bool
	sig      uint64 // hash over the schedule: which task ran which step, and every fault
	loghash  uint64

	tasks   map[uint64]*Task // by goroutine id
	parked  []*Task
	taskSeq int
	live    int
	wake    chan struct{}
	current *Task

	events  []*event
	evSeq   int
	nodes   map[string]*Node
	dbnodes map[*badger.DB]*Storage
	stores  []*Storage

	Net NetProfile

	violations []Violation
	Stats      map[string]int64 // fault kinds and reach counters
	notes      map[string]int64
	onStep     []func()
	msgSeq     int
	Intercept  func(m *Msg)
	OnDup      func(orig, dup *Msg)
	OnMsg      func(m *Msg)
	stopped    bool
	evals      int64
	distinct   map[uint64]bool
	endErr     string
	lastNode   *Node
	inflight   int
	addrN      int
	sleeping   int
	rootGoid   uint64
	Index      int
	openMsgs   []*Msg
	OnReply    func(m *Msg)
	// InterceptReply may alter the bytes of a reply on their way to the client
	InterceptReply func(m *Msg, body []byte) []byte
}

type Task struct {
	Op      interface{} // set by scenarios: what the next message is
	id      int
	name    string
	node    *Node
	epoch   int
	ch      chan struct{}
	goid    uint64
	where   string
	dead    bool
	daemon  bool
	noFault bool
	done    bool
	Tag     string
	onExit  func()
	logTo   *strings.Builder
}

type event struct {
	at   time.Time
	seq  int
	name string
	fn   func()
}

var theWorld *World // the world of the run in progress (one at a time per process)

func goid() uint64 {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	return parseGoid(buf[:n])
}

func parseGoid(b []byte) uint64 {
	b = bytes.TrimPrefix(b, []byte("goroutine "))
	i := bytes.IndexByte(b, ' ')
	if i < 0 {
		return 0
	}
	v, _ := strconv.ParseUint(string(b[:i]), 10, 64)
	return v
}

func creatorGoid() uint64 {
	buf := make([]byte, 64<<10)
	n := runtime.Stack(buf, false)
	s := string(buf[:n])
	i := strings.LastIndex(s, " in goroutine ")
	if i < 0 {
		return 0
	}
	s = s[i+len(" in goroutine "):]
	j := strings.IndexAny(s, "\n ")
	if j >= 0 {
		s = s[:j]
	}
	v, _ := strconv.ParseUint(s, 10, 64)
	return v
}

// Choose makes one decision with n alternatives; 0 is the benign one.
func (w *World) Choose(label string, n int) int {
	if n <= 1 {
		return 0
	}
	if n > 1<<16 { // a recorded choice has 16 bits
		hi := w.choose(label, (n+1<<15-1)>>15, nil)
		v := hi<<15 | w.choose(label, 1<<15, nil)
		return v % n
	}
	return w.choose(label, n, nil)
}

// Rare picks a fault with probability num/den (alternatives 1..n-1 equally), else 0.
func (w *World) Rare(label string, num, den int, n int) int {
	if n <= 1 || num <= 0 {
		return 0
	}
	return w.choose(label, n, func() int {
		if w.rnd.n(den) < num {
			return 1 + w.rnd.n(n-1)
		}
		return 0
	})
}

func (w *World) Bool(label string, num, den int) bool { return w.Rare(label, num, den, 2) == 1 }

func (w *World) choose(label string, n int, gen func() int) int {
	var v int
	if w.replayOn {
		if len(w.choices) < len(w.replay) {
			v = int(w.replay[len(w.choices)])
			if v >= n {
				v = v % n
			}
		}
	} else if gen != nil {
		v = gen()
	} else {
		v = w.rnd.n(n)
	}
	w.choices = append(w.choices, uint16(v))
	return v
}

func (w *World) mix(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	w.sig = w.sig*0x100000001b3 ^ h.Sum64()
}

func (w *World) NowMS() int64 { return time.Since(w.start).Milliseconds() }

func (w *World) Logf(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	h := fnv.New64a()
	h.Write([]byte(s))
	w.loghash = w.loghash*0x100000001b3 ^ h.Sum64()
	if w.keepLog && w.log.Len() < 400<<10 {
		fmt.Fprintf(&w.log, "%8d #%-5d %s\n", w.NowMS(), w.steps, s)
	}
}

func (w *World) Count(k string)           { w.Stats[k]++ }
func (w *World) CountN(k string, n int64) { w.Stats[k] += n }

// Eval records one evaluation of the property's oracle; the key says what was
// evaluated so that distinct cases can be counted.
func (w *World) Eval(key string) {
	w.evals++
	h := fnv.New64a()
	h.Write([]byte(key))
	w.distinct[h.Sum64()] = true
	w.notes[firstField(key)]++
}

func firstField(s string) string {
	if i := strings.IndexByte(s, ' '); i >= 0 {
		return s[:i]
	}
	return s
}

func (w *World) Violate(class, f string, a ...interface{}) {
	d := fmt.Sprintf(f, a...)
	w.Logf("VIOLATION %s: %s", class, d)
	w.violations = append(w.violations, Violation{class, d, w.steps, w.NowMS()})
}

// ---------------------------------------------------------------- tasks

// Go starts fn as a scheduled task of node (nil: a task no crash can hit).
func (w *World) Go(node *Node, name string, fn func()) *Task {
	w.taskSeq++
	t := &Task{id: w.taskSeq, name: name, node: node, ch: make(chan struct{}, 1)}
	if node != nil {
		t.epoch = node.epoch
	}
	if c := w.currentTask(); c != nil {
		t.noFault = c.noFault
		t.Tag = c.Tag
	}
	w.live++
	go func() {
		t.goid = goid()
		w.tasks[t.goid] = t
		defer func() {
			t.done = true
			w.live--
			if t.onExit != nil {
				t.onExit()
			}
			delete(w.tasks, t.goid)
			w.signal()
		}()
		w.park(t, "start")
		fn()
	}()
	return t
}

func (w *World) signal() {
	select {
	case w.wake <- struct{}{}:
	default:
	}
}

func (w *World) currentTask() *Task { return w.tasks[goid()] }

// task returns the task of the calling goroutine, adopting goroutines the
// code under test started itself.
func (w *World) task() *Task {
	id := goid()
	if t, ok := w.tasks[id]; ok {
		return t
	}
	p := w.tasks[creatorGoid()]
	w.taskSeq++
	t := &Task{id: w.taskSeq, ch: make(chan struct{}, 1), goid: id, daemon: true}
	if p != nil {
		t.name = p.name + ">"
		t.node, t.epoch = p.node, p.epoch
		t.noFault = p.noFault
		t.Tag = p.Tag
		t.dead = p.dead
	} else {
		t.name = "anon"
		// its creator has ended: it belongs to the process that last ran
		if w.lastNode != nil {
			t.node, t.epoch = w.lastNode, w.lastNode.epoch
		}
	}
	w.tasks[id] = t
	return t
}

var errCrashed = errors.New("process crashed")

// park blocks the calling task until the scheduler lets it run; the task dies
// here when its process has crashed in the meantime.
func (w *World) park(t *Task, where string) {
	if w.stopped {
		runtime.Goexit()
	}
	if t.dead || (t.node != nil && t.epoch != t.node.epoch) {
		t.dead = true
		runtime.Goexit()
	}
	t.where = where
	w.parked = append(w.parked, t)
	w.signal()
	<-t.ch
	if w.stopped || t.dead || (t.node != nil && t.epoch != t.node.epoch) {
		t.dead = true
		runtime.Goexit()
	}
}

// Yield is a scheduling point for harness code.
func (w *World) Yield(where string) { w.park(w.task(), where) }

// Sleep advances the calling task by d of simulated time.
func (w *World) Sleep(d time.Duration) {
	w.sleeping++
	defer func() { w.sleeping-- }()
	time.Sleep(d)
	w.Yield("slept")
}

func (w *World) At(d time.Duration, name string, fn func()) {
	w.evSeq++
	w.events = append(w.events, &event{time.Now().Add(d), w.evSeq, name, fn})
}

// Run executes until every non-daemon task has ended and no event is pending.
// It is called by the scenario (the bubble's root goroutine).
func (w *World) Run() {
	idle := 0
	for {
		synctest.Wait()
		if w.steps > w.maxSteps {
			w.endErr = "step limit"
			w.Logf("step limit reached")
			return
		}
		now := time.Now()
		// what can happen now, in a deterministic order
		var evs []*event
		for _, e := range w.events {
			if !e.at.After(now) {
				evs = append(evs, e)
			}
		}
		sort.Slice(w.parked, func(i, j int) bool { return w.parked[i].id < w.parked[j].id })
		n := len(w.parked) + len(evs)
		if n > 0 {
			idle = 0
			i := w.Choose("sched", n)
			w.steps++
			if i < len(w.parked) {
				t := w.parked[i]
				w.parked = append(w.parked[:i], w.parked[i+1:]...)
				w.current = t
				if t.node != nil {
					w.lastNode = t.node
				}
				if n > 1 {
					w.mix(t.name + "@" + t.where)
				}
				t.ch <- struct{}{}
				synctest.Wait()
				w.current = nil
			} else {
				e := evs[i-len(w.parked)]
				for k, x := range w.events {
					if x == e {
						w.events = append(w.events[:k], w.events[k+1:]...)
						break
					}
				}
				if n > 1 {
					w.mix(e.name)
				}
				e.fn()
				synctest.Wait()
			}
			for _, f := range w.onStep {
				f()
			}
			continue
		}
		if w.live == 0 && len(w.events) == 0 && !w.bgRunning() {
			return
		}
		d := time.Second
		if len(w.events) > 0 {
			idle = 0
			next := w.events[0].at
			for _, e := range w.events {
				if e.at.Before(next) {
					next = e.at
				}
			}
			d = next.Sub(now)
		} else {
			if w.sleeping == 0 {
				idle++
			} else {
				d = time.Hour // whoever sleeps wakes us
			}
			if idle > 400 {
				w.endErr = "stuck"
				var names []string
				for _, t := range w.tasks {
					if !t.done {
						names = append(names, t.name+"@"+t.where)
					}
				}
				sort.Strings(names)
				w.Logf("stuck: live=%d tasks=%v", w.live, names)
				return
			}
		}
		tm := time.NewTimer(d)
		select {
		case <-w.wake:
			tm.Stop()
		case <-tm.C:
		}
	}
}

// Advance moves simulated time forward by d with nothing else going on.
func (w *World) Advance(d time.Duration) {
	w.Logf("clock +%v", d)
	w.Count("clock_advance")
	time.Sleep(d)
	synctest.Wait()
}

// bgRunning: work the servers started in the background (conformance runs) is in flight.
func (w *World) bgRunning() bool {
	return w.inflight > 0
}

// ---------------------------------------------------------------- storage

type Storage struct {
	Name string
	DB   *badger.DB
	node *Node // the process using it; nil: harness only

	// fault injection
	FailNext  map[string]int // op -> fail the n-th next (1 = next)
	ErrNum    int            // error probability num/den per operation
	ErrDen    int
	ErrOps    string // operations that may fail, space separated
	CrashNum  int
	CrashDen  int
	OpCount   int
	CrashAtOp int // crash the process at this operation count (0: off)
	FailAtOp  int
	OnOp      func(op string, key []byte) error
	quiet     bool
}

var ErrDisk = errors.New("simulated disk I/O error")

func simDBOptions() badger.Options {
	return badger.DefaultOptions("").WithInMemory(true).WithLogger(nil).WithMemTableSize(8 << 20).
		WithNumCompactors(0).WithMetricsEnabled(false).WithBlockCacheSize(0).
		WithCompression(options.None).WithIndexCacheSize(0).WithNumGoroutines(1)
}

func (w *World) NewStorage(name string) *Storage {
	bypassOpen = true
	db, err := badger.Open(simDBOptions())
	bypassOpen = false
	if err != nil {
		panic("harness: open badger: " + err.Error())
	}
	s := &Storage{Name: name, DB: db, FailNext: map[string]int{}}
	w.dbnodes[db] = s
	w.stores = append(w.stores, s)
	return s
}

var bypassOpen bool
var closingAll bool

func installHooks() {
	badger.SimOp = func(db *badger.DB, op string, key []byte) error {
		w := theWorld
		if w == nil {
			return nil
		}
		s := w.dbnodes[db]
		if s == nil {
			return nil
		}
		return w.storageOp(s, op, key)
	}
	badger.SimClose = func(db *badger.DB) bool {
		w := theWorld
		return w != nil && !closingAll && w.dbnodes[db] != nil
	}
	badger.SimOpen = func(opt badger.Options) (*badger.DB, bool, error) {
		w := theWorld
		if w == nil || bypassOpen {
			return nil, false, nil
		}
		t := w.task()
		if t.node != nil && t.node.Store != nil {
			return t.node.Store.DB, true, nil
		}
		return nil, true, errors.New("harness: Open outside a process")
	}
}

func keyText(k []byte) string {
	var b strings.Builder
	for _, c := range k {
		if c >= 32 && c < 127 {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "%02x", c)
		}
	}
	s := b.String()
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}

// softPark is a scheduling point that never ends the task: the code of a crashed "soft"
// process runs on with failing storage until it returns by itself. It tells whether the
// process is alive.
func (w *World) softPark(t *Task, where string) bool {
	if !w.stopped {
		t.where = where
		w.parked = append(w.parked, t)
		w.signal()
		<-t.ch
	}
	return !w.stopped && !t.dead && t.epoch == t.node.epoch
}

// lost is what storage operations of a crashed soft process do.
func lost(op string) error {
	if op == "begin" || op == "iter" || op == "committed" {
		return nil
	}
	return errCrashed
}

func (w *World) storageOp(s *Storage, op string, key []byte) error {
	id := goid()
	if w.tasks[id] == nil && w.live == 0 && w.inflight == 0 {
		return nil // the scenario itself, between phases
	}
	if id == w.rootGoid {
		return nil
	}
	t := w.task()
	if t.node == nil { // harness tasks (owners, devices) with their own storage
		w.park(t, "db."+op)
		return nil
	}
	if t.node.soft {
		if !w.softPark(t, "db."+op) {
			return lost(op)
		}
	} else {
		w.park(t, "db."+op)
	}
	s.OpCount++
	if s.OnOp != nil {
		if err := s.OnOp(op, key); err != nil {
			return err
		}
	}
	if t.noFault {
		return nil
	}
	if s.CrashAtOp != 0 && s.OpCount == s.CrashAtOp {
		w.Count("fault.crash_at_storage_op")
		w.Logf("crash of %s at storage op %d %s %s", t.node.Name, s.OpCount, op, keyText(key))
		w.Crash(t.node)
	}
	if s.CrashNum > 0 && w.Rare("crash", s.CrashNum, s.CrashDen, 2) == 1 {
		w.Count("fault.crash_at_storage_op")
		w.Logf("crash of %s at %s %s", t.node.Name, op, keyText(key))
		w.mix("crash")
		w.Crash(t.node)
	}
	if t.node != nil && t.epoch != t.node.epoch {
		if t.node.soft {
			return lost(op)
		}
		t.dead = true
		runtime.Goexit()
	}
	if op == "begin" || op == "iter" || op == "committed" {
		return nil
	}
	if n := s.FailNext[op]; n > 0 {
		s.FailNext[op] = n - 1
		if n == 1 {
			w.Count("fault.storage_" + op)
			w.Logf("storage error at %s %s", op, keyText(key))
			return ErrDisk
		}
	}
	if s.FailAtOp != 0 && s.OpCount == s.FailAtOp {
		w.Count("fault.storage_" + op)
		w.Logf("storage error at op %d %s %s", s.OpCount, op, keyText(key))
		return ErrDisk
	}
	if s.ErrNum > 0 && strings.Contains(s.ErrOps, op) && w.Rare("dberr", s.ErrNum, s.ErrDen, 2) == 1 {
		w.Count("fault.storage_" + op)
		w.Logf("storage error at %s %s", op, keyText(key))
		w.mix("dberr")
		return ErrDisk
	}
	return nil
}

// Dump returns every live key and value of the store.
func (s *Storage) Dump() map[string]string {
	out := map[string]string{}
	old := badger.SimOp
	badger.SimOp = nil
	defer func() { badger.SimOp = old }()
	s.DB.View(func(txn *badger.Txn) error {
		it := txn.NewIterator(badger.DefaultIteratorOptions)
		defer it.Close()
		for it.Rewind(); it.Valid(); it.Next() {
			v, _ := it.Item().ValueCopy(nil)
			out[string(it.Item().KeyCopy(nil))] = string(v)
		}
		return nil
	})
	return out
}

func (s *Storage) Put(kv map[string]string) {
	old := badger.SimOp
	badger.SimOp = nil
	defer func() { badger.SimOp = old }()
	keys := make([]string, 0, len(kv))
	for k := range kv {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	s.DB.Update(func(txn *badger.Txn) error {
		for _, k := range keys {
			if err := txn.Set([]byte(k), []byte(kv[k])); err != nil {
				panic("harness: " + err.Error())
			}
		}
		return nil
	})
}

// ---------------------------------------------------------------- processes

// Node is one server process (or one simulated host).
type Node struct {
	Name    string
	Host    string
	Store   *Storage
	handler http.Handler
	start   func(n *Node) http.Handler
	epoch   int
	up      bool
	soft    bool // see softPark
	Crashes int
}

// AddNode defines a process reachable at http://host and starts it.
func (w *World) AddNode(name, host string, st *Storage, start func(n *Node) http.Handler) *Node {
	n := &Node{Name: name, Host: host, Store: st, start: start}
	if st != nil {
		st.node = n
	}
	w.nodes[host] = n
	w.Restart(n)
	return n
}

func (w *World) Restart(n *Node) {
	n.up = true
	n.handler = n.start(n)
	w.Logf("start %s", n.Name)
}

// Crash kills the process: every task of it dies at its present point, and only
// what its storage has committed survives. The calling task dies too if it is one of them.
func (w *World) Crash(n *Node) {
	n.epoch++
	n.up = false
	n.Crashes++
	w.Count("fault.crash")
	// let the dead tasks unwind
	var keep []*Task
	for _, t := range w.parked {
		if t.node == n && t.epoch != n.epoch && !n.soft {
			t.dead = true
			t.ch <- struct{}{}
		} else {
			keep = append(keep, t)
		}
	}
	w.parked = keep
	// peers see their connections reset
	for _, m := range w.openMsgs {
		if m.to == n && !m.answered {
			m.answered = true
			mm := m
			w.At(time.Millisecond, "reset", func() { mm.finish(nil, errReset) })
		}
	}
	w.openMsgs = filterOpen(w.openMsgs)
}

// CrashRestart crashes n and schedules its restart after d.
func (w *World) CrashRestart(n *Node, d time.Duration) {
	w.Crash(n)
	w.At(d, "restart", func() {
		if !n.up {
			w.Restart(n)
		}
	})
}

type silentWriter struct{}

func (silentWriter) Write(p []byte) (int, error) {
	if w := theWorld; w != nil {
		if t := w.tasks[goid()]; t != nil && t.logTo != nil {
			t.logTo.Write(p)
		}
	}
	return len(p), nil
}

func init() { log.SetOutput(silentWriter{}) }

var _ = context.Background
var _ = mrand.Int
var _ sync.Mutex
