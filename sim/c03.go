package fdosim

import (
	"fmt"
	"sort"
	"strings"
	"time"

	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

func init() { scenarios["C03"] = scenC03 }

// to2op is one message of one session, as the history checker sees it.
type to2op struct {
	id       int
	kind     string // 62, 62range, 64, 66, 68more, 68, 68short, 70, 70nonce, foreign, garbage
	n        int    // device entries carried
	inv, ret int    // global order; ret 0: never answered
	ok       bool
	isDone   bool // 69 said done
	nSims    int  // owner entries in the reply
	before   string
	status   string
	raced    bool
}

// to2model is the reference state of one session.
type to2model struct {
	p    int // 61, 63, 65, 67, 69
	sims int // mandatory entries received (bit set)
	sent int // owner entries sent
	fin  bool
}

// step applies o; accept tells whether the protocol allows it here.
func (s to2model) step(o *to2op, ownerSims, nSims int) (next to2model, accept bool, done bool, entries int) {
	next = s
	switch o.kind {
	case "62":
		if s.p == 61 || s.p == 63 {
			next.p = 63
			return next, true, false, 0
		}
	case "64":
		if s.p == 63 {
			next.p = 65
			return next, true, false, 0
		}
	case "66":
		if s.p == 65 {
			next.p = 67
			return next, true, false, 0
		}
	case "68more":
		if (s.p == 67 || s.p == 69) && !s.fin {
			next.p = 69
			next.sims |= o.n
			return next, true, false, 0
		}
	case "68", "68short":
		if (s.p == 67 || s.p == 69) && !s.fin {
			next.sims |= o.n
			if s.sent == 0 && next.sims&nSims != nSims {
				return s, false, false, 0
			}
			next.p = 69
			n := 0
			if s.sent < ownerSims {
				n = 1
			}
			next.sent++
			if next.sent >= ownerSims {
				next.fin = true
			}
			return next, true, next.fin, n
		}
	case "70":
		if s.p == 69 && s.fin {
			return next, true, false, 0
		}
	}
	return s, false, false, 0
}

// linearizable searches an order of the operations that the model explains.
// mayFail: an operation may also be refused because storage failed.
func linearizable(ops []*to2op, ownerSims, nSims int, mayFail bool) bool {
	if len(ops) > 126 {
		return true // too long to decide
	}
	type key struct {
		mask bits128
		s    to2model
	}
	seen := map[key]bool{}
	var dfs func(mask bits128, s to2model) bool
	dfs = func(mask bits128, s to2model) bool {
		k := key{mask, s}
		if seen[k] {
			return false
		}
		seen[k] = true
		all := true
		for i, o := range ops {
			if !mask.has(i) && o.ret != 0 {
				all = false
				_ = i
			}
		}
		if all {
			return true
		}
		for i, o := range ops {
			if mask.has(i) {
				continue
			}
			// o may come next only if no other pending operation was answered before o was sent
			blocked := false
			for j, q := range ops {
				if !mask.has(j) && q.ret != 0 && q.ret < o.inv {
					blocked = true
					break
				}
			}
			if blocked {
				continue
			}
			next, acc, done, n := s.step(o, ownerSims, nSims)
			switch {
			case o.ret == 0: // never answered: took effect, or is left out
				if acc && dfs(mask.with(i), next) {
					return true
				}
			case o.ok:
				if acc && done == o.isDone && n == o.nSims && dfs(mask.with(i), next) {
					return true
				}
			default:
				if (!acc || o.raced || mayFail) && dfs(mask.with(i), s) {
					return true
				}
			}
		}
		return false
	}
	return dfs(bits128{}, to2model{p: 61})
}

// to2track records the history of every session of a run.
type to2track struct {
	w     *World
	st    *Storage
	order int
	ops   map[string][]*to2op // by token
	open  map[*Msg]*to2op
	tok   map[*Msg]string
	kindN map[string][2]string
	next  *to2op // set by the sender right before posting
	sess  map[string]*rawSess
}

func (w *World) trackTo2(st *Storage) *to2track {
	t := &to2track{w: w, st: st, ops: map[string][]*to2op{}, open: map[*Msg]*to2op{}, tok: map[*Msg]string{}, sess: map[string]*rawSess{}}
	w.Intercept = func(m *Msg) {
		o, _ := m.From.Op.(*to2op)
		if o == nil || m.Cmd() == "60" {
			return
		}
		m.From.Op = nil
		t.begin(m, o)
	}
	w.OnDup = func(orig, dup *Msg) {
		if o := t.open[orig]; o != nil {
			c := *o
			t.open[dup] = &c
			t.tok[dup] = t.tok[orig]
			t.race(t.tok[orig], &c)
			t.ops[t.tok[orig]] = append(t.ops[t.tok[orig]], &c)
		}
	}
	prev := w.OnReply
	w.OnReply = func(m *Msg) {
		if o := t.open[m]; o != nil && m.Replied {
			t.end(m, o)
		}
		if prev != nil {
			prev(m)
		}
	}
	return t
}

// race marks every operation that overlaps o.
func (t *to2track) race(tok string, o *to2op) {
	for _, q := range t.ops[tok] {
		if q != o && (q.ret == 0 || q.ret > o.inv) {
			q.raced, o.raced = true, true
		}
	}
}

func (t *to2track) begin(m *Msg, o *to2op) {
	tok := m.Header.Get("Authorization")
	t.order++
	o.inv = t.order
	o.id = m.ID
	o.before = t.w.sessionRecord(t.st, tok)
	t.open[m], t.tok[m] = o, tok
	t.race(tok, o)
	t.ops[tok] = append(t.ops[tok], o)
}

func (t *to2track) end(m *Msg, o *to2op) {
	t.order++
	o.ret = t.order
	o.ok = m.Status == 200
	o.status = rawReply{Status: m.Status, Head: m.RespHeader, Body: m.RespBody}.String()
	tok := t.tok[m]
	s := t.sess[tok]
	w := t.w
	cmd := m.Cmd()
	if o.ok {
		if bad := badSuccessReply(cmd, m.RespHeader); bad != "" {
			w.Violate("bad-reply "+cmd, "accepted %s: %s", cmd, bad)
		}
		if strings.HasPrefix(o.kind, "68") && s != nil {
			p, err := s.open69(rawReply{Status: 200, Body: m.RespBody})
			if err != nil {
				w.Violate("reply-unreadable", "service info reply cannot be read with the session key: %v", err)
			} else {
				o.isDone, o.nSims = p.IsDone, len(p.ServiceInfo)
			}
		}
	} else if bad := badErrorReply(cmd, m.Status, m.RespHeader, m.RespBody); bad != "" {
		w.Violate("bad-error-reply "+cmd, "refused %s (%s): %s", cmd, o.kind, bad)
	}
	if !o.ok && !o.raced && s != nil && w.sessionRecord(t.st, tok) != o.before {
		w.Violate("refused-changed-session "+o.kind, "message %s was refused (%s) but changed the session", o.kind, o.status)
	}
	if s == nil && o.ok {
		w.Violate("accepted-without-session "+cmd, "message %s was accepted with token %q", cmd, tok)
	}
}

func (t *to2track) text(tok string) string {
	ops := append([]*to2op{}, t.ops[tok]...)
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].inv < ops[j].inv })
	var b []string
	for _, o := range ops {
		r := "lost"
		if o.ret != 0 {
			r = "refused"
			if o.ok {
				r = "ok"
				if o.isDone {
					r = "ok,done"
				}
			}
		}
		b = append(b, fmt.Sprintf("%s[%d-%d]=%s", o.kind, o.inv, o.ret, r))
	}
	return strings.Join(b, " ")
}

// send posts one operation of kind on s and waits for the reply.
func (t *to2track) send(s *rawSess, kind string, arg int, tok string) rawReply {
	w := t.w
	o := &to2op{kind: kind}
	all := fs.GetDeviceOSSims()
	cmd := strings.TrimRight(kind, "abcdefghijklmnopqrstuvwxyz")
	var body []byte
	switch kind {
	case "62":
		body = s.body62(arg % s.Entries)
	case "62range":
		body = s.body62(s.Entries + arg%(256-s.Entries))
	case "64":
		body = s.body64()
	case "66":
		body = s.body66()
	case "68more", "68short":
		k := arg % (len(all) + 1)
		body = s.body68(kind == "68more", all[:k])
		o.n = 1<<k - 1
	case "68":
		body = s.body68(false, all)
		o.n = 1<<len(all) - 1
	case "70":
		body = s.body70()
	case "70nonce":
		body = s.seal(mustCbor(fs.Done70{NonceTO2ProveDv: fs.NewFdoNonce()}))
	case "66clear", "68clear", "70clear":
		switch cmd {
		case "66":
			sz := uint16(1300)
			body = mustCbor(fs.DeviceServiceInfoReady66{MaxOwnerServiceInfoSz: &sz})
		case "68":
			body = mustCbor(fs.DeviceServiceInfo68{ServiceInfo: all})
		default:
			body = mustCbor(fs.Done70{NonceTO2ProveDv: s.N61})
		}
	}
	if tok == "" {
		tok = s.Token
	}
	if tok == "none" {
		tok = ""
	}
	w.task().Op = o
	r := w.rawPost(s.url, cmd, tok, body)
	w.task().Op = nil
	return r
}

// C03: hand-driven sessions send messages in any order, concurrently, twice,
// with crashes in between; each session's history must be explained by the
// protocol order, and every session can still be completed afterwards.
func scenC03(w *World) {
	st := w.NewStorage("srv")
	used := map[fs.FdoGuid]bool{}
	nDev := 1 + w.Choose("ndev", 2)
	var devs []*Dev
	cfg := &envCfg{ServiceURL: "http://owner.example:8043"}
	ownerSims := map[fs.FdoGuid]int{}
	var mapping []string
	for i := 0; i < nDev; i++ {
		d := w.distinctDevice(fmt.Sprintf("d%d", i), 4, used)
		devs = append(devs, d)
		w.storeVoucher(st, d)
		if w.Choose("ownersims", 2) == 1 {
			g := d.Guid()
			mapping = append(mapping, fmt.Sprintf("[\"%x\",\"token-%d\"]", g[:], i))
			ownerSims[g] = 2
		}
	}
	if len(mapping) > 0 {
		cfg.Interop = true
		cfg.DashURL = "http://dash"
		cfg.DOAuthz = "x"
		cfg.TokenMapping = "[" + strings.Join(mapping, ",") + "]"
	}
	owner := w.AddNode("owner", "owner", st, serve(cfg, "d"))
	w.Net.MaxDelayMS = 1 + w.Choose("net.maxdelay", 100)
	t := w.trackTo2(st)
	faults := w.Choose("faults", 3)
	storageErr := false
	if faults > 0 {
		w.Net.DropReq = 10 * w.Choose("p.dropreq", 3)
		w.Net.DropResp = 10 * w.Choose("p.dropresp", 3)
		w.Net.Dup = 100 * w.Choose("p.dup", 3)
		w.Net.LongDelay = 20 * w.Choose("p.longdelay", 2)
	}
	if faults == 2 {
		owner.Store.CrashNum, owner.Store.CrashDen = 1, 60
		if w.Choose("dberr", 2) == 1 {
			owner.Store.ErrNum, owner.Store.ErrDen, owner.Store.ErrOps = 1, 60, "get set commit"
			storageErr = true
		}
		w.autoRestart(owner)
	}
	var sessions []*rawSess
	nSess := 1 + w.Choose("nsess", 3)
	kinds := []string{"62", "62", "62range", "64", "66", "68more", "68short", "68", "70", "70nonce", "66clear", "68clear", "70clear", "notoken", "badtoken", "foreign"}
	for i := 0; i < nSess; i++ {
		i := i
		d := devs[w.Choose("sess.dev", len(devs))]
		s := w.newRawSess("http://owner", d, w.chosenOpt(d))
		w.Go(nil, fmt.Sprintf("s%d", i), func() {
			for k := 0; k < 6 && s.Token == ""; k++ {
				s.hello()
			}
			if s.Token == "" {
				return
			}
			s.body64()
			t.sess[s.Token] = s
			sessions = append(sessions, s)
			born := w.NowMS()
			walk := func(random int) {
				guess := "62"
				for k, n := 0, 3+w.Choose("nops", 9); k < n && w.NowMS()-born < 400e3; k++ {
					kind := guess
					if w.Choose("op.random", 100) < random {
						kind = kinds[w.Choose("op.kind", len(kinds))]
					}
					arg := w.Choose("op.arg", 8)
					var r rawReply
					switch kind {
					case "notoken":
						r = t.send(s, kinds[w.Choose("op.kind2", 11)], arg, "none")
					case "badtoken":
						bad := []string{"Bearer " + fs.NewFdoGuid().GetFormatted(), s.Token + "0", s.Token[:len(s.Token)-1], strings.Replace(s.Token, "Bearer ", "", 1), "Bearer ", "bearer" + s.Token[6:], s.Token + " x"}
						r = t.send(s, kinds[w.Choose("op.kind2", 11)], arg, bad[w.Choose("op.badtok", len(bad))])
					case "foreign":
						q := sessions[w.Choose("op.sess", len(sessions))]
						if q == s {
							continue
						}
						r = t.foreign(s, q, w.Choose("op.fk", 4))
					default:
						r = t.send(s, kind, arg, "")
					}
					w.Logf("s%d %s: %s", i, kind, r)
					if r.ok() {
						switch kind {
						case "62":
							guess = "64"
							if w.Choose("op.more62", 3) == 0 {
								guess = "62"
							}
						case "64":
							guess = "66"
						case "66":
							guess = []string{"68", "68more"}[w.Choose("op.68", 2)]
						case "68more":
							guess = []string{"68", "68more"}[w.Choose("op.68", 2)]
						case "68", "68short":
							if o, err := s.open69(r); err == nil && o.IsDone {
								guess = "70"
							} else {
								guess = "68"
							}
						}
					}
				}
			}
			switch w.Choose("racers", 3) {
			case 1:
				w.Go(nil, fmt.Sprintf("s%d.racer", i), func() { walk(70) })
			case 2:
				w.Go(nil, fmt.Sprintf("s%d.racer", i), func() { walk(30) })
			}
			walk([]int{0, 20, 60}[w.Choose("wild", 3)])
		})
	}
	w.Run()
	w.heal()
	owner.Store.CrashNum, owner.Store.ErrNum = 0, 0
	if !owner.up {
		w.Restart(owner)
	}
	// duplicates still under way arrive before the drive
	w.Advance(60 * time.Second)
	// every session goes on from where it is
	completed := map[string]bool{}
	for i, s := range sessions {
		i, s := i, s
		w.Go(nil, fmt.Sprintf("s%d.finish", i), func() {
			if w.sessionRecord(st, s.Token) == "" {
				return // expired meanwhile
			}
			ladder := []string{"70", "68", "66", "64", "62"}
			for k := 0; k < 24; k++ {
				progress := false
				for _, kind := range ladder {
					r := t.send(s, kind, 0, "")
					if r.ok() {
						progress = true
						if kind == "70" {
							completed[s.Token] = true
							return
						}
						break
					}
				}
				if !progress {
					w.Violate("session-stuck", "%s: no correct next message is accepted any more: %s", s.d.Desc(), t.text(s.Token))
					return
				}
			}
			w.Violate("session-not-completed", "%s: the session never completes: %s", s.d.Desc(), t.text(s.Token))
		})
	}
	w.Run()
	for _, s := range sessions {
		ops := t.ops[s.Token]
		n := ownerSims[s.d.Guid()]
		if !linearizable(ops, n, mandatoryMask(), storageErr) {
			w.Violate("out-of-order", "%s (%d owner entries): no protocol-order execution explains the accepted and refused messages: %s", s.d.Desc(), n, t.text(s.Token))
		}
		var sig []string
		for _, o := range ops {
			c := o.kind
			if o.ok {
				c += "+"
			} else if o.ret == 0 {
				c += "?"
			}
			if o.raced {
				c += "~"
			}
			sig = append(sig, c)
		}
		w.Eval("history " + strings.Join(sig, " "))
		w.CountN("session_messages", int64(len(ops)))
		if completed[s.Token] {
			w.Count("sessions_completed")
		}
	}
	if w.endErr != "" {
		w.Violate("no-progress", "the run did not end: %s", w.endErr)
	}
}

// foreign sends a message of session q under the token of s.
func (t *to2track) foreign(s, q *rawSess, k int) rawReply {
	var body []byte
	cmd := ""
	switch k {
	case 0:
		cmd, body = "64", q.body64()
	case 1:
		cmd, body = "66", q.body66()
	case 2:
		cmd, body = "68", q.body68(false, fs.GetDeviceOSSims())
	default:
		cmd, body = "70", q.body70()
	}
	t.w.task().Op = &to2op{kind: "foreign"}
	r := t.w.rawPost(s.url, cmd, s.Token, body)
	t.w.task().Op = nil
	return r
}

// mandatoryMask has a bit for every mandatory entry among the device's.
func mandatoryMask() int {
	m := 0
	for i, kv := range fs.GetDeviceOSSims() {
		for _, id := range fs.MANDATORY_SIMS {
			if kv.ServiceInfoKey == id {
				m |= 1 << i
			}
		}
	}
	return m
}

type bits128 [2]uint64

func (b bits128) has(i int) bool { return b[i/64]>>(i%64)&1 == 1 }
func (b bits128) with(i int) bits128 {
	b[i/64] |= 1 << (i % 64)
	return b
}
