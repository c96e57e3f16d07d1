package fdosim

import (
	"fmt"
	"time"

	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

func init() {
	scenarios["C04"] = scenC04
	scenarios["C05"] = scenC05
	scenarios["C06"] = scenC06
}

type rvWorld struct {
	w     *World
	url   string
	cfg   *envCfg
	st    *Storage
	srv   *Node
	mon   *rvMonitor
	devs  []*Dev
	mode  int // 0 in order, 1 overlapping, 2 overlapping with faults
	regd  map[*Dev]bool
	taken map[*Dev][][]byte // accepted bodies
	proof map[*Dev][][]byte
}

func (w *World) newRvWorld(nDev int) *rvWorld {
	v := &rvWorld{w: w, url: "http://rv", cfg: &envCfg{ServiceURL: "http://owner.example:8043"}, regd: map[*Dev]bool{}, taken: map[*Dev][][]byte{}, proof: map[*Dev][][]byte{}}
	v.st = w.NewStorage("rvstore")
	used := map[fs.FdoGuid]bool{}
	for i := 0; i < nDev; i++ {
		v.devs = append(v.devs, w.distinctDevice(fmt.Sprintf("d%d", i), 5, used))
	}
	v.srv = w.AddNode("rv", "rv", v.st, serve(v.cfg, []string{"r", "dra"}[w.Choose("svc", 2)]))
	w.Net.MaxDelayMS = 1 + w.Choose("net.maxdelay", 50)
	v.mon = w.monitorRv("rv")
	return v
}

func (v *rvWorld) faults() {
	w := v.w
	w.drawNetFaults(80)
	v.srv.Store.CrashNum, v.srv.Store.CrashDen = w.Choose("crash", 2), 60
	v.srv.Store.ErrNum, v.srv.Store.ErrDen, v.srv.Store.ErrOps = w.Choose("dberr", 3), 40, "get set commit"
	w.autoRestart(v.srv)
	v.mon.judge30 = false
}

func (v *rvWorld) calm() {
	w := v.w
	w.heal()
	v.srv.Store.CrashNum, v.srv.Store.ErrNum = 0, 0
	w.Advance(time.Duration(1+w.Choose("settle", 60)) * time.Second)
	if !v.srv.up {
		w.Restart(v.srv)
	}
}

// good registers d, which must be accepted unless faults are about.
func (v *rvWorld) good(d *Dev, wait uint32) {
	w := v.w
	s, r := w.hello20(v.url)
	if !r.ok() {
		if v.mode != 2 {
			w.Violate("hello-refused", "fault-free registration hello failed: %s", r)
		}
		return
	}
	body := w.ownerSign(d, s.Nonce, regOpt{Wait: wait})
	if _, p := refOwnerSign(body, s.Nonce[:]); p != "" {
		panic("harness: own registration is bad: " + p)
	}
	if v.mode == 0 && w.Choose("good.fault", 5) == 4 {
		// its disk fails just now: refused, and as if it had never been sent
		op := []string{"set", "commit", "get"}[w.Choose("good.fault.op", 3)]
		n := 1 + w.Choose("good.fault.n", 2)
		v.srv.Store.FailNext[op] = n
		r = w.rawPost(v.url, "22", s.Token, body)
		used := n - v.srv.Store.FailNext[op]
		delete(v.srv.Store.FailNext, op)
		w.Count("fault.disk " + op)
		w.Logf("disk fault on %s (%d used) during a registration: %s", op, used, r)
		w.Eval(fmt.Sprintf("disk %s fails, registered before %v", op, v.regd[d]))
		if r.ok() {
			v.taken[d] = append(v.taken[d], body)
			v.regd[d] = true
		}
		if w.Choose("good.fault.look", 4) > 0 {
			v.look(d)
			return
		}
		body = w.ownerSign(d, s.Nonce, regOpt{Wait: wait})
	}
	r = w.rawPost(v.url, "22", s.Token, body)
	if r.ok() {
		v.taken[d] = append(v.taken[d], body)
		v.regd[d] = true
		if bad := badSuccessReply("22", r.Head); bad != "" {
			w.Violate("bad-reply 22", "%s", bad)
		}
		w.Eval(fmt.Sprintf("registered %s chain%d", sgName(d.OwnerSg), d.Chain))
	} else if v.mode != 2 {
		w.Violate("registration-refused", "%s: a correct registration was refused: %s", d.Desc(), r)
	}
}

// bad tries one registration that is not in order.
func (v *rvWorld) bad(d, other *Dev) {
	w := v.w
	s, r := w.hello20(v.url)
	s2, r2 := w.hello20(v.url)
	if !r.ok() || !r2.ok() {
		if v.mode != 2 {
			w.Violate("hello-refused", "fault-free registration hello failed: %s %s", r, r2)
		}
		return
	}
	kind, body := w.badRegistration(d, other, s, s2.Nonce, v.taken[d])
	ref, problem := refOwnerSign(body, s.Nonce[:])
	tok := s.Token
	if w.Choose("bad.token", 12) == 11 {
		// a correct body, without a session that it belongs to
		kind, problem = "no-session", "no session"
		tok = []string{"", s2.Token, "Bearer 00000000-0000-4000-8000-000000000000", s.Token + "0", "Bearer"}[w.Choose("bad.token.form", 5)]
		body = w.ownerSign(d, s.Nonce, regOpt{Wait: 1000})
	}
	r = w.rawPost(v.url, "22", tok, body)
	w.Count("lie." + firstField(kind))
	if problem == "" {
		w.Count("lies_without_effect")
		if r.ok() {
			for _, x := range v.devs { // it may name another device
				if x.Guid() == ref.Guid {
					v.regd[x] = true
				}
			}
		}
		return
	}
	w.Logf("lie %s (%s): %s", kind, problem, r)
	w.Eval(fmt.Sprintf("%s | %s | %s", firstField(kind), problem, sgName(d.OwnerSg)))
	if v.mode == 2 && r.Err != nil {
		return
	}
	if v.mode == 2 && r.Status == 200 { // the reply may be altered; the monitor judges
		return
	}
	if v.mode == 2 {
		return
	}
	w.checkRefusal("22", kind+" ("+problem+")", r)
	if w.Choose("bad.then", 3) == 2 {
		// the refused message left the session as it was
		body := w.ownerSign(d, s.Nonce, regOpt{Wait: 1000})
		if r := w.rawPost(v.url, "22", s.Token, body); !r.ok() {
			w.Violate("registration-refused", "%s: after a refused one (%s) a correct registration of the same session was refused: %s", d.Desc(), kind, r)
		} else {
			v.taken[d] = append(v.taken[d], body)
			v.regd[d] = true
		}
	}
}

// look runs a correct lookup.
func (v *rvWorld) look(d *Dev) {
	w := v.w
	real := w.Choose("look.real", 3) == 2
	if real {
		r := RunTo1(v.url, d)
		if v.mode != 2 && (r.Err == nil) != v.regd[d] && v.mode == 0 {
			w.Violate("lookup-result", "%s: registered=%v, the device's lookup says: %v", d.Desc(), v.regd[d], r.Err)
		}
		if pe, ok := r.Err.(PanicError); ok {
			w.Violate("client-crash "+pe.Site, "%v", pe)
		}
		w.Eval("lookup real " + sgName(d.DevSg))
		return
	}
	s, r := w.hello30(v.url, d.Guid(), d.Cred.DCSigInfo)
	if !r.ok() {
		if v.mode == 0 && v.regd[d] {
			w.Violate("lookup-refused", "%s: the lookup of a registered device was refused: %s", d.Desc(), r)
		} else if v.mode == 0 {
			w.checkRefusal("30", "device is not registered", r)
		}
		return
	}
	if v.mode == 0 && !v.regd[d] {
		w.Violate("lookup-of-unregistered", "%s: a lookup of a device that was never registered was answered", d.Desc())
	}
	body := w.proof32(d, s.Nonce, nil, 0)
	r = w.rawPost(v.url, "32", s.Token, body)
	w.Eval("lookup " + sgName(d.DevSg))
	if r.ok() {
		v.proof[d] = append(v.proof[d], body)
		if bad := badSuccessReply("32", r.Head); bad != "" {
			w.Violate("bad-reply 32", "%s", bad)
		}
	} else if v.mode == 0 {
		w.Violate("lookup-refused", "%s: a correct proof was refused: %s", d.Desc(), r)
	}
}

// lookBad runs a lookup with one lie.
func (v *rvWorld) lookBad(d, other *Dev) {
	w := v.w
	sig := d.Cred.DCSigInfo
	guid := d.Guid()
	lie := w.Choose("look.lie", 10)
	switch lie {
	case 8:
		guid = fs.NewFdoGuid()
	case 9:
		sig.SgType = fs.SgType([]int{0, 1, 99, -1, int(fs.StSECP256R1), int(fs.StSECP384R1), int(fs.StRSA2048)}[w.Choose("look.sg", 7)])
	}
	s, r := w.hello30(v.url, guid, sig)
	if !r.ok() {
		if v.mode != 2 && (lie >= 8 || v.mode == 0 && !v.regd[d]) {
			w.checkRefusal("30", "unknown device or signature type", r)
			w.Eval(fmt.Sprintf("hello lie %d %d", lie, sig.SgType))
		}
		return
	}
	if lie == 8 {
		w.Violate("lookup-of-unknown", "a lookup of an unknown device was answered")
		return
	}
	if lie == 9 {
		r := w.rawPost(v.url, "32", s.Token, w.proof32(d, s.Nonce, nil, 0))
		if v.mode != 2 && !r.ok() {
			w.checkRefusal("32", "wrong signature type", r)
		}
		w.Eval(fmt.Sprintf("signature type lie %d %d", d.DevSg, sig.SgType))
		return
	}
	s2, r2 := w.hello30(v.url, []fs.FdoGuid{d.Guid(), other.Guid()}[w.Choose("look.other", 2)], d.Cred.DCSigInfo)
	n2 := fs.NewFdoNonce()
	tok := s.Token
	if r2.ok() {
		n2 = s2.Nonce
	}
	kind, body := w.badProof(d, other, s, n2, v.proof[d])
	if lie == 7 {
		kind, body = "token", w.proof32(d, s.Nonce, nil, 0)
		toks := []string{"", "Bearer", "Bearer 00000000-0000-4000-8000-000000000000", s.Token + "x", s.Token[7:]}
		if r2.ok() {
			toks = append(toks, s2.Token)
		}
		tok = toks[w.Choose("look.tok", len(toks))]
	}
	r = w.rawPost(v.url, "32", tok, body)
	w.Logf("lookup lie %s: %s", kind, r)
	w.Count("lie." + firstField(kind))
	w.Eval(fmt.Sprintf("lookup lie %s %s", firstField(kind), sgName(d.DevSg)))
	if v.mode != 2 && kind != "altered" && !(kind == "other-device" && other.Guid() == d.Guid()) {
		var c fs.CoseSignature
		var eat fs.EATPayloadBase
		if fs.CborCust.Unmarshal(body, &c) == nil && fs.CborCust.Unmarshal(c.Payload, &eat) == nil && eat.EatNonce.Equals(s.Nonce) && refVerifyKey(c, d.certKey()) && tok == s.Token {
			return // the lie changed nothing
		}
		w.checkRefusal("32", kind, r)
	}
	if v.mode == 0 && w.Choose("look.then", 3) == 2 {
		body := w.proof32(d, s.Nonce, nil, 0)
		if r := w.rawPost(v.url, "32", s.Token, body); !r.ok() {
			w.Violate("lookup-refused", "%s: after a refused proof (%s) the correct one of the same session was refused: %s", d.Desc(), kind, r)
		}
	}
}

func (v *rvWorld) script(name string, weights [4]int, n int) {
	w := v.w
	w.Go(nil, name, func() {
		for k := 0; k < n; k++ {
			d := v.devs[w.Choose("dev", len(v.devs))]
			o := v.devs[(1+w.Choose("other", len(v.devs)-1)+indexOf(v.devs, d))%len(v.devs)]
			x := w.Choose("op", weights[0]+weights[1]+weights[2]+weights[3])
			switch {
			case x < weights[0]:
				v.good(d, uint32(600+w.Choose("wait", 100000)))
			case x < weights[0]+weights[1]:
				v.look(d)
			case x < weights[0]+weights[1]+weights[2]:
				v.bad(d, o)
			default:
				v.lookBad(d, o)
			}
			if v.mode != 2 && w.Choose("restart", 12) == 11 && v.mode == 0 {
				w.Crash(v.srv)
				w.Restart(v.srv)
			}
		}
	})
}

func indexOf(ds []*Dev, d *Dev) int {
	for i, x := range ds {
		if x == d {
			return i
		}
	}
	return 0
}

func (v *rvWorld) finish() {
	w := v.w
	if v.mode == 2 {
		v.calm()
	}
	v.mode = 1
	w.Go(nil, "final", func() {
		for _, d := range v.devs {
			v.look(d)
			v.good(d, 5000)
			v.look(d)
		}
	})
	w.Run()
	v.mon.check()
	if w.endErr != "" {
		w.Violate("no-progress", "fault-free registration did not end: %s", w.endErr)
	}
}

// C04: registrations in order and not in order, from several owners at once.
func scenC04(w *World) {
	v := w.newRvWorld(2 + w.Choose("ndev", 2))
	v.mode = w.Choose("mode", 3)
	if v.mode == 2 {
		v.faults()
	}
	tasks := 1
	if v.mode > 0 {
		tasks = 2 + w.Choose("tasks", 2)
	}
	if v.mode == 0 && w.Choose("seed", 2) == 0 {
		v.good2(v.devs[0])
	}
	for i := 0; i < tasks; i++ {
		v.script(fmt.Sprintf("t%d", i), [4]int{2, 2, 5, 0}, 3+w.Choose("ops", 5))
	}
	w.Run()
	v.finish()
}

func (v *rvWorld) good2(d *Dev) {
	v.w.Go(nil, "first", func() { v.good(d, 5000) })
	v.w.Run()
}

// C05: lookups while owners register, with a second device of the same identity.
func scenC05(w *World) {
	v := w.newRvWorld(2 + w.Choose("ndev", 2))
	if w.Choose("twin", 3) == 2 {
		t := cloneCred(pool.Creds[w.Choose("twin.cred", len(pool.Creds))])
		t.DCGuid = v.devs[0].Guid()
		sg := ownerSgs[w.Choose("twin.sg", len(ownerSgs))]
		v.devs = append(v.devs, w.BuildDevice("twin", t, []fs.SgType{sg, sg}))
		w.Count("twin")
	}
	v.mode = w.Choose("mode", 3)
	twin := len(v.devs) > 2 && v.devs[len(v.devs)-1].Name == "twin"
	if twin && v.mode == 0 {
		v.mode = 1
	}
	if v.mode == 2 {
		v.faults()
	}
	tasks := 1
	if v.mode > 0 {
		tasks = 2 + w.Choose("tasks", 3)
	} else {
		v.good2(v.devs[0])
	}
	for i := 0; i < tasks; i++ {
		v.script(fmt.Sprintf("t%d", i), [4]int{3, 5, 1, 4}, 3+w.Choose("ops", 4))
	}
	w.Run()
	if twin {
		if v.mode == 2 {
			v.calm()
		}
		v.mon.check()
		return
	}
	v.finish()
}

// C06: lifetimes. Registrations with every kind of requested time, lookups at
// moments around the end of the granted time, restarts and renewals.
func scenC06(w *World) {
	v := w.newRvWorld(2)
	type life struct {
		from, to int64 // when it was accepted, ms
		wait     int64 // granted, s
		blob     string
	}
	cur := map[*Dev]*life{}
	waits := func() uint32 {
		switch w.Choose("wait.kind", 8) {
		case 0:
			return uint32(2 + w.Choose("wait.s", 600))
		case 1:
			return uint32(600 + w.Choose("wait.s", 86400))
		case 2:
			return uint32(maxWait - 1 + w.Choose("wait.near", 3))
		case 3:
			return 4294967295 - uint32(w.Choose("wait.huge", 3))
		case 4:
			return uint32(w.Choose("wait.tiny", 3))
		case 5:
			return uint32(maxWait * (1 + w.Choose("wait.mul", 20)))
		case 6:
			return 1 << uint(w.Choose("wait.bit", 32))
		}
		return uint32(maxWait - w.Choose("wait.below", maxWait))
	}
	// expected: 1 alive, 0 gone, -1 either (within the second of the end)
	state := func(l *life, from, to int64) int {
		if l == nil || from >= l.to+l.wait*1000 {
			return 0
		}
		if to <= l.from+l.wait*1000-1000 {
			return 1
		}
		return -1
	}
	step := func(d *Dev) {
		switch w.Choose("op", 4) {
		case 0, 1: // register
			if w.Choose("reg.real", 6) == 5 {
				t0 := w.NowMS()
				r := RunTo0(*v.cfg, v.url, d)
				if r.Err != nil {
					w.Violate("registration-refused", "%s: %v", d.Desc(), r.Err)
					return
				}
				if r.Wait != maxWait {
					w.Violate("granted-wait", "the owner's client asks for 30 days and is told %d s", r.Wait)
				}
				cur[d] = &life{t0, w.NowMS(), maxWait, ""}
				return
			}
			wait := waits()
			t0 := w.NowMS()
			r, blob := w.register(v.url, d, regOpt{Wait: wait})
			if !r.ok() {
				w.Violate("registration-refused", "%s, wait %d: a correct registration was refused: %s", d.Desc(), wait, r)
				return
			}
			g := int64(wait)
			if g > maxWait {
				g = maxWait
			}
			old := cur[d]
			cur[d] = &life{t0, w.NowMS(), g, blob}
			rel := "first"
			if old != nil {
				rel = "renewal"
				if old.wait > g {
					rel = "shorter"
				}
			}
			w.Eval(fmt.Sprintf("granted %d %s", bitLen(wait), rel))
		case 2: // a refused registration changes nothing
			s, r := w.hello20(v.url)
			if r.ok() {
				_, body := w.badRegistration(d, v.devs[1-indexOf(v.devs, d)], s, s.Nonce, nil)
				if _, p := refOwnerSign(body, s.Nonce[:]); p != "" {
					w.rawPost(v.url, "22", s.Token, body)
				}
			}
		case 3:
			if w.Choose("crash", 2) == 1 {
				w.Crash(v.srv)
				w.Restart(v.srv)
				w.Count("fault.restart")
			}
		}
	}
	look := func(d *Dev, where string) {
		l := cur[d]
		t0 := w.NowMS()
		s, r := w.hello30(v.url, d.Guid(), d.Cred.DCSigInfo)
		st := state(l, t0, w.NowMS())
		w.Eval("lookup " + where + fmt.Sprint(st))
		age := int64(0)
		if l != nil {
			age = w.NowMS() - l.to
		}
		switch {
		case st == 1 && !r.ok():
			w.Violate("gone-early", "%s: registered for %d s, refused after %d ms: %s", d.Desc(), l.wait, age, r)
			return
		case st == 0 && r.ok():
			w.Violate("alive-after-end", "%s: the lookup was answered %d ms after it was registered (granted: %v)", d.Desc(), age, l)
			return
		case st == 0:
			w.checkRefusal("30", "no registration is alive", r)
			return
		}
		if !r.ok() {
			return
		}
		if w.Choose("look.wait", 3) == 2 && l != nil {
			// the registration may end between the two messages
			left := l.to + l.wait*1000 - w.NowMS()
			if left > 0 && left < 550_000 {
				w.Sleep(time.Duration(left+int64(w.Choose("look.past", 1500))-500) * time.Millisecond)
			}
		}
		t1 := w.NowMS()
		r = w.rawPost(v.url, "32", s.Token, w.proof32(d, s.Nonce, nil, 0))
		st = state(l, t1, w.NowMS())
		switch {
		case st == 1 && !r.ok():
			w.Violate("gone-early", "%s: registered for %d s, proof refused after %d ms: %s", d.Desc(), l.wait, w.NowMS()-l.to, r)
		case st == 0 && r.ok():
			w.Violate("alive-after-end", "%s: the blob was released %d ms after it was registered for %d s", d.Desc(), w.NowMS()-l.to, l.wait)
		case st == 0:
			w.checkRefusal("32", "the registration has ended", r)
		case r.ok() && l.blob != "" && string(r.Body) != l.blob:
			w.Violate("lookup-not-latest", "%s: the lookup did not return the latest registration", d.Desc())
		}
	}
	n := 3 + w.Choose("rounds", 6)
	for k := 0; k < n; k++ {
		d := v.devs[w.Choose("dev", 2)]
		w.Go(nil, "op", func() {
			step(d)
			look(d, "now")
		})
		w.Run()
		// move towards the end of some registration
		var l *life
		e := v.devs[w.Choose("dev2", 2)]
		l = cur[e]
		var adv int64
		switch w.Choose("advance", 6) {
		case 0:
			adv = int64(w.Choose("adv.ms", 5000))
		case 1:
			adv = int64(w.Choose("adv.s", 86400)) * 1000
		default:
			if l != nil {
				adv = l.to + l.wait*1000 - w.NowMS() + []int64{-1200, -1050, -2000, 5, 500, 1500, 60000, -60000, -600000}[w.Choose("adv.near", 9)]
			}
		}
		if adv > 0 {
			w.Advance(time.Duration(adv) * time.Millisecond)
			w.CountN("advanced_s", adv/1000)
		}
		if w.Choose("crash2", 6) == 5 {
			w.Crash(v.srv)
			w.Restart(v.srv)
			w.Count("fault.restart")
		}
		w.Go(nil, "look", func() {
			for _, x := range v.devs {
				look(x, "later")
			}
		})
		w.Run()
	}
	if w.endErr != "" {
		w.Violate("no-progress", "%s", w.endErr)
	}
}

func bitLen(x uint32) int {
	n := 0
	for ; x > 0; x >>= 1 {
		n++
	}
	return n
}
