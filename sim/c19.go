package fdosim

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"sort"
	"strings"
	"time"

	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	tdbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/dbs"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/listener"
)

func init() { scenarios["C19"] = scenC19 }

// iopMonitor compares what arrives at the dashboard with what the protocols did.
type iopMonitor struct {
	w         *World
	dashHost  string
	dashPath  string
	on        map[string]bool   // server host -> reports
	authz     map[string]string // server host -> its credential
	sess      map[string]*iopSess
	expect    map[string]int // event -> how many times at least
	slack     map[string]int // event -> how many more may have been sent
	why       map[string]string
	got       map[string]int
	gotWhat   map[string]string
	listeners map[fs.FdoGuid]*iopListener
	last70    map[fs.FdoGuid]fs.FdoNonce // nonce of the last accepted transfer
}

type iopSess struct {
	guid  fs.FdoGuid
	nonce fs.FdoNonce
	known bool
}

type iopListener struct {
	st   *Storage
	uuid []byte
}

func eventKey(authz string, guid fs.FdoGuid, proto uint64, nonce []byte) string {
	return fmt.Sprintf("TO%d guid %x nonce %x credential %q", proto, guid[:], nonce, authz)
}

func (w *World) monitorIop() *iopMonitor {
	mon := &iopMonitor{w: w, on: map[string]bool{}, authz: map[string]string{}, sess: map[string]*iopSess{}, expect: map[string]int{},
		slack: map[string]int{}, why: map[string]string{}, got: map[string]int{}, gotWhat: map[string]string{}, listeners: map[fs.FdoGuid]*iopListener{}, last70: map[fs.FdoGuid]fs.FdoNonce{}}
	w.OnMsg = func(m *Msg) {
		if m.Host == mon.dashHost && mon.dashHost != "" {
			mon.event(m)
		}
	}
	w.OnReply = mon.reply
	return mon
}

// event judges the form of one report and counts it.
func (mon *iopMonitor) event(m *Msg) {
	w := mon.w
	w.Count("iop.reports")
	if m.Method != "POST" || m.Path != mon.dashPath || m.Header.Get("Content-Type") != "application/cbor" {
		w.Violate("event-form", "%s sent %s %s with content type %q to the dashboard", m.FromName, m.Method, m.Path, m.Header.Get("Content-Type"))
	}
	n, rest, ok := parseCbor(m.Body)
	if !ok || len(rest) != 0 || n.major != 4 || len(n.kids) != 3 || n.kids[0].major != 2 || len(n.kids[0].data) != 16 || n.kids[1].major != 0 || n.kids[2].major != 2 || len(n.kids[2].data) != 16 {
		w.Violate("event-form", "%s sent the dashboard %s", m.FromName, hx(m.Body))
		return
	}
	var g fs.FdoGuid
	copy(g[:], n.kids[0].data)
	k := eventKey(m.Header.Get("Authorization"), g, n.kids[1].val, n.kids[2].data)
	mon.got[k]++
	mon.gotWhat[k] = m.FromName
}

// inTest tells whether a conformance run of the device is going on at the server.
func (mon *iopMonitor) inTest(g fs.FdoGuid, to int) bool {
	l := mon.listeners[g]
	if l == nil {
		return false
	}
	var inst listener.RequestListenerInst
	rec, ok := l.st.Dump()["lstdb-"+string(l.uuid)]
	if !ok || fs.CborCust.Unmarshal([]byte(rec), &inst) != nil {
		return false
	}
	if to == 1 {
		return inst.To1.Running
	}
	return inst.To2.Running
}

func (mon *iopMonitor) due(k, why string) {
	mon.expect[k]++
	mon.why[k] = why
}

func (mon *iopMonitor) reply(m *Msg) {
	w := mon.w
	if m.Host == mon.dashHost && mon.dashHost != "" {
		return
	}
	if m.Panic != "" {
		w.Violate("server-panic "+m.Cmd(), "%s: %s", m.Host, m.Panic)
		return
	}
	ok := m.Status == 200
	cmd := m.Cmd()
	if ok && m.RespHeader.Get("Message-Type") != nextCmd(cmd) {
		ok = false // an error reported with status 200
	}
	tok := m.Header.Get("Authorization")
	key := m.Host + "|" + tok
	at := fmt.Sprintf("%s accepted message %s at %d ms", m.Host, cmd, w.NowMS())
	switch cmd {
	case "20", "30", "60":
		if !ok {
			return
		}
		s := &iopSess{}
		mon.sess[m.Host+"|"+m.RespHeader.Get("Authorization")] = s
		body := m.RespBody
		if cmd == "60" {
			var h fs.HelloDevice60
			if fs.CborCust.Unmarshal(m.Body, &h) == nil {
				s.guid = h.Guid
			}
			return
		}
		if cmd == "30" {
			var h fs.HelloRV30
			if fs.CborCust.Unmarshal(m.Body, &h) == nil {
				s.guid = h.Guid
			}
		}
		if n, _, good := parseCbor(body); good && n.at(0) != nil && len(n.at(0).data) == 16 {
			copy(s.nonce[:], n.at(0).data)
			s.known = true
		}
	case "64":
		if s := mon.sess[key]; s != nil && ok {
			var c fs.CoseSignature
			if fs.CborCust.Unmarshal(m.Body, &c) == nil && c.Unprotected.EUPHNonce != nil {
				s.nonce, s.known = *c.Unprotected.EUPHNonce, true
			}
		}
	case "22", "32", "70":
		s := mon.sess[key]
		if cmd == "70" && ok && s != nil {
			mon.last70[s.guid] = s.nonce
		}
		if !ok || s == nil || !s.known || !mon.on[m.Host] {
			return
		}
		proto, g := uint64(0), s.guid
		switch cmd {
		case "22":
			var o fs.OwnerSign22
			var t fs.To0d
			if fs.CborCust.Unmarshal(m.Body, &o) != nil || fs.CborCust.Unmarshal(o.To0d, &t) != nil {
				w.Violate("accepted-unreadable", "%s", at)
				return
			}
			h, err := t.OwnershipVoucher.GetOVHeader()
			if err != nil {
				w.Violate("accepted-unreadable", "%s: %v", at, err)
				return
			}
			g = h.OVGuid
		case "32":
			proto = 1
		case "70":
			proto = 2
		}
		if m.RespHeader.Get("X-Sim-Test") == "1" {
			w.Count("iop.accepted_in_test")
			return
		}
		mon.due(eventKey(mon.authz[m.Host], g, proto, s.nonce[:]), at)
	}
}

// abandoned notes a final message whose handling a crash cut off: its report may be out already.
func (mon *iopMonitor) abandoned(host, tok string) {
	s := mon.sess[host+"|"+tok]
	if s == nil || !s.known || !mon.on[host] {
		return
	}
	mon.slack[fmt.Sprintf("nonce %x credential %q", s.nonce[:], mon.authz[host])]++
}

func (mon *iopMonitor) check() {
	w := mon.w
	var keys []string
	for k := range mon.expect {
		keys = append(keys, k)
	}
	for k := range mon.got {
		if mon.expect[k] == 0 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		e, g, s := mon.expect[k], mon.got[k], mon.slack[k[strings.Index(k, "nonce "):]]
		switch {
		case g < e:
			w.Violate("event-missing", "%s: %d reported, %d due (%s)", k, g, e, mon.why[k])
		case e == 0 && g > s:
			w.Violate("event-without-success", "%s was reported %d times by %s, although nothing like it succeeded", k, g, mon.gotWhat[k])
		case g > e+s:
			w.Violate("event-repeated", "%s was reported %d times, %d were due", k, g, e)
		default:
			w.CountN("iop.events_matched", int64(e))
		}
	}
}

// dashboard is the event collector: a stub that behaves as the run says.
func (w *World) dashboard(mode int) func(n *Node) http.Handler {
	return func(n *Node) http.Handler {
		return http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			k := mode
			if k < 0 {
				k = w.Choose("dash.kind", 9)
			}
			w.Count(fmt.Sprintf("dash.kind_%d", k))
			switch k {
			case 0, 1:
				rw.WriteHeader(200)
			case 2: // slow
				w.Sleep(time.Duration(1+w.Choose("dash.slow", 25)) * time.Second)
				rw.WriteHeader(200)
			case 3: // hangs
				w.Sleep(10 * time.Minute)
			case 4:
				rw.WriteHeader([]int{400, 401, 403, 404, 429, 500, 502, 503, 204, 302, 418}[w.Choose("dash.status", 11)])
			case 5: // an FDO error
				rw.WriteHeader([]int{500, 200, 401}[w.Choose("dash.status", 3)])
				rw.Write(mustCbor([]interface{}{100, 22, "no such credential", 1, 2}))
			case 6:
				rw.WriteHeader([]int{200, 500}[w.Choose("dash.status", 2)])
				rw.Write(fs.NewRandomBuffer(w.Choose("dash.len", 400)))
			case 7:
				panic("dashboard gives up")
			case 8: // sends part of a reply and stalls
				rw.Header().Set("X-Sim-Stall", "1")
				rw.WriteHeader([]int{200, 500}[w.Choose("dash.status", 2)])
				rw.Write(fs.NewRandomBuffer(40))
			}
		})
	}
}

// testMark wraps a server: it notes in its replies whether the device concerned was
// under test when the message came in. The mark never reaches the client.
func (mon *iopMonitor) testMark(host string, start func(n *Node) http.Handler) func(n *Node) http.Handler {
	return func(n *Node) http.Handler {
		h := start(n)
		return http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			tok := r.Header.Get("Authorization")
			if s := mon.sess[host+"|"+tok]; s != nil {
				to := 2
				if strings.HasSuffix(r.URL.Path, "/32") {
					to = 1
				}
				if mon.inTest(s.guid, to) {
					rw.Header().Set("X-Sim-Test", "1")
				}
			}
			done := false
			defer func() {
				if !done && (strings.HasSuffix(r.URL.Path, "/22") || strings.HasSuffix(r.URL.Path, "/32") || strings.HasSuffix(r.URL.Path, "/70")) {
					mon.abandoned(host, tok)
				}
			}()
			h.ServeHTTP(rw, r)
			done = true
		})
	}
}

func scenC19(w *World) {
	mon := w.monitorIop()
	mode := w.Choose("mode", 4) // 0, 1: only the dashboard is at fault; 2: network and crashes; 3: conformance runs
	on := w.Choose("interop", 6) != 0
	rvTok, doTok := "Bearer rv-"+hex.EncodeToString(fs.NewRandomBuffer(4)), "Bearer do-"+hex.EncodeToString(fs.NewRandomBuffer(4))
	if w.Choose("authz.odd", 8) == 7 {
		rvTok = ""
	}
	prefix := []string{"", "/", "/base", "/a/b/"}[w.Choose("dash.prefix", 4)]
	mon.dashHost = "dash"
	mon.dashPath = strings.TrimRight(prefix, "/") + "/logger/101/msg"
	dashURL := "http://dash" + prefix
	badURL := false
	if w.Choose("dash.badurl", 12) == 11 {
		dashURL = []string{"http://[dash", "dash", "://", "http://nowhere"}[w.Choose("dash.badurl.kind", 4)]
		badURL = true
	}
	dmode := w.Choose("dash.mode", 12) - 3 // -3..-1: changes from report to report

	n := 1 + w.Choose("devices", 3)
	used := map[fs.FdoGuid]bool{}
	var devs []*Dev
	var mapping [][]string
	tokens := map[fs.FdoGuid]string{}
	for i := 0; i < n; i++ {
		d := w.distinctDevice(fmt.Sprintf("dev%d", i), 3, used)
		devs = append(devs, d)
		if w.Choose("mapped", 3) != 0 {
			t := "device token " + hex.EncodeToString(fs.NewRandomBuffer(5))
			g := d.Guid()
			mapping = append(mapping, []string{hex.EncodeToString(g[:]), t})
			tokens[d.Guid()] = t
		}
	}
	mj, _ := json.Marshal(mapping)
	if len(mapping) == 0 {
		mj = []byte("[]")
	}
	base := envCfg{Interop: on, DashURL: dashURL, RVAuthz: rvTok, DOAuthz: doTok, TokenMapping: string(mj)}
	if !on && w.Choose("off.noconf", 2) == 0 {
		base.DashURL, base.RVAuthz, base.DOAuthz, base.TokenMapping = "", "", "", ""
	}
	part := func(l string) bool { return on && w.Choose(l, 6) != 0 }
	rvCfg, doCfg, cliCfg := base, base, base
	rvCfg.Interop, doCfg.Interop = part("rv.reports"), part("do.reports")
	cliOn := part("cli.reports")
	ownerOn := part("owner.reports")
	cliCfg.Interop = ownerOn
	w.NewStorage("dash")
	dash := w.AddNode("dash", "dash", nil, w.dashboard(max(dmode, -1)))
	_ = dash
	rvs, dos := w.NewStorage("rv"), w.NewStorage("do")
	rv := w.AddNode("rv", "rv", rvs, mon.testMark("rv", serve(&rvCfg, "r")))
	do := w.AddNode("do", "do", dos, mon.testMark("do", serve(&doCfg, "d")))
	mon.on["rv"], mon.on["do"] = rvCfg.Interop && !badURL, doCfg.Interop && !badURL
	mon.authz["rv"], mon.authz["do"] = rvTok, doTok
	for _, d := range devs {
		w.storeVoucher(dos, d)
	}
	if w.Choose("dash.down", 4) == 3 {
		w.Net.Down = map[string]bool{"dash": true}
		w.Count("dash.down")
		if w.Choose("dash.back", 2) == 1 {
			w.At(time.Duration(w.Choose("dash.back.at", 4000))*time.Millisecond, "dashboard back", func() { delete(w.Net.Down, "dash") })
		}
	}
	env := map[string]string{"INTEROP_DASHBOARD_URL": "", "INTEROP_DASHBOARD_RV_AUTHZ": "x", "INTEROP_DASHBOARD_DO_AUTHZ": "y", "INTEROP_DO_TOKEN_MAPPING": "[]", "FDO_SERVICE_URL": "http://do"}
	if cliOn {
		env["INTEROP_DASHBOARD_URL"] = dashURL
	}
	for k, v := range env {
		os.Setenv(k, v)
	}
	defer func() {
		for k := range env {
			os.Unsetenv(k)
		}
	}()
	faulty := false
	var shape []string
	say := func(f string, a ...interface{}) { shape = append(shape, fmt.Sprintf(f, a...)) }

	to0 := func(d *Dev) bool {
		t0 := w.NowMS()
		r := RunTo0(cliCfg, "http://rv", d)
		if p, ok := r.Err.(PanicError); ok {
			w.Violate("client-panic "+p.Site, "%v", p)
		}
		if r.Err != nil {
			if !faulty {
				w.Violate("outcome-changed TO0", "%s: registration failed with only the dashboard at fault (after %d ms): %v", d.Desc(), w.NowMS()-t0, r.Err)
			}
			say("to0 failed")
			return false
		}
		if ownerOn && !badURL {
			mon.due(eventKey(doTok, d.Guid(), 0, r.Nonce[:]), "the owner's registration of "+d.Desc())
		}
		say("to0")
		return true
	}
	to1 := func(d *Dev) bool {
		t0 := w.NowMS()
		r := RunTo1("http://rv", d)
		if p, ok := r.Err.(PanicError); ok {
			w.Violate("client-panic "+p.Site, "%v", p)
		}
		if r.Err != nil {
			if !faulty && !mon.inTest(d.Guid(), 1) {
				w.Violate("outcome-changed TO1", "%s: lookup failed with only the dashboard at fault (after %d ms): %v", d.Desc(), w.NowMS()-t0, r.Err)
			}
			say("to1 failed")
			return false
		}
		say("to1")
		return true
	}
	to2 := func(d *Dev) bool {
		t0 := w.NowMS()
		test := mon.inTest(d.Guid(), 2)
		if d.OwnerSg == fs.StSECP256R1 && w.Choose("to2.cli", 3) == 0 && !test {
			c := w.RunCLI("iop", "to2", "http://do", w.writeCred(d.Name, d.Cred))
			if c.Panic != "" {
				w.Violate("cli-panic "+c.Site, "%s", c.Panic)
			}
			if !c.Said("Success To2") {
				if !faulty {
					w.Violate("outcome-changed TO2", "%s: command line transfer failed with only the dashboard at fault (after %d ms):\n%s", d.Desc(), w.NowMS()-t0, c.Out)
				}
				say("cli failed")
				return false
			}
			say("cli")
			if t, ok := tokens[d.Guid()]; ok && cliOn && doCfg.Interop && !badURL {
				mon.cliDue(d.Guid(), t)
			}
			return true
		}
		r := RunTo2("http://do", d, w.chosenOpt(d))
		if p, ok := r.Err.(PanicError); ok {
			w.Violate("client-panic "+p.Site, "%v", p)
		}
		if r.Err != nil {
			if !faulty && !test {
				w.Violate("outcome-changed TO2", "%s: transfer failed with only the dashboard at fault (after %d ms): %s %v", d.Desc(), w.NowMS()-t0, r.Stage, r.Err)
			}
			say("to2 failed at %s", r.Stage)
			return false
		}
		say("to2")
		return true
	}
	negative := func(d, other *Dev) {
		k := w.Choose("neg", 4)
		if k == 1 && mon.inTest(d.Guid(), 1) || k == 2 && mon.inTest(d.Guid(), 2) {
			k = 0
		}
		switch k {
		case 0:
			s, r := w.hello20("http://rv")
			if !r.ok() {
				return
			}
			kind, b := w.badRegistration(d, other, s, fs.NewFdoNonce(), nil)
			r = w.rawPost("http://rv", "22", s.Token, b)
			say("bad22 %s %d", kind, r.Status)
		case 1:
			s, r := w.hello30("http://rv", d.Guid(), d.Cred.DCSigInfo)
			if !r.ok() {
				return
			}
			kind, b := w.badProof(d, other, s, fs.NewFdoNonce(), nil)
			r = w.rawPost("http://rv", "32", s.Token, b)
			say("bad32 %s %d", kind, r.Status)
		case 2: // a transfer that ends with a wrong last message
			s := w.newRawSess("http://do", d, w.chosenOpt(d))
			if r := s.hello(); !r.ok() {
				return
			}
			for i := 0; i < s.Entries; i++ {
				if r := s.post("62", s.body62(i)); !r.ok() {
					return
				}
			}
			if r := s.post("64", s.body64()); !r.ok() {
				return
			}
			if r := s.post("66", s.body66()); !r.ok() {
				return
			}
			if r := s.post("68", s.body68(false, deviceSims())); !r.ok() {
				return
			}
			for i := 0; i < 8; i++ {
				r := s.post("68", s.body68(false, nil))
				if !r.ok() {
					return
				}
				if o, err := s.open69(r); err != nil || o.IsDone {
					break
				}
			}
			var b []byte
			kind := w.Choose("bad70", 5)
			switch kind {
			case 0:
				b = s.seal(mustCbor(fs.Done70{NonceTO2ProveDv: fs.NewFdoNonce()}))
			case 1:
				b = w.corrupt(s.body70())
			case 2:
				b = mustCbor(fs.Done70{NonceTO2ProveDv: s.N61})
			case 3:
				b = nil
			case 4:
				b = s.body70()
			}
			r := s.post("70", b)
			say("bad70 %d %d", kind, r.Status)
			if kind == 4 && w.Choose("again", 2) == 1 {
				r := s.post("70", s.body70())
				say("again %d", r.Status)
			}
		case 3:
			cmd := []string{"22", "32", "70"}[w.Choose("neg.cmd", 3)]
			host := map[string]string{"22": "http://rv", "32": "http://rv", "70": "http://do"}[cmd]
			r := w.rawPost(host, cmd, "Bearer none", fs.NewRandomBuffer(50))
			say("stray%s %d", cmd, r.Status)
		}
	}
	life := func(i int) {
		d := devs[i]
		other := devs[(i+1)%n]
		if n == 1 {
			other = w.PoolDevice("other")
			if bytes.Equal(other.VDB.Voucher.OVHeaderTag, d.VDB.Voucher.OVHeaderTag) {
				other = w.poolDeviceAt("other", 1+w.Choose("other", len(pool.Devs)-1))
			}
		}
		reg := false
		for k := 2 + w.Choose("steps", 5); k > 0; k-- {
			switch w.Choose("step", 6) {
			case 0, 1:
				reg = to0(d) || reg
			case 2:
				if reg {
					to1(d)
				} else {
					reg = to0(d)
				}
			case 3, 4:
				to2(d)
			case 5:
				negative(d, other)
			}
			if w.Choose("pause", 3) == 0 {
				w.Sleep(time.Duration(1+w.Choose("pause.ms", 3000)) * time.Millisecond)
			}
		}
	}
	switch mode {
	case 0, 1, 2:
		if mode == 2 {
			faulty = true
			w.drawNetFaults(80)
			w.Net.CorruptResp = 0
			w.Net.MaxDelayMS = 1 + w.Choose("maxdelay", 400)
			for _, x := range []*Node{rv, do} {
				x.Store.CrashNum, x.Store.CrashDen = 1, 200
				x.Store.ErrNum, x.Store.ErrDen, x.Store.ErrOps = w.Choose("dberr", 3), 100, "get set commit"
			}
			w.autoRestart(rv, do)
		}
		for i := range devs {
			i := i
			w.Go(nil, devs[i].Name+".life", func() { life(i) })
		}
		w.Run()
	case 3:
		d := devs[0]
		w.Go(nil, d.Name+".test", func() {
			if !to0(d) {
				return
			}
			ent := listener.NewDevice_RequestListenerInst(d.VDB, d.Guid())
			to := 1 + w.Choose("test.to", 2)
			st := rvs
			if to == 2 {
				st = dos
			}
			ldb := tdbs.NewListenerTestDB(st.DB)
			if err := ldb.Save(ent); err != nil {
				panic("harness: " + err.Error())
			}
			mon.listeners[d.Guid()] = &iopListener{st: st, uuid: ent.Uuid}
			attempt := to1
			if to == 2 {
				attempt = to2
			}
			attempt(d)
			e, err := ldb.Get(ent.Uuid)
			if err != nil {
				panic("harness: " + err.Error())
			}
			if to == 1 {
				e.To1.StartNewTestRun()
			} else {
				e.To2.StartNewTestRun()
			}
			if err := ldb.Update(e); err != nil {
				panic("harness: " + err.Error())
			}
			for k := 0; k < 60 && mon.inTest(d.Guid(), to); k++ {
				if w.Choose("under.neg", 8) == 7 {
					negative(d, devs[n-1])
				}
				attempt(d)
			}
			say("run TO%d ended %v", to, !mon.inTest(d.Guid(), to))
			if !mon.inTest(d.Guid(), to) {
				w.Count("iop.test_runs_completed")
				attempt(d)
			}
		})
		for i := 1; i < n; i++ {
			i := i
			w.Go(nil, devs[i].Name+".life", func() { life(i) })
		}
		w.Run()
	}
	if faulty {
		w.heal()
		w.Advance(2 * time.Minute)
		for _, x := range []*Node{rv, do} {
			x.Store.CrashNum, x.Store.ErrNum = 0, 0
			if !x.up {
				w.Restart(x)
			}
		}
		faulty = false
		w.Go(nil, "after", func() {
			for _, d := range devs {
				if to0(d) {
					to1(d)
				}
				to2(d)
			}
		})
		w.Run()
	}
	mon.check()
	if !on && w.Stats["iop.reports"] > 0 {
		w.Violate("event-while-off", "reporting is off, yet the dashboard was called")
	}
	if len(shape) > 6 {
		shape = shape[:6]
	}
	w.Eval(fmt.Sprintf("mode %d dash %d on %v %v %v %v: %s", mode, dmode, rvCfg.Interop, doCfg.Interop, cliOn, ownerOn, strings.Join(shape, ", ")))
}

// cliDue books the command line device's own report: the latest accepted last message of that device.
func (mon *iopMonitor) cliDue(g fs.FdoGuid, token string) {
	if n, ok := mon.last70[g]; ok {
		mon.due(eventKey(token, g, 2, n[:]), "the command line device's transfer")
	}
}
