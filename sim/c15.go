package fdosim

// C15: the history of test runs.

import (
	"encoding/json"
	"fmt"
	"net/http"
	"reflect"
	"sort"
	"strings"
	"time"

	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/dbs"
)

func init() { scenarios["C15"] = scenC15 }

// runsOp is one call, with its place in the order of all calls and replies.
type runsOp struct {
	what   string // start, delete, list
	inst   string // test
	uuid   string // delete: the run
	code   int    // start: what the server under test answers this run
	t0, t1 int64
	ok     bool // said yes
	no     bool // said no
	full   bool // no storage error or crash can have touched it
	runs   []apiRun
	busy   bool // list: in progress
}

type runsInst struct {
	key   string // user|kind|id|proto
	user  *apiUser
	kind  string
	id    string
	proto int
	dev   *Dev
}

type runsWorld struct {
	*apiWorld
	hist  []*runsOp
	insts []*runsInst
	seq   int64
	codes int
	fault int
	lame  bool
	base  map[string][]string // kind+proto -> results of a run of its own
}

// codedServer answers what a run asks with an error that names the run.
func codedServer(w *World, real http.Handler, maxDelay int) http.Handler {
	return http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		if maxDelay > 0 {
			w.Sleep(time.Duration(w.Choose("sut.ms", maxDelay)) * time.Millisecond)
		}
		p := r.URL.Path
		tag := w.currentTask().Tag
		if strings.Contains(tag, " TO1") && (strings.HasSuffix(p, "/20") || strings.HasSuffix(p, "/22")) {
			real.ServeHTTP(rw, r)
			return
		}
		code := 0
		fmt.Sscanf(tag, "run %d", &code)
		rw.Header().Set("Content-Type", "application/cbor")
		rw.Header().Set("Message-Type", "255")
		if !strings.Contains(tag, " TO1") {
			rw.WriteHeader(500)
		}
		rw.Write(mustCbor(fs.FdoError{EMErrorCode: fs.FdoErrorCode(code), EMErrorStr: fmt.Sprintf("code %d", code)}))
	})
}

func scenC15(w *World) {
	st := w.NewStorage("tool")
	w.seedTools(st, 40)
	cfg := envCfg{ServiceURL: "http://tool"}
	a := &runsWorld{apiWorld: &apiWorld{w: w, st: st, base: "http://tool", strange: map[string]bool{}}, base: map[string][]string{}, codes: 1000}
	a.node = w.AddNode("tool", "tool", st, serve(&cfg, "dra"))
	delay := []int{0, 300, 4000}[w.Choose("sut.delay", 3)]
	w.AddNode("sut", "sut", w.NewStorage("sut"), func(n *Node) http.Handler {
		return codedServer(w, serve(&envCfg{ServiceURL: "http://sut"}, "r")(n), delay)
	})
	used := map[fs.FdoGuid]bool{}
	a.devs = append(a.devs, w.distinctDevice("dev0", 2, used), w.distinctDevice("dev1", 1, used))
	for _, e := range []string{onpremUser, "alice@fido.local"} {
		u := &apiUser{Email: e, Tests: map[string][]*apiTest{}}
		a.users = append(a.users, u)
	}
	a.seedUser("alice@fido.local")

	live := 1 + w.Choose("clients", 4)
	ok := false
	w.Go(nil, "setup", func() { ok = a.setup() })
	w.Run()
	if !ok {
		return
	}
	a.fault = w.Choose("faults", 4)
	switch a.fault {
	case 1:
		st.ErrNum, st.ErrDen, st.ErrOps = 1+w.Choose("dberr", 4), 150, []string{"get", "set commit", "get set commit"}[w.Choose("dberr.ops", 3)]
		a.lame = strings.Contains(st.ErrOps, "get")
	case 2:
		st.CrashNum, st.CrashDen = 1, 120
		w.autoRestart(a.node)
	}
	for i := 0; i < live; i++ {
		i := i
		w.Go(nil, fmt.Sprintf("client%d", i), func() { a.client(i, live == 1) })
	}
	w.Run()
	w.heal()
	st.ErrNum, st.CrashNum = 0, 0
	if !a.node.up {
		w.Restart(a.node)
	}
	w.Go(nil, "end", func() {
		if w.Choose("end.restart", 2) == 0 {
			w.Crash(a.node)
			w.Sleep(time.Second)
			w.Restart(a.node)
		}
		w.Sleep(time.Duration(w.Choose("end.days", 30)) * 24 * time.Hour)
		a.listAll(true)
	})
	w.Run()
	a.judge()
	s := fmt.Sprintf("%d clients, faults %d:", live, a.fault)
	n := 0
	for _, o := range a.hist {
		if o.what != "list" {
			k := strings.Split(o.inst, "|")
			s += " " + o.what[:1] + k[1][:1] + k[3]
			if n++; n == 8 {
				break
			}
		}
	}
	w.Eval(s)
}

// setup makes the tests.
func (a *runsWorld) setup() bool {
	w := a.w
	n := 1 + w.Choose("tests", 3)
	for i := 0; i < n; i++ {
		u := a.users[w.Choose("owner", 2)]
		kind := apiKinds[w.Choose("kind", 3)]
		ck := a.cookie(u)
		if ck == "" {
			return false
		}
		c, t := a.createCall(kind)
		if kind == "device" && i > 0 {
			// a device belongs to one test
			d := a.devs[i%2]
			for _, x := range a.insts {
				if x.dev == d {
					d = nil
					break
				}
			}
			if d == nil {
				continue
			}
			g := d.Guid()
			t.Guid = fmt.Sprintf("%x", g[:])
			c = apiPost("/api/device/create", map[string]string{"name": t.Name, "voucher": voucherPem(d)})
		}
		if kind != "device" {
			c.Body = []byte(strings.ReplaceAll(strings.ReplaceAll(string(c.Body), t.Name+"/", "http://sut"), t.Name, "http://sut"))
		}
		if r := w.api(a.apiWorld.base, ck, c); !r.ok() {
			w.Violate("setup", "a test cannot be created: %s", r)
			return false
		}
		l, _, err := w.list(a.apiWorld.base, ck, kind)
		if err != nil || len(l) == 0 {
			w.Violate("setup", "a created test is not listed: %v", err)
			return false
		}
		e := l[len(l)-1]
		for p := 0; p < 3; p++ {
			in := e.Inst[p]
			if in == nil {
				continue
			}
			x := &runsInst{key: fmt.Sprintf("%s|%s|%s|%d", u.Email, kind, in.Id, p), user: u, kind: kind, id: in.Id, proto: p}
			if kind == "device" {
				for _, d := range a.devs {
					g := d.Guid()
					if fmt.Sprintf("%x", g[:]) == e.Guid {
						x.dev = d
					}
				}
			} else {
				a.start(x, ck)
			}
			a.insts = append(a.insts, x)
		}
		a.list(u, kind, ck)
	}
	// what a run by itself reports
	for _, o := range a.hist {
		if o.what != "list" {
			continue
		}
		k := strings.Split(o.inst, "|")
		if k[1] != "device" && len(o.runs) == 1 {
			a.base[k[1]+k[3]] = resultIDs(o.runs[0])
		}
	}
	return true
}

func (a *runsWorld) pick() *runsInst { return a.insts[a.w.Choose("inst", len(a.insts))] }

func (a *runsWorld) call(o *runsOp, ck string, c apiCall) apiReply {
	a.seq++
	o.t0 = a.seq
	o.full = a.fault != 1 && a.fault != 2
	a.hist = append(a.hist, o)
	r := a.w.api(a.apiWorld.base, ck, c)
	a.seq++
	o.t1 = a.seq
	o.ok, o.no = r.ok(), r.refused()
	a.w.Logf("%s %s %s: %s", o.what, o.inst, o.uuid, r)
	return r
}

func (a *runsWorld) start(x *runsInst, ck string) {
	o := &runsOp{what: "start", inst: x.key}
	if x.kind == "device" {
		r := a.call(o, ck, apiCall{Method: "POST", Path: fmt.Sprintf("/api/device/testruns/%d/%s", x.proto, x.id), CT: "application/json", Body: []byte("{}")})
		if o.full && !o.ok {
			a.w.Violate("start-failed", "a run of a device test cannot be started: %s", r)
		}
		return
	}
	a.codes++
	o.code = a.codes
	t := a.w.currentTask()
	old := t.Tag
	t.Tag = fmt.Sprintf("run %d TO%d", o.code, x.proto)
	r := a.call(o, ck, apiPost("/api/"+x.kind+"/execute", map[string]string{"id": x.id}))
	t.Tag = old
	if o.full && !o.ok {
		a.w.Violate("start-failed", "a run of a %s test failed: %s", x.kind, r)
	}
}

func (a *runsWorld) list(u *apiUser, kind, ck string) bool {
	w := a.w
	a.seq++
	t0 := a.seq
	l, r, err := w.list(a.apiWorld.base, ck, kind)
	a.seq++
	if err != nil {
		if a.fault != 1 && a.fault != 2 || r.ok() {
			w.Violate("list-failed", "%s cannot list the %s tests: %v", u.Email, kind, err)
		}
		return false
	}
	for _, e := range l {
		for p := 0; p < 3; p++ {
			if in := e.Inst[p]; in != nil {
				a.hist = append(a.hist, &runsOp{what: "list", inst: fmt.Sprintf("%s|%s|%s|%d", u.Email, kind, in.Id, p), t0: t0, t1: a.seq, ok: true, runs: in.Runs, busy: in.InProgress})
			}
		}
	}
	return true
}

func (a *runsWorld) listAll(must bool) {
	for _, u := range a.users {
		s := a.login(u)
		if s == nil {
			return
		}
		for _, k := range apiKinds {
			if !a.list(u, k, "session="+s.Id) && must {
				a.w.Violate("list-failed", "%s cannot list the %s tests after the faults", u.Email, k)
				return
			}
		}
	}
}

// known are the runs of a test some list has shown, newest first as last seen.
func (a *runsWorld) known(x *runsInst) []apiRun {
	for i := len(a.hist) - 1; i >= 0; i-- {
		if o := a.hist[i]; o.what == "list" && o.inst == x.key {
			return o.runs
		}
	}
	return nil
}

func (a *runsWorld) client(me int, alone bool) {
	w := a.w
	cks := map[*apiUser]string{}
	for k := 4 + w.Choose("steps", 7); k > 0; k-- {
		x := a.pick()
		if cks[x.user] == "" || w.Choose("relogin", 12) == 0 {
			if a.fault == 0 || a.fault == 3 {
				s := a.login(x.user)
				if s == nil {
					return
				}
				cks[x.user] = "session=" + s.Id
			} else if r := a.login2(x.user); r != "" {
				cks[x.user] = r
			} else {
				w.Sleep(time.Second)
				continue
			}
		}
		ck := cks[x.user]
		switch s := w.Choose("step", 12); {
		case s < 4:
			a.start(x, ck)
		case s < 6 && x.dev != nil, s == 6 && x.dev != nil:
			for n := 1 + w.Choose("tries", 6); n > 0; n-- {
				if x.proto == 1 {
					RunTo1("http://tool", x.dev)
				} else {
					o := w.chosenOpt(x.dev)
					RunTo2("http://tool", x.dev, o)
				}
			}
		case s < 8:
			rs := a.known(x)
			id := "0c6a0f4e-5b1b-4f0a-9d0a-0e3a1d3a7b11"
			if len(rs) > 0 && w.Choose("delete.unknown", 8) != 0 {
				id = rs[w.Choose("delete.which", len(rs))].Uuid
			}
			p := fmt.Sprintf("/api/%s/testruns/%s/%s", x.kind, x.id, id)
			if x.kind == "device" {
				p = fmt.Sprintf("/api/device/testruns/%d/%s/%s", x.proto, x.id, id)
			}
			a.call(&runsOp{what: "delete", inst: x.key, uuid: id}, ck, apiDel(p))
		case s == 8 && alone && a.fault != 2:
			w.Crash(a.node)
			w.Sleep(time.Duration(1+w.Choose("down.s", 5)) * time.Second)
			w.Restart(a.node)
		case s == 9:
			w.Sleep(time.Duration(w.Choose("pause.s", 100)) * time.Second)
		default:
			a.list(x.user, x.kind, ck)
		}
		if alone {
			a.list(x.user, x.kind, ck)
		}
	}
}

func resultIDs(r apiRun) []string {
	m := map[string]json.RawMessage{}
	json.Unmarshal(r.Tests, &m)
	var ids []string
	for k := range m {
		ids = append(ids, k)
	}
	sort.Strings(ids)
	return ids
}

// ------------------------------------------------------------ the judgement

func (a *runsWorld) judge() {
	for _, x := range a.insts {
		if !a.judgeInst(x) {
			return
		}
	}
}

func (a *runsWorld) judgeInst(x *runsInst) bool {
	w := a.w
	var starts, dels, lists []*runsOp
	for _, o := range a.hist {
		if o.inst != x.key {
			continue
		}
		switch o.what {
		case "start":
			starts = append(starts, o)
		case "delete":
			dels = append(dels, o)
		case "list":
			lists = append(lists, o)
		}
	}
	codeOf := map[string]int{}
	bad := func(class, f string, args ...interface{}) bool {
		w.Violate(class+" "+x.kind, "%s TO%d test: "+f, append([]interface{}{x.kind, x.proto}, args...)...)
		return false
	}
	for li, l := range lists {
		at := map[string]int{}
		for i, r := range l.runs {
			if _, ok := at[r.Uuid]; ok {
				return bad("run-twice", "run %s is in the history twice: %s", r.Uuid, runsText(l.runs))
			}
			at[r.Uuid] = i
			if r.Protocol != x.proto {
				return bad("run-protocol", "run %s is of protocol TO%d", r.Uuid, r.Protocol)
			}
			if i > 0 && l.runs[i-1].Timestamp < r.Timestamp {
				return bad("run-order", "the history is not newest first: %s", runsText(l.runs))
			}
		}
		// how many runs there can be
		most, least := 0, 0
		for _, s := range starts {
			if s.t0 < l.t1 {
				most++
				if s.ok && s.t1 < l.t0 {
					least++
				}
			}
		}
		gone, tried := map[string]bool{}, map[string]bool{}
		for _, d := range dels {
			if d.ok && d.t1 < l.t0 && known(lists[:li], d.uuid) {
				gone[d.uuid] = true
				if _, ok := at[d.uuid]; ok {
					return bad("removed-run-back", "run %s was removed and is in the history again: %s", d.uuid, runsText(l.runs))
				}
			}
			if d.t0 < l.t1 && !(d.no && d.full) {
				tried[d.uuid] = true
			}
			if d.full && d.no && d.t1 < l.t0 && known(lists[:li], d.uuid) && !a.otherDelete(dels, d) {
				return bad("remove-refused", "run %s could not be removed", d.uuid)
			}
		}
		if len(l.runs)+len(gone) > most {
			return bad("run-from-nowhere", "%d runs were started, %d removed, and the history is %s", most, len(gone), runsText(l.runs))
		}
		if len(l.runs)+len(tried) < least {
			return bad("run-lost", "%d runs were started, at most %d removed, and the history is %s", least, len(tried), runsText(l.runs))
		}
		// what each earlier list says about this one
		for _, m := range lists[:li] {
			if m.t1 > l.t0 {
				continue
			}
			last := -1
			for i, r := range m.runs {
				j, ok := at[r.Uuid]
				if !ok {
					if !tried[r.Uuid] {
						return bad("run-lost", "run %s was in the history and is gone without having been removed: %s, then %s", r.Uuid, runsText(m.runs), runsText(l.runs))
					}
					continue
				}
				if j < last {
					return bad("run-order", "the order of the runs changed: %s, then %s", runsText(m.runs), runsText(l.runs))
				}
				last = j
				if !a.grown(x, bad, r, l.runs[j], i > 0 && x.kind == "device") {
					return false
				}
			}
			first := len(l.runs)
			seen := map[string]bool{}
			for _, r := range m.runs {
				seen[r.Uuid] = true
				if j, ok := at[r.Uuid]; ok && j < first {
					first = j
				}
			}
			for j := first; j < len(l.runs); j++ {
				if !seen[l.runs[j].Uuid] {
					return bad("run-order", "run %s is new and stands behind older ones: %s, then %s", l.runs[j].Uuid, runsText(m.runs), runsText(l.runs))
				}
			}
		}
		if x.kind == "device" {
			continue
		}
		// whose results they are
		codes := map[int]string{}
		for _, r := range l.runs {
			m := map[string]struct {
				Passed bool   `json:"passed"`
				Error  string `json:"error"`
			}{}
			if err := json.Unmarshal(r.Tests, &m); err != nil {
				return bad("run-results", "the results of run %s do not decode: %v", r.Uuid, err)
			}
			for _, id := range resultIDs(r) {
				c := codeIn(m[id].Error)
				if c == 0 {
					continue
				}
				if o := codeOf[r.Uuid]; o != 0 && o != c {
					return bad("run-mixed", "run %s holds results of two runs (%d and %d): %s", r.Uuid, o, c, r.Tests)
				}
				codeOf[r.Uuid] = c
			}
			if c := codeOf[r.Uuid]; c != 0 {
				if o := codes[c]; o != "" {
					return bad("run-mixed", "the results of one run are in two: %s and %s", o, r.Uuid)
				}
				codes[c] = r.Uuid
			}
		}
		if a.lame {
			continue // a read error may change what a run finds
		}
		want := a.base[x.kind+fmt.Sprint(x.proto)]
		newest := int64(-1)
		for _, s := range starts {
			if !s.ok || s.t1 > l.t0 {
				if s.t0 < l.t1 {
					newest = l.t1
				}
				continue
			}
			if newest < s.t1 {
				newest = s.t1
			}
			u := codes[s.code]
			if u == "" {
				if len(tried) == 0 {
					return bad("run-results", "a run that ended (code %d) is not in the history: %s, first with %s", s.code, runsText(l.runs), l.runs[0].Tests)
				}
				continue
			}
			if got := resultIDs(l.runs[at[u]]); want != nil && !reflect.DeepEqual(got, want) {
				return bad("run-results", "run %s ended without all its results: %v instead of %v", u, got, want)
			}
		}
		if newest < l.t0 && l.busy && a.fault != 2 && a.fault != 1 && len(starts) > 0 {
			return bad("run-unfinished", "all runs ended and the test is still in progress")
		}
	}
	return true
}

func (a *runsWorld) otherDelete(dels []*runsOp, d *runsOp) bool {
	for _, o := range dels {
		if o != d && o.uuid == d.uuid && o.t0 < d.t1 {
			return true
		}
	}
	return false
}

func known(lists []*runsOp, uuid string) bool {
	for _, l := range lists {
		for _, r := range l.runs {
			if r.Uuid == uuid {
				return true
			}
		}
	}
	return false
}

// grown: a run may only gain results, and none once it is over.
func (a *runsWorld) grown(x *runsInst, bad func(string, string, ...interface{}) bool, was, now apiRun, over bool) bool {
	if was.Timestamp != now.Timestamp {
		return bad("run-changed", "the start of run %s moved", was.Uuid)
	}
	if x.kind != "device" {
		p, n := map[string]json.RawMessage{}, map[string]json.RawMessage{}
		json.Unmarshal(was.Tests, &p)
		json.Unmarshal(now.Tests, &n)
		for _, id := range resultIDs(was) {
			if string(p[id]) != string(n[id]) && id != "NULL_TEST" {
				return bad("run-changed", "the result %s of run %s was %s and is now %s", id, was.Uuid, p[id], n[id])
			}
		}
		return true
	}
	var p, n []json.RawMessage
	json.Unmarshal(was.Tests, &p)
	json.Unmarshal(now.Tests, &n)
	if len(n) < len(p) {
		return bad("run-changed", "run %s had %d results and has %d now", was.Uuid, len(p), len(n))
	}
	for i := range p {
		if string(p[i]) != string(n[i]) {
			return bad("run-changed", "result %d of run %s was %s and is now %s", i, was.Uuid, p[i], n[i])
		}
	}
	if (over || was.Completed) && len(n) != len(p) {
		return bad("run-changed", "run %s was over with %d results and has %d now", was.Uuid, len(p), len(n))
	}
	if was.Completed && !now.Completed || over && was.Completed != now.Completed {
		return bad("run-changed", "run %s was completed=%v and is completed=%v now", was.Uuid, was.Completed, now.Completed)
	}
	return true
}

func codeIn(s string) int {
	for i := 0; i+4 <= len(s); i++ {
		c := 0
		if n, _ := fmt.Sscanf(s[i:i+4], "%d", &c); n == 1 && c > 1000 && c < 1200 && s[i] == '1' {
			return c
		}
	}
	return 0
}

func (a *runsWorld) seedUser(email string) {
	if err := dbs.NewUserTestDB(a.st.DB).Save(dbs.UserTestDBEntry{Email: email}); err != nil {
		panic("harness: " + err.Error())
	}
}

// login2 logs in while faults may hit the login.
func (a *runsWorld) login2(u *apiUser) string {
	if u.Email == onpremUser {
		if r := a.w.api(a.apiWorld.base, "", apiCall{Method: "POST", Path: "/api/user/login/onprem", CT: "application/json", Body: []byte("{}")}); r.ok() {
			return "session=" + r.session()
		}
		return ""
	}
	id, err := dbs.NewSessionDB(a.st.DB).NewSessionEntry(dbs.SessionEntry{Email: u.Email, LoggedIn: true})
	if err != nil {
		return ""
	}
	return "session=" + string(id)
}
