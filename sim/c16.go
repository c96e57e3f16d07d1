package fdosim

import (
	"crypto/x509"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"sort"
	"strings"
	"time"

	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/dbs"
)

func init() { scenarios["C16"] = scenC16 }

const (
	sessionLife = 7 * 24 * time.Hour
	testLife    = 183 * 24 * time.Hour // the tool keeps the record of a test that long after it was last touched
)

// apiSess is one login the clients know.
type apiSess struct {
	Id    string
	Email string
	Born  int64 // ms
	Out   bool
}

type apiTest struct {
	*apiEntry
	Touched int64 // ms: its records were written then or later
	Zip     map[string]string
	SgName  string
}

type apiUser struct {
	Email string
	Sess  []*apiSess
	Tests map[string][]*apiTest // kind -> in creation order
}

type apiWorld struct {
	w       *World
	st      *Storage
	node    *Node
	base    string
	dead    string
	users   []*apiUser
	n       int
	shape   []string
	devs    []*Dev
	strange map[string]bool
}

func (a *apiWorld) say(f string, args ...interface{}) {
	a.shape = append(a.shape, fmt.Sprintf(f, args...))
}

// alive: 1 valid, 0 not, -1 too close to call.
func (a *apiWorld) alive(s *apiSess) int {
	if s.Out {
		return 0
	}
	age := time.Duration(a.w.NowMS()-s.Born) * time.Millisecond
	switch {
	case age < sessionLife-1500*time.Millisecond:
		return 1
	case age > sessionLife+1500*time.Millisecond:
		return 0
	}
	return -1
}

func (a *apiWorld) login(u *apiUser) *apiSess {
	w := a.w
	s := &apiSess{Email: u.Email}
	if u.Email == onpremUser {
		r := w.api(a.base, "", apiCall{Method: "POST", Path: "/api/user/login/onprem", CT: "application/json", Body: []byte("{}")})
		s.Born = w.NowMS()
		if !r.ok() || r.session() == "" {
			w.Violate("login", "the login failed: %s", r)
			return nil
		}
		s.Id = r.session()
	} else {
		email := u.Email
		if w.Choose("login.case", 3) == 0 {
			email = strings.ToUpper(email[:1]) + email[1:]
		}
		id, err := dbs.NewSessionDB(a.st.DB).NewSessionEntry(dbs.SessionEntry{Email: email, LoggedIn: true})
		if err != nil {
			panic("harness: " + err.Error())
		}
		s.Id, s.Born = string(id), w.NowMS()
	}
	u.Sess = append(u.Sess, s)
	return s
}

// cookie gives a valid session of a user, logging in if needed.
func (a *apiWorld) cookie(u *apiUser) string {
	var ok []*apiSess
	for _, s := range u.Sess {
		if a.alive(s) == 1 {
			ok = append(ok, s)
		}
	}
	if len(ok) > 0 && (len(ok) > 2 || a.w.Choose("session.new", 6) != 0) {
		return "session=" + ok[a.w.Choose("session", len(ok))].Id
	}
	s := a.login(u)
	if s == nil {
		return ""
	}
	return "session=" + s.Id
}

// badCookie gives credentials that must not be accepted.
func (a *apiWorld) badCookie() (string, string) {
	w := a.w
	var dead []*apiSess
	var live []*apiSess
	for _, u := range a.users {
		for _, s := range u.Sess {
			switch a.alive(s) {
			case 0:
				dead = append(dead, s)
			case 1:
				live = append(live, s)
			}
		}
	}
	other := func(e dbs.SessionEntry) string {
		id, err := dbs.NewSessionDB(a.st.DB).NewSessionEntry(e)
		if err != nil {
			panic("harness: " + err.Error())
		}
		return "session=" + string(id)
	}
	for {
		switch w.Choose("bad.cookie", 12) {
		case 0:
			return "", "no cookie"
		case 1:
			return "session=", "empty cookie"
		case 2:
			b := fs.NewRandomBuffer(16)
			return fmt.Sprintf("session=%x-%x-%x-%x-%x", b[:4], b[4:6], b[6:8], b[8:10], b[10:]), "random cookie"
		case 3, 4, 5:
			if len(dead) > 0 {
				s := dead[w.Choose("dead", len(dead))]
				if s.Out {
					return "session=" + s.Id, "logged-out session"
				}
				return "session=" + s.Id, "expired session"
			}
		case 6:
			u := a.users[w.Choose("user", len(a.users))]
			return other(dbs.SessionEntry{Email: u.Email}), "session that is not logged in"
		case 7:
			return other(dbs.SessionEntry{Email: "nobody@fido.local", LoggedIn: true}), "session of an unknown user"
		case 8, 9:
			if len(live) > 0 {
				s := live[w.Choose("live", len(live))]
				switch w.Choose("cookie.spoil", 5) {
				case 0:
					return "session=" + s.Id[:len(s.Id)-1], "cut session id"
				case 1:
					return "session=" + s.Id + "0", "extended session id"
				case 2:
					if up := strings.ToUpper(s.Id); up != s.Id {
						return "session=" + up, "upper-case session id"
					}
				case 3:
					return "Session=" + s.Id + "; sessionid=" + s.Id, "differently named cookie"
				case 4:
					return "session=session-" + s.Id, "session id with the storage prefix"
				}
			}
		case 10, 11:
			if t, what := a.fdoToken(); t != "" {
				return "session=" + t, what
			}
		}
	}
}

// fdoToken opens a protocol session and gives its token.
func (a *apiWorld) fdoToken() (string, string) {
	w := a.w
	switch w.Choose("fdo.token", 2) {
	case 0:
		s, r := w.hello20(a.base)
		if r.ok() {
			return strings.TrimPrefix(s.Token, "Bearer "), "token of a TO0 session"
		}
	case 1:
		d := a.devs[0]
		s := w.newRawSess(a.base, d, w.chosenOpt(d))
		if r := s.hello(); r.ok() {
			return strings.TrimPrefix(s.Token, "Bearer "), "token of a TO2 session"
		}
	}
	return "", ""
}

// ids of the tests of a user by kind, as used in the calls.
func (u *apiUser) ids(kind string) (ids []string) {
	for _, t := range u.Tests[kind] {
		if kind == "device" {
			ids = append(ids, t.Id)
			continue
		}
		for p := 0; p < 3; p++ {
			if i := t.Inst[p]; i != nil {
				ids = append(ids, i.Id)
			}
		}
	}
	return
}

// idCalls are the calls that name a test.
func idCalls(kind, id, run string) []apiCall {
	switch kind {
	case "rvt", "dot":
		c := []apiCall{apiPost("/api/"+kind+"/execute", map[string]string{"id": id}), apiDel("/api/" + kind + "/testruns/" + id + "/" + run)}
		if kind == "dot" {
			c = append(c, apiGet("/api/dot/vouchers/"+id))
		}
		return c
	}
	return []apiCall{
		{Method: "POST", Path: "/api/device/testruns/1/" + id, CT: "application/json", Body: []byte("{}")},
		{Method: "POST", Path: "/api/device/testruns/2/" + id, CT: "-"},
		apiDel("/api/device/testruns/1/" + id + "/" + run),
		apiDel("/api/device/testruns/2/" + id + "/" + run),
	}
}

func (a *apiWorld) run(u *apiUser, kind, id string) string {
	for _, t := range u.Tests[kind] {
		for p := 0; p < 3; p++ {
			if i := t.Inst[p]; i != nil && i.Id == id && len(i.Runs) > 0 {
				return i.Runs[a.w.Choose("run", len(i.Runs))].Uuid
			}
		}
	}
	return "0c6a0f4e-5b1b-4f0a-9d0a-0e3a1d3a7b11"
}

// anyCall draws one management call, with the ids of any user.
func (a *apiWorld) anyCall() apiCall {
	w := a.w
	u := a.users[w.Choose("victim", len(a.users))]
	kind := apiKinds[w.Choose("kind", 3)]
	switch w.Choose("call", 5) {
	case 0:
		c, _ := a.createCall(kind)
		return c
	case 1:
		return apiGet("/api/" + kind + "/testruns")
	case 2:
		return apiCall{Method: "POST", Path: "/api/user/purgetests", CT: "application/json", Body: []byte("{}")}
	}
	ids := u.ids(kind)
	if len(ids) == 0 {
		return apiGet("/api/" + kind + "/testruns")
	}
	id := ids[w.Choose("id", len(ids))]
	c := idCalls(kind, id, a.run(u, kind, id))
	return c[w.Choose("call.nth", len(c))]
}

// foreignCall draws a call naming a test that does not belong to u under that route.
func (a *apiWorld) foreignCall(u *apiUser) (apiCall, string) {
	w := a.w
	for {
		kind := apiKinds[w.Choose("kind", 3)]
		id, what, run := "", "", "0c6a0f4e-5b1b-4f0a-9d0a-0e3a1d3a7b11"
		switch w.Choose("foreign", 8) {
		case 0, 1, 2, 3:
			v := a.users[w.Choose("victim", len(a.users))]
			if v == u {
				continue
			}
			ids := v.ids(kind)
			if len(ids) == 0 {
				continue
			}
			id, what = ids[w.Choose("id", len(ids))], "another user's test"
			run = a.run(v, kind, id)
		case 4:
			k2 := apiKinds[w.Choose("kind2", 3)]
			ids := u.ids(k2)
			if k2 == kind || len(ids) == 0 {
				continue
			}
			id, what = ids[w.Choose("id", len(ids))], "an own test of another kind"
			run = a.run(u, k2, id)
		case 5:
			ts := u.Tests[kind]
			if len(ts) == 0 || kind == "device" {
				continue
			}
			id, what = ts[w.Choose("id", len(ts))].Id, "the entry id instead of the test id"
		case 6:
			id, what = hex.EncodeToString(fs.NewRandomBuffer(16)), "a random id"
		case 7:
			if w.Choose("odd.id", 3) == 0 {
				// a test of the account that was purged: the records may still be there
				if ids := a.gone(u, kind); len(ids) > 0 {
					id, what = ids[w.Choose("id", len(ids))], "a purged test"
					break
				}
			}
			ids := u.ids(kind)
			if len(ids) == 0 {
				id, what = "zz", "an id that is not hex"
				break
			}
			id = ids[w.Choose("id", len(ids))]
			switch w.Choose("odd.id2", 3) {
			case 0:
				id, what = id[:len(id)-2], "a cut id"
			case 1:
				id, what = id+"00", "an extended id"
			case 2:
				id, what = "zz"+id[2:], "an id that is not hex"
			}
		}
		c := idCalls(kind, id, run)
		return c[w.Choose("call.nth", len(c))], what
	}
}

func (a *apiWorld) gone(u *apiUser, kind string) (ids []string) {
	for k := range a.strange {
		if p := strings.SplitN(k, "|", 3); p[0] == u.Email && p[1] == kind {
			ids = append(ids, p[2])
		}
	}
	sort.Strings(ids)
	return
}

func (a *apiWorld) createCall(kind string) (apiCall, *apiTest) {
	w := a.w
	a.n++
	t := &apiTest{apiEntry: &apiEntry{Kind: kind}}
	switch kind {
	case "rvt":
		t.Name = fmt.Sprintf("http://nowhere%d", a.n)
		return apiPost("/api/rvt/create", map[string]string{"url": t.Name + []string{"", "/"}[w.Choose("url.slash", 2)]}), t
	case "dot":
		t.Name = fmt.Sprintf("http://nowhere%d", a.n)
		sg := ownerSgs[w.Choose("dot.sg", len(ownerSgs))]
		key, _, _ := w.ownerKey(sg, w.Choose("dot.key", 2))
		der, err := x509.MarshalPKCS8PrivateKey(key)
		if err != nil {
			panic("harness: " + err.Error())
		}
		t.SgName = sgName(sg)
		return apiPost("/api/dot/create", map[string]string{"url": t.Name, "priv_key": string(pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: der}))}), t
	}
	d := a.devs[w.Choose("dev", len(a.devs))]
	t.Name = fmt.Sprintf("device %d", a.n)
	g := d.Guid()
	t.Guid = hex.EncodeToString(g[:])
	t.SgName = sgName(d.OwnerSg)
	return apiPost("/api/device/create", map[string]string{"name": t.Name, "voucher": voucherPem(d)}), t
}

// expired: the tool may have dropped the records of the test by now.
func (a *apiWorld) expired(t *apiTest) bool {
	return time.Duration(a.w.NowMS()-t.Touched)*time.Millisecond > testLife-2*time.Second
}

// checkLists compares what a user sees with the model. fresh is a test just created (ids still unknown), loose one whose runs may differ.
func (a *apiWorld) checkLists(u *apiUser, cookie, after string, fresh *apiTest, loose string, kinds ...string) bool {
	w := a.w
	for _, kind := range kinds {
		l, r, err := w.list(a.base, cookie, kind)
		if err != nil {
			w.Violate("list-failed "+kind, "after %s: %s cannot list the %s tests: %v (%s)", after, u.Email, kind, err, r)
			return false
		}
		want := u.Tests[kind]
		i := 0
		for _, t := range want {
			if i >= len(l) || t != fresh && l[i].Id != t.Id || t == fresh && (l[i].Name != t.Name || l[i].Guid != t.Guid) {
				if t != fresh && a.expired(t) {
					continue // six months old
				}
				w.Violate("list-wrong "+kind, "after %s: %s expects %s at place %d of the %s tests, the list has %s", after, u.Email, t.text(), i, kind, listText(l))
				return false
			}
			e := l[i]
			i++
			if e.Name != t.Name || e.Guid != t.Guid {
				w.Violate("list-wrong "+kind, "after %s: test %s is now listed as %s", after, t.text(), e.text())
				return false
			}
			for p := 0; p < 3; p++ {
				x, y := t.Inst[p], e.Inst[p]
				if t == fresh {
					continue
				}
				if (x == nil) != (y == nil) || x != nil && x.Id != y.Id {
					w.Violate("list-wrong "+kind, "after %s: test %s is now listed as %s", after, t.text(), e.text())
					return false
				}
				if x == nil || loose == fmt.Sprintf("%s/%d", x.Id, p) {
					continue
				}
				if runsText(x.Runs) != runsText(y.Runs) {
					w.Violate("runs-changed "+kind, "after %s: the runs of an untouched test of %s changed from %s to %s", after, u.Email, runsText(x.Runs), runsText(y.Runs))
					return false
				}
			}
			t.apiEntry = e
		}
		if i < len(l) {
			w.Violate("list-wrong "+kind, "after %s: %s sees more %s tests than were created: %s", after, u.Email, kind, listText(l))
			return false
		}
	}
	return true
}

func runsText(rs []apiRun) string {
	var o []string
	for _, r := range rs {
		o = append(o, fmt.Sprintf("%s@%d/%d", r.Uuid, r.Timestamp, r.Protocol))
	}
	return "[" + strings.Join(o, " ") + "]"
}

func listText(l []*apiEntry) string {
	o := []string{}
	for _, e := range l {
		o = append(o, e.Name+"("+e.Id+")")
	}
	return "[" + strings.Join(o, ", ") + "]"
}

func (a *apiWorld) touch(u *apiUser, kind, id string) {
	for _, t := range u.Tests[kind] {
		for _, i := range t.Inst {
			if i.Id == id {
				t.Touched = a.w.NowMS() // only a lower bound for the record that was written; the other one may be older
			}
		}
	}
}

func (a *apiWorld) okCall(u *apiUser, c apiCall) (apiReply, string) {
	ck := a.cookie(u)
	if ck == "" {
		return apiReply{}, ""
	}
	return a.w.api(a.base, ck, c), ck
}

// step does one action of the sequential mode.
func (a *apiWorld) step() bool {
	w := a.w
	u := a.users[w.Choose("user", len(a.users))]
	switch k := w.Choose("step", 24); k {
	case 0, 1, 2, 3, 4: // create
		kind := apiKinds[w.Choose("kind", 3)]
		c, t := a.createCall(kind)
		r, ck := a.okCall(u, c)
		if ck == "" {
			return false
		}
		if !r.ok() {
			w.Violate("create-failed "+kind, "%s cannot create a %s test %s %s: %s", u.Email, kind, t.Name, t.SgName, r)
			return false
		}
		t.Touched = w.NowMS()
		u.Tests[kind] = append(u.Tests[kind], t)
		a.say("create %s %s", kind, t.SgName)
		return a.checkLists(u, ck, "creating "+t.Name, t, "", kind)
	case 5, 6: // list everything of everybody
		for _, u := range a.users {
			ck := a.cookie(u)
			if ck == "" || !a.checkLists(u, ck, "a while", nil, "", apiKinds...) {
				return false
			}
		}
		a.say("list")
	case 7: // execute
		kind := apiKinds[w.Choose("exec.kind", 2)]
		ids := u.ids(kind)
		if len(ids) == 0 {
			return true
		}
		id := ids[w.Choose("id", len(ids))]
		p := a.proto(u, kind, id)
		before := a.runs(u, kind, id)
		r, ck := a.okCall(u, apiPost("/api/"+kind+"/execute", map[string]string{"id": id}))
		if ck == "" {
			return false
		}
		if !r.ok() {
			if a.maybeGone(u, kind, id) {
				return true
			}
			w.Violate("execute-failed "+kind, "%s cannot execute %s: %s", u.Email, id, r)
			return false
		}
		a.say("execute %s", kind)
		if !a.checkLists(u, ck, "executing "+id, nil, fmt.Sprintf("%s/%d", id, p), kind) {
			return false
		}
		a.touch(u, kind, id)
		return a.oneMore(before, a.runs(u, kind, id), "executing "+id)
	case 8, 9: // start a device run
		ids := u.ids("device")
		if len(ids) == 0 {
			return true
		}
		id := ids[w.Choose("id", len(ids))]
		p := 1 + w.Choose("proto", 2)
		r, ck := a.okCall(u, apiCall{Method: "POST", Path: fmt.Sprintf("/api/device/testruns/%d/%s", p, id), CT: "application/json", Body: []byte("{}")})
		if ck == "" {
			return false
		}
		if !r.ok() {
			if a.maybeGone(u, "device", id) {
				return true
			}
			w.Violate("start-failed", "%s cannot start a TO%d run of %s: %s", u.Email, p, id, r)
			return false
		}
		a.say("start TO%d", p)
		if !a.checkLists(u, ck, "starting a run of "+id, nil, fmt.Sprintf("%s/%d", id, p), "device") {
			return false
		}
		a.touch(u, "device", id)
		if t := a.test(u, "device", id); t != nil && (t.Inst[p] == nil || len(t.Inst[p].Runs) == 0) {
			w.Violate("start-without-run", "a TO%d run of %s was started, none is listed", p, id)
			return false
		}
	case 10: // delete a run
		kind := apiKinds[w.Choose("kind", 3)]
		ids := u.ids(kind)
		if len(ids) == 0 {
			return true
		}
		id := ids[w.Choose("id", len(ids))]
		p := a.proto(u, kind, id)
		path := "/api/" + kind + "/testruns/" + id + "/"
		if kind == "device" {
			p = 1 + w.Choose("proto", 2)
			path = fmt.Sprintf("/api/device/testruns/%d/%s/", p, id)
		}
		t := a.test(u, kind, id)
		if t.Inst[p] == nil || len(t.Inst[p].Runs) == 0 {
			return true
		}
		run := t.Inst[p].Runs[w.Choose("run", len(t.Inst[p].Runs))].Uuid
		r, ck := a.okCall(u, apiDel(path+run))
		if ck == "" {
			return false
		}
		if !r.ok() {
			if a.maybeGone(u, kind, id) {
				return true
			}
			w.Violate("delete-failed "+kind, "%s cannot delete run %s of %s: %s", u.Email, run, id, r)
			return false
		}
		a.say("delete %s", kind)
		if !a.checkLists(u, ck, "deleting a run of "+id, nil, fmt.Sprintf("%s/%d", id, p), kind) {
			return false
		}
		a.touch(u, kind, id)
		if t := a.test(u, kind, id); t != nil && t.Inst[p] != nil {
			for _, x := range t.Inst[p].Runs {
				if x.Uuid == run {
					w.Violate("run-not-deleted "+kind, "run %s of %s is still listed after its deletion was acknowledged", run, id)
					return false
				}
			}
		}
	case 11: // vouchers
		ids := u.ids("dot")
		if len(ids) == 0 {
			return true
		}
		id := ids[w.Choose("id", len(ids))]
		r, ck := a.okCall(u, apiGet("/api/dot/vouchers/"+id))
		if ck == "" {
			return false
		}
		if !r.ok() {
			if a.maybeGone(u, "dot", id) {
				return true
			}
			w.Violate("vouchers-failed", "%s cannot fetch the vouchers of %s: %s", u.Email, id, r)
			return false
		}
		z, err := zipVouchers(r)
		if err != nil || len(z) == 0 {
			w.Violate("vouchers-failed", "the voucher download of %s does not open: %v (%d files)", id, err, len(z))
			return false
		}
		t := a.test(u, "dot", id)
		if t.Zip == nil {
			t.Zip = z
		}
		if d := dumpDiff(t.Zip, z); d != "" {
			w.Violate("vouchers-changed", "the vouchers of %s changed: %s", id, d)
			return false
		}
		a.say("vouchers")
	case 12: // purge
		if w.Choose("purge", 3) != 0 {
			return true
		}
		r, ck := a.okCall(u, apiCall{Method: "POST", Path: "/api/user/purgetests", CT: "application/json", Body: []byte("{}")})
		if ck == "" {
			return false
		}
		if !r.ok() {
			w.Violate("purge-failed", "%s cannot purge: %s", u.Email, r)
			return false
		}
		for _, k := range apiKinds {
			for _, id := range u.ids(k) {
				a.strange[u.Email+"|"+k+"|"+id] = true
			}
		}
		u.Tests = map[string][]*apiTest{}
		a.say("purge")
		return a.checkLists(u, ck, "purging", nil, "", apiKinds...)
	case 13: // logout
		var ok []*apiSess
		for _, s := range u.Sess {
			if a.alive(s) == 1 {
				ok = append(ok, s)
			}
		}
		if len(ok) == 0 {
			return true
		}
		s := ok[w.Choose("session", len(ok))]
		r := w.api(a.base, "session="+s.Id, apiCall{Method: "POST", Path: "/api/user/logout", CT: "application/json", Body: []byte("{}")})
		if !r.ok() {
			w.Violate("logout-failed", "%s cannot log out: %s", u.Email, r)
			return false
		}
		s.Out = true
		a.say("logout")
		if w.Choose("probe", 2) == 0 {
			return a.probe(s)
		}
	case 14: // is it still valid
		if len(u.Sess) > 0 {
			return a.probe(u.Sess[w.Choose("session", len(u.Sess))])
		}
	case 15, 16, 17, 18: // calls without a valid login
		ck, what := a.badCookie()
		c := a.anyCall()
		a.say("%s: %s", what, apiKind(c.Path))
		return a.mustRefuse(ck, c, what)
	case 19, 20: // calls on what is not the user's
		ck := a.cookie(u)
		if ck == "" {
			return false
		}
		c, what := a.foreignCall(u)
		a.say("%s: %s", what, apiKind(c.Path))
		return a.mustRefuse(ck, c, what)
	case 21, 22:
		switch w.Choose("wait", 7) {
		case 0, 1:
			w.Sleep(time.Duration(w.Choose("wait.h", 80)) * time.Hour)
		case 2, 3, 4: // around the end of a session
			if len(u.Sess) == 0 {
				return true
			}
			s := u.Sess[w.Choose("session", len(u.Sess))]
			end := time.Duration(s.Born-w.NowMS())*time.Millisecond + sessionLife
			d := []time.Duration{-time.Hour, -5 * time.Second, -2 * time.Second, 2 * time.Second, 5 * time.Second, time.Minute, time.Hour}[w.Choose("wait.end", 7)]
			if end+d <= 0 {
				return true
			}
			w.Sleep(end + d)
			a.say("end%v", d)
			return a.probe(s)
		case 5:
			w.Sleep(time.Duration(1+w.Choose("wait.s", 100)) * time.Second)
		case 6:
			if w.Choose("wait.long", 4) == 0 {
				w.Sleep(time.Duration(10+w.Choose("wait.d", 180)) * 24 * time.Hour)
				a.say("long")
			}
		}
	case 23: // restart
		w.Crash(a.node)
		w.Sleep(time.Duration(w.Choose("down.ms", 3000)) * time.Millisecond)
		w.Restart(a.node)
		a.say("restart")
	}
	return true
}

func (a *apiWorld) test(u *apiUser, kind, id string) *apiTest {
	for _, t := range u.Tests[kind] {
		if kind == "device" && t.Id == id {
			return t
		}
		for _, i := range t.Inst {
			if i.Id == id {
				return t
			}
		}
	}
	return nil
}

func (a *apiWorld) maybeGone(u *apiUser, kind, id string) bool {
	t := a.test(u, kind, id)
	return t == nil || a.expired(t)
}

func (a *apiWorld) proto(u *apiUser, kind, id string) int {
	if t := a.test(u, kind, id); t != nil && kind != "device" {
		for p, i := range t.Inst {
			if i.Id == id {
				return p
			}
		}
	}
	return 0
}

func (a *apiWorld) runs(u *apiUser, kind, id string) []apiRun {
	if t := a.test(u, kind, id); t != nil {
		return t.Inst[a.proto(u, kind, id)].Runs
	}
	return nil
}

func (a *apiWorld) oneMore(before, now []apiRun, after string) bool {
	if len(now) != len(before)+1 || runsText(now[1:]) != runsText(before) {
		a.w.Violate("runs-changed", "after %s: the runs went from %s to %s", after, runsText(before), runsText(now))
		return false
	}
	return true
}

// probe asks whether a session is accepted.
func (a *apiWorld) probe(s *apiSess) bool {
	w := a.w
	want := a.alive(s)
	c := apiGet("/api/user/loggedin")
	if w.Choose("probe.how", 2) == 0 {
		c = apiGet("/api/" + apiKinds[w.Choose("kind", 3)] + "/testruns")
	}
	r := w.api(a.base, "session="+s.Id, c)
	if a.alive(s) != want {
		return true
	}
	age := (time.Duration(w.NowMS()-s.Born) * time.Millisecond).Round(time.Millisecond)
	if want == 1 && !r.ok() {
		w.Violate("valid-session-refused", "a session of %s, %v old and not logged out, was refused: %s: %s", s.Email, age, c, r)
		return false
	}
	if want == 0 && !r.refused() {
		w.Violate("stale-session-accepted "+apiKind(c.Path), "a session of %s, %v old, logged out %v, was accepted: %s: %s", s.Email, age, s.Out, c, r)
		return false
	}
	if want >= 0 {
		w.Count("api.probe")
		a.say("probe %d", want)
	}
	return true
}

// mustRefuse: the call is refused and changes nothing.
func (a *apiWorld) mustRefuse(ck string, c apiCall, what string) bool {
	w := a.w
	before := a.st.Dump()
	r := w.api(a.base, ck, c)
	if !r.refused() {
		w.Violate("accepted "+strings.Join(strings.Fields(what), "-")+" "+c.Method+" "+apiKind(c.Path), "%s with %s was answered %s", c, what, r)
		return false
	}
	after := a.st.Dump()
	if d := dumpDiff(before, after); d != "" && !strings.HasSuffix(d, "disappeared") {
		w.Violate("refused-but-changed "+c.Method+" "+apiKind(c.Path), "%s with %s was refused (%s), yet %s", c, what, r, d)
		return false
	}
	for k, v := range before {
		if _, ok := after[k]; !ok && strings.HasPrefix(k, "usere-") {
			w.Violate("refused-but-changed "+c.Method+" "+apiKind(c.Path), "%s with %s was refused, yet user record %q (%d bytes) disappeared", c, what, k, len(v))
			return false
		}
	}
	w.Count("api.refused")
	return true
}

func scenC16(w *World) {
	st := w.NewStorage("tool")
	w.seedTools(st, 40)
	cfg := envCfg{ServiceURL: "http://tool"}
	a := &apiWorld{w: w, st: st, base: "http://tool", strange: map[string]bool{}}
	a.node = w.AddNode("tool", "tool", st, serve(&cfg, "dra"))
	used := map[fs.FdoGuid]bool{}
	for i := 0; i < 2; i++ {
		a.devs = append(a.devs, w.distinctDevice(fmt.Sprintf("dev%d", i), 2, used))
	}
	w.storeVoucher(st, a.devs[0])
	for _, e := range []string{onpremUser, "alice@fido.local", "bob@fido.local"} {
		a.users = append(a.users, &apiUser{Email: e, Tests: map[string][]*apiTest{}})
		if e != onpremUser {
			if err := dbs.NewUserTestDB(st.DB).Save(dbs.UserTestDBEntry{Email: e}); err != nil {
				panic("harness: " + err.Error())
			}
		}
	}
	if w.Choose("mode", 3) == 0 {
		a.crowd()
		return
	}
	w.Go(nil, "clients", func() {
		for _, u := range a.users {
			if a.login(u) == nil {
				return
			}
		}
		for k := 8 + w.Choose("steps", 25); k > 0; k-- {
			if !a.step() {
				return
			}
		}
		for _, u := range a.users {
			if ck := a.cookie(u); ck == "" || !a.checkLists(u, ck, "the end", nil, "", apiKinds...) {
				return
			}
		}
	})
	w.Run()
	sh := a.shape
	if len(sh) > 7 {
		sh = sh[:7]
	}
	w.Eval("steps: " + strings.Join(sh, ", "))
}

// ------------------------------------------------------------ several clients at once

type crowdOp struct {
	what       string // create, list, purge
	user, kind string
	name       string
	names      []string
	t0, t1     int64 // order of call and reply
	ok         bool
}

func (a *apiWorld) crowd() {
	w := a.w
	var seq int64
	var hist []*crowdOp
	faulty := w.Choose("crowd.faults", 3)
	if faulty == 1 {
		st := a.st
		st.ErrNum, st.ErrDen, st.ErrOps = 1+w.Choose("dberr", 4), 100, []string{"get", "set commit", "get set commit"}[w.Choose("dberr.ops", 3)]
	}
	if faulty == 2 {
		a.st.CrashNum, a.st.CrashDen = 1, 150
		w.autoRestart(a.node)
	}
	call := func(o *crowdOp, ck string, c apiCall) apiReply {
		seq++
		o.t0 = seq
		hist = append(hist, o)
		r := w.api(a.base, ck, c)
		seq++
		o.t1 = seq
		o.ok = r.ok()
		w.Logf("%s %s %s %s: %s", o.user, o.what, o.kind, o.name, r)
		return r
	}
	nu := 1 + w.Choose("crowd.users", 2)
	first := w.Choose("crowd.first", 3)
	client := func(ci int) {
		u := a.users[(first+ci)%nu]
		ck := ""
		for k := 3 + w.Choose("crowd.steps", 6); k > 0; k-- {
			if ck == "" || u.Email == onpremUser && w.Choose("crowd.relogin", 5) == 0 {
				if u.Email == onpremUser {
					r := w.api(a.base, "", apiCall{Method: "POST", Path: "/api/user/login/onprem", CT: "application/json", Body: []byte("{}")})
					if !r.ok() {
						if faulty == 0 {
							w.Violate("login", "the login failed: %s", r)
							return
						}
						w.Sleep(time.Second)
						continue
					}
					ck = "session=" + r.session()
				} else {
					id, err := dbs.NewSessionDB(a.st.DB).NewSessionEntry(dbs.SessionEntry{Email: u.Email, LoggedIn: true})
					if err != nil {
						w.Sleep(time.Second)
						continue
					}
					ck = "session=" + string(id)
				}
			}
			kind := apiKinds[w.Choose("kind", 3)]
			switch x := w.Choose("crowd.step", 10); {
			case x < 6:
				c, t := a.createCall(kind)
				call(&crowdOp{what: "create", user: u.Email, kind: kind, name: t.Name}, ck, c)
			case x < 9:
				o := &crowdOp{what: "list", user: u.Email, kind: kind}
				r := call(o, ck, apiGet("/api/"+kind+"/testruns"))
				a.crowdList(o, r, faulty != 0)
			default:
				if w.Choose("crowd.purge", 2) == 0 {
					call(&crowdOp{what: "purge", user: u.Email}, ck, apiCall{Method: "POST", Path: "/api/user/purgetests", CT: "application/json", Body: []byte("{}")})
				}
			}
			if w.Choose("pause", 4) == 0 {
				w.Sleep(time.Duration(w.Choose("pause.ms", 400)) * time.Millisecond)
			}
		}
	}
	for i := 2 + w.Choose("crowd.clients", 3); i > 0; i-- {
		i := i
		w.Go(nil, fmt.Sprintf("client%d", i), func() { client(i) })
	}
	w.Run()
	w.heal()
	a.st.ErrNum, a.st.CrashNum = 0, 0
	if !a.node.up {
		w.Restart(a.node)
	}
	w.Advance(10 * time.Second)
	w.Go(nil, "after", func() {
		for _, u := range a.users {
			s := a.login(u)
			if s == nil {
				return
			}
			for _, kind := range apiKinds {
				o := &crowdOp{what: "list", user: u.Email, kind: kind}
				r := call(o, "session="+s.Id, apiGet("/api/"+kind+"/testruns"))
				a.crowdList(o, r, false)
			}
		}
	})
	w.Run()
	a.crowdCheck(hist, faulty)
	w.Eval(fmt.Sprintf("crowd faults %d users %d: %s", faulty, nu, crowdShape(hist)))
}

func (a *apiWorld) crowdList(o *crowdOp, r apiReply, faulty bool) {
	l, err := parseList(o.kind, r)
	if err != nil {
		o.ok = false
		if !faulty {
			a.w.Violate("list-failed "+o.kind, "%s cannot list the %s tests: %v", o.user, o.kind, err)
		} else if r.ok() {
			a.w.Violate("list-failed "+o.kind, "the list of %s does not decode: %v", o.user, err)
		}
		return
	}
	for _, e := range l {
		o.names = append(o.names, e.Name)
	}
}

func crowdShape(h []*crowdOp) string {
	s := ""
	type ev struct {
		t int64
		c string
	}
	var es []ev
	for _, o := range h {
		c := map[string]string{"create": "c", "list": "l", "purge": "p"}[o.what]
		es = append(es, ev{o.t0, c}, ev{o.t1, strings.ToUpper(c)})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].t < es[j].t })
	for _, e := range es {
		s += e.c
		if len(s) > 24 {
			break
		}
	}
	return s
}

// crowdCheck judges every list by the creations and purges around it.
func (a *apiWorld) crowdCheck(hist []*crowdOp, faulty int) {
	w := a.w
	byName := map[string]*crowdOp{}
	var purges []*crowdOp
	for _, o := range hist {
		switch o.what {
		case "create":
			byName[o.name] = o
			if faulty == 0 && !o.ok {
				w.Violate("create-failed "+o.kind, "%s could not create %s", o.user, o.name)
				return
			}
		case "purge":
			purges = append(purges, o)
		}
	}
	for _, l := range hist {
		if l.what != "list" || !l.ok {
			continue
		}
		seen := map[string]bool{}
		for _, n := range l.names {
			if seen[n] {
				w.Violate("listed-twice", "%s is listed twice for %s", n, l.user)
				return
			}
			seen[n] = true
			c := byName[n]
			if c == nil || c.user != l.user || c.kind != l.kind {
				w.Violate("foreign-listed", "%s sees %s, which is not a %s test of that account", l.user, n, l.kind)
				return
			}
			for _, p := range purges {
				if p.user == l.user && p.ok && c.t1 < p.t0 && p.t1 < l.t0 {
					w.Violate("purged-listed", "%s still sees %s, created before an acknowledged purge", l.user, n)
					return
				}
			}
		}
		for _, c := range hist {
			n := c.name
			if c.what != "create" || seen[n] || c.user != l.user || c.kind != l.kind || c.t1 > l.t0 || !c.ok {
				continue
			}
			purged := false
			for _, p := range purges {
				if p.user == l.user && p.t1 > c.t0 && p.t0 < l.t1 {
					purged = true
				}
			}
			if !purged {
				w.Violate("created-lost "+l.kind, "%s created %s, which was acknowledged, and it is missing from a later list %v", l.user, n, l.names)
				return
			}
		}
		// what was seen stays
		for _, e := range hist {
			if e.what != "list" || !e.ok || e.user != l.user || e.kind != l.kind || e.t1 > l.t0 {
				continue
			}
			purged := false
			for _, p := range purges {
				if p.user == l.user && p.t1 > e.t0 && p.t0 < l.t1 {
					purged = true
				}
			}
			if purged {
				continue
			}
			for _, n := range e.names {
				if !seen[n] {
					w.Violate("created-lost "+l.kind, "%s saw %s earlier, and it is missing from a later list %v", l.user, n, l.names)
					return
				}
			}
		}
	}
}
