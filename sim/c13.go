package fdosim

// C13: verdicts of the tests that the tool runs against a server.

import (
	"bytes"
	"crypto/x509"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"net/http"
	"net/http/httptest"
	"sort"
	"strings"
	"time"

	fdodev "github.com/fido-alliance/iot-fdo-conformance-tools/core/device/common"
	dodbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/do/dbs"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
	reqt "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/request"
)

func init() { scenarios["C13"] = scenC13 }

// What became of one message of a run, as the tool can see it.
const (
	tvLost  = iota // no answer (yet)
	tvGood         // the correct server's success reply, untouched
	tvError        // the correct server refused it, and the tool was told so
	tvBad          // the reply was no longer what a correct server would say
	tvLater        // like tvBad, but only a test that uses the content can notice
)

type tvMsg struct {
	cmd  string
	what int
	how  string
}

// tvRun is one run of one test.
type tvRun struct {
	x     *tvInst
	tag   string
	plan  int
	cmd   string // plan 3: the message type, and
	kind  int    // what always happens to it
	at    int    // plan 1: the message
	n     int
	seg   []*tvMsg
	segs  int
	seen  map[string]reqt.RequestTestRun
	run   string                          // its identifier
	tests map[string]testcom.FDOTestState // reported so far
	order []string
	devs  int
	ended bool
}

type tvInst struct {
	kind  string // rvt or dot
	proto int
	id    string
	url   string
	sg    fs.SgType
	vdb   *fs.VoucherDBEntry
	runs  []*tvRun
}

type tvWorld struct {
	w      *World
	st     *Storage // the tool's
	sut    *Storage
	ck     string
	insts  []*tvInst
	live   map[string]*tvRun
	last   map[string][]byte // the latest success reply of each type
	faulty bool              // the server under test crashes
}

func tvGroups(proto int) [][]testcom.FDOTestID {
	switch proto {
	case 0:
		return [][]testcom.FDOTestID{testcom.FIDO_TEST_LIST_RVT_20, testcom.FIDO_TEST_LIST_RVT_22, testcom.FIDO_TEST_LIST_VOUCHER}
	case 1:
		return [][]testcom.FDOTestID{testcom.FIDO_TEST_LIST_DEVT_30, testcom.FIDO_TEST_LIST_DEVT_32}
	}
	return [][]testcom.FDOTestID{testcom.FIDO_TEST_LIST_DOT_60, testcom.FIDO_TEST_LIST_DOT_62, testcom.FIDO_TEST_LIST_DOT_64,
		testcom.FIDO_TEST_LIST_DOT_66, testcom.FIDO_TEST_LIST_DOT_68, testcom.FIDO_TEST_LIST_DOT_70}
}

// tvPositive: the test wants a success.
func tvPositive(id string) bool {
	return strings.HasSuffix(id, "_POSITIVE") || strings.HasSuffix(id, "_CHECK_RESP") || strings.HasSuffix(id, "_SETUP")
}

// tvCmd is the message that a test is about.
func tvCmd(id string) string {
	for _, c := range []string{"20", "22", "30", "32", "60", "62", "64", "66", "68", "70"} {
		if strings.Contains(id, "_"+c+"_") {
			return c
		}
	}
	switch {
	case strings.Contains(id, "_21_"):
		return "20"
	case strings.Contains(id, "_33_"):
		return "32"
	}
	return "22" // 23 and the voucher tests
}

// tvStart: the message type every test of the protocol begins with.
func tvStart(proto int) string { return []string{"20", "30", "60"}[proto] }

func (a *tvWorld) record(x *tvInst) *reqt.RequestTestInst {
	id, _ := hex.DecodeString(x.id)
	rec, ok := a.st.Dump()["rvte-"+string(id)]
	if !ok {
		return nil
	}
	var e reqt.RequestTestInst
	if err := fs.CborCust.Unmarshal([]byte(rec), &e); err != nil {
		a.w.Violate("record-unreadable", "the record of a test does not decode: %v", err)
		return nil
	}
	return &e
}

// look takes what was reported since the last look.
func (a *tvWorld) look(r *tvRun) []string {
	e := a.record(r.x)
	if e == nil {
		return nil
	}
	for _, h := range e.TestsHistory {
		if _, old := r.seen[h.Uuid]; old {
			continue
		}
		if r.run == "" {
			r.run = h.Uuid
		}
		if h.Uuid != r.run {
			continue
		}
		var fresh []string
		for id, s := range h.Tests {
			was, ok := r.tests[string(id)]
			if !ok {
				fresh = append(fresh, string(id))
			} else if was.Passed != s.Passed {
				a.w.Violate("verdict-changed", "TO%d: the verdict of %s changed after the test was over: %v, then %v (%s)", r.x.proto, id, was, s, s.Error)
			}
			r.tests[string(id)] = s
		}
		sort.Strings(fresh)
		return fresh
	}
	return nil
}

// close ends a segment: the messages of one test.
func (a *tvWorld) close(r *tvRun) {
	w := a.w
	seg := r.seg
	r.seg = nil
	fresh := a.look(r)
	if r.x.proto == 1 && r.segs == 0 && len(fresh) == 0 {
		// the set-up of TO1 is no test of its own unless it fails
		r.segs++
		for _, m := range seg {
			if m.what != tvGood {
				w.Violate("setup-passed", "TO1: the device could not be registered (%s), and the tests started", tvText(seg))
			}
		}
		return
	}
	r.segs++
	if len(seg) == 0 && len(fresh) == 0 {
		return
	}
	if len(fresh) != 1 {
		w.Violate("not-one-verdict", "TO%d: one test (%s) made %d verdicts: %s", r.x.proto, tvText(seg), len(fresh), strings.Join(fresh, " "))
		r.order = append(r.order, fresh...)
		return
	}
	id := fresh[0]
	r.order = append(r.order, id)
	passed := r.tests[id].Passed
	w.Logf("verdict of %s: %v (%s) after %s", id, passed, r.tests[id].Error, tvText(seg))
	if passed {
		w.Count("verdict.passed")
	} else {
		w.Count("verdict.failed")
	}
	want := a.expect(id, seg)
	switch {
	case len(seg) == 0:
		w.Violate("untested", "%s got a verdict without a message", id)
	case want == 1 && !passed:
		w.Violate("correct-failed", "%s failed against a server that did all right: %s (%s)", id, r.tests[id].Error, tvText(seg))
	case want == 0 && passed:
		w.Violate("broken-passed", "%s passed, although the server did wrong: %s", id, tvText(seg))
	}
	w.mix(fmt.Sprintf("%s %v", id, passed))
}

func tvText(seg []*tvMsg) string {
	var s []string
	for _, m := range seg {
		s = append(s, fmt.Sprintf("%s:%s%s", m.cmd, []string{"lost", "ok", "refused", "BAD ", "ALTERED "}[m.what], m.how))
	}
	if len(s) > 12 {
		s = append([]string{"..."}, s[len(s)-12:]...)
	}
	return strings.Join(s, " ")
}

// expect is the verdict the messages allow: 1 passed, 0 not, -1 either.
func (a *tvWorld) expect(id string, seg []*tvMsg) int {
	if len(seg) == 0 {
		return -1
	}
	pos := tvPositive(id)
	cmd := tvCmd(id)
	later := false
	for i, m := range seg {
		last := i == len(seg)-1
		switch m.what {
		case tvBad, tvLost:
			return 0
		case tvLater:
			later = true
		case tvError:
			if pos || !last || m.cmd != cmd {
				return 0
			}
		case tvGood:
			if last && !pos {
				return 0 // no invalid message was refused
			}
		}
	}
	if later {
		// Only a test that uses the voucher entries sees what is wrong with them
		if pos && (cmd == "62" || cmd == "64" || cmd == "66" || cmd == "68" || cmd == "70") || !pos && (cmd == "64" || cmd == "66" || cmd == "68" || cmd == "70") {
			return 0
		}
		return -1
	}
	return 1
}

// server is the server under test: a correct one, that does what the plan of a run says.
func (a *tvWorld) server(real http.Handler) http.Handler {
	w := a.w
	return http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) {
		r := a.live[w.currentTask().Tag]
		if r == nil || r.ended || len(r.seg) == 0 {
			real.ServeHTTP(rw, q)
			return
		}
		m := r.seg[len(r.seg)-1]
		if w.Choose("sut.slow", 40) == 0 {
			w.Sleep(time.Duration(1+w.Choose("sut.s", 20)) * time.Second)
		}
		rec := httptest.NewRecorder()
		real.ServeHTTP(rec, q)
		if m.what != tvLost {
			return // answered twice
		}
		ok := rec.Code == 200
		body := append([]byte{}, rec.Body.Bytes()...)
		head := rec.Result().Header
		if !a.deviates(r, m.cmd, ok) {
			m.what = tvGood
			if !ok {
				m.what = tvError
			} else {
				a.last[m.cmd] = body
			}
			tvReply(rw, head, rec.Code, body)
			return
		}
		r.devs++
		w.Count("fault.server_deviates")
		a.deviate(rw, r, m, q, head, rec.Code, body)
	})
}

func tvReply(rw http.ResponseWriter, head http.Header, code int, body []byte) {
	for k, v := range head {
		rw.Header()[k] = v
	}
	rw.Header().Del("Content-Length")
	rw.WriteHeader(code)
	rw.Write(body)
}

func (a *tvWorld) deviates(r *tvRun, cmd string, ok bool) bool {
	w := a.w
	switch r.plan {
	case 1:
		return r.n == r.at
	case 2:
		return w.Choose("dev", 14) == 0
	case 3:
		return cmd == r.cmd
	case 4: // it refuses nothing
		return !ok && (r.cmd == "" || cmd == r.cmd)
	}
	return false
}

// deviate does not answer as a correct server.
func (a *tvWorld) deviate(rw http.ResponseWriter, r *tvRun, m *tvMsg, q *http.Request, head http.Header, code int, body []byte) {
	w := a.w
	pick := func(label string, n int) int {
		if r.plan == 3 {
			return r.kind % n
		}
		return w.Choose(label, n)
	}
	ferr := func(c int) []byte {
		return mustCbor(fs.FdoError{EMErrorCode: fs.FdoErrorCode(c), EMErrorStr: "no"})
	}
	cut := func(b []byte) []byte { return b[:len(b)*(1+w.Choose("cut", 7))/8] }
	set := func(how string, status int, b []byte) {
		m.what, m.how = tvBad, how
		w.Count("deviation." + how)
		w.Logf("deviation %s", how)
		w.mix(how)
		tvReply(rw, head, status, b)
	}
	gone := func(k int) {
		m.what = tvBad
		m.how = []string{"hang", "abort", "stall"}[k]
		w.Count("deviation." + m.how)
		w.Logf("deviation %s", m.how)
		w.mix(m.how)
		switch k {
		case 0:
			w.Sleep(2 * time.Minute)
			tvReply(rw, head, code, body)
		case 1:
			panic("the server under test gives up")
		case 2:
			head.Set("X-Sim-Stall", "1")
			b := cut(body)
			tvReply(rw, head, code, b)
		}
	}
	if code == 200 {
		if k := 20; pick("dev.content", 3) == 0 {
			if b, how, later := a.content(r, m, q, body, k); b != nil {
				set(how, 200, b)
				if later {
					m.what = tvLater
				}
				return
			}
		}
		switch pick("dev.kind", 11) {
		case 0:
			head.Set("Message-Type", "255")
			set("refuses", 500, ferr(100))
		case 1:
			head.Set("Message-Type", "255")
			set("error in success", 200, ferr(101))
		case 2:
			head.Set("Content-Type", "text/html")
			set("html error", 502, []byte("<html>bad gateway</html>"))
		case 3:
			set("empty", 200, nil)
		case 4:
			set("text", 200, mustCbor("hello"))
		case 5:
			set("garbage", 200, []byte{0xff, 0xfe, 0x00, 0x01})
		case 6:
			set("cut", 200, cut(body))
		case 7:
			set("null", 200, []byte{0xf6})
		default:
			gone(pick("dev.gone", 3))
		}
		return
	}
	good := a.last[m.cmd]
	switch pick("err.kind", 13) {
	case 0, 1:
		if good != nil {
			set("accepts", 200, good)
			return
		}
		set("accepts with nothing", 200, nil)
	case 2:
		set("error in success", 200, body)
	case 3:
		head.Set("Content-Type", "text/html")
		set("html error", 500, []byte("<html>error</html>"))
	case 4:
		set("empty error", 500, nil)
	case 5:
		set("null error", 500, []byte{0xf6})
	case 6:
		set("error of wrong types", 500, mustCbor([]interface{}{"a", "b", 3, []byte{4}, "e"}))
	case 7:
		set("short error", 500, mustCbor([]interface{}{100, 20}))
	case 8:
		set("cut error", code, cut(body))
	case 9:
		if good != nil {
			set("success in error", 500, good)
			return
		}
		set("text error", 500, mustCbor("no"))
	default:
		gone(pick("dev.gone", 3))
	}
}

// content is a well-formed success reply with wrong content (nil if there is none for the message).
func (a *tvWorld) content(r *tvRun, m *tvMsg, q *http.Request, body []byte, _ int) ([]byte, string, bool) {
	w := a.w
	x := r.x
	if x.kind != "dot" {
		return nil, "", false
	}
	flip := func(b []byte) []byte {
		c := append([]byte{}, b...)
		c[w.Choose("flip", len(c))] ^= byte(1 << w.Choose("flip.bit", 8))
		return c
	}
	sign := func(s fs.CoseSignature, payload []byte) []byte {
		key, err := fs.ExtractPrivateKey(x.vdb.PrivateKeyX509)
		if err != nil {
			panic("harness: " + err.Error())
		}
		var un fs.UnprotectedHeader = s.Unprotected
		c, err := fs.GenerateCoseSignature(payload, fs.ProtectedHeader{}, un, key, x.sg)
		if err != nil {
			panic("harness: " + err.Error())
		}
		return mustCbor(c)
	}
	switch m.cmd {
	case "60":
		var s fs.CoseSignature
		var p fs.TO2ProveOVHdrPayload
		if fs.CborCust.Unmarshal(body, &s) != nil || fs.CborCust.Unmarshal(s.Payload, &p) != nil {
			return nil, "", false
		}
		switch w.Choose("dev.61", 8) {
		case 0:
			s.Payload = flip(s.Payload)
			return mustCbor(s), "61 altered", false
		case 1:
			s.Signature = flip(s.Signature)
			return mustCbor(s), "61 signature", false
		case 2:
			p.NonceTO2ProveOV = fs.NewFdoNonce()
			return sign(s, mustCbor(p)), "61 nonce", false
		case 3:
			p.HelloDeviceHash.Hash = flip(p.HelloDeviceHash.Hash)
			return sign(s, mustCbor(p)), "61 hash", false
		case 4:
			p.HMac.Hash = flip(p.HMac.Hash)
			return sign(s, mustCbor(p)), "61 hmac", false
		case 5:
			p.NumOVEntries = 0
			return sign(s, mustCbor(p)), "61 no entries", true
		case 6:
			if p.NumOVEntries > 1 {
				p.NumOVEntries--
				return sign(s, mustCbor(p)), "61 fewer entries", true
			}
		case 7:
			p.NumOVEntries += uint8(1 + w.Choose("dev.61.more", 3))
			return sign(s, mustCbor(p)), "61 more entries", true
		}
	case "62":
		var e fs.OVNextEntry63
		if fs.CborCust.Unmarshal(body, &e) != nil {
			return nil, "", false
		}
		switch w.Choose("dev.63", 3) {
		case 0:
			// the one before, the one after, another one
			e.OVEntryNum += []uint8{255, 255, 1, uint8(1 + w.Choose("dev.63.num", 255))}[w.Choose("dev.63.near", 4)]
			return mustCbor(e), "63 number", true
		case 1:
			e.OVEntry.Signature = flip(e.OVEntry.Signature)
			return mustCbor(e), "63 signature", true
		case 2:
			e.OVEntry.Payload = flip(e.OVEntry.Payload)
			return mustCbor(e), "63 altered", true
		}
	case "64", "66", "68", "70":
		s := w.ownerSession(a.sut, q.Header.Get("Authorization"))
		if s == nil {
			return nil, "", false
		}
		plain, err := fs.RemoveEncryptionWrapping(body, s.SessionKey, s.CipherSuiteName)
		if err != nil {
			return nil, "", false
		}
		seal := func(b []byte) []byte {
			e, err := fs.AddEncryptionWrapping(b, s.SessionKey, s.CipherSuiteName)
			if err != nil {
				panic("harness: " + err.Error())
			}
			return e
		}
		switch k := w.Choose("dev.enc", 6); {
		case k == 0:
			return plain, "not encrypted", false
		case k == 1:
			return seal(mustCbor("hello")), "sealed text", false
		case k == 2:
			return seal(nil), "sealed nothing", false
		case k == 3:
			other := s.SessionKey
			other.ShSe = flip(other.ShSe)
			e, err := fs.AddEncryptionWrapping(plain, other, s.CipherSuiteName)
			if err != nil {
				return nil, "", false
			}
			return e, "sealed with another key", false
		case m.cmd == "64":
			var c fs.CoseSignature
			var p fs.TO2SetupDevicePayload
			if fs.CborCust.Unmarshal(plain, &c) != nil || fs.CborCust.Unmarshal(c.Payload, &p) != nil {
				return nil, "", false
			}
			if k == 4 {
				p.NonceTO2SetupDv = fs.NewFdoNonce()
				return seal(sign(c, mustCbor(p))), "65 nonce", false
			}
			c.Signature = flip(c.Signature)
			return seal(mustCbor(c)), "65 signature", false
		case m.cmd == "70":
			return seal(mustCbor(fs.Done271{NonceTO2SetupDv: fs.NewFdoNonce()})), "71 nonce", false
		}
	}
	return nil, "", false
}

func (a *tvWorld) make(kind string) bool {
	w := a.w
	url := "http://sut"
	if w.Choose("dead", 12) == 0 {
		url = "http://nowhere"
	}
	var c apiCall
	sg := ownerSgs[0]
	if kind == "rvt" {
		c = apiPost("/api/rvt/create", map[string]string{"url": url})
	} else {
		sg = ownerSgs[w.Choose("dot.sg", len(ownerSgs))]
		key, _, _ := w.ownerKey(sg, w.Choose("dot.key", 2))
		der, err := x509.MarshalPKCS8PrivateKey(key)
		if err != nil {
			panic("harness: " + err.Error())
		}
		c = apiPost("/api/dot/create", map[string]string{"url": url, "priv_key": string(pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: der}))})
	}
	if r := w.api("http://tool", a.ck, c); !r.ok() {
		w.Violate("create-failed", "a %s test cannot be created: %s", kind, r)
		return false
	}
	l, _, err := w.list("http://tool", a.ck, kind)
	if err != nil || len(l) == 0 {
		w.Violate("create-failed", "a created test is not listed: %v", err)
		return false
	}
	e := l[len(l)-1]
	for p := 0; p < 3; p++ {
		if e.Inst[p] == nil {
			continue
		}
		x := &tvInst{kind: kind, proto: p, id: e.Inst[p].Id, url: url, sg: sg}
		a.insts = append(a.insts, x)
		if kind == "rvt" {
			continue
		}
		r := w.api("http://tool", a.ck, apiGet("/api/dot/vouchers/"+x.id))
		files, err := zipVouchers(r)
		if err != nil || len(files) == 0 {
			w.Violate("vouchers", "the vouchers of a test cannot be fetched: %v (%s)", err, r)
			return false
		}
		for _, n := range sortedKeys(files) {
			v, err := fdodev.DecodePemVoucherAndKey(files[n])
			if err != nil {
				w.Violate("vouchers", "a voucher of a test does not decode: %v", err)
				return false
			}
			x.vdb = v
			if err := dodbs.NewVoucherDB(a.sut.DB).Save(*v); err != nil {
				panic("harness: " + err.Error())
			}
		}
	}
	return true
}

var tvCmds = [][]string{{"20", "22"}, {"30", "32", "20", "22"}, {"60", "62", "64", "66", "68", "70"}}

// run executes a test once and judges what it reports.
func (a *tvWorld) run(x *tvInst, n int) {
	w := a.w
	r := &tvRun{x: x, tag: fmt.Sprintf("verdicts %d", n), seen: map[string]reqt.RequestTestRun{}, tests: map[string]testcom.FDOTestState{}}
	r.plan = w.Choose("plan", 6)
	switch r.plan {
	case 1:
		r.at = 1 + w.Choose("plan.at", []int{50, 24, 180}[x.proto])
	case 3:
		cs := tvCmds[x.proto]
		r.cmd, r.kind = cs[w.Choose("plan.cmd", len(cs))], w.Choose("plan.kind", 60)
	case 4:
		cs := append([]string{""}, tvCmds[x.proto]...)
		r.cmd = cs[w.Choose("plan.cmd", len(cs))]
	}
	if e := a.record(x); e != nil {
		for _, h := range e.TestsHistory {
			r.seen[h.Uuid] = h
		}
	}
	x.runs = append(x.runs, r)
	a.live[r.tag] = r
	t := w.currentTask()
	t.Tag = r.tag
	rep := w.api("http://tool", a.ck, apiPost("/api/"+x.kind+"/execute", map[string]string{"id": x.id}))
	t.Tag = ""
	a.close(r)
	r.ended = true
	if w.endErr != "" || len(w.violations) > 0 {
		return
	}
	if !rep.ok() {
		w.Violate("run-broken", "a run of the TO%d tests against a server did not end properly: %s", x.proto, rep)
		return
	}
	e := a.record(x)
	if e == nil || e.InProgress {
		w.Violate("not-finished", "a run of the TO%d tests is over, and still shown as running", x.proto)
		return
	}
	a.checkOrder(r)
	w.CountN("messages", int64(r.n))
	w.Count(fmt.Sprintf("runs.TO%d", x.proto))
	if r.devs == 0 {
		w.Count("runs.untouched")
	}
}

// checkOrder: every listed test in its place, and one left out only after a failed one.
func (a *tvWorld) checkOrder(r *tvRun) {
	w := a.w
	if len(r.order) == 1 && r.order[0] == string(testcom.NULL_TO1_SETUP) && r.x.proto == 1 {
		return
	}
	at := 0
	failed := false
	for _, g := range tvGroups(r.x.proto) {
		failed = failed && r.x.proto == 1 // a failed TO1 test may end the run, another one its group only
		for _, id := range g {
			if at < len(r.order) && r.order[at] == string(id) {
				at++
				failed = failed || !r.tests[string(id)].Passed
				continue
			}
			if !failed {
				w.Violate("test-missing", "TO%d: %s was not run in its place, although every test before it passed; the run made %s", r.x.proto, id, strings.Join(r.order, " "))
				return
			}
		}
	}
	if at != len(r.order) {
		w.Violate("test-strange", "TO%d: the run made %s", r.x.proto, strings.Join(r.order, " "))
	}
}

func scenC13(w *World) {
	st := w.NewStorage("tool")
	w.seedTools(st, 40)
	cfg := envCfg{ServiceURL: "http://tool"}
	a := &tvWorld{w: w, st: st, live: map[string]*tvRun{}, last: map[string][]byte{}}
	w.AddNode("tool", "tool", st, serve(&cfg, "dra"))
	a.sut = w.NewStorage("sut")
	scfg := envCfg{ServiceURL: "http://sut"}
	sut := w.AddNode("sut", "sut", a.sut, func(n *Node) http.Handler { return a.server(serve(&scfg, "dr")(n)) })
	ok := false
	kinds := [][]string{{"rvt"}, {"dot"}, {"rvt", "dot"}}[w.Choose("tests", 3)]
	w.Go(nil, "setup", func() {
		r := w.api("http://tool", "", apiCall{Method: "POST", Path: "/api/user/login/onprem", CT: "application/json", Body: []byte("{}")})
		if r.session() == "" {
			w.Violate("login", "the login failed: %s", r)
			return
		}
		a.ck = "session=" + r.session()
		for _, k := range kinds {
			if !a.make(k) {
				return
			}
		}
		ok = true
	})
	w.Run()
	if !ok || w.endErr != "" || len(w.violations) > 0 {
		return
	}
	w.OnMsg = func(m *Msg) {
		r := a.live[m.From.Tag]
		if r == nil || r.ended || m.Host == "tool" {
			return
		}
		if r.n > 0 && m.Cmd() == tvStart(r.x.proto) {
			a.close(r)
		}
		r.n++
		r.seg = append(r.seg, &tvMsg{cmd: m.Cmd()})
	}
	if w.Choose("sut.crashes", 6) == 0 {
		a.faulty = true
		a.sut.CrashNum, a.sut.CrashDen = 1, 150
		w.autoRestart(sut)
	}
	// tests run one after the other, or at once
	n := 0
	var order []*tvInst
	for _, x := range a.insts {
		if w.Choose("skip", 3) == 0 && len(a.insts) > 1 {
			continue
		}
		order = append(order, x)
	}
	if len(order) == 0 {
		order = a.insts[:1]
	}
	if w.Choose("again", 4) == 0 {
		order = append(order, order[0])
	}
	together := w.Choose("together", 2) == 1
	busy := map[*tvInst]bool{}
	if together {
		for _, x := range order {
			if busy[x] {
				continue
			}
			busy[x] = true
			n++
			x, k := x, n
			w.Go(nil, fmt.Sprintf("user%d", k), func() { a.run(x, k) })
		}
	} else {
		w.Go(nil, "user", func() {
			for _, x := range order {
				n++
				a.run(x, n)
				if w.endErr != "" || len(w.violations) > 0 {
					return
				}
			}
		})
	}
	w.Run()
	if w.endErr != "" || len(w.violations) > 0 {
		return
	}
	s := fmt.Sprintf("together %v crashes %v:", together, a.faulty)
	for _, x := range a.insts {
		for _, r := range x.runs {
			if !r.ended {
				w.Violate("no-end", "a run of the TO%d tests never ended", x.proto)
			}
			p := 0
			for _, t := range r.tests {
				if t.Passed {
					p++
				}
			}
			s += fmt.Sprintf(" TO%d plan %d dev %d passed %d/%d", x.proto, r.plan, r.devs, p, len(r.tests))
		}
	}
	w.Eval(s)
	_ = bytes.Equal
}
