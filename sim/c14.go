package fdosim

// C14: the conformance test of a device. The tool answers the device's messages
// with the listed invalid replies, one per attempt, and takes each result from
// what the device does next.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
)

func init() { scenarios["C14"] = scenC14 }

// ------------------------------------------------------------ the reference

// lstOrder is the order of the tested commands, lstTests the invalid replies to each.
var lstOrder = map[int][]string{1: {"30", "32"}, 2: {"60", "62", "64", "66", "68", "70"}}

func lstTests(cmd string) []string {
	var ids []testcom.FDOTestID
	switch cmd {
	case "30":
		ids = []testcom.FDOTestID{testcom.FIDO_LISTENER_DEVICE_30_BAD_ENCODING}
	case "32":
		ids = []testcom.FDOTestID{testcom.FIDO_LISTENER_DEVICE_32_BAD_ENCODING, testcom.FIDO_LISTENER_DEVICE_32_BAD_TO1D}
	case "60":
		ids = []testcom.FDOTestID{
			testcom.FIDO_LISTENER_DEVICE_60_BAD_OVHDR_OVHEADER, testcom.FIDO_LISTENER_DEVICE_60_BAD_NONCE_TO2PROVEOV,
			testcom.FIDO_LISTENER_DEVICE_60_BAD_EBSIGNINFO, testcom.FIDO_LISTENER_DEVICE_60_BAD_HELLODEVICEHASH,
			testcom.FIDO_LISTENER_DEVICE_60_BAD_COSE_SIGNATURE, testcom.FIDO_LISTENER_DEVICE_60_BAD_HELLOACK_PAYLOAD_ENCODING,
			testcom.FIDO_LISTENER_DEVICE_60_BAD_HELLOACK_ENCODING, testcom.FIDO_LISTENER_DEVICE_60_MISSING_AUTHZ_HEADER}
	case "62":
		ids = []testcom.FDOTestID{testcom.FIDO_LISTENER_DEVICE_62_BAD_OVENTRY_COSE_SIGNATURE,
			testcom.FIDO_LISTENER_DEVICE_62_BAD_OVNEXTENTRY_PAYLOAD, testcom.FIDO_LISTENER_DEVICE_62_BAD_OVENTRYNUM}
	case "64":
		ids = []testcom.FDOTestID{testcom.FIDO_LISTENER_DEVICE_64_BAD_NONCE_TO2SETUPDV,
			testcom.FIDO_LISTENER_DEVICE_64_BAD_SETUPDEVICE_PAYLOAD, testcom.FIDO_LISTENER_DEVICE_64_BAD_SETUPDEVICE_COSE_SIGNATURE,
			testcom.FIDO_LISTENER_DEVICE_64_BAD_SETUPDEVICE_BYTES, testcom.FIDO_LISTENER_DEVICE_64_BAD_ENC_WRAPPING,
			testcom.FIDO_LISTENER_DEVICE_64_BAD_SETUPDEVICE_ENCODING}
	case "66":
		ids = []testcom.FDOTestID{testcom.FIDO_LISTENER_DEVICE_66_BAD_ENCODING, testcom.FIDO_LISTENER_DEVICE_66_BAD_ENC_WRAPPING}
	case "68":
		ids = []testcom.FDOTestID{testcom.FIDO_LISTENER_DEVICE_68_BAD_ENCODING, testcom.FIDO_LISTENER_DEVICE_68_BAD_ENC_WRAPPING}
	case "70":
		ids = []testcom.FDOTestID{testcom.FIDO_LISTENER_DEVICE_70_BAD_NONCE_TO2SETUPDV64,
			testcom.FIDO_LISTENER_DEVICE_70_BAD_DONE71_ENCODING, testcom.FIDO_LISTENER_DEVICE_70_BAD_ENC_WRAPPING}
	}
	var l []string
	for _, id := range ids {
		l = append(l, string(id))
	}
	return l
}

const lstPositive = "FIDO_LISTENER_POSITIVE"

// replies a test has
const (
	rErr     = "error"
	rValid   = "valid"
	rInvalid = "invalid"
	rNone    = "none"
)

// lstState is a device test as far as one protocol goes.
type lstState struct {
	proto     int
	running   bool
	completed bool
	removed   bool
	stage     int // index into lstOrder
	next      int // the next test of this command
	pending   string
	results   []string // "+id" or "-id"
}

func (s lstState) key() string {
	return fmt.Sprintf("%v %v %v %d.%d %s %v", s.running, s.completed, s.removed, s.stage, s.next, s.pending, s.results)
}

func (s lstState) push(r string) lstState {
	s.results = append(append([]string{}, s.results...), r)
	return s
}

func (s lstState) cmd() string { return lstOrder[s.proto][s.stage] }

func stageOf(proto int, cmd string) int {
	for i, c := range lstOrder[proto] {
		if c == cmd {
			return i
		}
	}
	return -1
}

// judge is the state after a message of this device was seen, before it is answered.
func (s lstState) judge(cmd string, carriesOn bool) (n lstState, failed bool) {
	if !s.running || s.pending == "" || stageOf(s.proto, cmd) < s.stage || s.undecided(cmd, carriesOn) {
		return s, false
	}
	if cmd == s.cmd() && !carriesOn {
		n = s.push("+" + s.pending)
	} else {
		n, failed = s.push("-"+s.pending), true
	}
	n.pending = ""
	return n, failed
}

// A device may fetch all entries before it verifies the first.
func (s lstState) undecided(cmd string, carriesOn bool) bool {
	return s.running && s.pending != "" && cmd == s.cmd() && cmd == "62" && carriesOn
}

// give is the state after the answer.
func (s lstState) give(cmd string) (n lstState, reply, test string) {
	if !s.running || cmd != s.cmd() || s.pending != "" {
		return s, rValid, ""
	}
	l := lstTests(cmd)
	if s.next < len(l) {
		n = s
		n.pending = l[s.next]
		n.next++
		return n, rInvalid, n.pending
	}
	n = s.push("+" + lstPositive)
	n.next = 0
	if s.stage+1 < len(lstOrder[s.proto]) {
		n.stage++
	} else {
		n.running, n.completed = false, true
	}
	return n, rValid, lstPositive
}

// ------------------------------------------------------------ the world

type lstWorld struct {
	*apiWorld
	node   *Node
	user   *apiUser
	faults int
	quiet  bool // no fault may hit any more
}

type lstDev struct {
	a     *lstWorld
	d     *Dev
	id    string // the test's id, "" if the device has none
	to1d  []byte // what 33 holds
	names map[int]map[string]lstState
	done  map[int]int // completed runs
}

func scenC14(w *World) {
	st := w.NewStorage("tool")
	w.seedTools(st, 40)
	cfg := envCfg{ServiceURL: "http://tool"}
	a := &lstWorld{apiWorld: &apiWorld{w: w, st: st, base: "http://tool", strange: map[string]bool{}}}
	a.user = &apiUser{Email: onpremUser, Tests: map[string][]*apiTest{}}
	a.node = w.AddNode("tool", "tool", st, serve(&cfg, "dra"))
	used := map[fs.FdoGuid]bool{}
	var devs []*lstDev
	n := 1 + w.Choose("ndev", 3)
	for i := 0; i < n; i++ {
		d := w.distinctDevice(fmt.Sprintf("d%d", i), 3, used)
		devs = append(devs, &lstDev{a: a, d: d, names: map[int]map[string]lstState{}, done: map[int]int{}})
	}
	ok := false
	w.Go(nil, "setup", func() { ok = a.setup(devs) })
	w.Run()
	if !ok || len(w.violations) > 0 {
		return
	}
	a.faults = w.Choose("faults", 4)
	w.Net.MaxDelayMS = []int{1, 3, 40}[w.Choose("net.maxdelay", 3)]
	switch a.faults {
	case 1:
		st.ErrNum, st.ErrDen, st.ErrOps = 1+w.Choose("dberr", 4), 150, []string{"get", "set commit", "get set commit"}[w.Choose("dberr.ops", 3)]
	case 2:
		st.CrashNum, st.CrashDen = 1, 200
		w.autoRestart(a.node)
	case 3:
		w.Net.DropReq, w.Net.DropResp = 10+w.Choose("dropreq", 40), 10+w.Choose("dropresp", 40)
	}
	for _, x := range devs {
		x := x
		w.Go(nil, x.d.Name, func() { x.life() })
	}
	w.Run()
	if w.endErr != "" || len(w.violations) > 0 {
		if w.endErr != "" {
			w.Violate("no-progress", "the run did not end: %s", w.endErr)
		}
		return
	}
	w.heal()
	a.quiet = true
	st.ErrNum, st.CrashNum = 0, 0
	if !a.node.up {
		w.Restart(a.node)
	}
	w.Go(nil, "end", func() {
		for _, x := range devs {
			for p := 1; p <= 2; p++ {
				x.check(p, true)
			}
			if w.Choose("end.complete", 2) == 0 {
				x.complete(1 + w.Choose("end.proto", 2))
			}
		}
	})
	w.Run()
	if w.endErr != "" {
		w.Violate("no-progress", "the run did not end: %s", w.endErr)
	}
}

func (a *lstWorld) cookie() string {
	for i := 0; i < 200; i++ {
		if r := a.w.api(a.base, "", apiCall{Method: "POST", Path: "/api/user/login/onprem", CT: "application/json", Body: []byte("{}")}); r.ok() {
			return "session=" + r.session()
		}
		a.w.Sleep(time.Second)
	}
	a.w.Violate("no-login", "logging in never succeeds")
	return ""
}

// setup makes the tests; one of the devices may stay without.
func (a *lstWorld) setup(devs []*lstDev) bool {
	w := a.w
	ck := a.cookie()
	for i, x := range devs {
		if i > 0 && w.Choose("untested", 4) == 0 {
			w.storeVoucher(a.st, x.d)
			if r, blob := w.register(a.base, x.d, regOpt{Wait: 1 << 20}); !r.ok() {
				w.Violate("setup", "a device cannot be registered: %s", r)
				return false
			} else {
				x.to1d = []byte(blob)
			}
		} else {
			c := apiPost("/api/device/create", map[string]string{"name": x.d.Name, "voucher": voucherPem(x.d)})
			if r := w.api(a.base, ck, c); !r.ok() {
				w.Violate("setup", "a test cannot be created: %s", r)
				return false
			}
			l, _, err := w.list(a.base, ck, "device")
			if err != nil || len(l) == 0 {
				w.Violate("setup", "a created test is not listed: %v", err)
				return false
			}
			x.id = l[len(l)-1].Inst[1].Id
			s, r := w.hello30(a.base, x.d.Guid(), x.d.Cred.DCSigInfo)
			if !r.ok() {
				w.Violate("setup", "hello: %s", r)
				return false
			}
			r = w.rawPost(a.base, "32", s.Token, w.proof32(x.d, s.Nonce, nil, 0))
			if !r.ok() {
				w.Violate("setup", "proof: %s", r)
				return false
			}
			x.to1d = r.Body
		}
		for p := 1; p <= 2; p++ {
			s := lstState{proto: p}
			x.names[p] = map[string]lstState{s.key(): s}
		}
	}
	return true
}

func (x *lstDev) states(p int) []lstState {
	var l []lstState
	for _, k := range sortedKeys(x.names[p]) {
		l = append(l, x.names[p][k])
	}
	return l
}

func (x *lstDev) set(p int, l []lstState) {
	x.names[p] = map[string]lstState{}
	for _, s := range l {
		x.names[p][s.key()] = s
	}
}

func (x *lstDev) describe(p int) string {
	var l []string
	for i, s := range x.states(p) {
		if i == 4 {
			l = append(l, "...")
			break
		}
		l = append(l, s.key())
	}
	return strings.Join(l, " | ")
}

// ------------------------------------------------------------ messages

// step takes account of one message: sess tells whether the message belongs to a
// session (and is encrypted well), good whether the tool should be able to answer it.
func (x *lstDev) step(cmd string, carriesOn, sess, good bool, got, what string) bool {
	p := 2
	if cmd < "60" {
		p = 1
	}
	w := x.a.w
	faulty := x.a.faults != 0 && !x.a.quiet
	var next []lstState
	var wants []string
	for _, s := range x.states(p) {
		type out struct {
			s lstState
			r string
		}
		var outs []out
		switch {
		case !sess:
			outs = append(outs, out{s, rErr})
		default:
			j, failed := s.judge(cmd, carriesOn)
			if faulty {
				outs = append(outs, out{s, rErr}, out{j, rErr})
			}
			if failed || !good {
				outs = append(outs, out{j, rErr})
			} else {
				g, r, t := j.give(cmd)
				outs = append(outs, out{g, r})
				if faulty {
					outs = append(outs, out{g, rErr})
				}
				if t != "" && r == got {
					w.Count("test." + t)
				}
			}
		}
		for _, o := range outs {
			if o.r == got || got == rNone {
				next = append(next, o.s)
			}
			if !faulty || o.r != rErr {
				wants = append(wants, o.r)
			}
		}
		if got == rNone {
			next = append(next, s)
		}
	}
	w.Logf("%s %s %s: %s", x.d.Name, cmd, what, got)
	if len(next) == 0 {
		w.Violate(fmt.Sprintf("wrong-reply %s %s instead of %s", cmd, got, strings.Join(uniq(wants), "/")),
			"%s: %s %s was answered by a reply that is %s, where the state is %s", x.d.Name, cmd, what, got, x.describe(p))
		return false
	}
	x.set(p, next)
	return true
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func uniq(l []string) []string {
	seen := map[string]bool{}
	var o []string
	for _, s := range l {
		if !seen[s] {
			seen[s] = true
			o = append(o, s)
		}
	}
	return o
}

// class tells what a reply is, given whether its contents are valid.
func (x *lstDev) class(cmd string, r rawReply, valid func() string) (string, string) {
	if r.Err != nil {
		return rNone, r.Err.Error()
	}
	if r.Status != 200 {
		if bad := badErrorReply(cmd, r.Status, r.Head, r.Body); bad != "" {
			x.a.w.Violate("bad-error-reply "+cmd, "%s", bad)
		}
		return rErr, errText(r.Body)
	}
	if mt := r.Head.Get("Message-Type"); mt != nextCmd(cmd) {
		x.a.w.Violate("message-type "+cmd, "a reply of type %q to %s", mt, cmd)
	}
	if bad := valid(); bad != "" {
		return rInvalid, bad
	}
	return rValid, ""
}

func decodeAll(b []byte, v interface{}) string {
	if _, rest, ok := parseCbor(b); !ok || len(rest) != 0 {
		return "malformed"
	}
	if err := fs.CborCust.Unmarshal(b, v); err != nil {
		return err.Error()
	}
	return ""
}

func (x *lstDev) signed(b []byte) (c fs.CoseSignature, bad string) {
	if bad = decodeAll(b, &c); bad != "" {
		return c, bad
	}
	if err := fs.VerifyCoseSignature(c, x.d.finalPub()); err != nil {
		return c, "signature: " + err.Error()
	}
	return c, ""
}

// lstSess is one attempt of the device, written out by hand.
type lstSess struct {
	x     *lstDev
	s     *rawSess
	nonce fs.FdoNonce // of 31
	token string
	asked map[int]bool
	last  string // the command answered last
	fin   bool   // the owner has sent everything
}

func (c *lstSess) send(cmd string, body []byte) (rawReply, string) {
	tok := c.token
	if cmd == "30" || cmd == "60" {
		tok = ""
	}
	r := c.x.a.w.rawPost(c.x.a.base, cmd, tok, body)
	return r, tok
}

// spoil makes a body that cannot be accepted.
func (c *lstSess) spoil(body []byte) []byte {
	w := c.x.a.w
	switch w.Choose("spoil", 3) {
	case 0:
		return body[:len(body)/2]
	case 1:
		return []byte{0xff}
	default:
		return append([]byte{0x1c}, body...)
	}
}

func (x *lstDev) life() {
	w := x.a.w
	d := x.d
	for i, n := 0, 2+w.Choose("acts", 14); i < n; i++ {
		if len(w.violations) > 0 {
			return
		}
		switch w.Choose("act", 10) {
		case 0, 1:
			if x.id != "" {
				x.start(1 + w.Choose("act.proto", 2))
			}
		case 2:
			if x.id != "" && w.Choose("act.remove", 3) == 0 {
				x.remove(1 + w.Choose("act.proto", 2))
			}
		case 3:
			x.check(1+w.Choose("act.proto", 2), false)
		case 4:
			w.Sleep(time.Duration(1+w.Choose("act.pause", 900)) * time.Second)
		case 5:
			if w.Choose("act.genuine", 2) == 0 {
				x.genuine1()
			} else {
				x.genuine2(w.chosenOpt(d))
			}
		case 6, 7, 8:
			x.attempt2(w.chosenOpt(d))
		case 9:
			x.attempt1()
		}
	}
}

// move is what a device does at each point.
func (x *lstDev) move() string {
	return []string{"go", "go", "go", "go", "go", "go", "go", "go", "go", "go", "go", "spoil", "stray", "quit", "other", "again"}[x.a.w.Choose("move", 16)]
}

// onwards decides what follows a reply.
func (x *lstDev) onwards(r string) bool {
	if r == rInvalid {
		return x.a.w.Choose("carry.on", 3) == 0
	}
	return r == rValid
}

// attempt1 is one TO1 by hand.
func (x *lstDev) attempt1() {
	w, d := x.a.w, x.d
	c := &lstSess{x: x}
	hello := mustCbor(fs.HelloRV30{Guid: d.Guid(), EASigInfo: d.Cred.DCSigInfo})
	if w.Choose("to1.spoil", 12) == 0 {
		r, _ := c.send("30", c.spoil(hello))
		g, why := x.class("30", r, func() string { return "" })
		x.step("30", false, false, false, g, "spoilt: "+why)
		return
	}
	for again := 0; ; again++ {
		r, _ := c.send("30", hello)
		g, why := x.class("30", r, func() string {
			var a fs.HelloRVAck31
			if bad := decodeAll(r.Body, &a); bad != "" {
				return bad
			}
			if a.EBSigInfo.SgType != d.Cred.DCSigInfo.SgType {
				return "signature info"
			}
			c.nonce = a.NonceTO1Proof
			return ""
		})
		if !x.step("30", false, true, true, g, why) || g == rErr || g == rNone {
			return
		}
		c.token = r.token()
		if again < 2 && x.move() == "again" {
			continue
		}
		if !x.onwards(g) {
			return
		}
		break
	}
	for i := 0; i < 4; i++ {
		body := w.proof32(d, c.nonce, nil, 0)
		good := true
		switch x.move() {
		case "spoil":
			body, good = c.spoil(body), false
		case "stray":
			body, good = w.proof32(d, fs.NewFdoNonce(), nil, 0), false
		case "quit":
			return
		}
		// after a spoilt 31 the nonce is unknown
		if c.nonce == (fs.FdoNonce{}) {
			good = false
		}
		r, _ := c.send("32", body)
		g, why := x.class("32", r, func() string {
			if !bytes.Equal(r.Body, x.to1d) {
				if _, bad := x.signed(r.Body); bad != "" {
					return bad
				}
				w.Violate("other-redirect", "the reply to 32 holds another owner's blob")
			}
			return ""
		})
		if !x.step("32", false, true, good, g, why) || g == rNone || g == rErr && w.Choose("retry", 2) == 0 {
			return
		}
		if g == rValid && w.Choose("to1.more", 4) != 0 {
			return
		}
	}
}

// attempt2 is one TO2 by hand.
func (x *lstDev) attempt2(o To2Opt) {
	w := x.a.w
	c := &lstSess{x: x, asked: map[int]bool{}}
	c.s = w.newRawSess(x.a.base, x.d, o)
	s := c.s
	hello := mustCbor(s.Hello)
	if w.Choose("to2.spoil", 12) == 0 {
		r, _ := c.send("60", c.spoil(hello))
		g, why := x.class("60", r, func() string { return "" })
		x.step("60", false, false, false, g, "spoilt: "+why)
		return
	}
	for again := 0; ; again++ {
		r, _ := c.send("60", hello)
		g, why := x.class("60", r, func() string { return c.look61(hello, r) })
		if !x.step("60", false, true, true, g, why) || g == rErr || g == rNone {
			return
		}
		c.token = r.token()
		if again < 2 && x.move() == "again" {
			continue
		}
		if !x.onwards(g) || c.token == "" {
			return
		}
		break
	}
	rec := w.ownerSession(x.a.st, c.token)
	if rec == nil {
		return
	}
	// A device that carries on regardless: it knows what it needs to know.
	s.Token, s.N61 = c.token, rec.NonceTO2ProveDv61
	s.P61.XAKeyExchange = rec.XAKex.XAKeyExchange
	s.P61.HMac = x.d.VDB.Voucher.OVHeaderHMac
	s.Entries = len(x.d.VDB.Voucher.OVEntryArray)
	c.last = "60"
	wantMore := w.Choose("to2.rounds", 3)
	bad := 0
	for i := 0; i < 24; i++ {
		if len(w.violations) > 0 {
			return
		}
		cmd := c.nextCmd(&wantMore)
		if cmd == "" {
			return
		}
		mv := x.move()
		if mv == "quit" {
			return
		}
		if mv == "other" {
			cmd = lstOrder[2][1+w.Choose("other.cmd", 5)]
		}
		if mv == "again" && c.last != "60" {
			cmd = c.last
		}
		if !s.keyed && cmd > "64" {
			cmd = "64"
		}
		g := c.message(cmd, mv, &wantMore)
		if g == rNone || len(w.violations) > 0 {
			return
		}
		if g == rErr || g == rInvalid {
			if bad++; bad > 3 || !x.onwards(rInvalid) {
				return
			}
			if x.a.faults != 0 && !x.a.quiet && g == rErr {
				return // whether the session has advanced is unknown
			}
			if g == rErr {
				continue
			}
		}
		c.last = cmd
		if cmd == "70" && w.Choose("to2.more", 4) != 0 {
			return
		}
	}
}

func (c *lstSess) nextCmd(more *int) string {
	switch c.last {
	case "60":
		return "62"
	case "62":
		if len(c.asked) < c.s.Entries && c.x.a.w.Choose("skip.entries", 6) != 0 {
			return "62"
		}
		return "64"
	case "64":
		return "66"
	case "66":
		return "68"
	case "68":
		if c.fin {
			return "70"
		}
		return "68"
	}
	return ""
}

// message sends one message of a session; whether the tool can answer it is worked out
// from what the session is.
func (c *lstSess) message(cmd, mv string, more *int) string {
	x, s := c.x, c.s
	w := x.a.w
	rec := w.ownerSession(x.a.st, c.token)
	if rec == nil {
		return rNone // expired
	}
	sess, good, carries := true, true, false
	var body []byte
	entry, sendMore := 0, false
	hasKey := s.keyed
	switch cmd {
	case "62":
		entry = 0
		for entry < s.Entries-1 && c.asked[entry] {
			entry++
		}
		if mv == "again" && entry > 0 {
			entry--
		}
		if w.Choose("entry.any", 8) == 0 {
			entry = w.Choose("entry.no", s.Entries)
		}
		if mv == "stray" {
			entry = s.Entries + w.Choose("entry.beyond", 3)
			good = false
		}
		carries = rec.PrevCMD == fs.TO2_63_OV_NEXTENTRY && !c.asked[entry]
		good = good && (rec.PrevCMD == fs.TO2_61_PROVE_OVHDR || rec.PrevCMD == fs.TO2_63_OV_NEXTENTRY)
		body = s.body62(entry)
	case "64":
		good = rec.PrevCMD == fs.TO2_63_OV_NEXTENTRY
		body = s.body64()
		if mv == "stray" {
			body, good = s.makeProof(fs.NewFdoNonce(), s.priv, s.sg), false
			s.proof = nil // the key has changed
		}
	case "66":
		good = rec.PrevCMD == fs.TO2_65_SETUP_DEVICE
		body = s.body66()
	case "68":
		good = (rec.PrevCMD == fs.TO2_67_OWNER_SERVICE_INFO_READY || rec.PrevCMD == fs.TO2_69_OWNER_SERVICE_INFO) && !rec.OwnerSIMsFinishedSending
		carries = rec.PrevCMD == fs.TO2_69_OWNER_SERVICE_INFO
		sims := fs.GetDeviceOSSims()
		if len(rec.DeviceSIMs) > 0 {
			sims = nil
		}
		sendMore = *more > 0
		if *more > 0 {
			*more--
		}
		body = s.body68(sendMore, sims)
	case "70":
		good = rec.PrevCMD == fs.TO2_69_OWNER_SERVICE_INFO && rec.OwnerSIMsFinishedSending
		body = s.body70()
	}
	if mv == "spoil" {
		if cmd > "64" && w.Choose("spoil.inside", 2) == 0 {
			body, good = s.seal([]byte{0xff}), false
		} else {
			body, good, carries = c.spoil(body), false, carries && cmd == "68"
			if cmd > "64" {
				sess = false
			}
		}
	}
	if cmd > "64" && (!hasKey || len(rec.SessionKey.ShSe) == 0) {
		sess = false // the owner has no key yet
	}
	r, _ := c.send(cmd, body)
	g, why := x.class(cmd, r, func() string { return c.look(cmd, entry, r) })
	what := mv
	if why != "" {
		what += ": " + why
	}
	if !x.step(cmd, carries, sess, good, g, what) {
		return rNone
	}
	if g == rValid || g == rInvalid {
		if cmd == "62" {
			c.asked[entry] = true
		}
		if cmd == "68" && !sendMore {
			c.fin = true // there is nothing from the owner in this tool without interop
		}
	}
	return g
}

// look61 tells what is wrong with a 61 ("" if it is valid).
func (c *lstSess) look61(hello []byte, r rawReply) string {
	x := c.x
	if sessionKey(r.token()) == "" {
		return "no token"
	}
	m, bad := x.signed(r.Body)
	if bad != "" {
		return bad
	}
	var p fs.TO2ProveOVHdrPayload
	if bad := decodeAll(m.Payload, &p); bad != "" {
		return bad
	}
	hh := fs.SgToHashHmacMap[x.d.Cred.DCSigInfo.SgType]
	want, _ := fs.GenerateFdoHash(hello, hh.HashType)
	v := x.d.VDB.Voucher
	switch {
	case !bytes.Equal(p.OVHeader, v.OVHeaderTag):
		return "header"
	case p.NonceTO2ProveOV != c.s.Hello.NonceTO2ProveOV:
		return "nonce"
	case p.EBSigInfo.SgType != c.s.Hello.EASigInfo.SgType:
		return "signature info"
	case p.HelloDeviceHash.Type != want.Type || !bytes.Equal(p.HelloDeviceHash.Hash, want.Hash):
		return "hash of the hello"
	case !bytes.Equal(mustCbor(p.HMac), mustCbor(v.OVHeaderHMac)):
		return "hmac"
	case int(p.NumOVEntries) != len(v.OVEntryArray):
		return "number of entries"
	case m.Unprotected.CUPHNonce == nil || m.Unprotected.CUPHOwnerPubKey == nil:
		return "unprotected header"
	}
	return ""
}

func (c *lstSess) look(cmd string, entry int, r rawReply) string {
	x, s := c.x, c.s
	plain := r.Body
	if cmd > "62" {
		b, err := s.open(r.Body)
		if err != nil {
			return "encryption: " + err.Error()
		}
		plain = b
	}
	switch cmd {
	case "62":
		var e fs.OVNextEntry63
		if bad := decodeAll(plain, &e); bad != "" {
			return bad
		}
		if int(e.OVEntryNum) != entry {
			return "entry number"
		}
		if !bytes.Equal(mustCbor(e.OVEntry), mustCbor(x.d.VDB.Voucher.OVEntryArray[entry])) {
			return "entry"
		}
	case "64":
		m, bad := x.signed(plain)
		if bad != "" {
			return bad
		}
		var p fs.TO2SetupDevicePayload
		if bad := decodeAll(m.Payload, &p); bad != "" {
			return bad
		}
		if p.NonceTO2SetupDv != s.NSetup {
			return "nonce"
		}
	case "66":
		var p fs.OwnerServiceInfoReady67
		return decodeAll(plain, &p)
	case "68":
		var p fs.OwnerServiceInfo69
		return decodeAll(plain, &p)
	case "70":
		var p fs.Done271
		if bad := decodeAll(plain, &p); bad != "" {
			return bad
		}
		if p.NonceTO2SetupDv != s.NSetup {
			return "nonce"
		}
	}
	return ""
}

// ------------------------------------------------------------ the repository's own device

// expect works out how an attempt of a device that rejects every invalid reply goes on:
// the command at which it ends ("" if it succeeds), and the states after.
func (x *lstDev) expect(p int, cmds []string) (string, string) {
	l := x.states(p)
	if len(l) != 1 {
		return "?", ""
	}
	s := l[0]
	for _, cmd := range cmds {
		j, failed := s.judge(cmd, false)
		if failed {
			x.set(p, []lstState{j})
			return cmd, "error"
		}
		g, r, t := j.give(cmd)
		s = g
		if t != "" {
			x.a.w.Count("genuine." + t)
		}
		if r == rInvalid {
			x.set(p, []lstState{s})
			return cmd, t
		}
	}
	x.set(p, []lstState{s})
	return "", ""
}

// exact tells whether the state is known and no fault can change it.
func (x *lstDev) exact(p int) bool {
	return (x.a.faults == 0 || x.a.quiet) && len(x.names[p]) == 1
}

func (x *lstDev) genuine1() bool {
	if !x.exact(1) {
		return false
	}
	w := x.a.w
	at, test := x.expect(1, lstOrder[1])
	r := RunTo1(x.a.base, x.d)
	w.Logf("%s TO1: %v, expected to end at %q %s", x.d.Name, r.Err, at, test)
	switch {
	case at == "" && r.Err != nil:
		w.Violate("genuine-refused TO1", "%s: a genuine device fails: %v", x.d.Name, r.Err)
		return false
	case at == "" || test == string(testcom.FIDO_LISTENER_DEVICE_32_BAD_TO1D):
		// what the blob holds is for the owner's key to prove, in TO2
	case r.Err == nil:
		w.Violate("test-not-given "+test, "%s: the device accepts everything where it should have been given %s", x.d.Name, test)
		return false
	case !strings.HasPrefix(r.Err.Error(), at):
		w.Violate("test-not-given "+test, "%s: the device fails with %q where it should have been given %s", x.d.Name, r.Err, test)
		return false
	}
	return true
}

func (x *lstDev) genuine2(o To2Opt) bool {
	if !x.exact(2) {
		return false
	}
	w := x.a.w
	at, test := x.expect(2, lstOrder[2])
	r := RunTo2(x.a.base, x.d, o)
	w.Logf("%s TO2: %v at %s, expected to end at %q %s", x.d.Name, r.Err, r.Stage, at, test)
	stage := r.Stage
	if stage == "verify" {
		stage = "62"
	}
	if test == string(testcom.FIDO_LISTENER_DEVICE_60_MISSING_AUTHZ_HEADER) {
		at = "62" // there is no token to go on with
	}
	switch {
	case at == "" && r.Err != nil:
		w.Violate("genuine-refused TO2", "%s: a genuine device fails: %v", x.d.Name, r.Err)
		return false
	case at == "":
	case r.Err == nil:
		w.Violate("test-not-given "+test, "%s: the device accepts everything where it should have been given %s", x.d.Name, test)
		return false
	case stage != at:
		w.Violate("test-not-given "+test, "%s: the device fails at %s (%v) where it should have been given %s", x.d.Name, r.Stage, r.Err, test)
		return false
	}
	return true
}

// complete runs a protocol's tests from the start with the repository's device.
func (x *lstDev) complete(p int) {
	w := x.a.w
	if x.id == "" {
		if p == 1 {
			x.genuine1()
		} else {
			x.genuine2(w.chosenOpt(x.d))
		}
		return
	}
	x.start(p)
	o := w.chosenOpt(x.d)
	n := 0
	for x.states(p)[0].running {
		if n++; n > 40 {
			w.Violate("never-completes", "TO%d: %s", p, x.describe(p))
			return
		}
		ok := false
		if p == 1 {
			ok = x.genuine1()
		} else {
			ok = x.genuine2(o)
		}
		if !ok {
			return
		}
	}
	for _, r := range x.states(p)[0].results {
		if r[0] == '-' {
			w.Violate("genuine-failed", "TO%d: the genuine device is reported to have failed %s", p, r)
		}
	}
	x.check(p, true)
	w.Eval(fmt.Sprintf("complete TO%d %s", p, x.d.Desc()))
}

// ------------------------------------------------------------ runs

func (x *lstDev) start(p int) {
	w := x.a.w
	for i := 0; ; i++ {
		ck := x.a.cookie()
		if ck == "" {
			return
		}
		r := w.api(x.a.base, ck, apiCall{Method: "POST", Path: fmt.Sprintf("/api/device/testruns/%d/%s", p, x.id), CT: "application/json", Body: []byte("{}")})
		w.Logf("%s start TO%d: %s", x.d.Name, p, r)
		if r.ok() {
			s := lstState{proto: p, running: true}
			x.set(p, []lstState{s})
			return
		}
		if x.a.faults == 0 || x.a.quiet || i > 200 {
			w.Violate("start-failed", "a run cannot be started: %s", r)
			return
		}
		w.Sleep(time.Second)
	}
}

// runs reads the runs that are listed for a protocol.
func (x *lstDev) runs(p int) ([]apiRun, bool) {
	w := x.a.w
	for i := 0; ; i++ {
		ck := x.a.cookie()
		if ck == "" {
			return nil, false
		}
		l, r, err := w.list(x.a.base, ck, "device")
		if err == nil && r.ok() {
			for _, e := range l {
				if in := e.Inst[p]; in != nil && in.Id == x.id {
					return in.Runs, true
				}
			}
			err = fmt.Errorf("the test is not listed")
		}
		if x.a.faults == 0 || x.a.quiet || i > 200 {
			w.Violate("list-failed", "the device tests cannot be listed: %v (%s)", err, r)
			return nil, false
		}
		w.Sleep(time.Second)
	}
}

func (x *lstDev) remove(p int) {
	w := x.a.w
	runs, ok := x.runs(p)
	if !ok || len(runs) == 0 {
		return
	}
	for i := 0; ; i++ {
		ck := x.a.cookie()
		if ck == "" {
			return
		}
		r := w.api(x.a.base, ck, apiDel(fmt.Sprintf("/api/device/testruns/%d/%s/%s", p, x.id, runs[0].Uuid)))
		w.Logf("%s remove TO%d: %s", x.d.Name, p, r)
		if r.ok() || i > 0 && r.refused() {
			s := lstState{proto: p, removed: true}
			x.set(p, []lstState{s})
			return
		}
		if x.a.faults == 0 || x.a.quiet || i > 200 {
			w.Violate("remove-failed", "a run cannot be removed: %s", r)
			return
		}
		w.Sleep(time.Second)
	}
}

// check compares what is listed with the reference.
func (x *lstDev) check(p int, last bool) {
	if x.id == "" {
		return
	}
	w := x.a.w
	runs, ok := x.runs(p)
	if !ok {
		return
	}
	var next []lstState
	got := ""
	var shown []string
	if len(runs) > 0 {
		var l []testcom.FDOTestState
		if err := json.Unmarshal(runs[0].Tests, &l); err != nil && string(runs[0].Tests) != "null" {
			w.Violate("bad-results", "the results do not decode: %v", err)
			return
		}
		for _, r := range l {
			sign := "-"
			if r.Passed {
				sign = "+"
			}
			shown = append(shown, sign+string(r.TestID))
		}
		got = fmt.Sprintf("completed %v, %v", runs[0].Completed, shown)
	}
	for _, s := range x.states(p) {
		if !s.running && !s.completed {
			next = append(next, s)
			continue
		}
		if len(runs) > 0 && runs[0].Completed == s.completed && fmt.Sprint(shown) == fmt.Sprint(s.results) {
			next = append(next, s)
		}
	}
	if len(next) == 0 {
		w.Violate("wrong-results", "%s TO%d: the results are listed as %s, where the state is %s", x.d.Name, p, got, x.describe(p))
		return
	}
	x.set(p, next)
	w.Eval(fmt.Sprintf("results TO%d %s faults %d", p, next[0].key(), x.a.faults))
}
