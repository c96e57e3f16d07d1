package fdosim

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"
	"time"

	badger "github.com/dgraph-io/badger/v4"

	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
	"github.com/fido-alliance/iot-fdo-conformance-tools/dbs"
)

func init() { scenarios["C12"] = scenC12 }

// C12: one operation after the other runs under one or several storage faults or a crash
// at a drawn storage operation. After each, the store and everything the tool shows is
// compared with what was there before and what the operation intended.

type durUser struct {
	Email  string
	Cookie string
	Born   int64
	Lists  map[string][]*apiEntry
}

type durSess struct { // an onboarding session at the owner
	d     *Dev
	s     *rawSess
	step  int // next step
	entry int
	used  int64
}

type durWorld struct {
	*apiWorld
	us     []*durUser
	outs   []string // sessions whose logout was acknowledged
	onprem bool     // the on-premises account exists
	ob     []*Dev   // devices that onboard
	td     []*Dev   // devices under test
	tn     int
	reg    map[string]string // device -> what a lookup gives
	zips   map[string]map[string]string
	sess   []*durSess
	full   [3]string // results of a complete run against an address that refuses connections
	hit    bool      // the last operation met a fault
	down   bool      // the last operation met a crash
}

// durRec is a record with its end of life.
type durRec struct {
	val string
	end uint64
}

func durDump(st *Storage) map[string]durRec {
	out := map[string]durRec{}
	old := badger.SimOp
	badger.SimOp = nil
	defer func() { badger.SimOp = old }()
	st.DB.View(func(txn *badger.Txn) error {
		it := txn.NewIterator(badger.DefaultIteratorOptions)
		defer it.Close()
		for it.Rewind(); it.Valid(); it.Next() {
			v, _ := it.Item().ValueCopy(nil)
			out[string(it.Item().KeyCopy(nil))] = durRec{string(v), it.Item().ExpiresAt()}
		}
		return nil
	})
	return out
}

func recName(k string) string {
	for _, p := range []string{"rvte-", "lstdb-guid-map-", "lstdb-", "voucher-", "devbasecreds-", "to1osstorage-"} {
		if strings.HasPrefix(k, p) {
			return p + hex.EncodeToString([]byte(k[len(p):]))
		}
	}
	return k
}

// recKind is the kind of a record.
func recKind(k string) string {
	for _, p := range []string{"lstdb-guid-map", "rvte", "lstdb", "voucher", "devbasecreds", "to1osstorage", "usere", "session", "config"} {
		if strings.HasPrefix(k, p) {
			return p
		}
	}
	return "unknown"
}

// durOp says what an operation may do to the store.
type durOp struct {
	name   string
	change []string // records it may change
	add    []string // kinds of records it may add
	gone   []string // records it may remove
	long   int      // storage operations it may take
	do     func() bool
}

// under runs an operation with drawn faults and tells whether it was acknowledged.
// false: a violation was found.
func (a *durWorld) under(o durOp) (acked, fine bool) {
	w, st := a.w, a.st
	if o.long == 0 {
		o.long = 14
	}
	before := durDump(st)
	faults := func() int64 {
		n := int64(0)
		for k, v := range w.Stats {
			if strings.HasPrefix(k, "fault.") {
				n += v
			}
		}
		return n
	}
	n0 := faults()
	plan := w.Choose("plan", 8)
	k := 0
	switch plan {
	case 0:
	case 1, 2:
		k = 1 + w.Choose("fail.at", o.long)
		st.FailAtOp = st.OpCount + k
	case 3, 4:
		k = 1 + w.Choose("crash.at", o.long)
		st.CrashAtOp = st.OpCount + k
	case 5:
		st.ErrNum, st.ErrDen, st.ErrOps = 1+w.Choose("rate", 3), 8, []string{"get", "set", "commit", "set commit", "get set commit"}[w.Choose("rate.ops", 5)]
	case 6:
		op := []string{"get", "set", "commit"}[w.Choose("next.op", 3)]
		k = 1 + w.Choose("next.nth", 4)
		st.FailNext[op] = k
	case 7: // an error, then a crash
		st.FailAtOp = st.OpCount + 1 + w.Choose("fail.at", o.long)
		st.CrashAtOp = st.FailAtOp + 1 + w.Choose("crash.after", 6)
	}
	acked = o.do()
	st.FailAtOp, st.CrashAtOp, st.ErrNum, st.FailNext = 0, 0, 0, map[string]int{}
	a.hit = faults() > n0
	a.down = !a.node.up
	w.Logf("%s under plan %d/%d: acknowledged %v, hit %v, down %v", o.name, plan, k, acked, a.hit, a.down)
	if len(w.violations) > 0 {
		return acked, false
	}
	if !a.node.up {
		w.Restart(a.node)
	} else if w.Choose("restart", 5) == 0 {
		a.restart()
	}
	key := "no fault"
	if a.hit {
		key = []string{"-", "error", "error", "crash", "crash", "error rate", "error", "error+crash"}[plan]
		if plan < 5 {
			key += fmt.Sprint(k)
		}
	}
	w.Eval(fmt.Sprintf("%s: %s -> %v", o.name, key, acked))
	after := durDump(st)
	return acked, a.harmless(o, before, after)
}

func (a *durWorld) restart() {
	w := a.w
	w.Crash(a.node)
	w.Sleep(time.Duration(w.Choose("down.ms", 2000)) * time.Millisecond)
	w.Restart(a.node)
	w.Count("restarts")
}

// harmless: nothing but the records of the operation changed.
func (a *durWorld) harmless(o durOp, before, after map[string]durRec) bool {
	w := a.w
	now := uint64(time.Now().Unix())
	has := func(l []string, x string) bool {
		for _, y := range l {
			if x == y || strings.HasSuffix(y, "*") && strings.HasPrefix(x, y[:len(y)-1]) {
				return true
			}
		}
		return false
	}
	for _, k := range sortedKeys(before) {
		b := before[k]
		x, ok := after[k]
		switch {
		case !ok && b.end != 0 && b.end <= now+1:
		case !ok && !has(o.gone, k):
			w.Violate("record-lost "+recKind(k), "%s: record %s (%d bytes) is gone", o.name, recName(k), len(b.val))
			return false
		case ok && x.val != b.val && !has(o.change, k):
			w.Violate("record-changed "+recKind(k), "%s: record %s, which it does not concern, changed from %d to %d bytes", o.name, recName(k), len(b.val), len(x.val))
			return false
		case ok && b.end == 0 && x.end != 0, ok && x.end != 0 && x.end < b.end:
			w.Violate("record-shortened "+recKind(k), "%s: record %s now ends at %d instead of %d (0: never)", o.name, recName(k), x.end, b.end)
			return false
		}
	}
	for _, k := range sortedKeys(after) {
		if _, ok := before[k]; !ok && !has(o.add, recKind(k)) && !has(o.change, k) {
			w.Violate("record-added "+recKind(k), "%s: record %s appeared", o.name, recName(k))
			return false
		}
	}
	return true
}

// ------------------------------------------------------------ what users see

func (a *durWorld) fullText(e *apiEntry) string {
	s := fmt.Sprintf("%s %s %q %s", e.Kind, e.Id, e.Name, e.Guid)
	for p := 0; p < 3; p++ {
		if i := e.Inst[p]; i != nil {
			s += fmt.Sprintf(" TO%d %s %v", p, i.Id, i.InProgress)
			for _, r := range i.Runs {
				s += " " + runText(r)
			}
		}
	}
	return s
}

func runText(r apiRun) string {
	return fmt.Sprintf("%s@%d/%d/%v%s", r.Uuid, r.Timestamp, r.Protocol, r.Completed, r.Tests)
}

func (a *durWorld) texts(l []*apiEntry) (o []string) {
	for _, e := range l {
		o = append(o, a.fullText(e))
	}
	return
}

func joined(l []string) string { return "[" + strings.Join(l, "; ") + "]" }

// look reads the lists of a user, without faults.
func (a *durWorld) look(u *durUser, after string) (map[string][]*apiEntry, bool) {
	w := a.w
	out := map[string][]*apiEntry{}
	for _, kind := range apiKinds {
		l, r, err := w.list(a.base, u.Cookie, kind)
		if err != nil {
			w.Violate("list-failed "+kind, "after %s: %s cannot list the %s tests any more: %v (%s)", after, u.Email, kind, err, r)
			return nil, false
		}
		out[kind] = l
	}
	return out, true
}

// same: the lists of u are as known, but for the kinds in skip.
func (a *durWorld) same(u *durUser, now map[string][]*apiEntry, after, skip string) bool {
	for _, kind := range apiKinds {
		if kind == skip {
			continue
		}
		x, y := a.texts(u.Lists[kind]), a.texts(now[kind])
		if joined(x) != joined(y) {
			a.w.Violate("list-changed "+kind, "after %s: the %s tests of %s went from %s to %s", after, kind, u.Email, joined(x), joined(y))
			return false
		}
	}
	return true
}

// checkAll re-reads every fact.
func (a *durWorld) checkAll(after string) bool {
	w := a.w
	for _, u := range a.us {
		now, ok := a.look(u, after)
		if !ok || !a.same(u, now, after, "") {
			return false
		}
	}
	for _, id := range sortedKeys(a.zips) {
		r := w.api(a.base, a.zipOwner(id), apiGet("/api/dot/vouchers/"+id))
		z, err := zipVouchers(r)
		if err != nil {
			w.Violate("vouchers-lost", "after %s: the vouchers of %s cannot be fetched any more: %v (%s)", after, id, err, r)
			return false
		}
		if d := dumpDiff(a.zips[id], z); d != "" {
			w.Violate("vouchers-changed", "after %s: the vouchers of %s changed: %s", after, id, d)
			return false
		}
	}
	for _, s := range a.outs {
		if r := w.api(a.base, "session="+s, apiGet("/api/user/loggedin")); !r.refused() {
			w.Violate("logout-undone", "after %s: a session whose logout was acknowledged is accepted: %s", after, r)
			return false
		}
	}
	for _, d := range a.ob {
		if blob, ok := a.reg[d.Name]; ok {
			r, b := w.lookup(a.base, d)
			if b != blob || (blob == "") == r.ok() {
				w.Violate("registration-changed", "after %s: a lookup of %s gives %s instead of what it gave before", after, d.Name, r)
				return false
			}
		}
	}
	return true
}

func (a *durWorld) zipOwner(id string) string {
	for _, u := range a.us {
		for _, e := range u.Lists["dot"] {
			for _, i := range e.Inst {
				if i.Id == id {
					return u.Cookie
				}
			}
		}
	}
	return ""
}

func (a *durWorld) pickInst(u *durUser, kinds []string) (kind string, e *apiEntry, p int) {
	w := a.w
	kind = kinds[w.Choose("kind", len(kinds))]
	l := u.Lists[kind]
	if len(l) == 0 {
		return kind, nil, 0
	}
	e = l[w.Choose("entry", len(l))]
	var ps []int
	for q := 0; q < 3; q++ {
		if e.Inst[q] != nil {
			ps = append(ps, q)
		}
	}
	return kind, e, ps[w.Choose("proto", len(ps))]
}

// storeKey is the record of a listed test.
func storeKey(kind, id string) string {
	b, err := hex.DecodeString(id)
	if err != nil {
		b = []byte(id)
	}
	if kind == "device" {
		return "lstdb-" + string(b)
	}
	return "rvte-" + string(b)
}

func userKey(u *durUser) string { return "usere-" + u.Email }

func (a *durWorld) must(acked bool, what string, r apiReply) bool {
	if !acked && !a.hit {
		a.w.Violate("refused-without-fault", "%s failed though nothing was wrong: %s", what, r)
		return false
	}
	return true
}

// ------------------------------------------------------------ operations

func (a *durWorld) create() bool {
	w := a.w
	u := a.us[w.Choose("user", len(a.us))]
	kind := apiKinds[w.Choose("kind", 3)]
	c, t := a.createCall(kind)
	o := durOp{name: "create " + kind, change: []string{userKey(u)}, add: []string{"rvte"}, long: 22}
	var dev *Dev
	if kind == "device" {
		dev = a.td[a.tn%len(a.td)]
		a.tn++
		g := dev.Guid()
		t.Guid = hex.EncodeToString(g[:])
		c = apiPost("/api/device/create", map[string]string{"name": t.Name, "voucher": voucherPem(dev)})
		o.add = []string{"lstdb", "session"}
		gs := string(g[:])
		o.change = append(o.change, "lstdb-guid-map-"+gs, "voucher-"+gs, "to1osstorage-"+gs)
	}
	var r apiReply
	o.do = func() bool { r = w.api(a.base, u.Cookie, c); return r.ok() }
	acked, fine := a.under(o)
	if !fine || !a.must(acked, o.name, r) {
		return false
	}
	now, ok := a.look(u, o.name)
	if !ok || !a.same(u, now, o.name, kind) {
		return false
	}
	x, y := a.texts(u.Lists[kind]), a.texts(now[kind])
	switch {
	case joined(x) == joined(y):
		if acked {
			w.Violate("create-lost "+kind, "the creation of %s was acknowledged, and it is not listed: %s", t.Name, joined(y))
			return false
		}
	case len(y) == len(x)+1 && joined(x) == joined(y[:len(x)]) && now[kind][len(x)].Name == t.Name && now[kind][len(x)].Guid == t.Guid:
		e := now[kind][len(x)]
		n := 0
		for _, i := range e.Inst {
			n += len(i.Runs)
			if i.InProgress {
				n++
			}
		}
		if n > 0 || kind == "rvt" && (e.Inst[0] == nil || e.Inst[1] == nil) || kind == "dot" && e.Inst[2] == nil {
			w.Violate("create-wrong "+kind, "the new test is listed as %s", y[len(x)])
			return false
		}
	default:
		w.Violate("list-changed "+kind, "after the creation of %s: the list went from %s to %s", t.Name, joined(x), joined(y))
		return false
	}
	u.Lists[kind] = now[kind]
	if acked && dev != nil {
		return a.deviceWorks(u, u.Lists[kind][len(x)], dev)
	}
	return true
}

// deviceWorks: a device test that was acknowledged is known to the rendezvous and the owner service, and runs.
func (a *durWorld) deviceWorks(u *durUser, e *apiEntry, d *Dev) bool {
	w := a.w
	if r, blob := w.lookup(a.base, d); blob == "" {
		w.Violate("device-not-registered", "the device test of %s was created, and its rendezvous lookup fails: %s", d.Name, r)
		return false
	}
	s := w.newRawSess(a.base, d, w.chosenOpt(d))
	if r := s.hello(); !r.ok() {
		w.Violate("device-no-voucher", "the device test of %s was created, and the owner service refuses it: %s", d.Name, r)
		return false
	}
	if w.Choose("device.run", 3) != 0 {
		return true
	}
	r := w.api(a.base, u.Cookie, apiCall{Method: "POST", Path: "/api/device/testruns/1/" + e.Id, CT: "application/json", Body: []byte("{}")})
	if !r.ok() {
		w.Violate("refused-without-fault", "a run of a new device test cannot be started: %s", r)
		return false
	}
	for i := 0; i < 2; i++ {
		w.rawPost(a.base, "30", "", mustCbor(fs.HelloRV30{Guid: d.Guid(), EASigInfo: d.Cred.DCSigInfo}))
	}
	now, ok := a.look(u, "a device run")
	if !ok || !a.same(u, now, "a device run", "device") {
		return false
	}
	i := len(u.Lists["device"]) - 1
	if len(now["device"]) != i+1 || now["device"][i].Id != e.Id || len(now["device"][i].Inst[1].Runs) != 1 ||
		string(now["device"][i].Inst[1].Runs[0].Tests) == "[]" || string(now["device"][i].Inst[1].Runs[0].Tests) == "{}" {
		w.Violate("device-not-connected", "the device of a new test was seen by the rendezvous service, and its run shows nothing: %s", joined(a.texts(now["device"])))
		return false
	}
	u.Lists["device"] = now["device"]
	return true
}

func (a *durWorld) execute() bool {
	w := a.w
	u := a.us[w.Choose("user", len(a.us))]
	kind, e, p := a.pickInst(u, apiKinds[:2])
	if e == nil {
		return true
	}
	i := e.Inst[p]
	var r apiReply
	acked, fine := a.under(durOp{name: fmt.Sprintf("execute %s TO%d", kind, p), change: []string{storeKey(kind, i.Id)}, long: 90, do: func() bool {
		r = w.api(a.base, u.Cookie, apiPost("/api/"+kind+"/execute", map[string]string{"id": i.Id}))
		return r.ok()
	}})
	if !fine || !a.must(acked, "execute", r) {
		return false
	}
	nr, now, ok := a.oneInst(u, kind, e, p, "execute")
	if !ok {
		return false
	}
	old := i.Runs
	switch {
	case len(nr.Runs) == len(old) && runsFull(nr.Runs) == runsFull(old):
		if acked {
			w.Violate("run-lost", "an execution of %s was acknowledged, and no run is listed", i.Id)
			return false
		}
	case len(nr.Runs) == len(old)+1 && runsFull(nr.Runs[1:]) == runsFull(old):
		run := nr.Runs[0]
		var ts map[string]struct {
			Passed bool   `json:"passed"`
			Error  string `json:"error"`
		}
		if err := json.Unmarshal(run.Tests, &ts); err != nil {
			w.Violate("run-broken", "the results of a run do not decode: %v", err)
			return false
		}
		all := map[string]bool{string(testcom.NULL_TO1_SETUP): p == 1}
		for _, g := range tvGroups(p) {
			for _, id := range g {
				all[string(id)] = true
			}
		}
		for _, id := range sortedKeys(ts) {
			if !all[id] || ts[id].Passed {
				w.Violate("run-wrong", "a run against a server that cannot be reached shows %s passed %v", id, ts[id].Passed)
				return false
			}
		}
		ids := strings.Join(resultIDs(run), " ")
		if !a.hit && a.full[p] == "" {
			a.full[p] = ids
		}
		if acked && (ids == "" || a.full[p] != "" && ids != a.full[p]) {
			w.Violate("results-lost", "an execution of %s TO%d was acknowledged, and its run shows only the results %s of %s", i.Id, p, ids, a.full[p])
			return false
		}
		if acked && nr.InProgress {
			w.Violate("results-lost", "an execution of %s was acknowledged, and it is still marked as running", i.Id)
			return false
		}
	default:
		w.Violate("runs-changed", "after an execution the runs went from %s to %s", runsFull(old), runsFull(nr.Runs))
		return false
	}
	u.Lists[kind] = now
	return true
}

func runsFull(rs []apiRun) string {
	var o []string
	for _, r := range rs {
		o = append(o, runText(r))
	}
	return joined(o)
}

// oneInst reads the lists and checks that all but one protocol of one entry is as before.
func (a *durWorld) oneInst(u *durUser, kind string, e *apiEntry, p int, after string) (*apiInst, []*apiEntry, bool) {
	w := a.w
	now, ok := a.look(u, after)
	if !ok || !a.same(u, now, after, kind) {
		return nil, nil, false
	}
	x, y := u.Lists[kind], now[kind]
	var ret *apiInst
	for k := range x {
		if k >= len(y) {
			break
		}
		if x[k].Id != e.Id {
			if a.fullText(x[k]) != a.fullText(y[k]) {
				w.Violate("list-changed "+kind, "after %s of another test: %s became %s", after, a.fullText(x[k]), a.fullText(y[k]))
				return nil, nil, false
			}
			continue
		}
		cx, cy := *x[k], *y[k]
		ret = cy.Inst[p]
		cx.Inst, cy.Inst = without(cx.Inst, p), without(cy.Inst, p)
		if a.fullText(&cx) != a.fullText(&cy) {
			w.Violate("list-changed "+kind, "after %s: %s became %s", after, a.fullText(x[k]), a.fullText(y[k]))
			return nil, nil, false
		}
	}
	if len(x) != len(y) || ret == nil {
		w.Violate("list-changed "+kind, "after %s: the list went from %s to %s", after, joined(a.texts(x)), joined(a.texts(y)))
		return nil, nil, false
	}
	return ret, y, true
}

func without(m map[int]*apiInst, p int) map[int]*apiInst {
	o := map[int]*apiInst{}
	for k, v := range m {
		if k != p {
			o[k] = v
		}
	}
	return o
}

func (a *durWorld) startRun() bool {
	w := a.w
	u := a.us[w.Choose("user", len(a.us))]
	kind, e, p := a.pickInst(u, []string{"device"})
	if e == nil {
		return true
	}
	var r apiReply
	acked, fine := a.under(durOp{name: "start", change: []string{storeKey(kind, e.Id)}, do: func() bool {
		r = w.api(a.base, u.Cookie, apiCall{Method: "POST", Path: fmt.Sprintf("/api/device/testruns/%d/%s", p, e.Id), CT: "application/json", Body: []byte("{}")})
		return r.ok()
	}})
	if !fine || !a.must(acked, "start", r) {
		return false
	}
	n, now, ok := a.oneInst(u, kind, e, p, "start")
	if !ok {
		return false
	}
	old := e.Inst[p].Runs
	// a run that was unfinished is given up: only its results matter
	cut := func(rs []apiRun) (o []string) {
		for _, r := range rs {
			o = append(o, fmt.Sprintf("%s@%d/%d%s", r.Uuid, r.Timestamp, r.Protocol, r.Tests))
		}
		return
	}
	switch {
	case runsFull(n.Runs) == runsFull(old):
		if acked {
			w.Violate("run-lost", "the start of a run of %s was acknowledged, and it is not listed", e.Id)
			return false
		}
	case len(n.Runs) == len(old)+1 && joined(cut(n.Runs)[1:]) == joined(cut(old)):
	default:
		w.Violate("runs-changed", "after the start of a run the runs went from %s to %s", runsFull(old), runsFull(n.Runs))
		return false
	}
	u.Lists[kind] = now
	return true
}

func (a *durWorld) deleteRun() bool {
	w := a.w
	u := a.us[w.Choose("user", len(a.us))]
	kind, e, p := a.pickInst(u, apiKinds)
	if e == nil || len(e.Inst[p].Runs) == 0 {
		return true
	}
	i := e.Inst[p]
	run := i.Runs[w.Choose("run", len(i.Runs))].Uuid
	path, key := "/api/"+kind+"/testruns/"+i.Id+"/"+run, storeKey(kind, i.Id)
	if kind == "device" {
		path = fmt.Sprintf("/api/device/testruns/%d/%s/%s", p, e.Id, run)
	}
	var r apiReply
	acked, fine := a.under(durOp{name: "delete " + kind, change: []string{key}, do: func() bool {
		r = w.api(a.base, u.Cookie, apiDel(path))
		return r.ok()
	}})
	if !fine || !a.must(acked, "delete", r) {
		return false
	}
	n, now, ok := a.oneInst(u, kind, e, p, "delete")
	if !ok {
		return false
	}
	var rest []apiRun
	for _, x := range i.Runs {
		if x.Uuid != run {
			rest = append(rest, x)
		}
	}
	switch runsFull(n.Runs) {
	case runsFull(rest):
	case runsFull(i.Runs):
		if acked {
			w.Violate("delete-lost", "the deletion of a run was acknowledged, and it is still listed: %s", runsFull(n.Runs))
			return false
		}
	default:
		w.Violate("runs-changed", "after the deletion of %s the runs went from %s to %s", run, runsFull(i.Runs), runsFull(n.Runs))
		return false
	}
	u.Lists[kind] = now
	return true
}

func (a *durWorld) purge() bool {
	w := a.w
	u := a.us[w.Choose("user", len(a.us))]
	var r apiReply
	acked, fine := a.under(durOp{name: "purge", change: []string{userKey(u)}, gone: []string{"rvte-*", "lstdb-*"}, do: func() bool {
		r = w.api(a.base, u.Cookie, apiCall{Method: "POST", Path: "/api/user/purgetests", CT: "application/json", Body: []byte("{}")})
		return r.ok()
	}})
	if !fine || !a.must(acked, "purge", r) {
		return false
	}
	now, ok := a.look(u, "purge")
	if !ok {
		return false
	}
	if n := len(now["rvt"]) + len(now["dot"]) + len(now["device"]); n == 0 {
		for _, e := range u.Lists["dot"] {
			for _, i := range e.Inst {
				delete(a.zips, i.Id)
			}
		}
		u.Lists = now
		return true
	} else if acked {
		w.Violate("purge-lost", "a purge was acknowledged, and %d tests are listed", n)
		return false
	}
	return a.same(u, now, "a failed purge", "")
}

func (a *durWorld) login() bool {
	w := a.w
	var u *durUser
	for _, x := range a.us {
		if x.Email == onpremUser {
			u = x
		}
	}
	var r apiReply
	o := durOp{name: "login", add: []string{"session"}, do: func() bool {
		r = w.api(a.base, "", apiCall{Method: "POST", Path: "/api/user/login/onprem", CT: "application/json", Body: []byte("{}")})
		return r.ok()
	}}
	if u == nil {
		o.name, o.change = "first login", []string{"usere-" + onpremUser}
	}
	acked, fine := a.under(o)
	if !fine || !a.must(acked, "login", r) {
		return false
	}
	if u == nil {
		if !acked {
			return true
		}
		u = &durUser{Email: onpremUser, Lists: map[string][]*apiEntry{}}
		a.us = append(a.us, u)
		u.Cookie, u.Born = "session="+r.session(), w.NowMS()
	} else if acked && w.Choose("relogin", 2) == 0 {
		u.Cookie, u.Born = "session="+r.session(), w.NowMS()
	}
	now, ok := a.look(u, o.name)
	return ok && a.same(u, now, o.name, "")
}

func (a *durWorld) logout() bool {
	w := a.w
	u := a.us[w.Choose("user", len(a.us))]
	// another session of the account
	id, err := dbs.NewSessionDB(a.st.DB).NewSessionEntry(dbs.SessionEntry{Email: u.Email, LoggedIn: true})
	if err != nil {
		panic("harness: " + err.Error())
	}
	var r apiReply
	acked, fine := a.under(durOp{name: "logout", gone: []string{"session-" + string(id)}, do: func() bool {
		r = w.api(a.base, "session="+string(id), apiCall{Method: "POST", Path: "/api/user/logout", CT: "application/json", Body: []byte("{}")})
		return r.ok()
	}})
	if !fine || !a.must(acked, "logout", r) {
		return false
	}
	x := w.api(a.base, "session="+string(id), apiGet("/api/user/loggedin"))
	if x.Err != nil || acked && !x.refused() {
		w.Violate("logout-undone", "a logout was acknowledged, and the session is answered %s", x)
		return false
	}
	if acked {
		a.outs = append(a.outs, string(id))
	}
	return true
}

// register: the rendezvous registration of a device.
func (a *durWorld) registerOp() bool {
	w := a.w
	d := a.ob[w.Choose("dev", len(a.ob))]
	g := d.Guid()
	var r rawReply
	blob := ""
	acked, fine := a.under(durOp{name: "register", change: []string{"to1osstorage-" + string(g[:])}, add: []string{"session"}, do: func() bool {
		r, blob = w.register(a.base, d, regOpt{Wait: 1 << 20, Addrs: w.addr()})
		return r.ok()
	}})
	if !fine {
		return false
	}
	if !acked && !a.hit {
		w.Violate("refused-without-fault", "a registration of %s failed though nothing was wrong: %s", d.Name, r)
		return false
	}
	l, now := w.lookup(a.base, d)
	old := a.reg[d.Name]
	if !(now == blob && blob != "" || now == old && !acked) || (now == "") == l.ok() {
		w.Violate("registration-lost", "after a registration of %s (acknowledged %v): a lookup gives %s, as the new one %v, as the old one %v", d.Name, acked, l, now == blob, now == old)
		return false
	}
	a.reg[d.Name] = now
	return true
}

// onboard does the next step of an onboarding.
func (a *durWorld) onboard() bool {
	w := a.w
	if len(a.sess) == 0 || len(a.sess) < 3 && w.Choose("onboard.new", 3) == 0 {
		d := a.ob[w.Choose("dev", len(a.ob))]
		s := w.newRawSess(a.base, d, w.chosenOpt(d))
		var r rawReply
		acked, fine := a.under(durOp{name: "60", add: []string{"session"}, do: func() bool { r = s.hello(); return r.ok() }})
		if !fine {
			return false
		}
		if !acked && !a.hit {
			w.Violate("refused-without-fault", "60 of %s failed: %s", d.Name, r)
			return false
		}
		if acked {
			a.sess = append(a.sess, &durSess{d: d, s: s, step: 62, used: w.NowMS()})
		}
		return true
	}
	k := w.Choose("onboard", len(a.sess))
	x := a.sess[k]
	drop := func() { a.sess = append(a.sess[:k:k], a.sess[k+1:]...) }
	if w.NowMS()-x.used > 590_000 {
		drop()
		return true
	}
	s := x.s
	if x.step == 62 && (x.entry >= s.Entries || x.entry > 0 && w.Choose("62.enough", 3) == 0) {
		x.step = 64
	}
	cmd := fmt.Sprint(x.step)
	var body []byte
	switch x.step {
	case 62:
		body = s.body62(x.entry)
	case 64:
		body = s.body64()
	case 66:
		body = s.body66()
	case 68:
		body = s.body68(false, deviceSims())
	case 70:
		body = s.body70()
	}
	key := "session-" + strings.TrimPrefix(s.Token, "Bearer ")
	before := a.st.Dump()[key]
	var r rawReply
	o := durOp{name: cmd, change: []string{key}, do: func() bool { r = s.post(cmd, body); return r.ok() }}
	if x.step == 70 {
		o.gone = []string{key}
	}
	acked, fine := a.under(o)
	if !fine {
		return false
	}
	after, there := a.st.Dump()[key]
	switch {
	case acked:
		switch x.step {
		case 62:
			x.entry++
		case 68:
			o, err := s.open69(r)
			if err != nil {
				w.Violate("step-broken", "the reply to 68 does not open: %v", err)
				return false
			}
			if !o.IsMoreServiceInfo && o.IsDone {
				x.step = 70
			}
		case 70:
			drop()
			return true
		default:
			x.step += 2
		}
		x.used = w.NowMS()
	case !a.hit:
		w.Violate("step-lost", "%s of %s was refused after every earlier step was acknowledged: %s", cmd, x.d.Name, r)
		return false
	case after != before || !there: // the step may have happened
		drop()
	}
	return true
}

// read does something that only reads, under faults: it is refused or true.
func (a *durWorld) read() bool {
	w := a.w
	u := a.us[w.Choose("user", len(a.us))]
	switch w.Choose("read", 4) {
	case 0, 1:
		kind := apiKinds[w.Choose("kind", 3)]
		var r apiReply
		acked, fine := a.under(durOp{name: "list " + kind, long: 8, do: func() bool {
			r = w.api(a.base, u.Cookie, apiGet("/api/"+kind+"/testruns"))
			return r.ok()
		}})
		if !fine || !a.must(acked, "list", r) {
			return false
		}
		if acked {
			l, err := parseList(kind, r)
			if x, y := joined(a.texts(u.Lists[kind])), joined(a.texts(l)); err != nil || x != y {
				w.Violate("read-untrue list-"+kind, "a list under a storage fault shows %s instead of %s (%v)", y, x, err)
				return false
			}
		}
	case 2:
		_, e, p := a.pickInst(u, []string{"dot"})
		if e == nil {
			return true
		}
		id := e.Inst[p].Id
		var r apiReply
		acked, fine := a.under(durOp{name: "vouchers", long: 8, do: func() bool { r = w.api(a.base, u.Cookie, apiGet("/api/dot/vouchers/"+id)); return r.ok() }})
		if !fine || !a.must(acked, "vouchers", r) {
			return false
		}
		if acked {
			z, err := zipVouchers(r)
			if err != nil || len(z) == 0 {
				w.Violate("read-untrue vouchers", "a voucher download does not open: %v (%d files)", err, len(z))
				return false
			}
			if a.zips[id] == nil {
				a.zips[id] = z
			} else if d := dumpDiff(a.zips[id], z); d != "" {
				w.Violate("read-untrue vouchers", "the vouchers of %s: %s", id, d)
				return false
			}
		}
	case 3:
		d := a.ob[w.Choose("dev", len(a.ob))]
		var r rawReply
		blob := ""
		acked, fine := a.under(durOp{name: "lookup", add: []string{"session"}, long: 10, do: func() bool { r, blob = w.lookup(a.base, d); return r.ok() }})
		if !fine {
			return false
		}
		want := a.reg[d.Name]
		if acked && blob != want || !acked && !a.hit && want != "" {
			w.Violate("read-untrue lookup", "a lookup of %s: %s, the registered answer %v", d.Name, r, blob == want)
			return false
		}
	}
	return true
}

// command runs the command line program on the tool's store, while the tool is stopped.
func (a *durWorld) command(args ...string) (c CLIResult, over bool) {
	w := a.w
	w.Crash(a.node)
	n := &Node{Name: "cli", Store: a.st, up: true}
	a.st.node = n
	gone := false
	t := w.Go(n, "cli", func() { c = w.RunCLI(args...); over = true })
	t.onExit = func() { gone = true }
	for i := 0; !gone && i < 3600; i++ {
		w.Sleep(time.Second)
	}
	a.st.node = a.node
	if !gone {
		w.Violate("command-hangs", "%v does not end", args)
	}
	return
}

// resetOp is one of the reset commands.
func (a *durWorld) resetOp() bool {
	w := a.w
	what := []string{"users", "listenerdb"}[w.Choose("reset", 2)]
	o := durOp{name: "reset " + what, gone: []string{"usere-*"}, long: 12}
	if what == "listenerdb" {
		o.gone = []string{"lstdb-*"}
	}
	var c CLIResult
	o.do = func() bool {
		over := false
		c, over = a.command("reset", what)
		return over && c.Panic == "" && c.Exit == nil
	}
	acked, fine := a.under(o)
	if !fine {
		return false
	}
	if c.Panic != "" {
		w.Violate("cli-panic "+c.Site, "reset %s: %s", what, c.Panic)
		return false
	}
	if !acked && !a.hit {
		w.Violate("refused-without-fault", "reset %s fails: %v %s", what, c.Exit, c.Out)
		return false
	}
	left := 0
	for _, k := range sortedKeys(a.st.Dump()) {
		if strings.HasPrefix(k, o.gone[0][:5]) {
			left++
		}
	}
	if acked && left > 0 {
		w.Violate("reset-undone", "reset %s succeeded, and %d records are still there", what, left)
		return false
	}
	if what == "listenerdb" {
		for _, u := range a.us {
			now, ok := a.look(u, o.name)
			if !ok || !a.same(u, now, o.name, "device") {
				return false
			}
			if left == 0 && len(now["device"]) > 0 {
				w.Violate("reset-undone", "after reset %s the device tests of %s are still listed", what, u.Email)
				return false
			}
			u.Lists["device"] = now["device"]
		}
		return true
	}
	var us []*durUser
	for _, u := range a.us {
		r := w.api(a.base, u.Cookie, apiGet("/api/rvt/testruns"))
		if _, ok := a.st.Dump()[userKey(u)]; ok {
			us = append(us, u)
			continue
		}
		if !r.refused() {
			w.Violate("reset-undone", "%s was removed, and its tests are listed: %s", u.Email, r)
			return false
		}
		for _, e := range u.Lists["dot"] {
			for _, i := range e.Inst {
				delete(a.zips, i.Id)
			}
		}
	}
	a.us = us
	for len(a.us) == 0 {
		if !a.login() {
			return false
		}
	}
	return true
}

func (a *durWorld) step() bool {
	w := a.w
	switch w.Choose("step", 21) {
	case 20:
		if w.Choose("reset.now", 3) == 0 {
			return a.resetOp()
		}
	case 0, 1, 2, 3:
		return a.create()
	case 4, 5:
		return a.execute()
	case 6:
		return a.startRun()
	case 7, 8:
		return a.deleteRun()
	case 9:
		if w.Choose("purge", 2) == 0 {
			return a.purge()
		}
	case 10:
		return a.login()
	case 11:
		return a.logout()
	case 12, 13:
		return a.registerOp()
	case 14, 15, 16:
		return a.onboard()
	case 17, 18:
		return a.read()
	case 19:
		if w.Choose("pause", 2) == 0 {
			a.restart()
		} else {
			w.Sleep(time.Duration(1+w.Choose("pause.s", 300)) * time.Second)
		}
	}
	return true
}

func scenC12(w *World) {
	st := w.NewStorage("tool")
	w.seedTools(st, 40)
	cfg := envCfg{ServiceURL: "http://tool"}
	a := &durWorld{apiWorld: &apiWorld{w: w, st: st, base: "http://tool", strange: map[string]bool{}}, reg: map[string]string{}, zips: map[string]map[string]string{}}
	used := map[fs.FdoGuid]bool{}
	for i := 0; i < 2; i++ {
		d := w.distinctDevice(fmt.Sprintf("d%d", i), 3, used)
		w.storeVoucher(st, d)
		a.ob = append(a.ob, d)
		a.reg[d.Name] = ""
	}
	for i := 0; i < 3; i++ {
		a.td = append(a.td, w.distinctDevice(fmt.Sprintf("t%d", i), 2, used))
	}
	a.devs = a.td
	a.node = w.AddNode("tool", "tool", st, serve(&cfg, "dra"))
	for _, e := range []string{"alice@fido.local", "bob@fido.local"}[:1+w.Choose("users", 2)] {
		if err := dbs.NewUserTestDB(st.DB).Save(dbs.UserTestDBEntry{Email: e}); err != nil {
			panic("harness: " + err.Error())
		}
		id, err := dbs.NewSessionDB(st.DB).NewSessionEntry(dbs.SessionEntry{Email: e, LoggedIn: true})
		if err != nil {
			panic("harness: " + err.Error())
		}
		a.us = append(a.us, &durUser{Email: e, Cookie: "session=" + string(id), Born: w.NowMS(), Lists: map[string][]*apiEntry{}})
	}
	w.Go(nil, "client", func() {
		for k := 6 + w.Choose("steps", 20); k > 0; k-- {
			if !a.step() {
				return
			}
		}
		if w.Choose("end.restart", 2) == 0 {
			a.restart()
		}
		a.checkAll("the end")
	})
	w.Run()
	if w.endErr != "" && len(w.violations) == 0 {
		w.Violate("no-progress", "the run did not end: %s", w.endErr)
	}
}
