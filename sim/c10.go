package fdosim

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
	dodbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/do/dbs"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

func init() { scenarios["C10"] = scenC10 }

// refSims judges a whole list of device entries: all mandatory ones are there and
// each of them has a value of its type. The generators only use clear cases.
func refSims(list []fs.ServiceInfoKV) bool {
	want := map[string]byte{"devmod:active": 7, "devmod:os": 3, "devmod:arch": 3, "devmod:version": 3, "devmod:device": 3, "devmod:sep": 3,
		"devmod:bin": 3, "devmod:nummodules": 0, "devmod:modules": 4}
	seen := map[string]bool{}
	for _, e := range list {
		t, known := want[string(e.ServiceInfoKey)]
		if !known {
			continue
		}
		seen[string(e.ServiceInfoKey)] = true
		n, rest, ok := parseCbor(e.ServiceInfoVal)
		if !ok || len(rest) != 0 || n.major != t {
			return false
		}
		if t == 4 {
			if len(n.kids) < 3 || n.kids[0].major != 0 || n.kids[1].major != 0 {
				return false
			}
			for _, k := range n.kids[2:] {
				if k.major != 3 {
					return false
				}
			}
		}
	}
	return len(seen) == len(want)
}

func kvText(l []fs.ServiceInfoKV) string {
	var s []string
	for _, e := range l {
		s = append(s, fmt.Sprintf("%s=%s", e.ServiceInfoKey, hx(e.ServiceInfoVal)))
	}
	return strings.Join(s, ",")
}

func sameKV(a, b []fs.ServiceInfoKV) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].ServiceInfoKey != b[i].ServiceInfoKey || !bytes.Equal(a[i].ServiceInfoVal, b[i].ServiceInfoVal) {
			return false
		}
	}
	return true
}

// ownerSession is the owner's stored session of a token (nil if there is none).
func (w *World) ownerSession(st *Storage, token string) *dodbs.SessionEntry {
	rec := w.sessionRecord(st, token)
	if rec == "" {
		return nil
	}
	var e dodbs.SessionEntry
	if err := fs.CborCust.Unmarshal([]byte(rec), &e); err != nil {
		w.Violate("session-record-unreadable", "the owner's session record does not decode: %v", err)
		return nil
	}
	return &e
}

// deviceEntries makes the list of entries a device sends: the mandatory ones in some
// order, among others, repeated ones, and perhaps one with a value of another type.
func (w *World) deviceEntries() (list []fs.ServiceInfoKV, bad string) {
	list = append(list, fs.GetDeviceOSSims()...)
	if w.Choose("dev.shuffle", 2) == 1 {
		for i := len(list) - 1; i > 0; i-- {
			j := w.Choose("dev.shuffle.at", i+1)
			list[i], list[j] = list[j], list[i]
		}
	}
	ins := func(e fs.ServiceInfoKV) {
		p := w.Choose("dev.extra.at", len(list)+1)
		list = append(list[:p], append([]fs.ServiceInfoKV{e}, list[p:]...)...)
	}
	kv := func(k string, v interface{}) fs.ServiceInfoKV {
		return fs.ServiceInfoKV{ServiceInfoKey: fs.SIM_ID(k), ServiceInfoVal: mustCbor(v)}
	}
	for n := w.Choose("dev.extra", 5); n > 0; n-- {
		switch w.Choose("dev.extra.kind", 9) {
		case 0:
			ins(kv("devmod:sn", "serial"))
		case 1:
			ins(kv("vendor:x", fs.NewRandomBuffer(4)))
		case 2:
			ins(kv("vendor:big", make([]byte, 200+w.Choose("dev.extra.len", 900))))
		case 3:
			ins(kv("devmod:os", "again"))
		case 4:
			ins(kv("devmod:modules", []interface{}{1, 1, "more"}))
		case 5:
			ins(list[w.Choose("dev.extra.copy", len(list))]) // the same entry twice
		case 6:
			ins(fs.ServiceInfoKV{ServiceInfoKey: "vendor:empty", ServiceInfoVal: []byte{}})
		case 7:
			ins(kv("devmod:active", true))
		case 8:
			ins(kv("fido_alliance:dev_conformance", "from the device"))
		}
	}
	switch w.Choose("dev.bad", 6) {
	case 4: // wrong type
		k := []string{"devmod:active", "devmod:os", "devmod:arch", "devmod:version", "devmod:device", "devmod:sep", "devmod:bin", "devmod:nummodules", "devmod:modules"}[w.Choose("dev.bad.key", 9)]
		v := []interface{}{"text", 7, true, []interface{}{1, 1}, []interface{}{"a", 1, "m"}, []interface{}{1, 1, 5}, []interface{}{1, "b", "m"}, map[string]int{"a": 1}}[w.Choose("dev.bad.val", 8)]
		e := kv(k, v)
		if w.Choose("dev.bad.none", 8) == 7 {
			e.ServiceInfoVal = []byte{}
		}
		ins(e)
		bad = "type of " + k
	case 5: // one is missing
		i := w.Choose("dev.missing", len(list))
		k := list[i].ServiceInfoKey
		var l []fs.ServiceInfoKV
		for _, e := range list {
			if e.ServiceInfoKey != k {
				l = append(l, e)
			}
		}
		list, bad = l, "without "+string(k)
	}
	if refSims(list) {
		bad = ""
	}
	return
}

type simSess struct {
	s     *rawSess
	owner []fs.ServiceInfoKV
	dev   []fs.ServiceInfoKV // entries of accepted messages
	sent  int                // owner entries used up
	fin   bool
	got   []fs.ServiceInfoKV // owner entries received
	lost  bool
	desc  string
	born  int64
	nmsg  int
}

// send68 sends one message and judges its effect and its reply by the reference.
func (w *World) send68(st *Storage, x *simSess, more bool, sims []fs.ServiceInfoKV, faulty bool) (accepted bool) {
	s := x.s
	all := append(append([]fs.ServiceInfoKV{}, x.dev...), sims...)
	must, why := true, ""
	if x.fin {
		must, why = false, "the owner was done"
	} else if !more && x.sent == 0 && !refSims(all) {
		must, why = false, "mandatory entries are missing or of another type"
	}
	before := w.sessionRecord(st, s.Token)
	r := s.post("68", s.body68(more, sims))
	x.nmsg++
	after := w.sessionRecord(st, s.Token)
	w.Logf("%s: 68 more=%v %d entries: %s", x.desc, more, len(sims), r)
	applied := r.ok()
	if r.Err != nil {
		if !faulty {
			w.Violate("68-unanswered", "%s: %v", x.desc, r.Err)
		}
		applied = before != after
		w.Sleep(time.Second)
		if applied {
			x.lost = true
		}
	} else if !r.ok() {
		if must && !faulty {
			w.Violate("68-refused", "%s: a correct message (more=%v, %d entries after %d accepted ones, %d of %d owner entries sent) was refused: %s", x.desc, more, len(sims), len(x.dev), x.sent, len(x.owner), r)
		}
		if bad := badErrorReply("68", r.Status, r.Head, r.Body); bad != "" {
			w.Violate("bad-error-reply 68", "%s: %s", x.desc, bad)
		}
		if before != after {
			w.Violate("refused-68-changed-session", "%s: a refused message changed the owner's session", x.desc)
		}
	}
	if applied && !must {
		w.Violate("68-accepted: "+why, "%s: a message was accepted although %s; all entries: %s", x.desc, why, kvText(all))
		return true
	}
	if !applied {
		return false
	}
	x.dev = all
	if e := w.ownerSession(st, s.Token); e != nil && !sameKV(e.DeviceSIMs, all) {
		w.Violate("device-entries-differ", "%s: the device sent, in accepted messages, %d entries: %s; the owner holds %d: %s", x.desc, len(all), kvText(all), len(e.DeviceSIMs), kvText(e.DeviceSIMs))
	}
	var want []fs.ServiceInfoKV
	wantDone, wantMore := false, false
	if !more {
		if x.sent < len(x.owner) {
			want = x.owner[x.sent : x.sent+1]
		}
		x.sent++
		wantDone = x.sent >= len(x.owner)
		wantMore = !wantDone
		x.fin = wantDone
	}
	if !r.ok() {
		return true
	}
	if bad := badSuccessReply("68", r.Head); bad != "" {
		w.Violate("bad-reply 68", "%s: %s", x.desc, bad)
	}
	o, err := s.open69(r)
	if err != nil {
		w.Violate("reply-69-unreadable", "%s: %v", x.desc, err)
		return true
	}
	x.got = append(x.got, o.ServiceInfo...)
	if more && (len(o.ServiceInfo) != 0 || o.IsDone) {
		w.Violate("owner-did-not-wait", "%s: the device has more to send, the reply carries %d entries, done=%v", x.desc, len(o.ServiceInfo), o.IsDone)
		return true
	}
	if !sameKV(o.ServiceInfo, want) {
		w.Violate("owner-entry-differs", "%s: reply %d carries %q instead of %q (of %d)", x.desc, x.sent, kvText(o.ServiceInfo), kvText(want), len(x.owner))
	}
	if o.IsDone != wantDone || o.IsMoreServiceInfo != wantMore {
		w.Violate("owner-flags-differ", "%s: after %d of %d entries the reply says done=%v more=%v", x.desc, x.sent, len(x.owner), o.IsDone, o.IsMoreServiceInfo)
	}
	return true
}

// twice68 sends one message several times at once: as many of them as are accepted count,
// one after another.
func (w *World) twice68(st *Storage, x *simSess, more bool, sims []fs.ServiceInfoKV) bool {
	s := x.s
	k := 2 + w.Choose("twice", 2)
	rs := make([]rawReply, k)
	left := k
	body := s.body68(more, sims)
	for i := range rs {
		if w.Choose("twice.anew", 2) == 1 {
			body = s.body68(more, sims)
		}
		b := body
		w.Go(nil, fmt.Sprintf("%s.%d", x.desc, i), func() { rs[i] = s.post("68", b); left-- })
	}
	for left > 0 {
		w.Sleep(time.Millisecond)
	}
	x.nmsg += k
	var have, want []string
	n := 0
	for _, r := range rs {
		w.Logf("%s: 68 at once more=%v %d entries: %s", x.desc, more, len(sims), r)
		if r.Err != nil {
			w.Violate("68-unanswered", "%s: %v", x.desc, r.Err)
			return false
		}
		if !r.ok() {
			if bad := badErrorReply("68", r.Status, r.Head, r.Body); bad != "" {
				w.Violate("bad-error-reply 68", "%s: %s", x.desc, bad)
			}
			continue
		}
		n++
		o, err := s.open69(r)
		if err != nil {
			w.Violate("reply-69-unreadable", "%s: %v", x.desc, err)
			return false
		}
		have = append(have, fmt.Sprintf("%s done=%v more=%v", kvText(o.ServiceInfo), o.IsDone, o.IsMoreServiceInfo))
	}
	for i := 0; i < n; i++ {
		x.dev = append(append([]fs.ServiceInfoKV{}, x.dev...), sims...)
		if x.fin || !more && x.sent == 0 && !refSims(x.dev) {
			w.Violate("68-accepted: too often", "%s: of %d copies of a message sent at once %d were accepted (%d of %d owner entries sent, done %v)", x.desc, k, n, x.sent, len(x.owner), x.fin)
			return false
		}
		e := []fs.ServiceInfoKV{}
		if !more {
			if x.sent < len(x.owner) {
				e = x.owner[x.sent : x.sent+1]
			}
			x.sent++
			x.fin = x.sent >= len(x.owner)
			x.got = append(x.got, e...)
		}
		want = append(want, fmt.Sprintf("%s done=%v more=%v", kvText(e), x.fin, !more && !x.fin))
	}
	sort.Strings(have)
	sort.Strings(want)
	if strings.Join(have, "; ") != strings.Join(want, "; ") {
		w.Violate("owner-entries-at-once", "%s: %d copies of a message sent at once were accepted, the replies are %q instead of %q", x.desc, n, have, want)
		return false
	}
	if e := w.ownerSession(st, s.Token); e != nil && !sameKV(e.DeviceSIMs, x.dev) {
		w.Violate("device-entries-differ", "%s: the device sent, in accepted messages, %s; the owner holds %s", x.desc, kvText(x.dev), kvText(e.DeviceSIMs))
		return false
	}
	w.Eval(fmt.Sprintf("at once %d of %d more %v", n, k, more))
	return n > 0
}

// C10: devices and raw clients exchange service info with the real owner, split
// and ordered in every way, side by side, with disk faults, lost replies and crashes.
func scenC10(w *World) {
	cfg := &envCfg{ServiceURL: "http://owner.example:8043"}
	st := w.NewStorage("srv")
	used := map[fs.FdoGuid]bool{}
	nDev := 2 + w.Choose("ndev", 2)
	var devs []*Dev
	conf := map[fs.FdoGuid][]fs.ServiceInfoKV{}
	var mapping []string
	for i := 0; i < nDev; i++ {
		d := w.distinctDevice(fmt.Sprintf("d%d", i), 3, used)
		devs = append(devs, d)
		w.storeVoucher(st, d)
		g := d.Guid()
		if w.Choose("conf", 3) > 0 {
			tok := fmt.Sprintf("token-%d-%x", i, fs.NewRandomBuffer(3))
			if w.Choose("conf.empty", 8) == 7 {
				tok = ""
			}
			mapping = append(mapping, fmt.Sprintf("[\"%x\",%q]", g[:], tok))
			conf[g] = []fs.ServiceInfoKV{{ServiceInfoKey: "fido_alliance:active", ServiceInfoVal: []byte{0xf5}}, {ServiceInfoKey: "fido_alliance:dev_conformance", ServiceInfoVal: []byte(tok)}}
		}
		if w.Choose("conf.near", 3) == 2 { // an identity close to this one
			n := g
			n[w.Choose("conf.near.at", 16)] ^= 1 << w.Choose("conf.near.bit", 8)
			mapping = append(mapping, fmt.Sprintf("[\"%x\",\"near-%d\"]", n[:], i))
		}
	}
	if len(mapping) > 0 {
		for i := len(mapping) - 1; i > 0; i-- {
			j := w.Choose("conf.order", i+1)
			mapping[i], mapping[j] = mapping[j], mapping[i]
		}
		cfg.Interop, cfg.DashURL, cfg.DOAuthz = true, "http://dash", "x"
		cfg.TokenMapping = "[" + strings.Join(mapping, ",") + "]"
	}
	conf0 := ownerEntryNames()
	for g := range conf {
		conf[g][0].ServiceInfoKey, conf[g][1].ServiceInfoKey = conf0[0], conf0[1]
	}
	owner := w.AddNode("owner", "owner", st, serve(cfg, []string{"d", "dra"}[w.Choose("svc", 2)]))
	w.Net.MaxDelayMS = 1 + w.Choose("net.maxdelay", 60)
	mode := w.Choose("mode", 3)
	faulty := mode == 2
	rec := w.Record()
	fault := func() {
		if !faulty {
			return
		}
		owner.Store.CrashNum, owner.Store.CrashDen = w.Choose("crash", 2), 25
		owner.Store.ErrNum, owner.Store.ErrDen, owner.Store.ErrOps = w.Choose("dberr", 3), 12, "get set commit"
		w.Net.DropResp = 20 * w.Choose("dropresp", 3)
		w.Net.DropReq = 20 * w.Choose("dropreq", 2)
	}
	if faulty {
		w.autoRestart(owner)
	}
	n := 1
	if mode != 1 {
		n = 1 + w.Choose("nsess", 3)
	}
	raw := func(i int) {
		d := devs[w.Choose("sess.dev", len(devs))]
		opt := w.chosenOpt(d)
		var x *simSess
		for try := 0; try < 4 && x == nil; try++ {
			s := w.newRawSess("http://owner", d, opt)
			ok := s.hello().ok()
			for k := 0; ok && k < s.Entries; k++ {
				ok = s.post("62", s.body62(k)).ok()
			}
			ok = ok && s.post("64", s.body64()).ok()
			if ok {
				b := s.body66()
				if w.Choose("66.kind", 2) == 1 {
					sz := uint16([]int{0, 1, 100, 255, 256, 1300, 0x7fff, 0xffff}[w.Choose("66.size", 8)])
					m := fs.DeviceServiceInfoReady66{MaxOwnerServiceInfoSz: &sz}
					if w.Choose("66.nosize", 4) == 3 {
						m.MaxOwnerServiceInfoSz = nil
					}
					if w.Choose("66.hmac", 2) == 1 {
						m.ReplacementHMac = &s.P61.HMac
					}
					b = s.seal(mustCbor(m))
				}
				ok = s.post("66", b).ok()
			}
			if ok {
				x = &simSess{s: s, owner: conf[d.Guid()], born: w.NowMS()}
			} else if !faulty {
				w.Violate("session-refused", "%s: a correct session did not get to service info", d.Desc())
				return
			}
		}
		if x == nil {
			return
		}
		x.desc = fmt.Sprintf("s%d %s/%s/%d", i, sgName(d.OwnerSg), opt.Kex, opt.Cipher)
		if e := w.ownerSession(st, x.s.Token); e != nil {
			if !sameKV(e.OwnerSIMs, x.owner) {
				w.Violate("owner-entries-differ", "%s: configured for this device: %q, the session holds %q", x.desc, kvText(x.owner), kvText(e.OwnerSIMs))
			}
			if w.Choose("more.owner", 2) == 1 { // an owner with other entries
				n := w.Choose("more.owner.n", 10)
				if mode == 0 && n == 9 {
					n = []int{40, 256, 258, 300}[w.Choose("more.owner.many", 4)]
				}
				x.owner = nil
				for k := 0; k < n; k++ {
					v := mustCbor(k)
					if w.Choose("more.owner.val", 6) == 5 {
						v = []byte{}
					}
					x.owner = append(x.owner, fs.ServiceInfoKV{ServiceInfoKey: fs.SIM_ID([]string{"own:a", "own:b", fmt.Sprintf("own:%d", k)}[w.Choose("more.owner.key", 3)]), ServiceInfoVal: v})
				}
				e.OwnerSIMs = x.owner
				if e.OwnerSIMs == nil {
					e.OwnerSIMs = []fs.ServiceInfoKV{}
				}
				st.Put(map[string]string{sessionKey(x.s.Token): string(mustCbor(*e))})
			}
		}
		fault()
		list, bad := w.deviceEntries()
		split := ""
		stop := func() bool { return w.NowMS()-x.born > 300e3 || x.nmsg > 400 }
		for len(list) > 0 && !stop() {
			m := w.Choose("split", len(list)+1)
			if w.Choose("split.one", 2) == 1 && m > 1 {
				m = 1
			}
			more := m < len(list) || w.Choose("split.tail", 2) == 1
			if more && w.Choose("early", 12) == 11 {
				more = false // says it is done too early, or after all its mandatory ones
			}
			if mode == 1 && w.Choose("fault", 6) == 5 {
				op := []string{"get", "set", "commit"}[w.Choose("fault.op", 3)]
				owner.Store.FailNext[op] = 1
				ok := w.send68(st, x, more, list[:m], true)
				delete(owner.Store.FailNext, op)
				if ok {
					list = list[m:]
					split += fmt.Sprint(m)
				}
				continue
			}
			was := x.fin
			if mode == 0 && w.Choose("at.once", 10) == 9 {
				if w.twice68(st, x, more, list[:m]) {
					list = list[m:]
					split += fmt.Sprint(m)
					continue
				}
				if len(w.violations) > 0 {
					return
				}
			}
			if w.send68(st, x, more, list[:m], faulty) {
				list = list[m:]
				split += fmt.Sprint(m)
			} else if was {
				break
			}
			if mode == 0 && n == 1 && w.Choose("pause", 12) == 11 {
				w.Crash(owner)
				w.Sleep(time.Duration(1+w.Choose("pause.s", 20)) * time.Second)
				w.Restart(owner)
			}
		}
		if bad != "" {
			w.Count("lists_with_fault")
		}
		w.Eval(fmt.Sprintf("raw split %s owner %d mode %d %s", split, len(x.owner), mode, bad))
		for k := 0; !x.fin && !stop(); k++ {
			more := w.Choose("mid.more", 8) == 7
			var extra []fs.ServiceInfoKV
			if w.Choose("mid.extra", 6) == 5 {
				extra = []fs.ServiceInfoKV{{ServiceInfoKey: "vendor:late", ServiceInfoVal: mustCbor(k)}}
			}
			if mode == 0 && w.Choose("mid.once", 10) == 9 {
				w.twice68(st, x, more, extra)
				if len(w.violations) > 0 {
					return
				}
				continue
			}
			if !w.send68(st, x, more, extra, faulty) && !more && (!faulty || !refSims(x.dev)) {
				break
			}
		}
		if x.fin {
			if !x.lost && !sameKV(x.got, x.owner) {
				w.Violate("owner-entries-incomplete", "%s: received %q of %q", x.desc, kvText(x.got), kvText(x.owner))
			}
			if w.Choose("after.done", 3) == 2 {
				w.send68(st, x, w.Choose("after.more", 2) == 1, nil, faulty)
			}
			if r := x.s.post("70", x.s.body70()); !r.ok() && !faulty {
				w.Violate("session-refused", "%s: 70 was refused: %s", x.desc, r)
			}
			w.Count("exchanges_completed")
		} else {
			w.Count("exchanges_refused")
		}
	}
	var reals []string
	real := func(i int) {
		d := devs[w.Choose("sess.dev", len(devs))]
		o := w.chosenOpt(d)
		list, bad := w.deviceEntries()
		o.Sims, o.PerMsg = list, 1+w.Choose("real.permsg", len(list))
		o.TailEmpty = w.Choose("real.tail", 2) == 1
		tok := ""
		o.Mutate = func(stage string, r *to2.To2Requestor) { tok = r.AuthzHeader }
		r := RunTo2("http://owner", d, o)
		reals = append(reals, tok)
		if p, ok := r.Err.(PanicError); ok {
			w.Violate("device-panic "+p.Site, "%v", p)
			return
		}
		if r.Err == nil && !sameKV(r.OwnerSims, conf[d.Guid()]) {
			w.Violate("owner-entries-incomplete", "%s: the device received %q of %q", d.Desc(), kvText(r.OwnerSims), kvText(conf[d.Guid()]))
		}
		if r.Err == nil && bad != "" {
			w.Violate("completed-with-bad-entries", "%s: completed although the device's entries are %s", d.Desc(), bad)
		}
		if r.Err != nil && bad == "" && !faulty && mode == 0 {
			w.Violate("session-refused", "%s: a real device was refused: %v", d.Desc(), r.Err)
		}
		if e := w.ownerSession(st, tok); r.Err == nil && e != nil && !sameKV(e.DeviceSIMs, list) {
			w.Violate("device-entries-differ", "%s: sent %s; the owner holds %s", d.Desc(), kvText(list), kvText(e.DeviceSIMs))
		}
		w.Eval(fmt.Sprintf("real per %d of %d tail %v owner %d %s", o.PerMsg, len(list), o.TailEmpty, len(conf[d.Guid()]), bad))
	}
	cliRun := func(d *Dev) {
		c := w.RunCLI("iop", "to2", "http://owner", w.writeCred(d.Name, d.Cred))
		if c.Panic != "" {
			w.Violate("cli-panic "+c.Site, "%s", c.Panic)
		}
		if !c.Said("Success To2") {
			if !faulty {
				w.Violate("session-refused", "%s: the command line device was refused:\n%s", d.Desc(), c.Out)
			}
			return
		}
		w.Eval(fmt.Sprintf("cli owner %d", len(conf[d.Guid()])))
		for _, m := range rec.Msgs {
			if m.From != "cli" || m.Cmd != "68" {
				continue
			}
			if e := w.ownerSession(st, m.Auth); e != nil && !sameKV(e.DeviceSIMs, fs.GetDeviceOSSims()) {
				w.Violate("device-entries-differ", "%s: the command line device has %s; the owner holds %s", d.Desc(), kvText(fs.GetDeviceOSSims()), kvText(e.DeviceSIMs))
			} else if e != nil {
				w.Count("cli_exchanges")
			}
			break
		}
	}
	for i := 0; i < n; i++ {
		i := i
		if mode == 0 && w.Choose("real", 3) == 2 {
			w.Go(nil, fmt.Sprintf("real%d", i), func() { real(i) })
		} else {
			w.Go(nil, fmt.Sprintf("raw%d", i), func() { raw(i) })
		}
	}
	w.Run()
	w.heal()
	owner.Store.CrashNum, owner.Store.ErrNum = 0, 0
	if !owner.up {
		w.Restart(owner)
	}
	if w.Choose("cli", 8) == 7 {
		for _, d := range devs {
			if d.OwnerSg == fs.StSECP256R1 {
				w.Go(nil, "cli", func() { cliRun(d) })
				w.Run()
				break
			}
		}
	}
	if w.endErr != "" {
		w.Violate("no-progress", "the run did not end: %s", w.endErr)
	}
}

func ownerEntryNames() [2]fs.SIM_ID { return [2]fs.SIM_ID{fs.IOPLOGGER_SIM_ACTIVE, fs.IOPLOGGER_SIM} }
