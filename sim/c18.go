package fdosim

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/big"
	"net/http"
	"regexp"
	"strings"
	"time"

	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

func init() { scenarios["C18"] = scenC18 }

// fresh keeps every value that has to be new.
type fresh struct {
	w    *World
	seen map[string]string // value -> what it was
	ivs  map[string]string // token + iv -> message
	kind map[string][]string
}

func (f *fresh) add(kind, what string, v []byte) {
	if len(v) == 0 {
		f.w.Violate("empty "+kind, "%s is empty", what)
		return
	}
	if prev, ok := f.seen[string(v)]; ok {
		f.w.Violate("reused "+kind, "%s is the value %s, which was already used: %s", what, hx(v), prev)
		return
	}
	f.seen[string(v)] = what
	if len(v) >= 12 {
		f.w.values = append(f.w.values, fmt.Sprintf("%s %x", kind, v))
	}
	f.kind[kind] = append(f.kind[kind], string(v))
	f.w.Count("values." + strings.ReplaceAll(kind, " ", "_"))
}

// ivOf finds the initialisation vectors in an encrypted message.
func ivOf(b []byte) (ivs [][]byte) {
	root, rest, ok := parseCbor(b)
	if !ok || len(rest) != 0 {
		return nil
	}
	var walk func(n *cnode)
	walk = func(n *cnode) {
		if n.major == 5 {
			for i := 0; i+1 < len(n.kids); i += 2 {
				if n.kids[i].major == 0 && n.kids[i].val == 5 && n.kids[i+1].major == 2 {
					ivs = append(ivs, n.kids[i+1].data)
				}
			}
			return // an IV's bytes can be a map by chance
		}
		for _, k := range n.kids {
			walk(k)
		}
		if n.inner != nil && (n.inner.major == 4 || n.inner.major == 6) {
			walk(n.inner)
		}
	}
	walk(root)
	return
}

func (f *fresh) iv(tok, what string, body []byte) {
	for _, iv := range ivOf(body) {
		k := tok + "|" + string(iv)
		if prev, ok := f.ivs[k]; ok {
			f.w.Violate("reused iv", "%s carries IV %x, which was already used with this key: %s", what, iv, prev)
			continue
		}
		f.ivs[k] = what
		f.kind["iv"] = append(f.kind["iv"], k)
		f.w.Count("values.iv")
	}
}

func (f *fresh) kex(kind, what string, suite string, v []byte) {
	f.add(kind+" "+suite, what, v)
	if !strings.HasPrefix(suite, "ECDH") {
		return
	}
	names := []string{"x", "y", "random"}
	for i := 0; i < 3 && len(v) > 2; i++ {
		l := int(binary.BigEndian.Uint16(v))
		if len(v) < 2+l {
			return
		}
		f.add(kind+" "+suite+" "+names[i], what, v[2:2+l])
		v = v[2+l:]
	}
}

func isGenuine(m *Msg) bool { return strings.HasPrefix(m.FromName, "dev") && m.dupOf == 0 }

// see takes the new values out of one exchange.
func (f *fresh) see(m *Msg) {
	w := f.w
	cmd := m.Cmd()
	if strings.HasPrefix(m.FromName, "weak") {
		return
	}
	what := fmt.Sprintf("message %d (%s %s to %s at %d ms)", m.ID, m.FromName, cmd, m.Host, w.NowMS())
	tok := m.Header.Get("Authorization")
	ok := m.Replied && m.Status == 200
	switch cmd {
	case "20", "30", "60":
		if cmd == "60" && isGenuine(m) {
			var h fs.HelloDevice60
			if fs.CborCust.Unmarshal(m.Body, &h) == nil {
				f.add("nonce60", "request of "+what, h.NonceTO2ProveOV[:])
			}
		}
		if !ok {
			return
		}
		t := m.RespHeader.Get("Authorization")
		f.add("token", "the token of "+what, []byte(t))
		if cmd != "60" {
			if n, _, good := parseCbor(m.RespBody); good && n.at(0) != nil {
				f.add("nonce"+nextCmd(cmd), "reply to "+what, n.at(0).data)
			}
			return
		}
		var c fs.CoseSignature
		var p fs.TO2ProveOVHdrPayload
		var h fs.HelloDevice60
		if fs.CborCust.Unmarshal(m.RespBody, &c) != nil || fs.CborCust.Unmarshal(c.Payload, &p) != nil || fs.CborCust.Unmarshal(m.Body, &h) != nil {
			w.Violate("reply-unreadable 60", "%s", what)
			return
		}
		if c.Unprotected.CUPHNonce != nil {
			f.add("nonce61", "reply to "+what, c.Unprotected.CUPHNonce[:])
		}
		f.kex("xA", "key exchange of the reply to "+what, string(h.KexSuiteName), p.XAKeyExchange)
	case "64":
		if isGenuine(m) {
			var c fs.CoseSignature
			if fs.CborCust.Unmarshal(m.Body, &c) == nil && c.Unprotected.EUPHNonce != nil {
				f.add("nonce64", "request of "+what, c.Unprotected.EUPHNonce[:])
			}
		}
		if ok {
			f.iv(tok, "reply to "+what, m.RespBody)
		}
	case "66", "68", "70":
		if isGenuine(m) {
			f.iv(tok, "request of "+what, m.Body)
		}
		if ok {
			f.iv(tok, "reply to "+what, m.RespBody)
		}
	case "/api/user/login/onprem":
		for _, c := range (&http.Response{Header: m.RespHeader}).Cookies() {
			if ok && c.Name == "session" {
				f.add("api token", "cookie of "+what, []byte(c.Value))
			}
		}
	}
}

// raw is the random content of a value: a token is text around a UUID.
func (f *fresh) raw(kind, v string) []byte {
	if kind == "iv" {
		return []byte(v[strings.Index(v, "|")+1:])
	}
	if strings.Contains(kind, "token") {
		if m := uuidText.FindString(v); m != "" {
			b, _ := hex.DecodeString(strings.ReplaceAll(m, "-", ""))
			return b
		}
		return nil
	}
	return []byte(v)
}

var uuidText = regexp.MustCompile(`[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}`)

// overlap looks for a piece that two different values have in common. Two values
// drawn independently share 8 bytes in a row with a probability below 2^-50 for all
// the pairs of a run together, so a shared piece is a piece that was not drawn anew.
func (f *fresh) overlap() {
	for _, kind := range sortedKeys(f.kind) {
		win := 8
		if kind == "iv" {
			win = 7
		}
		owner := map[string]int{}
	values:
		for i, v := range f.kind[kind] {
			b := f.raw(kind, v)
			for p := 0; p+win <= len(b); p++ {
				k := string(b[p : p+win])
				if j, ok := owner[k]; ok && j != i {
					f.w.Violate("piece of "+kind+" repeated", "%d values of %s; number %d is %x and shares %x with number %d, %x", len(f.kind[kind]), kind, i, b, k, j, f.raw(kind, f.kind[kind][j]))
					break values
				}
				owner[k] = i
			}
		}
		f.w.Count("overlap.checked")
	}
}

// spread looks at whole populations: values of which every byte, or almost every
// byte, comes from a small set would meet again over a longer history.
func (f *fresh) spread() {
	for kind, vs := range f.kind {
		if kind == "iv" || len(vs) < 48 {
			continue
		}
		n := len(vs[0])
		varying := 0
		low := -1
		for p := 0; p < n; p++ {
			set := map[byte]bool{}
			for _, v := range vs {
				if len(v) > p {
					set[v[p]] = true
				}
			}
			if len(set) >= 8 {
				varying++
			} else if low < 0 {
				low = p
			}
		}
		switch {
		case strings.Contains(kind, "token"):
			if varying < 24 { // characters
				f.w.Violate("narrow "+kind, "%d values of %s, only %d of %d characters vary", len(vs), kind, varying, n)
			}
		case strings.HasPrefix(kind, "nonce"), strings.HasSuffix(kind, " random"):
			if varying < n {
				f.w.Violate("narrow "+kind, "%d values of %s, only %d of %d bytes vary; byte %d does not", len(vs), kind, varying, n, low)
			}
		}
		f.w.Count("populations")
	}
}

// weakPeer takes part in a Diffie-Hellman key exchange with a number that makes the
// session key a constant, whatever the other side contributes: as a device that has
// proven itself, or as the device's true owner. Nobody may go on with such a key.
func (w *World) weakPeer(p int, d *Dev) {
	kex, bits := fs.KEX_DHKEXid14, uint(2048)
	if w.Choose("weak.group", 2) == 1 {
		kex, bits = fs.KEX_DHKEXid15, 3072
	}
	pr := rfc3526(bits)
	names := []string{"0", "1", "p-1", "p", "p+1"}
	i := w.Choose("weak.number", len(names))
	y := []*big.Int{new(big.Int), big.NewInt(1), new(big.Int).Sub(pr, big.NewInt(1)), pr, new(big.Int).Add(pr, big.NewInt(1))}[i]
	weak := y.FillBytes(make([]byte, bits/8))
	o := To2Opt{Kex: kex, Cipher: goodCiphers[w.Choose("weak.cipher", len(goodCiphers))]}
	if w.Choose("weak.side", 2) == 0 {
		w.Eval(fmt.Sprintf("weak device %s %s", kex, names[i]))
		w.Go(nil, fmt.Sprintf("weak%d", p), func() {
			s := w.newRawSess("http://owner", d, o)
			if !s.hello().ok() {
				return
			}
			for k := 0; k < s.Entries; k++ {
				if !s.post("62", s.body62(k)).ok() {
					return
				}
			}
			priv, err := fs.ExtractPrivateKey(d.Cred.DCPrivateKeyDer)
			if err != nil {
				panic("harness: " + err.Error())
			}
			pl := mustCbor(fs.EATPayloadBase{EatNonce: s.N61, EatUEID: fs.GenerateEatGuid(d.Guid()), EatFDO: fs.TO2ProveDevicePayload{XBKeyExchange: weak}})
			c, err := fs.GenerateCoseSignature(pl, fs.ProtectedHeader{}, fs.UnprotectedHeader{EUPHNonce: &s.NSetup}, priv, d.DevSg)
			if err != nil {
				panic("harness: " + err.Error())
			}
			if r := s.post("64", mustCbor(*c)); r.ok() {
				w.Violate("weak-key-exchange", "the owner service goes on with a session key that the device alone decides (%s contributed %s)", kex, names[i])
			}
		})
		return
	}
	w.Eval(fmt.Sprintf("weak owner %s %s", kex, names[i]))
	name := fmt.Sprintf("weak%d", p)
	done := false
	w.InterceptReply = func(m *Msg, body []byte) []byte {
		if m.FromName != name || m.Cmd() != "60" || m.Status != 200 {
			return body
		}
		var c fs.CoseSignature
		var pl fs.TO2ProveOVHdrPayload
		if fs.CborCust.Unmarshal(body, &c) != nil || fs.CborCust.Unmarshal(c.Payload, &pl) != nil {
			return body
		}
		pl.XAKeyExchange = weak
		n, err := fs.GenerateCoseSignature(mustCbor(pl), fs.ProtectedHeader{}, c.Unprotected, d.finalKey(), d.OwnerSg)
		if err != nil {
			panic("harness: " + err.Error())
		}
		done = true
		return mustCbor(*n)
	}
	w.Go(nil, name, func() {
		o.Mutate = func(stage string, r *to2.To2Requestor) {
			if done && len(r.SessionKey.ShSe) != 0 && len(w.violations) == 0 {
				w.Violate("weak-key-exchange", "the device derived a session key that the owner alone decides (%s contributed %s)", kex, names[i])
			}
		}
		if r := RunTo2("http://owner", d, o); r.Err == nil && done {
			w.Violate("weak-key-exchange", "the device went on with a session key that the owner alone decides (%s contributed %s)", kex, names[i])
		}
	})
}

// C18: servers, devices and raw clients make as many values as they can at equal
// instants, from equal requests, before and after restarts.
func scenC18(w *World) {
	cfg := &envCfg{ServiceURL: "http://owner.example:8043"}
	st := w.NewStorage("srv")
	used := map[fs.FdoGuid]bool{}
	var devs []*Dev
	for i, n := 0, 1+w.Choose("ndev", 3); i < n; i++ {
		d := w.distinctDevice(fmt.Sprintf("d%d", i), 3, used)
		devs = append(devs, d)
		w.storeVoucher(st, d)
	}
	var nodes []*Node
	if w.Choose("split", 2) == 1 {
		rst := w.NewStorage("rv")
		nodes = append(nodes, w.AddNode("rv", "rv", rst, serve(cfg, "r")), w.AddNode("owner", "owner", st, serve(cfg, "da")))
	} else {
		srv := w.AddNode("srv", "rv", st, serve(cfg, "dra"))
		w.nodes["owner"] = srv
		nodes = append(nodes, srv)
	}
	w.Net.MaxDelayMS = []int{1, 1, 3, 40}[w.Choose("net.maxdelay", 4)]
	f := &fresh{w: w, seen: map[string]string{}, ivs: map[string]string{}, kind: map[string][]string{}}
	w.OnReply = f.see
	faults := w.Choose("faults", 2) == 1
	var reqs []*to2.To2Requestor
	look := func(o To2Opt) To2Opt {
		first := true
		o.Mutate = func(stage string, r *to2.To2Requestor) {
			if first {
				reqs, first = append(reqs, r), false
			}
		}
		return o
	}
	phase := func(p int) {
		if faults {
			w.Net.Dup = 150 * w.Choose("dup", 3)
			w.Net.DropResp = 20 * w.Choose("dropresp", 2)
		}
		d := devs[w.Choose("dev", len(devs))]
		o := w.chosenOpt(d)
		var same [][]byte
		n := 4 + w.Choose("nhello", 24)
		switch w.Choose("burst", 6) {
		case 0, 1:
			cmd := []string{"20", "30", "60"}[w.Choose("burst.cmd", 3)]
			url := "http://rv"
			switch cmd {
			case "20":
				same = append(same, mustCbor(fs.Hello20{}))
			case "30":
				same = append(same, mustCbor(fs.HelloRV30{Guid: d.Guid(), EASigInfo: d.Cred.DCSigInfo}))
			case "60":
				url = "http://owner"
				s := w.newRawSess(url, d, o)
				same = append(same, mustCbor(s.Hello))
				n = 2 + n/3
			}
			w.Go(nil, "reg", func() {
				if cmd == "30" {
					w.register("http://rv", d, regOpt{Wait: 100000})
				}
				for i := 0; i < n; i++ {
					w.Go(nil, fmt.Sprintf("hello%d.%d", p, i), func() {
						r := w.rawPost(url, cmd, "", same[0])
						if !r.ok() && !faults {
							w.Violate("hello-refused", "%s: %s", cmd, r)
						}
					})
				}
			})
			w.Eval(fmt.Sprintf("burst %s %s delay %d faults %v", cmd, o.Kex, w.Net.MaxDelayMS, faults))
		case 2:
			for i := 0; i < 2+n/8; i++ { // the same device, many times at once
				oo := o
				if w.Choose("same.suite", 2) == 0 {
					oo = w.chosenOpt(d)
				}
				w.Go(nil, fmt.Sprintf("dev%d.%d", p, i), func() {
					r := RunTo2("http://owner", d, look(oo))
					if r.Err != nil && !faults {
						w.Violate("genuine-refused", "%v", r.Err)
					}
				})
				w.Eval(fmt.Sprintf("device %s/%d delay %d faults %v", oo.Kex, oo.Cipher, w.Net.MaxDelayMS, faults))
			}
		case 3: // one session, the same messages again and again
			w.Go(nil, fmt.Sprintf("again%d", p), func() {
				s := w.newRawSess("http://owner", d, o)
				if !s.hello().ok() {
					return
				}
				ok := true
				for k := 0; ok && k < s.Entries; k++ {
					ok = s.post("62", s.body62(k)).ok()
				}
				send := func(cmd string, body []byte, times int) {
					for k := 0; k < times; k++ {
						if w.Choose("again.wait", 4) == 3 {
							w.Sleep(time.Millisecond)
						}
						s.post(cmd, body)
					}
					for k := 0; k < w.Choose("again.parallel", 4); k++ {
						w.Go(nil, fmt.Sprintf("par%d.%s.%d", p, cmd, k), func() { s.post(cmd, body) })
					}
				}
				send("64", s.body64(), 1+w.Choose("again", 2))
				send("66", s.body66(), 1+w.Choose("again", 2))
				b := s.body68(true, deviceSims())
				send("68", b, 1+w.Choose("again", 6))
				if len(nodes) == 1 && w.Choose("again.restart", 2) == 1 {
					faults = true // whoever is waiting for a reply loses it
					w.Crash(nodes[0])
					w.Restart(nodes[0])
					send("68", b, 1+w.Choose("again", 6))
				}
				s.post("68", s.body68(false, deviceSims()))
				send("70", s.body70(), 1+w.Choose("again", 5))
				w.Eval(fmt.Sprintf("again %s/%d delay %d faults %v", o.Kex, o.Cipher, w.Net.MaxDelayMS, faults))
			})
		case 4:
			for i := 0; i < n; i++ {
				w.Go(nil, fmt.Sprintf("login%d.%d", p, i), func() {
					w.rawSend("http://owner/api/user/login/onprem", rawReq{Method: "POST", CT: "application/json"}, []byte("{}"))
				})
			}
			w.Eval(fmt.Sprintf("logins delay %d faults %v", w.Net.MaxDelayMS, faults))
		case 5: // a peer whose contribution leaves nothing to the other's
			w.weakPeer(p, d)
		}
	}
	for p, n := 0, 2+w.Choose("phases", 6); p < n; p++ {
		phase(p)
		if w.Choose("phase.par", 3) == 2 {
			phase(100 + p)
		}
		if w.Choose("cut", 6) == 5 { // a crash in the middle
			nd := nodes[w.Choose("cut.node", len(nodes))]
			w.At(time.Duration(w.Choose("cut.ms", 30))*time.Millisecond, "crash", func() {
				faults = true
				w.Crash(nd)
				w.Restart(nd)
			})
		}
		w.Run()
		if w.Choose("restart", 3) == 2 {
			for _, nd := range nodes {
				w.Crash(nd)
				w.Restart(nd)
			}
		}
	}
	w.heal()
	done := map[string]bool{}
	for _, r := range reqs {
		if len(r.SessionKey.ShSe) == 0 || done[r.AuthzHeader] {
			continue
		}
		done[r.AuthzHeader] = true
		what := fmt.Sprintf("session %s %s", r.AuthzHeader, r.KexSuiteName)
		f.add("secret", "the secret of "+what, r.SessionKey.ShSe)
		f.kex("xB", "the device's key exchange of "+what, string(r.KexSuiteName), r.XBKEXParams.XAKeyExchange)
	}
	f.spread()
	f.overlap()
	if w.endErr != "" {
		w.Violate("no-progress", "the run did not end: %s", w.endErr)
	}
}
