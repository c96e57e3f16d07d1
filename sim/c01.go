package fdosim

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
	dodbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/do/dbs"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

func init() { scenarios["C01"] = scenC01 }

// reencrypt opens a tunnel message with key material of the device, lets f
// alter the plaintext and seals it again.
func reencrypt(body []byte, r *to2.To2Requestor, f func([]byte) []byte) ([]byte, bool) {
	p, err := fs.RemoveEncryptionWrapping(body, r.SessionKey, r.CipherSuiteName)
	if err != nil {
		return body, false
	}
	q := f(p)
	if bytes.Equal(p, q) {
		return body, false
	}
	e, err := fs.AddEncryptionWrapping(q, r.SessionKey, r.CipherSuiteName)
	if err != nil {
		return body, false
	}
	return e, true
}

// sameCbor tells whether two messages are the same CBOR data item.
func sameCbor(a, b []byte) bool {
	x, r1, ok1 := parseCbor(a)
	y, r2, ok2 := parseCbor(b)
	if !ok1 || !ok2 || len(r1) != 0 || len(r2) != 0 {
		return bytes.Equal(a, b)
	}
	if x.major == 6 {
		x = x.kids[0]
	}
	if y.major == 6 {
		y = y.kids[0]
	}
	return bytes.Equal(x.enc(), y.enc())
}

// sameMeaning: two unencrypted replies that carry the same values. Values
// outside the signature are read leniently (null as zero, surplus bytes cut).
func sameMeaning(stage string, a, b []byte) bool {
	switch stage {
	case "60":
		var x, y fs.CoseSignature
		return fs.CborCust.Unmarshal(a, &x) == nil && fs.CborCust.Unmarshal(b, &y) == nil && bytes.Equal(mustCbor(x), mustCbor(y))
	case "62":
		var x, y fs.OVNextEntry63
		return fs.CborCust.Unmarshal(a, &x) == nil && fs.CborCust.Unmarshal(b, &y) == nil &&
			x.OVEntryNum == y.OVEntryNum && bytes.Equal(mustCbor(x.OVEntry), mustCbor(y.OVEntry))
	}
	return false
}

// keyChain builds entries for d's own header with the given signer keys.
func (w *World) signEntry(prev fs.HashOrHmac, d *Dev, pub fs.FdoPublicKey, key interface{}, sg fs.SgType) fs.CoseSignature {
	return w.signEntryFor(prev, d.Cred.DCGuid, d.Cred.DCDeviceInfo, d, pub, key, sg)
}

// signEntryFor is signEntry for a chain of the device that guid and name describe.
func (w *World) signEntryFor(prev fs.HashOrHmac, guid fs.FdoGuid, name string, d *Dev, pub fs.FdoPublicKey, key interface{}, sg fs.SgType) fs.CoseSignature {
	info, _ := fs.GenerateFdoHash(append(append([]byte{}, guid[:]...), []byte(name)...), d.Cred.DCHashAlg)
	e, err := fs.GenerateCoseSignature(mustCbor(fs.OVEntryPayload{OVEHashPrevEntry: prev, OVEHashHdrInfo: info, OVEPubKey: pub}),
		fs.ProtectedHeader{}, fs.UnprotectedHeader{}, key, sg)
	if err != nil {
		panic("harness: entry: " + err.Error())
	}
	return *e
}

func (d *Dev) finalKey() interface{} {
	k, err := fs.ExtractPrivateKey(d.VDB.PrivateKeyX509)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return k
}

func (d *Dev) finalPub() fs.FdoPublicKey {
	p, err := d.VDB.Voucher.GetFinalOwnerPublicKey()
	if err != nil {
		panic("harness: " + err.Error())
	}
	return p
}

// evilVoucher is what a dishonest owner holds instead of d's voucher.
func (w *World) evilVoucher(d, other *Dev) (string, fs.VoucherDBEntry, interface{}, *fs.FdoPublicKey) {
	v := cloneVDB(d.VDB)
	sg := d.OwnerSg
	priv, pub, der := w.foreignKey(sg, d, other)
	n := len(v.Voucher.OVEntryArray)
	hashOf := func(b []byte) fs.HashOrHmac { h, _ := fs.GenerateFdoHash(b, d.Cred.DCHashAlg); return h }
	prevOf := func(i int) fs.HashOrHmac {
		if i == 0 {
			return hashOf(append(append([]byte{}, v.Voucher.OVHeaderTag...), mustCbor(v.Voucher.OVHeaderHMac)...))
		}
		return hashOf(mustCbor(v.Voucher.OVEntryArray[i-1]))
	}
	kinds := []string{"stolen-voucher", "extended-by-self", "last-entry-resigned", "forged-from-manufacturer", "forged-header", "other-header", "hash-gap", "hdr-hmac-swap", "wrong-info"}
	kind := kinds[w.Choose("evil.kind", len(kinds))]
	switch kind {
	case "stolen-voucher":
		// the genuine chain, without the final owner's key
	case "extended-by-self":
		// one more entry naming the attacker, which the final owner never signed
		v.Voucher.OVEntryArray = append(v.Voucher.OVEntryArray, w.signEntry(prevOf(n), d, *pub, priv, sg))
	case "last-entry-resigned":
		// the last entry replaced by one naming the attacker, signed by the attacker
		v.Voucher.OVEntryArray[n-1] = w.signEntry(prevOf(n-1), d, *pub, priv, sg)
	case "forged-from-manufacturer":
		// all entries replaced; the first one must have been signed by the manufacturer
		v.Voucher.OVEntryArray = []fs.CoseSignature{w.signEntry(prevOf(0), d, *pub, priv, sg)}
	case "forged-header":
		// attacker's manufacturer key in the header, HMAC of the genuine header
		h, _ := v.Voucher.GetOVHeader()
		h.OVPublicKey = *pub
		v.Voucher.OVHeaderTag = mustCbor(h)
		if w.Choose("evil.hmac", 2) == 1 {
			hm, _ := fs.GenerateFdoHmac(v.Voucher.OVHeaderTag, d.Cred.DCHmacAlg, []byte("attacker attacker attacker attack"))
			v.Voucher.OVHeaderHMac = hm
		}
		v.Voucher.OVEntryArray = []fs.CoseSignature{w.signEntry(prevOf(0), d, *pub, priv, sg)}
	case "other-header":
		// another device's voucher, of which the attacker is the true owner
		v = cloneVDB(other.VDB)
		return kind, v, other.finalKey(), nil
	case "hash-gap":
		// keys match along the chain but an entry was cut out, or the header is another one
		// an owner's entry for another voucher's chain: the right signer, the wrong history
		e := w.signEntry(hashOf([]byte("another chain")), d, *pub, d.finalKey(), sg)
		v.Voucher.OVEntryArray = append(v.Voucher.OVEntryArray, e)
	case "wrong-info":
		// the right signer and history, but the entry is about another device
		guid, name := w.otherInfo(d, other)
		v.Voucher.OVEntryArray = append(v.Voucher.OVEntryArray, w.signEntryFor(prevOf(n), guid, name, d, *pub, d.finalKey(), sg))
	case "hdr-hmac-swap":
		// the other device's HMAC and chain on this device's header
		v.Voucher.OVHeaderHMac = other.VDB.Voucher.OVHeaderHMac
		v.Voucher.OVEntryArray = other.VDB.Voucher.OVEntryArray
		return kind, v, other.finalKey(), nil
	}
	v.PrivateKeyX509 = der
	return kind, v, priv, pub
}

// otherInfo is the identity of a device that is not quite d.
func (w *World) otherInfo(d, other *Dev) (fs.FdoGuid, string) {
	guid, name := d.Cred.DCGuid, d.Cred.DCDeviceInfo
	switch w.Choose("info.kind", 3) {
	case 0:
		guid = other.Cred.DCGuid
	case 1:
		name += "2"
	case 2:
		guid[w.Choose("info.byte", len(guid))] ^= 1
	}
	return guid, name
}

// C01: a device transfers ownership through a network and towards owners that
// lie in one chosen way; it may only complete when nothing was forged.
func scenC01(w *World) {
	cfg := &envCfg{ServiceURL: "http://owner.example:8043"}
	st := w.NewStorage("srv")
	used := map[fs.FdoGuid]bool{}
	useCLI := w.Choose("cli", 6) == 5
	var d *Dev
	if useCLI {
		for k := 0; ; k++ {
			d = w.chosenDevice("dev", 4)
			if d.OwnerSg == fs.StSECP256R1 {
				break
			}
			if k > 5 {
				d = w.BuildDevice("dev", pool.Creds[w.Choose("dev.cred", len(pool.Creds))], []fs.SgType{fs.StSECP256R1, fs.StSECP256R1})
				break
			}
		}
		used[d.Guid()] = true
	} else {
		d = w.distinctDevice("dev", 5, used)
	}
	other := w.distinctDevice("other", 3, used)
	w.storeVoucher(st, d)
	w.storeVoucher(st, other)
	owner := w.AddNode("owner", "owner", st, serve(cfg, "d"))
	_ = owner
	w.Net.MaxDelayMS = 1 + w.Choose("net.maxdelay", 60)
	rec := w.Record()

	opt := w.chosenOpt(d)
	suite := fmt.Sprintf("%s/%s/%s/%d/chain%d", sgName(d.DevSg), sgName(d.OwnerSg), opt.Kex, opt.Cipher, d.Chain)

	// earlier and concurrent honest traffic, the attacker's material
	if w.Choose("history", 2) == 1 {
		for _, x := range []*Dev{d, other} {
			x := x
			o := w.chosenOpt(x)
			if x == d && w.Choose("history.samesuite", 2) == 1 {
				o.Kex, o.Cipher = opt.Kex, opt.Cipher
			}
			w.Go(nil, x.Name+".before", func() { RunTo2("http://owner", x, o) })
		}
		w.Run()
	}
	if w.Choose("concurrent", 2) == 1 {
		o := w.chosenOpt(other)
		w.Go(nil, "other.concurrent", func() {
			if r := RunTo2("http://owner", other, o); r.Err != nil {
				w.Violate("genuine-refused", "%s: unmodified conversation with the genuine owner failed: %v", other.Desc(), r.Err)
			}
			w.Eval("honest-concurrent")
		})
	}

	attacks := []string{"none", "mutate", "mutate", "mutate", "flip", "replay", "replay", "resign61", "reseal65", "reseal71", "evil", "evil"}
	attack := attacks[w.Choose("attack", len(attacks))]
	stages := []string{"60", "62", "64", "66", "68", "70"}
	stage := stages[w.Choose("attack.stage", len(stages))]
	nth := 0
	switch {
	case stage == "62" && d.Chain > 1:
		nth = w.Choose("attack.nth", d.Chain)
	case stage == "68":
		nth = w.Choose("attack.nth", 3)
	}
	switch attack {
	case "resign61":
		stage, nth = "60", 0
	case "reseal65":
		stage, nth = "64", 0
	case "reseal71":
		stage, nth = "70", 0
	}
	if useCLI && strings.HasPrefix(attack, "reseal") {
		attack = "none"
	}
	url := "http://owner"
	var evilPriv interface{}
	var evilPub *fs.FdoPublicKey
	evil := ""
	if attack == "evil" {
		var v fs.VoucherDBEntry
		evil, v, evilPriv, evilPub = w.evilVoucher(d, other)
		est := w.NewStorage("evil")
		if err := dodbs.NewVoucherDB(est.DB).Save(v); err != nil {
			panic("harness: " + err.Error())
		}
		w.AddNode("evil", "evil", est, serve(cfg, "d"))
		url = "http://evil"
		stage, nth = "60", 0
		if evil == "other-header" {
			w.Intercept = func(m *Msg) {
				if m.Cmd() == "60" && m.Host == "evil" && !bytes.Equal(m.Body, nil) {
					// the attacker's server looks up its own voucher
					if root, _, ok := parseCbor(m.Body); ok {
						if g := root.at(1); g != nil {
							g.data = append([]byte{}, other.Cred.DCGuid[:]...)
							g.inner = nil
							m.Body = root.enc()
						}
					}
				}
			}
		}
	}
	applied := ""
	var req *to2.To2Requestor
	seen := 0
	devTask := ""
	var helloBytes []byte
	w.OnMsg = func(m *Msg) {
		if m.FromName == devTask && m.Cmd() == "60" {
			helloBytes = append([]byte{}, m.Body...)
		}
	}
	w.InterceptReply = func(m *Msg, body []byte) []byte {
		if m.FromName != devTask || m.Status != 200 && attack != "evil" {
			return body
		}
		if m.Cmd() != stage || attack == "none" || applied != "" {
			return body
		}
		seen++
		if seen <= nth {
			return body
		}
		out := body
		what := ""
		switch attack {
		case "mutate":
			// the unprotected header of a tunnel message may be empty and then carries nothing
			out, what = w.mutateCbor(body, func(n *cnode) bool { return !(n.path == "$.1" && n.major == 5 && len(n.kids) == 0) })
		case "flip":
			switch w.Choose("flip.kind", 3) {
			case 0:
				out = w.corrupt(body)
				what = "bitflip"
			case 1:
				out = body[:w.Choose("flip.cut", len(body))]
				what = "cut"
			default:
				out = append(append([]byte{}, body...), byte(w.Choose("flip.tail", 256)))
				what = "tail"
			}
		case "replay":
			// any other accepted reply of the same kind, else of another kind
			kind := stage
			if w.Choose("replay.othercmd", 4) == 3 {
				kind = stages[w.Choose("replay.cmd", len(stages))]
			}
			c := rec.find(kind, func(r *recMsg) bool {
				// ciphertexts of this very session are not claimed
				return r.Status == 200 && !bytes.Equal(r.Reply, body) && !(stage >= "64" && r.Auth == m.Header.Get("Authorization") && kind == stage)
			})
			if len(c) == 0 {
				return body
			}
			r := c[w.Choose("replay.which", len(c))]
			out, what = r.Reply, "replay-"+kind
			if r.From == devTask {
				what += "-samesession"
			}
		case "resign61":
			out, what = w.resign61(body, d.finalKey(), d.finalPub(), d.OwnerSg, d, other, helloBytes, rec)
		case "evil":
			what = evil
			if m.Status != 200 {
				applied = evil + "-refused"
				return body
			}
			if evilPub != nil {
				switch w.Choose("evil.present", 3) {
				case 1: // present own key in the reply so that its signature verifies
					root, _, ok := parseCbor(body)
					if ok && setUnprotectedKey(root, *evilPub) {
						out = root.enc()
						what += "+ownkey"
					}
				case 2: // sign anew, number of entries altered
					o, wt := w.resign61n(body, evilPriv, *evilPub, d.OwnerSg)
					out = o
					what += "+" + wt
				}
			}
			applied = what
			w.Logf("attack: %s", what)
			return out
		case "reseal65":
			if req == nil {
				return body
			}
			var ok bool
			out, ok = reencrypt(body, req, func(p []byte) []byte { q, wt := w.alter65(p, d); what = wt; return q })
			if !ok {
				return body
			}
		case "reseal71":
			if req == nil {
				return body
			}
			var ok bool
			out, ok = reencrypt(body, req, func(p []byte) []byte {
				root, _, k := parseCbor(p)
				if !k || root.at(0) == nil {
					return p
				}
				n := root.at(0)
				n.inner = nil
				switch w.Choose("r71", 3) {
				case 0:
					n.data[w.Choose("r71.pos", len(n.data))] ^= 1 << w.Choose("r71.bit", 8)
					what = "nonce-bit"
				case 1:
					n.data = append([]byte{}, req.NonceTO2ProveDv61[:]...)
					what = "nonce-provedv"
				default:
					n.data = make([]byte, 16)
					what = "nonce-zero"
				}
				return root.enc()
			})
			if !ok {
				return body
			}
		}
		if sameCbor(out, body) && len(out) == len(body) || bytes.Equal(out, body) || sameMeaning(stage, out, body) {
			return body
		}
		applied = attack + " " + stage + " " + what
		w.Logf("attack: %s", applied)
		return out
	}

	run := func(name string, honest bool) {
		w.Go(nil, name, func() {
			devTask = name
			done, stage, errText, site := false, "", "", ""
			if useCLI {
				r := w.RunCLI("iop", "to2", url, w.writeCred(d.Name, d.Cred))
				done = r.Said("Success To2")
				if r.Panic != "" {
					site = r.Site
					errText = r.Panic
				}
				stage = "60"
				for _, s := range []string{"64", "66", "68", "70"} {
					if r.Said("Starting " + map[string]string{"64": "ProveDevice64", "66": "DeviceServiceInfoReady66", "68": "DeviceServiceInfo68", "70": "Done70"}[s]) {
						stage = s
					}
				}
				if done {
					stage = "done"
				}
				if errText == "" {
					errText = r.Out
				}
			} else {
				o := opt
				o.Mutate = func(s string, r *to2.To2Requestor) { req = r }
				r := RunTo2(url, d, o)
				done, stage = r.Err == nil, r.Stage
				if r.Err != nil {
					errText = r.Err.Error()
					if p, ok := r.Err.(PanicError); ok {
						site = p.Site
					}
				}
			}
			if site != "" {
				w.Violate("device-panic "+site, "%s (%s): the device crashed instead of stopping with an error: %s", d.Desc(), applied, errText)
			}
			if applied == "" {
				w.Eval(fmt.Sprintf("honest cli=%v %s", useCLI, suite))
				if !done {
					w.Violate("genuine-refused", "%s %s: unmodified conversation with the genuine owner failed at %s: %s", d.Desc(), suite, stage, errText)
				}
				return
			}
			w.Count("attack." + attack)
			w.Eval(fmt.Sprintf("%s cli=%v %s", applied, useCLI, suite))
			if done {
				w.Violate("completed-after-"+firstWords(applied), "%s %s: the device reported completion although: %s", d.Desc(), suite, applied)
			} else if (attack == "evil" || strings.Contains(applied, " 60 ") || strings.Contains(applied, " 62 ")) && stage >= "66" && stage != "verify" {
				w.Violate("proceeded-after-"+firstWords(applied), "%s %s: the device accepted device setup (stage %s) although: %s", d.Desc(), suite, stage, applied)
			}
			if attack == "resign61" && !strings.Contains(applied, "entries") && stage != "60" {
				w.Violate("hello-accepted-"+firstWords(applied), "%s %s: the device accepted the server's hello (got to %s) although: %s", d.Desc(), suite, stage, applied)
			}
		})
		w.Run()
	}
	run("dev.run", false)
	// and the genuine owner is still accepted afterwards
	if applied != "" && w.Choose("again", 2) == 1 {
		attack, applied, url = "none", "", "http://owner"
		w.Intercept = nil
		run("dev.again", true)
	}
	if w.endErr != "" {
		w.Violate("no-progress", "the run did not end: %s", w.endErr)
	}
}

func firstWords(s string) string {
	f := strings.Fields(s)
	if len(f) > 3 {
		f = f[:3]
	}
	o := strings.Join(f, "-")
	if i := strings.Index(o, "$"); i >= 0 {
		o = strings.TrimRight(o[:i], "-")
	}
	return o
}

func setUnprotectedKey(root *cnode, pub fs.FdoPublicKey) bool {
	n := root
	if n.major == 6 {
		n = n.kids[0]
	}
	if len(n.kids) < 4 || n.kids[1].major != 5 {
		return false
	}
	m := n.kids[1]
	for i := 0; i+1 < len(m.kids); i += 2 {
		if m.kids[i+1].major == 4 || m.kids[i+1].inner != nil {
			k, _, _ := parseCbor(mustCbor(pub))
			m.kids[i+1] = k
			return true
		}
	}
	return false
}

// resign61 is a reply of the holder of key that lies in one field.
func (w *World) resign61(body []byte, key interface{}, pub fs.FdoPublicKey, sg fs.SgType, d, other *Dev, hello []byte, rec *Recorder) ([]byte, string) {
	var c fs.CoseSignature
	if fs.CborCust.Unmarshal(body, &c) != nil {
		return body, ""
	}
	var p fs.TO2ProveOVHdrPayload
	if fs.CborCust.Unmarshal(c.Payload, &p) != nil {
		return body, ""
	}
	what := ""
	switch w.Choose("resign.field", 8) {
	case 0:
		p.NonceTO2ProveOV[w.Choose("resign.pos", 16)] ^= 1 << w.Choose("resign.bit", 8)
		what = "nonce"
	case 1:
		h := append([]byte{}, hello...)
		h[w.Choose("resign.hpos", len(h))] ^= 1
		p.HelloDeviceHash, _ = fs.GenerateFdoHash(h, p.HelloDeviceHash.Type)
		what = "hellohash"
	case 2:
		sgs := []fs.SgType{fs.StSECP256R1, fs.StSECP384R1, fs.StRSA2048, fs.StRSA3072}
		n := sgs[w.Choose("resign.sg", len(sgs))]
		if n == p.EBSigInfo.SgType {
			n = sgs[0]
			if n == p.EBSigInfo.SgType {
				n = sgs[1]
			}
		}
		p.EBSigInfo.SgType = n
		what = "siginfo"
	case 3:
		p.OVHeader = append([]byte{}, other.VDB.Voucher.OVHeaderTag...)
		what = "header"
	case 4:
		p.HMac = other.VDB.Voucher.OVHeaderHMac
		what = "hmac"
	case 5:
		h, _ := d.VDB.Voucher.GetOVHeader()
		h.OVDeviceInfo += "x"
		p.OVHeader = mustCbor(h)
		what = "header-edited"
	case 6:
		p.NumOVEntries--
		what = "entries-less"
		if d.Chain > 1 { // a prefix of the chain ends at an earlier owner, whose key differs
			what = "entries-less"
		}
	default:
		p.HMac.Hash = append([]byte{}, p.HMac.Hash...)
		if w.Choose("resign.hm", 2) == 0 {
			p.HMac.Hash[w.Choose("resign.hpos", len(p.HMac.Hash))] ^= 1 << w.Choose("resign.bit", 8)
		} else {
			p.HMac.Hash = p.HMac.Hash[:w.Choose("resign.hlen", len(p.HMac.Hash))]
		}
		what = "hmac-edited"
	}
	n, err := fs.GenerateCoseSignature(mustCbor(p), fs.ProtectedHeader{}, fs.UnprotectedHeader{CUPHNonce: c.Unprotected.CUPHNonce, CUPHOwnerPubKey: &pub}, key, sg)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return mustCbor(*n), what
}

// resign61n: a dishonest owner signs with its own key and claims fewer entries.
func (w *World) resign61n(body []byte, key interface{}, pub fs.FdoPublicKey, sg fs.SgType) ([]byte, string) {
	var c fs.CoseSignature
	if fs.CborCust.Unmarshal(body, &c) != nil {
		return body, ""
	}
	var p fs.TO2ProveOVHdrPayload
	if fs.CborCust.Unmarshal(c.Payload, &p) != nil {
		return body, ""
	}
	what := "resigned"
	if w.Choose("resign.n", 2) == 1 {
		p.NumOVEntries = uint8(w.Choose("resign.num", 3))
		what = fmt.Sprintf("resigned-n%d", p.NumOVEntries)
	}
	n, err := fs.GenerateCoseSignature(mustCbor(p), fs.ProtectedHeader{}, fs.UnprotectedHeader{CUPHNonce: c.Unprotected.CUPHNonce, CUPHOwnerPubKey: &pub}, key, sg)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return mustCbor(*n), what
}

// alter65 lies inside the encrypted device-setup message.
func (w *World) alter65(p []byte, d *Dev) ([]byte, string) {
	var c fs.CoseSignature
	if fs.CborCust.Unmarshal(p, &c) != nil {
		return p, ""
	}
	var s fs.TO2SetupDevicePayload
	if fs.CborCust.Unmarshal(c.Payload, &s) != nil {
		return p, ""
	}
	switch w.Choose("r65", 4) {
	case 0: // genuine owner, wrong nonce
		s.NonceTO2SetupDv[w.Choose("r65.pos", 16)] ^= 1 << w.Choose("r65.bit", 8)
		n, err := fs.GenerateCoseSignature(mustCbor(s), fs.ProtectedHeader{}, fs.UnprotectedHeader{}, d.finalKey(), d.OwnerSg)
		if err != nil {
			panic("harness: " + err.Error())
		}
		return mustCbor(*n), "nonce"
	case 1:
		c.Signature = append([]byte{}, c.Signature...)
		c.Signature[w.Choose("r65.spos", len(c.Signature))] ^= 1 << w.Choose("r65.bit", 8)
		return mustCbor(c), "signature"
	case 2: // payload edited under the old signature
		s.ReplacementGuid[w.Choose("r65.pos", 16)] ^= 1 << w.Choose("r65.bit", 8)
		c.Payload = mustCbor(s)
		return mustCbor(c), "payload"
	default: // names another owner key than the one that signed
		_, pub, _ := w.foreignKey(d.OwnerSg, d)
		s.ReplacementOwner2Key = *pub
		n, err := fs.GenerateCoseSignature(mustCbor(s), fs.ProtectedHeader{}, fs.UnprotectedHeader{}, d.finalKey(), d.OwnerSg)
		if err != nil {
			panic("harness: " + err.Error())
		}
		return mustCbor(*n), "owner2key"
	}
}
