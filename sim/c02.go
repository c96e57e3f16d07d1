package fdosim

import (
	"bytes"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"strings"
	"time"

	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

func init() { scenarios["C02"] = scenC02 }

// ownerMonitor follows every session of an owner service from its traffic
// alone and reports service to peers that did not prove the device's key.
type ownerMonitor struct {
	w      *World
	host   string
	byGuid map[fs.FdoGuid]*Dev
	sess   map[string]*ownerSess // by token
}

type ownerSess struct {
	guid   fs.FdoGuid
	nonce  []byte
	proven bool
}

func (w *World) monitorOwner(host string, devs ...*Dev) *ownerMonitor {
	mon := &ownerMonitor{w: w, host: host, byGuid: map[fs.FdoGuid]*Dev{}, sess: map[string]*ownerSess{}}
	for _, d := range devs {
		mon.byGuid[d.Guid()] = d
	}
	prev := w.OnReply
	w.OnReply = func(m *Msg) {
		mon.see(m)
		if prev != nil {
			prev(m)
		}
	}
	return mon
}

func (mon *ownerMonitor) see(m *Msg) {
	if m.Host != mon.host || !m.Replied || m.Status != 200 {
		return
	}
	w := mon.w
	tok := m.Header.Get("Authorization")
	switch m.Cmd() {
	case "60":
		req, _, ok1 := parseCbor(m.Body)
		rep, _, ok2 := parseCbor(m.RespBody)
		if !ok1 || !ok2 {
			return
		}
		if rep.major == 6 {
			rep = rep.kids[0]
		}
		s := &ownerSess{}
		if g := req.at(1); g != nil {
			copy(s.guid[:], g.data)
		}
		for i := 0; i+1 < len(rep.kids[1].kids); i += 2 {
			if v := rep.kids[1].kids[i+1]; v.major == 2 && len(v.data) == 16 {
				s.nonce = v.data
			}
		}
		if old := mon.sess[m.RespHeader.Get("Authorization")]; old != nil {
			w.Violate("token-reused", "session token %s was issued twice", m.RespHeader.Get("Authorization"))
		}
		mon.sess[m.RespHeader.Get("Authorization")] = s
	case "64":
		s := mon.sess[tok]
		if s == nil {
			w.Violate("served-unknown-session", "proof accepted under a token that was never issued: %s", tok)
			return
		}
		d := mon.byGuid[s.guid]
		if d == nil {
			w.Violate("served-unknown-device", "proof accepted for a device that is not known")
			return
		}
		pl, ok := coseSigned(m.Body, d.certKey())
		if !ok {
			w.Violate("served-without-device-signature", "%s: the owner accepted a proof that the key of the device certificate did not sign", d.Desc())
			return
		}
		root, _, _ := parseCbor(pl)
		fresh := false
		if root != nil {
			for i := 0; i+1 < len(root.kids); i += 2 {
				if k := root.kids[i]; k.major == 0 && k.val == 10 && bytes.Equal(root.kids[i+1].data, s.nonce) {
					fresh = true
				}
			}
		}
		if !fresh {
			w.Violate("served-without-fresh-challenge", "%s: the owner accepted a proof that does not carry this session's challenge", d.Desc())
		}
		s.proven = true
		w.Count("proofs_verified")
	case "66", "68", "70":
		s := mon.sess[tok]
		if s == nil || !s.proven {
			w.Violate("served-unproven-session", "message %s accepted in a session whose peer never proved the device key", m.Cmd())
		}
	}
}

// issuerKey is the key of the certificate authority that issues device certificates.
func issuerKey() (interface{}, fs.SgType) {
	b, _ := pem.Decode([]byte(fs.TestIntermediateKey))
	k, err := x509.ParseECPrivateKey(b.Bytes)
	if err != nil {
		panic("harness: " + err.Error())
	}
	if k.Curve.Params().BitSize == 384 {
		return k, fs.StSECP384R1
	}
	return k, fs.StSECP256R1
}

// proofAttack makes one false device proof for the session whose genuine
// request is m (r holds the device's own state).
func (w *World) proofAttack(genuine []byte, d, other *Dev, n61 fs.FdoNonce, otherSess *rawSess, old []byte, nSetup fs.FdoNonce) ([]byte, string, string) {
	var c fs.CoseSignature
	if err := fs.CborCust.Unmarshal(genuine, &c); err != nil {
		panic("harness: " + err.Error())
	}
	var eat fs.EATPayloadBase
	if err := fs.CborCust.Unmarshal(c.Payload, &eat); err != nil {
		panic("harness: " + err.Error())
	}
	sign := func(pl []byte, key interface{}, sg fs.SgType) []byte {
		n, err := fs.GenerateCoseSignature(pl, fs.ProtectedHeader{}, c.Unprotected, key, sg)
		if err != nil {
			panic("harness: " + err.Error())
		}
		return mustCbor(*n)
	}
	devKey := func(x *Dev) interface{} {
		k, err := fs.ExtractPrivateKey(x.Cred.DCPrivateKeyDer)
		if err != nil {
			panic("harness: " + err.Error())
		}
		return k
	}
	switch w.Choose("proof.kind", 15) {
	case 0:
		k, _, _ := w.ownerKey(d.DevSg, 0)
		return sign(c.Payload, k, d.DevSg), "wrong-key", ""
	case 1:
		return sign(c.Payload, devKey(other), other.DevSg), "other-device-key", ""
	case 2:
		return sign(c.Payload, d.finalKey(), d.OwnerSg), "owner-key", ""
	case 3: // a key of any other type, message as it would be for that type
		sg := ownerSgs[w.Choose("proof.sg", len(ownerSgs))]
		k, _, _ := w.foreignKey(sg, d)
		return sign(c.Payload, k, sg), "wrong-key-type", ""
	case 4:
		eat.EatNonce[w.Choose("proof.pos", 16)] ^= 1 << w.Choose("proof.bit", 8)
		return sign(mustCbor(eat), devKey(d), d.DevSg), "wrong-nonce", ""
	case 5:
		eat.EatNonce = [16]byte{}
		return sign(mustCbor(eat), devKey(d), d.DevSg), "zero-nonce", ""
	case 6: // the challenge of another session of the same owner
		if otherSess == nil {
			return nil, "", ""
		}
		eat.EatNonce = otherSess.N61
		return sign(mustCbor(eat), devKey(d), d.DevSg), "other-session-nonce", ""
	case 7: // a proof made in another session, as it stands
		if otherSess == nil {
			return nil, "", ""
		}
		return otherSess.body64(), "other-session-proof", ""
	case 8:
		if old == nil {
			return nil, "", ""
		}
		return old, "replayed-proof", ""
	case 9: // the genuine proof under another session's token
		if otherSess == nil {
			return nil, "", ""
		}
		return genuine, "foreign-token", otherSess.Token
	case 10: // the nonce as device proof nonce of another step
		eat.EatNonce = nSetup
		return sign(mustCbor(eat), devKey(d), d.DevSg), "setup-nonce", ""
	case 11:
		c2 := c
		c2.Signature = append([]byte{}, c.Signature...)
		switch w.Choose("proof.sig", 4) {
		case 0:
			c2.Signature[w.Choose("proof.pos", len(c2.Signature))] ^= 1 << w.Choose("proof.bit", 8)
		case 1:
			c2.Signature = c2.Signature[:w.Choose("proof.len", len(c2.Signature))]
		case 2:
			c2.Signature = make([]byte, len(c.Signature))
		default:
			c2.Signature = append(c2.Signature, byte(w.Choose("proof.byte", 256)))
		}
		return mustCbor(c2), "signature", ""
	case 12: // the certificate authority that issued the device certificate
		k, sg := issuerKey()
		return sign(c.Payload, k, sg), "issuer-key", ""
	default: // any signed part altered
		for k := 0; k < 6; k++ {
			out, what := w.mutateCbor(genuine, func(n *cnode) bool {
				if n.parent == nil {
					return false
				}
				return !strings.HasPrefix(n.path, "$.1")
			})
			if !sameCbor(out, genuine) && !sameProof(out, genuine) {
				return out, "altered " + what, ""
			}
		}
		return nil, "", ""
	}
}

// sameProof: what is signed and the signature are the same in both.
func sameProof(a, b []byte) bool {
	var x, y fs.CoseSignature
	if fs.CborCust.Unmarshal(a, &x) != nil || fs.CborCust.Unmarshal(b, &y) != nil {
		return false
	}
	return bytes.Equal(x.Protected, y.Protected) && bytes.Equal(x.Payload, y.Payload) && bytes.Equal(x.Signature, y.Signature)
}

// C02: devices transfer ownership while an attacker on their connections puts
// false proofs before, between and after the genuine ones.
func scenC02(w *World) {
	cfg := &envCfg{ServiceURL: "http://owner.example:8043"}
	st := w.NewStorage("srv")
	used := map[fs.FdoGuid]bool{}
	d := w.distinctDevice("dev", 4, used)
	other := w.distinctDevice("other", 3, used)
	w.storeVoucher(st, d)
	w.storeVoucher(st, other)
	owner := w.AddNode("owner", "owner", st, serve(cfg, "d"))
	w.Net.MaxDelayMS = 1 + w.Choose("net.maxdelay", 60)
	w.monitorOwner("owner", d, other)
	rec := w.Record()
	opt := w.chosenOpt(d)

	if w.Choose("history", 2) == 1 {
		w.Go(nil, "dev.before", func() { RunTo2("http://owner", d, opt) })
		w.Run()
	}
	if w.Choose("concurrent", 2) == 1 {
		w.Go(nil, "other.concurrent", func() {
			if r := RunTo2("http://owner", other, w.chosenOpt(other)); r.Err != nil && w.Stats["fault.crash"] == 0 {
				w.Violate("genuine-refused", "%s: genuine device was refused: %v", other.Desc(), r.Err)
			}
		})
	}
	mode := w.Choose("mode", 5)
	switch mode {
	case 4: // an impostor without the key runs the whole protocol
		w.Go(nil, "impostor", func() {
			imp := *d
			imp.Cred = cloneCred(d.Cred)
			o := opt
			what := "random-key"
			switch w.Choose("impostor", 5) {
			case 3: // the issuer of the device certificate
				_, sg := issuerKey()
				b, _ := pem.Decode([]byte(fs.TestIntermediateKey))
				imp.Cred.DCPrivateKeyDer = b.Bytes
				imp.Cred.DCSigInfo = fs.SigInfo{SgType: sg}
				what = "issuer"
			case 0:
				_, _, der := w.ownerKey(d.DevSg, 0)
				imp.Cred.DCPrivateKeyDer = der
			case 1: // another device of the same owner
				imp.Cred.DCPrivateKeyDer = other.Cred.DCPrivateKeyDer
				imp.Cred.DCSigInfo = other.Cred.DCSigInfo
				what = "other-device"
			case 2: // the owner's own key
				imp.Cred.DCPrivateKeyDer = d.VDB.PrivateKeyX509
				imp.Cred.DCSigInfo = fs.SigInfo{SgType: d.OwnerSg}
				what = "owner-key"
			default: // claims another signature type
				sg := ownerSgs[w.Choose("impostor.sg", len(ownerSgs))]
				_, _, der := w.foreignKey(sg, d)
				imp.Cred.DCPrivateKeyDer = der
				imp.Cred.DCSigInfo = fs.SigInfo{SgType: sg}
				what = "claimed-" + sgName(sg)
			}
			r := RunTo2("http://owner", &imp, o)
			w.Eval("impostor " + what + " " + sgName(d.DevSg))
			if r.Err == nil || r.Stage >= "66" && r.Stage != "verify" {
				w.Violate("impostor-served", "%s: %s reached stage %s", d.Desc(), what, r.Stage)
			}
		})
		w.Run()
	default:
		w.c02Attack(st, owner, d, other, opt, rec)
	}
	if w.endErr != "" {
		w.Violate("no-progress", "the run did not end: %s", w.endErr)
	}
}

func (w *World) c02Attack(st *Storage, owner *Node, d, other *Dev, opt To2Opt, rec *Recorder) {
	nAttacks := 1 + w.Choose("nattacks", 4)
	var done []string
	busy, proven := false, false
	var req *to2.To2Requestor
	crash := w.Choose("crash", 4) == 3
	w.OnMsg = func(m *Msg) {
		if busy || m.FromName != "dev.run" || m.Cmd() != "64" || proven {
			return
		}
		busy = true
		defer func() { busy = false }()
		tok := m.Header.Get("Authorization")
		var os *rawSess
		if w.Choose("othersess", 2) == 1 {
			os = w.newRawSess("http://owner", d, opt)
			if w.Choose("othersess.dev", 3) == 2 {
				os = w.newRawSess("http://owner", other, w.chosenOpt(other))
			}
			if r := os.hello(); !r.ok() {
				w.Violate("genuine-refused", "hello of %s refused: %s", os.d.Desc(), r)
				return
			}
			if w.Choose("othersess.62", 4) > 0 {
				if r := os.post("62", os.body62(0)); !r.ok() {
					w.Violate("genuine-refused", "first entry request of %s refused: %s", os.d.Desc(), r)
					return
				}
			}
		}
		var old []byte
		if c := rec.find("64", func(r *recMsg) bool { return r.Status == 200 && r.From == "dev.before" }); len(c) > 0 {
			old = c[0].Req
		}
		for k := 0; k < nAttacks; k++ {
			b, what, otherTok := w.proofAttack(m.Body, d, other, req.NonceTO2ProveDv61, os, old, req.NonceTO2SetupDv64)
			if b == nil {
				continue
			}
			t := tok
			if otherTok != "" {
				t = otherTok
			}
			before := w.sessionRecord(st, t)
			r := w.rawPost("http://owner", "64", t, b)
			done = append(done, what)
			w.Eval("proof " + what + " " + sgName(d.DevSg) + " " + string(opt.Kex))
			w.Logf("attack: %s: %s", what, r)
			w.checkRefusal("64", what, r)
			if after := w.sessionRecord(st, t); after != before {
				w.Violate("refused-proof-changed-session "+firstWords(what), "%s: after a refused proof (%s) the session record is another one", d.Desc(), what)
			}
			if crash && w.Choose("crash.now", 2) == 1 {
				w.Crash(owner)
				w.Restart(owner)
				w.Count("fault.crash")
			}
		}
		if os != nil && os.d == d && w.Choose("othersess.go", 2) == 1 {
			// the other session is served on its own proof, and only on it
			if r := os.post("62", os.body62(0)); !r.ok() {
				w.Violate("genuine-refused", "entry request of %s refused: %s", os.d.Desc(), r)
			}
			if r := os.post("64", os.body64()); !r.ok() {
				w.Violate("genuine-refused", "%s: the genuine proof of a second session was refused after refused ones: %s", os.d.Desc(), r)
			}
		}
		// past the proof without it
		if w.Choose("skip", 3) == 2 {
			s := w.newRawSess("http://owner", d, opt)
			s.Token = tok
			s.P61 = fs.TO2ProveOVHdrPayload{XAKeyExchange: req.XAKex}
			s.N61 = req.NonceTO2ProveDv61
			s.r.SessionKey, s.r.CipherSuiteName, s.keyed = req.SessionKey, opt.Cipher, true
			if w.Choose("skip.zerokey", 2) == 1 { // the key an unproven session's record holds
				s.r.SessionKey = fs.SessionKeyInfo{}
			}
			cmd := []string{"66", "68", "70"}[w.Choose("skip.cmd", 3)]
			var b []byte
			switch cmd {
			case "66":
				b = s.body66()
			case "68":
				b = s.body68(false, nil)
			default:
				b = s.body70()
			}
			before := w.sessionRecord(st, tok)
			r := w.rawPost("http://owner", cmd, tok, b)
			w.checkRefusal(cmd, "no proof yet", r)
			if w.sessionRecord(st, tok) != before {
				w.Violate("refused-message-changed-session", "message %s before the proof changed the session", cmd)
			}
			w.Eval("skip " + cmd)
		}
	}
	var proof []byte
	prevReply := w.OnReply
	w.OnReply = func(m *Msg) {
		if m.FromName == "dev.run" && m.Cmd() == "64" && m.Status == 200 {
			proven = true
			proof = m.Body
		}
		if prevReply != nil {
			prevReply(m)
		}
	}
	w.Go(nil, "dev.run", func() {
		o := opt
		o.Mutate = func(stage string, r *to2.To2Requestor) {
			req = r
			if stage != "66" && stage != "68" && stage != "70" || proof == nil || w.Choose("late", 3) != 2 {
				return
			}
			// proofs after the session was proven
			tok := r.AuthzHeader
			b, what := proof, "repeated-proof"
			if w.Choose("late.kind", 2) == 1 {
				var wt string
				b, wt, _ = w.proofAttack(proof, d, other, r.NonceTO2ProveDv61, nil, nil, r.NonceTO2SetupDv64)
				if b == nil {
					return
				}
				what = "late-" + wt
			}
			before := w.sessionRecord(st, tok)
			rp := w.rawPost("http://owner", "64", tok, b)
			w.checkRefusal("64", what, rp)
			if w.sessionRecord(st, tok) != before {
				w.Violate("refused-proof-changed-session late", "%s: a proof sent after the session was proven (%s) changed the session", d.Desc(), what)
			}
			w.Eval("late " + firstWords(what) + " " + stage)
			done = append(done, what)
		}
		r := RunTo2("http://owner", d, o)
		w.Eval(fmt.Sprintf("genuine after %d %s/%s/%s", len(done), sgName(d.DevSg), sgName(d.OwnerSg), opt.Kex))
		if r.Err != nil {
			w.Violate("genuine-refused", "%s: the genuine device was refused at %s after refused proofs (%s): %v", d.Desc(), r.Stage, strings.Join(done, ", "), r.Err)
		}
	})
	w.Run()
	_ = time.Second
}

// checkRefusal: a request that must be refused was refused with a protocol error.
func (w *World) checkRefusal(cmd, what string, r rawReply) {
	switch {
	case r.Err != nil:
		w.Violate("no-reply "+cmd+" "+firstWords(what), "request %s (%s) got no reply: %v", cmd, what, r.Err)
	case r.Status == 200:
		w.Violate("accepted "+cmd+" "+firstWords(what), "request %s was accepted although: %s", cmd, what)
	default:
		if bad := badErrorReply(cmd, r.Status, r.Head, r.Body); bad != "" {
			w.Violate("bad-error-reply "+cmd, "request %s (%s): %s", cmd, what, bad)
		}
	}
}
