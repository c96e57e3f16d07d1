package fdosim

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/rsa"
	"fmt"
	"strings"

	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

func init() { scenarios["C09"] = scenC09 }

// secretBytes are the byte strings of a private key that must never travel.
func secretBytes(key interface{}) [][]byte {
	switch k := key.(type) {
	case *ecdsa.PrivateKey:
		return [][]byte{k.D.FillBytes(make([]byte, (k.Curve.Params().BitSize+7)/8))}
	case *rsa.PrivateKey:
		return [][]byte{k.D.Bytes(), k.Primes[0].Bytes(), k.Primes[1].Bytes()}
	}
	return nil
}

func devSecret(d *Dev) interface{} {
	k, err := fs.ExtractPrivateKey(d.Cred.DCPrivateKeyDer)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return k
}

// forgeTunnel makes one message that is not an unaltered ciphertext of this session.
func (w *World) forgeTunnel(genuine []byte, r *to2.To2Requestor, cmd string, rec *Recorder, reply bool) ([]byte, string) {
	own := r.AuthzHeader
	pick := func(ok func(m *recMsg) bool) []byte {
		var c [][]byte
		for _, m := range rec.Msgs {
			if m.Status != 200 || m.Auth == own || !ok(m) {
				continue
			}
			if reply {
				c = append(c, m.Reply)
			} else {
				c = append(c, m.Req)
			}
		}
		if len(c) == 0 {
			return nil
		}
		return c[w.Choose("forge.which", len(c))]
	}
	seal := func(p []byte, k fs.SessionKeyInfo, c fs.CipherSuiteName) []byte {
		e, err := fs.AddEncryptionWrapping(p, k, c)
		if err != nil {
			panic("harness: " + err.Error())
		}
		return e
	}
	plain, err := fs.RemoveEncryptionWrapping(genuine, r.SessionKey, r.CipherSuiteName)
	if err != nil {
		w.Violate("own-message-unreadable", "a genuine message %s cannot be opened with the session key: %v", cmd, err)
		return nil, ""
	}
	switch w.Choose("forge", 12) {
	case 0, 1, 2:
		out, what := w.mutateCbor(genuine, func(n *cnode) bool { return !(n.path == "$.1" && n.major == 5 && len(n.kids) == 0) })
		return out, "altered " + what
	case 3:
		return w.corrupt(genuine), "bits"
	case 4:
		return genuine[:w.Choose("forge.cut", len(genuine))], "cut"
	case 5:
		return append(append([]byte{}, genuine...), byte(w.Choose("forge.tail", 256))), "tail"
	case 6:
		return pick(func(m *recMsg) bool { return m.Cmd == cmd }), "foreign-same-step"
	case 7:
		return pick(func(m *recMsg) bool { return m.Cmd >= "64" }), "foreign-other-step"
	case 8:
		return plain, "in-clear"
	case 9:
		return seal(plain, fs.SessionKeyInfo{}, r.CipherSuiteName), "empty-key"
	case 10:
		k := r.SessionKey
		k.ShSe = append([]byte{}, k.ShSe...)
		k.ShSe[w.Choose("forge.key", len(k.ShSe))] ^= 1
		return seal(plain, k, r.CipherSuiteName), "other-key"
	default:
		c := goodCiphers[w.Choose("forge.suite", len(goodCiphers))]
		if c == r.CipherSuiteName {
			return nil, ""
		}
		return seal(plain, r.SessionKey, c), "other-suite"
	}
}

// C09: real devices and the real owner exchange tunnel messages while an
// attacker puts forged ones on the same connections in both directions; the
// wire is read independently of the code.
func scenC09(w *World) {
	cfg := &envCfg{ServiceURL: "http://owner.example:8043"}
	st := w.NewStorage("srv")
	used := map[fs.FdoGuid]bool{}
	d := w.distinctDevice("dev", 3, used)
	other := w.distinctDevice("other", 3, used)
	g := d.Guid()
	secretToken := ""
	if w.Choose("ownersims", 2) == 1 {
		secretToken = fmt.Sprintf("iop-secret-%x", fs.NewRandomBuffer(8))
		cfg.Interop, cfg.DashURL, cfg.DOAuthz = true, "http://dash", "x"
		cfg.TokenMapping = fmt.Sprintf("[[\"%x\",%q]]", g[:], secretToken)
	}
	w.storeVoucher(st, d)
	w.storeVoucher(st, other)
	w.AddNode("owner", "owner", st, serve(cfg, "d"))
	w.Net.MaxDelayMS = 1 + w.Choose("net.maxdelay", 40)
	rec := w.Record()
	opt := w.chosenOpt(d)
	suite := fmt.Sprintf("%s/%s/%d", sgName(d.OwnerSg), opt.Kex, opt.Cipher)

	var reqs []*to2.To2Requestor
	track := func(o To2Opt) To2Opt {
		first := true
		o.Mutate = func(stage string, r *to2.To2Requestor) {
			if first {
				reqs = append(reqs, r)
				first = false
			}
		}
		return o
	}
	if w.Choose("history", 3) > 0 {
		same := w.Choose("history.same", 2) == 1
		w.Go(nil, "dev.before", func() {
			o := w.chosenOpt(d)
			if same {
				o.Kex, o.Cipher = opt.Kex, opt.Cipher
			}
			RunTo2("http://owner", d, track(o))
		})
		w.Run()
	}
	if w.Choose("concurrent", 2) == 1 {
		o := w.chosenOpt(other)
		w.Go(nil, "other.concurrent", func() {
			if r := RunTo2("http://owner", other, track(o)); r.Err != nil {
				w.Violate("genuine-refused", "%s: genuine device was refused: %v", other.Desc(), r.Err)
			}
		})
	}
	toDevice := w.Choose("direction", 3) == 2
	cmds := []string{"66", "68", "70"}
	if toDevice {
		cmds = []string{"64", "66", "68", "70"}
	}
	target := cmds[w.Choose("target", len(cmds))]
	nth := 0
	if target == "68" {
		nth = w.Choose("nth", 3)
	}
	busy, seen := false, 0
	applied := ""
	var req *to2.To2Requestor
	if !toDevice {
		w.OnMsg = func(m *Msg) {
			if busy || m.FromName != "dev.run" || m.Cmd() != target || req == nil {
				return
			}
			seen++
			if seen <= nth {
				return
			}
			busy = true
			defer func() { busy = false }()
			tok := m.Header.Get("Authorization")
			for k, n := 0, 1+w.Choose("nforged", 3); k < n; k++ {
				b, what := w.forgeTunnel(m.Body, req, target, rec, false)
				if b == nil || sameTunnel(b, m.Body) {
					continue
				}
				before := w.sessionRecord(st, tok)
				r := w.rawPost("http://owner", target, tok, b)
				w.Logf("forged %s: %s: %s", target, what, r)
				w.checkRefusal(target, what, r)
				if w.sessionRecord(st, tok) != before {
					w.Violate("forged-message-changed-session "+target, "%s %s: forged message (%s) changed the owner's session", d.Desc(), suite, what)
				}
				applied += what + "; "
				w.Eval("to-owner " + target + " " + firstWords(what) + " " + suite)
			}
		}
	} else {
		w.InterceptReply = func(m *Msg, body []byte) []byte {
			if m.FromName != "dev.run" || m.Cmd() != target || m.Status != 200 || applied != "" {
				return body
			}
			seen++
			if seen <= nth {
				return body
			}
			out, what := w.forgeTunnel(body, req, target, rec, true)
			if out == nil || sameTunnel(out, body) {
				return body
			}
			applied = what
			w.Logf("forged reply to %s: %s", target, what)
			w.Eval("to-device " + target + " " + firstWords(what) + " " + suite)
			return out
		}
	}
	w.Go(nil, "dev.run", func() {
		o := opt
		o.Mutate = func(stage string, r *to2.To2Requestor) {
			if req == nil {
				reqs = append(reqs, r)
			}
			req = r
		}
		r := RunTo2("http://owner", d, o)
		if toDevice && applied != "" {
			if p, ok := r.Err.(PanicError); ok {
				w.Violate("device-panic "+p.Site, "%s %s: the device crashed on a forged reply (%s): %v", d.Desc(), suite, applied, r.Err)
			}
			if r.Err == nil {
				w.Violate("device-accepted-forged "+target, "%s %s: the device completed although the reply to %s was forged: %s", d.Desc(), suite, target, applied)
			} else if r.Stage != target {
				w.Violate("device-accepted-forged "+target, "%s %s: the device went on to %s although the reply to %s was forged: %s", d.Desc(), suite, r.Stage, target, applied)
			}
			return
		}
		w.Eval("genuine " + suite)
		if r.Err != nil {
			w.Violate("genuine-refused", "%s %s: the genuine device was refused at %s (forged before: %s): %v", d.Desc(), suite, r.Stage, applied, r.Err)
		}
	})
	w.Run()
	w.checkWire(rec, reqs, d, other, secretToken)
	if w.endErr != "" {
		w.Violate("no-progress", "the run did not end: %s", w.endErr)
	}
}

// checkWire reads everything that travelled: accepted tunnel messages are
// ciphertexts under the session's key and suite, and no secret is in clear.
func (w *World) checkWire(rec *Recorder, reqs []*to2.To2Requestor, d, other *Dev, token string) {
	type sec struct{ shse, ctx []byte }
	keys := map[string]*to2.To2Requestor{}
	secs := map[string]sec{}
	var secrets [][]byte
	for _, x := range []*Dev{d, other} {
		secrets = append(secrets, secretBytes(devSecret(x))...)
		secrets = append(secrets, secretBytes(x.finalKey())...)
		secrets = append(secrets, x.Cred.DCHmacSecret)
	}
	for _, r := range reqs {
		if r.AuthzHeader == "" || len(r.SessionKey.ShSe) == 0 {
			continue
		}
		sh, cx, err := refSecret(r)
		if err != nil {
			w.Violate("key-exchange-form", "%s: %v", r.KexSuiteName, err)
			continue
		}
		keys[r.AuthzHeader] = r
		secs[r.AuthzHeader] = sec{sh, cx}
		secrets = append(secrets, sh)
		if len(sh) > 32 {
			secrets = append(secrets, sh[:32])
		}
	}
	secrets = append(secrets, []byte("FIDO Device Onboard Virtual Device"), []byte("devmod:"))
	if token != "" {
		secrets = append(secrets, []byte(token))
	}
	for _, m := range rec.Msgs {
		if strings.Contains(m.Cmd, "/") {
			continue // not a protocol message
		}
		forged := m.From == "dev.run" && m.Status != 200
		for i, s := range secrets {
			if len(s) < 7 {
				continue
			}
			for k, b := range [][]byte{m.Req, m.Reply} {
				if forged && k == 0 {
					continue
				}
				if bytes.Contains(b, s) {
					w.Violate("secret-on-wire", "%s %s of message %s carries a secret in clear (kind %d)", m.From, []string{"request", "reply"}[k], m.Cmd, i)
				}
			}
		}
		r := keys[m.Auth]
		if r == nil || m.Status != 200 || m.Cmd < "64" {
			continue
		}
		s := secs[m.Auth]
		if m.Cmd != "64" {
			if _, err := refOpen(m.Req, r.CipherSuiteName, s.shse, s.ctx); err != nil {
				w.Violate("accepted-no-ciphertext "+m.Cmd, "%s/%d: accepted request %s is no ciphertext of this session: %v", r.KexSuiteName, r.CipherSuiteName, m.Cmd, err)
			}
		}
		if _, err := refOpen(m.Reply, r.CipherSuiteName, s.shse, s.ctx); err != nil {
			w.Violate("reply-no-ciphertext "+m.Cmd, "%s/%d: reply to %s is no ciphertext of this session: %v", r.KexSuiteName, r.CipherSuiteName, m.Cmd, err)
		}
		w.Count("ciphertexts_read")
	}
}
