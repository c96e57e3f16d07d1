package fdosim

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/binary"
	"fmt"
	"math/big"
	"strings"
	"time"

	dodbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/do/dbs"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

func init() { scenarios["C11"] = scenC11 }

var protoCmds = []string{"20", "22", "30", "32", "60", "62", "64", "66", "68", "70"}

// monitorReplies judges every protocol request of the run: the handler ends, and the
// answer is the next message or a protocol error that names the request.
func (w *World) monitorReplies() {
	prev := w.OnReply
	w.OnReply = func(m *Msg) {
		cmd := m.Cmd()
		known := strings.HasPrefix(m.Path, "/fdo/101/msg/")
		if known {
			known = false
			for _, c := range protoCmds {
				known = known || c == cmd
			}
		}
		if known {
			what := m.Header.Get("X-Sim-What")
			switch {
			case m.Panic != "":
				p := strings.SplitN(m.Panic, "\n", 2)
				site := "unknown"
				if len(p) == 2 {
					site = p[1]
				}
				w.Violate("panic "+site, "request %s (%s), body %x: %s", cmd, what, m.Body, p[0])
			case m.Status == 200:
				bad := badSuccessReply(cmd, m.RespHeader)
				if bad == "" {
					if _, rest, ok := parseCbor(m.RespBody); !ok || len(rest) != 0 {
						bad = "body is no CBOR item: " + hx(m.RespBody)
					} else if (cmd == "20" || cmd == "30" || cmd == "60") && strings.TrimSpace(strings.TrimPrefix(m.RespHeader.Get("Authorization"), "Bearer")) == "" {
						bad = "carries no token"
					}
				}
				if bad != "" {
					w.Violate("bad-reply "+cmd, "request %s (%s): success reply: %s", cmd, what, bad)
				}
				w.Count("replies_success")
			default:
				if bad := badErrorReply(cmd, m.Status, m.RespHeader, m.RespBody); bad != "" {
					w.Violate("bad-error-reply "+cmd, "request %s (%s): %s", cmd, what, bad)
				}
				w.Count("replies_error")
			}
		}
		if prev != nil {
			prev(m)
		}
	}
}

// wild is a CBOR item that is legal or not, but not what anyone expects.
func (w *World) wild() ([]byte, string) {
	rep := func(b byte, n int) []byte { return bytes.Repeat([]byte{b}, n) }
	k := w.Choose("wild", 34)
	b := [][]byte{
		{0x9f, 0xff}, {0x5f, 0x41, 0x00, 0xff}, {0xbf, 0xff}, {0x7f, 0xff},
		append(rep(0x81, 40), 0x00), append(rep(0x81, 2000), 0x00), append(rep(0xa1, 1), append(rep(0xc1, 100), 0x00, 0x00)...),
		{0x9b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x5b, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff},
		{0x5a, 0x7f, 0xff, 0xff, 0xff}, {0xbb, 0x00, 0x00, 0x00, 0x00, 0x7f, 0xff, 0xff, 0xff}, {0x9a, 0x00, 0x01, 0xff, 0xff},
		{0xf9, 0x7e, 0x00}, {0xfa, 0x7f, 0x80, 0x00, 0x00}, {0xfb, 0x43, 0xe0, 0, 0, 0, 0, 0, 0}, {0xf7}, {0xf8, 0x20}, {0xe0}, {0xf4}, {0xff},
		{0x63, 0xff, 0xfe, 0x41}, {0xc2, 0x40}, {0xc2, 0x49, 1, 0, 0, 0, 0, 0, 0, 0, 0}, {0xd9, 0xd9, 0xf7, 0x80}, {0xd8, 0x18, 0x41, 0x80},
		{0x1b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x3b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff},
		append([]byte{0x5a, 0, 1, 0x11, 0x70}, make([]byte, 70000)...), {0xa2, 0x01, 0x01, 0x01, 0x02}, {0xa1, 0xf6, 0xf6}, {0xa1, 0x81, 0x00, 0x00},
		{0x80}, {0x40}, {0x60},
	}[k]
	return b, fmt.Sprintf("wild%d", k)
}

// wildCbor alters b in 1..3 places.
func (w *World) wildCbor(b []byte) ([]byte, string) {
	desc := ""
	for n := 1 + w.Choose("wild.n", 3); n > 0; n-- {
		if w.Choose("wild.how", 2) == 0 {
			x, d := w.mutateCbor(b, nil)
			b, desc = x, desc+d+" "
			continue
		}
		root, rest, ok := parseCbor(b)
		if !ok || len(rest) != 0 {
			break
		}
		all := root.all()
		c := all[w.Choose("wild.node", len(all))]
		x, d := w.wild()
		p := c.path
		if w.Choose("wild.wrap", 6) == 5 && c.major != 7 {
			x = append(cborHead(2, uint64(len(x))), x...)
			d += " in bytes"
		}
		*c = cnode{major: 7, raw: x}
		b, desc = root.enc(), desc+p+" "+d+" "
	}
	return b, strings.TrimSpace(desc)
}

// oddKey is a public key of a kind that is not in use, or labelled as another one.
func (w *World) oddKey() (fs.FdoPublicKey, string) {
	der := func(pub interface{}) []byte {
		b, err := x509.MarshalPKIXPublicKey(pub)
		if err != nil {
			panic("harness: " + err.Error())
		}
		return b
	}
	var body interface{}
	name := ""
	switch w.Choose("odd.key", 10) {
	case 0:
		p, _, _ := ed25519.GenerateKey(rand.Reader)
		body, name = der(p), "ed25519"
	case 1:
		k, _ := ecdsa.GenerateKey(elliptic.P521(), rand.Reader)
		body, name = der(&k.PublicKey), "p521"
	case 2:
		k, _ := ecdsa.GenerateKey(elliptic.P224(), rand.Reader)
		body, name = der(&k.PublicKey), "p224"
	case 3:
		k, _ := ecdsa.GenerateKey(elliptic.P384(), rand.Reader)
		body, name = der(&k.PublicKey), "p384"
	case 4:
		k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		body, name = der(&k.PublicKey), "p256"
	case 5:
		n := new(big.Int).SetBytes(fs.NewRandomBuffer([]int{1, 128, 256, 384, 512}[w.Choose("odd.rsa", 5)]))
		n.SetBit(n, 0, 1)
		body, name = der(&rsa.PublicKey{N: n, E: []int{3, 65537, 1, 2147483647}[w.Choose("odd.rsa.e", 4)]}), "rsa"
	case 6:
		body, name = []byte{}, "empty"
	case 7:
		body, name = fs.NewRandomBuffer(40), "garbage"
	case 8:
		body, name = [][]byte{{1, 2}, {3}}, "chain"
	case 9:
		body, name = map[int]interface{}{1: 2, 3: -7, -1: 1, -2: []byte{1}, -3: []byte{2}}, "cosekey"
	}
	k := fs.FdoPublicKey{PkType: []fs.FdoPkType{fs.SECP256R1, fs.SECP384R1, fs.RSA2048RESTR, fs.RSAPKCS, fs.RSAPSS, 0, 99}[w.Choose("odd.type", 7)],
		PkEnc: []fs.FdoPkEnc{fs.X509, fs.X509, fs.Crypto, fs.X5CHAIN, fs.COSEKEY, 77}[w.Choose("odd.enc", 6)], PkBody: body}
	return k, fmt.Sprintf("%s as %d/%d", name, k.PkType, k.PkEnc)
}

// spot is one point of a running session: which message comes next and how it looks.
type spot struct {
	url, cmd, token string
	body            []byte
	d               *Dev
	s               *rawSess
	nonce           fs.FdoNonce
	inner           func() ([]byte, string) // altered inside signatures and encryption
}

func (x *spot) String() string { return x.cmd }

// bring opens a session and moves it to some step.
func (w *World) bring(rv, owner string, d *Dev) (x *spot, r rawReply) {
	cmd := protoCmds[w.Choose("spot", len(protoCmds))]
	x = &spot{cmd: cmd, d: d, url: owner}
	if cmd < "60" {
		x.url = rv
	}
	key := func() interface{} {
		k, err := fs.ExtractPrivateKey(d.Cred.DCPrivateKeyDer)
		if err != nil {
			panic("harness: " + err.Error())
		}
		return k
	}
	resign := func(body []byte, key interface{}, sg fs.SgType) ([]byte, string) {
		var c fs.CoseSignature
		if err := fs.CborCust.Unmarshal(body, &c); err != nil {
			panic("harness: " + err.Error())
		}
		pl, what := w.wildCbor(c.Payload)
		n, err := fs.GenerateCoseSignature(pl, fs.ProtectedHeader{}, c.Unprotected, key, sg)
		if err != nil {
			panic("harness: " + err.Error())
		}
		return mustCbor(*n), "signed: " + what
	}
	r = rawReply{Status: 200}
	switch cmd {
	case "20":
		x.body = mustCbor(fs.Hello20{})
	case "22":
		s, r1 := w.hello20(rv)
		if !r1.ok() {
			return x, r1
		}
		x.token, x.nonce = s.Token, s.Nonce
		o := regOpt{Wait: 60 + uint32(w.Choose("wait", 1000))}
		x.body = w.ownerSign(d, s.Nonce, o)
		x.inner = func() ([]byte, string) {
			v := cloneVDB(d.VDB).Voucher
			switch w.Choose("inner22", 6) {
			case 0:
				to0d, what := w.wildCbor(mustCbor(fs.To0d{OwnershipVoucher: v, WaitSeconds: o.Wait, NonceTO0Sign: s.Nonce}))
				return w.signBlob(d, to0d, o), "to0d: " + what
			case 1:
				var b fs.OwnerSign22
				if err := fs.CborCust.Unmarshal(x.body, &b); err != nil {
					panic("harness: " + err.Error())
				}
				c, what := resign(mustCbor(b.To1d), d.finalKey(), d.OwnerSg)
				if err := fs.CborCust.Unmarshal(c, &b.To1d); err != nil {
					panic("harness: " + err.Error())
				}
				return mustCbor(b), "to1d " + what
			case 2, 3: // the chain leads through or to a key of another kind
				k, what := w.oddKey()
				i := w.Choose("odd.at", len(v.OVEntryArray)+1)
				if i == 0 {
					h, _ := v.GetOVHeader()
					h.OVPublicKey = k
					v.OVHeaderTag = mustCbor(h)
				} else {
					var p fs.OVEntryPayload
					if err := fs.CborCust.Unmarshal(v.OVEntryArray[i-1].Payload, &p); err != nil {
						panic("harness: " + err.Error())
					}
					p.OVEPubKey = k
					sk, sg := d.finalKey(), d.OwnerSg
					if d.Keys != nil {
						sk, sg = d.Keys[i-1], d.Sgs[i-1]
					}
					e, err := fs.GenerateCoseSignature(mustCbor(p), fs.ProtectedHeader{}, fs.UnprotectedHeader{}, sk, sg)
					if err != nil {
						panic("harness: " + err.Error())
					}
					v.OVEntryArray[i-1] = *e
					v.OVEntryArray = v.OVEntryArray[:i-w.Choose("odd.cut", 2)]
				}
				o.V = &v
				return w.ownerSign(d, s.Nonce, o), fmt.Sprintf("key %d is %s", i, what)
			case 4: // device certificates
				what := ""
				switch w.Choose("certs", 6) {
				case 0:
					v.OVDevCertChain, what = nil, "none"
				case 1:
					c := []fs.X509CertificateBytes{}
					v.OVDevCertChain, what = &c, "empty"
				case 2:
					c := []fs.X509CertificateBytes{fs.NewRandomBuffer(50)}
					v.OVDevCertChain, what = &c, "garbage"
				case 3:
					c := append([]fs.X509CertificateBytes{{}}, *v.OVDevCertChain...)
					v.OVDevCertChain, what = &c, "first empty"
				case 4:
					c := append([]fs.X509CertificateBytes{}, *v.OVDevCertChain...)
					for i, j := 0, len(c)-1; i < j; i, j = i+1, j-1 {
						c[i], c[j] = c[j], c[i]
					}
					v.OVDevCertChain, what = &c, "reversed"
				case 5:
					c := append([]fs.X509CertificateBytes{}, (*v.OVDevCertChain)[:1]...)
					v.OVDevCertChain, what = &c, "leaf only"
				}
				h, _ := v.GetOVHeader()
				if v.OVDevCertChain != nil {
					if hash, err := fs.ComputeOVDevCertChainHash(*v.OVDevCertChain, h.OVDevCertChainHash.Type); err == nil {
						h.OVDevCertChainHash = &hash
					}
				} else if w.Choose("certs.hash", 2) == 1 {
					h.OVDevCertChainHash = nil
				}
				if d.Keys != nil {
					dv := *d
					dv.VDB.Voucher = v
					n := w.rechain(&dv, h)
					n.OVDevCertChain = v.OVDevCertChain
					v = n
				}
				o.V = &v
				return w.ownerSign(d, s.Nonce, o), "device certificates " + what
			default:
				name, nv := w.badVoucher(d, d)
				if nv == nil {
					nv = &v
				}
				o.V = nv
				return w.ownerSign(d, s.Nonce, o), "voucher " + name
			}
		}
	case "30":
		x.body = mustCbor(fs.HelloRV30{Guid: d.Guid(), EASigInfo: d.Cred.DCSigInfo})
	case "32":
		s, r1 := w.hello30(rv, d.Guid(), d.Cred.DCSigInfo)
		if !r1.ok() {
			return x, r1
		}
		x.token, x.nonce = s.Token, s.Nonce
		x.body = w.proof32(d, s.Nonce, nil, 0)
		x.inner = func() ([]byte, string) { return resign(x.body, key(), d.DevSg) }
	default:
		s := w.newRawSess(owner, d, w.chosenOpt(d))
		x.s = s
		if cmd == "60" {
			x.body = mustCbor(s.Hello)
			return
		}
		if r = s.hello(); !r.ok() {
			return
		}
		x.token, x.nonce = s.Token, s.N61
		n := s.Entries
		if cmd == "62" && n > 0 {
			n = w.Choose("spot.entry", s.Entries)
		}
		for i := 0; i < n; i++ {
			if r = s.post("62", s.body62(i)); !r.ok() {
				return
			}
		}
		if cmd == "62" {
			x.body = s.body62(n)
			return
		}
		x.body = s.body64()
		x.inner = func() ([]byte, string) {
			if w.Choose("inner64", 2) == 0 {
				return resign(x.body, key(), d.DevSg)
			}
			xb, what := w.oddXB(s.P61.XAKeyExchange)
			pl := mustCbor(fs.EATPayloadBase{EatNonce: s.N61, EatUEID: fs.GenerateEatGuid(d.Guid()), EatFDO: fs.TO2ProveDevicePayload{XBKeyExchange: xb}})
			c, err := fs.GenerateCoseSignature(pl, fs.ProtectedHeader{}, fs.UnprotectedHeader{EUPHNonce: &s.NSetup}, key(), d.DevSg)
			if err != nil {
				panic("harness: " + err.Error())
			}
			return mustCbor(*c), "xB " + what
		}
		if cmd == "64" {
			return
		}
		if r = s.post("64", x.body); !r.ok() {
			return
		}
		sealed := func(plain []byte) ([]byte, string) {
			if w.Choose("sealed", 8) == 7 {
				p := fs.NewRandomBuffer(w.Choose("sealed.len", 40))
				return s.seal(p), "sealed garbage"
			}
			b, what := w.wildCbor(plain)
			if len(b) > 60000 { // more than the short CCM suites can carry
				b = b[:60000]
			}
			return s.seal(b), "sealed: " + what
		}
		sz := uint16(1300)
		p66 := mustCbor(fs.DeviceServiceInfoReady66{ReplacementHMac: &s.P61.HMac, MaxOwnerServiceInfoSz: &sz})
		x.body = s.seal(p66)
		x.inner = func() ([]byte, string) { return sealed(p66) }
		if cmd == "66" {
			return
		}
		if r = s.post("66", x.body); !r.ok() {
			return
		}
		p68 := mustCbor(fs.DeviceServiceInfo68{IsMoreServiceInfo: w.Choose("spot.more", 2) == 1, ServiceInfo: fs.GetDeviceOSSims()})
		x.body = s.seal(p68)
		x.inner = func() ([]byte, string) { return sealed(p68) }
		if cmd == "68" {
			return
		}
		for i := 0; i < 8; i++ {
			sims := []fs.ServiceInfoKV{}
			if i == 0 {
				sims = fs.GetDeviceOSSims()
			}
			if r = s.post("68", s.body68(false, sims)); !r.ok() {
				return
			}
			if o, err := s.open69(r); err == nil && o.IsDone {
				break
			}
		}
		p70 := mustCbor(fs.Done70{NonceTO2ProveDv: s.N61})
		x.body = s.seal(p70)
		x.inner = func() ([]byte, string) { return sealed(p70) }
	}
	return
}

// oddXB is a device contribution to the key exchange that no device would make.
func (w *World) oddXB(xa []byte) ([]byte, string) {
	k := w.Choose("xb", 18)
	name := fmt.Sprint(k)
	n := len(xa)
	part := func(parts ...[]byte) []byte {
		var o []byte
		for _, p := range parts {
			o = append(binary.BigEndian.AppendUint16(o, uint16(len(p))), p...)
		}
		return o
	}
	switch k {
	case 0:
		return nil, name
	case 1:
		return []byte{}, name
	case 2:
		return fs.NewRandomBuffer(1 + w.Choose("xb.len", 70)), name
	case 3:
		return make([]byte, n), name
	case 4:
		return bytes.Repeat([]byte{0xff}, n), name
	case 5:
		return xa, "the owner's own" // reflected
	case 6:
		return part(make([]byte, 32), make([]byte, 32), make([]byte, 16)), "point 0"
	case 7:
		return part(fs.NewRandomBuffer(32), fs.NewRandomBuffer(32), fs.NewRandomBuffer(16)), "off curve"
	case 8:
		return part([]byte{}, []byte{}, []byte{}), "empty parts"
	case 9:
		return part(fs.NewRandomBuffer(48), fs.NewRandomBuffer(48)), "no random"
	case 10:
		return part(bytes.Repeat([]byte{0xff}, 66), fs.NewRandomBuffer(66), fs.NewRandomBuffer(48)), "large"
	case 11:
		return []byte{1}, "one"
	case 12:
		return xa[:len(xa)-1-w.Choose("xb.cut", len(xa)-1)], "cut"
	case 13, 14: // nearly of the right length
		return xa[:n-1-w.Choose("xb.few", 4)], "few cut"
	case 15:
		return append(append([]byte{}, xa...), make([]byte, 1+w.Choose("xb.few", 4))...), "few more"
	case 16: // a length inside is wrong
		o := append([]byte{}, xa...)
		at := []int{0, 1, (n - 6) / 3, n / 2, n - 18, n - 50}[w.Choose("xb.at", 6)]
		if at >= 0 && at < n {
			o[at] ^= byte(1 + w.Choose("xb.flip", 255))
		}
		return o, "altered"
	default:
		return fs.NewRandomBuffer(600 + w.Choose("xb.big", 400)), "big"
	}
}

// goOn continues a session that was opened with odd parameters.
func (w *World) goOn(x *spot, r rawReply, what string) {
	s := w.newRawSess(x.url, x.d, x.s.opt)
	s.take61(r)
	for i := 0; i < s.Entries; i++ {
		s.post("62", s.body62(i))
	}
	s.r.SessionKey, s.r.CipherSuiteName, s.keyed = fs.SessionKeyInfo{ShSe: fs.NewRandomBuffer(48), ContextRand: []byte{}}, s.opt.Cipher, true
	s.NSetup = fs.NewFdoNonce()
	xb, how := w.oddXB(s.P61.XAKeyExchange)
	if w.Choose("on.xb", 2) == 1 {
		how = "own"
		pub := x.d.finalPub()
		if kex, err := fs.GenerateXABKeyExchange(s.opt.Kex, &pub); err == nil {
			xb = kex.XAKeyExchange
		}
	}
	pl := mustCbor(fs.EATPayloadBase{EatNonce: s.N61, EatUEID: fs.GenerateEatGuid(x.d.Guid()), EatFDO: fs.TO2ProveDevicePayload{XBKeyExchange: xb}})
	c, err := fs.GenerateCoseSignature(pl, fs.ProtectedHeader{}, fs.UnprotectedHeader{EUPHNonce: &s.NSetup}, s.priv, s.sg)
	if err != nil {
		panic("harness: " + err.Error())
	}
	r = s.post("64", mustCbor(*c))
	w.Logf("goes on after %s with xB %s: %s", what, how, r)
	if !r.ok() {
		return
	}
	w.Count("odd_sessions_proven")
	for _, cmd := range []string{"66", "68", "70"} {
		b := fs.NewRandomBuffer(w.Choose("on.len", 60))
		if w.Choose("on.seal", 2) == 1 {
			b = s.seal([]byte{0x82, 0xf6, 0x19, 5, 0})
		}
		s.post(cmd, b)
	}
	w.Eval("60 " + what + " goes on")
}

// attack sends something else than the correct next message.
func (w *World) attack(x *spot, others []*spot, rv, owner, cookie string) (r rawReply, what string, refuse bool) {
	url, cmd, q, body := x.url, x.cmd, rawReq{Auth: x.token}, append([]byte{}, x.body...)
	defer func() { w.Logf("attack %s %s: %s", cmd, what, r) }()
	switch w.Choose("attack", 16) {
	case 0, 1:
		body, what = w.mutateCbor(body, nil)
	case 2, 3:
		body, what = w.wildCbor(body)
	case 4, 5, 6, 7:
		if x.inner == nil {
			body, what = w.wildCbor(body)
			break
		}
		body, what = x.inner()
	case 8: // bytes
		switch w.Choose("bytes", 5) {
		case 0:
			for n := 1 + w.Choose("bits", 4); n > 0 && len(body) > 0; n-- {
				body[w.Choose("bit.pos", len(body))] ^= 1 << w.Choose("bit", 8)
			}
			what = "bits"
		case 1:
			if len(body) > 0 {
				body = body[:w.Choose("cut", len(body))]
			}
			what = "cut"
		case 2:
			body, what = append(body, fs.NewRandomBuffer(1+w.Choose("tail", 40))...), "tail"
		case 3:
			body, what = fs.NewRandomBuffer(w.Choose("rand.len", 300)), "random"
		case 4:
			body, what = nil, "empty"
		}
	case 9: // a wild item as the whole message
		body, what = w.wild()
	case 10: // another message
		o := protoCmds[w.Choose("other.cmd", len(protoCmds))]
		what = "body of " + cmd + " sent as " + o
		if o < "60" {
			url = rv
		} else {
			url = owner
		}
		cmd = o
		if len(others) > 0 && w.Choose("other.spot", 2) == 1 {
			p := others[w.Choose("other.body", len(others))]
			body, what = append([]byte{}, p.body...), "body of "+p.cmd+" sent as "+o
		}
	case 11: // a token of another kind
		switch w.Choose("token", 8) {
		case 0:
			q.Auth, what = "", "no token"
		case 1:
			q.Auth, what = "Bearer", "half a token"
		case 2:
			q.Auth, what = "Bearer  "+cookie, "two spaces"
		case 3:
			q.Auth, what = "Bearer "+cookie, "login session as token"
		case 4:
			q.Auth, what = "Bearer "+strings.Repeat("x", 1+w.Choose("token.len", 3)*40000), "long token"
		case 5:
			q.Auth, what = "Basic \x80\xff", "other scheme"
		case 6:
			if len(others) > 0 {
				q.Auth = others[w.Choose("token.other", len(others))].token
			}
			what = "token of another session"
		case 7:
			q.Auth, what = "Bearer 00000000-0000-0000-0000-000000000000", "unknown token"
		}
	case 12: // method, content type
		if w.Choose("method", 2) == 0 {
			q.Method = []string{"GET", "PUT", "DELETE", "PATCH", "OPTIONS", "HEAD", "FETCH", "post"}[w.Choose("method.which", 8)]
			what = "method " + q.Method
		} else {
			q.CT = []string{"-", "application/json", "text/plain", "application/cbor-seq", "application/cose", "*/*", "application/octet-stream", "cbor"}[w.Choose("ct", 8)]
			what = "content type " + q.CT
		}
		refuse = true
	case 13: // the body cannot be read
		q.Head = map[string]string{"X-Sim-Bodyerr": "1"}
		what, refuse = "unreadable body", true
	case 14: // parameters of the hello
		if cmd == "60" {
			h := x.s.Hello
			kex := []fs.KexSuiteName{fs.KEX_DHKEXid14, fs.KEX_DHKEXid15, fs.KEX_ASYMKEX2048, fs.KEX_ASYMKEX3072, fs.KEX_ECDH256, fs.KEX_ECDH384, "", "ECDH521"}
			ciph := append(append([]fs.CipherSuiteName{}, goodCiphers...), fs.CIPHER_COSE_AES128_CBC, fs.CIPHER_COSE_AES256_CBC, fs.CIPHER_COSE_AES256_CTR, 0, 999)
			h.KexSuiteName, h.CipherSuiteName = kex[w.Choose("h.kex", len(kex))], ciph[w.Choose("h.cipher", len(ciph))]
			h.EASigInfo.SgType = []fs.SgType{h.EASigInfo.SgType, fs.StSECP256R1, fs.StSECP384R1, fs.StRSA2048, fs.StRSA3072, 0, 99, -99}[w.Choose("h.sg", 8)]
			body, what = mustCbor(h), fmt.Sprintf("hello %s/%d/%d", h.KexSuiteName, h.CipherSuiteName, h.EASigInfo.SgType)
			defer func() {
				if r.ok() && w.Choose("h.on", 4) > 0 {
					w.goOn(x, r, what)
				}
			}()
		} else if cmd == "62" {
			i := w.Choose("h.entry", 257) - 1
			body, what = mustCbor([]int{i}), fmt.Sprintf("entry %d", i)
		} else if cmd == "30" {
			g := fs.FdoGuid{}
			if w.Choose("h.guid", 2) == 1 {
				g = x.d.Guid()
			}
			sg := []fs.SgType{fs.StSECP256R1, fs.StSECP384R1, fs.StRSA2048, fs.StRSA3072, 0, 99, -99}[w.Choose("h.sg", 7)]
			body, what = mustCbor(fs.HelloRV30{Guid: g, EASigInfo: fs.SigInfo{SgType: sg, Info: fs.NewRandomBuffer(w.Choose("h.info", 3) * 30)}}), fmt.Sprintf("hello %d", sg)
		} else {
			body, what = w.wildCbor(body)
		}
	case 15: // twice
		what = "repeated"
		r1 := w.rawSend(url+"/fdo/101/msg/"+cmd, rawReq{Auth: x.token, Head: map[string]string{"X-Sim-What": what}}, body)
		defer func() {
			if r1.ok() {
				r = r1
			}
		}()
	}
	if q.Head == nil {
		q.Head = map[string]string{}
	}
	q.Head["X-Sim-What"] = what
	r = w.rawSend(url+"/fdo/101/msg/"+cmd, q, body)
	if refuse {
		w.checkRefusal(cmd, what, r)
	}
	w.Eval(cmd + " " + what)
	return
}

// oddVoucher is a stored voucher that is not as the protocols expect.
func (w *World) oddVoucher(st *Storage, d *Dev) {
	v := cloneVDB(d.VDB)
	what := ""
	switch w.Choose("stored", 7) {
	case 0:
		v.Voucher.OVEntryArray, what = nil, "no entries"
	case 1:
		v.Voucher.OVDevCertChain, what = nil, "no device certificates"
	case 2:
		c := []fs.X509CertificateBytes{}
		v.Voucher.OVDevCertChain, what = &c, "empty device certificates"
	case 3:
		v.PrivateKeyX509, what = fs.NewRandomBuffer(60), "garbage key"
	case 4:
		_, _, v.PrivateKeyX509 = w.ownerKey(ownerSgs[w.Choose("stored.sg", len(ownerSgs))], 3)
		what = "another key"
	case 5:
		v.Voucher.OVHeaderTag, what = v.Voucher.OVHeaderTag[:len(v.Voucher.OVHeaderTag)/2], "half a header"
	case 6:
		for i := range v.Voucher.OVEntryArray {
			v.Voucher.OVEntryArray[i].Payload = []byte{0x80}
		}
		what = "empty entries"
	}
	w.Logf("%s is stored with %s", d.Desc(), what)
	// written under the device's own identity, as the real store names it
	if err := dodbs.NewVoucherDB(st.DB).Save(d.VDB); err != nil {
		panic("harness: " + err.Error())
	}
	good := string(mustCbor(d.VDB))
	for k, val := range st.Dump() {
		if val == good {
			st.Put(map[string]string{k: string(mustCbor(v))})
			return
		}
	}
	w.Count("odd_voucher_not_placed")
}

// C11: requests of every kind at every step of every protocol, with and without
// disk faults; every one gets a proper answer and the servers go on serving.
func scenC11(w *World) {
	cfg := &envCfg{ServiceURL: "http://owner.example:8043"}
	if w.Choose("interop", 3) == 2 {
		cfg.Interop, cfg.DashURL, cfg.RVAuthz, cfg.DOAuthz, cfg.TokenMapping = true, "http://dash", "x", "y", "[]"
	}
	used := map[fs.FdoGuid]bool{}
	var devs []*Dev
	for i := 0; i < 3; i++ {
		devs = append(devs, w.distinctDevice(fmt.Sprintf("d%d", i), 3, used))
	}
	st := w.NewStorage("srv")
	stRv := st
	var nodes []*Node
	rv, owner := "http://srv", "http://srv"
	if w.Choose("split", 2) == 1 {
		stRv = w.NewStorage("rvstore")
		rv, owner = "http://rv", "http://owner"
		nodes = append(nodes, w.AddNode("rv", "rv", stRv, serve(cfg, "r")), w.AddNode("owner", "owner", st, serve(cfg, "d")))
	} else {
		nodes = append(nodes, w.AddNode("srv", "srv", st, serve(cfg, "dra")))
	}
	for _, d := range devs {
		w.storeVoucher(st, d)
	}
	var odd *Dev
	if w.Choose("odd", 3) == 2 {
		odd = w.distinctDevice("odd", 3, used)
		w.oddVoucher(st, odd)
	}
	w.Net.MaxDelayMS = 1 + w.Choose("net.maxdelay", 40)
	mode := w.Choose("mode", 3) // 0 one by one, 1 side by side, 2 with disk faults
	w.monitorReplies()
	prev := w.OnMsg
	w.OnMsg = func(m *Msg) {
		if m.Header.Get("X-Sim-Bodyerr") != "" {
			m.Tampered = "bodyerr"
		}
		if prev != nil {
			prev(m)
		}
	}
	cookie := ""
	w.Go(nil, "prepare", func() {
		for _, d := range devs {
			if r := RunTo0(*cfg, rv, d); r.Err != nil {
				w.Violate("registration-refused", "%s: %v", d.Desc(), r.Err)
			}
		}
		if len(nodes) == 1 {
			r := w.rawSend(owner+"/api/user/login/onprem", rawReq{CT: "application/json"}, []byte("{}"))
			for _, c := range r.Head.Values("Set-Cookie") {
				if i := strings.Index(c, "session="); i >= 0 {
					cookie = strings.SplitN(c[i+8:], ";", 2)[0]
				}
			}
		}
	})
	w.Run()
	poisoned := map[*Dev]bool{} // an odd registration of it may be in force
	step := func(others *[]*spot) {
		d := devs[w.Choose("dev", len(devs))]
		if odd != nil && w.Choose("dev.odd", 4) == 3 {
			d = odd
		}
		x, r := w.bring(rv, owner, d)
		if !r.ok() {
			if d != odd && mode != 2 {
				w.Violate("session-refused", "%s: a correct session was refused before %s: %s", d.Desc(), x.cmd, r)
			}
			return
		}
		if mode == 0 && w.Choose("fault", 5) == 4 { // the correct message while the disk fails
			n := nodes[0]
			if len(nodes) == 2 && x.url == owner {
				n = nodes[1]
			}
			op := []string{"get", "set", "commit"}[w.Choose("fault.op", 3)]
			n.Store.FailNext[op] = 1 + w.Choose("fault.nth", 4)
			r := w.rawPost(x.url, x.cmd, x.token, x.body)
			used := n.Store.FailNext[op] <= 0
			delete(n.Store.FailNext, op)
			w.Logf("disk fault (%v) on %s during %s: %s", used, op, x.cmd, r)
			w.Count("fault.disk " + op)
			w.Eval(fmt.Sprintf("%s disk %s", x.cmd, op))
			if r.ok() || d == odd {
				return
			}
		} else {
			changed := false
			poisoned[d] = poisoned[d] || x.cmd == "22"
			for n := 1 + w.Choose("attacks", 4); n > 0; n-- {
				a, _, _ := w.attack(x, *others, rv, owner, cookie)
				if a.ok() {
					changed = true // it was in order after all, or began something new
				}
			}
			*others = append(*others, x)
			if changed || d == odd {
				return
			}
		}
		if mode == 2 || x.cmd == "32" && poisoned[d] {
			return
		}
		if x.cmd == "22" && mode == 0 {
			poisoned[d] = false
		}
		if r := w.rawPost(x.url, x.cmd, x.token, x.body); !r.ok() {
			w.Violate("correct-refused "+x.cmd, "%s: after refused requests the correct one was refused: %s", d.Desc(), r)
		} else {
			w.Count("correct_after_refused")
		}
	}
	n := 1
	if mode > 0 {
		n = 2 + w.Choose("clients", 2)
	}
	if mode == 2 {
		for _, nd := range nodes {
			nd.Store.ErrNum, nd.Store.ErrDen, nd.Store.ErrOps = 1, 6+w.Choose("dberr", 12), "get set commit"
		}
	}
	for i := 0; i < n; i++ {
		w.Go(nil, fmt.Sprintf("client%d", i), func() {
			var others []*spot
			for k := 3 + w.Choose("steps", 5); k > 0; k-- {
				step(&others)
			}
		})
	}
	w.Run()
	for _, nd := range nodes {
		nd.Store.ErrNum = 0
	}
	w.Advance(time.Second)
	w.Go(nil, "after", func() {
		for _, d := range devs {
			if r := RunTo0(*cfg, rv, d); r.Err != nil {
				w.Violate("registration-refused", "%s: a correct registration was refused afterwards: %v", d.Desc(), r.Err)
			}
			if r := RunTo1(rv, d); r.Err != nil {
				w.Violate("lookup-refused", "%s: a correct lookup was refused afterwards: %v", d.Desc(), r.Err)
			}
			if r := RunTo2(owner, d, w.chosenOpt(d)); r.Err != nil {
				w.Violate("transfer-refused", "%s: a correct transfer was refused afterwards at %s: %v", d.Desc(), r.Stage, r.Err)
			}
		}
	})
	w.Run()
	if w.endErr != "" {
		w.Violate("no-progress", "the run did not end: %s", w.endErr)
	}
}
