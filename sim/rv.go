package fdosim

// Rendezvous side: an independent judge of registrations and lookups, the
// hand-driven client, and the lies told by both.

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"fmt"
	"math/big"
	"sort"
	"strings"

	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

const maxWait = 30 * 24 * 3600

// refVerify checks a COSE_Sign1 signature under an X.509-encoded public key.
func refVerify(c fs.CoseSignature, pub fs.FdoPublicKey) bool {
	der, ok := pub.PkBody.([]byte)
	if !ok {
		return false
	}
	k, err := x509.ParsePKIXPublicKey(der)
	if err != nil {
		return false
	}
	return refVerifyKey(c, k)
}

func refVerifyKey(c fs.CoseSignature, k interface{}) bool {
	tbs := append([]byte{0x84}, cborHead(3, 10)...)
	tbs = append(tbs, "Signature1"...)
	for _, b := range [][]byte{c.Protected, {}, c.Payload} {
		tbs = append(append(tbs, cborHead(2, uint64(len(b)))...), b...)
	}
	s256, s384 := sha256.Sum256(tbs), sha512.Sum384(tbs)
	switch k := k.(type) {
	case *ecdsa.PublicKey:
		n := (k.Curve.Params().BitSize + 7) / 8
		if len(c.Signature) != 2*n {
			return false
		}
		dig := s256[:]
		if n == 48 {
			dig = s384[:]
		}
		return ecdsa.Verify(k, dig, new(big.Int).SetBytes(c.Signature[:n]), new(big.Int).SetBytes(c.Signature[n:]))
	case *rsa.PublicKey:
		if k.N.BitLen() == 3072 {
			return rsa.VerifyPKCS1v15(k, crypto.SHA384, s384[:], c.Signature) == nil
		}
		return rsa.VerifyPKCS1v15(k, crypto.SHA256, s256[:], c.Signature) == nil
	}
	return false
}

func refHash(t fs.HashType, b []byte) []byte {
	switch t {
	case fs.HASH_SHA256:
		h := sha256.Sum256(b)
		return h[:]
	case fs.HASH_SHA384:
		h := sha512.Sum384(b)
		return h[:]
	}
	return nil
}

func refHashIs(h fs.HashOrHmac, b []byte) bool {
	r := refHash(h.Type, b)
	return r != nil && bytes.Equal(r, h.Hash)
}

// refVoucher tells what is wrong with a voucher ("" if nothing).
func refVoucher(v fs.OwnershipVoucher) (hdr fs.OwnershipVoucherHeader, final fs.FdoPublicKey, problem string) {
	if v.OVProtVer != fs.ProtVer101 {
		return hdr, final, "voucher version"
	}
	if v.OVDevCertChain == nil {
		return hdr, final, "no device certificate"
	}
	if err := fs.CborCust.Unmarshal(v.OVHeaderTag, &hdr); err != nil {
		return hdr, final, "header does not decode"
	}
	switch {
	case hdr.OVHProtVer != fs.ProtVer101:
		return hdr, final, "header version"
	case len(hdr.OVRvInfo) == 0:
		return hdr, final, "no rendezvous information"
	case hdr.OVDeviceInfo == "":
		return hdr, final, "no device information"
	case hdr.OVDevCertChainHash == nil:
		return hdr, final, "no certificate hash"
	}
	var certs []byte
	for _, c := range *v.OVDevCertChain {
		certs = append(certs, c...)
	}
	if !refHashIs(*hdr.OVDevCertChainHash, certs) {
		return hdr, final, "certificate hash differs"
	}
	if len(v.OVEntryArray) == 0 {
		return hdr, final, "no entries"
	}
	signer := hdr.OVPublicKey
	prev := append(append([]byte{}, v.OVHeaderTag...), mustCbor(v.OVHeaderHMac)...)
	for i, e := range v.OVEntryArray {
		var p fs.OVEntryPayload
		if err := fs.CborCust.Unmarshal(e.Payload, &p); err != nil {
			return hdr, final, fmt.Sprintf("entry %d does not decode", i)
		}
		if !refHashIs(p.OVEHashPrevEntry, prev) {
			return hdr, final, fmt.Sprintf("entry %d does not follow its predecessor", i)
		}
		if !refHashIs(p.OVEHashHdrInfo, append(append([]byte{}, hdr.OVGuid[:]...), hdr.OVDeviceInfo...)) {
			return hdr, final, fmt.Sprintf("entry %d is about another device", i)
		}
		if !refVerify(e, signer) {
			return hdr, final, fmt.Sprintf("entry %d is not signed by the owner before", i)
		}
		signer, prev = p.OVEPubKey, mustCbor(e)
	}
	return hdr, signer, ""
}

type refReg struct {
	Guid  fs.FdoGuid
	Blob  string // to1d, encoded
	Wait  uint32
	Certs []fs.X509CertificateBytes
}

// refOwnerSign tells whether an OwnerSign22 body must be refused in a session
// whose challenge is nonce.
func refOwnerSign(body []byte, nonce []byte) (r refReg, problem string) {
	var os fs.OwnerSign22
	if err := fs.CborCust.Unmarshal(body, &os); err != nil {
		return r, "message does not decode"
	}
	var to0d fs.To0d
	if err := fs.CborCust.Unmarshal(os.To0d, &to0d); err != nil {
		return r, "owner data does not decode"
	}
	if !bytes.Equal(to0d.NonceTO0Sign[:], nonce) {
		return r, "wrong challenge"
	}
	hdr, final, p := refVoucher(to0d.OwnershipVoucher)
	if p != "" {
		return r, p
	}
	if !refVerify(os.To1d, final) {
		return r, "blob is not signed by the final owner"
	}
	var pl fs.To1dBlobPayload
	if err := fs.CborCust.Unmarshal(os.To1d.Payload, &pl); err != nil {
		return r, "blob does not decode"
	}
	if !refHashIs(pl.To1dTo0dHash, os.To0d) {
		return r, "hash of the owner data differs"
	}
	if len(pl.To1dRV) == 0 {
		return r, "no address"
	}
	for _, a := range pl.To1dRV {
		if (a.RVDNS == nil || *a.RVDNS == "") && (a.RVIP == nil || len(*a.RVIP) != 4 && len(*a.RVIP) != 16) {
			return r, "address without host"
		}
	}
	return refReg{Guid: hdr.OVGuid, Blob: string(mustCbor(os.To1d)), Wait: to0d.WaitSeconds, Certs: *to0d.OwnershipVoucher.OVDevCertChain}, ""
}

// ------------------------------------------------------------ monitor

type rvOp struct {
	write      bool
	guid       fs.FdoGuid
	val        string // "" = not registered
	start, end int64  // end < 0: open
	maybe      bool   // may never have happened
	certs      []fs.X509CertificateBytes
	proof      fs.CoseSignature
	what       string
}

// rvMonitor judges everything a rendezvous server answers from the traffic alone.
type rvMonitor struct {
	w       *World
	host    string
	tick    int64
	to0     map[string][]byte // token -> challenge
	to1     map[string]*rvLookup
	ops     map[fs.FdoGuid][]*rvOp
	open    map[*Msg]int64
	judge30 bool // a refused hello means "not registered" (no storage errors around)
}

type rvLookup struct {
	guid  fs.FdoGuid
	nonce []byte
}

func (w *World) monitorRv(host string) *rvMonitor {
	mon := &rvMonitor{w: w, host: host, to0: map[string][]byte{}, to1: map[string]*rvLookup{}, ops: map[fs.FdoGuid][]*rvOp{}, open: map[*Msg]int64{}, judge30: true}
	p1, p2, p3 := w.OnMsg, w.OnDup, w.OnReply
	w.OnMsg = func(m *Msg) {
		mon.begin(m)
		if p1 != nil {
			p1(m)
		}
	}
	w.OnDup = func(o, d *Msg) {
		mon.begin(d)
		if p2 != nil {
			p2(o, d)
		}
	}
	w.OnReply = func(m *Msg) {
		mon.see(m)
		if p3 != nil {
			p3(m)
		}
	}
	return mon
}

func (mon *rvMonitor) begin(m *Msg) {
	if m.Host == mon.host {
		mon.tick++
		mon.open[m] = mon.tick
	}
}

func (mon *rvMonitor) see(m *Msg) {
	if m.Host != mon.host {
		return
	}
	w := mon.w
	start := mon.open[m]
	delete(mon.open, m)
	mon.tick++
	op := &rvOp{start: start, end: mon.tick, what: fmt.Sprintf("message %d", m.ID)}
	tok := m.Header.Get("Authorization")
	ok := m.Replied && m.Status == 200
	switch m.Cmd() {
	case "20":
		if rep, _, good := parseCbor(m.RespBody); ok && good && rep.at(0) != nil {
			mon.to0[m.RespHeader.Get("Authorization")] = rep.at(0).data
		}
	case "30":
		rep, _, good := parseCbor(m.RespBody)
		var h fs.HelloRV30
		if fs.CborCust.Unmarshal(m.Body, &h) != nil || !good {
			return
		}
		if ok {
			mon.to1[m.RespHeader.Get("Authorization")] = &rvLookup{guid: h.Guid, nonce: rep.at(0).data}
		} else if mon.judge30 && m.Replied && rep.at(0) != nil && rep.at(0).val == 6 {
			op.guid, op.val = h.Guid, ""
			mon.ops[h.Guid] = append(mon.ops[h.Guid], op)
		}
	case "22":
		nonce, known := mon.to0[tok]
		r, problem := refOwnerSign(m.Body, nonce)
		if ok {
			if !known {
				w.Violate("registered-without-session", "a registration was accepted under a token that no registration session has: %q", tok)
				return
			}
			if problem != "" {
				w.Violate("registered-bad:"+problem, "a registration was accepted although: %s", problem)
				return
			}
			want := r.Wait
			if want > maxWait {
				want = maxWait
			}
			rep, rest, good := parseCbor(m.RespBody)
			if !good || len(rest) != 0 || rep.at(0) == nil || rep.at(0).major != 0 || rep.at(0).val != uint64(want) {
				w.Violate("granted-wait", "requested %d s, the reply grants %s instead of %d s", r.Wait, hx(m.RespBody), want)
			}
			w.Count("registrations_verified")
		} else if problem != "" || !known || m.Replied {
			// A server that answers with an error has not registered anything:
			// the simulator's storage errors come before any effect.
			return
		}
		op.write, op.guid, op.val, op.certs, op.maybe = true, r.Guid, r.Blob, r.Certs, !ok
		mon.ops[r.Guid] = append(mon.ops[r.Guid], op)
	case "32":
		l := mon.to1[tok]
		if !ok {
			if l != nil && bytes.Contains(m.RespBody, []byte("fdo-addr-")) {
				w.Violate("blob-in-error", "a refused lookup carries an address blob")
			}
			return
		}
		if l == nil {
			w.Violate("released-without-session", "a lookup was answered under a token that no lookup session has: %q", tok)
			return
		}
		var c fs.CoseSignature
		var eat fs.EATPayloadBase
		if fs.CborCust.Unmarshal(m.Body, &c) != nil || fs.CborCust.Unmarshal(c.Payload, &eat) != nil {
			w.Violate("released-without-proof", "a lookup was answered for a proof that does not decode")
			return
		}
		if !bytes.Equal(eat.EatNonce[:], l.nonce) {
			w.Violate("released-without-fresh-challenge", "a lookup was answered for a proof that does not carry this session's challenge")
		}
		op.guid, op.val, op.proof = l.guid, string(m.RespBody), c
		mon.ops[l.guid] = append(mon.ops[l.guid], op)
		w.Count("lookups_verified")
	}
}

func certPub(certs []fs.X509CertificateBytes) interface{} {
	if len(certs) == 0 {
		return nil
	}
	c, err := x509.ParseCertificate(certs[0])
	if err != nil {
		return nil
	}
	return c.PublicKey
}

// check judges the whole history once everything has ended (no expiry inside).
func (mon *rvMonitor) check() {
	w := mon.w
	for m, start := range mon.open {
		if m.Cmd() == "22" { // still under way or lost
			if r, problem := refOwnerSign(m.Body, mon.to0[m.Header.Get("Authorization")]); problem == "" {
				mon.ops[r.Guid] = append(mon.ops[r.Guid], &rvOp{write: true, guid: r.Guid, val: r.Blob, certs: r.Certs, maybe: true, start: start, end: 1 << 40, what: fmt.Sprintf("message %d", m.ID)})
			}
		}
	}
	var guids []fs.FdoGuid
	for g := range mon.ops {
		guids = append(guids, g)
	}
	sort.Slice(guids, func(i, j int) bool { return bytes.Compare(guids[i][:], guids[j][:]) < 0 })
	for _, g := range guids {
		ops := mon.ops[g]
		sort.Slice(ops, func(i, j int) bool { return ops[i].start < ops[j].start })
		for _, o := range ops {
			if o.write || o.val == "" {
				continue
			}
			from := 0
			for _, p := range ops {
				if p.write && p.val == o.val {
					from++
					if k := certPub(p.certs); k == nil || !refVerifyKey(o.proof, k) {
						w.Violate("released-without-device-signature", "%s: the blob was released for a proof that the registered voucher's device key did not sign", o.what)
					}
				}
			}
			if from == 0 {
				who := "that was never registered"
				for g2, ops2 := range mon.ops {
					for _, p := range ops2 {
						if g2 != g && p.write && p.val == o.val {
							who = "of another device"
						}
					}
				}
				w.Violate("released-foreign-blob", "%s: the lookup returned a blob %s", o.what, who)
			}
		}
		if len(ops) <= 60 && !linearReg(ops) {
			w.Violate("lookup-not-latest", "device %x: no order of registrations explains the lookups: %s", g[:4], regText(ops))
		}
		w.Eval(fmt.Sprintf("history %d %s", len(ops), shape(ops)))
	}
}

func shape(ops []*rvOp) string {
	var b strings.Builder
	vals := map[string]int{"": 0}
	for i, o := range ops {
		if _, ok := vals[o.val]; !ok {
			vals[o.val] = len(vals)
		}
		k := "r"
		if o.write {
			k = "w"
		}
		if o.maybe {
			k = "m"
		}
		ov := 0
		for j, p := range ops {
			if j < i && p.end > o.start {
				ov++
			}
		}
		fmt.Fprintf(&b, "%s%d/%d ", k, vals[o.val], ov)
	}
	return b.String()
}

func regText(ops []*rvOp) string {
	var b strings.Builder
	vals := map[string]int{"": 0}
	for _, o := range ops {
		if _, ok := vals[o.val]; !ok {
			vals[o.val] = len(vals)
		}
		k := "lookup"
		if o.write {
			k = "register"
		}
		if o.maybe {
			k = "maybe-register"
		}
		fmt.Fprintf(&b, "%s(blob %d)[%d..%d] ", k, vals[o.val], o.start, o.end)
	}
	return b.String()
}

// linearReg searches for an order of the operations on one register.
func linearReg(ops []*rvOp) bool {
	type key struct {
		done bits128
		val  string
	}
	seen := map[key]bool{}
	var rec func(done bits128, n int, val string) bool
	rec = func(done bits128, n int, val string) bool {
		left := false
		minEnd := int64(1) << 60
		for i, o := range ops {
			if !done.has(i) && !o.maybe {
				left = true
				if o.end < minEnd {
					minEnd = o.end
				}
			}
		}
		if !left {
			return true
		}
		k := key{done, val}
		if seen[k] {
			return false
		}
		seen[k] = true
		for i, o := range ops {
			if done.has(i) || o.start > minEnd {
				continue
			}
			if o.write {
				if rec(done.with(i), n+1, o.val) {
					return true
				}
			} else if o.val == val && rec(done.with(i), n+1, val) {
				return true
			}
		}
		return false
	}
	return rec(bits128{}, 0, "")
}

// ------------------------------------------------------------ client

type regOpt struct {
	Wait  uint32
	Addrs []fs.RVTO2AddrEntry
	Key   interface{} // signer, nil: the final owner
	Sg    fs.SgType
	V     *fs.OwnershipVoucher
	Hash  *fs.HashOrHmac
	ToHsh fs.HashType
}

func (w *World) addr() []fs.RVTO2AddrEntry {
	w.addrN++
	s := fmt.Sprintf("fdo-addr-%d.example", w.addrN)
	out := []fs.RVTO2AddrEntry{{RVDNS: &s, RVPort: 8043, RVProtocol: 3}}
	if w.Choose("addr.more", 4) == 3 {
		ip, _ := fs.FdoIPAddressFromString("10.9.8.7")
		out = append(out, fs.RVTO2AddrEntry{RVIP: &ip, RVPort: 80, RVProtocol: 1})
	}
	return out
}

// ownerSign builds a registration by hand.
func (w *World) ownerSign(d *Dev, nonce fs.FdoNonce, o regOpt) []byte {
	v := d.VDB.Voucher
	if o.V != nil {
		v = *o.V
	}
	to0d := mustCbor(fs.To0d{OwnershipVoucher: v, WaitSeconds: o.Wait, NonceTO0Sign: nonce})
	return w.signBlob(d, to0d, o)
}

func (w *World) signBlob(d *Dev, to0d []byte, o regOpt) []byte {
	if o.Addrs == nil {
		o.Addrs = w.addr()
	}
	if o.Key == nil {
		o.Key, o.Sg = d.finalKey(), d.OwnerSg
	}
	ht := o.ToHsh
	if ht == 0 {
		ht = d.Cred.DCHashAlg
	}
	h := fs.HashOrHmac{Type: ht, Hash: refHash(ht, to0d)}
	if o.Hash != nil {
		h = *o.Hash
	}
	c, err := fs.GenerateCoseSignature(mustCbor(fs.To1dBlobPayload{To1dRV: o.Addrs, To1dTo0dHash: h}), fs.ProtectedHeader{}, fs.UnprotectedHeader{}, o.Key, o.Sg)
	if err != nil {
		panic("harness: to1d: " + err.Error())
	}
	return mustCbor(fs.OwnerSign22{To0d: to0d, To1d: *c})
}

type rv20 struct {
	Token string
	Nonce fs.FdoNonce
}

// lossy: what arrives may not be what was sent.
func (w *World) lossy() bool { return w.faultyNet() && w.Net.CorruptResp > 0 }

func (w *World) hello20(url string) (s rv20, r rawReply) {
	r = w.rawPost(url, "20", "", mustCbor(fs.Hello20{}))
	if r.ok() {
		var a fs.HelloAck21
		if err := fs.CborCust.Unmarshal(r.Body, &a); err != nil {
			if !w.lossy() {
				w.Violate("bad-21", "HelloAck21 does not decode: %v", err)
			}
			return s, rawReply{Err: err}
		}
		s = rv20{r.token(), a.NonceTO0Sign}
	}
	return s, r
}

// register runs a whole correct registration by hand.
func (w *World) register(url string, d *Dev, o regOpt) (r rawReply, blob string) {
	s, r := w.hello20(url)
	if !r.ok() {
		return r, ""
	}
	body := w.ownerSign(d, s.Nonce, o)
	ref, problem := refOwnerSign(body, s.Nonce[:])
	if problem != "" {
		panic("harness: own registration is bad: " + problem)
	}
	return w.rawPost(url, "22", s.Token, body), ref.Blob
}

type rv30 struct {
	Token string
	Nonce fs.FdoNonce
}

func (w *World) hello30(url string, guid fs.FdoGuid, sg fs.SigInfo) (s rv30, r rawReply) {
	r = w.rawPost(url, "30", "", mustCbor(fs.HelloRV30{Guid: guid, EASigInfo: sg}))
	if r.ok() {
		var a fs.HelloRVAck31
		if err := fs.CborCust.Unmarshal(r.Body, &a); err != nil {
			if !w.lossy() {
				w.Violate("bad-31", "HelloRVAck31 does not decode: %v", err)
			}
			return s, rawReply{Err: err}
		}
		if !w.lossy() && a.EBSigInfo.SgType != sg.SgType {
			w.Violate("bad-31", "HelloRVAck31 names signature type %d instead of %d", a.EBSigInfo.SgType, sg.SgType)
		}
		s = rv30{r.token(), a.NonceTO1Proof}
	}
	return s, r
}

func (w *World) proof32(d *Dev, nonce fs.FdoNonce, key interface{}, sg fs.SgType) []byte {
	if key == nil {
		k, err := fs.ExtractPrivateKey(d.Cred.DCPrivateKeyDer)
		if err != nil {
			panic("harness: " + err.Error())
		}
		key, sg = k, d.DevSg
	}
	c, err := fs.GenerateCoseSignature(mustCbor(fs.EATPayloadBase{EatNonce: nonce, EatUEID: fs.GenerateEatGuid(d.Guid())}), fs.ProtectedHeader{}, fs.UnprotectedHeader{}, key, sg)
	if err != nil {
		panic("harness: proof32: " + err.Error())
	}
	return mustCbor(*c)
}

// lookup runs a whole correct lookup by hand; blob is what was returned.
func (w *World) lookup(url string, d *Dev) (r rawReply, blob string) {
	s, r := w.hello30(url, d.Guid(), d.Cred.DCSigInfo)
	if !r.ok() {
		return r, ""
	}
	r = w.rawPost(url, "32", s.Token, w.proof32(d, s.Nonce, nil, 0))
	if r.ok() {
		blob = string(r.Body)
	}
	return r, blob
}

// ------------------------------------------------------------ lies

// rechain signs a chain for header h with d's own keys, so that only the
// header (or what alter does to the parts) is wrong.
func (w *World) rechain(d *Dev, h fs.OwnershipVoucherHeader) fs.OwnershipVoucher {
	v := cloneVDB(d.VDB).Voucher
	v.OVHeaderTag = mustCbor(h)
	prev := append(append([]byte{}, v.OVHeaderTag...), mustCbor(v.OVHeaderHMac)...)
	for i := range v.OVEntryArray {
		pub, err := v.OVEntryArray[i].GetOVEntryPubKey()
		if err != nil {
			panic("harness: " + err.Error())
		}
		v.OVEntryArray[i] = w.signEntry(fs.HashOrHmac{Type: d.Cred.DCHashAlg, Hash: refHash(d.Cred.DCHashAlg, prev)}, d, pub, d.Keys[i], d.Sgs[i])
		prev = mustCbor(v.OVEntryArray[i])
	}
	return v
}

// badVoucher is a voucher with one defect, registered by its genuine owner.
func (w *World) badVoucher(d, other *Dev) (string, *fs.OwnershipVoucher) {
	v := cloneVDB(d.VDB).Voucher
	n := len(v.OVEntryArray)
	kinds := []string{"cert-chain-of-other", "header-of-other", "hmac", "entry-signature", "entry-payload", "entry-cut", "entries-swapped", "version", "no-certs", "no-entries", "cert-extra", "cert-order"}
	if d.Keys != nil {
		kinds = append(kinds, "made-no-rvinfo", "made-no-info", "made-version", "made-no-certhash", "made-wrong-certhash", "made-wrong-prev", "made-wrong-signer", "made-wrong-info")
	}
	kind := kinds[w.Choose("badv.kind", len(kinds))]
	i := w.Choose("badv.entry", n)
	h, _ := v.GetOVHeader()
	switch kind {
	case "cert-chain-of-other":
		v.OVDevCertChain = other.VDB.Voucher.OVDevCertChain
	case "header-of-other":
		v.OVHeaderTag = other.VDB.Voucher.OVHeaderTag
	case "hmac":
		v.OVHeaderHMac.Hash = w.corrupt(v.OVHeaderHMac.Hash)
	case "entry-signature":
		v.OVEntryArray[i].Signature = w.corrupt(v.OVEntryArray[i].Signature)
	case "entry-payload":
		b, _ := w.mutateCbor(v.OVEntryArray[i].Payload, nil)
		v.OVEntryArray[i].Payload = b
	case "entry-cut":
		if n > 1 {
			i = w.Choose("badv.cut", n-1)
			v.OVEntryArray = append(append(fs.OVEntryArray{}, v.OVEntryArray[:i]...), v.OVEntryArray[i+1:]...)
		} else {
			v.OVEntryArray = nil
		}
	case "entries-swapped":
		j := w.Choose("badv.swap", n)
		v.OVEntryArray[i], v.OVEntryArray[j] = v.OVEntryArray[j], v.OVEntryArray[i]
	case "version":
		v.OVProtVer = fs.ProtVersion([]int{100, 102, 0, 65535}[w.Choose("badv.ver", 4)])
	case "no-certs":
		v.OVDevCertChain = nil
	case "no-entries":
		v.OVEntryArray = fs.OVEntryArray{}
	case "cert-extra":
		cs := append(append([]fs.X509CertificateBytes{}, *v.OVDevCertChain...), (*other.VDB.Voucher.OVDevCertChain)[0])
		v.OVDevCertChain = &cs
	case "cert-order":
		cs := append([]fs.X509CertificateBytes{}, *v.OVDevCertChain...)
		cs[0], cs[len(cs)-1] = cs[len(cs)-1], cs[0]
		v.OVDevCertChain = &cs
	case "made-no-rvinfo":
		h.OVRvInfo = nil
		v = w.rechain(d, h)
	case "made-no-info":
		h.OVDeviceInfo = ""
		v = w.rechain(d, h)
	case "made-version":
		h.OVHProtVer = 100
		v = w.rechain(d, h)
	case "made-no-certhash":
		h.OVDevCertChainHash = nil
		v = w.rechain(d, h)
	case "made-wrong-certhash":
		c := *h.OVDevCertChainHash
		c.Hash = w.corrupt(c.Hash)
		if w.Choose("badv.empty", 3) == 2 {
			c.Hash = nil
		}
		h.OVDevCertChainHash = &c
		v = w.rechain(d, h)
	case "made-wrong-prev":
		// the right signers all along, but entry i follows something else
		pub, _ := v.OVEntryArray[i].GetOVEntryPubKey()
		ht := d.Cred.DCHashAlg
		v.OVEntryArray[i] = w.signEntry(fs.HashOrHmac{Type: ht, Hash: refHash(ht, []byte("another chain"))}, d, pub, d.Keys[i], d.Sgs[i])
		w.reenter(d, &v, i+1)
	case "made-wrong-signer":
		// linked all along, but entry i is signed by somebody else
		pub, _ := v.OVEntryArray[i].GetOVEntryPubKey()
		var p fs.OVEntryPayload
		fs.CborCust.Unmarshal(v.OVEntryArray[i].Payload, &p)
		k, _, _ := w.foreignKey(d.Sgs[i], d, other)
		v.OVEntryArray[i] = w.signEntry(p.OVEHashPrevEntry, d, pub, k, d.Sgs[i])
		w.reenter(d, &v, i+1)
	case "made-wrong-info":
		// signed and linked all along, but entry i is about another device
		pub, _ := v.OVEntryArray[i].GetOVEntryPubKey()
		var p fs.OVEntryPayload
		fs.CborCust.Unmarshal(v.OVEntryArray[i].Payload, &p)
		guid, name := w.otherInfo(d, other)
		v.OVEntryArray[i] = w.signEntryFor(p.OVEHashPrevEntry, guid, name, d, pub, d.Keys[i], d.Sgs[i])
		w.reenter(d, &v, i+1)
	}
	return "voucher-" + kind, &v
}

// reenter signs the entries from i on again, linked to what precedes them.
func (w *World) reenter(d *Dev, v *fs.OwnershipVoucher, i int) {
	ht := d.Cred.DCHashAlg
	for ; i < len(v.OVEntryArray); i++ {
		pub, _ := v.OVEntryArray[i].GetOVEntryPubKey()
		v.OVEntryArray[i] = w.signEntry(fs.HashOrHmac{Type: ht, Hash: refHash(ht, mustCbor(v.OVEntryArray[i-1]))}, d, pub, d.Keys[i], d.Sgs[i])
	}
}

// badRegistration makes one registration that is (almost always) not in order.
// old: bodies accepted earlier for d.
func (w *World) badRegistration(d, other *Dev, s rv20, otherNonce fs.FdoNonce, old [][]byte) (string, []byte) {
	g := func() []byte { return w.ownerSign(d, s.Nonce, regOpt{Wait: 1000}) }
	split := func(b []byte) fs.OwnerSign22 {
		var os fs.OwnerSign22
		if err := fs.CborCust.Unmarshal(b, &os); err != nil {
			panic("harness: " + err.Error())
		}
		return os
	}
	kinds := []string{"altered", "owner-data-altered", "blob-altered", "signature-altered", "nonce", "replay", "foreign-key", "device-key", "owner-data-swapped", "evil-voucher", "bad-voucher", "bad-voucher", "bad-address", "hash", "truncated", "previous-owner", "manufacturer"}
	kind := kinds[w.Choose("badreg", len(kinds))]
	switch kind {
	case "altered":
		b, what := w.mutateCbor(g(), nil)
		return kind + " " + what, b
	case "owner-data-altered":
		os := split(g())
		b, what := w.mutateCbor(os.To0d, nil)
		os.To0d = b
		return kind + " " + what, mustCbor(os)
	case "blob-altered":
		os := split(g())
		b, what := w.mutateCbor(os.To1d.Payload, nil)
		os.To1d.Payload = b
		return kind + " " + what, mustCbor(os)
	case "signature-altered":
		os := split(g())
		if len(os.To1d.Signature) > 0 {
			os.To1d.Signature = w.corrupt(os.To1d.Signature)
		}
		switch w.Choose("sig.form", 4) {
		case 1:
			os.To1d.Signature = nil
		case 2:
			os.To1d.Signature = make([]byte, len(os.To1d.Signature))
		}
		return kind, mustCbor(os)
	case "nonce":
		n := []fs.FdoNonce{otherNonce, fs.NewFdoNonce(), {}}[w.Choose("nonce.kind", 3)]
		if n.Equals(s.Nonce) {
			n = fs.NewFdoNonce()
		}
		return kind, w.ownerSign(d, n, regOpt{Wait: 1000})
	case "replay":
		if len(old) > 0 {
			return kind, old[w.Choose("replay.which", len(old))]
		}
	case "foreign-key":
		k, _, _ := w.foreignKey(d.OwnerSg, d, other)
		return kind, w.ownerSign(d, s.Nonce, regOpt{Wait: 1000, Key: k, Sg: d.OwnerSg})
	case "previous-owner", "manufacturer":
		if d.Keys != nil {
			i := 0
			if kind == "previous-owner" {
				i = len(d.Keys) - 2
			}
			return kind, w.ownerSign(d, s.Nonce, regOpt{Wait: 1000, Key: d.Keys[i], Sg: d.Sgs[i]})
		}
	case "device-key":
		k, _ := fs.ExtractPrivateKey(d.Cred.DCPrivateKeyDer)
		return kind, w.ownerSign(d, s.Nonce, regOpt{Wait: 1000, Key: k, Sg: d.DevSg})
	case "owner-data-swapped":
		os := split(g())
		os.To0d = split(w.ownerSign(d, s.Nonce, regOpt{Wait: 1001 + uint32(w.Choose("swap.wait", 1000))})).To0d
		return kind, mustCbor(os)
	case "evil-voucher":
		k, v, priv, _ := w.evilVoucher(d, other)
		sg := d.OwnerSg
		if k == "other-header" {
			sg = other.OwnerSg
		}
		if k == "hdr-hmac-swap" {
			sg = other.OwnerSg
		}
		return kind + " " + k, w.ownerSign(d, s.Nonce, regOpt{Wait: 1000, V: &v.Voucher, Key: priv, Sg: sg})
	case "bad-voucher":
		k, v := w.badVoucher(d, other)
		return kind + " " + k, w.ownerSign(d, s.Nonce, regOpt{Wait: 1000, V: v})
	case "bad-address":
		a := []fs.RVTO2AddrEntry{{RVPort: 1, RVProtocol: 3}}
		none := ""
		short := fs.FdoIPAddress(make([]byte, []int{0, 3, 5, 15, 17}[w.Choose("addr.ip", 5)]))
		switch w.Choose("addr.host", 4) {
		case 1:
			a[0].RVDNS = &none
		case 2:
			a[0].RVIP = &short
		case 3:
			a[0].RVDNS, a[0].RVIP = &none, &short
		}
		switch w.Choose("addr.form", 4) {
		case 3:
			a = a[:0]
		case 1:
			a = append(w.addr(), a...)
		case 2:
			a = append(a, w.addr()...)
		}
		return kind, w.ownerSign(d, s.Nonce, regOpt{Wait: 1000, Addrs: a})
	case "hash":
		h := fs.HashOrHmac{Type: d.Cred.DCHashAlg, Hash: refHash(d.Cred.DCHashAlg, []byte("other"))}
		switch w.Choose("hash.form", 5) {
		case 1:
			h.Hash = nil
		case 2:
			h.Type = fs.HASH_HMAC_SHA256
		case 3:
			h.Type = 0
		case 4:
			h.Hash = h.Hash[:16]
		}
		return kind, w.ownerSign(d, s.Nonce, regOpt{Wait: 1000, Hash: &h})
	case "truncated":
		b := g()
		return kind, b[:w.Choose("trunc", len(b))]
	}
	k, _, _ := w.foreignKey(d.OwnerSg, d, other)
	return "foreign-key", w.ownerSign(d, s.Nonce, regOpt{Wait: 1000, Key: k, Sg: d.OwnerSg})
}

// badProof makes one lookup proof that is not in order.
func (w *World) badProof(d, other *Dev, s rv30, otherNonce fs.FdoNonce, old [][]byte) (string, []byte) {
	good := w.proof32(d, s.Nonce, nil, 0)
	kinds := []string{"altered", "payload-altered", "signature-altered", "nonce", "replay", "foreign-key", "other-device", "owner-key", "issuer-key", "truncated", "empty"}
	kind := kinds[w.Choose("badproof", len(kinds))]
	var c fs.CoseSignature
	fs.CborCust.Unmarshal(good, &c)
	switch kind {
	case "altered":
		b, what := w.mutateCbor(good, func(n *cnode) bool { return !strings.HasPrefix(n.path, "1") })
		return kind + " " + what, b
	case "payload-altered":
		b, what := w.mutateCbor(c.Payload, nil)
		c.Payload = b
		return kind + " " + what, mustCbor(c)
	case "signature-altered":
		switch w.Choose("sig.form", 4) {
		case 0:
			c.Signature = w.corrupt(c.Signature)
		case 1:
			c.Signature = nil
		case 2:
			c.Signature = make([]byte, len(c.Signature))
		case 3:
			c.Signature = append(c.Signature, 0)
		}
		return kind, mustCbor(c)
	case "nonce":
		n := []fs.FdoNonce{otherNonce, fs.NewFdoNonce(), {}}[w.Choose("nonce.kind", 3)]
		if n.Equals(s.Nonce) {
			n = fs.NewFdoNonce()
		}
		return kind, w.proof32(d, n, nil, 0)
	case "replay":
		if len(old) > 0 {
			return kind, old[w.Choose("replay.which", len(old))]
		}
		return "nonce", w.proof32(d, fs.NewFdoNonce(), nil, 0)
	case "other-device":
		return kind, w.proof32(other, s.Nonce, nil, 0)
	case "owner-key":
		return kind, w.proof32(d, s.Nonce, d.finalKey(), d.OwnerSg)
	case "issuer-key":
		k, sg := issuerKey()
		return kind, w.proof32(d, s.Nonce, k, sg)
	case "truncated":
		return kind, good[:w.Choose("trunc", len(good))]
	case "empty":
		return kind, nil
	}
	k, _, _ := w.foreignKey(d.DevSg, d, other)
	return "foreign-key", w.proof32(d, s.Nonce, k, d.DevSg)
}
