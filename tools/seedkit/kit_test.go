package do_test

// Helpers of the demonstrations: the repository's servers behind httptest, its
// clients, and a hand-driven device.

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"runtime/debug"
	"strings"
	"testing"

	"github.com/dgraph-io/badger/v4"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to1"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
	fdodo "github.com/fido-alliance/iot-fdo-conformance-tools/core/do"
	dodbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/do/dbs"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/do/to0"
	fdorv "github.com/fido-alliance/iot-fdo-conformance-tools/core/rv"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
)

const p256, p384 = fs.StSECP256R1, fs.StSECP384R1

type kit struct {
	t       *testing.T
	DB      *badger.DB
	URL     string
	Ctx     context.Context
	Mapping string
	srv     *httptest.Server
}

func newDB(t *testing.T) *badger.DB {
	o := badger.DefaultOptions("").WithInMemory(true).WithLogger(nil)
	db, err := badger.Open(o)
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { db.Close() })
	return db
}

func newKit(t *testing.T) *kit { return newKitWith(t, nil) }

func newKitWith(t *testing.T, set map[interface{}]interface{}) *kit {
	k := &kit{t: t, DB: newDB(t)}
	x := context.Background()
	base := map[interface{}]interface{}{
		fs.CFG_ENV_PORT: 8080, fs.CFG_DEV_ENV: fs.CFG_ENV_PROD, fs.CFG_ENV_INTEROP_DASHBOARD_URL: "", fs.CFG_ENV_INTEROP_ENABLED: false,
		fs.CFG_ENV_FDO_SERVICE_URL: "http://localhost:8080", fs.CFG_ENV_INTEROP_DASHBOARD_RV_AUTHZ: "", fs.CFG_ENV_INTEROP_DASHBOARD_DO_AUTHZ: "",
		fs.CFG_ENV_INTEROP_DO_TOKEN_MAPPING: "",
	}
	for a, b := range set {
		base[a] = b
	}
	for a, b := range base {
		x = context.WithValue(x, a, b)
	}
	k.Ctx = x
	k.start()
	return k
}

// start (re)starts the servers over the same database.
func (k *kit) start() {
	if k.srv != nil {
		k.srv.Close()
	}
	mux := http.NewServeMux()
	old := http.DefaultServeMux
	http.DefaultServeMux = mux
	fdodo.SetupServer(k.DB, k.Ctx)
	fdorv.SetupServer(k.DB, k.Ctx)
	http.DefaultServeMux = old
	k.srv = httptest.NewServer(mux)
	k.t.Cleanup(k.srv.Close)
	k.URL = k.srv.URL
}

func cb(v interface{}) []byte {
	b, err := fs.CborCust.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func recode(in, out interface{}) {
	if err := fs.CborCust.Unmarshal(cb(in), out); err != nil {
		panic(err)
	}
}

// dev is a device with the voucher of its owner.
type dev struct {
	Cred fs.WawDeviceCredential
	VDB  fs.VoucherDBEntry
	Keys []interface{}
	Sgs  []fs.SgType
}

func newCred(sg fs.SgType) fs.WawDeviceCredential {
	c, err := fs.NewWawDeviceCredential(sg)
	if err != nil {
		panic(err)
	}
	return *c
}

func rvInfo() fs.RendezvousInfo {
	i, err := fs.UrlsToRendezvousInfo([]string{"http://localhost:8080"})
	if err != nil {
		panic(err)
	}
	return i
}

// newDev makes a device whose voucher chain has keys of types sgs, manufacturer first.
func newDev(devSg fs.SgType, sgs ...fs.SgType) *dev { return devOf(newCred(devSg), sgs...) }

func devOf(cred fs.WawDeviceCredential, sgs ...fs.SgType) *dev {
	cred.UpdateToNewHashHmacTypes(fs.NegotiateHashHmacTypes(cred.DCSigInfo.SgType, sgs[len(sgs)-1]))
	mk := func(sg fs.SgType) (interface{}, *fs.FdoPublicKey, []byte) {
		priv, pub, err := fs.GenerateVoucherKeypair(sg)
		if err != nil {
			panic(err)
		}
		der, err := fs.MarshalPrivateKey(priv, sg)
		if err != nil {
			panic(err)
		}
		return priv, pub, der
	}
	mpriv, mpub, _ := mk(sgs[0])
	hb := cb(fs.OwnershipVoucherHeader{OVHProtVer: fs.ProtVer101, OVGuid: cred.DCGuid, OVRvInfo: rvInfo(), OVDeviceInfo: cred.DCDeviceInfo,
		OVPublicKey: *mpub, OVDevCertChainHash: &cred.DCCertificateChainHash})
	hmac, err := cred.UpdateWithManufacturerCred(hb, *mpub)
	if err != nil {
		panic(err)
	}
	info, _ := fs.GenerateFdoHash(append(append([]byte{}, cred.DCGuid[:]...), []byte(cred.DCDeviceInfo)...), cred.DCHashAlg)
	prev, _ := fs.GenerateFdoHash(append(append([]byte{}, hb...), cb(hmac)...), cred.DCHashAlg)
	var entries []fs.CoseSignature
	key, keys, der := mpriv, []interface{}{mpriv}, []byte(nil)
	for i := 1; i < len(sgs); i++ {
		npriv, npub, nder := mk(sgs[i])
		e, err := fs.GenerateCoseSignature(cb(fs.OVEntryPayload{OVEHashPrevEntry: prev, OVEHashHdrInfo: info, OVEPubKey: *npub}),
			fs.ProtectedHeader{}, fs.UnprotectedHeader{}, key, sgs[i-1])
		if err != nil {
			panic(err)
		}
		entries = append(entries, *e)
		prev, _ = fs.GenerateFdoHash(cb(*e), cred.DCHashAlg)
		key, der = npriv, nder
		keys = append(keys, npriv)
	}
	d := &dev{Cred: cred, Keys: keys, Sgs: sgs}
	d.VDB = fs.VoucherDBEntry{Voucher: fs.OwnershipVoucher{OVProtVer: fs.ProtVer101, OVHeaderTag: hb, OVHeaderHMac: *hmac,
		OVDevCertChain: &cred.DCCertificateChain, OVEntryArray: entries}, PrivateKeyX509: der}
	recode(d.VDB, &d.VDB)
	return d
}

func (d *dev) clone() *dev {
	o := &dev{Keys: append([]interface{}{}, d.Keys...), Sgs: append([]fs.SgType{}, d.Sgs...)}
	recode(d.Cred, &o.Cred)
	recode(d.VDB, &o.VDB)
	return o
}

func (d *dev) ownerSg() fs.SgType       { return d.Sgs[len(d.Sgs)-1] }
func (d *dev) ownerKey() interface{}    { return d.Keys[len(d.Keys)-1] }
func (d *dev) ownerPub() fs.FdoPublicKey {
	p, err := d.VDB.Voucher.GetFinalOwnerPublicKey()
	if err != nil {
		panic(err)
	}
	return p
}
func (d *dev) devKey() interface{} {
	p, err := fs.ExtractPrivateKey(d.Cred.DCPrivateKeyDer)
	if err != nil {
		panic(err)
	}
	return p
}

func (k *kit) store(d *dev) {
	if err := dodbs.NewVoucherDB(k.DB).Save(d.VDB); err != nil {
		k.t.Fatal(err)
	}
}

func guard(err *error) {
	if e := recover(); e != nil {
		*err = fmt.Errorf("client crashed: %v\n%s", e, debug.Stack())
	}
}

func (k *kit) to0(d *dev) (wait uint32, err error) {
	defer guard(&err)
	r := to0.NewTo0Requestor(fs.SRVEntry{SrvURL: k.URL}, d.VDB, k.Ctx)
	a, _, err := r.Hello20(testcom.NULL_TEST)
	if err != nil {
		return 0, err
	}
	b, _, err := r.OwnerSign22(a.NonceTO0Sign, testcom.NULL_TEST)
	if err != nil {
		return 0, err
	}
	return b.WaitSeconds, nil
}

func (k *kit) to1(d *dev) (blob *fs.CoseSignature, err error) {
	defer guard(&err)
	r := to1.NewTo1Requestor(fs.SRVEntry{SrvURL: k.URL}, d.Cred)
	a, _, err := r.HelloRV30(testcom.NULL_TEST)
	if err != nil {
		return nil, err
	}
	blob, _, err = r.ProveToRV32(*a, testcom.NULL_TEST)
	return blob, err
}

func kexFor(sg fs.SgType) fs.KexSuiteName {
	switch sg {
	case fs.StRSA2048:
		return fs.KEX_DHKEXid14
	case fs.StRSA3072:
		return fs.KEX_DHKEXid15
	case p384:
		return fs.KEX_ECDH384
	}
	return fs.KEX_ECDH256
}

type to2Out struct {
	Entries int
	Sims    []fs.ServiceInfoKV
	Header  []byte
	Done    bool
}

type to2Opt struct {
	URL    string
	Kex    fs.KexSuiteName
	Cipher fs.CipherSuiteName
	Sims   []fs.ServiceInfoKV
	Stage  func(stage string, r *to2.To2Requestor)
}

// to2 is a whole ownership transfer by the repository's device client, one service-info entry per message.
func (k *kit) to2(d *dev, o to2Opt) (out to2Out, err error) {
	defer guard(&err)
	if o.URL == "" {
		o.URL = k.URL
	}
	if o.Kex == "" {
		o.Kex = kexFor(d.ownerSg())
	}
	if o.Cipher == 0 {
		o.Cipher = fs.CIPHER_A128GCM
	}
	if o.Sims == nil {
		o.Sims = fs.GetDeviceOSSims()
	}
	r := to2.NewTo2Requestor(fs.SRVEntry{SrvURL: o.URL}, d.Cred, o.Kex, o.Cipher)
	at := func(s string) {
		if o.Stage != nil {
			o.Stage(s, &r)
		}
	}
	at("60")
	p61, _, err := r.HelloDevice60(testcom.NULL_TEST)
	if err != nil {
		return out, fmt.Errorf("60: %w", err)
	}
	out.Header = p61.OVHeader
	var es fs.OVEntryArray
	at("62")
	for i := 0; i < int(p61.NumOVEntries); i++ {
		e, _, err := r.GetOVNextEntry62(uint8(i), testcom.NULL_TEST)
		if err != nil {
			return out, fmt.Errorf("62: %w", err)
		}
		if int(e.OVEntryNum) != i {
			return out, errors.New("62: wrong entry number")
		}
		es = append(es, e.OVEntry)
	}
	out.Entries = len(es)
	if err := es.VerifyEntries(p61.OVHeader, p61.HMac); err != nil {
		return out, fmt.Errorf("verify: %w", err)
	}
	last, err := es[len(es)-1].GetOVEntryPubKey()
	if err != nil {
		return out, err
	}
	if err := r.ProveOVHdr61PubKey.Equal(last); err != nil {
		return out, fmt.Errorf("verify: %w", err)
	}
	at("64")
	if _, _, err := r.ProveDevice64(testcom.NULL_TEST); err != nil {
		return out, fmt.Errorf("64: %w", err)
	}
	at("66")
	if _, _, err := r.DeviceServiceInfoReady66(testcom.NULL_TEST); err != nil {
		return out, fmt.Errorf("66: %w", err)
	}
	at("68")
	done := false
	for i := range o.Sims {
		rep, _, err := r.DeviceServiceInfo68(fs.DeviceServiceInfo68{IsMoreServiceInfo: i < len(o.Sims)-1, ServiceInfo: o.Sims[i : i+1]}, testcom.NULL_TEST)
		if err != nil {
			return out, fmt.Errorf("68: %w", err)
		}
		out.Sims = append(out.Sims, rep.ServiceInfo...)
		done = rep.IsDone
	}
	for n := 0; !done; n++ {
		if n > 40 {
			return out, errors.New("68: never done")
		}
		rep, _, err := r.DeviceServiceInfo68(fs.DeviceServiceInfo68{ServiceInfo: []fs.ServiceInfoKV{}}, testcom.NULL_TEST)
		if err != nil {
			return out, fmt.Errorf("68: %w", err)
		}
		out.Sims = append(out.Sims, rep.ServiceInfo...)
		done = rep.IsDone
	}
	at("70")
	if _, _, err := r.Done70(testcom.NULL_TEST); err != nil {
		return out, fmt.Errorf("70: %w", err)
	}
	out.Done = true
	return out, nil
}

// ---------------------------------------------------------------- by hand

type reply struct {
	Status int
	Head   http.Header
	Body   []byte
}

func (r reply) ok() bool { return r.Status == 200 }

func (k *kit) post(cmd int, token string, body []byte) reply {
	return k.postTo(k.URL, cmd, token, body)
}

func (k *kit) postTo(url string, cmd int, token string, body []byte) reply {
	q, _ := http.NewRequest("POST", fmt.Sprintf("%s/fdo/101/msg/%d", url, cmd), bytes.NewReader(body))
	q.Header.Set("Content-Type", fs.CONTENT_TYPE_CBOR)
	if token != "" {
		q.Header.Set("Authorization", token)
	}
	p, err := http.DefaultClient.Do(q)
	if err != nil {
		return reply{Status: -1, Head: http.Header{}, Body: []byte(err.Error())}
	}
	b, _ := io.ReadAll(p.Body)
	p.Body.Close()
	return reply{p.StatusCode, p.Header, b}
}

// sess is a hand-driven device in one ownership transfer session.
type sess struct {
	k      *kit
	d      *dev
	Kex    fs.KexSuiteName
	Cipher fs.CipherSuiteName
	Token  string
	N61    fs.FdoNonce
	P61    fs.TO2ProveOVHdrPayload
	Key    fs.SessionKeyInfo
	proof  []byte
	xb     []byte
}

func (k *kit) session(d *dev, cipher fs.CipherSuiteName) *sess {
	s := &sess{k: k, d: d, Kex: kexFor(d.ownerSg()), Cipher: cipher}
	r := k.post(60, "", cb(fs.HelloDevice60{MaxDeviceMessageSize: 2048, Guid: d.Cred.DCGuid, NonceTO2ProveOV: fs.NewFdoNonce(), KexSuiteName: s.Kex,
		CipherSuiteName: cipher, EASigInfo: d.Cred.DCSigInfo}))
	if !r.ok() {
		k.t.Fatal("60 refused: ", string(r.Body))
	}
	var c fs.CoseSignature
	decode(r.Body, &c)
	if err := fs.CborCust.Unmarshal(c.Payload, &s.P61); err != nil {
		k.t.Fatal(err)
	}
	s.Token, s.N61 = r.Head.Get("Authorization"), *c.Unprotected.CUPHNonce
	return s
}

func (s *sess) post(cmd int, body []byte) reply { return s.k.post(cmd, s.Token, body) }
func (s *sess) entries() {
	for i := 0; i < int(s.P61.NumOVEntries); i++ {
		if r := s.b62(i); !r.ok() {
			s.k.t.Fatal("62 refused: ", string(r.Body))
		}
	}
}
func (s *sess) b62(i int) reply { return s.post(62, cb(fs.GetOVNextEntry62{GetOVNextEntry: uint8(i)})) }

func (s *sess) share() {
	if s.xb == nil {
		pub := s.d.ownerPub()
		x, err := fs.GenerateXABKeyExchange(s.Kex, &pub)
		if err != nil {
			s.k.t.Fatal(err)
		}
		key, err := fs.DeriveSessionKey(*x, s.P61.XAKeyExchange, true, nil)
		if err != nil {
			s.k.t.Fatal(err)
		}
		s.Key, s.xb = *key, x.XAKeyExchange
	}
}

// proofBy is a device proof over nonce by the given key.
func (s *sess) proofBy(nonce fs.FdoNonce, key interface{}, sg fs.SgType) []byte {
	s.share()
	n := fs.NewFdoNonce()
	c, err := fs.GenerateCoseSignature(cb(fs.EATPayloadBase{EatNonce: nonce, EatUEID: fs.GenerateEatGuid(s.d.Cred.DCGuid), EatFDO: fs.TO2ProveDevicePayload{XBKeyExchange: s.xb}}),
		fs.ProtectedHeader{}, fs.UnprotectedHeader{EUPHNonce: &n}, key, sg)
	if err != nil {
		s.k.t.Fatal(err)
	}
	return cb(*c)
}

func (s *sess) b64() []byte {
	if s.proof == nil {
		s.proof = s.proofBy(s.N61, s.d.devKey(), s.d.Cred.DCSigInfo.SgType)
	}
	return s.proof
}

func (s *sess) seal(plain []byte) []byte {
	s.share()
	e, err := fs.AddEncryptionWrapping(plain, s.Key, s.Cipher)
	if err != nil {
		s.k.t.Fatal(err)
	}
	return e
}
func (s *sess) open(r reply, out interface{}) {
	b, err := fs.RemoveEncryptionWrapping(r.Body, s.Key, s.Cipher)
	if err != nil {
		s.k.t.Fatal("reply does not decrypt: ", err)
	}
	if err := fs.CborCust.Unmarshal(b, out); err != nil {
		s.k.t.Fatal(err)
	}
}
func (s *sess) b66() []byte {
	sz := uint16(1300)
	return s.seal(cb(fs.DeviceServiceInfoReady66{ReplacementHMac: &s.P61.HMac, MaxOwnerServiceInfoSz: &sz}))
}
func (s *sess) b68(more bool, sims ...fs.ServiceInfoKV) []byte {
	if sims == nil {
		sims = []fs.ServiceInfoKV{}
	}
	return s.seal(cb(fs.DeviceServiceInfo68{IsMoreServiceInfo: more, ServiceInfo: sims}))
}
func (s *sess) b70() []byte { return s.seal(cb(fs.Done70{NonceTO2ProveDv: s.N61})) }

func (s *sess) must(what string, r reply) reply {
	s.k.t.Helper()
	if !r.ok() {
		s.k.t.Fatalf("%s refused: %d %s", what, r.Status, r.Body)
	}
	return r
}

// proven brings the session past 64, ready past 66.
func (s *sess) proven() *sess { s.entries(); s.must("64", s.post(64, s.b64())); return s }
func (s *sess) ready() *sess  { s.proven(); s.must("66", s.post(66, s.b66())); return s }

// finish goes from ready to done.
func (s *sess) finish() {
	s.k.t.Helper()
	s.must("68", s.post(68, s.b68(false, fs.GetDeviceOSSims()...)))
	s.must("70", s.post(70, s.b70()))
}

// proxy forwards to the servers; f may change a reply's body (or return nil to leave it).
func (k *kit) proxy(f func(cmd string, req, rep []byte) []byte) string {
	p := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		q, _ := http.NewRequest(r.Method, k.URL+r.URL.Path, bytes.NewReader(b))
		q.Header = r.Header
		resp, err := http.DefaultClient.Do(q)
		if err != nil {
			w.WriteHeader(502)
			return
		}
		rb, _ := io.ReadAll(resp.Body)
		resp.Body.Close()
		cmd := r.URL.Path[strings.LastIndex(r.URL.Path, "/")+1:]
		if n := f(cmd, b, rb); n != nil {
			rb = n
		}
		for a, v := range resp.Header {
			if a != "Content-Length" {
				w.Header()[a] = v
			}
		}
		w.WriteHeader(resp.StatusCode)
		w.Write(rb)
	}))
	k.t.Cleanup(p.Close)
	return p.URL
}

// ---------------------------------------------------------------- registration by hand

type reg struct {
	Voucher *fs.OwnershipVoucher
	Wait    uint32
	Nonce   *fs.FdoNonce
	Key     interface{}
	Sg      fs.SgType
	Addrs   []fs.RVTO2AddrEntry
	Hash    *fs.HashOrHmac
	HashAlg fs.HashType
}

func (k *kit) hello20() (string, fs.FdoNonce) {
	r := k.post(20, "", cb(fs.Hello20{}))
	if !r.ok() {
		k.t.Fatal("20 refused")
	}
	var a fs.HelloAck21
	decode(r.Body, &a)
	return r.Head.Get("Authorization"), a.NonceTO0Sign
}

func addrs(host string) []fs.RVTO2AddrEntry {
	dns := host
	return []fs.RVTO2AddrEntry{{RVDNS: &dns, RVPort: 8080, RVProtocol: fs.ProtHTTP}}
}

// sign22 is an OwnerSign message for d, by default a correct one.
func (k *kit) sign22(d *dev, nonce fs.FdoNonce, q reg) []byte {
	v := d.VDB.Voucher
	if q.Voucher != nil {
		v = *q.Voucher
	}
	if q.Wait == 0 {
		q.Wait = 3600
	}
	if q.Key == nil {
		q.Key, q.Sg = d.ownerKey(), d.ownerSg()
	}
	if q.Addrs == nil {
		q.Addrs = addrs("owner.example")
	}
	if q.HashAlg == 0 {
		q.HashAlg = d.Cred.DCHashAlg
	}
	t0 := cb(fs.To0d{OwnershipVoucher: v, WaitSeconds: q.Wait, NonceTO0Sign: nonce})
	h := q.Hash
	if h == nil {
		x, err := fs.GenerateFdoHash(t0, q.HashAlg)
		if err != nil {
			k.t.Fatal(err)
		}
		h = &x
	}
	c, err := fs.GenerateCoseSignature(cb(fs.To1dBlobPayload{To1dRV: q.Addrs, To1dTo0dHash: *h}), fs.ProtectedHeader{}, fs.UnprotectedHeader{}, q.Key, q.Sg)
	if err != nil {
		k.t.Fatal(err)
	}
	return cb(fs.OwnerSign22{To0d: t0, To1d: *c})
}

func (k *kit) register(d *dev, q reg) reply {
	tok, n := k.hello20()
	return k.post(22, tok, k.sign22(d, n, q))
}

// blobHost is the address in a blob.
func blobHost(b *fs.CoseSignature) string {
	var p fs.To1dBlobPayload
	if b == nil || fs.CborCust.Unmarshal(b.Payload, &p) != nil || len(p.To1dRV) == 0 || p.To1dRV[0].RVDNS == nil {
		return ""
	}
	return *p.To1dRV[0].RVDNS
}

func decode(b []byte, out interface{}) {
	if err := fs.CborCust.Unmarshal(b, out); err != nil {
		panic(err)
	}
}
