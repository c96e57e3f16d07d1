package fdosim

// Actors built from the repository's own client code: owners registering
// (TO0), devices looking up (TO1) and transferring ownership (TO2).

import (
	"bytes"
	"context"
	"crypto/rsa"
	"crypto/x509"
	"errors"
	"fmt"
	"net/http"
	"runtime/debug"
	"time"

	"github.com/fido-alliance/iot-fdo-conformance-tools/api"
	fdodev "github.com/fido-alliance/iot-fdo-conformance-tools/core/device"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to1"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
	fdodo "github.com/fido-alliance/iot-fdo-conformance-tools/core/do"
	dodbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/do/dbs"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/do/to0"
	fdorv "github.com/fido-alliance/iot-fdo-conformance-tools/core/rv"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
)

// ------------------------------------------------------------ configuration

type envCfg struct {
	ServiceURL   string
	Interop      bool
	DashURL      string
	RVAuthz      string
	DOAuthz      string
	TokenMapping string
	DevEnv       string
}

func (c envCfg) ctx() context.Context {
	x := context.Background()
	x = context.WithValue(x, fs.CFG_ENV_PORT, 8080)
	dev := c.DevEnv
	if dev == "" {
		dev = fs.CFG_ENV_PROD
	}
	x = context.WithValue(x, fs.CFG_DEV_ENV, dev)
	x = context.WithValue(x, fs.CFG_ENV_INTEROP_DASHBOARD_URL, c.DashURL)
	x = context.WithValue(x, fs.CFG_ENV_INTEROP_ENABLED, c.Interop)
	u := c.ServiceURL
	if u == "" {
		u = "http://localhost:8080"
	}
	x = context.WithValue(x, fs.CFG_ENV_FDO_SERVICE_URL, u)
	x = context.WithValue(x, fs.CFG_ENV_INTEROP_DASHBOARD_RV_AUTHZ, c.RVAuthz)
	x = context.WithValue(x, fs.CFG_ENV_INTEROP_DASHBOARD_DO_AUTHZ, c.DOAuthz)
	x = context.WithValue(x, fs.CFG_ENV_INTEROP_DO_TOKEN_MAPPING, c.TokenMapping)
	return x
}

// serve composes a server process the way "serve" does: the listed services
// of the real code over one database and one mux.
func serve(cfg *envCfg, services string) func(n *Node) http.Handler {
	return func(n *Node) http.Handler {
		mux := http.NewServeMux()
		http.DefaultServeMux = mux
		ctx := cfg.ctx()
		for _, s := range services {
			switch s {
			case 'd':
				fdodo.SetupServer(n.Store.DB, ctx)
			case 'r':
				fdorv.SetupServer(n.Store.DB, ctx)
			case 'a':
				api.SetupServer(n.Store.DB, ctx)
			}
		}
		return mux
	}
}

// ------------------------------------------------------------ devices

// Dev is one device of a run: credential plus the voucher its owner holds.
type Dev struct {
	Name    string
	Cred    fs.WawDeviceCredential
	VDB     fs.VoucherDBEntry
	DevSg   fs.SgType
	OwnerSg fs.SgType // type of the final owner key
	Chain   int
	Keys    []interface{} // private keys along the chain, manufacturer first (built devices only)
	Sgs     []fs.SgType
}

func (d *Dev) Guid() fs.FdoGuid { return d.Cred.DCGuid }

func (d *Dev) Desc() string {
	return fmt.Sprintf("%s dev=%s owner=%s chain=%d", d.Name, sgName(d.DevSg), sgName(d.OwnerSg), d.Chain)
}

// PoolDevice draws a device (with a voucher made by the real generator).
func (w *World) PoolDevice(name string) *Dev {
	return w.poolDeviceAt(name, w.Choose("pool.dev", len(pool.Devs)))
}

func (w *World) poolDeviceAt(name string, i int) *Dev {
	p := pool.Devs[i%len(pool.Devs)]
	return &Dev{Name: name, Cred: cloneCred(p.Cred), VDB: cloneVDB(p.VDB), DevSg: p.DevSg, OwnerSg: p.OwnerSg, Chain: len(p.VDB.Voucher.OVEntryArray)}
}

func cloneCred(c fs.WawDeviceCredential) fs.WawDeviceCredential {
	var o fs.WawDeviceCredential
	recode(c, &o)
	return o
}

func cloneVDB(c fs.VoucherDBEntry) fs.VoucherDBEntry {
	var o fs.VoucherDBEntry
	recode(c, &o)
	return o
}

func recode(in, out interface{}) {
	b, err := fs.CborCust.Marshal(in)
	if err != nil {
		panic("harness: encode: " + err.Error())
	}
	if err := fs.CborCust.Unmarshal(b, out); err != nil {
		panic("harness: decode: " + err.Error())
	}
}

func mustCbor(v interface{}) []byte {
	b, err := fs.CborCust.Marshal(v)
	if err != nil {
		panic("harness: encode: " + err.Error())
	}
	return b
}

// ownerKey makes a key pair of the given type; RSA keys come from the pool.
func (w *World) ownerKey(sg fs.SgType, nth int) (interface{}, *fs.FdoPublicKey, []byte) {
	if sg == fs.StRSA2048 || sg == fs.StRSA3072 {
		var ks []PoolKey
		for _, k := range pool.Keys {
			if k.Sg == sg {
				ks = append(ks, k)
			}
		}
		k := ks[nth%len(ks)]
		priv, err := x509.ParsePKCS8PrivateKey(k.Der)
		if err != nil {
			panic(err)
		}
		pub, err := x509.MarshalPKIXPublicKey(&priv.(*rsa.PrivateKey).PublicKey)
		if err != nil {
			panic(err)
		}
		return priv, &fs.FdoPublicKey{PkType: fs.SgTypeToFdoPkType[sg], PkEnc: fs.X509, PkBody: pub}, k.Der
	}
	priv, pub, err := fs.GenerateVoucherKeypair(sg)
	if err != nil {
		panic("harness: keygen: " + err.Error())
	}
	der, err := fs.MarshalPrivateKey(priv, sg)
	if err != nil {
		panic(err)
	}
	return priv, pub, der
}

// BuildDevice makes a device whose voucher chain has the given key types
// (sgs[0] manufacturer, then one per entry).
func (w *World) BuildDevice(name string, cred fs.WawDeviceCredential, sgs []fs.SgType) *Dev {
	return w.buildDevice(name, cred, sgs, defaultRvInfo())
}

func (w *World) buildDevice(name string, credIn fs.WawDeviceCredential, sgs []fs.SgType, rv fs.RendezvousInfo) *Dev {
	cred := cloneCred(credIn)
	cred.UpdateToNewHashHmacTypes(fs.NegotiateHashHmacTypes(cred.DCSigInfo.SgType, sgs[len(sgs)-1]))
	mpriv, mpub, _ := w.ownerKey(sgs[0], 0)
	hdr := fs.OwnershipVoucherHeader{OVHProtVer: fs.ProtVer101, OVGuid: cred.DCGuid, OVRvInfo: rv, OVDeviceInfo: cred.DCDeviceInfo,
		OVPublicKey: *mpub, OVDevCertChainHash: &cred.DCCertificateChainHash}
	hb := mustCbor(hdr)
	hmac, err := cred.UpdateWithManufacturerCred(hb, *mpub)
	if err != nil {
		panic(err)
	}
	info, _ := fs.GenerateFdoHash(append(append([]byte{}, cred.DCGuid[:]...), []byte(cred.DCDeviceInfo)...), cred.DCHashAlg)
	prev, _ := fs.GenerateFdoHash(append(append([]byte{}, hb...), mustCbor(hmac)...), cred.DCHashAlg)
	var entries []fs.CoseSignature
	key := mpriv
	keys := []interface{}{mpriv}
	var der []byte
	for i := 1; i < len(sgs); i++ {
		npriv, npub, nder := w.ownerKey(sgs[i], i)
		e, err := fs.GenerateCoseSignature(mustCbor(fs.OVEntryPayload{OVEHashPrevEntry: prev, OVEHashHdrInfo: info, OVEPubKey: *npub}),
			fs.ProtectedHeader{}, fs.UnprotectedHeader{}, key, sgs[i-1])
		if err != nil {
			panic("harness: entry: " + err.Error())
		}
		entries = append(entries, *e)
		prev, _ = fs.GenerateFdoHash(mustCbor(*e), cred.DCHashAlg)
		key, der = npriv, nder
		keys = append(keys, npriv)
	}
	d := &Dev{Keys: keys, Sgs: append([]fs.SgType{}, sgs...), Name: name, Cred: cred, DevSg: cred.DCSigInfo.SgType, OwnerSg: sgs[len(sgs)-1], Chain: len(entries)}
	d.VDB = fs.VoucherDBEntry{Voucher: fs.OwnershipVoucher{OVProtVer: fs.ProtVer101, OVHeaderTag: hb, OVHeaderHMac: *hmac,
		OVDevCertChain: &cred.DCCertificateChain, OVEntryArray: entries}, PrivateKeyX509: der}
	recode(d.VDB, &d.VDB)
	return d
}

var _ = fdodev.NewVirtualDeviceAndVoucher

// chosenDevice draws a device: mostly with a chain built to measure (every
// length), otherwise one whose voucher the real generator made.
func (w *World) chosenDevice(name string, maxChain int) *Dev {
	if w.Choose("dev.kind", 3) == 0 {
		return w.PoolDevice(name)
	}
	var cands []fs.WawDeviceCredential
	cands = pool.Creds
	cred := cands[w.Choose("dev.cred", len(cands))]
	n := 1 + w.Choose("dev.chain", maxChain)
	sgs := []fs.SgType{}
	mixed := w.Choose("dev.mixed", 3) == 2
	sg := ownerSgs[w.Choose("dev.ownersg", len(ownerSgs))]
	for i := 0; i <= n; i++ {
		if mixed && i < n {
			sgs = append(sgs, ownerSgs[w.Choose("dev.entrysg", len(ownerSgs))])
		} else {
			sgs = append(sgs, sg)
		}
	}
	return w.BuildDevice(name, cred, sgs)
}

// distinctDevice draws a device whose identity is not among used.
func (w *World) distinctDevice(name string, maxChain int, used map[fs.FdoGuid]bool) *Dev {
	for k := 0; k < 4; k++ {
		d := w.chosenDevice(name, maxChain)
		if !used[d.Guid()] {
			used[d.Guid()] = true
			return d
		}
	}
	for i := range pool.Devs {
		d := w.poolDeviceAt(name, i)
		if !used[d.Guid()] {
			used[d.Guid()] = true
			return d
		}
	}
	panic("harness: pool exhausted")
}

func kexFor(ownerSg fs.SgType) []fs.KexSuiteName {
	switch ownerSg {
	case fs.StRSA2048:
		return []fs.KexSuiteName{fs.KEX_DHKEXid14, fs.KEX_ASYMKEX2048}
	case fs.StRSA3072:
		return []fs.KexSuiteName{fs.KEX_DHKEXid15, fs.KEX_ASYMKEX3072}
	case fs.StSECP384R1:
		return []fs.KexSuiteName{fs.KEX_ECDH384}
	}
	return []fs.KexSuiteName{fs.KEX_ECDH256}
}

var goodCiphers = []fs.CipherSuiteName{fs.CIPHER_A128GCM, fs.CIPHER_A256GCM, fs.CIPHER_AES_CCM_16_128_128, fs.CIPHER_AES_CCM_16_128_256,
	fs.CIPHER_AES_CCM_64_128_128, fs.CIPHER_AES_CCM_64_128_256, fs.CIPHER_COSE_AES128_CTR}

// storeVoucher puts the device's voucher into the owner's store before the run starts.
func (w *World) storeVoucher(st *Storage, d *Dev) {
	if err := dodbs.NewVoucherDB(st.DB).Save(d.VDB); err != nil {
		panic("harness: voucher save: " + err.Error())
	}
}

// PanicError is a crash of the client code under test.
type PanicError struct{ Val, Site string }

func (p PanicError) Error() string { return "client crashed: " + p.Val + " in " + p.Site }

func clientPanic(err *error) {
	if e := recover(); e != nil {
		*err = PanicError{fmt.Sprint(e), panicSite(debug.Stack())}
		if theWorld != nil {
			theWorld.Count("client_panics")
		}
	}
}

// ------------------------------------------------------------ TO0

type To0Result struct {
	Err   error
	Wait  uint32
	Nonce fs.FdoNonce
}

// RunTo0 registers d at url with the real owner client.
func RunTo0(cfg envCfg, url string, d *Dev) (res To0Result) {
	defer clientPanic(&res.Err)
	r := to0.NewTo0Requestor(fs.SRVEntry{SrvURL: url}, d.VDB, cfg.ctx())
	ack, _, err := r.Hello20(testcom.NULL_TEST)
	if err != nil {
		return To0Result{Err: fmt.Errorf("20: %w", err)}
	}
	if ack == nil {
		return To0Result{Err: errors.New("20: nil reply")}
	}
	acc, _, err := r.OwnerSign22(ack.NonceTO0Sign, testcom.NULL_TEST)
	if err != nil {
		return To0Result{Err: fmt.Errorf("22: %w", err)}
	}
	if acc == nil {
		return To0Result{Err: errors.New("22: nil reply")}
	}
	return To0Result{Wait: acc.WaitSeconds, Nonce: ack.NonceTO0Sign}
}

// ------------------------------------------------------------ TO1

type To1Result struct {
	Err   error
	Blob  *fs.CoseSignature
	Addr  []fs.RVTO2AddrEntry
	Nonce fs.FdoNonce
}

func RunTo1(url string, d *Dev) (res To1Result) {
	defer clientPanic(&res.Err)
	r := to1.NewTo1Requestor(fs.SRVEntry{SrvURL: url}, d.Cred)
	ack, _, err := r.HelloRV30(testcom.NULL_TEST)
	if err != nil {
		return To1Result{Err: fmt.Errorf("30: %w", err)}
	}
	if ack == nil {
		return To1Result{Err: errors.New("30: nil reply")}
	}
	blob, _, err := r.ProveToRV32(*ack, testcom.NULL_TEST)
	if err != nil {
		return To1Result{Err: fmt.Errorf("32: %w", err)}
	}
	if blob == nil {
		return To1Result{Err: errors.New("32: nil reply")}
	}
	var pl fs.To1dBlobPayload
	if err := fs.CborCust.Unmarshal(blob.Payload, &pl); err != nil {
		return To1Result{Err: fmt.Errorf("33 payload: %w", err)}
	}
	return To1Result{Blob: blob, Addr: pl.To1dRV, Nonce: ack.NonceTO1Proof}
}

// ------------------------------------------------------------ TO2

type To2Result struct {
	Err       error
	Stage     string // stage reached: "60".."70", "done"
	Req       *to2.To2Requestor
	OwnerSims []fs.ServiceInfoKV
	Rounds    int
	Header    []byte
	Done71    *fs.Done271
	Setup     *fs.TO2SetupDevicePayload
}

type To2Opt struct {
	Kex       fs.KexSuiteName
	Cipher    fs.CipherSuiteName
	Sims      []fs.ServiceInfoKV
	PerMsg    int  // device service-info entries per message
	TailEmpty bool // like the CLI: every entry is sent with "more", then empty messages
	MaxRounds int
	Mutate    func(stage string, r *to2.To2Requestor)
}

// RunTo2 is the device's ownership transfer, composed the way the CLI's
// virtual device composes it.
func RunTo2(url string, d *Dev, o To2Opt) (res To2Result) {
	stage := "60"
	defer func() {
		if res.Stage == "" {
			res.Stage = stage
		}
	}()
	defer clientPanic(&res.Err)
	inst := to2.NewTo2Requestor(fs.SRVEntry{SrvURL: url}, d.Cred, o.Kex, o.Cipher)
	res.Req = &inst
	at := func(s string) {
		stage = s
		if o.Mutate != nil {
			o.Mutate(s, &inst)
		}
	}
	at("60")
	p61, _, err := inst.HelloDevice60(testcom.NULL_TEST)
	if err != nil {
		res.Err = fmt.Errorf("60: %w", err)
		return
	}
	if p61 == nil {
		res.Err = errors.New("60: nil reply")
		return
	}
	res.Header = p61.OVHeader
	at("62")
	var entries []fs.CoseSignature
	for i := 0; i < int(p61.NumOVEntries); i++ {
		e, _, err := inst.GetOVNextEntry62(uint8(i), testcom.NULL_TEST)
		if err != nil {
			res.Err = fmt.Errorf("62: %w", err)
			return
		}
		if e == nil {
			res.Err = errors.New("62: nil reply")
			return
		}
		if e.OVEntryNum != uint8(i) {
			res.Err = fmt.Errorf("62: wrong entry number %d, want %d", e.OVEntryNum, i)
			return
		}
		entries = append(entries, e.OVEntry)
	}
	stage = "verify"
	if err := fs.OVEntryArray(entries).VerifyEntries(p61.OVHeader, p61.HMac); err != nil {
		res.Err = fmt.Errorf("verify: %w", err)
		return
	}
	if len(entries) == 0 {
		res.Err = errors.New("verify: no entries")
		return
	}
	last := entries[len(entries)-1]
	lk, err := last.GetOVEntryPubKey()
	if err != nil {
		res.Err = fmt.Errorf("verify: %w", err)
		return
	}
	if err := inst.ProveOVHdr61PubKey.Equal(lk); err != nil {
		res.Err = fmt.Errorf("verify: %w", err)
		return
	}
	at("64")
	setup, _, err := inst.ProveDevice64(testcom.NULL_TEST)
	if err != nil {
		res.Err = fmt.Errorf("64: %w", err)
		return
	}
	res.Setup = setup
	at("66")
	if _, _, err := inst.DeviceServiceInfoReady66(testcom.NULL_TEST); err != nil {
		res.Err = fmt.Errorf("66: %w", err)
		return
	}
	at("68")
	per := o.PerMsg
	if per <= 0 {
		per = 1
	}
	maxRounds := o.MaxRounds
	if maxRounds == 0 {
		maxRounds = 64
	}
	sims := o.Sims
	done := false
	for len(sims) > 0 {
		n := per
		if n > len(sims) {
			n = len(sims)
		}
		more := o.TailEmpty || n < len(sims)
		rep, _, err := inst.DeviceServiceInfo68(fs.DeviceServiceInfo68{IsMoreServiceInfo: more, ServiceInfo: sims[:n]}, testcom.NULL_TEST)
		res.Rounds++
		if err != nil {
			res.Err = fmt.Errorf("68: %w", err)
			return
		}
		if rep == nil {
			res.Err = errors.New("68: nil reply")
			return
		}
		sims = sims[n:]
		if more {
			if rep.IsDone || len(rep.ServiceInfo) != 0 {
				res.Err = errors.New("68: owner sent service info or done while the device has more")
				return
			}
		} else {
			res.OwnerSims = append(res.OwnerSims, rep.ServiceInfo...)
			done = rep.IsDone
		}
	}
	for !done {
		if res.Rounds > maxRounds {
			res.Err = errors.New("68: owner never done")
			return
		}
		rep, _, err := inst.DeviceServiceInfo68(fs.DeviceServiceInfo68{ServiceInfo: []fs.ServiceInfoKV{}}, testcom.NULL_TEST)
		res.Rounds++
		if err != nil {
			res.Err = fmt.Errorf("68: %w", err)
			return
		}
		if rep == nil {
			res.Err = errors.New("68: nil reply")
			return
		}
		res.OwnerSims = append(res.OwnerSims, rep.ServiceInfo...)
		done = rep.IsDone
	}
	at("70")
	d71, _, err := inst.Done70(testcom.NULL_TEST)
	if err != nil {
		res.Err = fmt.Errorf("70: %w", err)
		return
	}
	res.Done71 = d71
	res.Stage = "done"
	return
}

func (w *World) chosenOpt(d *Dev) To2Opt {
	ks := kexFor(d.OwnerSg)
	o := To2Opt{Kex: ks[w.Choose("kex", len(ks))], Cipher: goodCiphers[w.Choose("cipher", len(goodCiphers))], Sims: fs.GetDeviceOSSims()}
	o.PerMsg = 1 + w.Choose("sims.permsg", len(o.Sims))
	o.TailEmpty = w.Choose("sims.tail", 2) == 1
	return o
}

var _ = bytes.Equal
var _ = time.Second

// foreignKey makes a key of the given type that no owner of d ever held.
func (w *World) foreignKey(sg fs.SgType, ds ...*Dev) (interface{}, *fs.FdoPublicKey, []byte) {
	var have [][]byte
	add := func(p fs.FdoPublicKey) { have = append(have, mustCbor(p.PkBody)) }
	for _, d := range ds {
		if h, err := d.VDB.Voucher.GetOVHeader(); err == nil {
			add(h.OVPublicKey)
		}
		for _, e := range d.VDB.Voucher.OVEntryArray {
			if p, err := e.GetOVEntryPubKey(); err == nil {
				add(p)
			}
		}
	}
	for i := w.Choose("foreign.key", 16); ; i++ {
		priv, pub, der := w.ownerKey(sg, i)
		b := mustCbor(pub.PkBody)
		dup := false
		for _, h := range have {
			dup = dup || bytes.Equal(h, b)
		}
		if !dup {
			return priv, pub, der
		}
	}
}
