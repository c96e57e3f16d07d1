package fdosim

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	fdodev "github.com/fido-alliance/iot-fdo-conformance-tools/core/device"
	dodbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/do/dbs"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/request"
	"github.com/fido-alliance/iot-fdo-conformance-tools/dbs"

	"fdosim/fdomain"
)

func init() { scenarios["C17"] = scenC17 }

// C17: the tools are seeded, crash and are seeded again; vouchers are loaded, replaced,
// listed and pushed under faults; the vouchers of tests are examined. Everything stored is
// judged by an independent reading of it.

func scenC17(w *World) {
	defer rand.SimSetYield(nil)
	switch w.Choose("mode", 6) {
	case 0, 1:
		w.seeding()
	case 2, 3:
		w.voucherStore()
	case 4:
		w.testVouchers()
	default:
		w.generator()
	}
	if w.endErr != "" && len(w.violations) == 0 {
		w.Violate("no-progress", "the run did not end: %s", w.endErr)
	}
}

// ------------------------------------------------------------ independent readings

func refHmac(t fs.HashType, key, b []byte) []byte {
	switch t {
	case fs.HASH_HMAC_SHA256:
		h := hmac.New(sha256.New, key)
		h.Write(b)
		return h.Sum(nil)
	case fs.HASH_HMAC_SHA384:
		h := hmac.New(sha512.New384, key)
		h.Write(b)
		return h.Sum(nil)
	}
	return nil
}

// sameKey tells whether a private key in DER belongs to a public key.
func sameKey(der []byte, pub interface{}) bool {
	var k interface{}
	k, err := x509.ParsePKCS8PrivateKey(der)
	if err != nil {
		if k, err = x509.ParseECPrivateKey(der); err != nil {
			if k, err = x509.ParsePKCS1PrivateKey(der); err != nil {
				return false
			}
		}
	}
	switch k := k.(type) {
	case *ecdsa.PrivateKey:
		return k.PublicKey.Equal(pub)
	case *rsa.PrivateKey:
		return k.PublicKey.Equal(pub)
	}
	return false
}

// badCredential tells what is wrong with a device credential ("" if nothing).
func badCredential(c fs.WawDeviceCredential) string {
	if len(c.DCCertificateChain) < 2 {
		return "no certificate chain"
	}
	var certs []*x509.Certificate
	var all []byte
	for _, b := range c.DCCertificateChain {
		x, err := x509.ParseCertificate(b)
		if err != nil {
			return "a certificate does not decode"
		}
		certs = append(certs, x)
		all = append(all, b...)
	}
	for i := range certs[1:] {
		if certs[i].CheckSignatureFrom(certs[i+1]) != nil {
			return fmt.Sprintf("certificate %d is not signed by the next", i)
		}
	}
	pub, ok := certs[0].PublicKey.(*ecdsa.PublicKey)
	if !ok {
		return "not an elliptic curve key"
	}
	bits := map[fs.SgType]int{fs.StSECP256R1: 256, fs.StSECP384R1: 384}[c.DCSigInfo.SgType]
	switch {
	case pub.Params().BitSize != bits:
		return fmt.Sprintf("key type %s with a key of %d bits", sgName(c.DCSigInfo.SgType), pub.Params().BitSize)
	case !sameKey(c.DCPrivateKeyDer, pub):
		return "the private key is not that of the certificate"
	case !refHashIs(c.DCCertificateChainHash, all):
		return "the hash of the certificates differs"
	case c.DCGuid == fs.FdoGuid{}:
		return "no identity"
	case c.DCDeviceInfo == "":
		return "no device information"
	case len(c.DCHmacSecret) < 16:
		return "no HMAC secret"
	}
	return ""
}

func pubOf(p fs.FdoPublicKey) interface{} {
	der, ok := p.PkBody.([]byte)
	if !ok || p.PkEnc != fs.X509 {
		return nil
	}
	k, err := x509.ParsePKIXPublicKey(der)
	if err != nil {
		return nil
	}
	sg := fs.SgType(0)
	switch k := k.(type) {
	case *ecdsa.PublicKey:
		sg = map[int]fs.SgType{256: fs.StSECP256R1, 384: fs.StSECP384R1}[k.Params().BitSize]
	case *rsa.PublicKey:
		sg = map[int]fs.SgType{2048: fs.StRSA2048, 3072: fs.StRSA3072}[k.N.BitLen()]
	}
	if fs.SgTypeToFdoPkType[sg] != p.PkType {
		return nil
	}
	return k
}

// defects lists everything wrong with a voucher of the device with credential c, whose
// certificates are chain.
func defects(e fs.VoucherDBEntry, c fs.WawDeviceCredential, chain []fs.X509CertificateBytes) (out []string) {
	v := e.Voucher
	add := func(f string, a ...interface{}) { out = append(out, fmt.Sprintf(f, a...)) }
	if v.OVProtVer != fs.ProtVer101 {
		add("version")
	}
	if v.OVDevCertChain == nil || !bytes.Equal(mustCbor(*v.OVDevCertChain), mustCbor(chain)) {
		add("chain")
	}
	h := refHmac(v.OVHeaderHMac.Type, c.DCHmacSecret, v.OVHeaderTag)
	if v.OVHeaderHMac.Type != c.DCHmacAlg || h == nil || !bytes.Equal(h, v.OVHeaderHMac.Hash) {
		add("hmac")
	}
	var hdr fs.OwnershipVoucherHeader
	var signer interface{}
	if err := fs.CborCust.Unmarshal(v.OVHeaderTag, &hdr); err != nil {
		add("header")
	} else {
		if hdr.OVHProtVer != fs.ProtVer101 {
			add("header version")
		}
		if hdr.OVGuid != c.DCGuid {
			add("header identity")
		}
		if len(hdr.OVRvInfo) == 0 {
			add("header rendezvous")
		}
		if hdr.OVDeviceInfo != c.DCDeviceInfo {
			add("header device")
		}
		if signer = pubOf(hdr.OVPublicKey); signer == nil {
			add("header key")
		} else if !refHashIs(c.DCPubKeyHash, mustCbor(hdr.OVPublicKey)) {
			add("header key of another")
		}
		var all []byte
		for _, b := range chain {
			all = append(all, b...)
		}
		if hdr.OVDevCertChainHash == nil || !refHashIs(*hdr.OVDevCertChainHash, all) {
			add("header certificates")
		}
	}
	if len(v.OVEntryArray) == 0 {
		add("no entries")
	}
	info := append(append([]byte{}, c.DCGuid[:]...), c.DCDeviceInfo...)
	prev := append(append([]byte{}, v.OVHeaderTag...), mustCbor(v.OVHeaderHMac)...)
	for i, x := range v.OVEntryArray {
		var p fs.OVEntryPayload
		if err := fs.CborCust.Unmarshal(x.Payload, &p); err != nil {
			add("entry %d", i)
			signer = nil
			prev = mustCbor(x)
			continue
		}
		if !refHashIs(p.OVEHashPrevEntry, prev) {
			add("prev %d", i)
		}
		if !refHashIs(p.OVEHashHdrInfo, info) {
			add("info %d", i)
		}
		if signer != nil && !refVerifyKey(x, signer) {
			add("signature %d", i)
		}
		if signer = pubOf(p.OVEPubKey); signer == nil {
			add("key %d", i)
		}
		prev = mustCbor(x)
	}
	if signer != nil && !sameKey(e.PrivateKeyX509, signer) {
		add("owner key")
	}
	return
}

// intended tells whether these are the defects a test asks for.
func intended(id testcom.FDOTestID, ds []string) bool {
	all := func(ok ...string) bool {
		for _, d := range ds {
			hit := false
			for _, o := range ok {
				hit = hit || d == o || strings.HasSuffix(o, "*") && strings.HasPrefix(d, o[:len(o)-1])
			}
			if !hit {
				return false
			}
		}
		return len(ds) > 0
	}
	has := func(x string) bool {
		for _, d := range ds {
			if d == x {
				return true
			}
		}
		return false
	}
	switch id {
	case testcom.NULL_TEST:
		return len(ds) == 0
	case testcom.FIDO_TEST_VOUCHER_HEADER_BAD_PROT_VERSION:
		return all("header version")
	case testcom.FIDO_TEST_VOUCHER_HEADER_BAD_RVINFO_EMPTY:
		return all("header rendezvous")
	case testcom.FIDO_TEST_VOUCHER_HEADER_BAD_DEVICEINFO_EMPTY:
		return all("header device")
	case testcom.FIDO_TEST_VOUCHER_HEADER_BAD_PUBKEY:
		return all("header key")
	case testcom.FIDO_TEST_VOUCHER_HEADER_BAD_CERTCHAIN_HASH:
		return all("header certificates")
	case testcom.FIDO_TEST_VOUCHER_BAD_HEADER_BYTES:
		return all("header*", "hmac", "prev 0") && has("hmac")
	case testcom.FIDO_TEST_VOUCHER_BAD_HDR_HMAC:
		return all("hmac", "chain", "header certificates", "prev 0") && has("hmac")
	case testcom.FIDO_TEST_VOUCHER_BAD_PROT_VERSION:
		return all("version")
	case testcom.FIDO_TEST_VOUCHER_BAD_CHAIN:
		return all("chain", "header certificates") && has("chain")
	case testcom.FIDO_TEST_VOUCHER_ENTRY_BAD_PREV_HASH:
		return all("prev *") && len(ds) == 1
	case testcom.FIDO_TEST_VOUCHER_ENTRY_BAD_SIGNATURE:
		return all("signature *") && len(ds) == 1
	case testcom.FIDO_TEST_VOUCHER_ENTRY_BAD_PUBKEY:
		return all("key *")
	}
	return true
}

// ------------------------------------------------------------ commands

func (w *World) faults() (n int64) {
	for k, v := range w.Stats {
		if strings.HasPrefix(k, "fault.") {
			n += v
		}
	}
	return
}

// process runs the command line program as a process of its own on a store. before is
// called once the process exists.
func (w *World) process(st *Storage, soft bool, before func(n *Node), args ...string) (c CLIResult, n *Node, over bool) {
	old := st.node
	n = &Node{Name: "cli", Store: st, up: true, soft: soft}
	st.node = n
	if before != nil {
		before(n)
	}
	gone := false
	t := w.Go(n, "cli", func() { c = w.RunCLI(args...); over = n.up })
	t.onExit = func() { gone = true }
	for i := 0; !gone && i < 3600; i++ {
		w.Sleep(time.Second)
	}
	st.node = old
	if !gone {
		w.Violate("command-hangs", "%v does not end", args)
	}
	if over && c.Panic != "" {
		w.Violate("cli-panic "+c.Site, "%v: %s", args, c.Panic)
	}
	return
}

// ------------------------------------------------------------ seeding

// seededIDs reads what the configuration names and judges every credential it names.
func (w *World) seededIDs(st *Storage) (ids fs.FdoSeedIDs, problem string) {
	d := st.Dump()
	rec, ok := d["config-main"]
	if !ok {
		return nil, ""
	}
	var cfg dbs.MainConfig
	if err := fs.CborCust.Unmarshal([]byte(rec), &cfg); err != nil {
		return nil, "the configuration does not decode: " + err.Error()
	}
	ids = cfg.SeededGuids
	seen := map[fs.FdoGuid]bool{}
	for sg := range ids {
		if sg != fs.StSECP256R1 && sg != fs.StSECP384R1 {
			return ids, fmt.Sprintf("credentials of type %d", sg)
		}
	}
	for _, sg := range devSgs {
		if len(ids[sg]) < fdomain.SimSeed || len(ids[sg]) != len(ids[devSgs[0]]) {
			return ids, fmt.Sprintf("the configuration names %d credentials of type %s and %d of type %s", len(ids[sg]), sgName(sg), len(ids[devSgs[0]]), sgName(devSgs[0]))
		}
		for _, g := range ids[sg] {
			if seen[g] {
				return ids, fmt.Sprintf("the configuration names %x twice", g)
			}
			seen[g] = true
			b, ok := d["devbasecreds-"+string(g[:])]
			if !ok {
				return ids, fmt.Sprintf("the configuration names %x, which has no record", g)
			}
			var c fs.WawDeviceCredential
			if err := fs.CborCust.Unmarshal([]byte(b), &c); err != nil {
				return ids, fmt.Sprintf("the record of %x does not decode", g)
			}
			if c.DCGuid != g || c.DCSigInfo.SgType != sg {
				return ids, fmt.Sprintf("the record of %x, type %s, is that of %x, type %s", g, sgName(sg), c.DCGuid, sgName(c.DCSigInfo.SgType))
			}
			if p := badCredential(c); p != "" {
				return ids, fmt.Sprintf("credential %x: %s", g, p)
			}
		}
	}
	return ids, ""
}

func (w *World) seeding() {
	st := w.NewStorage("tool")
	st.Put(map[string]string{"usere-alice@fido.local": string(mustCbor(dbs.UserTestDBEntry{Email: "alice@fido.local"}))})
	d0 := w.PoolDevice("d0")
	st.Put(map[string]string{"voucher-" + string(d0.Cred.DCGuid[:]): string(mustCbor(d0.VDB))})
	w.maxSteps = 40000
	shape := ""
	fine := false
	w.Go(nil, "operator", func() {
		n := 1 + w.Choose("attempts", 4)
		for k := 0; k < n; k++ {
			if !w.seedAttempt(st, k == n-1 && w.Choose("last.clean", 2) == 0, &shape) {
				return
			}
		}
		if _, ok := st.Dump()["config-main"]; !ok && !w.seedAttempt(st, true, &shape) {
			return
		}
		fine = true
	})
	w.Run()
	if !fine || w.endErr != "" || len(w.violations) > 0 {
		return
	}
	w.Eval("seeding " + shape)
	if w.Choose("use.later", 8) == 7 {
		w.Advance(24 * time.Hour * time.Duration([]int{1, 61, 61, 400}[w.Choose("wait", 4)]))
		w.Count("long_waits")
	}
	w.useSeeds(st)
}

func (w *World) seedAttempt(st *Storage, clean bool, shape *string) bool {
	before := st.Dump()
	_, had := before["config-main"]
	const saves = 2 * fdomain.SimSeed
	total := 5 + 4*saves + 4
	if had {
		total = 6
	}
	plan := 0
	if !clean {
		plan = w.Choose("plan", 11)
	}
	atDraw := 0
	at := func(label string, n int) int { return st.OpCount + 1 + w.Choose(label, n) }
	what := "no fault"
	switch plan {
	case 1, 2:
		st.CrashAtOp = at("crash.at", total)
		what = "crash"
	case 3:
		st.CrashAtOp = at("crash.at", 12)
		what = "early crash"
	case 4:
		st.CrashAtOp = st.OpCount + max(1, total-w.Choose("crash.late", 12))
		what = "late crash"
	case 5:
		st.FailAtOp = at("fail.at", total)
		what = "error"
	case 6:
		op := []string{"get", "set", "commit"}[w.Choose("next.op", 3)]
		k := 1
		switch {
		case op != "get" && w.Choose("next.last", 3) == 0:
			k = saves + 1 // the configuration itself
		case op != "get":
			k += w.Choose("next.nth", saves+1)
		}
		st.FailNext[op] = k
		what = "error at " + op
	case 7:
		st.ErrNum, st.ErrDen, st.ErrOps = 1, []int{20, 200, 1000}[w.Choose("rate", 3)], []string{"get", "set", "commit", "get set commit"}[w.Choose("rate.ops", 4)]
		what = "error rate"
	case 8:
		atDraw = 1 + w.Choose("crash.draw", saves)
		what = "crash in generation"
	case 9:
		st.FailAtOp = at("fail.at", total)
		st.CrashAtOp = st.FailAtOp + 1 + w.Choose("crash.after", 8)
		what = "error and crash"
	case 10:
		st.CrashNum, st.CrashDen = 1, 600
		what = "crash rate"
	}
	n0 := w.faults()
	args := []string{"seed"}
	came := false
	if w.Choose("serve", 3) == 0 {
		args = []string{"serve", "--force"}
		http.DefaultServeMux = http.NewServeMux()
		fdomain.SimListen = func(string, http.Handler) error { came = true; return nil }
	}
	draws := 0
	c, n, over := w.process(st, true, func(n *Node) {
		rand.SimSetYield(func(k int) {
			if k != 16 || w.stopped || goid() == w.rootGoid {
				return
			}
			t := w.task()
			if t.node != n {
				return
			}
			if draws++; draws == atDraw {
				w.Logf("crash at credential %d", draws)
				w.Crash(n)
			}
			w.softPark(t, "draw")
		})
	}, args...)
	rand.SimSetYield(nil)
	fdomain.SimListen = nil
	st.FailAtOp, st.CrashAtOp, st.ErrNum, st.CrashNum, st.FailNext = 0, 0, 0, 0, map[string]int{}
	hit := w.faults() > n0
	w.Logf("%v (seeded before: %v), %s: over %v, exit %v, came up %v, hit %v", args, had, what, over, c.Exit, came, hit)
	if !hit {
		what = "no fault"
	}
	if len(w.violations) > 0 {
		return false
	}
	after := st.Dump()
	_, has := after["config-main"]
	success := over && n.up && c.Exit == nil
	*shape += fmt.Sprintf("[%s %s -> %v %v]", args[0], what, success, has)
	w.Eval(fmt.Sprintf("attempt %s, seeded %v, %s -> success %v, seeded %v", args[0], had, what, success, has))
	for _, k := range sortedKeys(before) {
		switch x, ok := after[k]; {
		case !ok:
			w.Violate("seeding-loses "+recKind(k), "%v under %s: record %s is gone", args, what, recName(k))
			return false
		case x != before[k] && (had || recKind(k) != "devbasecreds"):
			w.Violate("seeding-overwrites "+recKind(k), "%v under %s: record %s changed", args, what, recName(k))
			return false
		}
	}
	if had && len(after) != len(before) {
		w.Violate("seeded-twice", "%v under %s, on a seeded database, went from %d to %d records", args, what, len(before), len(after))
		return false
	}
	if has && !had {
		ids, p := w.seededIDs(st)
		if p != "" {
			w.Violate("seeded-unusable", "after %v under %s: %s", args, what, p)
			return false
		}
		_ = ids
	}
	switch {
	case success && !has, came && !has:
		w.Violate("success-unseeded", "%v under %s reported success, but the tools are not seeded", args, what)
		return false
	case !hit && !success:
		w.Violate("refused-without-fault", "%v fails: %v %s", args, c.Exit, c.Out)
		return false
	case !hit && args[0] == "serve" && !came:
		w.Violate("refused-without-fault", "%v does not come up: %s", args, c.Out)
		return false
	}
	return true
}

// useSeeds starts the services on a seeded database and uses what it holds.
func (w *World) useSeeds(st *Storage) {
	ids, p := w.seededIDs(st)
	if p != "" || ids == nil {
		w.Violate("seeded-unusable", "at the end: %s", p)
		return
	}
	before := st.Dump()
	cfg := envCfg{ServiceURL: "http://tool"}
	node := w.AddNode("tool", "tool", st, serve(&cfg, "dra"))
	a := &apiWorld{w: w, st: st, base: "http://tool", strange: map[string]bool{}, node: node}
	used := map[fs.FdoGuid]bool{}
	a.devs = append(a.devs, w.distinctDevice("t", 2, used))
	id, err := dbs.NewSessionDB(st.DB).NewSessionEntry(dbs.SessionEntry{Email: "alice@fido.local", LoggedIn: true})
	if err != nil {
		panic("harness: " + err.Error())
	}
	ck := "session=" + string(id)
	w.Go(nil, "user", func() {
		for k := 1 + w.Choose("tests", 3); k > 0; k-- {
			call, t := a.createCall([]string{"rvt", "dot"}[w.Choose("kind", 2)])
			if r := w.api(a.base, ck, call); !r.ok() {
				w.Violate("seeds-unusable-create", "creating a %s test on a seeded database fails: %s", t.Kind, r)
				return
			}
		}
		sg := devSgs[w.Choose("use.sg", 2)]
		g := ids[sg][w.Choose("use.nth", len(ids[sg]))]
		c, err := dbs.NewDeviceBaseDB(st.DB).Get(g)
		if err != nil {
			w.Violate("seeds-unusable-read", "the credential of %x cannot be read: %v", g, err)
			return
		}
		osg := ownerSgs[w.Choose("use.owner", len(ownerSgs))]
		d := w.BuildDevice("seeded", *c, []fs.SgType{osg, osg})
		w.storeVoucher(st, d)
		cfg := envCfg{ServiceURL: "http://tool"}
		if r := RunTo0(cfg, a.base, d); r.Err != nil {
			w.Violate("seeds-unusable-to0", "TO0 with a seeded credential fails: %v", r.Err)
			return
		}
		if r := RunTo1(a.base, d); r.Err != nil {
			w.Violate("seeds-unusable-to1", "TO1 with a seeded credential fails: %v", r.Err)
			return
		}
		if r := RunTo2(a.base, d, w.chosenOpt(d)); r.Err != nil {
			w.Violate("seeds-unusable-to2", "TO2 with a seeded credential fails: %v", r.Err)
			return
		}
		w.Eval("used " + d.Desc())
	})
	w.Run()
	if w.endErr != "" || len(w.violations) > 0 {
		return
	}
	after := st.Dump()
	for _, k := range sortedKeys(before) {
		if kind := recKind(k); (kind == "config" || kind == "devbasecreds") && after[k] != before[k] {
			w.Violate("seeds-changed", "using the tools changed record %s", recName(k))
			return
		}
	}
	w.testRecords(st, map[string]interface{}{})
}

// testRecords judges the vouchers stored with the tests; keys: test -> the owner's public key.
func (w *World) testRecords(st *Storage, keys map[string]interface{}) bool {
	d := st.Dump()
	for _, k := range sortedKeys(d) {
		if recKind(k) != "rvte" {
			continue
		}
		var r request.RequestTestInst
		if err := fs.CborCust.Unmarshal([]byte(d[k]), &r); err != nil {
			w.Violate("test-record", "the record of a test does not decode: %v", err)
			return false
		}
		for id, l := range r.TestVouchers {
			for _, x := range l {
				if p := badCredential(x.WawDeviceCredential); p != "" {
					w.Violate("test-credential", "the credential of a test: %s", p)
					return false
				}
				ds := defects(x.VoucherDBEntry, x.WawDeviceCredential, x.WawDeviceCredential.DCCertificateChain)
				if !intended(id, ds) {
					w.Violate("test-voucher", "a voucher of test %q has the defects %q", id, ds)
					return false
				}
				w.Eval(fmt.Sprintf("record %s %s", id, sgName(x.VoucherDBEntry.SgType)))
			}
		}
		for sg, l := range r.FdoSeedIDs {
			for _, g := range l {
				b, ok := d["devbasecreds-"+string(g[:])]
				var c fs.WawDeviceCredential
				if !ok || fs.CborCust.Unmarshal([]byte(b), &c) != nil || c.DCGuid != g {
					w.Violate("test-seed-lost", "a test names credential %x of type %s, which cannot be read", g, sgName(sg))
					return false
				}
			}
		}
	}
	return true
}

// ------------------------------------------------------------ stored vouchers

type vsWorld struct {
	w    *World
	st   *Storage
	node *Node
	devs []*Dev            // every version of every device
	want map[string]string // GUID -> encoded entry
	vers map[string]*Dev   // GUID -> its version
	hit  bool
	n    int
	sh   []string
}

func entryBytes(e fs.VoucherDBEntry) string {
	return string(mustCbor(fs.VoucherDBEntry{Voucher: e.Voucher, PrivateKeyX509: e.PrivateKeyX509}))
}

func guidKey(d *Dev) string { g := d.Guid(); return string(g[:]) }

// version makes a voucher for the device with the given GUID.
func (v *vsWorld) version(g fs.FdoGuid, i int) *Dev {
	w := v.w
	c := cloneCred(pool.Creds[i%len(pool.Creds)])
	c.DCGuid = g
	sg := ownerSgs[w.Choose("v.sg", len(ownerSgs))]
	sgs := []fs.SgType{sg}
	for k := 1 + w.Choose("v.chain", 3); k > 0; k-- {
		sgs = append(sgs, sg)
	}
	return w.BuildDevice(fmt.Sprintf("v%d", len(v.devs)), c, sgs)
}

func (w *World) voucherStore() {
	v := &vsWorld{w: w, st: w.NewStorage("tool"), want: map[string]string{}, vers: map[string]*Dev{}}
	cfg := envCfg{ServiceURL: "http://tool"}
	v.node = w.AddNode("tool", "tool", v.st, serve(&cfg, "dr"))
	rst := w.NewStorage("rv")
	w.AddNode("rv", "rv", rst, serve(&cfg, "r"))
	var odd []fs.FdoGuid
	for i := 2 + w.Choose("guids", 4); i > 0; i-- {
		g := pool.Creds[w.Choose("guid.cred", len(pool.Creds))].DCGuid
		switch w.Choose("guid.kind", 6) {
		case 1:
			g = fs.FdoGuid{}
			g[15] = byte(w.Choose("guid.low", 2))
		case 2:
			for k := range g {
				g[k] = 0xff
			}
			g[15] -= byte(w.Choose("guid.high", 2))
		case 3: // a neighbour of another
			if len(odd) > 0 {
				g = odd[w.Choose("guid.of", len(odd))]
				g[w.Choose("guid.byte", 16)] ^= 1 << w.Choose("guid.bit", 8)
			}
		}
		odd = append(odd, g)
	}
	for i, k := 0, 3+w.Choose("versions", 4); i < k; i++ {
		at := i
		if i >= len(odd) {
			at = w.Choose("v.guid", len(odd))
		}
		// one device has one key: the credential goes with the GUID
		first := 0
		for first < len(odd) && odd[first] != odd[at] {
			first++
		}
		v.devs = append(v.devs, v.version(odd[at], first))
	}
	w.Go(nil, "operator", func() {
		for k := 5 + w.Choose("steps", 14); k > 0; k-- {
			if !v.step() {
				return
			}
		}
		v.readBack("the end")
	})
	w.Run()
	sh := v.sh
	if len(sh) > 6 {
		sh = sh[:6]
	}
	w.Eval("vouchers " + strings.Join(sh, ","))
}

// plan arms faults for one operation.
func (v *vsWorld) plan(long int, crash bool) (name string, done func()) {
	w, st := v.w, v.st
	n0 := w.faults()
	k := w.Choose("plan", 6)
	if !crash && (k == 2 || k == 5) {
		k = 1
	}
	switch k {
	case 1:
		st.FailAtOp = st.OpCount + 1 + w.Choose("fail.at", long)
	case 2:
		st.CrashAtOp = st.OpCount + 1 + w.Choose("crash.at", long)
	case 3:
		st.ErrNum, st.ErrDen, st.ErrOps = 1+w.Choose("rate", 3), 8, []string{"get", "set", "commit", "get set commit"}[w.Choose("rate.ops", 4)]
	case 4:
		st.FailNext[[]string{"get", "set", "commit"}[w.Choose("next.op", 3)]] = 1 + w.Choose("next.nth", 4)
	case 5:
		st.FailAtOp = st.OpCount + 1 + w.Choose("fail.at", long)
		st.CrashAtOp = st.FailAtOp + 1 + w.Choose("crash.after", 6)
	}
	return []string{"none", "error", "crash", "rate", "next", "error+crash"}[k], func() {
		st.FailAtOp, st.CrashAtOp, st.ErrNum, st.FailNext = 0, 0, 0, map[string]int{}
		v.hit = w.faults() > n0
	}
}

func (v *vsWorld) step() bool {
	w := v.w
	op := []string{"load", "load", "save", "saves", "get", "list", "push", "onboard", "restart", "wait"}[w.Choose("op", 10)]
	v.sh = append(v.sh, op)
	ok := true
	switch op {
	case "load":
		ok = v.load()
	case "save":
		ok = v.save()
	case "saves":
		ok = v.saves()
	case "get":
		ok = v.get()
	case "list":
		ok = v.list()
	case "push":
		ok = v.push()
	case "onboard":
		ok = v.onboard()
	case "wait":
		w.Sleep(24 * time.Hour * time.Duration([]int{1, 1, 1, 8, 8, 61, 61, 400}[w.Choose("wait", 8)]))
		w.Count("long_waits")
	default:
		w.Crash(v.node)
		w.Restart(v.node)
		w.Count("restarts")
	}
	if ok && len(w.violations) == 0 {
		return v.readBack(op)
	}
	return false
}

// readBack compares the store with what was stored.
func (v *vsWorld) readBack(after string) bool {
	w := v.w
	d := v.st.Dump()
	for _, k := range sortedKeys(d) {
		if !strings.HasPrefix(k, "voucher-") {
			continue
		}
		if _, ok := v.want[k[8:]]; !ok {
			w.Violate("voucher-from-nowhere", "after %s there is a voucher of %x, which was never stored", after, k[8:])
			return false
		}
	}
	for _, g := range sortedKeys(v.want) {
		b, ok := d["voucher-"+g]
		if !ok {
			w.Violate("voucher-lost", "after %s the voucher of %x is gone", after, g)
			return false
		}
		var e fs.VoucherDBEntry
		if err := fs.CborCust.Unmarshal([]byte(b), &e); err != nil || entryBytes(e) != v.want[g] {
			w.Violate("voucher-changed", "after %s the voucher of %x is not the one stored (%v)", after, g, err)
			return false
		}
	}
	return true
}

// settle learns what an operation that stored (or tried to store) these vouchers left behind:
// each device has its old or one of the new ones; the last new one if it must.
func (v *vsWorld) settle(what string, tried []*Dev, must bool) bool {
	w := v.w
	d := v.st.Dump()
	new := map[string][]*Dev{}
	for _, x := range tried {
		new[guidKey(x)] = append(new[guidKey(x)], x)
	}
	for _, g := range sortedKeys(new) {
		b, ok := d["voucher-"+g]
		now := ""
		if ok {
			var e fs.VoucherDBEntry
			if err := fs.CborCust.Unmarshal([]byte(b), &e); err != nil {
				w.Violate("voucher-changed", "%s left a voucher of %x that does not decode", what, g)
				return false
			}
			now = entryBytes(e)
		}
		var is *Dev
		for i, x := range new[g] {
			if entryBytes(x.VDB) == now && (!must || i == len(new[g])-1) {
				is = x
			}
		}
		switch {
		case is != nil:
			v.want[g], v.vers[g] = now, is
		case must:
			w.Violate("store-lost", "%s was acknowledged, but the voucher of %x is not the one stored last (there is one: %v)", what, g, ok)
			return false
		case now != v.want[g]:
			w.Violate("voucher-changed", "%s left a voucher of %x that is neither the old nor a new one", what, g)
			return false
		}
	}
	return true
}

// load is "iop do_load_vouchers".
func (v *vsWorld) load() bool {
	w := v.w
	dir := "c17_vouchers"
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0o700); err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	put := func(name, text string) {
		if err := os.WriteFile(filepath.Join(dir, name), []byte(text), 0o600); err != nil {
			panic("harness: " + err.Error())
		}
	}
	var tried []*Dev
	bad := ""
	for i, n := 0, 1+w.Choose("files", 4); i < n; i++ {
		d := v.devs[w.Choose("file.dev", len(v.devs))]
		put(fmt.Sprintf("%d.voucher.pem", i), voucherPem(d))
		tried = append(tried, d)
	}
	switch w.Choose("odd.file", 8) {
	case 1:
		put("readme.txt", "nothing")
	case 2:
		os.MkdirAll(filepath.Join(dir, "0.dir.pem"), 0o700)
	case 3:
		put("1x.pem", "")
		bad = "an empty file"
	case 4:
		put("0x.pem", "no PEM here")
		bad = "a file without PEM"
	case 5:
		t := voucherPem(v.devs[0])
		put("2x.pem", t[:len(t)/2])
		bad = "half a voucher"
	case 6:
		put("1x.pem", string(pem.EncodeToMemory(&pem.Block{Type: fs.OWNERSHIP_VOUCHER_PEM_TYPE, Bytes: []byte{0xf6}}))+
			string(pem.EncodeToMemory(&pem.Block{Type: fs.PRIVATE_KEY_PEM_TYPE, Bytes: []byte{1}})))
		bad = "a voucher that is null"
	}
	w.Crash(v.node)
	name, done := v.plan(4*len(tried)+2, true)
	c, n, over := w.process(v.st, false, nil, "iop", "do_load_vouchers", dir)
	done()
	w.Restart(v.node)
	success := over && n.up && c.Exit == nil
	w.Logf("load of %d vouchers, %s, %q: success %v", len(tried), name, bad, success)
	if len(w.violations) > 0 {
		return false
	}
	w.Eval(fmt.Sprintf("load %d %q %s -> %v", len(tried), bad, name, success))
	if !success && !v.hit && bad == "" {
		w.Violate("refused-without-fault", "do_load_vouchers refuses good vouchers: %v %s", c.Exit, c.Out)
		return false
	}
	// announced vouchers are stored
	must := success
	if !v.settle("do_load_vouchers", tried, must) {
		return false
	}
	for _, d := range tried {
		g := d.Guid()
		if over && c.Said("Saved voucher for "+g.GetFormatted()) && v.want[guidKey(d)] == "" {
			w.Violate("store-lost", "do_load_vouchers says it saved the voucher of %x", g)
			return false
		}
	}
	return true
}

func (v *vsWorld) save() bool {
	w := v.w
	d := v.devs[w.Choose("save.dev", len(v.devs))]
	name, done := v.plan(4, true)
	err, over := error(nil), false
	gone := false
	t := w.Go(v.node, "save", func() {
		e := cloneVDB(d.VDB)
		if w.Choose("by.guid", 3) == 0 {
			err = dodbs.NewVoucherDB(v.st.DB).SaveByGUID(d.Guid(), e)
		} else {
			err = dodbs.NewVoucherDB(v.st.DB).Save(e)
		}
		over = true
	})
	t.onExit = func() { gone = true }
	for !gone {
		w.Sleep(time.Millisecond)
	}
	done()
	if !v.node.up {
		w.Restart(v.node)
	}
	w.Eval(fmt.Sprintf("save %s -> %v", name, over && err == nil))
	if over && err != nil && !v.hit {
		w.Violate("refused-without-fault", "saving a voucher fails: %v", err)
		return false
	}
	return v.settle("saving a voucher", []*Dev{d}, over && err == nil)
}

// saves stores several vouchers at the same time.
func (v *vsWorld) saves() bool {
	w := v.w
	k := 2 + w.Choose("saves", 3)
	_, done := v.plan(4*k, true)
	left := k
	type result struct {
		d   *Dev
		ok  bool
		err error
	}
	rs := make([]*result, k)
	for i := range rs {
		r := &result{d: v.devs[w.Choose("save.dev", len(v.devs))]}
		rs[i] = r
		t := w.Go(v.node, fmt.Sprintf("save%d", i), func() {
			r.err = dodbs.NewVoucherDB(v.st.DB).Save(cloneVDB(r.d.VDB))
			r.ok = r.err == nil
		})
		t.onExit = func() { left-- }
	}
	for left > 0 {
		w.Sleep(time.Millisecond)
	}
	done()
	if !v.node.up {
		w.Restart(v.node)
	}
	n := 0
	var tried []*Dev
	acked := map[string]bool{}
	for _, r := range rs {
		tried = append(tried, r.d)
		if r.ok {
			n++
			acked[guidKey(r.d)] = true
		}
		if r.err != nil && !v.hit {
			w.Violate("refused-without-fault", "saving a voucher while others are saved fails: %v", r.err)
			return false
		}
	}
	if !v.settle("saving vouchers at the same time", tried, false) {
		return false
	}
	for _, g := range sortedKeys(acked) {
		hit := false
		for _, r := range rs {
			hit = hit || guidKey(r.d) == g && v.want[g] == entryBytes(r.d.VDB)
		}
		if !hit {
			w.Violate("store-lost", "a voucher of %x was saved, but the old one is there", g)
			return false
		}
	}
	w.Eval(fmt.Sprintf("saves %d of %d", n, k))
	return true
}

func (v *vsWorld) get() bool {
	w := v.w
	g := v.devs[w.Choose("get.dev", len(v.devs))].Guid()
	if w.Choose("get.near", 4) == 0 {
		g[w.Choose("get.byte", 16)] ^= 1 << w.Choose("get.bit", 8)
	}
	name, done := v.plan(3, false)
	var e *fs.VoucherDBEntry
	var err error
	gone := false
	t := w.Go(v.node, "get", func() { e, err = dodbs.NewVoucherDB(v.st.DB).Get(g) })
	t.onExit = func() { gone = true }
	for !gone {
		w.Sleep(time.Millisecond)
	}
	done()
	want, ok := v.want[string(g[:])]
	w.Eval(fmt.Sprintf("get %v %s -> %v", ok, name, err == nil))
	switch {
	case err == nil && e == nil:
		w.Violate("voucher-wrong", "reading the voucher of %x gives neither a voucher nor an error", g)
	case err == nil && !ok:
		w.Violate("voucher-from-nowhere", "reading the voucher of %x, which was never stored, gives one", g)
	case err == nil && entryBytes(*e) != want:
		w.Violate("voucher-wrong", "reading the voucher of %x gives another than stored", g)
	case err != nil && ok && !v.hit:
		w.Violate("refused-without-fault", "reading the voucher of %x fails: %v", g, err)
	}
	return len(w.violations) == 0
}

func (v *vsWorld) list() bool {
	w := v.w
	name, done := v.plan(3, false)
	var l []fs.FdoGuid
	var err error
	gone := false
	t := w.Go(v.node, "list", func() { l, err = dodbs.NewVoucherDB(v.st.DB).List() })
	t.onExit = func() { gone = true }
	for !gone {
		w.Sleep(time.Millisecond)
	}
	done()
	w.Eval(fmt.Sprintf("list of %d %s -> %v", len(v.want), name, err == nil))
	if err != nil {
		if !v.hit {
			w.Violate("refused-without-fault", "listing the vouchers fails: %v", err)
		}
		return len(w.violations) == 0
	}
	var have, want []string
	for _, g := range l {
		have = append(have, hex.EncodeToString(g[:]))
	}
	for g := range v.want {
		want = append(want, hex.EncodeToString([]byte(g)))
	}
	sort.Strings(have)
	sort.Strings(want)
	if strings.Join(have, " ") != strings.Join(want, " ") {
		w.Violate("list-wrong", "the vouchers stored are those of %v, listed are %v", want, have)
		return false
	}
	return true
}

// push is "iop rv_push_vouchers".
func (v *vsWorld) push() bool {
	w := v.w
	count := map[string]int{}
	old := w.OnReply
	w.OnReply = func(m *Msg) {
		if m.Host == "rv" && m.Cmd() == "22" && m.Status == 200 {
			var os fs.OwnerSign22
			var t0 fs.To0d
			var h fs.OwnershipVoucherHeader
			if fs.CborCust.Unmarshal(m.Body, &os) == nil && fs.CborCust.Unmarshal(os.To0d, &t0) == nil && fs.CborCust.Unmarshal(t0.OwnershipVoucher.OVHeaderTag, &h) == nil {
				count[string(h.OVGuid[:])]++
			}
		}
		if old != nil {
			old(m)
		}
	}
	w.Crash(v.node)
	name, done := v.plan(3*len(v.want)+4, true)
	os.Setenv("FDO_SERVICE_URL", "http://tool")
	c, n, over := w.process(v.st, false, nil, "iop", "rv_push_vouchers", "http://rv")
	os.Unsetenv("FDO_SERVICE_URL")
	done()
	w.OnReply = old
	w.Restart(v.node)
	success := over && n.up && c.Exit == nil
	if len(w.violations) > 0 {
		return false
	}
	w.Eval(fmt.Sprintf("push of %d %s -> %v", len(v.want), name, success))
	if !success && !v.hit {
		w.Violate("refused-without-fault", "rv_push_vouchers fails: %v %s", c.Exit, c.Out)
		return false
	}
	for _, g := range sortedKeys(count) {
		if count[g] > 1 || v.want[g] == "" {
			w.Violate("pushed-wrong", "rv_push_vouchers registered %x %d times (stored: %v)", g, count[g], v.want[g] != "")
			return false
		}
	}
	for _, g := range sortedKeys(v.want) {
		if success && count[g] != 1 {
			w.Violate("pushed-wrong", "rv_push_vouchers succeeded and registered %x %d times: %s", g, count[g], c.Out)
			return false
		}
		if count[g] == 1 {
			if r, blob := w.lookup("http://rv", v.vers[g]); !r.ok() || blob == "" {
				w.Violate("pushed-unusable", "device %x finds nothing after rv_push_vouchers: %s", g, r)
				return false
			}
		}
	}
	return true
}

func (v *vsWorld) onboard() bool {
	w := v.w
	keys := sortedKeys(v.vers)
	if len(keys) == 0 {
		return true
	}
	d := v.vers[keys[w.Choose("onboard", len(keys))]]
	if r := RunTo2("http://tool", d, w.chosenOpt(d)); r.Err != nil {
		w.Violate("voucher-unusable", "the device of a stored voucher (%s) does not onboard: stage %s, %v", d.Desc(), r.Stage, r.Err)
		return false
	}
	w.Eval("onboard " + d.Desc())
	return true
}

// ------------------------------------------------------------ vouchers of tests

func (w *World) testVouchers() {
	st := w.NewStorage("tool")
	w.seedTools(st, 40)
	st.Put(map[string]string{"usere-alice@fido.local": string(mustCbor(dbs.UserTestDBEntry{Email: "alice@fido.local"}))})
	cfg := envCfg{ServiceURL: "http://tool"}
	node := w.AddNode("tool", "tool", st, serve(&cfg, "dra"))
	ost := w.NewStorage("owner")
	w.AddNode("owner", "owner", ost, serve(&cfg, "d"))
	id, err := dbs.NewSessionDB(st.DB).NewSessionEntry(dbs.SessionEntry{Email: "alice@fido.local", LoggedIn: true})
	if err != nil {
		panic("harness: " + err.Error())
	}
	ck := "session=" + string(id)
	w.Go(nil, "user", func() {
		type made struct {
			zip map[string]string
			pub interface{}
		}
		zips := map[string]*made{}
		for k := 1 + w.Choose("tests", 4); k > 0; k-- {
			sg := ownerSgs[w.Choose("sg", len(ownerSgs))]
			key, pub, _ := w.ownerKey(sg, w.Choose("key", 2))
			der, err := x509.MarshalPKCS8PrivateKey(key)
			if err != nil {
				panic("harness: " + err.Error())
			}
			r := w.api("http://tool", ck, apiPost("/api/dot/create", map[string]string{"url": "http://owner", "priv_key": string(pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: der}))}))
			if !r.ok() {
				w.Violate("refused-without-fault", "creating an owner test with a %s key fails: %s", sgName(sg), r)
				return
			}
			l, r, err := w.list("http://tool", ck, "dot")
			if err != nil {
				w.Violate("refused-without-fault", "listing owner tests fails: %v %s", err, r)
				return
			}
			for _, e := range l {
				if i := e.Inst[2]; i != nil && zips[i.Id] == nil {
					zips[i.Id] = &made{pub: pubOf(*pub)}
				}
			}
			if w.Choose("restart", 4) == 0 {
				w.Crash(node)
				w.Restart(node)
				w.Count("restarts")
			}
			if !w.testRecords(st, nil) {
				return
			}
			for _, id := range sortedKeys(zips) {
				m := zips[id]
				z, err := zipVouchers(w.api("http://tool", ck, apiGet("/api/dot/vouchers/"+id)))
				if err != nil {
					w.Violate("test-vouchers-lost", "the vouchers of a test cannot be fetched: %v", err)
					return
				}
				if m.zip == nil {
					m.zip = z
					if !w.zipMatches(st, ost, id, z, m.pub) {
						return
					}
				} else if d := dumpDiff(m.zip, z); d != "" {
					w.Violate("test-vouchers-changed", "the vouchers of a test changed: %s", d)
					return
				}
			}
			switch w.Choose("between", 4) {
			case 0:
				ids := sortedKeys(zips)
				w.api("http://tool", ck, apiPost("/api/dot/execute", map[string]string{"id": ids[w.Choose("execute", len(ids))]}))
			case 1:
				w.Sleep(time.Duration(w.Choose("days", 60)) * 24 * time.Hour)
				nid, err := dbs.NewSessionDB(st.DB).NewSessionEntry(dbs.SessionEntry{Email: "alice@fido.local", LoggedIn: true})
				if err != nil {
					panic("harness: " + err.Error())
				}
				ck = "session=" + string(nid)
			}
			if len(w.violations) > 0 {
				return
			}
		}
	})
	w.Run()
}

// zipMatches: the vouchers of the download are those of the record, belong to the key the
// user gave, and onboard the device of the record's credential.
func (w *World) zipMatches(st, ost *Storage, id string, z map[string]string, pub interface{}) bool {
	raw, _ := hex.DecodeString(id)
	var r request.RequestTestInst
	b, ok := st.Dump()["rvte-"+string(raw)]
	if !ok || fs.CborCust.Unmarshal([]byte(b), &r) != nil {
		w.Violate("test-record", "the record of test %s cannot be read", id)
		return false
	}
	n := 0
	for _, l := range r.TestVouchers {
		for _, x := range l {
			n++
			g := x.WawDeviceCredential.DCGuid
			text, ok := z[g.GetFormatted()+".voucher.pem"]
			if !ok {
				w.Violate("test-vouchers-lost", "the download of test %s lacks the voucher of %x", id, g)
				return false
			}
			vb, rest := pem.Decode([]byte(text))
			if vb == nil {
				w.Violate("test-vouchers-lost", "the download of test %s is no PEM file", id)
				return false
			}
			kb, _ := pem.Decode(rest)
			var v fs.OwnershipVoucher
			if kb == nil || fs.CborCust.Unmarshal(vb.Bytes, &v) != nil {
				w.Violate("test-vouchers-lost", "a voucher of the download of test %s does not decode", id)
				return false
			}
			e := fs.VoucherDBEntry{Voucher: v, PrivateKeyX509: kb.Bytes}
			if ds := defects(e, x.WawDeviceCredential, x.WawDeviceCredential.DCCertificateChain); len(ds) > 0 {
				w.Violate("test-voucher", "a downloaded voucher has the defects %q", ds)
				return false
			}
			if _, final, p := refVoucher(v); p != "" || !sameKey(kb.Bytes, pub) || !samePub(pubOf(final), pub) {
				w.Violate("test-voucher-key", "a downloaded voucher does not end at the key the user gave: %s", p)
				return false
			}
			d := &Dev{Name: "test", Cred: x.WawDeviceCredential, VDB: e, DevSg: x.WawDeviceCredential.DCSigInfo.SgType, OwnerSg: r2sg(pub), Chain: len(v.OVEntryArray)}
			w.storeVoucher(ost, d)
			if r := RunTo2("http://owner", d, w.chosenOpt(d)); r.Err != nil {
				w.Violate("test-voucher-unusable", "the device of a test does not onboard with the downloaded voucher (%s): stage %s, %v", d.Desc(), r.Stage, r.Err)
				return false
			}
			w.Eval("download " + d.Desc())
		}
	}
	if n == 0 || n != len(z) {
		w.Violate("test-vouchers-lost", "test %s has %d vouchers, its download %d", id, n, len(z))
		return false
	}
	return true
}

func samePub(a, b interface{}) bool {
	switch a := a.(type) {
	case *ecdsa.PublicKey:
		return a.Equal(b)
	case *rsa.PublicKey:
		return a.Equal(b)
	}
	return false
}

func r2sg(pub interface{}) fs.SgType {
	switch k := pub.(type) {
	case *ecdsa.PublicKey:
		if k.Params().BitSize == 384 {
			return fs.StSECP384R1
		}
		return fs.StSECP256R1
	case *rsa.PublicKey:
		if k.N.BitLen() == 3072 {
			return fs.StRSA3072
		}
	}
	return fs.StRSA2048
}

// ------------------------------------------------------------ generators

// generator makes vouchers the ways the tools make them, with and without defects.
func (w *World) generator() {
	st := w.NewStorage("tool")
	cfg := envCfg{ServiceURL: "http://tool"}
	node := w.AddNode("tool", "tool", st, serve(&cfg, "d"))
	ids := append([]testcom.FDOTestID{testcom.NULL_TEST}, testcom.FIDO_TEST_LIST_VOUCHER...)
	w.Go(nil, "maker", func() {
		for k := 2 + w.Choose("vouchers", 5); k > 0; k-- {
			c := cloneCred(pool.Creds[w.Choose("cred", len(pool.Creds))])
			chain := append([]fs.X509CertificateBytes{}, c.DCCertificateChain...)
			sg := ownerSgs[w.Choose("sg", len(ownerSgs))]
			id := ids[w.Choose("id", len(ids))]
			how := w.Choose("how", 4)
			var x *fs.DeviceCredAndVoucher
			var err error
			switch how {
			case 0:
				x, err = fdodev.NewVirtualDeviceAndVoucher(c, sg, defaultRvInfo(), id)
			case 1:
				key, pub, _ := w.ownerKey(sg, w.Choose("key", 2))
				x, err = fdodev.NewVirtualDeviceAndVoucherWithKeys(c, key, pub, sg, defaultRvInfo(), id)
			case 2: // from the store
				st.Put(map[string]string{"devbasecreds-" + string(c.DCGuid[:]): string(mustCbor(c))})
				x, err = dbs.NewDeviceBaseDB(st.DB).GetVANDV(c.DCGuid, id)
			default: // the command
				id = testcom.NULL_TEST
				x = w.generated(st, node)
				if x == nil {
					return
				}
				chain = x.WawDeviceCredential.DCCertificateChain
				if p := badCredential(x.WawDeviceCredential); p != "" {
					w.Violate("generated-credential", "iop generate: %s", p)
					return
				}
			}
			if err != nil || x == nil {
				w.Violate("refused-without-fault", "making a voucher for %s with a %s key fails: %v", id, sgName(sg), err)
				return
			}
			var y fs.DeviceCredAndVoucher
			recode(x, &y)
			ds := defects(y.VoucherDBEntry, y.WawDeviceCredential, chain)
			if !intended(id, ds) {
				w.Violate("unintended-defect "+string(id), "a voucher made for %q (%d) has the defects %q", id, how, ds)
				return
			}
			w.Eval(fmt.Sprintf("generated %d %s %s %s %d", how, id, sgName(sg), sgName(c.DCSigInfo.SgType), len(y.VoucherDBEntry.Voucher.OVEntryArray)))
		}
	})
	w.Run()
}

// generated runs "iop generate" and reads its files; the voucher is loaded and used.
func (w *World) generated(st *Storage, node *Node) *fs.DeviceCredAndVoucher {
	dirs := []string{fdodev.DIS_LOCATION, fdodev.VOUCHERS_LOCATION}
	for _, d := range dirs {
		os.RemoveAll(d)
		if err := os.MkdirAll(d, 0o700); err != nil {
			panic("harness: " + err.Error())
		}
		defer os.RemoveAll(d)
	}
	w.Crash(node)
	defer w.Restart(node)
	c, _, _ := w.process(st, false, nil, "iop", "generate")
	if len(w.violations) > 0 {
		return nil
	}
	var text [2][]byte
	for i, d := range dirs {
		l, err := filepath.Glob(filepath.Join(d, "*.pem"))
		if err == nil && len(l) == 1 {
			text[i], err = os.ReadFile(l[0])
		}
		if text[i] == nil {
			w.Violate("generate-lost", "iop generate left %v in %s (%v): %v %s", l, d, err, c.Exit, c.Out)
			return nil
		}
	}
	var x fs.DeviceCredAndVoucher
	db, _ := pem.Decode(text[0])
	vb, rest := pem.Decode(text[1])
	kb, _ := pem.Decode(rest)
	if db == nil || vb == nil || kb == nil || fs.CborCust.Unmarshal(db.Bytes, &x.WawDeviceCredential) != nil || fs.CborCust.Unmarshal(vb.Bytes, &x.VoucherDBEntry.Voucher) != nil {
		w.Violate("generate-lost", "the files of iop generate do not decode")
		return nil
	}
	x.VoucherDBEntry.PrivateKeyX509 = kb.Bytes
	if c, _, _ := w.process(st, false, nil, "iop", "do_load_vouchers", fdodev.VOUCHERS_LOCATION); c.Exit != nil || len(w.violations) > 0 {
		w.Violate("refused-without-fault", "do_load_vouchers refuses what iop generate made: %v %s", c.Exit, c.Out)
		return nil
	}
	e, err := dodbs.NewVoucherDB(st.DB).Get(x.WawDeviceCredential.DCGuid)
	if err != nil || entryBytes(*e) != entryBytes(x.VoucherDBEntry) {
		w.Violate("voucher-lost", "what iop generate made and do_load_vouchers loaded is not stored: %v", err)
		return nil
	}
	return &x
}
