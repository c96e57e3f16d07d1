package fdosim

// A client written by hand from the protocol tables: it can send any message of
// any protocol at any time, and independent checks of what servers answer.

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"strconv"
	"strings"
	"time"

	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

type rawReply struct {
	Status int
	Head   http.Header
	Body   []byte
	Err    error // no reply at all
}

func (r rawReply) ok() bool      { return r.Err == nil && r.Status == 200 }
func (r rawReply) token() string { return r.Head.Get("Authorization") }
func (r rawReply) String() string {
	if r.Err != nil {
		return "no reply: " + r.Err.Error()
	}
	if r.Status == 200 {
		return "200 type " + r.Head.Get("Message-Type")
	}
	return fmt.Sprintf("%d %s", r.Status, errText(r.Body))
}

func errText(b []byte) string {
	if root, rest, ok := parseCbor(b); ok && len(rest) == 0 && root.at(2) != nil && root.at(2).major == 3 {
		return string(root.at(2).data)
	}
	return hx(b)
}

type rawReq struct {
	Method, CT, Auth string
	Head             map[string]string
	Patience         time.Duration
}

// rawSend posts any bytes anywhere.
func (w *World) rawSend(url string, q rawReq, body []byte) rawReply {
	if q.Patience == 0 {
		q.Patience = 30 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), q.Patience)
	defer cancel()
	if q.Method == "" {
		q.Method = "POST"
	}
	if q.CT == "" {
		q.CT = fs.CONTENT_TYPE_CBOR
	}
	req, err := http.NewRequestWithContext(ctx, q.Method, url, bytes.NewReader(body))
	if err != nil {
		panic("harness: " + err.Error())
	}
	if q.CT != "-" {
		req.Header.Set("Content-Type", q.CT)
	}
	if q.Auth != "" {
		req.Header.Set("Authorization", q.Auth)
	}
	for k, v := range q.Head {
		req.Header.Set(k, v)
	}
	resp, err := simTransport{w}.RoundTrip(req)
	if err != nil {
		return rawReply{Err: err}
	}
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return rawReply{Err: err}
	}
	return rawReply{Status: resp.StatusCode, Head: resp.Header, Body: b}
}

func (w *World) rawPost(base, cmd, token string, body []byte) rawReply {
	return w.rawSend(base+"/fdo/101/msg/"+cmd, rawReq{Auth: token}, body)
}

// nextCmd is the success reply of each request.
func nextCmd(cmd string) string {
	n, _ := strconv.Atoi(cmd)
	return strconv.Itoa(n + 1)
}

// badErrorReply tells what is wrong with an error reply to request cmd ("" if it is a
// well-formed protocol error that names the request).
func badErrorReply(cmd string, status int, head http.Header, body []byte) string {
	if status < 400 || status > 599 {
		return fmt.Sprintf("status %d is no failure", status)
	}
	if ct := head.Values("Content-Type"); len(ct) != 1 || ct[0] != "application/cbor" {
		return fmt.Sprintf("content type %q", ct)
	}
	if mt := head.Values("Message-Type"); len(mt) != 1 || mt[0] != "255" {
		return fmt.Sprintf("message type %q", mt)
	}
	root, rest, ok := parseCbor(body)
	if !ok || len(rest) != 0 || root.major != 4 || len(root.kids) != 5 {
		return "body is no error message: " + hx(body)
	}
	if k := root.kids[0]; k.major != 0 || k.val == 0 {
		return "no error code"
	}
	if k := root.kids[1]; k.major != 0 || fmt.Sprint(k.val) != cmd {
		return fmt.Sprintf("error names request %d instead of %s", k.val, cmd)
	}
	if k := root.kids[2]; k.major != 3 {
		return "error text is no text"
	}
	return ""
}

func badSuccessReply(cmd string, head http.Header) string {
	if ct := head.Values("Content-Type"); len(ct) != 1 || ct[0] != "application/cbor" {
		return fmt.Sprintf("content type %q", ct)
	}
	if mt := head.Values("Message-Type"); len(mt) != 1 || mt[0] != nextCmd(cmd) {
		return fmt.Sprintf("message type %q in reply to %s", mt, cmd)
	}
	return ""
}

// coseSigned verifies an ECDSA COSE_Sign1 message on its own and returns its payload.
func coseSigned(msg []byte, pub *ecdsa.PublicKey) (payload []byte, ok bool) {
	root, rest, good := parseCbor(msg)
	if !good || len(rest) != 0 {
		return nil, false
	}
	if root.major == 6 {
		root = root.kids[0]
	}
	if root.major != 4 || len(root.kids) != 4 {
		return nil, false
	}
	prot, pl, sig := root.kids[0], root.kids[2], root.kids[3]
	if prot.major != 2 || pl.major != 2 || sig.major != 2 {
		return nil, false
	}
	sigBytes := sig.data
	tbs := append([]byte{0x84}, cborHead(3, 10)...)
	tbs = append(tbs, "Signature1"...)
	for _, b := range [][]byte{prot.data, {}, pl.data} {
		tbs = append(append(tbs, cborHead(2, uint64(len(b)))...), b...)
	}
	var dig []byte
	switch len(sigBytes) {
	case 64:
		h := sha256.Sum256(tbs)
		dig = h[:]
	case 96:
		h := sha512.Sum384(tbs)
		dig = h[:]
	default:
		return nil, false
	}
	n := len(sigBytes) / 2
	return pl.data, ecdsa.Verify(pub, dig, new(big.Int).SetBytes(sigBytes[:n]), new(big.Int).SetBytes(sigBytes[n:]))
}

// certKey is the public key of the device certificate in d's voucher.
func (d *Dev) certKey() *ecdsa.PublicKey {
	c, err := x509.ParseCertificate((*d.VDB.Voucher.OVDevCertChain)[0])
	if err != nil {
		panic("harness: " + err.Error())
	}
	return c.PublicKey.(*ecdsa.PublicKey)
}

// ------------------------------------------------------------ TO2

// rawSess is one hand-driven ownership-transfer session.
type rawSess struct {
	w       *World
	url     string
	d       *Dev
	opt     To2Opt
	r       to2.To2Requestor
	Token   string
	N61     fs.FdoNonce
	P61     fs.TO2ProveOVHdrPayload
	Hello   fs.HelloDevice60
	priv    interface{}
	sg      fs.SgType
	proof   []byte
	NSetup  fs.FdoNonce
	keyed   bool
	Entries int
}

func (w *World) newRawSess(url string, d *Dev, opt To2Opt) *rawSess {
	s := &rawSess{w: w, url: url, d: d, opt: opt}
	k, err := fs.ExtractPrivateKey(d.Cred.DCPrivateKeyDer)
	if err != nil {
		panic("harness: " + err.Error())
	}
	s.priv, s.sg = k, d.Cred.DCSigInfo.SgType
	s.Hello = fs.HelloDevice60{MaxDeviceMessageSize: 2048, Guid: d.Guid(), NonceTO2ProveOV: fs.NewFdoNonce(), KexSuiteName: opt.Kex,
		CipherSuiteName: opt.Cipher, EASigInfo: d.Cred.DCSigInfo}
	return s
}

func (s *rawSess) post(cmd string, body []byte) rawReply {
	return s.w.rawPost(s.url, cmd, s.Token, body)
}

func (s *rawSess) hello() rawReply {
	r := s.w.rawPost(s.url, "60", "", mustCbor(s.Hello))
	if r.ok() {
		s.take61(r)
	}
	return r
}

func (s *rawSess) take61(r rawReply) {
	var c fs.CoseSignature
	if err := fs.CborCust.Unmarshal(r.Body, &c); err != nil {
		panic("harness: 61: " + err.Error())
	}
	if err := fs.CborCust.Unmarshal(c.Payload, &s.P61); err != nil {
		panic("harness: 61 payload: " + err.Error())
	}
	s.Token = r.token()
	s.N61 = *c.Unprotected.CUPHNonce
	s.Entries = int(s.P61.NumOVEntries)
	s.proof, s.keyed = nil, false
}

// body64 is this session's proof; it is made once, so that its key stays.
func (s *rawSess) body64() []byte {
	if s.proof == nil {
		s.proof = s.makeProof(s.N61, s.priv, s.sg)
	}
	return s.proof
}

func (s *rawSess) makeKey() []byte {
	pub := s.d.finalPub()
	kex, err := fs.GenerateXABKeyExchange(s.opt.Kex, &pub)
	if err != nil {
		panic("harness: kex: " + err.Error())
	}
	key, err := fs.DeriveSessionKey(*kex, s.P61.XAKeyExchange, true, nil)
	if err != nil {
		panic("harness: key: " + err.Error())
	}
	s.r.SessionKey, s.r.CipherSuiteName, s.keyed = *key, s.opt.Cipher, true
	return kex.XAKeyExchange
}

func (s *rawSess) makeProof(nonce fs.FdoNonce, priv interface{}, sg fs.SgType) []byte {
	xb := s.makeKey()
	s.NSetup = fs.NewFdoNonce()
	pl := mustCbor(fs.EATPayloadBase{EatNonce: nonce, EatUEID: fs.GenerateEatGuid(s.d.Guid()), EatFDO: fs.TO2ProveDevicePayload{XBKeyExchange: xb}})
	c, err := fs.GenerateCoseSignature(pl, fs.ProtectedHeader{}, fs.UnprotectedHeader{EUPHNonce: &s.NSetup}, priv, sg)
	if err != nil {
		panic("harness: proof: " + err.Error())
	}
	return mustCbor(*c)
}

func (s *rawSess) seal(plain []byte) []byte {
	if !s.keyed {
		s.body64()
	}
	e, err := fs.AddEncryptionWrapping(plain, s.r.SessionKey, s.r.CipherSuiteName)
	if err != nil {
		panic("harness: seal: " + err.Error())
	}
	return e
}

func (s *rawSess) open(b []byte) ([]byte, error) {
	return fs.RemoveEncryptionWrapping(b, s.r.SessionKey, s.r.CipherSuiteName)
}

func (s *rawSess) body62(i int) []byte {
	return mustCbor(fs.GetOVNextEntry62{GetOVNextEntry: uint8(i)})
}
func (s *rawSess) body66() []byte {
	sz := uint16(1300)
	return s.seal(mustCbor(fs.DeviceServiceInfoReady66{ReplacementHMac: &s.P61.HMac, MaxOwnerServiceInfoSz: &sz}))
}
func (s *rawSess) body68(more bool, sims []fs.ServiceInfoKV) []byte {
	if sims == nil {
		sims = []fs.ServiceInfoKV{}
	}
	return s.seal(mustCbor(fs.DeviceServiceInfo68{IsMoreServiceInfo: more, ServiceInfo: sims}))
}
func (s *rawSess) body70() []byte { return s.seal(mustCbor(fs.Done70{NonceTO2ProveDv: s.N61})) }

// open69 reads an owner service info reply.
func (s *rawSess) open69(r rawReply) (o fs.OwnerServiceInfo69, err error) {
	b, err := s.open(r.Body)
	if err != nil {
		return o, err
	}
	return o, fs.CborCust.Unmarshal(b, &o)
}

// sessionKey is the storage key of a token ("" if it is none).
func sessionKey(token string) string {
	f := strings.Split(token, " ")
	if len(f) != 2 || f[0] != "Bearer" {
		return ""
	}
	return "session-" + f[1]
}

// record is the stored session of this token, "" if there is none.
func (w *World) sessionRecord(st *Storage, token string) string {
	k := sessionKey(token)
	if k == "" {
		return ""
	}
	return st.Dump()[k]
}
