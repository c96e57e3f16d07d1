package fdosim

// An independent reading of the TO2 tunnel: key agreement, key derivation and
// the encrypted messages, written from the specification's tables.

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"hash"
	"math/big"

	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

type refSuite struct {
	kdf, mac        func() hash.Hash
	key, svk, nonce int
	mode            string
	alg             int64
	macAlg          int64
}

var refSuites = map[fs.CipherSuiteName]refSuite{
	1:         {kdf: sha256.New, key: 16, nonce: 12, mode: "gcm", alg: 1},
	3:         {kdf: sha256.New, key: 32, nonce: 12, mode: "gcm", alg: 3},
	30:        {kdf: sha256.New, key: 16, nonce: 13, mode: "ccm", alg: 30},
	31:        {kdf: sha256.New, key: 32, nonce: 13, mode: "ccm", alg: 31},
	32:        {kdf: sha256.New, key: 16, nonce: 7, mode: "ccm", alg: 32},
	33:        {kdf: sha256.New, key: 32, nonce: 7, mode: "ccm", alg: 33},
	-17760704: {kdf: sha256.New, mac: sha256.New, key: 16, svk: 32, nonce: 16, mode: "ctr", alg: -17760704, macAlg: 5},
}

func refKDF(n int, h func() hash.Hash, key, ctx []byte) []byte {
	var out []byte
	for i := 1; len(out) < n; i++ {
		m := hmac.New(h, key)
		m.Write([]byte{byte(i)})
		m.Write([]byte("FIDO-KDF\x00AutomaticOnboardTunnel"))
		m.Write(ctx)
		m.Write([]byte{byte(n * 8 >> 8), byte(n * 8)})
		out = m.Sum(out)
	}
	return out[:n]
}

// refSecret is the session secret agreed between the device's key exchange
// contribution and the owner's.
func refSecret(r *to2.To2Requestor) (shse, ctx []byte, err error) {
	xa, xb, priv := r.XAKex, r.XBKEXParams.XAKeyExchange, r.XBKEXParams.Private
	switch r.KexSuiteName {
	case "ECDH256", "ECDH384":
		cv, n, rl := elliptic.P256(), 32, 16
		if r.KexSuiteName == "ECDH384" {
			cv, n, rl = elliptic.P384(), 48, 48
		}
		part := func(b []byte) ([][]byte, bool) {
			var o [][]byte
			for len(b) > 2 {
				l := int(binary.BigEndian.Uint16(b))
				if len(b) < 2+l {
					return nil, false
				}
				o = append(o, b[2:2+l])
				b = b[2+l:]
			}
			return o, len(o) == 3 && len(o[0]) == n && len(o[1]) == n && len(o[2]) == rl
		}
		a, ok1 := part(xa)
		b, ok2 := part(xb)
		if !ok1 || !ok2 {
			return nil, nil, errors.New("key exchange has a wrong form")
		}
		x, _ := cv.ScalarMult(new(big.Int).SetBytes(a[0]), new(big.Int).SetBytes(a[1]), priv)
		s := x.FillBytes(make([]byte, n)) // shared x (a whole field element), device random, owner random
		return append(append(s, b[2]...), a[2]...), []byte{}, nil
	case "DHKEXid14", "DHKEXid15":
		var k fs.DHKexPrivateKey
		if err := fs.CborCust.Unmarshal(priv, &k); err != nil {
			return nil, nil, err
		}
		p := rfc3526(2048)
		if r.KexSuiteName == "DHKEXid15" {
			p = rfc3526(3072)
		}
		z := new(big.Int).Exp(new(big.Int).SetBytes(xa), new(big.Int).SetBytes(k.X), p)
		return z.FillBytes(make([]byte, p.BitLen()/8)), []byte{}, nil
	case "ASYMKEX2048", "ASYMKEX3072":
		return priv, xa, nil
	}
	return nil, nil, errors.New("unknown key exchange")
}

// rfc3526 computes the MODP prime of the given size: 2^n - 2^(n-64) - 1 + 2^64 * ( [2^(n-130) pi] + c ).
func rfc3526(bits uint) *big.Int {
	c := map[uint]int64{2048: 124476, 3072: 1690314}[bits]
	// pi to bits-130 binary digits by Machin's formula
	prec := bits + 64
	one := new(big.Int).Lsh(big.NewInt(1), prec)
	arctan := func(x int64) *big.Int {
		t := new(big.Int).Div(one, big.NewInt(x))
		sum := new(big.Int).Set(t)
		x2 := big.NewInt(x * x)
		for n, sign := int64(3), -1; t.Sign() != 0; n, sign = n+2, -sign {
			t.Div(t, x2)
			q := new(big.Int).Div(t, big.NewInt(n))
			if sign < 0 {
				sum.Sub(sum, q)
			} else {
				sum.Add(sum, q)
			}
		}
		return sum
	}
	pi := new(big.Int).Mul(arctan(5), big.NewInt(16))
	pi.Sub(pi, new(big.Int).Mul(arctan(239), big.NewInt(4)))
	pi.Rsh(pi, prec-(bits-130))
	pi.Add(pi, big.NewInt(c))
	pi.Lsh(pi, 64)
	p := new(big.Int).Lsh(big.NewInt(1), bits)
	p.Sub(p, new(big.Int).Lsh(big.NewInt(1), bits-64))
	p.Sub(p, big.NewInt(1))
	return p.Add(p, pi)
}

// refOpen decrypts a tunnel message; the error says what is wrong with it.
func refOpen(msg []byte, suite fs.CipherSuiteName, shse, ctx []byte) ([]byte, error) {
	q, ok := refSuites[suite]
	if !ok {
		return nil, errors.New("suite has no reference")
	}
	root, rest, good := parseCbor(msg)
	if !good || len(rest) != 0 {
		return nil, errors.New("no CBOR item")
	}
	if root.major == 6 {
		root = root.kids[0]
	}
	keys := refKDF(q.key+q.svk, q.kdf, shse, ctx)
	svk, key := keys[:q.svk], keys[q.svk:]
	algOf := func(n *cnode) (int64, bool) {
		h, _, ok := parseCbor(n.data)
		if !ok || h.major != 5 || len(h.kids) < 2 || h.kids[0].val != 1 {
			return 0, false
		}
		if h.kids[1].major == 1 {
			return -1 - int64(h.kids[1].val), true
		}
		return int64(h.kids[1].val), true
	}
	if q.mode == "ctr" {
		if root.major != 4 || len(root.kids) != 4 {
			return nil, errors.New("no MAC block")
		}
		if a, ok := algOf(root.kids[0]); !ok || a != q.macAlg {
			return nil, errors.New("MAC algorithm is not the suite's")
		}
		pl := root.kids[2].data
		tbs := append([]byte{0x84}, cborHead(3, 4)...)
		tbs = append(tbs, "MAC0"...)
		good := false
		for _, prot := range [][]byte{root.kids[0].data, append(cborHead(2, uint64(len(root.kids[0].data))), root.kids[0].data...)} {
			for _, tag := range [][]byte{nil, {0xd1}} {
				b := append(append([]byte{}, tag...), tbs...)
				b = append(append(b, prot...), 0x40)
				b = append(append(b, cborHead(2, uint64(len(pl)))...), pl...)
				m := hmac.New(q.mac, svk)
				m.Write(b)
				good = good || hmac.Equal(m.Sum(nil), root.kids[3].data)
			}
		}
		if !good {
			return nil, errors.New("MAC does not verify")
		}
		in, rest, ok := parseCbor(pl)
		if !ok || len(rest) != 0 {
			return nil, errors.New("inner block is no CBOR")
		}
		if in.major == 6 {
			in = in.kids[0]
		}
		root = in
	}
	if root.major != 4 || len(root.kids) != 3 || root.kids[0].major != 2 || root.kids[1].major != 5 || root.kids[2].major != 2 {
		return nil, errors.New("no encryption block")
	}
	if a, ok := algOf(root.kids[0]); !ok || a != q.alg {
		return nil, errors.New("algorithm is not the suite's")
	}
	var iv []byte
	for i := 0; i+1 < len(root.kids[1].kids); i += 2 {
		if k := root.kids[1].kids[i]; k.major == 0 && k.val == 5 {
			iv = root.kids[1].kids[i+1].data
		}
	}
	if len(iv) != q.nonce {
		return nil, errors.New("initialisation vector has a wrong length")
	}
	ct := root.kids[2].data
	blk, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
	prot := root.kids[0].data
	aad := append([]byte{0x83}, cborHead(3, 8)...)
	aad = append(aad, "Encrypt0"...)
	aad = append(append(aad, cborHead(2, uint64(len(prot)))...), prot...)
	aad = append(aad, 0x40)
	switch q.mode {
	case "ctr":
		out := make([]byte, len(ct))
		cipher.NewCTR(blk, iv).XORKeyStream(out, ct)
		return out, nil
	case "gcm":
		g, err := cipher.NewGCM(blk)
		if err != nil {
			return nil, err
		}
		return g.Open(nil, iv, ct, aad)
	}
	return refCCMOpen(blk, iv, ct, aad)
}

// refCCMOpen is RFC 3610 with a 16-byte tag.
func refCCMOpen(blk cipher.Block, nonce, ct, aad []byte) ([]byte, error) {
	const tl = 16
	if len(ct) < tl {
		return nil, errors.New("short")
	}
	l := 15 - len(nonce)
	ctr := make([]byte, 16)
	ctr[0] = byte(l - 1)
	copy(ctr[1:], nonce)
	s := cipher.NewCTR(blk, ctr)
	t := make([]byte, 16)
	s.XORKeyStream(t, ct[len(ct)-tl:])
	pt := make([]byte, len(ct)-tl)
	s.XORKeyStream(pt, ct[:len(ct)-tl])
	b := make([]byte, 16)
	b[0] = byte(0x40 | (tl-2)/2<<3 | (l - 1))
	copy(b[1:], nonce)
	for i, n := 15, len(pt); i > 15-l && n > 0; i, n = i-1, n>>8 {
		b[i] = byte(n)
	}
	x := make([]byte, 16)
	mac := func(d []byte) {
		for len(d) > 0 {
			blkIn := make([]byte, 16)
			n := copy(blkIn, d)
			d = d[n:]
			for i := range x {
				x[i] ^= blkIn[i]
			}
			blk.Encrypt(x, x)
		}
	}
	mac(b)
	mac(append([]byte{byte(len(aad) >> 8), byte(len(aad))}, aad...))
	mac(pt)
	if !bytes.Equal(x, t) {
		return nil, errors.New("tag does not verify")
	}
	return pt, nil
}

// sameTunnel: both messages hold the same protected values (they differ at
// most in what nobody authenticates or in how a value is encoded).
func sameTunnel(a, b []byte) bool {
	if sameCbor(a, b) && len(a) == len(b) || bytes.Equal(a, b) {
		return true
	}
	var m, n fs.ETMOuterBlock
	if fs.CborCust.Unmarshal(a, &m) == nil && fs.CborCust.Unmarshal(b, &n) == nil {
		var p, q fs.ProtectedHeader
		return fs.CborCust.Unmarshal(m.Protected, &p) == nil && fs.CborCust.Unmarshal(n.Protected, &q) == nil &&
			bytes.Equal(mustCbor(p), mustCbor(q)) && bytes.Equal(m.Payload, n.Payload) && bytes.Equal(m.Tag, n.Tag)
	}
	var x, y fs.EMB_ETMInnerBlock
	if fs.CborCust.Unmarshal(a, &x) == nil && fs.CborCust.Unmarshal(b, &y) == nil {
		return bytes.Equal(mustCbor(x), mustCbor(y))
	}
	return false
}
