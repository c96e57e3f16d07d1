package fdosim

import (
	"crypto/rsa"
	"crypto/x509"
	_ "embed"
	"encoding/binary"
)

//go:embed rsakeys.bin
var rsaKeyFile []byte

var rsaKeys = map[int][]*rsa.PrivateKey{}

// loadRSAKeys runs before the first run, so that parsing takes nothing from a run's randomness.
func loadRSAKeys() {
	for b := rsaKeyFile; len(b) > 4; {
		bits, n := int(binary.BigEndian.Uint16(b)), int(binary.BigEndian.Uint16(b[2:]))
		k, err := x509.ParsePKCS1PrivateKey(b[4 : 4+n])
		if err != nil {
			panic("harness: " + err.Error())
		}
		rsaKeys[bits] = append(rsaKeys[bits], k)
		b = b[4+n:]
	}
}

// rsaStore replaces RSA key generation during a run: no key is handed out again
// before all others of its size were.
func (w *World) rsaStore() {
	next := map[int]int{}
	rsa.SimGenerateKey = func(bits int) *rsa.PrivateKey {
		l := rsaKeys[bits]
		if len(l) == 0 {
			return nil
		}
		if _, ok := next[bits]; !ok {
			next[bits] = w.Choose("rsa.first", len(l))
		}
		next[bits]++
		w.Count("rsa_keys_from_store")
		return l[next[bits]%len(l)]
	}
}
