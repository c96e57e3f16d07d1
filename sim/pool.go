package fdosim

// The pool: device credentials, vouchers and owner keys made by the real
// generators once per check, in a seeded process, and shared by all runs.

import (
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"fmt"
	"os"

	fdodev "github.com/fido-alliance/iot-fdo-conformance-tools/core/device"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
)

type PoolDev struct {
	_       struct{} `cbor:",toarray"`
	Cred    fdoshared.WawDeviceCredential
	VDB     fdoshared.VoucherDBEntry
	DevSg   fdoshared.SgType
	OwnerSg fdoshared.SgType
}

type PoolKey struct {
	_   struct{} `cbor:",toarray"`
	Sg  fdoshared.SgType
	Der []byte
}

type Pool struct {
	_     struct{} `cbor:",toarray"`
	Devs  []PoolDev
	Creds []fdoshared.WawDeviceCredential // extra credentials (both device key types)
	Keys  []PoolKey                       // RSA owner keys for chains built by the harness
}

var pool Pool

var devSgs = []fdoshared.SgType{fdoshared.StSECP256R1, fdoshared.StSECP384R1}
var ownerSgs = []fdoshared.SgType{fdoshared.StSECP256R1, fdoshared.StSECP384R1, fdoshared.StRSA2048, fdoshared.StRSA3072}

func sgName(s fdoshared.SgType) string {
	switch s {
	case fdoshared.StSECP256R1:
		return "P256"
	case fdoshared.StSECP384R1:
		return "P384"
	case fdoshared.StRSA2048:
		return "RSA2048"
	case fdoshared.StRSA3072:
		return "RSA3072"
	}
	return fmt.Sprint(int(s))
}

func defaultRvInfo() fdoshared.RendezvousInfo {
	rv, err := fdoshared.UrlsToRendezvousInfo([]string{"http://10.1.2.3:8080", "https://rv.fdo.example:443"})
	if err != nil {
		panic("harness: rvinfo: " + err.Error())
	}
	return rv
}

// buildPoolPart makes part k of n.
func buildPoolPart(k, n, perCombo int) Pool {
	var p Pool
	i := 0
	for _, d := range devSgs {
		for _, o := range ownerSgs {
			for r := 0; r < perCombo; r++ {
				i++
				if i%n != k {
					continue
				}
				cred, err := fdoshared.NewWawDeviceCredential(d)
				if err != nil {
					panic(err)
				}
				dv, err := fdodev.NewVirtualDeviceAndVoucher(*cred, o, defaultRvInfo(), testcom.NULL_TEST)
				if err != nil {
					panic(err)
				}
				p.Devs = append(p.Devs, PoolDev{Cred: dv.WawDeviceCredential, VDB: dv.VoucherDBEntry, DevSg: d, OwnerSg: o})
			}
		}
	}
	for c := 0; c < 48; c++ {
		if c%n != k {
			continue
		}
		cred, err := fdoshared.NewWawDeviceCredential(devSgs[(c/n)%2])
		if err != nil {
			panic(err)
		}
		p.Creds = append(p.Creds, *cred)
	}
	for c := 0; c < 16; c++ {
		if c%n != k {
			continue
		}
		sg := fdoshared.StRSA2048
		bits := 2048
		if (c/n)%2 == 1 {
			sg, bits = fdoshared.StRSA3072, 3072
		}
		key, err := rsa.GenerateKey(rand.Reader, bits)
		if err != nil {
			panic(err)
		}
		der, err := x509.MarshalPKCS8PrivateKey(key)
		if err != nil {
			panic(err)
		}
		p.Keys = append(p.Keys, PoolKey{Sg: sg, Der: der})
	}
	return p
}

func savePool(p Pool, path string) {
	b, err := fdoshared.CborCust.Marshal(p)
	if err != nil {
		panic("harness: pool encode: " + err.Error())
	}
	if err := os.WriteFile(path, b, 0o600); err != nil {
		panic(err)
	}
}

func loadPool(paths []string) {
	for _, path := range paths {
		b, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		var p Pool
		if err := fdoshared.CborCust.Unmarshal(b, &p); err != nil {
			panic("harness: pool decode: " + err.Error())
		}
		pool.Devs = append(pool.Devs, p.Devs...)
		pool.Creds = append(pool.Creds, p.Creds...)
		pool.Keys = append(pool.Keys, p.Keys...)
	}
	loadRSAKeys()
}

var _ = bytes.Equal
