package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"math/big"
	"net"
	"sync"
	"time"
)

var (
	tlsOnce sync.Once
	tlsKey  *ecdsa.PrivateKey
	tlsCA   *x509.Certificate
	tlsPool *x509.CertPool
)

func makeTLS() {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		panic(err)
	}
	tlsKey = key
	t := template(1)
	t.IsCA, t.BasicConstraintsValid = true, true
	t.KeyUsage |= x509.KeyUsageCertSign
	der, err := x509.CreateCertificate(crand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	if tlsCA, err = x509.ParseCertificate(der); err != nil {
		panic(err)
	}
	tlsPool = x509.NewCertPool()
	tlsPool.AddCert(tlsCA)
}

func template(serial int64) *x509.Certificate {
	return &x509.Certificate{
		SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: "fake"},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		KeyUsage:    x509.KeyUsageDigitalSignature,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
	}
}

// serverTLS gives to each server a certificate for the address that it listens to.
func serverTLS() *tls.Config {
	tlsOnce.Do(makeTLS)
	return &tls.Config{GetCertificate: func(h *tls.ClientHelloInfo) (*tls.Certificate, error) {
		t := template(time.Now().UnixNano())
		t.IPAddresses = []net.IP{h.Conn.LocalAddr().(*net.TCPAddr).IP}
		der, err := x509.CreateCertificate(crand.Reader, t, tlsCA, &tlsKey.PublicKey, tlsKey)
		return &tls.Certificate{Certificate: [][]byte{der}, PrivateKey: tlsKey}, err
	}}
}

func clientTLS() *tls.Config {
	tlsOnce.Do(makeTLS)
	return &tls.Config{RootCAs: tlsPool}
}
