package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"time"
)

func (t *T) tlsFiles() (string, string) {
	d := t.Dir("tls")
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	t.Must(err, "tls key")
	tpl := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "localhost"},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * 365 * time.Hour),
		DNSNames: []string{"localhost"}, IPAddresses: []net.IP{net.ParseIP("127.0.0.1")},
	}
	der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &key.PublicKey, key)
	t.Must(err, "tls cert")
	kb, err := x509.MarshalECPrivateKey(key)
	t.Must(err, "tls key")
	cf, kf := filepath.Join(d, "cert.pem"), filepath.Join(d, "key.pem")
	t.Must(os.WriteFile(cf, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o600), "tls cert")
	t.Must(os.WriteFile(kf, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), 0o600), "tls key")
	return cf, kf
}
