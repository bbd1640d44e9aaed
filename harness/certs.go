package main

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/pem"
	"fmt"
	"math/big"
	"sync"
	"sync/atomic"
	"time"
)

var (
	oidPoison = asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 11129, 2, 4, 3}
	oidCTEKU  = asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 11129, 2, 4, 4}
	poisonExt = pkix.Extension{Id: oidPoison, Critical: true, Value: []byte{5, 0}}
)

type CA struct {
	Name string
	Cert *x509.Certificate
	Key  crypto.Signer
	Up   *CA // issuer, nil for a root
}

var serial int64 = 1000

func newSerial() *big.Int { return big.NewInt(atomic.AddInt64(&serial, 1)) }

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func newKey() *ecdsa.PrivateKey {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	return k
}

func newCA(name string, up *CA, key crypto.Signer, ctEKU bool) *CA {
	return newCert(name, up, key, ctEKU, true)
}

func newCert(name string, up *CA, key crypto.Signer, ctEKU, isCA bool) *CA {
	return newCertAt(name, up, key, ctEKU, isCA, time.Date(2019, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2040, 1, 1, 0, 0, 0, 0, time.UTC))
}

func newCertAt(name string, up *CA, key crypto.Signer, ctEKU, isCA bool, nb, na time.Time) *CA {
	if key == nil {
		key = newKey()
	}
	spki, err := x509.MarshalPKIXPublicKey(key.Public())
	must(err)
	ski := sha256.Sum256(spki)
	t := &x509.Certificate{
		SerialNumber: newSerial(), Subject: pkix.Name{CommonName: name, Organization: []string{"verif"}},
		NotBefore: nb, NotAfter: na,
		IsCA: isCA, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign, SubjectKeyId: ski[:20],
	}
	if ctEKU {
		t.UnknownExtKeyUsage = []asn1.ObjectIdentifier{oidCTEKU}
	}
	parent, pk := t, crypto.Signer(key)
	if up != nil {
		parent, pk = up.Cert, up.Key
	}
	der, err := x509.CreateCertificate(rand.Reader, t, parent, key.Public(), pk)
	must(err)
	c, err := x509.ParseCertificate(der)
	must(err)
	return &CA{name, c, key, up}
}

func (c *CA) chainUp() (out []*CA) {
	for x := c; x != nil; x = x.Up {
		out = append(out, x)
	}
	return
}

// PKI is shared by all worlds of a run.
type PKI struct {
	R1, R2, RX *CA // RX is not advertised
	I1, I2, I3 *CA // I1 <- R1, I2 <- I1, I3 <- I2
	P1         *CA // precertificate signing certificate under I1 (CT EKU)
	P1n        *CA // same key and name as P1, without the CT EKU (ordinary CA)
	IX         *CA // under RX
	I1b        *CA // same key and subject as I1, other serial, under R2 (cross-signed)
	Deep       []*CA
	RR, IR     *CA // RSA root, P-384 intermediate under it
	RP         *CA // root marked as precertificate signing
	PR         *CA // precertificate signing certificate under R2
	RXp, RFt   *CA // roots that expired, and that are not valid yet
	R1t        *CA // root with the name of R1 and another key
	I1t        *CA // intermediate with the name of I1 and another key, under R1t
	NC         *CA // not a CA
	I1s        *CA // I1 with a forged signature
	LogKey     *ecdsa.PrivateKey
	OtherKey   *ecdsa.PrivateKey
	LeafKey    *ecdsa.PrivateKey
	LogID      [32]byte
	PubDER     []byte
	baseCert   []byte
	baseIss    []*CA
}

var pkiOnce sync.Once
var pki *PKI

func getPKI() *PKI {
	pkiOnce.Do(func() {
		p := &PKI{}
		p.R1, p.R2, p.RX = newCA("root one", nil, nil, false), newCA("root two", nil, nil, false), newCA("root x", nil, nil, false)
		p.I1 = newCA("int one", p.R1, nil, false)
		p.I2 = newCA("int two", p.I1, nil, false)
		p.I3 = newCA("int three", p.I2, nil, false)
		p.P1 = newCA("preissuer", p.I1, nil, true)
		p.P1n = newCA("preissuer", p.I1, p.P1.Key, false)
		p.IX = newCA("int x", p.RX, nil, false)
		p.I1b = newCA("int one", p.R2, p.I1.Key, false)
		up := p.I1
		for i := 0; i < 14; i++ {
			up = newCA(fmt.Sprintf("deep %d", i), up, nil, false)
			p.Deep = append(p.Deep, up)
		}
		rk, err := rsa.GenerateKey(rand.Reader, 2048)
		must(err)
		p.RR = newCA("root rsa", nil, rk, false)
		k384, err := ecdsa.GenerateKey(elliptic.P384(), rand.Reader)
		must(err)
		p.IR = newCA("int p384", p.RR, k384, false)
		p.RP = newCA("root pre", nil, nil, true)
		p.PR = newCA("preissuer two", p.R2, nil, true)
		p.NC = newCert("no ca", p.I1, nil, false, false)
		p.R1t = newCA("root one", nil, nil, false)
		p.I1t = newCA("int one", p.R1t, nil, false)
		p.RXp = newCertAt("root expired", nil, nil, false, true, time.Date(2001, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC))
		p.RFt = newCertAt("root to come", nil, nil, false, true, time.Date(2039, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2049, 12, 31, 0, 0, 0, 0, time.UTC))
		forged := append([]byte(nil), p.I1.Cert.Raw...)
		forged[len(forged)-1] ^= 1
		fc, err := x509.ParseCertificate(forged)
		must(err)
		p.I1s = &CA{"int one", fc, p.I1.Key, p.R1}
		p.LogKey, p.OtherKey, p.LeafKey = newKey(), newKey(), newKey()
		d, err := x509.MarshalPKIXPublicKey(&p.LogKey.PublicKey)
		must(err)
		p.PubDER = d
		p.LogID = sha256.Sum256(d)
		p.baseCert = makeLeaf(p.I1, leafOpts{}).DER[0]
		p.baseIss = p.I1.chainUp()
		pki = p
	})
	return pki
}

func keyPEM(k *ecdsa.PrivateKey) []byte {
	d, err := x509.MarshalECPrivateKey(k)
	must(err)
	return pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: d})
}

// Sub is one distinct submission (a chain), with what the log is expected to record.
type Sub struct {
	ID    int
	DER   [][]byte // as submitted
	Pre   bool
	Body  []byte   // x509: certificate, precert: TBS without poison
	IKH   [32]byte // precert only
	Chain [][]byte // expected chain[1:] including the root
	Valid bool
	Raw   []byte // raw request body instead of DER
	Label string
}

type leafOpts struct {
	Pre      bool
	NotAfter time.Time
	Pad      int // extra bytes in an extension
	DropRoot bool
	Path     []*CA  // explicit path (issuer first) when it differs from issuer.chainUp()
	Kind     string // "": by Pre, bad1: poison not critical, bad2: poison with another value
	BadSig   bool
	Order    int // 1: the poison extension comes before all others, 2: in the middle
	Bare     bool
}

type akid struct {
	ID []byte `asn1:"optional,tag:0"`
}

func makeLeaf(issuer *CA, o leafOpts) *Sub {
	na := o.NotAfter
	if na.IsZero() {
		na = time.Date(2025, 6, 1, 0, 0, 0, 0, time.UTC)
	}
	sn := newSerial()
	tmpl := func(pre bool, ca *CA) *x509.Certificate {
		t := &x509.Certificate{SerialNumber: sn, Subject: pkix.Name{CommonName: fmt.Sprintf("leaf %v", sn)},
			NotBefore: time.Date(2019, 6, 1, 0, 0, 0, 0, time.UTC), NotAfter: na}
		if !o.Bare {
			t.DNSNames = []string{fmt.Sprintf("l%v.example", sn)}
		}
		poison := func() {
			switch {
			case o.Kind == "bad1":
				x := poisonExt
				x.Critical = false
				t.ExtraExtensions = append(t.ExtraExtensions, x)
			case o.Kind == "bad2":
				x := poisonExt
				x.Value = []byte{4, 0}
				t.ExtraExtensions = append(t.ExtraExtensions, x)
			case pre:
				t.ExtraExtensions = append(t.ExtraExtensions, poisonExt)
			}
		}
		if o.Order == 1 {
			poison()
		}
		if o.Order > 0 {
			// given explicitly, the key identifier keeps its place in the list
			v, err := asn1.Marshal(akid{ca.Cert.SubjectKeyId})
			must(err)
			t.ExtraExtensions = append(t.ExtraExtensions, pkix.Extension{Id: asn1.ObjectIdentifier{2, 5, 29, 35}, Value: v})
		}
		if o.Order == 2 {
			poison()
		}
		if o.Pad > 0 {
			t.ExtraExtensions = append(t.ExtraExtensions, pkix.Extension{Id: asn1.ObjectIdentifier{1, 2, 3, 4, 5}, Value: make([]byte, o.Pad)})
		}
		if o.Order == 0 {
			poison()
		}
		return t
	}
	der, err := x509.CreateCertificate(rand.Reader, tmpl(o.Pre, issuer), issuer.Cert, leafPub(), issuer.Key)
	must(err)
	if o.BadSig {
		der[len(der)-1] ^= 1
	}
	s := &Sub{Pre: o.Pre, Valid: true}
	path := o.Path
	if path == nil {
		path = issuer.chainUp()
	}
	s.DER = append(s.DER, der)
	for i, c := range path {
		s.Chain = append(s.Chain, c.Cert.Raw)
		if i == len(path)-1 && o.DropRoot {
			break
		}
		s.DER = append(s.DER, c.Cert.Raw)
	}
	final := issuer
	if o.Pre && len(path) > 1 && isPreIssuer(path[0]) {
		final = path[1]
	}
	s.setBody(der, tmpl(false, final), path, issuer)
	return s
}

// setBody computes the entry the log must record for this path: the certificate, or what the
// final issuer would have signed without the poison.
func (s *Sub) setBody(der []byte, plain *x509.Certificate, path []*CA, issuer *CA) {
	if !s.Pre {
		s.Body = der
		return
	}
	if len(path) == 0 || (isPreIssuer(path[0]) && len(path) < 2) {
		return // never to be logged
	}
	final, fpath := issuer, path
	if isPreIssuer(path[0]) {
		final, fpath = path[1], path[1:]
	}
	d2, err := x509.CreateCertificate(rand.Reader, plain, final.Cert, leafPub(), final.Key)
	must(err)
	c2, err := x509.ParseCertificate(d2)
	must(err)
	s.Body = c2.RawTBSCertificate
	s.IKH = sha256.Sum256(fpath[0].Cert.RawSubjectPublicKeyInfo)
}

func isPreIssuer(c *CA) bool {
	for _, e := range c.Cert.UnknownExtKeyUsage {
		if e.Equal(oidCTEKU) {
			return true
		}
	}
	return false
}

var leafPubOnce sync.Once
var leafPubKey *ecdsa.PublicKey

func leafPub() *ecdsa.PublicKey {
	leafPubOnce.Do(func() { leafPubKey = &newKey().PublicKey })
	return leafPubKey
}

// makePrePair returns one precertificate submitted through two valid chains whose RFC 6962
// entries differ: via a precertificate signing certificate (entry re-issued to I1), and via
// an ordinary CA certificate with the same name and key.
func makePrePair() (*Sub, *Sub) {
	p := getPKI()
	sn := newSerial()
	tmpl := func(pre bool) *x509.Certificate {
		t := &x509.Certificate{SerialNumber: sn, Subject: pkix.Name{CommonName: fmt.Sprintf("leaf %v", sn)},
			NotBefore: time.Date(2019, 6, 1, 0, 0, 0, 0, time.UTC), NotAfter: time.Date(2025, 6, 1, 0, 0, 0, 0, time.UTC)}
		if pre {
			t.ExtraExtensions = append(t.ExtraExtensions, poisonExt)
		}
		return t
	}
	der, err := x509.CreateCertificate(rand.Reader, tmpl(true), p.P1.Cert, leafPub(), p.P1.Key)
	must(err)
	mk := func(path []*CA, issuer *CA) *Sub {
		s := &Sub{Pre: true, Valid: true}
		s.DER = append(s.DER, der)
		for _, c := range path {
			s.DER = append(s.DER, c.Cert.Raw)
			s.Chain = append(s.Chain, c.Cert.Raw)
		}
		s.setBody(der, tmpl(false), path, issuer)
		return s
	}
	return mk(p.P1.chainUp(), p.P1), mk(p.P1n.chainUp(), p.P1n)
}
