package verifpbt

import (
	"bytes"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"math/big"
	"sync"
	"testing"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
	"pgregory.net/rapid"

	"github.com/way-platform/tachograph-go/internal/security"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
)

// ---- first-generation keys and certificates -----------------------------------

type rsaKey struct {
	n, e, d *big.Int
	chr     uint64
}

func (k rsaKey) modulus() []byte  { return k.n.FillBytes(make([]byte, 128)) }
func (k rsaKey) exponent() []byte { return k.e.FillBytes(make([]byte, 8)) }

// rsaKeys makes key pairs of 1024-bit and nearly 1024-bit moduli with all kinds of exponents.
var rsaKeys = sync.OnceValue(func() []rsaKey {
	x := newXS(20250101)
	prime := func(bits int) *big.Int {
		for {
			b := make([]byte, bits/8)
			for i := range b {
				b[i] = byte(x.next())
			}
			b[0] |= 0xC0
			if bits == 504 {
				b[0] = 0xFF
			}
			b[len(b)-1] |= 1
			if p := new(big.Int).SetBytes(b); p.ProbablyPrime(12) {
				return p
			}
		}
	}
	one := big.NewInt(1)
	var out []rsaKey
	for len(out) < 10 {
		p, q := prime(512), prime(512)
		n := new(big.Int).Mul(p, q)
		if len(out) >= 8 {
			// A small leading byte: the signature is a byte shorter than the field.
			for {
				b := make([]byte, 128)
				b[0], b[1] = 0x6B+byte(x.intn(0x14)), byte(x.next())
				q = new(big.Int).Div(new(big.Int).SetBytes(b), p)
				q.SetBit(q, 0, 1)
				for !q.ProbablyPrime(12) {
					q.Add(q, big.NewInt(2))
				}
				n = new(big.Int).Mul(p, q)
				if n.BitLen() == 1023 {
					break
				}
			}
		}
		phi := new(big.Int).Mul(new(big.Int).Sub(p, one), new(big.Int).Sub(q, one))
		e := []*big.Int{big.NewInt(65537), big.NewInt(3), big.NewInt(17), new(big.Int).SetUint64(x.next() | 1<<63 | 1)}[len(out)%4]
		for new(big.Int).GCD(nil, nil, e, phi).Cmp(one) != 0 {
			e = new(big.Int).Add(e, big.NewInt(2))
		}
		out = append(out, rsaKey{n: n, e: e, d: new(big.Int).ModInverse(e, phi), chr: x.next()})
	}
	return out
})

// content is the signed content of a first-generation certificate.
type content1 struct {
	cpi      byte
	car, chr uint64
	cha      []byte
	eov      uint32
	n, e     []byte
}

func (v content1) bytes() []byte {
	return cat([]byte{v.cpi}, u64(v.car), v.cha, u32(v.eov), u64(v.chr), v.n, v.e)
}

func u64(v uint64) []byte { return cat(u32(uint32(v>>32)), u32(uint32(v))) }

// sign issues a certificate as Appendix 11, CSM_018 lays down; forge changes the block
// before it is signed.
func (k rsaKey) sign(content []byte, car uint64, forge func(block []byte)) []byte {
	hash := sha1.Sum(content)
	block := cat([]byte{0x6A}, content[:106], hash[:], []byte{0xBC})
	if forge != nil {
		forge(block)
	}
	s := new(big.Int).SetBytes(block)
	s.Exp(s, k.d, k.n)
	return cat(s.FillBytes(make([]byte, 128)), content[106:], u64(car))
}

func gCHR(t *rapid.T, label string) uint64 {
	return rapid.OneOf(rapid.Just(uint64(0)), rapid.Just(^uint64(0)), rapid.Uint64()).Draw(t, label)
}

func (g *G) content1(car uint64) content1 {
	t := g.t
	v := content1{cpi: 1, car: car, cha: gBytes(t, 7, "cha"), eov: gU32(t, "eov"), chr: gCHR(t, "chr"), n: gBytes(t, 128, "n"), e: gBytes(t, 8, "e")}
	if oneIn(t, 4, "odd profile") {
		v.cpi = gByte(t, "cpi")
	}
	return v
}

// ca1 is the issuer side of a verification: an authority's certificate or the root.
type ca1 struct {
	name     string
	n, e     []byte
	chr      string
	root     bool
	missing  bool
	modifier string
}

func (a ca1) verify(cert *securityv1.RsaCertificate) error {
	if a.root {
		var r *securityv1.RootCertificate
		if !a.missing {
			r = &securityv1.RootCertificate{}
			r.SetKeyId(a.chr)
			r.SetRsaModulus(a.n)
			r.SetRsaExponent(a.e)
		}
		return security.VerifyRsaCertificateWithRoot(cert, r)
	}
	var c *securityv1.RsaCertificate
	if !a.missing {
		c = &securityv1.RsaCertificate{}
		c.SetCertificateHolderReference(a.chr)
		c.SetRsaModulus(a.n)
		c.SetRsaExponent(a.e)
	}
	return security.VerifyRsaCertificateWithCA(cert, c)
}

func issuer1(k rsaKey, chr uint64, root bool) ca1 {
	return ca1{name: "its issuer", n: k.modulus(), e: k.exponent(), chr: fmt.Sprint(chr), root: root}
}

// wrongCA1 draws an issuer under which the certificate must not verify.
func (g *G) wrongCA1(right ca1, own rsaKey, chr uint64) ca1 {
	t := g.t
	a := right
	switch rapid.SampledFrom([]string{"key", "exponent", "name", "no modulus", "no exponent", "nothing", "modulus bit", "zero modulus"}).Draw(t, "wrong issuer") {
	case "key":
		keys := rsaKeys()
		k := keys[position(t, len(keys), "other key")]
		if k.n.Cmp(own.n) == 0 {
			k = keys[(position(t, len(keys)-1, "another key")+1)%len(keys)]
			if k.n.Cmp(own.n) == 0 {
				k = keys[0]
			}
			if k.n.Cmp(own.n) == 0 {
				k = keys[1]
			}
		}
		a.name, a.n, a.e = "the name of its issuer with another key", k.modulus(), k.exponent()
	case "exponent":
		e := new(big.Int).Add(own.e, big.NewInt(2))
		if e.BitLen() > 64 {
			e.Sub(own.e, big.NewInt(2))
		}
		a.name, a.e = "the key of its issuer with another exponent", e.FillBytes(make([]byte, 8))
	case "name":
		other := gCHR(t, "other name")
		if other == chr {
			other++
		}
		a.name, a.chr = "the key of its issuer under another name", fmt.Sprint(other)
		switch right := fmt.Sprint(chr); rapid.SampledFrom([]string{"other", "other", "none", "cut", "extended"}).Draw(t, "name kind") {
		case "none":
			a.name, a.chr = "the key of its issuer without a name", ""
		case "cut":
			a.name, a.chr = "the key of its issuer under a part of its name", right[:len(right)-1]
		case "extended":
			a.name, a.chr = "the key of its issuer under a longer name", right+"0"
			if chr == 0 {
				a.chr = "10"
			}
		}
	case "no modulus":
		a.name, a.n = "an issuer without modulus", nil
	case "no exponent":
		a.name, a.e = "an issuer without exponent", nil
	case "nothing":
		a.name, a.missing = "no issuer", true
	case "modulus bit":
		a.n = exact(a.n)
		i := position(t, 1024, "bit")
		a.n[i/8] ^= 1 << (i % 8)
		a.name = fmt.Sprintf("the key of its issuer with bit %d of the modulus flipped", i)
	case "zero modulus":
		a.name, a.n = "an issuer with a modulus of zero", make([]byte, 128)
	}
	return a
}

// alter1 changes the bytes of a certificate.
func (g *G) alter1(cert []byte, k rsaKey) (out []byte, what string) {
	t := g.t
	out = exact(cert)
	for {
		switch rapid.SampledFrom([]string{"bit", "bytes", "part", "wrap", "shorter", "longer", "empty", "negate"}).Draw(t, "alteration") {
		case "bit":
			i := position(t, 8*194, "bit")
			out[i/8] ^= 1 << (i % 8)
			what = fmt.Sprintf("bit %d of byte %d flipped", i%8, i/8)
		case "bytes":
			n := gInt(t, 1, 5, "count")
			for i := 0; i < n; i++ {
				out[position(t, 194, "at")] = gByte(t, "value")
			}
			what = fmt.Sprintf("%d bytes overwritten", n)
		case "part":
			r := rapid.SampledFrom([][2]int{{0, 128}, {128, 186}, {186, 194}}).Draw(t, "part")
			copy(out[r[0]:r[1]], g.random(r[1]-r[0], "replacement"))
			what = fmt.Sprintf("bytes %d to %d replaced", r[0], r[1])
		case "wrap":
			// The same residue, stored as a number outside the modulus.
			s := new(big.Int).SetBytes(out[:128])
			s.Add(s, k.n)
			if s.BitLen() > 1024 {
				continue
			}
			s.FillBytes(out[:128])
			what = "the modulus added to the signature"
		case "negate":
			s := new(big.Int).SetBytes(out[:128])
			s.Sub(k.n, s).FillBytes(out[:128])
			what = "the signature negated"
		case "shorter":
			out = out[:position(t, 194, "length")]
			what = fmt.Sprintf("cut to %d bytes", len(out))
		case "longer":
			out = append(out, gBytes(t, gInt(t, 1, 20, "extra"), "extra bytes")...)
			what = fmt.Sprintf("extended to %d bytes", len(out))
		case "empty":
			out, what = nil, "no bytes"
		}
		if !bytes.Equal(out, cert) {
			return out, what
		}
		out = exact(cert)
		out[127] ^= 1
		return out, "bit 0 of byte 127 flipped"
	}
}

func checkContent1(c *C, t *rapid.T, cert *securityv1.RsaCertificate, v content1, raw []byte) {
	want := &securityv1.RsaCertificate{}
	want.SetCertificateHolderReference(fmt.Sprint(v.chr))
	want.SetCertificateAuthorityReference(fmt.Sprint(v.car))
	want.SetEndOfValidity(&timestamppb.Timestamp{Seconds: int64(v.eov)})
	want.SetRsaModulus(v.n)
	want.SetRsaExponent(v.e)
	want.SetRawData(raw)
	want.SetSignatureValid(true)
	if d := diffMsg(cert, want); d != "" {
		c.failf(t, "a verified certificate reports something other than what was signed: %s", d)
	}
}

// rsaCert makes the message for certificate bytes, decoded when they have the right size.
func rsaCert(raw []byte) *securityv1.RsaCertificate {
	m, err := security.UnmarshalRsaCertificate(raw)
	if err != nil {
		m = &securityv1.RsaCertificate{}
		m.SetRawData(raw)
	}
	return m
}

func TestC20(t *testing.T) {
	draw := func(g *G, c *C) (k rsaKey, v content1, raw []byte, right ca1) {
		keys := rsaKeys()
		k = keys[position(g.t, len(keys), "key")]
		chr := gCHR(g.t, "issuer")
		v = g.content1(chr)
		raw = k.sign(v.bytes(), chr, nil)
		right = issuer1(k, chr, gBool(g.t, "root"))
		c.in("certificate", raw)
		c.in("modulus", k.modulus())
		c.in("exponent", k.exponent())
		c.in("issuer", right.chr)
		return
	}
	run(t, "C20", "a certificate whose signature had to be opened",
		sub{"issued", 600, 20000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			k, v, raw, right := draw(g, c)
			cert := rsaCert(exact(raw))
			var err error
			guard(c, t, "verification", func() { err = right.verify(cert) })
			if err != nil {
				c.failf(t, "a certificate signed by its issuer does not verify: %v", err)
			}
			checkContent1(c, t, cert, v, raw)
			c.class("verified with " + map[bool]string{true: "the root", false: "an authority"}[right.root])
			c.classIf(k.n.BitLen() < 1024, "modulus below 1024 bits")
			c.classIf(raw[0] == 0, "signature with a leading zero byte")
			c.nontrivial(raw)
		}},
		sub{"altered", 1200, 40000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			k, _, raw, right := draw(g, c)
			bad, what := g.alter1(raw, k)
			c.in("altered", bad)
			c.in("alteration", what)
			cert := rsaCert(exact(bad))
			if gBool(t, "was valid") {
				cert.SetSignatureValid(true)
			}
			before := proto.CloneOf(cert)
			var err error
			guard(c, t, "verification", func() { err = right.verify(cert) })
			if err == nil {
				c.failf(t, "a certificate with %s verifies", what)
			}
			failed(c, t, before, cert, what)
			if len(bad) == 194 {
				c.class("altered in place")
				c.nontrivial(bad)
			} else {
				c.class("wrong size")
			}
		}},
		sub{"wrong issuer", 600, 20000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			k, v, raw, right := draw(g, c)
			wrong := g.wrongCA1(right, k, v.car)
			c.in("wrong issuer", wrong.name)
			cert := rsaCert(exact(raw))
			if gBool(t, "was valid") {
				cert.SetSignatureValid(true)
			}
			before := proto.CloneOf(cert)
			var err error
			guard(c, t, "verification with "+wrong.name, func() { err = wrong.verify(cert) })
			if err == nil {
				c.failf(t, "a certificate verifies with %s", wrong.name)
			}
			failed(c, t, before, cert, wrong.name)
			c.class("not its issuer")
			c.nontrivial(cat(raw, wrong.n, wrong.e, []byte(wrong.chr)))
		}},
		sub{"forged", 600, 20000, func(t *rapid.T, c *C) {
			// Signed with the right key, but not in the form of a certificate.
			g := &G{t: t}
			keys := rsaKeys()
			k := keys[position(t, 8, "key")]
			chr := gCHR(t, "issuer")
			v := g.content1(chr)
			var what string
			raw := k.sign(v.bytes(), chr, func(b []byte) {
				switch rapid.SampledFrom([]string{"header", "trailer", "hash", "content"}).Draw(t, "forgery") {
				case "header":
					b[0] = rapid.SampledFrom([]byte{0, 1, 0x4A, 0x4B, 0x69, 0x6B, 0x7A, 0x2A, 0x6E}).Draw(t, "header")
					what = fmt.Sprintf("header %02x", b[0])
				case "trailer":
					x := 1 + byte(position(t, 255, "trailer"))
					b[127] ^= x
					what = fmt.Sprintf("trailer %02x", b[127])
				case "hash":
					i := position(t, 160, "hash bit")
					b[107+i/8] ^= 1 << (i % 8)
					what = fmt.Sprintf("bit %d of the hash flipped", i)
				case "content":
					i := position(t, 8*106, "content bit")
					b[1+i/8] ^= 1 << (i % 8)
					what = fmt.Sprintf("bit %d of the recoverable content flipped", i)
				}
			})
			c.in("certificate", raw)
			c.in("modulus", k.modulus())
			c.in("exponent", k.exponent())
			c.in("forgery", what)
			cert := rsaCert(raw)
			before := proto.CloneOf(cert)
			var err error
			right := issuer1(k, chr, gBool(t, "root"))
			guard(c, t, "verification", func() { err = right.verify(cert) })
			if err == nil {
				c.failf(t, "a signed block with %s verifies as a certificate", what)
			}
			failed(c, t, before, cert, what)
			c.class("forged")
			c.nontrivial(raw)
		}},
		sub{"histories", 400, 15000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			k, v, raw, right := draw(g, c)
			cert := rsaCert(exact(raw))
			// The unsigned copy of the issuer's name behind the signature decides which
			// issuer is asked for; everything else is under the signature.
			cur := raw
			signedBy := func(a ca1) bool {
				return !a.missing && len(cur) == 194 && bytes.Equal(cur[:186], raw[:186]) && bytes.Equal(a.n, right.n) && bytes.Equal(a.e, right.e) &&
					a.chr == fmt.Sprint(binary.BigEndian.Uint64(cur[186:]))
			}
			for i, n := 0, gInt(t, 2, 8, "steps"); i < n; i++ {
				step := rapid.SampledFrom([]string{"right", "right", "wrong", "alter", "restore"}).Draw(t, "step")
				switch step {
				case "alter":
					bad, what := g.alter1(raw, k)
					cert.SetRawData(bad)
					cur = exact(bad)
					c.in(fmt.Sprintf("step %d", i), what)
				case "restore":
					cert.SetRawData(exact(raw))
					cur = raw
					c.in(fmt.Sprintf("step %d", i), step)
				case "right", "wrong":
					a := right
					if step == "wrong" {
						a = g.wrongCA1(right, k, v.car)
					}
					c.in(fmt.Sprintf("step %d", i), "verify with "+a.name)
					before := proto.CloneOf(cert)
					var err error
					guard(c, t, "verification", func() { err = a.verify(cert) })
					if want := signedBy(a); want != (err == nil) {
						c.failf(t, "step %d: verification with %s gives %v", i, a.name, err)
					}
					if err == nil {
						checkContent1(c, t, cert, v, cur)
					} else {
						failed(c, t, before, cert, a.name)
					}
				}
			}
			c.class("history")
			c.nontrivial(raw)
		}},
		sub{"chains", 200, 8000, func(t *rapid.T, c *C) {
			// The root signs an authority, and the authority a card.
			g := &G{t: t}
			keys := rsaKeys()
			rk := keys[position(t, len(keys), "root key")]
			ak := keys[position(t, len(keys), "authority key")]
			rootChr := gCHR(t, "root name")
			av := g.content1(rootChr)
			av.n, av.e = ak.modulus(), ak.exponent()
			araw := rk.sign(av.bytes(), rootChr, nil)
			cv := g.content1(av.chr)
			craw := ak.sign(cv.bytes(), av.chr, nil)
			c.in("authority", araw)
			c.in("card", craw)
			rootBytes := cat(u64(rootChr), rk.modulus(), rk.exponent())
			c.in("root", rootBytes)
			root, err := security.UnmarshalRootCertificate(rootBytes)
			if err != nil {
				c.failf(t, "root certificate refused: %v", err)
			}
			ca, cert := rsaCert(araw), rsaCert(craw)
			if err := security.VerifyRsaCertificateWithCA(cert, ca); err == nil {
				c.failf(t, "a certificate verifies against an authority whose key is not known yet")
			}
			if cert.GetSignatureValid() {
				c.failf(t, "a certificate that did not verify is recorded as valid")
			}
			if err := security.VerifyRsaCertificateWithRoot(ca, root); err != nil {
				c.failf(t, "the authority's certificate does not verify against the root: %v", err)
			}
			if err := security.VerifyRsaCertificateWithCA(cert, ca); err != nil {
				c.failf(t, "the card's certificate does not verify against the authority: %v", err)
			}
			checkContent1(c, t, ca, av, araw)
			checkContent1(c, t, cert, cv, craw)
			c.class("chain")
			c.nontrivial(cat(araw, craw))
		}},
	)
}

// failed checks what a certificate reports after a verification that failed: it is not
// recorded as valid, and nothing else about it has changed.
func failed(c *C, t *rapid.T, before, after proto.Message, what string) {
	if v := after.(interface{ GetSignatureValid() bool }); v.GetSignatureValid() {
		c.failf(t, "a certificate is recorded as valid though verification failed (%s)", what)
	}
	a, b := proto.Clone(before), proto.Clone(after)
	for _, m := range []proto.Message{a, b} {
		r := m.ProtoReflect()
		r.Clear(r.Descriptor().Fields().ByName("signature_valid"))
	}
	if !proto.Equal(a, b) {
		c.failf(t, "a failed verification changes the certificate (%s): %s", what, diffMsg(b, a))
	}
}

// ---- second-generation certificates --------------------------------------------

const eccPoolSize = 24

var eccPools = func() []func() []eccKey {
	var out []func() []eccKey
	for i := range curves {
		out = append(out, sync.OnceValue(func() []eccKey { return eccPool(i, eccPoolSize) }))
	}
	return out
}()

// hashFor is the hash function that goes with a key of that size (Appendix 11, Table 2).
func hashFor(curve int, b []byte) []byte {
	switch eccCurves[curve].size {
	case 32:
		h := sha256.Sum256(b)
		return h[:]
	case 48:
		h := sha512.Sum384(b)
		return h[:]
	}
	h := sha512.Sum512(b)
	return h[:]
}

func (k eccKey) xy() (x, y []byte) {
	n := eccCurves[k.curve].size
	return k.q.x.FillBytes(make([]byte, n)), k.q.y.FillBytes(make([]byte, n))
}

func (g *G) eccKey(label string) eccKey {
	i := gInt(g.t, 0, len(curves)-1, label+".curve")
	return eccPools[i]()[position(g.t, eccPoolSize/2, label+".key")]
}

// issue signs the certificate body with the key of the issuer.
func (g *G) issue(f *eccFields, ca eccKey) {
	nonces := eccPools[ca.curve]()[eccPoolSize/2:]
	r, s := curves[ca.curve].sign(hashFor(ca.curve, f.body()), ca, nonces[position(g.t, len(nonces), "nonce")])
	n := eccCurves[ca.curve].size
	f.r, f.s = r.FillBytes(make([]byte, n)), s.FillBytes(make([]byte, n))
}

// issued2 draws a certificate and the key that signed it.
func (g *G) issued2() (eccFields, eccKey) {
	for {
		f := g.eccFields()
		ca := g.eccKey("issuer")
		g.issue(&f, ca)
		if n := len(f.bytes()); n >= 204 && n <= 341 {
			return f, ca
		}
	}
}

// caMessage is the issuer's certificate with its public key.
func (k eccKey) message(chr []byte) *securityv1.EccCertificate {
	m := &securityv1.EccCertificate{}
	p := &securityv1.EccCertificate_PublicKey{}
	p.SetDomainParametersOid(eccCurves[k.curve].oid)
	x, y := k.xy()
	p.SetPublicPointX(x)
	p.SetPublicPointY(y)
	m.SetPublicKey(p)
	m.SetCertificateHolderReference(fmt.Sprint(be64(chr)))
	return m
}

// wrongCA2 draws an issuer under which the certificate must not verify.
func (g *G) wrongCA2(ca eccKey, chr []byte) (*securityv1.EccCertificate, string) {
	t := g.t
	m := ca.message(chr)
	p := m.GetPublicKey()
	setXY := func(x, y []byte) { p.SetPublicPointX(x); p.SetPublicPointY(y) }
	x, y := ca.xy()
	switch kind := rapid.SampledFrom([]string{
		"key", "curve", "oid", "unknown oid", "nothing", "no key", "no x", "no y", "off curve", "negated", "swapped", "zero", "prime", "long", "base",
	}).Draw(t, "wrong issuer"); kind {
	case "key":
		pool := eccPools[ca.curve]()
		k := pool[position(t, len(pool), "other key")]
		if k.d.Cmp(ca.d) == 0 {
			k = pool[len(pool)-1]
		}
		setXY(k.xy())
		return m, "another key of the same curve"
	case "curve":
		k := eccPools[(ca.curve+1+position(t, len(curves)-1, "other curve"))%len(curves)]()[0]
		return k.message(chr), "a key of another curve"
	case "oid":
		p.SetDomainParametersOid(eccCurves[(ca.curve+1+position(t, len(curves)-1, "other curve"))%len(curves)].oid)
		return m, "the key with the name of another curve"
	case "unknown oid":
		p.SetDomainParametersOid(rapid.SampledFrom([]string{"", "1.2.3", "1.3.132.0.33", "P-256", "\x06\x03\x2a\x03\x04"}).Draw(t, "oid"))
		return m, "an unknown curve"
	case "nothing":
		return nil, "no issuer"
	case "no key":
		m.ClearPublicKey()
		return m, "an issuer without a key"
	case "no x":
		p.ClearPublicPointX()
		return m, "an issuer key without x"
	case "no y":
		p.ClearPublicPointY()
		return m, "an issuer key without y"
	case "off curve":
		i := position(t, 8*len(x), "bit")
		if gBool(t, "in y") {
			y[i/8] ^= 1 << (i % 8)
		} else {
			x[i/8] ^= 1 << (i % 8)
		}
		setXY(x, y)
		return m, "an issuer key that is not a point of the curve"
	case "negated":
		setXY(x, new(big.Int).Sub(curves[ca.curve].p, ca.q.y).FillBytes(y))
		return m, "the negated key"
	case "swapped":
		setXY(y, x)
		return m, "an issuer key with its coordinates swapped"
	case "zero":
		setXY(make([]byte, len(x)), make([]byte, len(y)))
		return m, "an issuer key of zeros"
	case "prime":
		// The same residue, stored as a number outside the field.
		setXY(new(big.Int).Add(ca.q.x, curves[ca.curve].p).Bytes(), y)
		return m, "an issuer key with a coordinate outside the field"
	case "long":
		setXY(cat([]byte{1}, x), y)
		return m, "an issuer key with a coordinate that is too long"
	default:
		c := curves[ca.curve]
		setXY(c.gx.FillBytes(x), c.gy.FillBytes(y))
		return m, "the base point as issuer key"
	}
}

// alter2 changes the bytes of a certificate body or its signature.
func (g *G) alter2(f eccFields, ca eccKey) ([]byte, string) {
	t := g.t
	raw := f.bytes()
	n := curves[ca.curve].n
	size := eccCurves[ca.curve].size
	num := func(b []byte, by *big.Int) ([]byte, bool) {
		v := new(big.Int).Add(new(big.Int).SetBytes(b), by)
		if v.BitLen() > 8*size {
			return b, false
		}
		return v.FillBytes(make([]byte, size)), true
	}
	switch rapid.SampledFrom([]string{"byte", "byte", "field", "r+n", "s+n", "zero", "order", "swap", "halves", "none", "other"}).Draw(t, "alteration") {
	case "field":
		switch gInt(t, 0, 7, "field") {
		case 0:
			f.cpi ^= 1 + byte(position(t, 255, "value"))
		case 1:
			f.car = flip(t, f.car)
		case 2:
			f.cha = flip(t, f.cha)
		case 3:
			f.chr = flip(t, f.chr)
		case 4:
			f.x = flip(t, f.x)
		case 5:
			f.y = flip(t, f.y)
		case 6:
			f.effective ^= 1 << gInt(t, 0, 31, "bit")
		case 7:
			f.expi ^= 1 << gInt(t, 0, 31, "bit")
		}
		return f.bytes(), "a field changed"
	case "r+n":
		if v, ok := num(f.r, n); ok {
			f.r = v
			return f.bytes(), "the order added to r"
		}
	case "s+n":
		if v, ok := num(f.s, n); ok {
			f.s = v
			return f.bytes(), "the order added to s"
		}
	case "zero":
		if gBool(t, "r") {
			f.r = make([]byte, size)
		} else {
			f.s = make([]byte, size)
		}
		return f.bytes(), "half of the signature set to zero"
	case "order":
		if gBool(t, "r") {
			f.r = n.FillBytes(make([]byte, size))
		} else {
			f.s = n.FillBytes(make([]byte, size))
		}
		return f.bytes(), "half of the signature set to the order"
	case "swap":
		if !bytes.Equal(f.r, f.s) {
			f.r, f.s = f.s, f.r
			return f.bytes(), "r and s swapped"
		}
	case "halves":
		f.r, f.s = f.r[:size/2], f.s[:size/2]
		return f.bytes(), "a signature of half the size"
	case "none":
		f.r, f.s = nil, nil
		return f.bytes(), "an empty signature"
	case "other":
		// The signature of another certificate of the same issuer.
		o := f
		o.chr = flip(t, f.chr)
		g.issue(&o, ca)
		f.r, f.s = o.r, o.s
		return f.bytes(), "the signature of another certificate"
	}
	at := position(t, len(raw), "at")
	raw[at] ^= 1 + byte(position(t, 255, "value"))
	return raw, fmt.Sprintf("byte %d of %d changed", at, len(raw))
}

func flip(t *rapid.T, b []byte) []byte {
	out := exact(b)
	i := position(t, 8*len(b), "flipped bit")
	out[i/8] ^= 1 << (i % 8)
	return out
}

func verify2(c *C, t *rapid.T, cert, ca *securityv1.EccCertificate) (err error) {
	var before *securityv1.EccCertificate
	if ca != nil {
		before = proto.CloneOf(ca)
	}
	guard(c, t, "verification", func() { err = security.VerifyEccCertificateWithCA(cert, ca) })
	if !proto.Equal(before, ca) {
		c.failf(t, "verification changes the certificate of the issuer")
	}
	return err
}

func TestC21(t *testing.T) {
	draw := func(g *G, c *C) (eccFields, eccKey, []byte, *securityv1.EccCertificate) {
		f, ca := g.issued2()
		raw := f.bytes()
		x, y := ca.xy()
		c.in("certificate", raw)
		c.in("issuer curve", eccCurves[ca.curve].name)
		c.in("issuer x", x)
		c.in("issuer y", y)
		cert, err := security.UnmarshalEccCertificate(exact(raw))
		if err != nil {
			c.failf(g.t, "a certificate is refused: %v", err)
		}
		c.class("signed on " + eccCurves[ca.curve].name)
		return f, ca, raw, cert
	}
	run(t, "C21", "a certificate whose signature had to be checked",
		sub{"issued", 300, 10000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			f, ca, raw, cert := draw(g, c)
			if err := verify2(c, t, cert, ca.message(f.car)); err != nil {
				c.failf(t, "a certificate signed by its issuer does not verify: %v", err)
			}
			want := f.message()
			want.SetSignatureValid(true)
			want.SetRawData(raw)
			if d := diffMsg(cert, want); d != "" {
				c.failf(t, "a verified certificate reports something other than what was signed: %s", d)
			}
			c.nontrivial(raw)
		}},
		sub{"altered", 400, 15000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			f, ca, raw, _ := draw(g, c)
			bad, what := g.alter2(f, ca)
			c.in("altered", bad)
			c.in("alteration", what)
			if bytes.Equal(bad, raw) {
				return
			}
			cert, err := security.UnmarshalEccCertificate(exact(bad))
			if err != nil {
				c.class("refused when decoded")
				return
			}
			if gBool(t, "was valid") {
				cert.SetSignatureValid(true)
			}
			before := proto.CloneOf(cert)
			if err := verify2(c, t, cert, ca.message(f.car)); err == nil {
				c.failf(t, "a certificate with %s verifies", what)
			}
			failed(c, t, before, cert, what)
			c.class("altered")
			c.nontrivial(bad)
		}},
		sub{"wrong issuer", 400, 15000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			f, ca, raw, cert := draw(g, c)
			wrong, what := g.wrongCA2(ca, f.car)
			c.in("wrong issuer", what)
			if gBool(t, "was valid") {
				cert.SetSignatureValid(true)
			}
			before := proto.CloneOf(cert)
			if err := verify2(c, t, cert, wrong); err == nil {
				c.failf(t, "a certificate verifies with %s", what)
			}
			failed(c, t, before, cert, what)
			c.class(what)
			c.nontrivial(raw)
		}},
		sub{"histories", 150, 5000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			f, ca, raw, cert := draw(g, c)
			genuine := true
			for i, n := 0, gInt(t, 2, 6, "steps"); i < n; i++ {
				step := rapid.SampledFrom([]string{"right", "right", "wrong", "bytes", "no signature", "restore"}).Draw(t, "step")
				c.in(fmt.Sprintf("step %d", i), step)
				switch step {
				case "bytes":
					// A body changed in a field, in the kept bytes.
					o := f
					o.cha = flip(t, f.cha)
					cert.SetRawData(o.bytes())
					genuine = false
				case "no signature":
					cert.ClearSignature()
					genuine = false
				case "restore":
					o := f.message()
					cert.SetRawData(exact(raw))
					cert.SetSignature(o.GetSignature())
					genuine = true
				default:
					a, what := ca.message(f.car), "its issuer"
					if step == "wrong" {
						a, what = g.wrongCA2(ca, f.car)
					}
					before := proto.CloneOf(cert)
					err := verify2(c, t, cert, a)
					if want := genuine && step == "right"; want != (err == nil) {
						c.failf(t, "step %d: verification with %s gives %v", i, what, err)
					}
					if err == nil {
						if !cert.GetSignatureValid() {
							c.failf(t, "step %d: a certificate that verified is not recorded as valid", i)
						}
					} else {
						failed(c, t, before, cert, what)
					}
				}
			}
			c.class("history")
			c.nontrivial(raw)
		}},
	)
}
