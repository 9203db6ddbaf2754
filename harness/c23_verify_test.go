package verifpbt

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"testing/iotest"
	"time"

	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/card"
	"github.com/way-platform/tachograph-go/internal/cert"
	"github.com/way-platform/tachograph-go/internal/security"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
)

type ctxKey struct{}

// call is one request to a certificate source.
type call struct {
	kind, chr string
	ctx       any
}

// source is a certificate source that does as told and keeps a record.
type source struct {
	calls []call
	given []context.Context
	root  func() (*securityv1.RootCertificate, error)
	rsa   func(chr string) (*securityv1.RsaCertificate, error)
	ecc   func(chr string) (*securityv1.EccCertificate, error)
}

func (s *source) GetRootCertificate(ctx context.Context) (*securityv1.RootCertificate, error) {
	s.calls = append(s.calls, call{"root", "", ctx.Value(ctxKey{})})
	s.given = append(s.given, ctx)
	return s.root()
}

func (s *source) GetRsaCertificate(ctx context.Context, chr string) (*securityv1.RsaCertificate, error) {
	s.calls = append(s.calls, call{"rsa", chr, ctx.Value(ctxKey{})})
	s.given = append(s.given, ctx)
	return s.rsa(chr)
}

func (s *source) GetEccCertificate(ctx context.Context, chr string) (*securityv1.EccCertificate, error) {
	s.calls = append(s.calls, call{"ecc", chr, ctx.Value(ctxKey{})})
	s.given = append(s.given, ctx)
	return s.ecc(chr)
}

// app1 and app2 are the certificates of one application with their issuers.
type app1 struct {
	ak, rk    rsaKey
	rootChr   uint64
	av, cv    content1
	araw      []byte
	craw      []byte
	signer    *rsaKey // nil: nobody signed the card certificate as it is
	cardState string
}

func (g *G) app1() app1 {
	t := g.t
	keys := rsaKeys()
	a := app1{rk: keys[position(t, len(keys), "root key")], ak: keys[position(t, len(keys), "authority key")], rootChr: gCHR(t, "root name")}
	a.av = g.content1(a.rootChr)
	a.av.n, a.av.e = a.ak.modulus(), a.ak.exponent()
	a.araw = a.rk.sign(a.av.bytes(), a.rootChr, nil)
	a.cv = g.content1(a.av.chr)
	a.craw = a.ak.sign(a.cv.bytes(), a.av.chr, nil)
	a.signer, a.cardState = &a.ak, "genuine"
	switch rapid.SampledFrom([]string{"", "", "", "altered", "other"}).Draw(t, "card certificate") {
	case "altered":
		a.craw[position(t, 186, "at")] ^= 1 << gInt(t, 0, 7, "bit")
		a.signer, a.cardState = nil, "altered"
	case "other":
		k := keys[position(t, len(keys), "other key")]
		if k.n.Cmp(a.ak.n) != 0 {
			a.craw = k.sign(a.cv.bytes(), a.av.chr, nil)
			a.signer, a.cardState = &k, "signed by another"
		}
	}
	return a
}

type app2 struct {
	ca     eccKey
	f      eccFields
	raw    []byte
	caCert []byte
	signer *eccKey // nil: nobody signed the certificate as it is
	state  string
}

func (g *G) app2() app2 {
	t := g.t
	var a app2
	a.f, a.ca = g.issued2()
	a.signer, a.state = &a.ca, "genuine"
	switch rapid.SampledFrom([]string{"", "", "", "altered", "other"}).Draw(t, "sign certificate") {
	case "altered":
		a.f.cha = flip(t, a.f.cha)
		a.signer, a.state = nil, "altered"
	case "other":
		for _, k := range eccPools[a.ca.curve]()[:eccPoolSize/2] {
			if k.d.Cmp(a.ca.d) != 0 {
				g.issue(&a.f, k)
				a.signer, a.state = &k, "signed by another"
				break
			}
		}
	}
	a.raw = a.f.bytes()
	a.caCert = g.caCert(a.ca, a.f.car)
	return a
}

// caCert is a certificate that holds the key, under the given name.
func (g *G) caCert(k eccKey, chr []byte) []byte {
	for {
		f := g.eccFields()
		f.curve, f.chr = k.curve, chr
		f.x, f.y = k.xy()
		if b := f.bytes(); len(b) >= 204 && len(b) <= 341 {
			return b
		}
	}
}

func (a app1) rootCertificate() *securityv1.RootCertificate {
	r, err := security.UnmarshalRootCertificate(cat(u64(a.rootChr), a.rk.modulus(), a.rk.exponent()))
	if err != nil {
		panic(err)
	}
	return r
}

// sourceFor draws a source and tells whether it supports each application's chain, and
// which failures it injects.
func (g *G) sourceFor(a app1, b app2) (s *source, ok1, ok2 bool, fail1, fail2 error, what string) {
	t := g.t
	s = &source{}
	by1 := func(k rsaKey) bool { return a.signer != nil && a.signer.n.Cmp(k.n) == 0 }
	ok1, ok2 = by1(a.ak), b.signer != nil && b.signer.d.Cmp(b.ca.d) == 0
	s.root = func() (*securityv1.RootCertificate, error) { return a.rootCertificate(), nil }
	state1 := rapid.SampledFrom([]string{"genuine", "genuine", "genuine", "key known", "lookup fails", "root fails", "altered", "other root", "other authority", "other name", "no name", "root name"}).Draw(t, "authority")
	what = "first generation: " + state1
	s.rsa = func(string) (*securityv1.RsaCertificate, error) { return rsaCert(exact(a.araw)), nil }
	known := func(k rsaKey, chr uint64) {
		s.rsa = func(string) (*securityv1.RsaCertificate, error) {
			m := rsaCert(exact(a.araw))
			m.SetCertificateHolderReference(fmt.Sprint(chr))
			m.SetRsaModulus(k.modulus())
			m.SetRsaExponent(k.exponent())
			return m, nil
		}
	}
	switch state1 {
	case "key known":
		known(a.ak, a.av.chr)
	case "lookup fails":
		ok1, fail1 = false, fmt.Errorf("no authority %d", gInt(t, 0, 9, "error"))
		s.rsa = func(string) (*securityv1.RsaCertificate, error) { return nil, fail1 }
	case "root fails":
		ok1, fail1 = false, fmt.Errorf("no root %d", gInt(t, 0, 9, "error"))
		s.root = func() (*securityv1.RootCertificate, error) { return nil, fail1 }
	case "altered":
		ok1 = false
		bad := exact(a.araw)
		bad[position(t, 194, "altered at")] ^= 1 << gInt(t, 0, 7, "bit")
		s.rsa = func(string) (*securityv1.RsaCertificate, error) { return rsaCert(exact(bad)), nil }
	case "other root":
		keys := rsaKeys()
		k := keys[position(t, len(keys), "other root")]
		ok1 = ok1 && k.n.Cmp(a.rk.n) == 0
		s.root = func() (*securityv1.RootCertificate, error) {
			return security.UnmarshalRootCertificate(cat(u64(a.rootChr), k.modulus(), k.exponent()))
		}
	case "other authority":
		keys := rsaKeys()
		k := keys[position(t, len(keys), "other authority")]
		ok1 = by1(k)
		known(k, a.av.chr)
	case "other name":
		ok1 = false
		known(a.ak, a.av.chr+1)
	case "no name":
		ok1 = false
		s.rsa = func(string) (*securityv1.RsaCertificate, error) {
			m := &securityv1.RsaCertificate{}
			m.SetRsaModulus(a.ak.modulus())
			m.SetRsaExponent(a.ak.exponent())
			return m, nil
		}
	case "root name":
		ok1 = false
		name := rapid.SampledFrom([]string{"", fmt.Sprint(a.rootChr + 1), fmt.Sprint(a.rootChr, 0)}).Draw(t, "root name")
		s.root = func() (*securityv1.RootCertificate, error) {
			r := a.rootCertificate()
			r.SetKeyId(name)
			return r, nil
		}
	}
	state2 := rapid.SampledFrom([]string{"genuine", "genuine", "genuine", "lookup fails", "other key", "no key"}).Draw(t, "authority 2")
	what += ", second generation: " + state2
	s.ecc = func(string) (*securityv1.EccCertificate, error) {
		return security.UnmarshalEccCertificate(exact(b.caCert))
	}
	switch state2 {
	case "lookup fails":
		ok2, fail2 = false, fmt.Errorf("no second-generation authority %d", gInt(t, 0, 9, "error"))
		s.ecc = func(string) (*securityv1.EccCertificate, error) { return nil, fail2 }
	case "other key":
		other, _ := g.wrongCA2(b.ca, b.f.car)
		if other == nil {
			other = &securityv1.EccCertificate{}
		}
		ok2 = false
		if p := other.GetPublicKey(); p != nil && b.signer != nil {
			x, y := b.signer.xy()
			ok2 = p.GetDomainParametersOid() == eccCurves[b.signer.curve].oid && bytes.Equal(p.GetPublicPointX(), x) && bytes.Equal(p.GetPublicPointY(), y)
		}
		s.ecc = func(string) (*securityv1.EccCertificate, error) { return other, nil }
	case "no key":
		ok2 = false
		s.ecc = func(string) (*securityv1.EccCertificate, error) { return &securityv1.EccCertificate{}, nil }
	}
	return
}

// certified draws a card download with the given certificates, where they are not nil.
func (g *G) certified(card1, sign2 []byte) []byte {
	t := g.t
	var es []element
	for _, e := range g.card(rapid.SampledFrom([]int{0, 0, 10}).Draw(t, "other files")) {
		if e.spec.df == "" || strings.Contains(e.spec.name, "Certificate") {
			continue
		}
		if e.spec.df == df1 && card1 == nil && !gBool(t, "uncertified 1") || e.spec.df == df2 && sign2 == nil && !gBool(t, "uncertified 2") {
			continue
		}
		es = append(es, e)
	}
	add := func(name string, val []byte) {
		s := efByName(name)
		es = append(es, element{spec: s, val: val})
	}
	if card1 != nil {
		add("Card_Certificate", card1)
		if gBool(t, "embedded authority 1") {
			add("CA_Certificate", gBytes(t, 194, "embedded"))
		}
	}
	if sign2 != nil {
		add("G2 CardSignCertificate", sign2)
		for _, n := range []string{"G2 CardMA_Certificate", "G2 CA_Certificate", "G2 Link_Certificate"} {
			if oneIn(t, 3, n) {
				f, _ := g.issued2()
				add(n, f.bytes())
			}
		}
	}
	es = shuffle(t, es)
	return elementsFile(append([]element{g.element(efByName("ICC"))}, es...))
}

func parseCard(c *C, t *rapid.T, b []byte) *tachographv1.File {
	f, err := tachograph.UnmarshalFile(b)
	if err != nil {
		c.failf(t, "the card is refused: %v", err)
	}
	if f.GetType() != tachographv1.File_DRIVER_CARD {
		c.failf(t, "the card is parsed as %v", f.GetType())
	}
	return f
}

// rest is the file without what a verification reports.
func rest(f *tachographv1.File) proto.Message {
	f = proto.CloneOf(f)
	if x := f.GetDriverCard().GetTachograph(); x != nil {
		x.ClearCardCertificate()
	}
	if x := f.GetDriverCard().GetTachographG2().GetCardSignCertificate().GetEccCertificate(); x != nil {
		x.ClearSignatureValid()
	}
	return f
}

func TestC23(t *testing.T) {
	run(t, "C23", "a card with at least one application",
		sub{"driver cards", 900, 30000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			a, b := g.app1(), g.app2()
			var card1, sign2 []byte
			if !oneIn(t, 3, "no certificate 1") {
				card1 = a.craw
			}
			if !oneIn(t, 3, "no certificate 2") {
				sign2 = b.raw
			}
			file := g.certified(card1, sign2)
			c.in("card certificate", card1)
			c.in("card certificate state", a.cardState)
			c.in("sign certificate", sign2)
			c.in("sign certificate state", b.state)
			inBytes(c, file)
			f := parseCard(c, t, file)
			has1, has2 := f.GetDriverCard().GetTachograph() != nil, f.GetDriverCard().GetTachographG2() != nil
			if !has1 && !has2 {
				c.class("no application")
			}
			for i, n := 0, gInt(t, 1, 3, "verifications"); i < n; i++ {
				s, ok1, ok2, fail1, fail2, what := g.sourceFor(a, b)
				c.in(fmt.Sprintf("verification %d", i), what)
				mark := fmt.Sprintf("context %d", i)
				before := rest(f)
				var err error
				ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, mark))
				guard(c, t, "VerifyFile", func() {
					err = tachograph.VerifyOptions{CertificateResolver: s}.VerifyFile(ctx, f)
				})
				cancel()
				for _, x := range s.given {
					if x.Err() == nil {
						c.failf(t, "a lookup goes on when the caller cancels the verification")
					}
				}
				good1 := !has1 || card1 != nil && ok1
				good2 := !has2 || sign2 != nil && ok2
				if want := good1 && good2; want != (err == nil) {
					c.failf(t, "verification %d gives %v; first generation holds: %v, second generation holds: %v", i, err, good1, good2)
				}
				if err != nil {
					// Whichever application is reported, a failed lookup is named as its cause.
					cause1 := has1 && card1 != nil && fail1 != nil && errors.Is(err, fail1)
					cause2 := has2 && sign2 != nil && fail2 != nil && errors.Is(err, fail2)
					only1 := !good1 && good2 && card1 != nil && fail1 != nil
					only2 := good1 && !good2 && sign2 != nil && fail2 != nil
					both := !good1 && !good2 && card1 != nil && sign2 != nil && fail1 != nil && fail2 != nil
					if only1 && !cause1 || only2 && !cause2 || both && !cause1 && !cause2 {
						c.failf(t, "the error of a failed lookup does not carry its cause: %v", err)
					}
				}
				if v := f.GetDriverCard().GetTachograph().GetCardCertificate().GetRsaCertificate(); v.GetSignatureValid() && !(has1 && good1) {
					c.failf(t, "verification %d: the card certificate is recorded as valid", i)
				} else if err == nil && card1 != nil && !v.GetSignatureValid() {
					c.failf(t, "verification %d: the card certificate is not recorded as valid", i)
				}
				if v := f.GetDriverCard().GetTachographG2().GetCardSignCertificate().GetEccCertificate(); v.GetSignatureValid() && !(has2 && good2) {
					c.failf(t, "verification %d: the sign certificate is recorded as valid", i)
				} else if err == nil && sign2 != nil && !v.GetSignatureValid() {
					c.failf(t, "verification %d: the sign certificate is not recorded as valid", i)
				}
				if !proto.Equal(before, rest(f)) {
					c.failf(t, "verification %d changes the file: %s", i, diffMsg(rest(f), before))
				}
				asked := map[string]bool{}
				for _, k := range s.calls {
					if k.ctx != mark {
						c.failf(t, "a certificate is looked up without the caller's context")
					}
					asked[k.kind] = true
					switch {
					case k.kind == "rsa" && (card1 == nil || k.chr != fmt.Sprint(be64(card1[186:]))):
						c.failf(t, "looks up first-generation certificate %s, not the issuer named in the card certificate", k.chr)
					case k.kind == "ecc" && (sign2 == nil || k.chr != fmt.Sprint(be64(b.f.car))):
						c.failf(t, "looks up second-generation certificate %s, not the issuer named in the card sign certificate", k.chr)
					}
				}
				if err == nil && (has1 && !asked["rsa"] || has2 && !asked["ecc"]) {
					c.failf(t, "verification succeeds without asking for the issuer")
				}
				switch {
				case err == nil && has1 && has2:
					c.class("both chains hold")
				case err == nil:
					c.class("the chain holds")
				case i > 0:
					c.class("fails after an earlier verification")
				default:
					c.class("fails")
				}
			}
			if has1 || has2 {
				c.nontrivial(cat(card1, sign2, file))
			}
		}},
		sub{"without a source", 200, 6000, func(t *rapid.T, c *C) {
			// The authority's certificate on the card serves when there is no source.
			g := &G{t: t}
			b := g.app2()
			f := &cardv1.DriverCardFile{}
			dec := func(raw []byte) *securityv1.EccCertificate {
				m, err := security.UnmarshalEccCertificate(raw)
				if err != nil {
					c.failf(t, "certificate refused: %v", err)
				}
				return m
			}
			x := &cardv1.DriverCardFile_TachographG2{}
			s := &cardv1.CardSignCertificate{}
			s.SetEccCertificate(dec(b.raw))
			x.SetCardSignCertificate(s)
			has := !oneIn(t, 4, "no authority")
			other := oneIn(t, 3, "other authority")
			if has {
				ca := &cardv1.CaCertificateG2{}
				raw := b.caCert
				if other {
					o, _ := g.issued2()
					raw = o.bytes()
				}
				ca.SetEccCertificate(dec(raw))
				x.SetCaCertificate(ca)
			}
			f.SetTachographG2(x)
			c.in("sign certificate", b.raw)
			c.in("authority", b.caCert)
			c.in("state", fmt.Sprintf("sign certificate %s, authority on the card: %v, another: %v", b.state, has, other))
			var err error
			guard(c, t, "VerifyDriverCardFile", func() { err = card.VerifyOptions{}.VerifyDriverCardFile(context.Background(), f) })
			if want := has && !other && b.state == "genuine"; want != (err == nil) {
				c.failf(t, "verification with the authority on the card gives %v", err)
			}
			c.class("authority on the card")
			c.nontrivial(cat(b.raw, b.caCert))
		}},
		sub{"other files", 150, 4000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			s := &source{
				root: func() (*securityv1.RootCertificate, error) { return nil, errors.New("no") },
				rsa:  func(string) (*securityv1.RsaCertificate, error) { return nil, errors.New("no") },
				ecc:  func(string) (*securityv1.EccCertificate, error) { return nil, errors.New("no") },
			}
			var f *tachographv1.File
			want := false
			switch kind := rapid.SampledFrom([]string{"vehicle unit", "raw card", "unknown kind", "nothing", "empty card"}).Draw(t, "kind"); kind {
			case "vehicle unit", "raw card":
				var b []byte
				if kind == "raw card" {
					b = recsBytes(g.otherCard())
				} else {
					b = g.vuFile(4).bytes()
				}
				inBytes(c, b)
				v, err := tachograph.UnmarshalFile(b)
				if err != nil {
					return
				}
				f, want = v, v.GetType() != tachographv1.File_DRIVER_CARD
				if !want {
					return
				}
				c.nontrivial(b)
			case "unknown kind":
				f = &tachographv1.File{}
				f.SetType(tachographv1.File_Type(rapid.SampledFrom([]int32{0, 4, 5, 99, -1}).Draw(t, "type")))
				if f.GetType().Descriptor().Values().ByNumber(f.GetType().Number()) != nil && f.GetType() != 0 {
					return
				}
			case "empty card":
				f = &tachographv1.File{}
				f.SetType(tachographv1.File_DRIVER_CARD)
			}
			c.in("kind", f.String())
			before := proto.CloneOf(f)
			var err error
			guard(c, t, "VerifyFile", func() {
				err = tachograph.VerifyOptions{CertificateResolver: s}.VerifyFile(context.Background(), f)
			})
			if want != (err == nil) {
				c.failf(t, "verification gives %v", err)
			}
			if f != nil && !proto.Equal(before, f) {
				c.failf(t, "verification changes the file")
			}
			c.class("not a driver card")
		}},
		sub{"the default sources", 150, 4000, func(t *rapid.T, c *C) {
			// Without a source of the caller's, issuers come from the library or are
			// downloaded. A stand-in takes the place of the network.
			g := &G{t: t}
			b := g.app2()
			ix := readIndex(c, t)
			entry := ix.G2[position(t, len(ix.G2), "entry")]
			for bundled(c, t, "g2")[entry.CHR] != nil {
				entry = ix.G2[position(t, len(ix.G2), "another entry")]
			}
			listed := !oneIn(t, 3, "not listed")
			if listed {
				b.f.car = u64(parseU64(entry.CHR))
				g.issue(&b.f, b.ca)
				if b.state != "genuine" {
					b.f.cha = flip(t, b.f.cha)
				}
				b.raw = b.f.bytes()
				b.caCert = g.caCert(b.ca, b.f.car)
			}
			f := parseCard(c, t, elementsFile([]element{g.element(efByName("ICC")), {spec: efByName("G2 CardSignCertificate"), val: b.raw}}))
			c.in("sign certificate", b.raw)
			c.in("authority", b.caCert)
			rt := &transport{status: 200, body: b.caCert}
			if oneIn(t, 4, "download fails") {
				rt.status = 404
			}
			err := withDefaultTransport(rt, func() error {
				var err error
				guard(c, t, "VerifyFile", func() { err = tachograph.VerifyFile(context.Background(), f) })
				return err
			})
			inIndex := false
			for _, e := range ix.G2 {
				inIndex = inIndex || e.CHR == fmt.Sprint(be64(b.f.car))
			}
			if want := inIndex && rt.status == 200 && b.state == "genuine"; want != (err == nil) {
				c.failf(t, "verification with the default sources gives %v; listed: %v, status %d, certificate %s", err, inIndex, rt.status, b.state)
			}
			if v := f.GetDriverCard().GetTachographG2().GetCardSignCertificate().GetEccCertificate().GetSignatureValid(); v != (err == nil) {
				c.failf(t, "verification gives %v, and the certificate is recorded as valid: %v", err, v)
			}
			c.class("default sources")
			c.nontrivial(b.raw)
		}},
	)
}

var transportLock sync.Mutex

func withDefaultTransport(rt http.RoundTripper, fn func() error) error {
	transportLock.Lock()
	old := http.DefaultTransport
	http.DefaultTransport = rt
	defer func() { http.DefaultTransport = old; transportLock.Unlock() }()
	return fn()
}

// transport stands in for the network.
type transport struct {
	status   int
	body     []byte
	fail     error // instead of a reply
	bodyFail error // after the body
	asked    []string
	ctx      []any
	open     int
	cancel   context.CancelFunc // called when the request arrives
	deaf     bool               // the request did not notice
	pieces   int                // how the body arrives
	sized    bool               // the reply says how long it is
}

type replyBody struct {
	io.Reader
	t *transport
}

func (b *replyBody) Close() error { b.t.open--; return nil }

type failReader struct{ err error }

func (r failReader) Read([]byte) (int, error) { return 0, r.err }

func (rt *transport) RoundTrip(r *http.Request) (*http.Response, error) {
	rt.asked = append(rt.asked, r.Method+" "+r.URL.String())
	rt.ctx = append(rt.ctx, r.Context().Value(ctxKey{}))
	if rt.cancel != nil {
		rt.cancel()
		rt.deaf = r.Context().Err() == nil
	}
	if err := r.Context().Err(); err != nil {
		return nil, err
	}
	if rt.fail != nil {
		return nil, rt.fail
	}
	var body io.Reader = bytes.NewReader(rt.body)
	if rt.bodyFail != nil {
		body = io.MultiReader(body, failReader{rt.bodyFail})
	}
	switch rt.pieces {
	case 1:
		body = iotest.OneByteReader(body)
	case 2:
		body = iotest.HalfReader(body)
	case 3:
		body = iotest.DataErrReader(body)
	}
	size := int64(-1)
	if rt.sized && rt.bodyFail == nil {
		size = int64(len(rt.body))
	}
	rt.open++
	return &http.Response{
		StatusCode: rt.status, Status: fmt.Sprintf("%d %s", rt.status, http.StatusText(rt.status)),
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: &replyBody{body, rt}, ContentLength: size, Request: r,
	}, nil
}

// ---- chains of sources ---------------------------------------------------------

func TestC24(t *testing.T) {
	run(t, "C24", "a chain of two or more sources",
		sub{"chains", 2000, 80000, func(t *rapid.T, c *C) {
			n := rapid.SampledFrom([]int{0, 1, 2, 2, 3, 3, 4, 5, 7}).Draw(t, "sources")
			if oneIn(t, 25, "many sources") {
				n = 8 + position(t, 60, "number of sources")
				c.class("more than seven sources")
			}
			type behaviour struct{ root, rsa, ecc error }
			var log []string // the order in which sources are asked
			var bs []behaviour
			var leaves []cert.Resolver
			roots, rsas, eccs := map[int]*securityv1.RootCertificate{}, map[int]*securityv1.RsaCertificate{}, map[int]*securityv1.EccCertificate{}
			var marks []any
			var chrs []string
			failing := rapid.SampledFrom([]int{0, 20, 50, 80, 97, 100}).Draw(t, "failing")
			// Sources of one kind fail with one text; each failure is still its own.
			sameText := oneIn(t, 3, "same text")
			c.classIf(sameText, "failures share a text")
			for i := 0; i < n; i++ {
				fails := func(kind string) error {
					if rapid.SampledFrom(percents).Draw(t, "fails") < failing {
						if sameText {
							return &sameFailure{text: rapid.SampledFrom([]string{"not found", "certificate not found", "found", "x"}).Draw(t, "text"), source: i}
						}
						err := fmt.Errorf("source %d has no %s", i, kind)
						if cause := rapid.SampledFrom(failureCauses).Draw(t, "cause"); cause != nil {
							err = fmt.Errorf("source %d has no %s: %w", i, kind, cause)
						}
						return err
					}
					return nil
				}
				b := behaviour{fails("root"), fails("rsa"), fails("ecc")}
				bs = append(bs, b)
				roots[i], rsas[i], eccs[i] = &securityv1.RootCertificate{}, &securityv1.RsaCertificate{}, &securityv1.EccCertificate{}
				roots[i].SetKeyId(fmt.Sprint(i))
				rsas[i].SetCertificateHolderReference(fmt.Sprint(i))
				eccs[i].SetCertificateHolderReference(fmt.Sprint(i))
				note := func(kind string) { log = append(log, fmt.Sprintf("%s %d", kind, i)) }
				leaves = append(leaves, spy{
					func(ctx context.Context) (*securityv1.RootCertificate, error) {
						note("root")
						marks = append(marks, fmt.Sprint(ctx.Value(ctxKey{}), " ended: ", ctx.Err() != nil))
						if b.root != nil {
							return nil, b.root
						}
						return roots[i], nil
					},
					func(ctx context.Context, chr string) (*securityv1.RsaCertificate, error) {
						note("rsa")
						marks, chrs = append(marks, fmt.Sprint(ctx.Value(ctxKey{}), " ended: ", ctx.Err() != nil)), append(chrs, chr)
						if b.rsa != nil {
							return nil, b.rsa
						}
						return rsas[i], nil
					},
					func(ctx context.Context, chr string) (*securityv1.EccCertificate, error) {
						note("ecc")
						marks, chrs = append(marks, fmt.Sprint(ctx.Value(ctxKey{}), " ended: ", ctx.Err() != nil)), append(chrs, chr)
						if b.ecc != nil {
							return nil, b.ecc
						}
						return eccs[i], nil
					},
				})
			}
			// A chain can be a source of another chain.
			var chain cert.Resolver
			if n >= 2 && gBool(t, "nested") {
				at := 1 + position(t, n-1, "nested at")
				chain = cert.NewChainResolver(append([]cert.Resolver{cert.NewChainResolver(leaves[:at]...)}, leaves[at:]...)...)
				c.class("nested chains")
			} else {
				chain = cert.NewChainResolver(leaves...)
			}
			for i, k := 0, gInt(t, 1, 4, "requests"); i < k; i++ {
				kind := rapid.SampledFrom([]string{"root", "rsa", "ecc"}).Draw(t, "kind")
				chr := rapid.OneOf(rapid.Just("1316820541130145537"), rapid.StringN(0, 20, 40)).Draw(t, "reference")
				log, marks, chrs = nil, nil, nil
				mark := fmt.Sprintf("request %d", i)
				ctx := context.WithValue(context.Background(), ctxKey{}, mark)
				// A context that has ended is for each source to heed or not; a source
				// that still answers gives a success like any other.
				ended := oneIn(t, 4, "ended")
				if ended {
					var cancel context.CancelFunc
					if gBool(t, "deadline") {
						ctx, cancel = context.WithDeadline(ctx, time.Unix(0, 0))
					} else {
						ctx, cancel = context.WithCancel(ctx)
					}
					cancel()
				}
				c.classIf(ended, "context that has ended")
				c.in(mark, fmt.Sprint(kind, " ", chr, " ended: ", ended))
				var got, none proto.Message
				var err error
				guard(c, t, "lookup", func() {
					switch kind {
					case "root":
						var v *securityv1.RootCertificate
						v, err = chain.GetRootCertificate(ctx)
						got, none = v, (*securityv1.RootCertificate)(nil)
					case "rsa":
						var v *securityv1.RsaCertificate
						v, err = chain.GetRsaCertificate(ctx, chr)
						got, none = v, (*securityv1.RsaCertificate)(nil)
					case "ecc":
						var v *securityv1.EccCertificate
						v, err = chain.GetEccCertificate(ctx, chr)
						got, none = v, (*securityv1.EccCertificate)(nil)
					}
				})
				var wantLog []string
				var errs []error
				winner := -1
				for j, b := range bs {
					wantLog = append(wantLog, fmt.Sprintf("%s %d", kind, j))
					e := map[string]error{"root": b.root, "rsa": b.rsa, "ecc": b.ecc}[kind]
					if e == nil {
						winner = j
						break
					}
					errs = append(errs, e)
				}
				if strings.Join(log, ",") != strings.Join(wantLog, ",") {
					c.failf(t, "asks %v, want %v", log, wantLog)
				}
				for _, m := range marks {
					if m != fmt.Sprint(mark, " ended: ", ended) {
						c.failf(t, "a source is asked without the caller's context")
					}
				}
				for _, v := range chrs {
					if v != chr {
						c.failf(t, "a source is asked for %q, the caller asked for %q", v, chr)
					}
				}
				if winner >= 0 {
					want := map[string]proto.Message{"root": roots[winner], "rsa": rsas[winner], "ecc": eccs[winner]}[kind]
					if err != nil || !proto.Equal(got, want) {
						c.failf(t, "source %d succeeds, the chain gives %v, %v", winner, got, err)
					}
					c.class("one succeeds")
					continue
				}
				if err == nil {
					c.failf(t, "no source succeeds, and the chain gives no error")
				}
				if got != none {
					c.failf(t, "no source succeeds, and the chain gives a certificate with the error")
				}
				for _, e := range errs {
					if !errors.Is(err, e) || !strings.Contains(err.Error(), e.Error()) {
						c.failf(t, "the error %q does not report %q", err, e)
					}
				}
				c.class("all fail")
			}
			if n >= 2 {
				c.nontrivial([]byte(fmt.Sprint(bs, log)))
			}
			c.classIf(n == 0, "empty chain")
		}},
	)
}

// failureCauses are failures that a careless chain might treat in a way of their own.
var failureCauses = []error{
	nil, nil, nil, context.Canceled, context.DeadlineExceeded, io.EOF, io.ErrUnexpectedEOF, fs.ErrNotExist, fs.ErrPermission,
	http.ErrHandlerTimeout, &net.OpError{Op: "dial", Err: errors.New("connection refused")}, errors.Join(io.EOF, context.Canceled),
}

// sameFailure is a failure whose text does not tell it from another one.
type sameFailure struct {
	text   string
	source int
}

func (f *sameFailure) Error() string { return f.text }

type spy struct {
	root func(context.Context) (*securityv1.RootCertificate, error)
	rsa  func(context.Context, string) (*securityv1.RsaCertificate, error)
	ecc  func(context.Context, string) (*securityv1.EccCertificate, error)
}

func (s spy) GetRootCertificate(ctx context.Context) (*securityv1.RootCertificate, error) {
	return s.root(ctx)
}
func (s spy) GetRsaCertificate(ctx context.Context, chr string) (*securityv1.RsaCertificate, error) {
	return s.rsa(ctx, chr)
}
func (s spy) GetEccCertificate(ctx context.Context, chr string) (*securityv1.EccCertificate, error) {
	return s.ecc(ctx, chr)
}

// ---- bundled and downloaded certificates ----------------------------------------

type indexEntry struct {
	CHR string `json:"chr"`
	URL string `json:"url"`
}

type certIndex struct {
	Root   indexEntry   `json:"root"`
	G1, G2 []indexEntry `json:"-"`
	RawG1  []indexEntry `json:"g1"`
	RawG2  []indexEntry `json:"g2"`
}

var certFiles = sync.OnceValue(func() map[string][]byte {
	out := map[string][]byte{}
	root := filepath.Join(envRepo, "internal", "cert")
	_ = filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.Type().IsRegular() && (strings.HasSuffix(p, ".bin") || strings.HasSuffix(p, ".json")) {
			b, err := os.ReadFile(p)
			if err == nil {
				out[filepath.Base(filepath.Dir(p))+"/"+filepath.Base(p)] = b
			}
		}
		return nil
	})
	return out
})

var theIndex = sync.OnceValues(func() (*certIndex, error) {
	for name, b := range certFiles() {
		if strings.HasSuffix(name, "/index.json") {
			ix := &certIndex{}
			if err := json.Unmarshal(b, ix); err != nil {
				return nil, err
			}
			ix.G1, ix.G2 = ix.RawG1, ix.RawG2
			return ix, nil
		}
	}
	return nil, nil
})

func readIndex(c *C, t *rapid.T) *certIndex {
	ix, err := theIndex()
	if err != nil {
		c.failf(t, "the certificate index cannot be read: %v", err)
	}
	if ix == nil {
		t.Skip("there is no certificate index in the repository")
	}
	return ix
}

// bundled lists the bundled certificates of a generation by reference.
func bundled(c *C, t *rapid.T, gen string) map[string][]byte {
	out := map[string][]byte{}
	for name, b := range certFiles() {
		if dir, file, _ := strings.Cut(name, "/"); dir == gen && strings.HasSuffix(file, ".bin") {
			out[strings.TrimSuffix(file, ".bin")] = b
		}
	}
	return out
}

func parseU64(s string) uint64 {
	var v uint64
	_, _ = fmt.Sscan(s, &v)
	return v
}

func sortedKeys(m map[string][]byte) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

// gReference draws a certificate reference: a listed one, a bundled one, something close
// to one, or anything.
func gReference(c *C, t *rapid.T, ix *certIndex) string {
	pick := func() string {
		switch rapid.SampledFrom([]int{0, 1, 2, 3}).Draw(t, "reference.from") {
		case 0:
			return ix.G1[position(t, len(ix.G1), "reference.g1")].CHR
		case 1:
			return ix.G2[position(t, len(ix.G2), "reference.g2")].CHR
		case 2:
			k := sortedKeys(bundled(c, t, "g1"))
			return k[position(t, len(k), "reference.b1")]
		default:
			k := sortedKeys(bundled(c, t, "g2"))
			return k[position(t, len(k), "reference.b2")]
		}
	}
	switch rapid.SampledFrom([]string{"listed", "listed", "listed", "near", "path", "number", "any"}).Draw(t, "reference.kind") {
	case "near":
		s := []byte(pick())
		switch gInt(t, 0, 3, "near") {
		case 0:
			return string(s[:len(s)-1])
		case 1:
			return string(s) + rapid.SampledFrom([]string{"0", " ", ".bin", "\x00", "\n"}).Draw(t, "tail")
		case 2:
			return rapid.SampledFrom([]string{"0", " ", "+", "./"}).Draw(t, "head") + string(s)
		default:
			i := position(t, len(s), "digit")
			s[i] = '0' + (s[i]-'0'+1)%10
			return string(s)
		}
	case "path":
		return rapid.SampledFrom([]string{"", ".", "..", "/", "../root/EC_PK", "../index", "../g1/1316820541096591105", "../g2/1316820541130145537", "g1/1316820541096591105", "root/EC_PK", "EC_PK", "*"}).Draw(t, "path")
	case "number":
		return fmt.Sprint(rapid.Uint64().Draw(t, "number"))
	case "any":
		return rapid.String().Draw(t, "any")
	}
	return pick()
}

func TestC25(t *testing.T) {
	type lookup struct {
		gen string
		get func(r cert.Resolver, ctx context.Context, chr string) (proto.Message, bool, error)
	}
	lookups := []lookup{
		{"g1", func(r cert.Resolver, ctx context.Context, chr string) (proto.Message, bool, error) {
			v, err := r.GetRsaCertificate(ctx, chr)
			return v, v != nil, err
		}},
		{"g2", func(r cert.Resolver, ctx context.Context, chr string) (proto.Message, bool, error) {
			v, err := r.GetEccCertificate(ctx, chr)
			return v, v != nil, err
		}},
	}
	decode := func(gen string, b []byte) (proto.Message, error) {
		if gen == "g1" {
			return security.UnmarshalRsaCertificate(b)
		}
		return security.UnmarshalEccCertificate(b)
	}
	run(t, "C25", "a reference that is listed or bundled, or a reply that is no certificate",
		sub{"bundled", 1000, 20000, func(t *rapid.T, c *C) {
			ix := readIndex(c, t)
			l := rapid.SampledFrom(lookups).Draw(t, "generation")
			chr := gReference(c, t, ix)
			c.in("generation", l.gen)
			c.in("reference", chr)
			b := bundled(c, t, l.gen)[chr]
			if strings.ContainsAny(chr, "/\x00") {
				b = nil
			}
			var got proto.Message
			var some bool
			var err error
			guard(c, t, "lookup", func() { got, some, err = l.get(cert.NewEmbeddedResolver(), context.Background(), chr) })
			if b == nil {
				if err == nil || some {
					c.failf(t, "a certificate that is not bundled is returned for %q: %v", chr, got)
				}
				c.class("not bundled")
				return
			}
			if err != nil {
				c.failf(t, "bundled certificate %s is not found: %v", chr, err)
			}
			want, err := decode(l.gen, b)
			if err != nil {
				c.failf(t, "bundled certificate %s does not decode: %v", chr, err)
			}
			if !proto.Equal(got, want) {
				c.failf(t, "bundled certificate %s: %s", chr, diffMsg(got, want))
			}
			switch m := got.(type) {
			case *securityv1.EccCertificate:
				if m.GetCertificateHolderReference() != chr {
					c.failf(t, "asked for %s, got the certificate of %s", chr, m.GetCertificateHolderReference())
				}
			case *securityv1.RsaCertificate:
				root, err := cert.NewEmbeddedResolver().GetRootCertificate(context.Background())
				if err != nil {
					c.failf(t, "the bundled root cannot be read: %v", err)
				}
				if err := security.VerifyRsaCertificateWithRoot(m, root); err != nil {
					c.failf(t, "bundled certificate %s does not verify under the bundled root: %v", chr, err)
				}
				if m.GetCertificateHolderReference() != chr {
					c.failf(t, "asked for %s, got the certificate of %s", chr, m.GetCertificateHolderReference())
				}
			}
			c.class("bundled, " + l.gen)
			c.nontrivial([]byte(l.gen + chr))
		}},
		sub{"root", 10, 100, func(t *rapid.T, c *C) {
			_ = gBool(t, "any")
			root, err := cert.NewEmbeddedResolver().GetRootCertificate(context.Background())
			if err != nil {
				c.failf(t, "the bundled root cannot be read: %v", err)
			}
			b := certFiles()["root/EC_PK.bin"]
			if b == nil {
				t.Skip("the root is not where it was")
			}
			want, err := security.UnmarshalRootCertificate(b)
			if err != nil || !proto.Equal(root, want) {
				c.failf(t, "the bundled root is not the one in the repository: %v", err)
			}
			if ix := readIndex(c, t); root.GetKeyId() != ix.Root.CHR {
				c.failf(t, "the bundled root is %s, the index lists %s", root.GetKeyId(), ix.Root.CHR)
			}
			c.class("root")
			c.nontrivial(b)
		}},
		sub{"downloaded", 1500, 40000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			ix := readIndex(c, t)
			l := rapid.SampledFrom(lookups).Draw(t, "generation")
			chr := gReference(c, t, ix)
			entries := ix.G1
			if l.gen == "g2" {
				entries = ix.G2
			}
			urls := map[string]bool{}
			for _, e := range entries {
				if e.CHR == chr {
					urls["GET "+e.URL] = true
				}
			}
			rt := &transport{status: 200, pieces: rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "pieces"), sized: gBool(t, "sized")}
			good := true
			reply := rapid.SampledFrom([]string{"certificate", "certificate", "certificate", "status", "garbage", "cut", "longer", "empty", "other kind", "transport", "body", "cancelled", "cancelled on the way"}).Draw(t, "reply")
			cert1, _ := g.rsaCertificate()
			f2, _ := g.issued2()
			cert2 := f2.bytes()
			rt.body = cert1
			if l.gen == "g2" {
				rt.body = cert2
			}
			whole := rt.body
			ctx := context.WithValue(context.Background(), ctxKey{}, "mine")
			switch reply {
			case "status":
				rt.status = rapid.SampledFrom([]int{100, 201, 202, 203, 204, 206, 300, 304, 400, 401, 403, 404, 410, 418, 429, 500, 502, 503, 599}).Draw(t, "status")
				good = false
			case "garbage":
				rt.body = gBytes(t, gInt(t, 0, 400, "size"), "garbage")
				_, err := decode(l.gen, rt.body)
				good = err == nil
			case "cut":
				rt.body = rt.body[:position(t, len(rt.body), "cut")]
				good = false
			case "longer":
				rt.body = cat(rt.body, make([]byte, 342))
				good = false
			case "empty":
				rt.body, good = nil, false
			case "other kind":
				if l.gen == "g1" {
					rt.body = cert2
				} else {
					rt.body = cert1
				}
				good = false
			case "transport":
				rt.fail, good = errors.New("no route"), false
			case "body":
				rt.body = rt.body[:position(t, len(rt.body)+1, "sent")]
				rt.bodyFail, good = errors.New("connection reset"), false
			case "cancelled":
				var cancel context.CancelFunc
				ctx, cancel = context.WithCancel(ctx)
				cancel()
				good = false
			case "cancelled on the way":
				ctx, rt.cancel = context.WithCancel(ctx)
				good = false
			}
			c.in("generation", l.gen)
			c.in("reference", chr)
			c.in("reply", reply)
			c.in("status", rt.status)
			c.in("body", rt.body)
			var got proto.Message
			var some bool
			var err error
			guard(c, t, "download", func() { got, some, err = l.get(cert.NewClient(&http.Client{Transport: rt}), ctx, chr) })
			for _, a := range rt.asked {
				if !urls[a] {
					c.failf(t, "asks %s; the index lists %v for %s", a, urls, chr)
				}
			}
			for _, v := range rt.ctx {
				if v != "mine" {
					c.failf(t, "downloads without the caller's context")
				}
			}
			if rt.deaf {
				c.failf(t, "a download goes on when its caller cancels it")
			}
			if len(urls) == 0 {
				if err == nil || some {
					c.failf(t, "a certificate is returned for %q, which is not listed", chr)
				}
				c.class("not listed")
				return
			}
			if good != (err == nil) {
				c.failf(t, "a reply (%s, status %d) gives %v, %v", reply, rt.status, got, err)
			}
			if err == nil {
				want, derr := decode(l.gen, rt.body)
				if derr != nil || !proto.Equal(got, want) {
					c.failf(t, "the download gives something other than the certificate in the reply: %s", diffMsg(got, want))
				}
				if len(rt.asked) == 0 {
					c.failf(t, "a download without a request")
				}
				c.class("downloaded, " + l.gen)
			} else {
				if some {
					c.failf(t, "a failed download returns a certificate")
				}
				if rt.fail != nil && !errors.Is(err, rt.fail) || rt.bodyFail != nil && !errors.Is(err, rt.bodyFail) {
					c.failf(t, "the error does not carry its cause: %v", err)
				}
				c.class("download fails")
			}
			if rt.open != 0 {
				c.failf(t, "the reply is left open")
			}
			c.nontrivial(cat([]byte(l.gen+chr+reply), whole))
		}},
		// One client is asked again and again, while the server comes and goes.
		sub{"histories", 500, 15000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			ix := readIndex(c, t)
			rt := &transport{}
			client := cert.NewClient(&http.Client{Transport: rt})
			type asked struct {
				l   lookup
				chr string
			}
			var pool []asked
			for n := gCount(t, 1, 3, 20, "references"); n > 0; n-- {
				l := rapid.SampledFrom(lookups).Draw(t, "generation")
				entries := ix.G1
				if l.gen == "g2" {
					entries = ix.G2
				}
				pool = append(pool, asked{l, entries[position(t, len(entries), "entry")].CHR})
			}
			served := map[string][]proto.Message{} // what each reference was answered with before
			var key []byte
			steps := ""
			for i, n := 0, gCount(t, 2, 8, 80, "steps"); i < n; i++ {
				a := pool[position(t, len(pool), "of")]
				id := a.l.gen + "/" + a.chr
				*rt = transport{status: 200}
				cert1, _ := g.rsaCertificate()
				f2, _ := g.issued2()
				rt.body = cert1
				if a.l.gen == "g2" {
					rt.body = f2.bytes()
				}
				ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, i))
				reply := rapid.SampledFrom([]string{"certificate", "certificate", "certificate", "status", "cut", "transport", "body", "cancelled", "cancelled on the way"}).Draw(t, "reply")
				good := false
				switch reply {
				case "certificate":
					good = true
				case "status":
					rt.status = rapid.SampledFrom([]int{204, 304, 403, 404, 410, 429, 500, 503}).Draw(t, "status")
				case "cut":
					rt.body = rt.body[:position(t, len(rt.body), "cut")]
				case "transport":
					rt.fail = errors.New("no route")
				case "body":
					rt.bodyFail = errors.New("connection reset")
				case "cancelled":
					cancel()
				case "cancelled on the way":
					rt.cancel = cancel
				}
				steps += fmt.Sprintf("%s: %s; ", id, reply)
				c.in("steps", steps)
				if good {
					want, err := decode(a.l.gen, rt.body)
					if err != nil {
						c.failf(t, "a well-formed certificate is refused: %v", err)
					}
					served[id] = append(served[id], want)
				}
				key = cat(key, []byte(reply), rt.body)
				var got proto.Message
				var some bool
				var err error
				guard(c, t, "download", func() { got, some, err = a.l.get(client, ctx, a.chr) })
				cancel()
				if rt.deaf {
					c.failf(t, "a download goes on when its caller cancels it")
				}
				if rt.open != 0 {
					c.failf(t, "the reply of step %d is left open", i)
				}
				for _, v := range rt.ctx {
					if v != i {
						c.failf(t, "step %d downloads with the context of %v", i, v)
					}
				}
				switch {
				case err != nil && good:
					c.failf(t, "step %d: the server has the certificate, and it is refused: %v", i, err)
				case err != nil && some:
					c.failf(t, "step %d: a failed download returns a certificate", i)
				case err != nil:
					continue
				}
				// A client may keep what was served before under the same reference.
				ok := false
				for _, want := range served[id] {
					ok = ok || proto.Equal(got, want)
				}
				if !ok {
					c.failf(t, "step %d (%s): the result is no certificate that was served for %s", i, reply, id)
				}
				c.classIf(i > 0, "another download of a client")
				// The caller may do what it likes with its certificate.
				proto.Reset(got)
			}
			c.nontrivial(key)
		}},
	)
}
