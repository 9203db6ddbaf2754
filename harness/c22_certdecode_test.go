package verifpbt

import (
	"bytes"
	"fmt"
	"testing"

	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"github.com/way-platform/tachograph-go/internal/security"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
)

// node is a data object: a tag with a value or with further objects.
type node struct {
	tag   int
	value []byte
	kids  []*node
}

func (n *node) bytes() []byte {
	if n.kids == nil {
		return der(n.tag, n.value)
	}
	var parts [][]byte
	for _, k := range n.kids {
		parts = append(parts, k.bytes())
	}
	return der(n.tag, parts...)
}

func (f eccFields) tree() *node {
	leaf := func(tag int, v ...[]byte) *node { return &node{tag: tag, value: cat(v...)} }
	return &node{tag: 0x7F21, kids: []*node{
		{tag: 0x7F4E, kids: []*node{
			leaf(0x5F29, []byte{f.cpi}), leaf(0x42, f.car), leaf(0x5F4C, f.cha),
			{tag: 0x7F49, kids: []*node{leaf(0x06, eccCurves[f.curve].der), leaf(0x86, []byte{4}, f.x, f.y)}},
			leaf(0x5F20, f.chr), leaf(0x5F25, u32(f.effective)), leaf(0x5F24, u32(f.expi)),
		}},
		leaf(0x5F37, f.r, f.s),
	}}
}

// all lists the objects with the object each is in.
func (n *node) all(parent *node, visit func(n, parent *node)) {
	visit(n, parent)
	for _, k := range n.kids {
		k.all(n, visit)
	}
}

var eccTags = []int{0x7F21, 0x7F4E, 0x5F29, 0x42, 0x5F4C, 0x7F49, 0x06, 0x86, 0x5F20, 0x5F25, 0x5F24, 0x5F37, 0x30, 0x04, 0x02, 0x31, 0x5F38, 0x7F22}

// malform breaks the structure of a certificate.
func (g *G) malform(f eccFields) ([]byte, string) {
	t := g.t
	root := f.tree()
	type place struct{ n, parent *node }
	var places []place
	root.all(nil, func(n, p *node) { places = append(places, place{n, p}) })
	at := places[position(t, len(places), "object")]
	index := func() int {
		for i, k := range at.parent.kids {
			if k == at.n {
				return i
			}
		}
		panic("not found")
	}
	what := ""
	kind := rapid.SampledFrom([]string{"tag", "missing", "extra", "twice", "swapped", "size", "point", "signature", "length", "empty"}).Draw(t, "fault")
	if at.parent == nil && kind != "length" && kind != "point" && kind != "signature" {
		kind = "tag"
	}
	switch kind {
	case "tag":
		old := at.n.tag
		for at.n.tag == old {
			at.n.tag = eccTags[position(t, len(eccTags), "tag")]
			if at.n.tag == old {
				at.n.tag = old ^ 1
			}
		}
		what = fmt.Sprintf("tag %X instead of %X", at.n.tag, old)
	case "missing":
		i := index()
		at.parent.kids = append(at.parent.kids[:i:i], at.parent.kids[i+1:]...)
		if at.parent.kids == nil {
			at.parent.kids = []*node{}
		}
		what = fmt.Sprintf("no object %X", at.n.tag)
	case "extra":
		i := index()
		x := &node{tag: eccTags[position(t, len(eccTags), "tag")], value: gBytes(t, gInt(t, 0, 8, "size"), "value")}
		k := append([]*node{}, at.parent.kids[:i+1]...)
		at.parent.kids = append(append(k, x), at.parent.kids[i+1:]...)
		what = fmt.Sprintf("an extra object %X after object %X", x.tag, at.n.tag)
	case "twice":
		i := index()
		k := append([]*node{}, at.parent.kids[:i+1]...)
		at.parent.kids = append(append(k, at.n), at.parent.kids[i+1:]...)
		what = fmt.Sprintf("object %X twice", at.n.tag)
	case "swapped":
		i := index()
		j := (i + 1) % len(at.parent.kids)
		at.parent.kids[i], at.parent.kids[j] = at.parent.kids[j], at.parent.kids[i]
		what = fmt.Sprintf("objects %X and %X swapped", at.parent.kids[i].tag, at.parent.kids[j].tag)
	case "size":
		fixed := []int{0x5F29, 0x42, 0x5F4C, 0x5F20, 0x5F25, 0x5F24}
		tag := fixed[position(t, len(fixed), "fixed")]
		for _, p := range places {
			if p.n.tag == tag {
				if gBool(t, "longer") {
					p.n.value = cat(p.n.value, gBytes(t, gInt(t, 1, 4, "extra"), "extra"))
				} else {
					p.n.value = p.n.value[:position(t, len(p.n.value), "size")]
				}
				what = fmt.Sprintf("object %X of %d bytes", tag, len(p.n.value))
			}
		}
	case "point":
		for _, p := range places {
			if p.n.tag == 0x86 {
				switch gInt(t, 0, 2, "point") {
				case 0:
					p.n.value = cat([]byte{rapid.SampledFrom([]byte{0, 2, 3, 5, 6, 7, 0x84}).Draw(t, "form")}, p.n.value[1:])
					what = "a public point in another form"
				case 1:
					p.n.value = p.n.value[:len(p.n.value)-1]
					what = "a public point that is a byte too short"
				default:
					p.n.value = nil
					what = "an empty public point"
				}
			}
		}
	case "signature":
		for _, p := range places {
			if p.n.tag == 0x5F37 {
				p.n.value = p.n.value[:len(p.n.value)-1]
				what = "a signature that is a byte too short"
			}
		}
	case "empty":
		for _, p := range places {
			if p.n == at.n {
				p.n.value, p.n.kids = nil, nil
				what = fmt.Sprintf("an empty object %X", at.n.tag)
			}
		}
		if at.n.tag == 0x5F37 {
			// The size of the signature is not the decoder's to judge.
			return nil, ""
		}
	case "length":
		b := f.bytes()
		n := 1 + position(t, len(b)-204+1, "cut")
		if len(b)-n < 204 {
			n = 0
		}
		if n == 0 {
			return nil, ""
		}
		return b[:len(b)-n], fmt.Sprintf("the last %d bytes missing", n)
	}
	return root.bytes(), what
}

func TestC22(t *testing.T) {
	sizes := func(t *rapid.T, c *C, name string, lo, hi int, well func() []byte, dec func([]byte) (proto.Message, error)) {
		b := well()
		n := rapid.OneOf(rapid.IntRange(0, 400), rapid.SampledFrom([]int{lo - 1, hi + 1, 2 * lo, 0, 128, 143, 145, 193, 195, 1024, 65535})).Draw(t, "size")
		if n >= lo && n <= hi {
			n = hi + 1 + n
		}
		b = cat(b, bytes.Repeat([]byte{0x5A}, max(0, n-len(b))))[:n]
		c.in("size", fmt.Sprint(n))
		c.in("bytes", b)
		var m proto.Message
		var err error
		guard(c, t, "decoding", func() { m, err = dec(b) })
		if err == nil {
			c.failf(t, "a %s of %d bytes is accepted", name, n)
		}
		_ = m
		c.class("wrong size")
		c.nontrivial(b)
	}
	decRoot := func(b []byte) (proto.Message, error) { return security.UnmarshalRootCertificate(b) }
	decRSA := func(b []byte) (proto.Message, error) { return security.UnmarshalRsaCertificate(b) }
	decECC := func(b []byte) (proto.Message, error) { return security.UnmarshalEccCertificate(b) }
	run(t, "C22", "a certificate with fields other than zeros, or a malformed one",
		sub{"root", 500, 20000, func(t *rapid.T, c *C) {
			id, n, e := gCHR(t, "id"), gBytes(t, 128, "modulus"), gBytes(t, 8, "exponent")
			b := cat(u64(id), n, e)
			c.in("root", b)
			got, err := security.UnmarshalRootCertificate(exact(b))
			if err != nil {
				c.failf(t, "a root certificate is refused: %v", err)
			}
			want := &securityv1.RootCertificate{}
			want.SetKeyId(fmt.Sprint(id))
			want.SetRsaModulus(n)
			want.SetRsaExponent(e)
			if d := diffMsg(got, want); d != "" {
				c.failf(t, "root certificate: %s", d)
			}
			c.class("root")
			if notBlank(b) {
				c.nontrivial(b)
			}
		}},
		sub{"root sizes", 200, 5000, func(t *rapid.T, c *C) {
			sizes(t, c, "root certificate", 144, 144, func() []byte { return gBytes(t, 144, "root") }, decRoot)
		}},
		sub{"first generation", 500, 20000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			b, want := g.rsaCertificate()
			c.in("certificate", b)
			got, err := security.UnmarshalRsaCertificate(exact(b))
			if err != nil {
				c.failf(t, "a certificate is refused: %v", err)
			}
			if d := diffMsg(got, want); d != "" {
				c.failf(t, "first-generation certificate: %s", d)
			}
			head := gBytes(t, gInt(t, 0, 10, "head"), "before")
			out, err := security.AppendRsaCertificate(exact(head), got)
			if err != nil || !bytes.Equal(out, cat(head, b)) {
				c.failf(t, "encoding gives %x, %v", out, err)
			}
			refuseEncoding(c, t, func(m *securityv1.RsaCertificate) error {
				_, err := security.AppendRsaCertificate(nil, m)
				return err
			}, got, b)
			c.class("first generation")
			if notBlank(b) {
				c.nontrivial(b)
			}
		}},
		sub{"first generation sizes", 200, 5000, func(t *rapid.T, c *C) {
			sizes(t, c, "first-generation certificate", 194, 194, func() []byte { return gBytes(t, 194, "certificate") }, decRSA)
		}},
		sub{"second generation", 800, 30000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			var f eccFields
			for {
				f = g.eccFields()
				if rapid.Bool().Draw(t, "other profile") {
					f.cpi = gByte(t, "cpi")
				}
				if n := len(f.bytes()); n >= 204 && n <= 341 {
					break
				}
			}
			b := f.bytes()
			c.in("certificate", b)
			got, err := security.UnmarshalEccCertificate(exact(b))
			if err != nil {
				c.failf(t, "a certificate is refused: %v", err)
			}
			if d := diffMsg(got, f.message()); d != "" {
				c.failf(t, "second-generation certificate: %s", d)
			}
			head := gBytes(t, gInt(t, 0, 10, "head"), "before")
			out, err := security.AppendEccCertificate(exact(head), got)
			if err != nil || !bytes.Equal(out, cat(head, b)) {
				c.failf(t, "encoding gives %x, %v", out, err)
			}
			refuseEncoding(c, t, func(m *securityv1.EccCertificate) error {
				_, err := security.AppendEccCertificate(nil, m)
				return err
			}, got, b)
			c.class("second generation, " + eccCurves[f.curve].name)
			c.nontrivial(b)
		}},
		sub{"second generation sizes", 300, 5000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			sizes(t, c, "second-generation certificate", 204, 341, func() []byte { return g.eccFields().bytes() }, decECC)
		}},
		sub{"malformed", 1500, 60000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			f := g.eccFields()
			b, what := g.malform(f)
			if b == nil || bytes.Equal(b, f.bytes()) || len(b) < 204 || len(b) > 341 {
				c.class("not a malformed certificate of allowed size")
				return
			}
			c.in("certificate", b)
			c.in("fault", what)
			var err error
			guard(c, t, "decoding", func() { _, err = decECC(b) })
			if err == nil {
				c.failf(t, "a certificate with %s is accepted", what)
			}
			c.class("malformed")
			c.nontrivial(b)
		}},
	)
}

// refuseEncoding checks that a certificate without its bytes, or with bytes of the wrong
// size, is not encoded.
func refuseEncoding[M interface {
	proto.Message
	SetRawData([]byte)
	ClearRawData()
}](c *C, t *rapid.T, enc func(M) error, m M, b []byte) {
	m = proto.Clone(m).(M)
	m.ClearRawData()
	if enc(m) == nil {
		c.failf(t, "a certificate without its bytes is encoded")
	}
	n := gInt(t, 1, 203, "wrong size")
	if n == 194 {
		n = 193
	}
	m.SetRawData(b[:min(n, len(b)-1)])
	if enc(m) == nil {
		c.failf(t, "a certificate with %d bytes kept is encoded", n)
	}
	m.SetRawData(cat(b, make([]byte, 342)))
	if enc(m) == nil {
		c.failf(t, "a certificate with %d bytes kept is encoded", len(b)+342)
	}
}
