package verifpbt

import (
	"bytes"
	"fmt"
	"sort"
	"testing"

	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/card"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
)

// decodeCard reads a driver card through the raw records, which may come in any order.
func decodeCard(b []byte) (*cardv1.DriverCardFile, error) {
	raw, err := card.UnmarshalRawCardFile(b)
	if err != nil {
		return nil, err
	}
	return card.UnmarshalDriverCardFile(raw)
}

// noise are files that belong to a driver card but that the library does not decode.
var noise = []rec{
	{0x2F00, 0, nil}, {0x2F01, 0, nil}, {0x0006, 0, nil},
	{0x0526, 2, nil}, {0x0527, 2, nil}, {0x0528, 2, nil}, {0x0529, 2, nil}, {0x0530, 2, nil}, {0x0540, 2, nil},
}

func TestC05(t *testing.T) {
	body := func(p int, viaFile, large bool) func(t *rapid.T, c *C) {
		return func(t *rapid.T, c *C) {
			g := &G{t: t, large: large}
			es := g.card(p)
			if viaFile {
				// A card file opens with the chip's identification.
				if len(es) == 0 || es[0].spec.name != "ICC" {
					es = append([]element{g.element(efByName("ICC"))}, es...)
				}
				es = append(es[:1:1], shuffle(t, es[1:])...)
			} else {
				es = shuffle(t, es)
			}
			var file []byte
			strange := 0
			for i, e := range es {
				if i > 0 && oneIn(t, 10, "noise") {
					r := rapid.SampledFrom(noise).Draw(t, "noise.file")
					r.val = gBytes(t, gInt(t, 0, 40, "noise.len"), "noise.val")
					file = append(file, r.bytes()...)
					strange++
				}
				file = append(file, recsBytes(e.records())...)
			}
			c.in("files", elementsString(es))
			if len(file) < 4000 {
				c.in("bytes", file)
			}
			want := wantCard(es)
			var got *cardv1.DriverCardFile
			var err error
			if viaFile {
				var f *tachographv1.File
				f, err = tachograph.UnmarshalFile(exact(file))
				if err == nil && !f.HasDriverCard() {
					c.failf(t, "a driver card is read as %v", f.GetType())
				}
				got = f.GetDriverCard()
			} else {
				got, err = decodeCard(exact(file))
			}
			if err != nil {
				c.failf(t, "a well-formed driver card is refused: %v", err)
			}
			if d := diffMsg(got, want); d != "" {
				c.failf(t, "%s", d)
			}
			signed := 0
			both := map[string]int{}
			for _, e := range es {
				c.class("file: " + e.spec.name)
				if e.sig != nil {
					signed++
				}
				both[fmt.Sprint(e.spec.fid)]++
			}
			for _, n := range both {
				c.classIf(n == 2, "same file in both applications")
			}
			c.classIf(strange > 0, "with files the library does not decode")
			c.classIf(signed > 0, "with signatures")
			c.classIf(signed > 0 && signed < len(es), "with and without signatures")
			if len(es) >= 2 {
				c.nontrivial(file)
			}
		}
	}
	run(t, "C05", "a card of at least two elementary files",
		sub{"any order", 500, 20000, body(25, false, false)},
		sub{"full cards", 60, 3000, body(90, false, false)},
		sub{"whole file", 300, 10000, body(30, true, false)},
		sub{"large cards", 4, 150, body(90, false, true)})
}

// unencodable names the listed finding that a file's content falls under: it holds a code
// that the decoded message reports as unknown and has no field to keep.
func unencodable(fid int, val []byte) bool {
	bad := func(off int) bool {
		if off >= len(val) {
			return false
		}
		_, known := tabNation[int(val[off])]
		return !known
	}
	switch fid {
	case 0x0520:
		return bad(0)
	case 0x0521:
		return bad(36)
	case 0x0507:
		return bad(4)
	case 0x0508:
		t := val[1:5]
		return !bytes.Equal(t, make([]byte, 4)) && (bad(23) || bad(6))
	case 0x0502, 0x0503:
		for i := 0; i+24 <= len(val); i += 24 {
			_, known := tabEventFault[int(val[i])]
			if known && !bytes.Equal(val[i+1:i+5], make([]byte, 4)) && bad(i+9) {
				return true
			}
		}
	}
	return false
}

// modelledFiles lists the decoded files of a card download with their signatures.
func modelledFiles(rs []rec) []string {
	var out []string
	for i := 0; i < len(rs); i++ {
		r := rs[i]
		s, ok := modelled(r.fid, r.app&2 != 0)
		if !ok || r.app&1 != 0 {
			continue
		}
		sig := "none"
		if i+1 < len(rs) && rs[i+1].fid == r.fid && rs[i+1].app&1 == 1 && rs[i+1].app&2 == r.app&2 {
			sig = fmt.Sprintf("%x", rs[i+1].val)
		}
		out = append(out, fmt.Sprintf("%04x/%02x %x signature %s", r.fid, s.app, r.val, sig))
	}
	return out
}

func checkRoundTrip(t *rapid.T, c *C, file []byte, canonical bool) bool {
	in, err := splitTLV(file)
	if err != nil {
		c.failf(t, "the generator is wrong: %v", err)
	}
	first, err := decodeCard(exact(file))
	if err != nil {
		c.class("refused by the decoder")
		return false
	}
	for _, r := range in {
		id := fmt.Sprintf("unknown-nation-%04x", r.fid)
		if r.app&1 == 0 && unencodable(r.fid, r.val) && isKnown("C06", id) {
			excluded(id)
			c.class("left out: unknown nation")
			return false
		}
	}
	before := proto.Clone(first)
	out, err := card.MarshalDriverCardFile(first)
	if err != nil {
		c.failf(t, "a decoded card does not encode: %v", err)
	}
	if !proto.Equal(first, before) {
		c.failf(t, "encoding changes the decoded card")
	}
	back, err := splitTLV(out)
	if err != nil {
		c.failf(t, "the encoded card is no card file: %v", err)
	}
	a, b := modelledFiles(in), modelledFiles(back)
	n := 0
	for _, r := range back {
		if r.app&1 == 1 {
			n++
		}
	}
	for _, x := range b {
		if !bytes.HasSuffix([]byte(x), []byte("signature none")) {
			n--
		}
	}
	sort.Strings(a)
	sort.Strings(b)
	for i := 0; i < max(len(a), len(b)); i++ {
		switch {
		case i >= len(b) || (i < len(a) && a[i] < b[i]):
			near := ""
			for _, x := range b {
				if x[:7] == a[i][:7] {
					near = x
				}
			}
			if near == "" {
				c.failf(t, "this file is lost: %.300s", a[i])
			}
			c.failf(t, "a file comes back changed: %s (of %.200s)", firstDiff([]byte(near), []byte(a[i])), a[i])
		case i >= len(a) || a[i] != b[i]:
			c.failf(t, "this file was not in the input: %.300s", b[i])
		}
	}
	if n != 0 || len(back) != len(b)+countSigned(b) {
		c.failf(t, "the encoded card has %d records, of which %d files and %d signatures were in the input", len(back), len(b), countSigned(b))
	}
	if canonical && !bytes.Equal(out, file) {
		c.failf(t, "a card in the order of the library comes back changed: %s", firstDiff(out, file))
	}
	second, err := decodeCard(exact(out))
	if err != nil {
		c.failf(t, "the encoded card is refused: %v", err)
	}
	if d := diffMsg(second, first); d != "" {
		c.failf(t, "the encoded card decodes to another card: %s", d)
	}
	again, err := card.MarshalDriverCardFile(second)
	if err != nil || !bytes.Equal(again, out) {
		c.failf(t, "encoding a second time gives other bytes: %v", err)
	}
	return true
}

func countSigned(files []string) int {
	n := 0
	for _, f := range files {
		if !bytes.HasSuffix([]byte(f), []byte("signature none")) {
			n++
		}
	}
	return n
}

// gContent draws the content of one file: a modelled one, one with changed bytes, or
// one of random bytes of a likely size.
func (g *G) content(s efSpec) []byte {
	b, _ := s.gen(g)
	switch rapid.IntRange(0, 5).Draw(g.t, "content.kind") {
	case 0, 1:
		return b
	case 2:
		n := gInt(g.t, 1, 12, "mutations")
		for i := 0; i < n; i++ {
			b = gMutate(g.t, b, "content")
		}
		return b
	case 3:
		return gBytes(g.t, len(b), "content.bytes")
	case 4:
		if len(b) == 0 {
			return b
		}
		return b[:gInt(g.t, 0, len(b)-1, "content.cut")]
	default:
		return append(b, gBytes(g.t, gInt(g.t, 1, 30, "content.more"), "content.tail")...)
	}
}

func TestC06(t *testing.T) {
	probeKnown("C06", func(e knownEntry) bool {
		b := unhex(e.Input)
		f, err := decodeCard(b)
		if err != nil {
			return false
		}
		_, err = card.MarshalDriverCardFile(f)
		return err != nil
	})
	subs := []sub{
		{"well-formed cards", 300, 12000, func(t *rapid.T, c *C) {
			g := &G{t: t, encodable: true}
			es := g.card(25)
			file := elementsFile(es)
			c.in("files", elementsString(es))
			if len(file) < 4000 {
				c.in("bytes", file)
			}
			if !checkRoundTrip(t, c, file, true) {
				c.failf(t, "a well-formed driver card is refused")
			}
			for _, e := range es {
				c.class("file: " + e.spec.name)
			}
			if len(es) >= 2 {
				c.nontrivial(file)
			}
		}},
		{"large cards", 4, 150, func(t *rapid.T, c *C) {
			g := &G{t: t, encodable: true, large: true}
			es := g.card(90)
			file := elementsFile(es)
			c.in("files", elementsString(es))
			if !checkRoundTrip(t, c, file, true) {
				c.failf(t, "a well-formed driver card is refused")
			}
			if len(es) >= 2 {
				c.nontrivial(file)
			}
		}},
		{"any order", 200, 8000, func(t *rapid.T, c *C) {
			g := &G{t: t, encodable: true}
			es := shuffle(t, g.card(25))
			file := elementsFile(es)
			c.in("files", elementsString(es))
			if len(file) < 4000 {
				c.in("bytes", file)
			}
			if !checkRoundTrip(t, c, file, false) {
				c.failf(t, "a well-formed driver card is refused")
			}
			if len(es) >= 2 {
				c.nontrivial(file)
			}
		}},
	}
	subs = append(subs, sub{"stray signatures", 300, 12000, func(t *rapid.T, c *C) {
		g := &G{t: t, encodable: true}
		var rs []rec
		for _, e := range g.card(12) {
			rs = append(rs, e.records()...)
		}
		for n := gInt(t, 1, 3, "strays"); n > 0; n-- {
			// A signature of a file of the card, or of any other, anywhere between the records.
			stray := rec{0, 1, gBytes(t, gInt(t, 0, 140, "sig.len"), "signature")}
			at := position(t, len(rs)+1, "at")
			switch {
			case len(rs) > 0 && gBool(t, "of a file of the card"):
				of := position(t, len(rs), "of")
				stray.fid, stray.app = rs[of].fid, rs[of].app|1
				if oneIn(t, 4, "other generation") {
					stray.app ^= 2
				}
				if gBool(t, "behind it") {
					at = of + 1
				}
			default:
				s := efSpecs[position(t, len(efSpecs), "of")]
				stray.fid, stray.app = s.fid, s.app|1
			}
			rs = append(rs[:at:at], append([]rec{stray}, rs[at:]...)...)
		}
		file := recsBytes(rs)
		c.in("bytes", file)
		all := 0
		for _, r := range rs {
			if _, ok := modelled(r.fid, r.app&2 != 0); ok && r.app&1 == 1 {
				all++
			}
		}
		if _, err := decodeCard(exact(file)); err == nil && all != countSigned(modelledFiles(rs)) {
			c.failf(t, "a card with a signature that belongs to no file is decoded: %d of %d signatures are kept", countSigned(modelledFiles(rs)), all)
		}
		if checkRoundTrip(t, c, file, false) {
			c.class("every signature has its file")
		}
		c.nontrivial(file)
	}})
	for _, s := range efSpecs {
		subs = append(subs, sub{s.name, 250, 12000, func(t *rapid.T, c *C) {
			g := &G{t: t, encodable: gBool(t, "encodable")}
			val := g.content(s)
			rs := []rec{{s.fid, s.app, val}}
			if gBool(t, "signed") {
				rs = append(rs, rec{s.fid, s.app | 1, gBytes(t, gInt(t, 0, 140, "sig.len"), "signature")})
			}
			file := recsBytes(rs)
			c.in("file", s.name)
			c.in("bytes", file)
			if checkRoundTrip(t, c, file, true) {
				c.class("decoded: " + s.name)
				c.nontrivial(file)
			}
		}})
	}
	run(t, "C06", "a file that decodes and is compared after encoding, or a card of at least two files", subs...)
}

func decodeSubs(gen2 bool, quick, thorough int) []sub {
	var subs []sub
	for _, s := range efSpecs {
		if s.fid == 0x0504 || s.fid >= 0xC000 || (s.gen2() != gen2) {
			continue
		}
		subs = append(subs, sub{s.name, quick, thorough, func(t *rapid.T, c *C) {
			g := &G{t: t}
			e := g.element(s)
			c.in("content", e.val)
			file := recsBytes(e.records())
			got, err := decodeCard(exact(file))
			if err != nil {
				c.failf(t, "%s is refused: %v", s.name, err)
			}
			if d := diffMsg(got, wantCard([]element{e})); d != "" {
				c.failf(t, "%s decodes wrongly: %s", s.name, d)
			}
			c.class("file: " + s.name)
			c.classIf(len(e.val) > 4096, "over one scanner buffer")
			if notBlank(e.val) {
				c.nontrivial(e.val)
			}
		}})
	}
	return subs
}

func TestC07(t *testing.T) {
	run(t, "C07", "the content holds something other than padding", decodeSubs(false, 500, 20000)...)
}

func TestC08(t *testing.T) {
	run(t, "C08", "the content holds something other than padding", decodeSubs(true, 500, 20000)...)
}

func checkActivity(t *rapid.T, c *C, r *ring, app byte) {
	val, want := r.file()
	c.in("content", val)
	got, err := decodeCard(rec{0x0504, app, val}.bytes())
	if err != nil {
		c.failf(t, "the activity log is refused: %v", err)
	}
	a := got.GetTachograph().GetDriverActivityData()
	if app == 2 {
		a = got.GetTachographG2().GetDriverActivityData()
	}
	if d := diffMsg(a, want); d != "" {
		c.failf(t, "%s", d)
	}
	n := len(r.buf)
	c.classIf(len(r.days) > 366, "over 366 days")
	full := 0
	for i, d := range r.days {
		full += d.size()
		p := r.pos[i]
		c.classIf(p+d.size() > n, "a record wraps around the end")
		c.classIf(p+4 > n, "a record header wraps around the end")
		c.classIf(p+2 == n || p+4 == n || p+8 == n || p+10 == n || p+12 == n, "the ring ends between two fields")
		c.classIf(p+3 == n || p+1 == n || p+5 == n || p+6 == n || p+7 == n || p+9 == n || p+11 == n, "a field wraps around the end")
		c.classIf(len(d.changes) > 0 && d.changes[0] == 0, "a rest from midnight")
	}
	c.classIf(full == n, "every byte of the ring is in use")
	c.classIf(len(r.days) > 1, "several days")
	c.nontrivial(val)
}

func TestC09(t *testing.T) {
	run(t, "C09", "a log of at least one day",
		sub{"rings", 1500, 60000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			checkActivity(t, c, g.activityRing(), rapid.SampledFrom([]byte{0, 2}).Draw(t, "application"))
		}},
		sub{"every start", 40, 1500, func(t *rapid.T, c *C) {
			// The same days at every place of the ring in turn.
			x := newXS(gSeed(t, "days"))
			k := gInt(t, 1, 4, "count")
			var days []day
			n := 0
			for i := 0; i < k; i++ {
				d := gDay(x, 4)
				days = append(days, d)
				n += d.size()
			}
			n += gInt(t, 0, 9, "free")
			for start := 0; start < n; start++ {
				r := &ring{buf: make([]byte, n), pos: []int{start}}
				for _, d := range days {
					r.add(d)
				}
				checkActivity(t, c, r, 0)
			}
		}},
		sub{"histories", 150, 6000, func(t *rapid.T, c *C) {
			// A card in use: it is read after every day.
			n := gInt(t, 24, 200, "size")
			r := &ring{buf: make([]byte, n), pos: []int{gInt(t, 0, n-1, "start")}}
			x := newXS(gSeed(t, "days"))
			k := gInt(t, 1, 40, "count")
			for i := 0; i < k; i++ {
				d := gDay(x, 1+min(20, (n-14)/2))
				for d.size() > n {
					d.changes = d.changes[:len(d.changes)-1]
				}
				r.add(d)
				checkActivity(t, c, r, 2)
			}
		}})
}
