package verifpbt

import (
	"bytes"
	"fmt"
	"runtime"
	"sort"
	"testing"

	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/card"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
)

// cardFile draws a well-formed driver card file, opening with the chip's identification.
func (g *G) cardFile(p int) []element {
	es := g.card(p)
	if len(es) == 0 || es[0].spec.name != "ICC" {
		es = append([]element{g.element(efByName("ICC"))}, es...)
	}
	return append(es[:1:1], shuffle(g.t, es[1:])...)
}

// otherCard draws a card that is no driver card.
func (g *G) otherCard() []rec {
	rs := []rec{{0x0002, 0, g.random(25, "icc")}}
	n := gInt(g.t, 1, 6, "records")
	for i := 0; i < n; i++ {
		rs = append(rs, gRecord(g.t, efFids))
	}
	return rs
}

// wellFormed draws a file of any kind.
func (g *G) wellFormed() ([]byte, string) {
	return g.wellFormedKind(rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5}).Draw(g.t, "file.kind"))
}

func (g *G) wellFormedKind(kind int) ([]byte, string) {
	switch kind {
	case 0:
		return recsBytes(g.otherCard()), "other card"
	case 1, 2:
		v := g.vuFile(3)
		return v.bytes(), "vehicle unit " + v.format.field
	case 3:
		return elementsFile(g.cardFile(60)), "full driver card"
	default:
		return elementsFile(g.cardFile(12)), "driver card"
	}
}

// position draws a place in n, evenly.
func position(t *rapid.T, n int, label string) int {
	if n <= 0 {
		return 0
	}
	return newXS(gSeed(t, label)).intn(n)
}

// damage changes a file as a broken medium or a careless tool would.
func (g *G) damage(b []byte) []byte {
	t := g.t
	out := exact(b)
	for i := gInt(t, 1, 3, "damages"); i > 0; i-- {
		kind := rapid.SampledFrom([]string{"flip", "flip", "edge", "cut", "insert", "delete", "double", "splice", "swap"}).Draw(t, "damage")
		p := position(t, len(out), "damage.at")
		n := min(gInt(t, 1, 40, "damage.len"), len(out)-p)
		switch kind {
		case "flip":
			if len(out) > 0 {
				out[p] ^= 1 << gInt(t, 0, 7, "damage.bit")
			}
		case "edge":
			if len(out) > 0 {
				out[p] = rapid.SampledFrom([]byte{0, 1, 2, 3, 0x7F, 0x80, 0xFE, 0xFF}).Draw(t, "damage.byte")
			}
		case "cut":
			out = out[:p]
		case "insert":
			out = cat(out[:p], gBytes(t, gInt(t, 1, 40, "damage.new"), "damage.bytes"), out[p:])
		case "delete":
			out = cat(out[:p], out[p+n:])
		case "double":
			out = cat(out[:p+n], out[p:])
		case "splice":
			other, _ := g.wellFormed()
			q := position(t, len(other), "damage.from")
			out = cat(out[:p], other[q:])
		case "swap":
			q := position(t, len(out), "damage.to")
			if len(out) > 0 {
				out[p], out[q] = out[q], out[p]
			}
		}
	}
	return out
}

// anyBytes draws an input of any kind, with a word on what it is.
func (g *G) anyBytes() ([]byte, string) {
	t := g.t
	switch rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}).Draw(t, "input.kind") {
	case 0:
		return rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "input"), "arbitrary bytes"
	case 1:
		// A header that promises something, and arbitrary bytes behind it.
		var head []byte
		if gBool(t, "input.vu") {
			f := vuFormats[gInt(t, 0, 2, "input.format")]
			head = []byte{0x76, rapid.SampledFrom(f.kinds).Draw(t, "input.transfer").trep}
		} else {
			head = cat([]byte{0, 2, byte(gInt(t, 0, 3, "input.appendix"))}, u16(gInt(t, 0, 60, "input.size")))
		}
		return cat(head, gBytes(t, gInt(t, 0, 4000, "input.len"), "input")), "a header and arbitrary bytes"
	case 2:
		// Known elementary files with arbitrary content of any size.
		file := rec{0x0002, 0, g.element(efByName("ICC")).val}.bytes()
		for i := gInt(t, 1, 6, "input.files"); i > 0; i-- {
			s := rapid.SampledFrom(efSpecs).Draw(t, "input.file")
			file = append(file, rec{s.fid, s.app, gBytes(t, gInt(t, 0, 700, "input.len"), "input")}.bytes()...)
		}
		return file, "known files with arbitrary content"
	case 3, 4:
		return g.wellFormed()
	default:
		b, what := g.wellFormed()
		b = g.damage(b)
		return b, what + ", damaged"
	}
}

func inBytes(c *C, b []byte) {
	c.in("size", len(b))
	if len(b) < 8000 {
		c.in("bytes", b)
	}
}

func totalAlloc() uint64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.TotalAlloc
}

// parseChecked parses one input and holds the parser to what C01 states.
func parseChecked(t *rapid.T, c *C, b []byte) (*tachographv1.File, error) {
	var f *tachographv1.File
	var err error
	in := exact(b)
	before := totalAlloc()
	guard(c, t, "UnmarshalFile", func() { f, err = tachograph.UnmarshalFile(in) })
	spent := totalAlloc() - before
	if (f == nil) == (err == nil) {
		c.failf(t, "UnmarshalFile returns file %v and error %v", f != nil, err)
	}
	if !bytes.Equal(in, b) {
		c.failf(t, "parsing changes the caller's bytes: %s", firstDiff(in, b))
	}
	if limit := uint64(32<<20) + 4096*uint64(len(b)); spent > limit {
		c.failf(t, "parsing %d bytes allocates %d", len(b), spent)
	}
	return f, err
}

func TestC01(t *testing.T) {
	run(t, "C01", "an input that parses, or that is not refused at its first bytes",
		sub{"any bytes", 900, 60000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			b, what := g.anyBytes()
			inBytes(c, b)
			// No bytes at all, as a slice that is nil.
			var none *tachographv1.File
			var noneErr error
			guard(c, t, "UnmarshalFile", func() { none, noneErr = tachograph.UnmarshalFile(nil) })
			if (none == nil) == (noneErr == nil) {
				c.failf(t, "UnmarshalFile of nil returns file %v and error %v", none != nil, noneErr)
			}
			f, err := parseChecked(t, c, b)
			again, err2 := parseChecked(t, c, b)
			if (err == nil) != (err2 == nil) || !proto.Equal(f, again) {
				c.failf(t, "a second parse differs: %v / %v", err, err2)
			}
			if err == nil {
				kept := proto.Clone(f)
				before := totalAlloc()
				guard(c, t, "MarshalFile", func() { _, _ = tachograph.MarshalFile(f) })
				if spent := totalAlloc() - before; spent > 32<<20+4096*uint64(len(b)) {
					c.failf(t, "encoding a file of %d bytes allocates %d", len(b), spent)
				}
				if !proto.Equal(f, kept) {
					c.failf(t, "encoding changes the file it encodes")
				}
				c.class("parsed: " + what)
			} else {
				c.class("refused: " + what)
			}
			if err == nil || len(b) > 20 {
				c.nontrivial(b)
			}
		}})
}

// cuts chooses where to cut a file: everywhere when it is small, else around its
// boundaries and at random.
func cuts(t *rapid.T, n int, bounds map[int]bool) []int {
	pick := map[int]bool{}
	if n <= 1500 {
		for i := 0; i < n; i++ {
			pick[i] = true
		}
	} else {
		x := newXS(gSeed(t, "cuts"))
		var at []int
		for b := range bounds {
			at = append(at, b)
		}
		sort.Ints(at)
		for i, b := range at {
			// Of very many boundaries, the outermost and some of the others.
			if i >= 8 && i < len(at)-8 && x.intn(len(at)) >= 40 {
				continue
			}
			for d := -6; d <= 6; d++ {
				if b+d >= 0 && b+d < n {
					pick[b+d] = true
				}
			}
		}
		for i := 0; i < 40; i++ {
			pick[x.intn(n)] = true
		}
	}
	var out []int
	for k := range pick {
		if k < n {
			out = append(out, k)
		}
	}
	sort.Ints(out)
	return out
}

func TestC02(t *testing.T) {
	run(t, "C02", "a file of at least two records or transfers, cut at least once inside one",
		sub{"driver card", 40, 1500, func(t *rapid.T, c *C) {
			g := &G{t: t}
			es := g.cardFile(rapid.SampledFrom([]int{5, 12, 25}).Draw(t, "percent"))
			var rs []rec
			end := map[int]int{0: 0}
			size := 0
			for _, e := range es {
				for _, r := range e.records() {
					rs = append(rs, r)
					size += len(r.bytes())
					end[size] = len(rs)
				}
			}
			file := recsBytes(rs)
			c.in("files", elementsString(es))
			inBytes(c, file)
			bounds := map[int]bool{}
			for k := range end {
				bounds[k] = true
			}
			inside := 0
			for _, k := range cuts(t, len(file), bounds) {
				c.in("cut at", k)
				got, err := tachograph.UnmarshalFile(exact(file[:k]))
				raw, rawErr := card.UnmarshalRawCardFile(exact(file[:k]))
				n, whole := end[k]
				if !whole {
					inside++
					if err == nil || rawErr == nil {
						c.failf(t, "a card of %d bytes cut inside a record at %d parses (file: %v, records: %v)", len(file), k, err, rawErr)
					}
					continue
				}
				if rawErr != nil || len(raw.GetRecords()) != n {
					c.failf(t, "a card cut behind record %d splits into %d records, error %v", n, len(raw.GetRecords()), rawErr)
				}
				if n == 0 {
					if err == nil {
						c.failf(t, "no bytes at all parse as a file")
					}
					continue
				}
				if err != nil {
					c.failf(t, "a card cut behind record %d is refused: %v", n, err)
				}
				if d := diffMsg(got.GetDriverCard(), wantCard(prefix(es, n))); d != "" {
					c.failf(t, "a card cut behind record %d: %s", n, d)
				}
			}
			c.class("driver card")
			if len(rs) >= 2 && inside > 0 {
				c.nontrivial(file)
			}
		}},
		sub{"other card", 60, 2000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			rs := g.otherCard()
			file := recsBytes(rs)
			c.in("records", recsString(rs))
			inBytes(c, file)
			end := map[int]int{0: 0}
			bounds := map[int]bool{0: true}
			size := 0
			for i, r := range rs {
				size += len(r.bytes())
				end[size] = i + 1
				bounds[size] = true
			}
			for _, k := range cuts(t, len(file), bounds) {
				c.in("cut at", k)
				raw, err := card.UnmarshalRawCardFile(exact(file[:k]))
				n, whole := end[k]
				if !whole {
					if _, ferr := tachograph.UnmarshalFile(exact(file[:k])); err == nil || ferr == nil {
						c.failf(t, "a card of %d bytes cut inside a record at %d parses", len(file), k)
					}
					continue
				}
				if err != nil || len(raw.GetRecords()) != n {
					c.failf(t, "a card cut behind record %d splits into %d records, error %v", n, len(raw.GetRecords()), err)
				}
				for i, r := range raw.GetRecords() {
					if !bytes.Equal(r.GetValue(), rs[i].val) {
						c.failf(t, "a card cut behind record %d: record %d changes", n, i)
					}
				}
			}
			c.class("other card")
			c.nontrivial(file)
		}},
		sub{"vehicle unit", 60, 2000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			v := g.vuFile(4)
			file := v.bytes()
			inVU(c, v, file)
			end := map[int]int{0: 0}
			bounds := map[int]bool{0: true}
			size := 0
			for i, x := range v.transfers {
				for _, a := range x.arrays {
					bounds[size+2+a] = true
				}
				size += len(x.bytes())
				end[size] = i + 1
				bounds[size] = true
			}
			inside := 0
			for _, k := range cuts(t, len(file), bounds) {
				c.in("cut at", k)
				got, err := decodeVU(file[:k], true)
				n, whole := end[k]
				switch {
				case !whole:
					inside++
					if err == nil {
						c.failf(t, "a vehicle-unit file of %d bytes cut inside a transfer at %d parses", len(file), k)
					}
				case n == 0:
					if err == nil {
						c.failf(t, "no bytes at all parse as a file")
					}
				default:
					if err != nil {
						c.failf(t, "a vehicle-unit file cut behind transfer %d is refused: %v", n, err)
					}
					if d := checkVU(got, effective(v.format, v.transfers[:n]), v.transfers[:n]); d != "" {
						c.failf(t, "a vehicle-unit file cut behind transfer %d: %s", n, d)
					}
				}
			}
			c.class("vehicle unit " + v.format.field)
			if len(v.transfers) >= 2 && inside > 0 {
				c.nontrivial(file)
			}
		}})
}

// prefix is the card that the first n records of es hold.
func prefix(es []element, n int) []element {
	var out []element
	for _, e := range es {
		rs := e.records()
		if n >= len(rs) {
			out = append(out, e)
			n -= len(rs)
			continue
		}
		if n == 1 {
			e.sig = nil
			out = append(out, e)
		}
		break
	}
	return out
}

// foreign are files of other cards, which no driver card holds.
var foreign = []int{0x0509, 0x050A, 0x050B, 0x050C, 0x0531}

func TestC04(t *testing.T) {
	kindOf := func(b []byte) (tachographv1.File_Type, *tachographv1.File, error) {
		f, err := tachograph.UnmarshalFile(exact(b))
		if err == nil {
			set := 0
			for _, h := range []bool{f.HasVehicleUnit(), f.HasDriverCard(), f.HasRawCard()} {
				if h {
					set++
				}
			}
			if set != 1 {
				return 0, nil, fmt.Errorf("%d contents in one file", set)
			}
		}
		return f.GetType(), f, err
	}
	run(t, "C04", "a file of at least two records or transfers, or a file with another opening",
		sub{"openings", 40, 1500, func(t *rapid.T, c *C) {
			g := &G{t: t}
			b, what := g.wellFormed()
			if len(b) > 3000 {
				b = b[:3000]
			}
			if len(b) < 2 {
				b = []byte{0, 0}
			}
			inBytes(c, b)
			x := exact(b)
			// Every opening of one other byte, and a sample of the rest.
			xsr := newXS(gSeed(t, "openings"))
			for i := 0; i < 3000; i++ {
				switch {
				case i < 256:
					x[0], x[1] = byte(i), b[1]
				case i < 512:
					x[0], x[1] = b[0], byte(i)
				default:
					v := xsr.next()
					x[0], x[1] = byte(v), byte(v>>8)
				}
				if x[0] == 0x76 || x[0] == 0 && x[1] == 2 {
					continue
				}
				if _, err := tachograph.UnmarshalFile(x); err == nil {
					c.in("opening", x[:2])
					c.failf(t, "a file opening with %02x%02x is accepted", x[0], x[1])
				}
			}
			for n := 0; n < 2; n++ {
				if _, err := tachograph.UnmarshalFile(exact(b[:n])); err == nil {
					c.failf(t, "a file of %d bytes is accepted", n)
				}
			}
			c.class("openings of a " + what)
			c.nontrivial(b)
		}},
		sub{"driver card", 200, 6000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			es := g.cardFile(20)
			file := elementsFile(es[:1])
			extra := 0
			for _, e := range es[1:] {
				for n := gCount(t, 0, 1, 60, "noise"); n > 0; n-- {
					r := rapid.SampledFrom(noise).Draw(t, "noise.file")
					r.val = gBytes(t, gInt(t, 0, 40, "noise.len"), "noise.val")
					file = append(file, r.bytes()...)
					extra++
				}
				file = append(file, recsBytes(e.records())...)
			}
			inBytes(c, file)
			kind, _, err := kindOf(file)
			if err != nil || kind != tachographv1.File_DRIVER_CARD {
				c.failf(t, "a card of driver-card files only is read as %v, error %v", kind, err)
			}
			c.class("driver card")
			c.classIf(extra > 0, "driver card with files the library does not decode")
			if len(es) >= 2 {
				c.nontrivial(file)
			}
		}},
		sub{"other card", 400, 12000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			es := g.cardFile(15)
			var rs []rec
			for _, e := range es {
				rs = append(rs, e.records()...)
			}
			// Any number of files that a driver card may have.
			for n := gCount(t, 0, 1, 300, "noise"); n > 0; n-- {
				r := rapid.SampledFrom(noise).Draw(t, "noise.file")
				r.val = gBytes(t, gInt(t, 0, 10, "noise.len"), "noise.val")
				at := 1 + position(t, len(rs), "noise.at")
				rs = append(rs[:at:at], append([]rec{r}, rs[at:]...)...)
			}
			n := gCount(t, 1, 3, 40, "foreign")
			for i := 0; i < n; i++ {
				r := rec{fid: rapid.SampledFrom(foreign).Draw(t, "foreign.file")}
				if oneIn(t, 3, "foreign.unknown") {
					r.fid = int(rapid.Uint16().Filter(func(v uint16) bool { return efNames[int(v)] == "" }).Draw(t, "foreign.any"))
				}
				r.app = rapid.SampledFrom([]byte{0, 2}).Draw(t, "foreign.app")
				r.val = gBytes(t, gInt(t, 0, 100, "foreign.len"), "foreign.val")
				at := 1 + position(t, len(rs), "foreign.at")
				rs = append(rs[:at:at], append([]rec{r}, rs[at:]...)...)
			}
			for i := gCount(t, 0, 2, 300, "stray"); i > 0; i-- {
				// What a file that is not a driver card holds need not make sense as one.
				r := gRecord(t, efFids)
				at := 1 + position(t, len(rs), "stray.at")
				rs = append(rs[:at:at], append([]rec{r}, rs[at:]...)...)
			}
			file := recsBytes(rs)
			c.in("records", recsString(rs))
			inBytes(c, file)
			kind, f, err := kindOf(file)
			if err != nil || kind != tachographv1.File_RAW_CARD {
				c.failf(t, "a card with other files is read as %v, error %v", kind, err)
			}
			got := f.GetRawCard().GetRecords()
			if len(got) != len(rs) {
				c.failf(t, "%d records of %d", len(got), len(rs))
			}
			for i, r := range rs {
				w := wantRecord(r)
				if r.fid == 0xC100 && got[i].GetFile() == cardv1.ElementaryFileType_EF_CARD_MA_CERTIFICATE {
					w.SetFile(cardv1.ElementaryFileType_EF_CARD_MA_CERTIFICATE)
				}
				if d := diffMsg(got[i], w); d != "" {
					c.failf(t, "record %d (%s): %s", i, r, d)
				}
			}
			c.class("other card")
			c.nontrivial(file)
		}},
		sub{"vehicle unit", 80, 3000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			v := g.vuFile(3)
			file := v.bytes()
			inVU(c, v, file)
			kind, _, err := kindOf(file)
			if err != nil || kind != tachographv1.File_VEHICLE_UNIT {
				c.failf(t, "a vehicle-unit file is read as %v, error %v", kind, err)
			}
			c.class("vehicle unit")
			if len(v.transfers) >= 2 {
				c.nontrivial(file)
			}
		}})
}

func TestC26(t *testing.T) {
	run(t, "C26", "a file that parses and holds more than one record or transfer",
		sub{"any file", 700, 30000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			b, what := g.anyBytes()
			inBytes(c, b)
			f, err := tachograph.UnmarshalFile(exact(b))
			if err != nil {
				c.class("refused: " + what)
				return
			}
			checkRendering(t, c, f)
			c.class("parsed: " + what)
			if len(b) > 60 {
				c.nontrivial(b)
			}
		}},
		sub{"driver card content", 500, 20000, func(t *rapid.T, c *C) {
			// Arbitrary content in each file of a driver card, of a size it can have.
			g := &G{t: t}
			file := rec{0x0002, 0, g.element(efByName("ICC")).val}.bytes()
			s := rapid.SampledFrom(efSpecs).Draw(t, "file")
			val := g.content(s)
			file = append(file, rec{s.fid, s.app, val}.bytes()...)
			c.in("file", s.name)
			inBytes(c, file)
			f, err := tachograph.UnmarshalFile(exact(file))
			if err != nil {
				c.class("refused: " + s.name)
				return
			}
			checkRendering(t, c, f)
			c.class("parsed: " + s.name)
			c.nontrivial(file)
		}},
		sub{"vehicle unit content", 200, 8000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			v := g.vuFile(2)
			file := v.bytes()
			for i := gInt(t, 1, 30, "changes"); i > 0; i-- {
				// Beyond the headers, so that most files still parse.
				p := 2 + position(t, len(file)-2, "at")
				file[p] = gByte(t, "byte")
			}
			inVU(c, v, file)
			f, err := tachograph.UnmarshalFile(exact(file))
			if err != nil {
				c.class("refused")
				return
			}
			checkRendering(t, c, f)
			c.class("parsed: " + v.format.field)
			c.nontrivial(file)
		}})
}

func checkRendering(t *rapid.T, c *C, f *tachographv1.File) {
	js, err := protojson.Marshal(f)
	if err != nil {
		c.failf(t, "a parsed file cannot be rendered as JSON: %v", err)
	}
	back := &tachographv1.File{}
	if err := protojson.Unmarshal(js, back); err != nil {
		c.failf(t, "the JSON of a parsed file cannot be read back: %v", err)
	}
	if !proto.Equal(f, back) {
		c.failf(t, "the JSON of a parsed file reads back as another file: %s", diffStrict(back, f))
	}
	pb, err := proto.Marshal(f)
	if err != nil {
		c.failf(t, "a parsed file cannot be written as protobuf: %v", err)
	}
	back = &tachographv1.File{}
	if err := proto.Unmarshal(pb, back); err != nil {
		c.failf(t, "the protobuf of a parsed file cannot be read back: %v", err)
	}
	if !proto.Equal(f, back) {
		c.failf(t, "the protobuf of a parsed file reads back as another file: %s", diffStrict(back, f))
	}
}

// diffStrict also tells apart messages that differ in bytes kept or not.
func diffStrict(got, want proto.Message) string {
	if d := diffMsg(got, want); d != "" {
		return d
	}
	return "they differ in kept bytes"
}
