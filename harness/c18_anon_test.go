package verifpbt

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"unicode/utf8"

	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"

	"github.com/way-platform/tachograph-go/internal/card"
	"github.com/way-platform/tachograph-go/internal/dd"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
)

// anonSpec is one structure that can be anonymised. Its content is drawn as bytes, so that
// two originals can be made that differ in their secret bytes and in nothing else.
type anonSpec struct {
	name string
	gen  func(g *G, n int) []byte // content with n records, where it has records
	// secret tells which bytes hold a name, number, registration, address or place
	secret func(b []byte) [][2]int
	dec    func(b, sig []byte) (proto.Message, error)
	anon   func(m proto.Message, index int) proto.Message
	enc    func(m proto.Message) ([]byte, error)
	keep   []string // fields whose values and order stay
	signed bool
	// lists have any number of records
	lists bool
}

func cardAnon[M proto.Message](ef string, gen func(g *G, n int) []byte, secret func(b []byte) [][2]int, anon func(M) M, keep ...string) anonSpec {
	s := efByName(ef)
	field := func(f *cardv1.DriverCardFile) (protoreflect.Message, protoreflect.FieldDescriptor) {
		m := f.ProtoReflect()
		m = m.Mutable(m.Descriptor().Fields().ByName(protoreflect.Name(s.df))).Message()
		return m, m.Descriptor().Fields().ByName(protoreflect.Name(s.field))
	}
	return anonSpec{
		name: "card " + ef, gen: gen, secret: secret, keep: keep, signed: true,
		dec: func(b, sig []byte) (proto.Message, error) {
			rs := []rec{{s.fid, s.app, b}}
			if sig != nil {
				rs = append(rs, rec{s.fid, s.app | 1, sig})
			}
			f, err := decodeCard(recsBytes(rs))
			if err != nil {
				return nil, err
			}
			m, fd := field(f)
			if !m.Has(fd) {
				return nil, fmt.Errorf("%s is not decoded", ef)
			}
			return m.Get(fd).Message().Interface(), nil
		},
		anon: func(m proto.Message, _ int) proto.Message { return anon(m.(M)) },
		enc: func(m proto.Message) ([]byte, error) {
			f := &cardv1.DriverCardFile{}
			in, fd := field(f)
			in.Set(fd, protoreflect.ValueOfMessage(m.ProtoReflect()))
			out, err := card.MarshalDriverCardFile(f)
			if err != nil {
				return nil, err
			}
			rs, err := splitTLV(out)
			if err != nil {
				return nil, err
			}
			// The signature of vehicle records is cleared by storing an empty one.
			if len(rs) == 2 && rs[1].fid == s.fid && rs[1].app == s.app|1 && len(rs[1].val) == 0 {
				rs = rs[:1]
			}
			if len(rs) != 1 || rs[0].fid != s.fid || rs[0].app != s.app {
				return nil, fmt.Errorf("encodes to records %s", recsString(rs))
			}
			return rs[0].val, nil
		},
	}
}

func ddAnon[M proto.Message](name string, secret [][2]int, anon func(M, int) M, keep ...string) anonSpec {
	for _, s := range ddSpecs {
		if s.name == name {
			return anonSpec{
				name: name, keep: keep,
				gen:    func(g *G, _ int) []byte { b, _ := s.gen(g); return b },
				secret: func([]byte) [][2]int { return secret },
				dec:    func(b, _ []byte) (proto.Message, error) { return s.dec(b) },
				anon:   func(m proto.Message, i int) proto.Message { return anon(m.(M), i) },
				enc:    func(m proto.Message) ([]byte, error) { return s.enc(nil, m) },
			}
		}
	}
	panic(name)
}

func plain[M proto.Message](f func(M) M) func(M, int) M { return func(m M, _ int) M { return f(m) } }

// each repeats secret ranges for every record of a file.
func each(head, size int, ranges ...[2]int) func(b []byte) [][2]int {
	return func(b []byte) [][2]int {
		var out [][2]int
		for at := head; at+size <= len(b); at += size {
			for _, r := range ranges {
				out = append(out, [2]int{at + r[0], at + r[1]})
			}
		}
		return out
	}
}

func records(head int, pointer func(g *G) []byte, gen func(*G) []byte) func(g *G, n int) []byte {
	return func(g *G, n int) []byte {
		out := pointer(g)
		var some [][]byte
		for i := 0; i < min(n, 4); i++ {
			some = append(some, gen(g))
		}
		for i := 0; i < n; i++ {
			out = append(out, some[i%4%len(some)]...)
		}
		return out
	}
}

var anonSpecs = func() []anonSpec {
	ident := cardAnon("Identification",
		func(g *G, _ int) []byte { b, _ := g.identification(); return b },
		func([]byte) [][2]int { return [][2]int{{1, 15}, {17, 53}, {65, 101}, {101, 137}, {137, 141}} },
		card.AnonymizeIdentification,
		"card_type", "card.card_issuing_member_state", "card.driver_identification.card_replacement_index.value",
		"card.driver_identification.card_renewal_index.value", "driver_card_holder.card_holder_preferred_language.value")
	owner := cardAnon("Identification",
		func(g *G, _ int) []byte {
			b, _ := g.identification()
			copy(b[1:17], gBytes(g.t, 16, "owner number"))
			b[15+position(g.t, 2, "odd index")] = rapid.SampledFrom([]byte{0, ' ', '!', 0xFF, 'a'}).Draw(g.t, "index")
			return b
		},
		func([]byte) [][2]int { return [][2]int{{1, 14}, {17, 53}, {65, 101}, {101, 137}, {137, 141}} },
		card.AnonymizeIdentification,
		"card_type", "card.card_issuing_member_state", "card.owner_identification.consecutive_index.value",
		"card.owner_identification.replacement_index.value", "card.owner_identification.renewal_index.value",
		"driver_card_holder.card_holder_preferred_language.value")
	owner.name = "card Identification with an owner number"
	vehicles := cardAnon("Vehicles_Used",
		records(2, func(g *G) []byte { return u16(int(gU16(g.t, "pointer"))) }, func(g *G) []byte { b, _ := g.vehicleRecord(); return b }),
		each(2, 31, [2]int{15, 29}), card.AnonymizeVehiclesUsed,
		"newest_record_index", "records", "records.vehicle_registration.nation", "records.vu_data_block_counter.value")
	places := cardAnon("Places",
		records(1, func(g *G) []byte { return []byte{gByte(g.t, "pointer")} }, func(g *G) []byte { b, _ := g.place(); return b }),
		each(1, 10, [2]int{5, 7}), card.AnonymizePlaces,
		"newest_record_index", "records", "records.entry_type_daily_work_period", "records.unrecognized_entry_type_daily_work_period")
	placesG2 := cardAnon("G2 Places",
		records(2, func(g *G) []byte { return u16(int(gU16(g.t, "pointer"))) }, func(g *G) []byte { b, _ := g.placeG2(); return b }),
		each(2, 21, [2]int{5, 7}, [2]int{15, 21}), card.AnonymizePlacesG2,
		"newest_record_index", "records", "records.entry_type_daily_work_period", "records.unrecognized_entry_type_daily_work_period",
		"records.entry_gnss_place_record.gnss_accuracy")
	vehicles.lists, places.lists, placesG2.lists = true, true, true
	return []anonSpec{
		ident, owner, vehicles, places, placesG2,
		ddAnon("DriverIdentification", [][2]int{{0, 14}}, plain(dd.AnonymizeDriverIdentification)),
		ddAnon("GNSSPlaceRecord", [][2]int{{5, 11}}, plain(dd.AnonymizeGNSSPlaceRecord), "timestamp", "gnss_accuracy"),
		ddAnon("PlaceRecord", [][2]int{{5, 7}}, plain(dd.AnonymizePlaceRecord), "entry_type_daily_work_period", "unrecognized_entry_type_daily_work_period"),
		ddAnon("PlaceRecordG2", [][2]int{{5, 7}, {15, 21}}, plain(dd.AnonymizePlaceRecordG2),
			"entry_type_daily_work_period", "unrecognized_entry_type_daily_work_period", "entry_gnss_place_record.gnss_accuracy"),
		ddAnon("CardVehicleRecord", [][2]int{{15, 29}}, dd.AnonymizeCardVehicleRecord, "vehicle_registration.nation", "vu_data_block_counter.value"),
		ddAnon("ActivityChangeInfo", nil, dd.AnonymizeActivityChangeInfo, "slot", "crew", "inserted", "activity"),
	}
}()

// pick lists the values found under a dotted path, through lists.
func pick(m protoreflect.Message, path string) []string {
	head, rest, deeper := strings.Cut(path, ".")
	fd := m.Descriptor().Fields().ByName(protoreflect.Name(head))
	if fd == nil {
		panic("no field " + head + " in " + string(m.Descriptor().Name()))
	}
	var out []string
	one := func(v protoreflect.Value) {
		switch {
		case deeper:
			out = append(out, pick(v.Message(), rest)...)
		case fd.Kind() == protoreflect.MessageKind && fd.IsList():
			out = append(out, "entry")
		case fd.Kind() == protoreflect.MessageKind:
			b, _ := protojson.Marshal(v.Message().Interface())
			out = append(out, strings.ReplaceAll(string(b), " ", ""))
		default:
			out = append(out, show(v))
		}
	}
	if fd.IsList() {
		l := m.Get(fd).List()
		for i := 0; i < l.Len(); i++ {
			one(l.Get(i))
		}
		return out
	}
	if !m.Has(fd) {
		return []string{"unset"}
	}
	one(m.Get(fd))
	return out
}

func gSignature(g *G, label string) []byte {
	if gBool(g.t, label+".none") {
		return nil
	}
	return g.random(rapid.SampledFrom([]int{128, 64, 96}).Draw(g.t, label+".size"), label)
}

func anonymise(c *C, t *rapid.T, s anonSpec, m proto.Message, index int) proto.Message {
	before := proto.Clone(m)
	var out proto.Message
	guard(c, t, "anonymising "+s.name, func() { out = s.anon(m, index) })
	if !proto.Equal(before, m) {
		c.failf(t, "anonymising %s changes the original", s.name)
	}
	return out
}

// anonInput draws an original, and another that differs from it in secrets only.
func anonInput(g *G, c *C, s anonSpec) (a, b []byte, sigA, sigB []byte) {
	n := 0
	if s.lists {
		n = g.countBeyond(100, 2000)
	}
	a = s.gen(g, n)
	other := s.gen(g, n)
	b = exact(a)
	for _, r := range s.secret(a) {
		copy(b[r[0]:r[1]], other[r[0]:r[1]])
	}
	if s.signed {
		sigA, sigB = gSignature(g, "signature"), gSignature(g, "other signature")
	}
	c.in("original", a)
	c.in("other", b)
	return
}

func TestC18(t *testing.T) {
	var subs []sub
	for _, s := range anonSpecs {
		if s.secret(nil) == nil && !s.lists {
			continue
		}
		subs = append(subs, sub{s.name, 250, 10000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			a, b, sigA, sigB := anonInput(g, c, s)
			ma, err := s.dec(a, sigA)
			if err != nil {
				c.failf(t, "%s is refused: %v", s.name, err)
			}
			mb, err := s.dec(b, sigB)
			if err != nil {
				c.failf(t, "%s is refused: %v", s.name, err)
			}
			if gBool(t, "built") {
				// As an application builds it, with no original bytes.
				ma, mb = stripped(ma), stripped(mb)
				c.class("without original bytes")
			}
			index := gInt(t, 0, 300, "index")
			ra, rb := anonymise(c, t, s, ma, index), anonymise(c, t, s, mb, index)
			if !proto.Equal(ra, rb) {
				d := diffMsg(ra, rb)
				if d == "" {
					d = "they differ in the bytes kept in raw_data"
				}
				c.failf(t, "%s: two originals that differ only in names, numbers, places or signature anonymise to different results: %s", s.name, d)
			}
			c.class("anonymised: " + s.name)
			if !bytes.Equal(a, b) {
				c.nontrivial(cat(a, b))
			}
		}})
	}
	subs = append(subs, sub{"holders of other cards", 250, 10000, func(t *rapid.T, c *C) {
		g := &G{t: t}
		a, b := gHolders(g)
		c.in("original", a.String())
		c.in("other", b.String())
		s := anonSpecs[0]
		ra, rb := anonymise(c, t, s, a, 0), anonymise(c, t, s, b, 0)
		if !proto.Equal(ra, rb) {
			c.failf(t, "two identifications that differ only in names, numbers and addresses anonymise to different results: %s", diffMsg(ra, rb))
		}
		c.class("holder of a " + a.GetCardType().String())
		c.nontrivial([]byte(a.String() + b.String()))
	}})
	run(t, "C18", "two originals that differ in something secret", subs...)
}

// gHolders draws two identifications of one card type that differ in secrets only.
func gHolders(g *G) (*cardv1.Identification, *cardv1.Identification) {
	ty := rapid.SampledFrom([]cardv1.CardType{cardv1.CardType_WORKSHOP_CARD, cardv1.CardType_CONTROL_CARD, cardv1.CardType_COMPANY_CARD}).Draw(g.t, "type")
	_, lang := g.text(1)
	_, num := g.ownerIdentification()
	nat := nation(g.knownNation("issuer"))
	build := func() *cardv1.Identification {
		text := func() *ddv1.StringValue { _, v := g.text(35); return v }
		m := &cardv1.Identification{}
		m.SetCardType(ty)
		cd := &cardv1.Identification_Card{}
		cd.SetCardIssuingMemberState(nat)
		o := proto.Clone(num).(*ddv1.OwnerIdentification)
		_, id := g.ia5(13)
		o.SetOwnerIdentification(id)
		cd.SetOwnerIdentification(o)
		cd.SetCardIssuingAuthorityName(text())
		m.SetCard(cd)
		switch ty {
		case cardv1.CardType_WORKSHOP_CARD:
			h := &cardv1.Identification_WorkshopCardHolder{}
			h.SetWorkshopName(text())
			h.SetWorkshopAddress(text())
			h.SetCardHolderSurname(text())
			h.SetCardHolderFirstNames(text())
			h.SetCardHolderPreferredLanguage(lang)
			m.SetWorkshopCardHolder(h)
		case cardv1.CardType_CONTROL_CARD:
			h := &cardv1.Identification_ControlCardHolder{}
			h.SetControlBodyName(text())
			h.SetControlBodyAddress(text())
			h.SetCardHolderSurname(text())
			h.SetCardHolderFirstNames(text())
			h.SetCardHolderPreferredLanguage(lang)
			m.SetControlCardHolder(h)
		case cardv1.CardType_COMPANY_CARD:
			h := &cardv1.Identification_CompanyCardHolder{}
			h.SetCompanyName(text())
			h.SetCompanyAddress(text())
			h.SetCardHolderPreferredLanguage(lang)
			m.SetCompanyCardHolder(h)
		}
		m.SetSignature(gSignature(g, "signature"))
		return m
	}
	return build(), build()
}

func TestC19(t *testing.T) {
	probeKnown("C19", func(e knownEntry) bool {
		spec, input, _ := strings.Cut(e.Input, ":")
		for _, s := range anonSpecs {
			if s.name == spec {
				m, err := s.dec(unhex(input), nil)
				if err != nil {
					return false
				}
				_, err = s.enc(s.anon(m, 0))
				return err != nil
			}
		}
		return false
	})
	var subs []sub
	for _, s := range anonSpecs {
		subs = append(subs, sub{s.name, 250, 10000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			a, _, sig, _ := anonInput(g, c, s)
			m, err := s.dec(a, sig)
			if err != nil {
				c.failf(t, "%s is refused: %v", s.name, err)
			}
			if gBool(t, "built") {
				m = stripped(m)
				c.class("without original bytes")
			}
			index := gInt(t, 0, 300, "index")
			r := anonymise(c, t, s, m, index)
			for _, p := range s.keep {
				was, is := pick(m.ProtoReflect(), p), pick(r.ProtoReflect(), p)
				if strings.Join(was, ",") != strings.Join(is, ",") {
					c.failf(t, "anonymising %s changes %s from %v to %v", s.name, p, was, is)
				}
			}
			again := anonymise(c, t, s, r, index)
			if !proto.Equal(again, r) {
				d := diffMsg(again, r)
				if d == "" {
					d = "they differ in the bytes kept in raw_data"
				}
				c.failf(t, "anonymising %s again changes it: %s", s.name, d)
			}
			out, err := s.enc(r)
			if err != nil {
				if id := anonUnencodable(s.name, a); id != "" && isKnown("C19", id) {
					excluded(id)
					return
				}
				c.failf(t, "the anonymised %s cannot be encoded: %v", s.name, err)
			}
			if len(out) != len(a) {
				c.failf(t, "the anonymised %s encodes to %d bytes, the original has %d", s.name, len(out), len(a))
			}
			back, err := s.dec(out, nil)
			if err != nil {
				c.failf(t, "the anonymised %s does not decode: %v", s.name, err)
			}
			stored := func(r proto.Message) proto.Message { return r }
			if fd := r.ProtoReflect().Descriptor().Fields().ByName("signature"); fd != nil && len(r.ProtoReflect().Get(fd).Bytes()) == 0 {
				stored = func(r proto.Message) proto.Message { // without the cleared signature
					r = proto.Clone(r)
					r.ProtoReflect().Clear(fd)
					return r
				}
			}
			if d := diffMsg(back, stored(r)); d != "" {
				c.failf(t, "the anonymised %s decodes to another value: %s", s.name, d)
			}
			if d := diffMsg(stored(anonymise(c, t, s, back, index)), stored(r)); d != "" {
				c.failf(t, "anonymising %s after storing it changes it: %s", s.name, d)
			}
			c.class("anonymised: " + s.name)
			if notBlank(a) {
				c.nontrivial(a)
			}
		}})
	}
	subs = append(subs, sub{"holders of other cards", 250, 10000, func(t *rapid.T, c *C) {
		g := &G{t: t}
		m, _ := gHolders(g)
		c.in("original", m.String())
		r := anonymise(c, t, anonSpecs[0], m, 0)
		if d := shapeDiff("", m.ProtoReflect(), r.ProtoReflect()); d != "" {
			c.failf(t, "anonymising an identification changes its shape: %s", d)
		}
		for _, p := range []string{"card_type", "card.card_issuing_member_state", "card.owner_identification.consecutive_index.value",
			"card.owner_identification.replacement_index.value", "card.owner_identification.renewal_index.value"} {
			was, is := pick(m.ProtoReflect(), p), pick(r.ProtoReflect(), p)
			if strings.Join(was, ",") != strings.Join(is, ",") {
				c.failf(t, "anonymising an identification changes %s from %v to %v", p, was, is)
			}
		}
		c.class("holder of a " + m.GetCardType().String())
		c.nontrivial([]byte(m.String()))
	}})
	run(t, "C19", "an original that holds something other than padding", subs...)
}

// shapeDiff tells where a copy lacks a part of the original, or has a text of another length.
// Signatures are cleared, and times are set whether the original has them or not.
func shapeDiff(path string, m, r protoreflect.Message) string {
	switch x := m.Interface().(type) {
	case *ddv1.StringValue:
		y := r.Interface().(*ddv1.StringValue)
		if x.GetLength() != y.GetLength() || y.GetEncoding() == ddv1.Encoding_ENCODING_UNSPECIFIED || int32(utf8.RuneCountInString(y.GetValue())) > y.GetLength() {
			return fmt.Sprintf("%s: a text of length %d becomes %v", path, x.GetLength(), y)
		}
		return ""
	case *ddv1.Ia5StringValue:
		y := r.Interface().(*ddv1.Ia5StringValue)
		if x.GetLength() != y.GetLength() || int32(utf8.RuneCountInString(y.GetValue())) > y.GetLength() {
			return fmt.Sprintf("%s: a text of length %d becomes %v", path, x.GetLength(), y)
		}
		return ""
	}
	d := ""
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		if fd.Kind() != protoreflect.MessageKind || fd.IsList() || fd.Message().FullName() == "google.protobuf.Timestamp" {
			return true
		}
		p := path + "." + string(fd.Name())
		if !r.Has(fd) {
			d = p + " is gone"
		} else {
			d = shapeDiff(p, v.Message(), r.Get(fd).Message())
		}
		return d == ""
	})
	return d
}

// anonUnencodable names the listed finding that an original falls under: it holds a nation
// that the decoded message reports as unknown and has no field to keep.
func anonUnencodable(name string, b []byte) string {
	unknown := func(code byte) bool { _, ok := tabNation[int(code)]; return !ok }
	switch name {
	case "CardVehicleRecord":
		if unknown(b[14]) {
			return "unknown-nation-record"
		}
	case "card Identification", "card Identification with an owner number":
		if unknown(b[0]) {
			return "unknown-nation-identification"
		}
	case "card Vehicles_Used":
		for at := 2; at+31 <= len(b); at += 31 {
			if unknown(b[at+14]) {
				return "unknown-nation-file"
			}
		}
	}
	return ""
}
