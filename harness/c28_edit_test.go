package verifpbt

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"

	"github.com/way-platform/tachograph-go/internal/card"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
)

// An edit moves one value of a donor, a second value of the same type that an
// application could have built itself, into a decoded value.
type edit struct {
	path string
	kind string
	// do makes the change in m, the message the edit was listed for or a copy of it.
	do func(m protoreflect.Message)
	// undo puts the first value back into a message that was decoded after the edit.
	undo func(m protoreflect.Message)
	// exact: the first value has only one stored form, so that undo restores the bytes.
	exact bool
}

// atomic names the messages that stand for one value and are replaced as a whole.
func atomic(md protoreflect.MessageDescriptor) bool {
	switch md.Name() {
	case "Timestamp", "StringValue", "Ia5StringValue", "BcdString", "Date", "MonthYear", "RsaCertificate", "EccCertificate":
		return true
	}
	return false
}

func isText(md protoreflect.MessageDescriptor) bool {
	return md.Name() == "StringValue" || md.Name() == "Ia5StringValue" || md.Name() == "BcdString"
}

// layout names the fields that describe the stored form and not a value in it: which
// variant a record has, where the ring begins and how long its records are.
func layout(m protoreflect.Message, fd protoreflect.FieldDescriptor) bool {
	n := string(fd.Name())
	if strings.HasPrefix(n, "unrecognized_") || strings.HasPrefix(n, "signature") {
		return true
	}
	switch n {
	case "raw_data", "valid", "length", "encoding", "generation", "size",
		"oldest_day_record_index", "newest_day_record_index",
		"activity_previous_record_length", "activity_record_length":
		return true
	case "card_type":
		return m.Descriptor().Name() != "FullCardNumber"
	}
	return false
}

type step struct {
	fd protoreflect.FieldDescriptor
	i  int
}

// follow walks a path of fields and list entries.
func follow(m protoreflect.Message, path []step) (protoreflect.Message, bool) {
	for _, s := range path {
		if s.fd.IsList() {
			if m.Get(s.fd).List().Len() <= s.i {
				return nil, false
			}
			m = m.Get(s.fd).List().Get(s.i).Message()
			continue
		}
		if !m.Has(s.fd) {
			return nil, false
		}
		m = m.Get(s.fd).Message()
	}
	return m, true
}

// nothingDecoded tells whether m is a record that only keeps its bytes. Places say nothing
// about that: they are always decoded.
func nothingDecoded(m protoreflect.Message) bool {
	if n := m.Descriptor().Name(); n == "PlaceRecord" || n == "PlaceRecordG2" {
		return false
	}
	fd := m.Descriptor().Fields().ByName("valid")
	return fd != nil && !m.Get(fd).Bool()
}

// editsOf lists the edits that take one value of b over into a.
func editsOf(x *xs, name string, path []step, a, b protoreflect.Message, out *[]edit) {
	if nothingDecoded(a) || nothingDecoded(b) {
		return
	}
	if n := a.Descriptor().Name(); n == "Date" || n == "MonthYear" {
		for i, fds := 0, a.Descriptor().Fields(); i < fds.Len(); i++ {
			if fd := fds.Get(i); !isRaw(fd) && (!a.Has(fd) || fd.Name() == "month" && a.Get(fd).Int() == 0) {
				return // part of a date, or one in month 0, is no date
			}
		}
	}
	n := a.Descriptor().Name()
	hasValid := a.Descriptor().Fields().ByName("valid") != nil && n != "PlaceRecord" && n != "PlaceRecordG2"
	if a.Descriptor().Name() == "FullCardNumber" {
		d := a.Descriptor().Fields().ByName("driver_identification")
		if a.Has(d) != b.Has(d) {
			return
		}
	}
	fds := a.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if layout(a, fd) {
			continue
		}
		p := name + "." + string(fd.Name())
		here := append([]step(nil), path...)
		kind := string(a.Descriptor().Name()) + "." + string(fd.Name())
		var old protoreflect.Value
		had := a.Has(fd)
		if had && !fd.IsList() {
			old = a.Get(fd)
			if fd.Kind() == protoreflect.MessageKind {
				old = protoreflect.ValueOfMessage(proto.Clone(old.Message().Interface()).ProtoReflect())
			}
		}
		unrecognized := had && fd.Kind() == protoreflect.EnumKind && strings.HasSuffix(enumName(fd, old), "UNRECOGNIZED")
		unrec := fds.ByName("unrecognized_" + fd.Name())
		var oldUnrec protoreflect.Value
		hadUnrec := unrec != nil && a.Has(unrec)
		if hadUnrec {
			oldUnrec = a.Get(unrec)
		}
		undo := func(m protoreflect.Message) {
			m, ok := follow(m, here)
			if !ok {
				return
			}
			if had {
				m.Set(fd, old)
			} else {
				m.Clear(fd)
			}
			if hadUnrec {
				m.Set(unrec, oldUnrec)
			}
		}
		// in makes the change in the message the path leads to.
		in := func(change func(m protoreflect.Message)) func(protoreflect.Message) {
			return func(m protoreflect.Message) {
				if m, ok := follow(m, here); ok {
					change(m)
				}
			}
		}
		set := func(v protoreflect.Value) func(protoreflect.Message) {
			return in(func(m protoreflect.Message) { m.Set(fd, v) })
		}
		switch {
		case fd.IsList() && fd.Kind() == protoreflect.MessageKind:
			al, bl := a.Get(fd).List(), b.Get(fd).List()
			for j := 0; j < min(al.Len(), bl.Len()); j++ {
				editsOf(x, fmt.Sprintf("%s[%d]", p, j), append(here[:len(here):len(here)], step{fd, j}), al.Get(j).Message(), bl.Get(j).Message(), out)
			}
		case fd.IsList() || fd.IsMap():
		case fd.Kind() == protoreflect.MessageKind && !atomic(fd.Message()):
			switch {
			case had && b.Has(fd):
				editsOf(x, p, append(here[:len(here):len(here)], step{fd, 0}), a.Get(fd).Message(), b.Get(fd).Message(), out)
			case b.Has(fd):
				v := protoreflect.ValueOfMessage(stripped(b.Get(fd).Message().Interface()).ProtoReflect())
				*out = append(*out, edit{p, kind, set(v), undo, true})
			}
		case b.Has(fd):
			v := b.Get(fd)
			if near, ok := nearby(x, fd, old, v); ok && had && !unrecognized {
				*out = append(*out, edit{p + " nearby", kind + " nearby", set(near), undo, fd.Kind() != protoreflect.StringKind})
			}
			if fd.Kind() == protoreflect.MessageKind {
				v = protoreflect.ValueOfMessage(stripped(v.Message().Interface()).ProtoReflect())
				if had && diffReflect("", a.Get(fd).Message(), v.Message()) == "" {
					continue
				}
			} else if had && a.Get(fd).Equal(v) {
				continue
			}
			*out = append(*out, edit{p, kind, in(func(m protoreflect.Message) {
				m.Set(fd, v)
				if unrec != nil {
					m.Clear(unrec)
				}
			}), undo, fd.Kind() != protoreflect.StringKind && !unrecognized})
		case had && fd.Kind() == protoreflect.MessageKind && !isText(fd.Message()) && !hasValid:
			*out = append(*out, edit{p, kind + " cleared", in(func(m protoreflect.Message) { m.Clear(fd) }), undo, true})
		}
	}
}

// nearby gives a value that differs little from old: a number towards that of other, another
// day of the month, a text with one character changed, bytes with one bit changed.
func nearby(x *xs, fd protoreflect.FieldDescriptor, old, other protoreflect.Value) (protoreflect.Value, bool) {
	none := protoreflect.Value{}
	if !old.IsValid() {
		return none, false
	}
	number := func(a, b int64) (int64, bool) {
		lo, hi := min(a, b), max(a, b)
		d := int64(1)
		switch x.intn(3) {
		case 1:
			d = 1 << x.intn(24)
		case 2:
			d = (hi - lo) / 2
		}
		if b < a {
			d = -d
		}
		n := max(lo, min(hi, a+d))
		return n, n != a
	}
	text := func(s string) (string, bool) {
		var at []int
		for i := 0; i < len(s); i++ {
			if c := s[i]; c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			return "", false
		}
		b := []byte(s)
		i := at[x.intn(len(at))]
		switch c := b[i]; c {
		case '9', 'Z', 'z':
			b[i]--
		default:
			b[i]++
		}
		return string(b), true
	}
	switch fd.Kind() {
	case protoreflect.Int32Kind, protoreflect.Sint32Kind:
		n, ok := number(old.Int(), other.Int())
		return protoreflect.ValueOfInt32(int32(n)), ok
	case protoreflect.Int64Kind:
		n, ok := number(old.Int(), other.Int())
		return protoreflect.ValueOfInt64(n), ok
	case protoreflect.Uint32Kind:
		n, ok := number(int64(old.Uint()), int64(other.Uint()))
		return protoreflect.ValueOfUint32(uint32(n)), ok
	case protoreflect.StringKind:
		s, ok := text(old.String())
		return protoreflect.ValueOfString(s), ok
	case protoreflect.BytesKind:
		b := append([]byte(nil), old.Bytes()...)
		if len(b) == 0 {
			return none, false
		}
		b[x.intn(len(b))] ^= 1 << x.intn(8)
		return protoreflect.ValueOfBytes(b), true
	case protoreflect.MessageKind:
		m := stripped(old.Message().Interface()).ProtoReflect()
		fds := m.Descriptor().Fields()
		switch n := m.Descriptor().Name(); n {
		case "Timestamp":
			s := fds.ByName("seconds")
			n, ok := number(m.Get(s).Int(), other.Message().Get(s).Int())
			if n == 0 {
				return none, false
			}
			m.Set(s, protoreflect.ValueOfInt64(n))
			return protoreflect.ValueOfMessage(m), ok
		case "Date":
			day, month, year := fds.ByName("day"), fds.ByName("month"), fds.ByName("year")
			if n := m.Get(month).Int(); n < 1 || n > 12 || !m.Has(year) || m.Get(day).Int() < 1 || m.Get(day).Int() > 31 {
				return none, false
			}
			if x.intn(2) == 0 {
				m = proto.Clone(old.Message().Interface()).ProtoReflect() // in place, with its bytes
			}
			m.Set(day, protoreflect.ValueOfInt32(int32(m.Get(day).Int()%28+1)))
			return protoreflect.ValueOfMessage(m), true
		case "StringValue", "Ia5StringValue", "BcdString":
			if e := fds.ByName("encoding"); e != nil && m.Get(e).Enum() <= ddv1.Encoding_ENCODING_EMPTY.Number() {
				return none, false // no code page, or an unknown one
			}
			v := fds.ByName("value")
			near, ok := nearby(x, v, m.Get(v), other.Message().Get(v))
			if ok {
				m.Set(v, near)
			}
			return protoreflect.ValueOfMessage(m), ok
		}
	}
	return none, false
}

func checkEdit(t *rapid.T, c *C, what string, b []byte, a proto.Message, es []edit, dec func([]byte) (proto.Message, error), enc func(proto.Message) ([]byte, error)) {
	if len(es) == 0 {
		c.class("nothing to edit")
		return
	}
	// One edit per kind is a candidate, so that long lists do not crowd out single values.
	kinds := map[string][]edit{}
	var names []string
	for _, e := range es {
		if kinds[e.kind] == nil {
			names = append(names, e.kind)
		}
		kinds[e.kind] = append(kinds[e.kind], e)
	}
	k := names[position(t, len(names), "kind")]
	e := kinds[k][position(t, len(kinds[k]), "which")]
	first := proto.Clone(a)
	e.do(a.ProtoReflect())
	c.in("edited", e.path)
	// In a copy, whose parts are all its own, the same edit changes that one value.
	want := proto.Clone(first)
	e.do(want.ProtoReflect())
	if d := diffMsg(a, want); d != "" {
		c.failf(t, "setting %s to another value changes something else in the same message: %s", e.path, d)
	}
	out, err := enc(a)
	if err != nil {
		c.failf(t, "%s with another %s does not encode: %v", what, e.path, err)
	}
	got, err := dec(exact(out))
	if err != nil {
		c.failf(t, "%s with another %s encodes to bytes that are refused: %v", what, e.path, err)
	}
	if d := diffMsg(stripped(got), stripped(want)); d != "" {
		c.failf(t, "after another %s: %s", e.path, d)
	}
	if len(out) != len(b) {
		c.failf(t, "another %s changes the size from %d to %d", e.path, len(b), len(out))
	}
	e.undo(got.ProtoReflect())
	if unencodableAfterUndo := !e.exact && strings.Contains(k, "nation"); unencodableAfterUndo {
		c.class(k)
		return
	}
	back, err := enc(got)
	if err != nil {
		c.failf(t, "putting the first %s back does not encode: %v", e.path, err)
	}
	if again, err := dec(exact(back)); err != nil {
		c.failf(t, "putting the first %s back encodes to bytes that are refused: %v", e.path, err)
	} else if d := diffMsg(stripped(again), stripped(first)); d != "" {
		c.failf(t, "after putting the first %s back: %s", e.path, d)
	}
	if e.exact && !bytes.Equal(back, b) {
		c.failf(t, "putting the first %s back gives other bytes: %s (%.200x)", e.path, firstDiff(back, b), b)
	}
	c.class(k)
	c.nontrivial(append([]byte(e.path), out...))
}

func TestC28(t *testing.T) {
	var subs []sub
	for _, x := range subsPerSpec(200, 20000, func(s ddSpec) func(*rapid.T, *C) {
		return func(t *rapid.T, c *C) {
			b, _ := s.gen(&G{t: t, encodable: true})
			if knownUnencodable(s.name, b) != "" {
				return
			}
			c.in("bytes", b)
			a, err := s.dec(exact(b))
			if err != nil {
				c.failf(t, "%s is refused: %v", s.name, err)
			}
			db, d := s.gen(&G{t: t, canon: true})
			if s.variable && len(db) != len(b) {
				return
			}
			c.in("donor", db)
			var es []edit
			editsOf(newXS(gSeed(t, "near")), s.name, nil, a.ProtoReflect(), d.ProtoReflect(), &es)
			checkEdit(t, c, s.name, b, a, es, s.dec, func(m proto.Message) ([]byte, error) { return s.enc(nil, m) })
		}
	}) {
		switch x.name {
		case "StringValue", "Ia5StringValue", "BcdString", "TimeReal", "OdometerShort":
			// One value each: replacing it is C12, and inside records it is an edit below.
		default:
			subs = append(subs, x)
		}
	}
	for _, s := range efSpecs {
		if strings.HasSuffix(s.name, "ertificate") {
			continue
		}
		subs = append(subs, sub{"card " + s.name, 120, 8000, func(t *rapid.T, c *C) {
			x := (&G{t: t, encodable: true}).element(s)
			es := []element{x}
			c.in("file", elementsString(es))
			b := elementsFile(es)
			c.in("bytes", b)
			a, err := decodeCard(exact(b))
			if err != nil {
				c.failf(t, "%s is refused: %v", s.name, err)
			}
			y := (&G{t: t, canon: true}).element(s)
			c.in("donor", y.val)
			d := wantCard([]element{y})
			var edits []edit
			editsOf(newXS(gSeed(t, "near")), "card", nil, a.ProtoReflect(), d.ProtoReflect(), &edits)
			checkEdit(t, c, s.name, b, a, edits, func(b []byte) (proto.Message, error) {
				return decodeCard(b)
			}, func(m proto.Message) ([]byte, error) { return card.MarshalDriverCardFile(m.(*cardv1.DriverCardFile)) })
		}})
	}
	subs = append(subs, sub{"whole card", 80, 4000, func(t *rapid.T, c *C) {
		g := &G{t: t, encodable: true}
		es := g.card(rapid.SampledFrom([]int{20, 50, 80}).Draw(t, "percent"))
		var have []int
		for i, e := range es {
			if !strings.HasSuffix(e.spec.name, "ertificate") {
				have = append(have, i)
			}
		}
		if len(have) == 0 {
			c.class("nothing to edit")
			return
		}
		c.in("file", elementsString(es))
		b := elementsFile(es)
		a, err := decodeCard(exact(b))
		if err != nil {
			c.failf(t, "the card is refused: %v", err)
		}
		y := (&G{t: t, canon: true}).element(es[have[position(t, len(have), "element")]].spec)
		c.in("donor", y.val)
		var edits []edit
		editsOf(newXS(gSeed(t, "near")), "card", nil, a.ProtoReflect(), wantCard([]element{y}).ProtoReflect(), &edits)
		checkEdit(t, c, "the card", b, a, edits, func(b []byte) (proto.Message, error) {
			return decodeCard(b)
		}, func(m proto.Message) ([]byte, error) { return card.MarshalDriverCardFile(m.(*cardv1.DriverCardFile)) })
	}})
	run(t, "C28", "one value was edited, the result encoded, and the edited value decoded from it", subs...)
}
