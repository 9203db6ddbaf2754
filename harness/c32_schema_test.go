package verifpbt

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"unicode/utf8"

	"buf.build/go/protovalidate"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/timestamppb"
	"pgregory.net/rapid"

	tachograph "github.com/way-platform/tachograph-go"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	vuv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/vu/v1"
)

// schemaFaults lists where a message does not obey the rules its schema states.
// in, when not nil, is the input the message was parsed from.
func schemaFaults(m proto.Message, in []byte) []string {
	var out []string
	if err := protovalidate.Validate(m); err != nil {
		out = append(out, strings.ReplaceAll(err.Error(), "\n", "; "))
	}
	w := &schemaWalk{input: in}
	w.message("", m.ProtoReflect(), in)
	return append(out, w.faults...)
}

type schemaWalk struct {
	input  []byte
	faults []string
}

func (w *schemaWalk) fault(path, format string, args ...any) {
	if len(w.faults) < 20 {
		w.faults = append(w.faults, path+": "+fmt.Sprintf(format, args...))
	}
}

func isUnrecognized(d protoreflect.EnumDescriptor, n protoreflect.EnumNumber) bool {
	v := d.Values().ByNumber(n)
	return v != nil && strings.HasSuffix(string(v.Name()), "UNRECOGNIZED")
}

// signed names the fields whose numbers may be below zero.
var signedFields = map[protoreflect.Name]bool{"latitude": true, "longitude": true}

func (w *schemaWalk) message(path string, m protoreflect.Message, within []byte) {
	d := m.Descriptor()
	if ts, ok := m.Interface().(*timestamppb.Timestamp); ok {
		if err := ts.CheckValid(); err != nil {
			w.fault(path, "%v", err)
		}
		if ts.GetSeconds() < 0 || ts.GetSeconds() > 0xFFFFFFFF || ts.GetNanos() != 0 {
			w.fault(path, "no time a tachograph can record: %v", ts)
		}
		return
	}
	w.unions(path, m)
	if raw := d.Fields().ByName("raw_data"); raw != nil && raw.Kind() == protoreflect.BytesKind && w.input != nil {
		b := m.Get(raw).Bytes()
		if !bytes.Contains(within, b) {
			w.fault(path, "raw_data %x is not part of what surrounds it", b)
		}
		if len(b) > 0 {
			within = b
		}
		if _, ok := m.Interface().(*cardv1.DriverActivityData); ok {
			// Days are stored in a ring.
			within = cat(b, b)
		}
	}
	for i := 0; i < d.Fields().Len(); i++ {
		fd := d.Fields().Get(i)
		p := path + "." + string(fd.Name())
		if name, ok := strings.CutPrefix(string(fd.Name()), "unrecognized_"); ok {
			of := d.Fields().ByName(protoreflect.Name(name))
			unknown := of != nil && of.Enum() != nil && m.Has(of) && isUnrecognized(of.Enum(), m.Get(of).Enum())
			if of != nil && of.Enum() != nil && unknown != m.Has(fd) {
				w.fault(p, "is set: %v, but %s is %v", m.Has(fd), name, m.Get(of).Enum())
			}
			if m.Has(fd) && (m.Get(fd).Int() < 0 || m.Get(fd).Int() > 255) {
				w.fault(p, "%d is no code", m.Get(fd).Int())
			}
		}
		if !m.Has(fd) {
			continue
		}
		if fd.IsList() {
			l := m.Get(fd).List()
			for k := 0; k < l.Len(); k++ {
				w.value(fmt.Sprintf("%s[%d]", p, k), fd, l.Get(k), within)
			}
			continue
		}
		w.value(p, fd, m.Get(fd), within)
	}
	if len(m.GetUnknown()) > 0 {
		w.fault(path, "holds unknown fields")
	}
}

func (w *schemaWalk) value(path string, fd protoreflect.FieldDescriptor, v protoreflect.Value, within []byte) {
	switch fd.Kind() {
	case protoreflect.MessageKind, protoreflect.GroupKind:
		w.message(path, v.Message(), within)
	case protoreflect.EnumKind:
		if fd.Enum().Values().ByNumber(v.Enum()) == nil {
			w.fault(path, "%d is no %s", v.Enum(), fd.Enum().Name())
		}
	case protoreflect.StringKind:
		if !utf8.ValidString(v.String()) {
			w.fault(path, "%q is no text", v.String())
		}
	case protoreflect.BytesKind:
		if fd.Name() == "signature" && w.input != nil && !bytes.Contains(w.input, v.Bytes()) {
			w.fault(path, "%x is not in the input", v.Bytes())
		}
	case protoreflect.Int32Kind, protoreflect.Int64Kind:
		if v.Int() < 0 && !signedFields[fd.Name()] {
			w.fault(path, "%d is below zero", v.Int())
		}
	}
}

// unions holds a message to what its schema says about which of its fields are set.
func (w *schemaWalk) unions(path string, m protoreflect.Message) {
	only := func(what string, fields map[string]bool) {
		for name, want := range fields {
			fd := m.Descriptor().Fields().ByName(protoreflect.Name(name))
			if m.Has(fd) != want {
				w.fault(path, "%s: %s is set: %v", what, name, m.Has(fd))
			}
		}
	}
	switch x := m.Interface().(type) {
	case *tachographv1.File:
		only(x.GetType().String(), map[string]bool{
			"vehicle_unit": x.GetType() == tachographv1.File_VEHICLE_UNIT,
			"driver_card":  x.GetType() == tachographv1.File_DRIVER_CARD,
			"raw_card":     x.GetType() == tachographv1.File_RAW_CARD,
		})
	case *vuv1.VehicleUnitFile:
		one, two := x.GetGeneration() == ddv1.Generation_GENERATION_1, x.GetGeneration() == ddv1.Generation_GENERATION_2
		only(x.GetGeneration().String()+" "+x.GetVersion().String(), map[string]bool{
			"gen1":    one,
			"gen2_v1": two && x.GetVersion() == ddv1.Version_VERSION_1,
			"gen2_v2": two && x.GetVersion() == ddv1.Version_VERSION_2,
		})
	case *cardv1.Identification:
		if x.GetCardType() == cardv1.CardType_CARD_TYPE_UNSPECIFIED {
			w.fault(path, "no card type")
		}
		// Of a card whose number is no driver's, the schema leaves open what kind it is;
		// the parser sees a driver card's file and names the holder accordingly.
		if x.GetCardType() == cardv1.CardType_DRIVER_CARD {
			only("a driver's identification", map[string]bool{"driver_card_holder": true, "workshop_card_holder": false,
				"control_card_holder": false, "company_card_holder": false})
		}
		if driver, owner := x.GetCard().HasDriverIdentification(), x.GetCard().HasOwnerIdentification(); driver == owner {
			w.fault(path, "a driver's number: %v, an owner's: %v", driver, owner)
		} else if driver != (x.GetCardType() == cardv1.CardType_DRIVER_CARD) {
			w.fault(path, "a driver's number: %v on a %v", driver, x.GetCardType())
		}
	}
	d := m.Descriptor()
	valid, raw := d.Fields().ByName("valid"), d.Fields().ByName("raw_data")
	if valid != nil && raw != nil && !m.Get(valid).Bool() {
		if len(m.Get(raw).Bytes()) == 0 && w.input != nil {
			w.fault(path, "neither valid nor with its bytes")
		}
		m.Range(func(fd protoreflect.FieldDescriptor, _ protoreflect.Value) bool {
			if fd == valid || fd == raw || fd.Name() == "signature" {
				return true
			}
			if isKnown("C32", string("not-valid-"+d.Name())) {
				excluded(string("not-valid-" + d.Name()))
			} else {
				w.fault(path, "not valid, but %s is set", fd.Name())
			}
			return true
		})
	}
}

// decodedYetNotValid tells whether m says that it is not valid, though it was decoded.
func decodedYetNotValid(m proto.Message) bool {
	r := m.ProtoReflect()
	decoded := false
	r.Range(func(fd protoreflect.FieldDescriptor, _ protoreflect.Value) bool {
		decoded = decoded || fd.Name() != "valid" && fd.Name() != "raw_data"
		return true
	})
	return decoded && !r.Get(r.Descriptor().Fields().ByName("valid")).Bool()
}

func checkSchema(t *rapid.T, c *C, m proto.Message, in []byte) {
	if fs := schemaFaults(m, in); len(fs) > 0 {
		c.failf(t, "the result does not obey its schema: %s", strings.Join(fs, "; "))
	}
}

func TestC32(t *testing.T) {
	probeKnown("C32", func(e knownEntry) bool {
		spec, input, _ := strings.Cut(e.Input, ":")
		for _, s := range ddSpecs {
			if s.name == spec {
				m, err := s.dec(unhex(input))
				return err == nil && decodedYetNotValid(m)
			}
		}
		return false
	})
	subs := []sub{
		{"any file", 700, 30000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			b, what := g.anyBytes()
			inBytes(c, b)
			f, err := tachograph.UnmarshalFile(exact(b))
			if err != nil {
				c.class("refused: " + what)
				return
			}
			checkSchema(t, c, f, b)
			c.class("parsed: " + what)
			if len(b) > 60 {
				c.nontrivial(b)
			}
		}},
		{"driver card content", 500, 20000, func(t *rapid.T, c *C) {
			// Arbitrary content in each file of a driver card, of a size it can have.
			g := &G{t: t}
			file := rec{0x0002, 0, g.element(efByName("ICC")).val}.bytes()
			s := rapid.SampledFrom(efSpecs).Draw(t, "file")
			val := g.content(s)
			file = append(file, rec{s.fid, s.app, val}.bytes()...)
			c.in("file", s.name)
			inBytes(c, file)
			f, err := tachograph.UnmarshalFile(exact(file))
			if err != nil {
				c.class("refused: " + s.name)
				return
			}
			checkSchema(t, c, f, file)
			c.class("parsed: " + s.name)
			c.nontrivial(file)
		}},
		{"vehicle unit content", 200, 8000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			v := g.vuFile(2)
			file := v.bytes()
			for i := gInt(t, 1, 30, "changes"); i > 0; i-- {
				// Beyond the headers, so that most files still parse.
				p := 2 + position(t, len(file)-2, "at")
				file[p] = gByte(t, "byte")
			}
			inVU(c, v, file)
			f, err := tachograph.UnmarshalFile(exact(file))
			if err != nil {
				c.class("refused")
				return
			}
			checkSchema(t, c, f, file)
			c.class("parsed: " + v.format.field)
			c.nontrivial(file)
		}},
	}
	for _, s := range anonSpecs {
		subs = append(subs, sub{"anonymised " + s.name, 60, 4000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			b, _, sig, _ := anonInput(g, c, s)
			m, err := s.dec(b, sig)
			if err != nil {
				c.failf(t, "%s is refused: %v", s.name, err)
			}
			checkSchema(t, c, anonymise(c, t, s, m, gInt(t, 0, 300, "index")), nil)
			c.class("anonymised: " + s.name)
			c.nontrivial(b)
		}})
	}
	subs = append(subs, sub{"anonymised holders of other cards", 60, 4000, func(t *rapid.T, c *C) {
		g := &G{t: t}
		m, _ := gHolders(g)
		c.in("original", m.String())
		// The holder is held to what the schema says of its parts; what kinds of number a card has, the original tells.
		checkSchema(t, c, anonymise(c, t, anonSpecs[0], m, 0), nil)
		c.class("anonymised: holder of a " + m.GetCardType().String())
		c.nontrivial([]byte(m.String()))
	}})
	run(t, "C32", "a parsed file beyond an empty one, or an anonymised structure", subs...)
}
