package verifpbt

import (
	"bytes"
	"testing"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"

	tachograph "github.com/way-platform/tachograph-go"
)

// overwrite changes every byte of b.
func overwrite(b []byte) {
	for i := range b {
		b[i] ^= 0xFF
	}
}

// deface changes a message in place, everywhere: its bytes where they lie, and its numbers and texts.
// It returns how many places it changed.
func deface(m protoreflect.Message) int { return defaceIf(m, true) }

func defaceIf(m protoreflect.Message, inBytes bool) int {
	n := 0
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		one := func(v protoreflect.Value, set func(protoreflect.Value)) {
			switch fd.Kind() {
			case protoreflect.MessageKind, protoreflect.GroupKind:
				n += defaceIf(v.Message(), inBytes)
			case protoreflect.BytesKind:
				if inBytes {
					overwrite(v.Bytes())
					n += len(v.Bytes())
				}
			case protoreflect.StringKind:
				set(protoreflect.ValueOfString("defaced"))
				n++
			case protoreflect.Int32Kind:
				set(protoreflect.ValueOfInt32(int32(v.Int()) + 77))
				n++
			case protoreflect.Int64Kind:
				set(protoreflect.ValueOfInt64(v.Int() + 77))
				n++
			case protoreflect.BoolKind:
				set(protoreflect.ValueOfBool(!v.Bool()))
				n++
			}
		}
		if fd.IsList() {
			l := v.List()
			for i := 0; i < l.Len(); i++ {
				one(l.Get(i), func(x protoreflect.Value) { l.Set(i, x) })
			}
			if fd.Kind() == protoreflect.MessageKind {
				l.Append(l.NewElement()) // behind a list there may be another
			}
			return true
		}
		one(v, func(x protoreflect.Value) { m.Set(fd, x) })
		return true
	})
	return n
}

// lend puts b in the middle of a larger buffer, as a caller does that reads many files into one.
func lend(b []byte) (whole, part []byte) {
	whole = cat(bytes.Repeat([]byte{0xA5}, 64), b, bytes.Repeat([]byte{0x5A}, 256))
	return whole, whole[64 : 64+len(b)]
}

func TestC33(t *testing.T) {
	subs := []sub{
		{"input reused", 700, 30000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			b, what := g.anyBytes()
			inBytes(c, b)
			whole, part := lend(b)
			before := exact(whole)
			f, err := tachograph.UnmarshalFile(part)
			if !bytes.Equal(whole, before) {
				c.failf(t, "parsing writes to the caller's memory: %s", firstDiff(whole, before))
			}
			if err != nil {
				c.class("refused: " + what)
				return
			}
			kept := proto.Clone(f)
			overwrite(whole)
			if !proto.Equal(f, kept) {
				c.failf(t, "a parsed file changes when the caller reuses the memory it was parsed from: %s", diffStrict(f, kept))
			}
			// Every part of a copy is its own: after changing each value once, both come to the same.
			// (The bytes of a signature may be part of those of the transfer it ends.)
			defaceIf(f.ProtoReflect(), false)
			defaceIf(kept.ProtoReflect(), false)
			if !proto.Equal(f, kept) {
				c.failf(t, "two parts of a parsed file are the same object, so that editing one changes the other: %s", diffStrict(f, kept))
			}
			// The other way round: what an application does to the file stays in the file.
			copy(whole, before)
			if deface(f.ProtoReflect()) > 0 && !bytes.Equal(whole, before) {
				c.failf(t, "editing a parsed file changes the input it was parsed from: %s", firstDiff(whole, before))
			}
			c.class("parsed: " + what)
			if len(b) > 60 {
				c.nontrivial(b)
			}
		}},
		{"output kept", 500, 20000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			var b []byte
			what := "full driver card"
			switch rapid.SampledFrom([]string{"card", "other", "damaged"}).Draw(t, "kind") {
			case "card":
				b = elementsFile(g.cardFile(rapid.SampledFrom([]int{12, 60}).Draw(t, "percent")))
			case "other":
				b, what = recsBytes(g.otherCard()), "other card"
			default:
				b, what = g.damage(elementsFile(g.cardFile(30))), "driver card, damaged"
			}
			inBytes(c, b)
			f, err := tachograph.UnmarshalFile(exact(b))
			if err != nil {
				c.class("refused: " + what)
				return
			}
			out, err := tachograph.MarshalFile(f)
			if err != nil {
				c.class("not encodable: " + what)
				return
			}
			kept, msg := exact(out), proto.Clone(f)
			again, err := tachograph.MarshalFile(f)
			if err != nil || !bytes.Equal(again, kept) {
				c.failf(t, "a second encoding differs, error %v: %s", err, firstDiff(again, kept))
			}
			overwrite(again[:cap(again)])
			if !bytes.Equal(out, kept) {
				c.failf(t, "two encodings of a file share memory")
			}
			if !proto.Equal(f, msg) {
				c.failf(t, "changing the encoding of a file changes the file: %s", diffStrict(f, msg))
			}
			if deface(f.ProtoReflect()) == 0 {
				return
			}
			if !bytes.Equal(out, kept) {
				c.failf(t, "editing a file changes what it was encoded to before: %s", firstDiff(out, kept))
			}
			c.class("encoded: " + what)
			c.nontrivial(b)
		}},
		{"two files", 300, 10000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			a, _ := g.wellFormed()
			b, _ := g.wellFormed()
			if gBool(t, "same") {
				b = a
			}
			c.in("sizes", []int{len(a), len(b)})
			fa, err := tachograph.UnmarshalFile(a)
			if err != nil {
				c.class("refused")
				return
			}
			fb, err := tachograph.UnmarshalFile(b)
			if err != nil {
				c.class("refused")
				return
			}
			kept := proto.Clone(fb)
			n := deface(fa.ProtoReflect())
			if !proto.Equal(fb, kept) {
				c.failf(t, "editing one parsed file changes another: %s", diffStrict(fb, kept))
			}
			// What is parsed later is not affected either.
			fc, err := tachograph.UnmarshalFile(exact(b))
			if err != nil || !proto.Equal(fc, kept) {
				c.failf(t, "after editing a parsed file, another parses differently, error %v", err)
			}
			c.class("edited: " + fa.GetType().String())
			if n > 20 {
				c.nontrivial(cat(a, b))
			}
		}},
	}
	run(t, "C33", "a file that parses and holds more than one record or transfer", subs...)
}
