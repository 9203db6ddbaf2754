package verifpbt

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"
)

// leaf is one scalar field somewhere inside a message.
type leaf struct {
	path string
	m    protoreflect.Message
	fd   protoreflect.FieldDescriptor
}

// leavesOf lists the scalar fields that are set in m, raw copies left out.
func leavesOf(path string, m protoreflect.Message, out *[]leaf) {
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if isRaw(fd) || !m.Has(fd) {
			continue
		}
		p := path + "." + string(fd.Name())
		switch {
		case fd.IsList() && fd.Kind() == protoreflect.MessageKind:
			l := m.Get(fd).List()
			for j := 0; j < l.Len(); j++ {
				leavesOf(fmt.Sprintf("%s[%d]", p, j), l.Get(j).Message(), out)
			}
		case fd.IsList() || fd.IsMap():
		case fd.Kind() == protoreflect.MessageKind:
			leavesOf(p, m.Get(fd).Message(), out)
		default:
			*out = append(*out, leaf{p, m, fd})
		}
	}
}

// gNumber draws an integer with the edges of every field width favoured.
func gNumber(t *rapid.T, label string, lo, hi int64) int64 {
	return rapid.OneOf(rapid.SampledFrom(edgesIn(lo, hi)), rapid.Int64Range(lo, hi)).Draw(t, label)
}

// edgesIn returns the numbers from lo to hi that are at a limit of some field.
func edgesIn(lo, hi int64) []int64 {
	edges := []int64{-1, 0, 1, 99, 100, 127, 128, 255, 256, 1439, 1440, 2047, 2048, 9999, 10000, 32767, 65535, 65536,
		1<<23 - 1, 1 << 23, -(1 << 23), -(1 << 23) - 1, 1<<24 - 1, 1 << 24, 1<<31 - 1, -(1 << 31), 1<<32 - 1, 1 << 32, 1 << 40}
	var in []int64
	for _, e := range edges {
		if e >= lo && e <= hi {
			in = append(in, e)
		}
	}
	return in
}

// edgesOf returns the values at the limits of an integer field, or nothing.
func edgesOf(l leaf) []protoreflect.Value {
	var out []protoreflect.Value
	switch l.fd.Kind() {
	case protoreflect.Int32Kind, protoreflect.Sint32Kind:
		for _, n := range edgesIn(-1<<31, 1<<31-1) {
			out = append(out, protoreflect.ValueOfInt32(int32(n)))
		}
	case protoreflect.Uint32Kind:
		for _, n := range edgesIn(0, 1<<32-1) {
			out = append(out, protoreflect.ValueOfUint32(uint32(n)))
		}
	case protoreflect.Int64Kind:
		for _, n := range edgesIn(-1<<41, 1<<41) {
			out = append(out, protoreflect.ValueOfInt64(n))
		}
	}
	return out
}

// unsayable reports values that a field can hold in memory but that say the same as
// no value: the zero date.
func unsayable(l leaf, v protoreflect.Value) bool {
	switch l.m.Descriptor().Name() {
	case "Timestamp":
		return v.Int() == 0
	case "MonthYear":
		return l.fd.Name() == "month" && v.Int() == 0
	}
	return false
}

// setLeaf gives a scalar field another value of its Go type, in the format's range or not.
func setLeaf(t *rapid.T, l leaf) {
	var v protoreflect.Value
	switch l.fd.Kind() {
	case protoreflect.BoolKind:
		v = protoreflect.ValueOfBool(!l.m.Get(l.fd).Bool())
	case protoreflect.Int32Kind, protoreflect.Sint32Kind:
		v = protoreflect.ValueOfInt32(int32(gNumber(t, "number", -1<<31, 1<<31-1)))
	case protoreflect.Uint32Kind:
		v = protoreflect.ValueOfUint32(uint32(gNumber(t, "number", 0, 1<<32-1)))
	case protoreflect.Int64Kind:
		n := gNumber(t, "number", -1<<41, 1<<41)
		if l.m.Descriptor().Name() == "Timestamp" && n == 0 {
			n = -1
		}
		v = protoreflect.ValueOfInt64(n)
	case protoreflect.EnumKind:
		// A value that is not specified or not recognized says nothing that could be stored.
		var nums []protoreflect.EnumNumber
		for i, vals := 0, l.fd.Enum().Values(); i < vals.Len(); i++ {
			if n := string(vals.Get(i).Name()); !strings.HasSuffix(n, "UNSPECIFIED") && !strings.HasSuffix(n, "UNRECOGNIZED") {
				nums = append(nums, vals.Get(i).Number())
			}
		}
		v = protoreflect.ValueOfEnum(rapid.SampledFrom(nums).Draw(t, "enum"))
	case protoreflect.StringKind:
		v = protoreflect.ValueOfString(gText(t, "text"))
	case protoreflect.BytesKind:
		v = protoreflect.ValueOfBytes(gBytes(t, rapid.IntRange(1, 3).Draw(t, "bytes.len"), "bytes"))
	default:
		panic(l.fd.Kind())
	}
	if l.m.Descriptor().Name() == "MonthYear" && l.fd.Name() == "month" && v.Int() == 0 {
		v = protoreflect.ValueOfInt32(13) // month 0 of year 0 is the stored form of no date
	}
	l.m.Set(l.fd, v)
}

// gText draws a text without padding at its ends, of letters of several scripts.
func gText(t *rapid.T, label string) string {
	alphabet := []rune("ABCXYZabcxyz0189-/éÉñüßøåÅčŁžŠşİğΑβΩЖйЯђ€ø")
	switch rapid.IntRange(0, 3).Draw(t, label+".script") {
	case 0:
		alphabet = alphabet[:18]
	case 1:
		alphabet = append(alphabet, '界', '😀', '\u2028')
	}
	n := rapid.SampledFrom([]int{1, 2, 5, 8, 13, 14, 16, 17, 18, 35, 36, 60}).Draw(t, label+".len")
	x := newXS(gSeed(t, label+".seed"))
	r := make([]rune, n)
	for i := range r {
		r[i] = alphabet[x.intn(len(alphabet))]
	}
	return string(r)
}

func TestC12(t *testing.T) {
	subs := subsPerSpec(600, 20000, func(s ddSpec) func(*rapid.T, *C) {
		return func(t *rapid.T, c *C) {
			b, m := s.gen(&G{t: t, canon: true})
			want := stripped(m)
			c.in("value", fmt.Sprint(want))
			out, err := s.enc(leftOver(t), proto.Clone(want))
			if err != nil {
				c.failf(t, "%s does not encode: %v", s.name, err)
			}
			if len(out) != len(b) {
				c.failf(t, "%s encodes to %d bytes, not %d: %x", s.name, len(out), len(b), out)
			}
			got, err := s.dec(exact(out))
			if err != nil {
				c.failf(t, "%s encodes to %x, which is refused: %v", s.name, out, err)
			}
			if d := diffMsg(got, want); d != "" {
				c.failf(t, "%s encodes to %x, which decodes to another value: %s", s.name, out, d)
			}
			if !bytes.Equal(out, b) {
				c.failf(t, "%s encodes to %x: %s", s.name, out, firstDiff(out, b))
			}
			c.class("built: " + s.name)
			if notBlank(b) {
				c.nontrivial(b)
			}
		}
	})
	for _, s := range ddSpecs {
		if s.name == "OdometerShort" {
			continue // its encoder cannot refuse; the records that use it can
		}
		subs = append(subs, sub{"any " + s.name, 1200, 40000, func(t *rapid.T, c *C) {
			_, m := s.gen(&G{t: t, canon: true})
			want := stripped(m)
			var ls []leaf
			leavesOf("", want.ProtoReflect(), &ls)
			if len(ls) == 0 {
				return
			}
			l := ls[rapid.IntRange(0, len(ls)-1).Draw(t, "leaf")]
			if skipLeaf(l) {
				c.class("left out: " + string(l.fd.FullName().Parent().Name()) + "." + string(l.fd.Name()))
				return
			}
			setLeaf(t, l)
			c.in("changed", l.path)
			c.in("value", fmt.Sprint(want))
			out, err := s.enc(leftOver(t), proto.Clone(want))
			if err != nil {
				c.class("refused: " + s.name)
				c.nontrivial([]byte(fmt.Sprint(want)))
				return
			}
			got, err := s.dec(exact(out))
			if err != nil {
				c.failf(t, "%s with another %s encodes to %x, which is refused: %v", s.name, l.path, out, err)
			}
			if d := diffMsg(got, want); d != "" {
				c.failf(t, "%s with another %s encodes to %x, which decodes to another value: %s", s.name, l.path, out, d)
			}
			c.class("stored: " + s.name)
			c.nontrivial([]byte(fmt.Sprint(want)))
		}})
	}
	run(t, "C12", "values with at least one stored byte that is not padding, or changed in one field", subs...)
}

// skipLeaf leaves out fields that say nothing about the stored value: the size of a text
// field is its owner's, and a time has no fraction of a second.
func skipLeaf(l leaf) bool {
	switch l.m.Descriptor().Name() {
	case "Timestamp":
		return l.fd.Name() == "nanos"
	case "StringValue", "Ia5StringValue", "BcdString":
		return l.fd.Name() == "length"
	}
	return false
}

// leftOver is an empty destination, in half of the cases one with room that holds the bytes
// of something encoded before.
func leftOver(t *rapid.T) []byte {
	if rapid.Bool().Draw(t, "room") {
		return bytes.Repeat([]byte{0xA5}, 400)[:0]
	}
	return nil
}
