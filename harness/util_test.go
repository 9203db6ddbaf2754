package verifpbt

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/timestamppb"
	"pgregory.net/rapid"
)

// ---- small generators --------------------------------------------------------

// xs expands a drawn seed into bulk bytes, so that large inputs stay cheap.
type xs struct{ s uint64 }

func newXS(seed uint64) *xs { return &xs{seed*2862933555777941757 + 3037000493} }

func (x *xs) next() uint64 {
	x.s += 0x9E3779B97F4A7C15
	z := x.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (x *xs) intn(n int) int { return int(x.next() % uint64(n)) }

func (x *xs) bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(x.next() >> 11)
	}
	return b
}

func gInt(t *rapid.T, lo, hi int, label string) int { return rapid.IntRange(lo, hi).Draw(t, label) }

// gCount draws a usual number of things, and once in a while many more than anyone would try by hand.
func gCount(t *rapid.T, lo, hi, beyond int, label string) int {
	if oneIn(t, 25, label+".beyond") {
		return hi + position(t, beyond-hi+1, label+".many")
	}
	return gInt(t, lo, hi, label)
}

func gBool(t *rapid.T, label string) bool { return rapid.Bool().Draw(t, label) }

// oneIn is true in about one case of n.
func oneIn(t *rapid.T, n int, label string) bool { return rapid.IntRange(0, n-1).Draw(t, label) == n-1 }

func gSeed(t *rapid.T, label string) uint64 { return rapid.Uint64().Draw(t, label) }

// gBytes draws n bytes: drawn one by one when few, expanded from a seed when many,
// sometimes all equal.
func gBytes(t *rapid.T, n int, label string) []byte {
	if n == 0 {
		return []byte{}
	}
	if blank >= 0 {
		return bytes.Repeat([]byte{byte(blank)}, n)
	}
	switch rapid.IntRange(0, 7).Draw(t, label+".kind") {
	case 0:
		return make([]byte, n)
	case 1:
		return bytes.Repeat([]byte{0xFF}, n)
	case 2:
		return bytes.Repeat([]byte{rapid.Byte().Draw(t, label+".fill")}, n)
	case 3:
		if n <= 64 {
			return rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, label)
		}
	}
	return newXS(gSeed(t, label+".seed")).bytes(n)
}

func gU32(t *rapid.T, label string) uint32 {
	if blank >= 0 {
		return uint32(blank) * 0x01010101
	}
	switch rapid.IntRange(0, 9).Draw(t, label+".kind") {
	case 0:
		return 0
	case 1:
		return rapid.SampledFrom([]uint32{1, 59, 86399, 86400, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF}).Draw(t, label+".edge")
	case 2:
		return rapid.Uint32().Draw(t, label)
	case 3:
		// midnight, and the seconds beside it
		return uint32(rapid.IntRange(12784, 25565).Draw(t, label+".day"))*86400 + uint32(rapid.SampledFrom([]int{0, 0, 1, -1, 60, -60}).Draw(t, label+".beside"))
	default:
		// 2005 to 2040
		return uint32(rapid.IntRange(1104537600, 2208988800).Draw(t, label))
	}
}

func gU24(t *rapid.T, label string) uint32 {
	if blank >= 0 {
		return uint32(blank) * 0x010101
	}
	switch rapid.IntRange(0, 6).Draw(t, label+".kind") {
	case 0:
		return 0
	case 1:
		return rapid.SampledFrom([]uint32{1, 0xFF, 0x100, 0xFFFF, 0x10000, 0x7FFFFF, 0x800000, 0xFFFFFE, 0xFFFFFF, 999999}).Draw(t, label+".edge")
	default:
		return uint32(rapid.IntRange(0, 0xFFFFFF).Draw(t, label))
	}
}

func gU16(t *rapid.T, label string) uint16 {
	if blank >= 0 {
		return uint16(blank) * 0x0101
	}
	if rapid.IntRange(0, 4).Draw(t, label+".kind") == 0 {
		return rapid.SampledFrom([]uint16{0, 1, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF}).Draw(t, label+".edge")
	}
	return rapid.Uint16().Draw(t, label)
}

func gByte(t *rapid.T, label string) byte {
	if blank >= 0 {
		return byte(blank)
	}
	return rapid.Byte().Draw(t, label)
}

// blank is the byte that a record being drawn consists of where it can, and -1 for records with
// content: cards are delivered with records of nothing but 00, or of nothing but FF.
var blank = -1

// blankRecord draws a record of nothing but 00 or FF, as far as its fields can hold that.
func blankRecord[M any](t *rapid.T, gen func() ([]byte, M)) ([]byte, M) {
	b := 0
	if oneIn(t, 3, "blank.ones") {
		b = 0xFF
	}
	defer func() { blank = -1 }()
	blank = b
	return gen()
}

func u16(v int) []byte    { return []byte{byte(v >> 8), byte(v)} }
func u24(v uint32) []byte { return []byte{byte(v >> 16), byte(v >> 8), byte(v)} }
func u32(v uint32) []byte { return binary.BigEndian.AppendUint32(nil, v) }

// exact is a copy of b with no room behind it, so that reading past the end shows.
func exact(b []byte) []byte {
	if b == nil {
		return nil
	}
	out := make([]byte, len(b))
	copy(out, b)
	return out
}

func cat(parts ...[]byte) []byte { return bytes.Join(parts, nil) }

// ts is the decoded form of a stored time; a stored zero means "no time".
func ts(v uint32) *timestamppb.Timestamp {
	if v == 0 {
		return nil
	}
	return &timestamppb.Timestamp{Seconds: int64(v)}
}

// gMutate returns a copy of b with a few bytes changed.
func gMutate(t *rapid.T, b []byte, label string) []byte {
	out := exact(b)
	if len(out) == 0 {
		return out
	}
	n := rapid.IntRange(1, 3).Draw(t, label+".n")
	for i := 0; i < n; i++ {
		p := rapid.IntRange(0, len(out)-1).Draw(t, label+".pos")
		out[p] = rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte{0, 1, 0x20, 0x7F, 0x80, 0xFF})).Draw(t, label+".val")
	}
	return out
}

func uniqueInts(in []int) []int {
	var out []int
	seen := map[int]bool{}
	for _, v := range in {
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	return out
}

// ---- comparing messages ------------------------------------------------------

// diffMsg reports the first difference between two messages, or "". A raw_data
// field is a copy of the source bytes kept for encoding: it must hold the stored
// bytes where it is set, but whether a message keeps one is left to the library.
func diffMsg(got, want proto.Message) string {
	g, w := got.ProtoReflect(), want.ProtoReflect()
	if !g.IsValid() || !w.IsValid() {
		if g.IsValid() == w.IsValid() {
			return ""
		}
		if !g.IsValid() {
			return string(w.Descriptor().Name()) + " is missing"
		}
		return string(g.Descriptor().Name()) + " is present but nothing is stored"
	}
	return diffReflect(string(w.Descriptor().Name()), g, w)
}

func isRaw(fd protoreflect.FieldDescriptor) bool { return fd.Name() == "raw_data" }

func diffReflect(path string, g, w protoreflect.Message) string {
	fds := w.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		p := path + "." + string(fd.Name())
		if isRaw(fd) {
			if g.Has(fd) && w.Has(fd) && !bytes.Equal(g.Get(fd).Bytes(), w.Get(fd).Bytes()) {
				return fmt.Sprintf("%s: got %x, want %x", p, g.Get(fd).Bytes(), w.Get(fd).Bytes())
			}
			continue
		}
		if fd.IsList() {
			gl, wl := g.Get(fd).List(), w.Get(fd).List()
			if gl.Len() != wl.Len() {
				return fmt.Sprintf("%s: got %d entries, want %d", p, gl.Len(), wl.Len())
			}
			for j := 0; j < gl.Len(); j++ {
				if d := diffValue(fmt.Sprintf("%s[%d]", p, j), fd, gl.Get(j), wl.Get(j)); d != "" {
					return d
				}
			}
			continue
		}
		if g.Has(fd) != w.Has(fd) {
			if g.Has(fd) {
				return fmt.Sprintf("%s: got %s, want it unset", p, show(g.Get(fd)))
			}
			return fmt.Sprintf("%s: not set, want %s", p, show(w.Get(fd)))
		}
		if g.Has(fd) {
			if d := diffValue(p, fd, g.Get(fd), w.Get(fd)); d != "" {
				return d
			}
		}
	}
	if len(g.GetUnknown()) != 0 {
		return path + ": unknown fields"
	}
	return ""
}

func show(v protoreflect.Value) string {
	switch x := v.Interface().(type) {
	case []byte:
		return hex.EncodeToString(x)
	case protoreflect.Message:
		return fmt.Sprintf("%v", x.Interface())
	}
	return fmt.Sprintf("%v", v.Interface())
}

func diffValue(p string, fd protoreflect.FieldDescriptor, g, w protoreflect.Value) string {
	if fd.Kind() == protoreflect.MessageKind {
		return diffReflect(p, g.Message(), w.Message())
	}
	if !g.Equal(w) {
		if fd.Kind() == protoreflect.EnumKind {
			return fmt.Sprintf("%s: got %s, want %s", p, enumName(fd, g), enumName(fd, w))
		}
		return fmt.Sprintf("%s: got %s, want %s", p, show(g), show(w))
	}
	return ""
}

func enumName(fd protoreflect.FieldDescriptor, v protoreflect.Value) string {
	if e := fd.Enum().Values().ByNumber(v.Enum()); e != nil {
		return string(e.Name())
	}
	return fmt.Sprintf("number %d", v.Enum())
}

// stripRaw removes every raw_data field, as in a message an application builds.
func stripRaw(m protoreflect.Message) {
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case isRaw(fd):
			m.Clear(fd)
		case fd.IsList() && fd.Kind() == protoreflect.MessageKind:
			for i := 0; i < v.List().Len(); i++ {
				stripRaw(v.List().Get(i).Message())
			}
		case !fd.IsList() && !fd.IsMap() && fd.Kind() == protoreflect.MessageKind:
			stripRaw(v.Message())
		}
		return true
	})
}

func stripped[M proto.Message](m M) M {
	c := proto.Clone(m)
	stripRaw(c.ProtoReflect())
	return c.(M)
}

// guard catches a panic of the code under test and names the call.
func guard(c *C, t *rapid.T, what string, fn func()) {
	defer func() {
		if r := recover(); r != nil && !isRapidControl(r) {
			c.failf(t, "%s crashed: %v", what, r)
		} else if r != nil {
			panic(r)
		}
	}()
	fn()
}

func short(b []byte) string {
	if len(b) > 200 {
		return hex.EncodeToString(b[:200]) + fmt.Sprintf("... (%d bytes)", len(b))
	}
	return hex.EncodeToString(b)
}

// firstDiff describes where two byte strings part.
func firstDiff(got, want []byte) string {
	n := min(len(got), len(want))
	for i := 0; i < n; i++ {
		if got[i] != want[i] {
			return fmt.Sprintf("byte %d is %02x, want %02x (lengths %d and %d)", i, got[i], want[i], len(got), len(want))
		}
	}
	return fmt.Sprintf("length %d, want %d", len(got), len(want))
}
