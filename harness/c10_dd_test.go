package verifpbt

import (
	"bytes"
	"strings"
	"testing"

	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

func notBlank(b []byte) bool {
	for _, x := range b {
		if x != 0 && x != 0xFF && x != ' ' {
			return true
		}
	}
	return false
}

func subsPerSpec(quick, thorough int, fn func(s ddSpec) func(*rapid.T, *C)) []sub {
	var out []sub
	for _, s := range ddSpecs {
		out = append(out, sub{s.name, quick, thorough, fn(s)})
	}
	return out
}

func TestC11(t *testing.T) {
	run(t, "C11", "the bytes hold something other than padding",
		subsPerSpec(1200, 40000, func(s ddSpec) func(*rapid.T, *C) {
			return func(t *rapid.T, c *C) {
				b, want := s.gen(&G{t: t})
				c.in("bytes", b)
				in := exact(b)
				got, err := s.dec(in)
				if err != nil {
					c.failf(t, "%s is refused: %v", s.name, err)
				}
				if d := diffMsg(got, want); d != "" {
					c.failf(t, "%s decodes wrongly: %s", s.name, d)
				}
				if !bytes.Equal(in, b) {
					c.failf(t, "%s: decoding changes its input", s.name)
				}
				c.class(s.name)
				if notBlank(b) {
					c.nontrivial(b)
				}
			}
		})...)
}

// knownUnencodable names the listed finding that a value decoded from b falls under: a code
// that the message reports as unknown and has no field to keep.
func knownUnencodable(spec string, b []byte) string {
	switch spec {
	case "VehicleRegistrationIdentification":
		if _, known := tabNation[int(b[0])]; !known {
			return "unknown-nation"
		}
	case "FullCardNumber":
		if _, known := tabNation[int(b[1])]; !known {
			return "unknown-nation-card"
		}
	case "FullCardNumberAndGeneration":
		if _, known := tabNation[int(b[1])]; !known {
			return "unknown-nation-card-gen"
		}
	case "ExtendedSerialNumber":
		if _, known := tabEquipment[int(b[6])]; !known {
			return "unknown-equipment"
		}
	}
	return ""
}

func TestC10(t *testing.T) {
	probeKnown("C10", func(e knownEntry) bool {
		spec, input, _ := strings.Cut(e.Input, ":")
		for _, s := range ddSpecs {
			if s.name == spec {
				m, err := s.dec(unhex(input))
				if err != nil {
					return false
				}
				_, err = s.enc(nil, m)
				return err != nil
			}
		}
		return false
	})
	run(t, "C10", "accepted bytes that hold something other than padding, or a wrong size",
		subsPerSpec(1500, 50000, func(s ddSpec) func(*rapid.T, *C) {
			return func(t *rapid.T, c *C) {
				b, _ := s.gen(&G{t: t})
				switch rapid.IntRange(0, 5).Draw(t, "form") {
				case 0:
					b = gBytes(t, len(b), "arbitrary")
				case 1, 2:
					b = gMutate(t, b, "mutated")
				case 3:
					if s.variable {
						break
					}
					n := rapid.OneOf(rapid.IntRange(0, 2*s.size+2), rapid.SampledFrom([]int{s.size - 1, s.size + 1})).Draw(t, "size")
					if n == s.size {
						break
					}
					wrong := append(exact(b), gBytes(t, s.size+2, "more")...)[:n]
					c.in("bytes", wrong)
					if m, err := s.dec(wrong); err == nil {
						c.failf(t, "%s of %d bytes, not %d, is accepted: %v", s.name, n, s.size, m)
					}
					c.class("wrong size refused")
					c.nontrivial(wrong)
					return
				}
				c.in("bytes", b)
				m, err := s.dec(exact(b))
				if err != nil {
					c.class("refused: " + s.name)
					return
				}
				before := proto.Clone(m)
				prefix := gBytes(t, rapid.IntRange(0, 3).Draw(t, "prefix.len"), "prefix")
				dst := exact(prefix)
				if rapid.Bool().Draw(t, "room") { // left over from something else
					dst = append(dst, bytes.Repeat([]byte{0xA5}, len(b)+rapid.IntRange(0, 8).Draw(t, "spare"))...)[:len(prefix)]
				}
				out, err := s.enc(dst, m)
				if err != nil {
					if id := knownUnencodable(s.name, b); id != "" && isKnown("C10", id) {
						excluded(id)
						return
					}
					c.failf(t, "%s decodes but does not encode: %v", s.name, err)
				}
				if !bytes.HasPrefix(out, prefix) {
					c.failf(t, "%s: encoding does not append to what is there: %x, prefix %x", s.name, out, prefix)
				}
				if !bytes.Equal(out[len(prefix):], b) {
					c.failf(t, "%s comes back as %x: %s", s.name, out[len(prefix):], firstDiff(out[len(prefix):], b))
				}
				if !proto.Equal(before, m) {
					c.failf(t, "%s: encoding changes the value", s.name)
				}
				c.class("kept: " + s.name)
				if notBlank(b) {
					c.nontrivial(b)
				}
			}
		})...)
}
