package verifpbt

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime"
	"runtime/debug"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"

	tachograph "github.com/way-platform/tachograph-go"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
)

// cost is what one call took of the process: processor time and memory.
type cost struct {
	cpu   time.Duration
	bytes uint64
}

func (k cost) String() string {
	return fmt.Sprintf("%v, %d bytes", k.cpu.Round(time.Millisecond), k.bytes)
}

func processorTime() time.Duration {
	var r syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &r); err != nil {
		panic(err)
	}
	return time.Duration(r.Utime.Nano() + r.Stime.Nano())
}

func measure(f func()) cost {
	m, c := totalAlloc(), processorTime()
	f()
	return cost{processorTime() - c, totalAlloc() - m}
}

// Memory in proportion: what is spent on any input at most. The parser spends some 150 bytes
// for a byte of input and the encoder starts with a buffer of a megabyte.
func parseLimit(n int) uint64  { return 4<<20 + 1500*uint64(n) }
func encodeLimit(n int) uint64 { return 8<<20 + 1500*uint64(n) }

// checkCost runs f again before it complains: the first run may fill caches.
func checkCost(t *rapid.T, c *C, what string, n int, limit uint64, f func()) {
	k := measure(f)
	for i := 0; k.bytes > limit && i < 2; i++ {
		k = measure(f)
	}
	if k.bytes > limit {
		c.failf(t, "%s of %d bytes takes %d bytes of memory", what, n, k.bytes)
	}
}

// growing is a family of files of any size.
type growing struct {
	name string
	// draw fixes what one unit of the family looks like; the result builds the file of n units.
	draw func(g *G) func(n int) []byte
	most int // units of the largest file
}

func repeated(unit []byte, n int) []byte { return bytes.Repeat(unit, n) }

// ring builds an activity log of n days of one activity change each.
func ringOf(n int, changes int) []byte {
	size := 12 + 2*changes
	out := cat(u16(0), u16((n-1)*size))
	for i := 0; i < n; i++ {
		prev := size
		if i == 0 {
			prev = 0
		}
		out = cat(out, u16(prev), u16(size), binary.BigEndian.AppendUint32(nil, uint32(86400*(i+1))), u16(i%10000), u16(i))
		for k := 0; k < changes; k++ {
			out = append(out, u16(0x0800+k)...)
		}
	}
	return out
}

// arraysOf splits the body of a transfer made of record arrays.
func arraysOf(body []byte) [][]byte {
	var out [][]byte
	for len(body) >= 5 {
		n := 5 + int(binary.BigEndian.Uint16(body[1:]))*int(binary.BigEndian.Uint16(body[3:]))
		out = append(out, body[:n])
		body = body[n:]
	}
	return out
}

var families = []growing{
	{"records of another card", func(g *G) func(int) []byte {
		head := recsBytes(g.otherCard())
		unit := rec{0x4000 + gInt(g.t, 0, 0x3FFF, "file"), rapid.SampledFrom([]byte{0, 2}).Draw(g.t, "appendix"), g.random(gInt(g.t, 0, 40, "length"), "value")}.bytes()
		return func(n int) []byte { return cat(head, repeated(unit, n)) }
	}, 100000},
	{"elements of a driver card, time and again", func(g *G) func(int) []byte {
		es := g.cardFile(12)
		head := elementsFile(es)
		e := es[position(g.t, len(es), "unit")]
		if gBool(g.t, "small") {
			// A file of a size that varies, with nothing in it.
			e = element{spec: efByName("Specific_Conditions"), val: nil}
		}
		unit := recsBytes(e.records())
		return func(n int) []byte {
			n = min(n, (1<<22)/len(unit))
			return cat(head, repeated(unit, n))
		}
	}, 100000},
	{"transfers of a vehicle unit", func(g *G) func(int) []byte {
		var unit []byte
		v := g.vuFile(3)
		x := v.transfers[position(g.t, len(v.transfers), "unit")]
		if !x.single {
			unit = x.bytes()
		}
		head := v.bytes()
		return func(n int) []byte {
			if unit == nil {
				return head
			}
			n = min(n, (1<<22)/len(unit))
			return cat(head, repeated(unit, n))
		}
	}, 20000},
	{"bare transfers of a vehicle unit", func(g *G) func(int) []byte {
		// Transfers without any records, as many as there can be; of one kind or of all kinds.
		f := vuFormats[gInt(g.t, 1, 2, "format")]
		one := gBool(g.t, "one kind")
		var unit []byte
		for _, k := range f.kinds {
			if !k.single {
				x := cat([]byte{0x76, k.trep})
				for _, a := range arraysOf(k.gen(g).body) {
					x = cat(x, a[:3], u16(0))
				}
				if !one {
					unit = append(unit, x...)
				} else if unit == nil || gBool(g.t, "kind") {
					unit = x
				}
			}
		}
		var head []byte
		if gBool(g.t, "overview") {
			head = f.kinds[len(f.kinds)-5].gen(g).bytes()
		}
		return func(n int) []byte { return cat(head, repeated(unit, min(n, (1<<22)/len(unit)))) }
	}, 150000},
	{"blocks of detailed speed", func(g *G) func(int) []byte {
		block := g.random(64, "block")
		sig := g.random(128, "signature")
		return func(n int) []byte { return cat([]byte{0x76, 4}, u16(n), repeated(block, n), sig) }
	}, 60000},
	{"records of a record array", func(g *G) func(int) []byte {
		f := vuFormats[gInt(g.t, 1, 2, "format")]
		var x transfer
		for len(x.arrays) == 0 {
			x = rapid.SampledFrom(f.kinds).Draw(g.t, "transfer").gen(g)
		}
		as := arraysOf(x.body)
		at := position(g.t, len(as), "array")
		size := int(binary.BigEndian.Uint16(as[at][1:]))
		if size == 0 || size > 64 {
			size = gInt(g.t, 1, 64, "size")
		}
		record := g.random(size, "record")
		return func(n int) []byte {
			out := []byte{0x76, x.trep}
			for i, a := range as {
				if i == at {
					a = cat(a[:1], u16(size), u16(n), repeated(record, n))
				}
				out = append(out, a...)
			}
			return out
		}
	}, 60000},
	{"days of an activity log", func(g *G) func(int) []byte {
		head := rec{0x0002, 0, g.element(efByName("ICC")).val}.bytes()
		changes := gInt(g.t, 0, 3, "changes")
		app := rapid.SampledFrom([]byte{0, 2}).Draw(g.t, "generation")
		return func(n int) []byte {
			n = min(n, 65000/(12+2*changes))
			return cat(head, rec{0x0504, app, ringOf(n, changes)}.bytes())
		}
	}, 5000},
	{"vehicles of a driver card", func(g *G) func(int) []byte {
		head := rec{0x0002, 0, g.element(efByName("ICC")).val}.bytes()
		record := cat(g.random(3, "odometer"), g.random(3, "odometer end"), g.random(8, "times"), []byte{13, 1}, bytes.Repeat([]byte{'A'}, 13), u16(0x1234))
		return func(n int) []byte {
			n = min(n, 65000/len(record))
			return cat(head, rec{0x0505, 0, cat(u16(n-1), repeated(record, n))}.bytes())
		}
	}, 2000},
}

func TestC34(t *testing.T) {
	var last *tachographv1.File
	parse := func(b []byte) func() { return func() { last, _ = tachograph.UnmarshalFile(b) } }
	subs := []sub{{"any bytes", 900, 60000, func(t *rapid.T, c *C) {
		g := &G{t: t}
		b, what := g.anyBytes()
		inBytes(c, b)
		last = nil
		checkCost(t, c, "parsing", len(b), parseLimit(len(b)), parse(b))
		if f := last; f != nil {
			checkCost(t, c, "encoding a file", len(b), encodeLimit(len(b)), func() { _, _ = tachograph.MarshalFile(f) })
			c.class("parsed: " + what)
		} else {
			c.class("refused: " + what)
		}
		if len(b) > 20 {
			c.nontrivial(b)
		}
	}}}
	for _, fam := range families {
		subs = append(subs, sub{fam.name, 3, 60, func(t *rapid.T, c *C) {
			g := &G{t: t}
			build := fam.draw(g)
			most := fam.most / rapid.SampledFrom([]int{1, 1, 2, 5}).Draw(t, "share")
			few := most / 8
			big, small := build(most), build(few)
			c.in("units", most)
			c.in("size", len(big))
			c.in("size of one", len(build(1)))
			c.in("opening", big[:min(len(big), 3000)])
			// Refused files are cheap; that is fine, but of no interest.
			last = nil
			checkCost(t, c, "parsing a file", len(big), parseLimit(len(big)), parse(big))
			f := last
			grow := func(what string, large, little func()) {
				if l, s := measure(large), measure(little); l.bytes > 20*s.bytes+4<<20 {
					c.failf(t, "%s takes %v for %d bytes and %v for %d", what, l, len(big), s, len(small))
				}
				// Eight times the file may take eight times the work, and a bit. Processor time is
				// rough, so only what is slow and far off counts, and only three times in a row.
				for try := 0; ; try++ {
					runtime.GC()
					l := measure(large)
					if l.cpu < 1500*time.Millisecond {
						return
					}
					runtime.GC()
					s := measure(little)
					if l.cpu < 32*max(s.cpu, 20*time.Millisecond) {
						return
					}
					if try == 2 {
						c.failf(t, "%s takes %v for %d bytes and %v for %d", what, l, len(big), s, len(small))
					}
				}
			}
			grow("parsing a file", parse(big), parse(small))
			if f == nil {
				c.class("refused: " + fam.name)
				return
			}
			encode := func(f *tachographv1.File) func() { return func() { _, _ = tachograph.MarshalFile(f) } }
			checkCost(t, c, "encoding a file", len(big), encodeLimit(len(big)), encode(f))
			last = nil
			parse(small)()
			if last != nil {
				grow("encoding a file", encode(f), encode(last))
			}
			last = nil
			debug.FreeOSMemory()
			c.class("parsed: " + fam.name)
			c.nontrivial(big)
		}})
	}
	run(t, "C34", "an input of more than 20 bytes; a large file that parses", subs...)
}
