package verifpbt

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"

	"github.com/way-platform/tachograph-go/internal/card"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
)

// stripSource removes the kept source bytes, except where they are the value: in a
// record that holds nothing decoded.
func stripSource(m protoreflect.Message) {
	keep := nothingDecoded(m)
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case isRaw(fd):
			if !keep {
				m.Clear(fd)
			}
		case fd.IsList() && fd.Kind() == protoreflect.MessageKind:
			for i := 0; i < v.List().Len(); i++ {
				stripSource(v.List().Get(i).Message())
			}
		case !fd.IsList() && !fd.IsMap() && fd.Kind() == protoreflect.MessageKind:
			stripSource(v.Message())
		}
		return true
	})
}

// forgetPlaces removes where the days stand in a ring, which is not part of what the log says.
func forgetPlaces(f *cardv1.DriverCardFile) {
	for _, a := range []*cardv1.DriverActivityData{f.GetTachograph().GetDriverActivityData(), f.GetTachographG2().GetDriverActivityData()} {
		if a != nil {
			a.SetOldestDayRecordIndex(0)
			a.SetNewestDayRecordIndex(0)
			prev := int32(0)
			for _, d := range a.GetDailyRecords() {
				if d.GetValid() {
					d.SetActivityPreviousRecordLength(prev)
				}
				prev = d.GetActivityRecordLength()
			}
		}
	}
}

// builtCard is the card an application would build itself to say the same as es.
func builtCard(es []element) *cardv1.DriverCardFile {
	f := proto.CloneOf(wantCard(es))
	stripSource(f.ProtoReflect())
	return f
}

func certificate(s efSpec) bool { return strings.HasSuffix(s.name, "ertificate") }

// unusedIn lists the paths of the records that hold nothing decoded.
func unusedIn(path string, m protoreflect.Message) []string {
	if nothingDecoded(m) {
		return []string{path}
	}
	var out []string
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		p := path + "." + string(fd.Name())
		switch {
		case fd.Kind() != protoreflect.MessageKind || fd.IsMap():
		case fd.IsList():
			for i := 0; i < v.List().Len(); i++ {
				out = append(out, unusedIn(fmt.Sprintf("%s[%d]", p, i), v.List().Get(i).Message())...)
			}
		default:
			out = append(out, unusedIn(p, v.Message())...)
		}
		return true
	})
	return out
}

func under(path string, roots []string) bool {
	for _, r := range roots {
		if strings.HasPrefix(path, r+".") {
			return true
		}
	}
	return false
}

// checkBuilt encodes a built card and decodes it again. A value that the card has no room
// for may be refused when refusal says so.
func checkBuilt(t *rapid.T, c *C, what string, want *cardv1.DriverCardFile, mayRefuse bool) []byte {
	return checkBuiltAs(t, c, what, want, want, mayRefuse)
}

// checkBuiltAs does the same where what is decoded says more than what was built.
func checkBuiltAs(t *rapid.T, c *C, what string, built, want *cardv1.DriverCardFile, mayRefuse bool) []byte {
	c.in("value", fmt.Sprint(built))
	out, err := card.MarshalDriverCardFile(proto.CloneOf(built))
	if err != nil {
		if mayRefuse {
			c.class("refused: " + strings.SplitN(what, " with another ", 2)[0])
			return nil
		}
		c.failf(t, "%s does not encode: %v", what, err)
	}
	got, err := decodeCard(exact(out))
	if err != nil {
		c.failf(t, "%s encodes to %.300x, which is refused: %v", what, out, err)
	}
	stripSource(got.ProtoReflect())
	want = proto.CloneOf(want)
	forgetPlaces(got)
	forgetPlaces(want)
	if d := diffMsg(got, want); d != "" {
		c.failf(t, "%s encodes to %.300x, which decodes to another value: %s", what, out, d)
	}
	return out
}

func TestC30(t *testing.T) {
	var subs []sub
	for _, s := range efSpecs {
		if certificate(s) {
			continue
		}
		activity := strings.HasSuffix(s.name, "Driver_Activity_Data")
		subs = append(subs, sub{s.name, 100, 8000, func(t *rapid.T, c *C) {
			es := []element{(&G{t: t, canon: true}).element(s)}
			c.in("file", elementsString(es))
			out := checkBuilt(t, c, s.name, builtCard(es), false)
			c.class("built: " + s.name)
			if b := elementsFile(es); !activity && !bytes.Equal(out, b) {
				c.failf(t, "%s encodes to other bytes: %s", s.name, firstDiff(out, b))
			}
			c.nontrivial(out)
		}}, sub{"any " + s.name, 100, 8000, func(t *rapid.T, c *C) {
			es := []element{(&G{t: t, canon: true}).element(s)}
			c.in("file", elementsString(es))
			want := builtCard(es)
			var ls []leaf
			leavesOf("", want.ProtoReflect(), &ls)
			unused := unusedIn("", want.ProtoReflect())
			kinds := map[string][]leaf{}
			var names []string
			for _, l := range ls {
				k := string(l.fd.FullName())
				if skipLeaf(l) || layout(l.m, l.fd) || under(l.path, unused) || strings.Contains(l.path, "card_re") {
					continue
				}
				if kinds[k] == nil {
					names = append(names, k)
				}
				kinds[k] = append(kinds[k], l)
			}
			if len(names) == 0 {
				return
			}
			k := names[position(t, len(names), "kind")]
			l := kinds[k][position(t, len(kinds[k]), "which")]
			if edges := edgesOf(l); edges != nil && oneIn(t, 6, "every limit") {
				for _, v := range edges {
					if unsayable(l, v) {
						continue
					}
					l.m.Set(l.fd, v)
					c.in("changed", l.path)
					checkBuilt(t, c, s.name+" with another "+l.path, want, true)
				}
				c.class("every limit")
				c.nontrivial([]byte(fmt.Sprint(want)))
				return
			}
			if size := octets(l); size > 0 && oneIn(t, 2, "shorter") {
				// Shorter octets stand before zeros, whatever was stored before them.
				v := gBytes(t, position(t, size, "octets"), "other bytes")
				l.m.Set(l.fd, protoreflect.ValueOfBytes(cat(v, make([]byte, size-len(v)))))
				whole := proto.CloneOf(want)
				l.m.Set(l.fd, protoreflect.ValueOfBytes(v))
				c.in("changed", l.path)
				if out := checkBuiltAs(t, c, s.name+" with shorter "+l.path, want, whole, true); out != nil {
					c.class("stored with zeros: " + string(l.fd.FullName()))
				}
				c.nontrivial([]byte(fmt.Sprint(want)))
				return
			}
			if l.fd.Kind() == protoreflect.BytesKind {
				n := len(l.m.Get(l.fd).Bytes()) + rapid.SampledFrom([]int{0, 0, 1, 2, 300}).Draw(t, "more")
				l.m.Set(l.fd, protoreflect.ValueOfBytes(gBytes(t, n, "other bytes")))
			} else {
				setLeaf(t, l)
			}
			c.in("changed", l.path)
			if out := checkBuilt(t, c, s.name+" with another "+l.path, want, true); out != nil {
				c.class("stored: " + s.name)
			}
			c.nontrivial([]byte(fmt.Sprint(want)))
		}})
	}
	subs = append(subs, sub{"whole card", 60, 4000, func(t *rapid.T, c *C) {
		g := &G{t: t, canon: true}
		var es []element
		for _, e := range g.card(rapid.SampledFrom([]int{20, 50, 80}).Draw(t, "percent")) {
			if !certificate(e.spec) {
				es = append(es, e)
			}
		}
		c.in("file", elementsString(es))
		out := checkBuilt(t, c, "the card", builtCard(es), false)
		c.classIf(len(es) > 10, "more than ten elementary files")
		if len(es) > 0 {
			c.nontrivial(out)
		}
	}})
	for _, s := range efSpecs {
		if s := s; listOf(s) != nil {
			subs = append(subs, sub{"records of " + s.name, 60, 4000, func(t *rapid.T, c *C) { checkRecords(t, c, s) }})
		}
	}
	run(t, "C30", "cards with at least one elementary file, and lists that were changed", subs...)
}

// listOf returns the field of an elementary file that holds its records.
func listOf(s efSpec) protoreflect.FieldDescriptor {
	md := (&cardv1.DriverCardFile{}).ProtoReflect().Descriptor()
	if s.df != "" {
		md = md.Fields().ByName(protoreflect.Name(s.df)).Message()
	}
	md = md.Fields().ByName(protoreflect.Name(s.field)).Message()
	for i := 0; i < md.Fields().Len(); i++ {
		if fd := md.Fields().Get(i); fd.IsList() && fd.Kind() == protoreflect.MessageKind {
			return fd
		}
	}
	return nil
}

func elementOf(f *cardv1.DriverCardFile, s efSpec) protoreflect.Message {
	m := f.ProtoReflect()
	if s.df != "" {
		m = m.Get(m.Descriptor().Fields().ByName(protoreflect.Name(s.df))).Message()
	}
	return m.Get(m.Descriptor().Fields().ByName(protoreflect.Name(s.field))).Message()
}

// checkRecords parses a card, takes records out of its list and puts built ones in.
func checkRecords(t *rapid.T, c *C, s efSpec) {
	e := (&G{t: t, encodable: true}).element(s)
	b := elementsFile([]element{e})
	c.in("file", elementsString([]element{e}))
	c.in("bytes", b)
	f, err := decodeCard(exact(b))
	if err != nil {
		c.failf(t, "%s is refused: %v", s.name, err)
	}
	fd := listOf(s)
	m := elementOf(f, s)
	donor := (&G{t: t, canon: true}).element(s)
	dm := proto.Clone(donor.want).ProtoReflect()
	stripSource(dm)
	old, add := m.Get(fd).List(), dm.Get(fd).List()
	var list []protoreflect.Value
	cut := func(l protoreflect.List, label string) (int, int) {
		from := position(t, l.Len()+1, label+".from")
		return from, from + position(t, l.Len()-from+1, label+".to")
	}
	from, to := cut(old, "out")
	first, last := cut(add, "in")
	last = min(last, first+rapid.SampledFrom([]int{0, 1, 2, 400}).Draw(t, "in.most"))
	for i := 0; i < from; i++ {
		list = append(list, old.Get(i))
	}
	for i := first; i < last; i++ {
		list = append(list, add.Get(i))
	}
	for i := to; i < old.Len(); i++ {
		list = append(list, old.Get(i))
	}
	c.in("change", fmt.Sprintf("records %d to %d of %d give way to %d built ones", from, to, old.Len(), last-first))
	fresh := m.NewField(fd)
	for _, v := range list {
		fresh.List().Append(protoreflect.ValueOfMessage(proto.Clone(v.Message().Interface()).ProtoReflect()))
	}
	m.Set(fd, fresh)
	want := proto.CloneOf(f)
	ring, need := -1, 0
	if a, ok := m.Interface().(*cardv1.DriverActivityData); ok {
		ring = len(a.GetRawData())
		for _, d := range a.GetDailyRecords() {
			if d.GetValid() {
				need += 12 + 2*len(d.GetActivityChangeInfo())
			} else {
				need += len(d.GetRawData())
			}
		}
	}
	out, err := card.MarshalDriverCardFile(f)
	if err != nil {
		if ring >= 0 && need > ring {
			c.class("no room for the days")
			return
		}
		c.failf(t, "%s with other records does not encode: %v", s.name, err)
	}
	got, err := decodeCard(exact(out))
	if err != nil {
		c.failf(t, "%s with other records encodes to %.300x, which is refused: %v", s.name, out, err)
	}
	if ring >= 0 && len(out) != len(b) {
		c.failf(t, "other days change the size of the ring: %d bytes, not %d", len(out), len(b))
	}
	for _, x := range []*cardv1.DriverCardFile{got, want} {
		stripSource(x.ProtoReflect())
		forgetPlaces(x)
		if a, ok := elementOf(x, s).Interface().(*cardv1.DriverActivityData); ok {
			for _, d := range a.GetDailyRecords() {
				d.SetActivityRecordLength(0) // unused entries need not be kept
				d.SetActivityPreviousRecordLength(0)
				if raw := d.GetRawData(); len(raw) >= 4 {
					d.SetRawData(raw[4:])
				}
			}
		}
	}
	if d := diffMsg(got, want); d != "" {
		c.failf(t, "%s with other records encodes to %.300x, which decodes to other values: %s", s.name, out, d)
	}
	c.classIf(last > first && to > from, "records replaced")
	c.classIf(last > first && to == from, "records added")
	c.classIf(last == first && to > from, "records removed")
	if last > first || to > from {
		c.nontrivial(out)
	}
}

// octets is how many octets a leaf holds, 0 if it holds something else.
func octets(l leaf) int {
	if l.fd.Kind() != protoreflect.BytesKind {
		return 0
	}
	return len(l.m.Get(l.fd).Bytes())
}
