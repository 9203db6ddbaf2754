package verifpbt

import (
	"bytes"
	"fmt"
	"testing"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
	"pgregory.net/rapid"

	"github.com/way-platform/tachograph-go/internal/dd"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
)

const (
	testEpoch = int64(1577836800) // 2020-01-01 00:00:00 UTC
	testEnd   = int64(1735689599) // 2024-12-31 23:59:59 UTC
	oneDay    = int64(86400)
	oneHour   = int64(3600)
)

// timeSpec is a structure whose anonymised copy holds test times and rounded distances.
type timeSpec struct {
	of string // name of its anonSpec
	// times tells which bytes hold times that are replaced; whether a time is set stays.
	times func(b []byte) [][2]int
	// distances tells which bytes hold distances that are rounded to full steps of km.
	distances func(b []byte) [][2]int
	step      int
	want      func(from, got proto.Message, index int) string
}

func isTime(what string, got *timestamppb.Timestamp, want int64) string {
	if got == nil || got.GetSeconds() != want || got.GetNanos() != 0 {
		return fmt.Sprintf("%s is %v, want %d", what, got, want)
	}
	return ""
}

func first(ds ...string) string {
	for _, d := range ds {
		if d != "" {
			return d
		}
	}
	return ""
}

func isRounded(what string, got, of int32, step int32) string {
	if got%step != 0 || got-of >= step || of-got >= step {
		return fmt.Sprintf("%s is %d, the original %d", what, got, of)
	}
	return ""
}

func vehicleTimes(from, got *ddv1.CardVehicleRecord, i int) string {
	day := testEpoch + int64(i)*oneDay
	return first(
		isTime("first use", got.GetVehicleFirstUse(), day), isTime("last use", got.GetVehicleLastUse(), day+oneDay-1),
		isRounded("odometer at the begin", got.GetVehicleOdometerBeginKm(), from.GetVehicleOdometerBeginKm(), 1000),
		isRounded("odometer at the end", got.GetVehicleOdometerEndKm(), from.GetVehicleOdometerEndKm(), 1000))
}

var timeSpecs = []timeSpec{
	{of: "card Identification", times: func([]byte) [][2]int { return [][2]int{{53, 57}, {57, 61}, {61, 65}} },
		want: func(_, m proto.Message, _ int) string { return identificationTimes(m) }},
	{of: "card Identification with an owner number", times: func([]byte) [][2]int { return [][2]int{{53, 57}, {57, 61}, {61, 65}} },
		want: func(_, m proto.Message, _ int) string { return identificationTimes(m) }},
	{of: "card Vehicles_Used", times: each(2, 31, [2]int{6, 10}, [2]int{10, 14}), distances: each(2, 31, [2]int{0, 3}, [2]int{3, 6}), step: 1000,
		want: func(from, m proto.Message, _ int) string {
			was := from.(*cardv1.VehiclesUsed).GetRecords()
			for i, r := range m.(*cardv1.VehiclesUsed).GetRecords() {
				if d := vehicleTimes(was[i], r, i); d != "" {
					return fmt.Sprintf("record %d: %s", i, d)
				}
			}
			return ""
		}},
	{of: "CardVehicleRecord", times: func([]byte) [][2]int { return [][2]int{{6, 10}, {10, 14}} },
		distances: func([]byte) [][2]int { return [][2]int{{0, 3}, {3, 6}} }, step: 1000,
		want: func(from, m proto.Message, index int) string {
			return vehicleTimes(from.(*ddv1.CardVehicleRecord), m.(*ddv1.CardVehicleRecord), index)
		}},
	{of: "card Places", times: each(1, 10, [2]int{0, 4}), distances: each(1, 10, [2]int{7, 10}), step: 100,
		want: func(from, m proto.Message, _ int) string {
			was := from.(*cardv1.Places).GetRecords()
			for i, r := range m.(*cardv1.Places).GetRecords() {
				d := isRounded("odometer", r.GetVehicleOdometerKm(), was[i].GetVehicleOdometerKm(), 100)
				if was[i].GetEntryTime() != nil {
					d = first(d, isTime("time", r.GetEntryTime(), testEpoch+int64(i)*oneHour))
				}
				if d != "" {
					return fmt.Sprintf("record %d: %s", i, d)
				}
			}
			return ""
		}},
	{of: "card G2 Places", times: each(2, 21, [2]int{0, 4}, [2]int{10, 14}), distances: each(2, 21, [2]int{7, 10}), step: 100,
		want: func(from, m proto.Message, _ int) string {
			was := from.(*cardv1.PlacesG2).GetRecords()
			for i, r := range m.(*cardv1.PlacesG2).GetRecords() {
				at := testEpoch + int64(i)*oneHour
				d := isRounded("odometer", r.GetVehicleOdometerKm(), was[i].GetVehicleOdometerKm(), 100)
				if was[i].GetEntryTime() != nil {
					d = first(d, isTime("time", r.GetEntryTime(), at))
				}
				if was[i].GetEntryGnssPlaceRecord().GetTimestamp() != nil {
					d = first(d, isTime("time of the position", r.GetEntryGnssPlaceRecord().GetTimestamp(), at))
				}
				if d != "" {
					return fmt.Sprintf("record %d: %s", i, d)
				}
			}
			return ""
		}},
	{of: "PlaceRecord", distances: func([]byte) [][2]int { return [][2]int{{7, 10}} }, step: 100,
		want: func(from, m proto.Message, _ int) string {
			return isRounded("odometer", m.(*ddv1.PlaceRecord).GetVehicleOdometerKm(), from.(*ddv1.PlaceRecord).GetVehicleOdometerKm(), 100)
		}},
	{of: "PlaceRecordG2", distances: func([]byte) [][2]int { return [][2]int{{7, 10}} }, step: 100,
		want: func(from, m proto.Message, _ int) string {
			return isRounded("odometer", m.(*ddv1.PlaceRecordG2).GetVehicleOdometerKm(), from.(*ddv1.PlaceRecordG2).GetVehicleOdometerKm(), 100)
		}},
}

func identificationTimes(m proto.Message) string {
	id := m.(*cardv1.Identification)
	birth := id.GetDriverCardHolder().GetCardHolderBirthDate()
	if birth.GetYear() != 2000 || birth.GetMonth() != 1 || birth.GetDay() != 1 {
		return fmt.Sprintf("birth date is %v", birth)
	}
	cd := id.GetCard()
	return first(isTime("issue date", cd.GetCardIssueDate(), testEpoch), isTime("begin of validity", cd.GetCardValidityBegin(), testEpoch),
		isTime("expiry date", cd.GetCardExpiryDate(), testEnd))
}

// related rewrites some of the numbers at the ranges of b so that they stand in the relations
// that numbers of real records have: equal to the number before, a little more or less than it,
// on a full step, small, not set.
func related(g *G, b []byte, ranges [][2]int, step int) {
	at := ranges
	if len(at) > 12 {
		from := position(g.t, len(at)-11, "related.from")
		at = at[from : from+12]
	}
	for i, r := range at {
		field := b[r[0]:r[1]]
		v := be(field)
		prev := v
		if i > 0 {
			prev = be(b[at[i-1][0]:at[i-1][1]])
		}
		switch rapid.SampledFrom([]string{"as it is", "equal", "more", "less", "small", "full", "not set"}).Draw(g.t, "related") {
		case "equal":
			v = prev
		case "more":
			v = prev + 1 + uint64(position(g.t, 7200, "related.by"))
		case "less":
			v = prev - 1 - uint64(position(g.t, 7200, "related.by"))
		case "small":
			v = uint64(position(g.t, 2000, "related.small"))
		case "full":
			if step == 0 {
				v = v / 86400 * 86400
			} else {
				v = v / uint64(step) * uint64(step)
			}
		case "not set":
			v = 0
		}
		for k := len(field) - 1; k >= 0; k-- {
			field[k] = byte(v)
			v >>= 8
		}
	}
}

func be(b []byte) (v uint64) {
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return v
}

func be24(b []byte) int { return int(b[0])<<16 | int(b[1])<<8 | int(b[2]) }

func TestC35(t *testing.T) {
	byName := map[string]anonSpec{}
	for _, s := range anonSpecs {
		byName[s.name] = s
	}
	var subs []sub
	for _, ts := range timeSpecs {
		s, ok := byName[ts.of]
		if !ok {
			panic(ts.of)
		}
		subs = append(subs, sub{s.name, 250, 10000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			n := 0
			if s.lists {
				n = g.countBeyond(100, 2000)
			}
			a, other := s.gen(g, n), s.gen(g, n)
			if ts.times != nil {
				related(g, a, ts.times(a), 0)
				related(g, other, ts.times(other), 0)
			}
			if ts.distances != nil {
				related(g, a, ts.distances(a), ts.step)
			}
			b := exact(a)
			if ts.times != nil {
				for _, r := range ts.times(a) {
					was, is := a[r[0]:r[1]], other[r[0]:r[1]]
					if notZero(was) && notZero(is) {
						copy(b[r[0]:r[1]], is)
					}
				}
			}
			if ts.distances != nil {
				for _, r := range ts.distances(a) {
					// Within the same half step, so that either way of rounding gives the same.
					half := ts.step / 2
					km := be24(a[r[0]:r[1]])
					km = min(km/half*half+position(t, half, "km"), 0xFFFFFF)
					copy(b[r[0]:r[1]], []byte{byte(km >> 16), byte(km >> 8), byte(km)})
				}
			}
			c.in("original", a)
			c.in("other", b)
			ma, err := s.dec(a, nil)
			if err != nil {
				c.failf(t, "%s is refused: %v", s.name, err)
			}
			mb, err := s.dec(b, nil)
			if err != nil {
				c.failf(t, "%s is refused: %v", s.name, err)
			}
			if gBool(t, "built") {
				ma, mb = stripped(ma), stripped(mb)
				c.class("without original bytes")
			}
			index := gInt(t, 0, 1000, "index")
			ra, rb := anonymise(c, t, s, ma, index), anonymise(c, t, s, mb, index)
			if d := ts.want(ma, ra, index); d != "" {
				c.failf(t, "anonymised %s: %s", s.name, d)
			}
			if !proto.Equal(ra, rb) {
				c.failf(t, "%s: two originals that differ only in times, and in distances by less than they are rounded, anonymise to different results: %s", s.name, diffStrict(ra, rb))
			}
			c.class("anonymised: " + s.name)
			if !bytes.Equal(a, b) {
				c.nontrivial(cat(a, b))
			}
		}})
	}
	subs = append(subs, sub{"activity change", 250, 10000, func(t *rapid.T, c *C) {
		b := gBytes(t, 2, "change")
		c.in("change", b)
		m, err := dd.UnmarshalOptions{}.UnmarshalActivityChangeInfo(b)
		if err != nil {
			c.failf(t, "refused: %v", err)
		}
		index := gInt(t, 0, 2000, "index")
		c.in("index", index)
		r := dd.AnonymizeActivityChangeInfo(m, index)
		if got, want := int(r.GetTimeOfChangeMinutes()), index*30%1440; got != want {
			c.failf(t, "change %d is at minute %d, want %d", index, got, want)
		}
		out, err := dd.AppendActivityChangeInfo(nil, r)
		if want := u16(int(be16(b))&^0x7FF | index*30%1440); err != nil || !bytes.Equal(out, want) {
			c.failf(t, "change %x anonymises to %x, want %x, error %v", b, out, want, err)
		}
		c.class("anonymised: activity change")
		c.nontrivial(cat(b, u16(index)))
	}})
	run(t, "C35", "two originals that differ in a time or a distance", subs...)
}

func notZero(b []byte) bool {
	for _, x := range b {
		if x != 0 {
			return true
		}
	}
	return false
}

func be16(b []byte) uint16 { return uint16(b[0])<<8 | uint16(b[1]) }
