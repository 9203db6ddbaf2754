package verifpbt

import (
	"bytes"
	"fmt"
	"strings"

	"golang.org/x/text/encoding/charmap"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"pgregory.net/rapid"

	"github.com/way-platform/tachograph-go/internal/dd"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
)

// The reference model of the data dictionary: every function below draws a value,
// lays it out in bytes as Appendix 1 of the Regulation defines, and returns the
// bytes with the message they must decode to.

// G draws values. With canon set it draws only values that an application could
// build itself: known codes, text without padding, one stored form per value.
type G struct {
	t     *rapid.T
	canon bool
	// encodable leaves out codes that the library reads but has no field to keep
	encodable bool
	// large makes lists longer than any real file has, about as long as their counts and lengths allow
	large bool
	// what was drawn before, by kind: real files hold the same value in many places
	seen map[string][]any
}

// again draws a value, now and then one that was drawn before.
func again[T any](g *G, kind string, draw func() T) T {
	if blank >= 0 {
		return draw()
	}
	if xs := g.seen[kind]; len(xs) > 0 && oneIn(g.t, 7, kind+".again") {
		return xs[position(g.t, len(xs), kind+".which")].(T)
	}
	v := draw()
	if g.seen == nil {
		g.seen = map[string][]any{}
	}
	g.seen[kind] = append(g.seen[kind], v)
	return v
}

type drawnText struct {
	raw   []byte
	value *ddv1.StringValue
}

func (g *G) code(tab codeTable, label string) byte {
	if g.canon {
		return gKnown(g.t, tab, label)
	}
	return gCode(g.t, tab, label)
}

var codePages = map[byte]*charmap.Charmap{
	0: charmap.ISO8859_1, 1: charmap.ISO8859_1, 2: charmap.ISO8859_2, 3: charmap.ISO8859_3,
	5: charmap.ISO8859_5, 7: charmap.ISO8859_7, 9: charmap.ISO8859_9, 13: charmap.ISO8859_13,
	15: charmap.ISO8859_15, 16: charmap.ISO8859_16, 80: charmap.KOI8R, 85: charmap.KOI8U,
}

var codePageNames = map[byte]string{
	0: "ENCODING_DEFAULT", 1: "ISO_8859_1", 2: "ISO_8859_2", 3: "ISO_8859_3", 5: "ISO_8859_5",
	7: "ISO_8859_7", 9: "ISO_8859_9", 13: "ISO_8859_13", 15: "ISO_8859_15", 16: "ISO_8859_16",
	80: "KOI8_R", 85: "KOI8_U", 255: "ENCODING_EMPTY",
}

var codePageList = []byte{0, 1, 2, 3, 5, 7, 9, 13, 15, 16, 80, 85}

func encodingOf(cp byte) ddv1.Encoding {
	if n, ok := codePageNames[cp]; ok {
		return ddv1.Encoding(enumNumber(ddv1.Encoding_ENCODING_DEFAULT.Descriptor(), n))
	}
	return ddv1.Encoding_ENCODING_UNRECOGNIZED
}

// letters of a code page that stand for themselves at either end of a text.
func pageLetters(cp byte) []byte {
	cm, ok := codePages[cp]
	var out []byte
	for b := 0x21; b <= 0xFF; b++ {
		if b == 0x7F || b == 0x9A && (cp == 80 || cp == 85) || b > 0x7F && b <= 0xA0 && cp != 80 && cp != 85 {
			continue
		}
		if !ok && b >= 0x80 {
			continue
		}
		if ok && cm.DecodeByte(byte(b)) == '\uFFFD' {
			continue
		}
		out = append(out, byte(b))
	}
	return out
}

var lettersByPage = func() map[byte][]byte {
	m := map[byte][]byte{}
	for i := 0; i < 256; i++ {
		m[byte(i)] = pageLetters(byte(i))
	}
	return m
}()

// textBytes draws the content of a text field of n bytes and the text it stands for.
func (g *G) textBytes(n int, cp byte) ([]byte, string) {
	t := g.t
	if blank >= 0 && !g.canon {
		return bytes.Repeat([]byte{byte(blank)}, n), ""
	}
	kind := rapid.IntRange(0, 9).Draw(t, "text.kind")
	if blank >= 0 {
		kind = 1
	}
	if kind == 0 && !g.canon {
		fill := rapid.SampledFrom([]byte{0, ' ', 0xFF}).Draw(t, "text.fill")
		if fill == 0xFF || fill == 0 || fill == ' ' {
			return bytes.Repeat([]byte{fill}, n), ""
		}
	}
	if kind == 1 {
		return bytes.Repeat([]byte{' '}, n), ""
	}
	lo := 1
	hi := n
	m := rapid.IntRange(lo, hi).Draw(t, "text.len")
	if oneIn(t, 4, "text.full") {
		m = n
	}
	letters := lettersByPage[cp]
	x := newXS(gSeed(t, "text.seed"))
	ascii := gBool(t, "text.ascii")
	content := make([]byte, m)
	for i := range content {
		if i > 0 && i < m-1 && x.intn(7) == 0 {
			content[i] = ' '
			if cm, ok := codePages[cp]; ok && x.intn(3) == 0 {
				// inside a text any character of the page may stand
				if b := byte(0x21 + x.intn(0xDF)); cm.DecodeByte(b) != '\uFFFD' {
					content[i] = b
				}
			}
			continue
		}
		b := letters[x.intn(len(letters))]
		if ascii {
			b = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-"[x.intn(63)]
		}
		content[i] = b
	}
	if letters[len(letters)-1] == 0xFF && !ascii && oneIn(t, 8, "text.lastCode") {
		content[m-1] = 0xFF
	}
	if bytes.Count(content, []byte{0xFF}) == m {
		content[0] = 'A' // a field of nothing but 00 and FF is empty
	}
	var sb strings.Builder
	for _, b := range content {
		if cm, ok := codePages[cp]; ok {
			sb.WriteRune(cm.DecodeByte(b))
		} else {
			sb.WriteByte(b)
		}
	}
	pad := byte(' ')
	if !g.canon && oneIn(t, 4, "text.pad") {
		pad = 0
	}
	return append(content, bytes.Repeat([]byte{pad}, n-m)...), sb.String()
}

func (g *G) text(n int) ([]byte, *ddv1.StringValue) {
	d := again(g, fmt.Sprintf("text %d", n), func() drawnText {
		raw, v := g.freshText(n)
		return drawnText{raw, v}
	})
	return exact(d.raw), proto.CloneOf(d.value)
}

func (g *G) freshText(n int) ([]byte, *ddv1.StringValue) {
	cp := rapid.SampledFrom(codePageList).Draw(g.t, "codePage")
	if !g.canon {
		switch rapid.IntRange(0, 11).Draw(g.t, "codePage.kind") {
		case 0:
			cp = 255
		case 1:
			cp = gByte(g.t, "codePage.any")
		}
		if blank >= 0 {
			cp = byte(blank)
		}
	} else if blank == 0 {
		cp = 0
	}
	body, value := g.textBytes(n, cp)
	if cp == 255 {
		value = ""
	}
	raw := append([]byte{cp}, body...)
	sv := &ddv1.StringValue{}
	sv.SetRawData(raw)
	sv.SetEncoding(encodingOf(cp))
	sv.SetLength(int32(n))
	sv.SetValue(value)
	return raw, sv
}

func ia5Of(raw []byte, value string) *ddv1.Ia5StringValue {
	v := &ddv1.Ia5StringValue{}
	v.SetRawData(raw)
	v.SetLength(int32(len(raw)))
	v.SetValue(value)
	return v
}

func (g *G) ia5(n int) ([]byte, *ddv1.Ia5StringValue) {
	// Page 4 is no page of the table: its letters are the ASCII ones.
	raw, value := g.textBytes(n, 4)
	return raw, ia5Of(raw, value)
}

func (g *G) digitsIA5(n int) ([]byte, *ddv1.Ia5StringValue) {
	x := newXS(gSeed(g.t, "digits"))
	raw := make([]byte, n)
	for i := range raw {
		raw[i] = byte('0' + x.intn(10))
	}
	return raw, ia5Of(raw, string(raw))
}

func (g *G) time() ([]byte, *timestamppb.Timestamp) {
	v := again(g, "time", func() uint32 { return gU32(g.t, "time") })
	return u32(v), ts(v)
}

func (g *G) odometer() ([]byte, int32) {
	v := again(g, "odometer", func() uint32 { return gU24(g.t, "odometer") })
	return u24(v), int32(v)
}

func bcdBytes(v, n int) []byte {
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = byte(v%10 | (v/10%10)<<4)
		v /= 100
	}
	return b
}

func (g *G) bcd(n int) ([]byte, *ddv1.BcdString) {
	max := 1
	for i := 0; i < 2*n; i++ {
		max *= 10
	}
	v := rapid.OneOf(rapid.IntRange(0, max-1), rapid.SampledFrom([]int{0, 1, 9, 10, max - 1, max / 10})).Draw(g.t, "bcd")
	m := &ddv1.BcdString{}
	m.SetValue(int32(v))
	m.SetLength(int32(n))
	return bcdBytes(v, n), m
}

func (g *G) date() ([]byte, *ddv1.Date) {
	y, mo, d := gInt(g.t, 1990, 2099, "year"), gInt(g.t, 1, 12, "month"), gInt(g.t, 1, 28, "day")
	if oneIn(g.t, 5, "date.any") {
		y, mo, d = gInt(g.t, 0, 9999, "year.any"), gInt(g.t, 0, 99, "month.any"), gInt(g.t, 0, 99, "day.any")
	} else if oneIn(g.t, 8, "date.none") || blank == 0 {
		y, mo, d = 0, 0, 0
	}
	raw := cat(bcdBytes(y, 2), bcdBytes(mo, 1), bcdBytes(d, 1))
	m := &ddv1.Date{}
	m.SetRawData(raw)
	m.SetYear(int32(y))
	m.SetMonth(int32(mo))
	m.SetDay(int32(d))
	return raw, m
}

func (g *G) monthYear() ([]byte, *ddv1.MonthYear) {
	mo, y := gInt(g.t, 1, 12, "month"), gInt(g.t, 0, 99, "year2")
	if oneIn(g.t, 6, "monthYear.any") && !g.canon {
		mo = gInt(g.t, 0, 99, "month.any")
	}
	if blank == 0 {
		y = 0
		if !g.canon {
			mo = 0
		}
	}
	raw := cat(bcdBytes(mo, 1), bcdBytes(y, 1))
	m := &ddv1.MonthYear{}
	m.SetRawData(raw)
	if mo != 0 || y != 0 {
		m.SetMonth(int32(mo))
		m.SetYear(int32(2000 + y))
	}
	return raw, m
}

func (g *G) structureVersion() ([]byte, *ddv1.CardStructureVersion) {
	ma, mi := gInt(g.t, 0, 99, "major"), gInt(g.t, 0, 99, "minor")
	if gBool(g.t, "version.usual") {
		ma, mi = gInt(g.t, 0, 1, "major"), gInt(g.t, 0, 2, "minor")
	}
	raw := cat(bcdBytes(ma, 1), bcdBytes(mi, 1))
	m := &ddv1.CardStructureVersion{}
	m.SetRawData(raw)
	m.SetMajor(int32(ma))
	m.SetMinor(int32(mi))
	return raw, m
}

func aciOf(v uint16) *ddv1.ActivityChangeInfo {
	m := &ddv1.ActivityChangeInfo{}
	m.SetRawData(u16(int(v)))
	m.SetSlot(ddv1.CardSlotNumber(enumNumber(m.GetSlot().Descriptor(), tabSlot[int(v>>15&1)])))
	m.SetCrew(v>>14&1 == 1)
	m.SetInserted(v>>13&1 == 0)
	m.SetActivity(ddv1.DriverActivityValue(enumNumber(m.GetActivity().Descriptor(), tabActivity[int(v>>11&3)])))
	m.SetTimeOfChangeMinutes(int32(v & 0x7FF))
	return m
}

func (g *G) activityChange() ([]byte, *ddv1.ActivityChangeInfo) {
	v := uint16(gInt(g.t, 0, 31, "aci.flags"))<<11 | uint16(gInt(g.t, 0, 1439, "aci.minutes"))
	if oneIn(g.t, 5, "aci.any") {
		v = gU16(g.t, "aci")
	}
	if blank == 0 {
		v = 0
	}
	return u16(int(v)), aciOf(v)
}

func (g *G) controlType() ([]byte, *ddv1.ControlType) {
	b := byte(gInt(g.t, 0, 31, "control")) << 3
	if !g.canon && oneIn(g.t, 3, "control.any") {
		b = gByte(g.t, "control.byte")
	}
	m := &ddv1.ControlType{}
	m.SetRawData([]byte{b})
	m.SetCardDownloading(b&0x80 != 0)
	m.SetVuDownloading(b&0x40 != 0)
	m.SetPrinting(b&0x20 != 0)
	m.SetDisplay(b&0x10 != 0)
	m.SetCalibrationChecking(b&0x08 != 0)
	return []byte{b}, m
}

func (g *G) driverIdentification() ([]byte, *ddv1.DriverIdentification) {
	b, v := g.ia5(14)
	m := &ddv1.DriverIdentification{}
	m.SetDriverIdentificationNumber(v)
	return b, m
}

func (g *G) ownerIdentification() ([]byte, *ddv1.OwnerIdentification) {
	b, v := g.ia5(13)
	c, cv := g.ia5(1)
	r, rv := g.ia5(1)
	n, nv := g.ia5(1)
	m := &ddv1.OwnerIdentification{}
	m.SetOwnerIdentification(v)
	m.SetConsecutiveIndex(cv)
	m.SetReplacementIndex(rv)
	m.SetRenewalIndex(nv)
	return cat(b, c, r, n), m
}

func (g *G) serialNumber() ([]byte, *ddv1.ExtendedSerialNumber) {
	n := gU32(g.t, "serial")
	my, myv := g.monthYear()
	ty := g.code(tabEquipment, "equipment")
	mf := gByte(g.t, "manufacturer")
	m := &ddv1.ExtendedSerialNumber{}
	m.SetSerialNumber(int64(n))
	m.SetMonthYear(myv)
	e, _ := decodeEnum[ddv1.EquipmentType](tabEquipment, ty)
	m.SetType(ddv1.EquipmentType(e))
	m.SetManufacturerCode(int32(mf))
	return cat(u32(n), my, []byte{ty, mf}), m
}

func (g *G) fullCardNumber() ([]byte, *ddv1.FullCardNumber) {
	ty := rapid.SampledFrom([]byte{1, 2, 3, 4}).Draw(g.t, "cardType")
	st := gKnown(g.t, tabNation, "issuer")
	m := &ddv1.FullCardNumber{}
	e, _ := decodeEnum[ddv1.EquipmentType](tabEquipment, ty)
	m.SetCardType(ddv1.EquipmentType(e))
	m.SetCardIssuingMemberState(nation(st))
	var num []byte
	if ty == 1 {
		b, v := g.driverIdentification()
		r, rv := g.ia5(1)
		n, nv := g.ia5(1)
		v.SetCardReplacementIndex(rv)
		v.SetCardRenewalIndex(nv)
		m.SetDriverIdentification(v)
		num = cat(b, r, n)
	} else {
		b, v := g.ownerIdentification()
		m.SetOwnerIdentification(v)
		num = b
	}
	return cat([]byte{ty, st}, num), m
}

func (g *G) fullCardNumberAndGeneration() ([]byte, *ddv1.FullCardNumberAndGeneration) {
	b, v := g.fullCardNumber()
	gen := gKnown(g.t, tabGeneration, "generation")
	m := &ddv1.FullCardNumberAndGeneration{}
	m.SetFullCardNumber(v)
	m.SetGeneration(ddv1.Generation(gen))
	return append(b, gen), m
}

func (g *G) coordinate(limit int) ([]byte, int32) {
	v := int32(rapid.OneOf(rapid.IntRange(-limit, limit), rapid.IntRange(-0x800000, 0x7FFFFF),
		rapid.SampledFrom([]int{0, 1, -1, 0x7FFFFF, -0x800000, 0x7FFFFE})).Draw(g.t, "coordinate"))
	switch blank {
	case 0:
		v = 0
	case 0xFF:
		v = -1
	}
	return u24(uint32(v)), v
}

func (g *G) geo() ([]byte, *ddv1.GeoCoordinates) {
	la, lav := g.coordinate(90000)
	lo, lov := g.coordinate(180000)
	m := &ddv1.GeoCoordinates{}
	m.SetLatitude(lav)
	m.SetLongitude(lov)
	return cat(la, lo), m
}

func (g *G) gnssPlace() ([]byte, *ddv1.GNSSPlaceRecord) {
	tb, tv := g.time()
	acc := gByte(g.t, "accuracy")
	gb, gv := g.geo()
	m := &ddv1.GNSSPlaceRecord{}
	m.SetTimestamp(tv)
	m.SetGnssAccuracy(int32(acc))
	m.SetGeoCoordinates(gv)
	return cat(tb, []byte{acc}, gb), m
}

func (g *G) gnssPlaceAuth() ([]byte, *ddv1.GNSSPlaceAuthRecord) {
	tb, tv := g.time()
	acc := gByte(g.t, "accuracy")
	gb, gv := g.geo()
	au := g.code(tabAuth, "auth")
	m := &ddv1.GNSSPlaceAuthRecord{}
	m.SetTimestamp(tv)
	m.SetGnssAccuracy(int32(acc))
	m.SetGeoCoordinates(gv)
	e, known := decodeEnum[ddv1.PositionAuthenticationStatus](tabAuth, au)
	m.SetAuthenticationStatus(ddv1.PositionAuthenticationStatus(e))
	if !known {
		m.SetUnrecognizedAuthenticationStatus(int32(au))
	}
	return cat(tb, []byte{acc}, gb, []byte{au}), m
}

func (g *G) holderName() ([]byte, *ddv1.HolderName) {
	s, sv := g.text(35)
	f, fv := g.text(35)
	m := &ddv1.HolderName{}
	m.SetHolderSurname(sv)
	m.SetHolderFirstNames(fv)
	return cat(s, f), m
}

func (g *G) registration() ([]byte, *ddv1.VehicleRegistrationIdentification) {
	n := g.code(tabNation, "nation")
	b, v := g.text(13)
	m := &ddv1.VehicleRegistrationIdentification{}
	m.SetNation(nation(n))
	m.SetNumber(v)
	return cat([]byte{n}, b), m
}

func (g *G) specificCondition() ([]byte, *ddv1.SpecificConditionRecord) {
	tb, tv := g.time()
	ty := g.code(tabCondition, "condition")
	m := &ddv1.SpecificConditionRecord{}
	m.SetEntryTime(tv)
	e, known := decodeEnum[ddv1.SpecificConditionType](tabCondition, ty)
	m.SetSpecificConditionType(ddv1.SpecificConditionType(e))
	if !known {
		m.SetUnrecognizedSpecificConditionType(int32(ty))
	}
	return cat(tb, []byte{ty}), m
}

func (g *G) place() ([]byte, *ddv1.PlaceRecord) {
	tb, tv := g.time()
	et := g.code(tabEntry, "entryType")
	co := g.code(tabNation, "country")
	re := gByte(g.t, "region")
	ob, ov := g.odometer()
	m := &ddv1.PlaceRecord{}
	m.SetEntryTime(tv)
	e, known := decodeEnum[ddv1.EntryTypeDailyWorkPeriod](tabEntry, et)
	m.SetEntryTypeDailyWorkPeriod(ddv1.EntryTypeDailyWorkPeriod(e))
	if !known {
		m.SetUnrecognizedEntryTypeDailyWorkPeriod(int32(et))
	}
	m.SetDailyWorkPeriodCountry(nation(co))
	if tabNation[int(co)] == "" {
		m.SetUnrecognizedDailyWorkPeriodCountry(int32(co))
	}
	m.SetDailyWorkPeriodRegion([]byte{re})
	m.SetVehicleOdometerKm(ov)
	raw := cat(tb, []byte{et, co, re}, ob)
	m.SetRawData(raw)
	return raw, m
}

func (g *G) placeG2() ([]byte, *ddv1.PlaceRecordG2) {
	b, p := g.place()
	gb, gv := g.gnssPlace()
	m := &ddv1.PlaceRecordG2{}
	m.SetEntryTime(p.GetEntryTime())
	m.SetEntryTypeDailyWorkPeriod(p.GetEntryTypeDailyWorkPeriod())
	if p.HasUnrecognizedEntryTypeDailyWorkPeriod() {
		m.SetUnrecognizedEntryTypeDailyWorkPeriod(p.GetUnrecognizedEntryTypeDailyWorkPeriod())
	}
	m.SetDailyWorkPeriodCountry(p.GetDailyWorkPeriodCountry())
	if p.HasUnrecognizedDailyWorkPeriodCountry() {
		m.SetUnrecognizedDailyWorkPeriodCountry(p.GetUnrecognizedDailyWorkPeriodCountry())
	}
	m.SetDailyWorkPeriodRegion(p.GetDailyWorkPeriodRegion())
	m.SetVehicleOdometerKm(p.GetVehicleOdometerKm())
	m.SetEntryGnssPlaceRecord(gv)
	raw := cat(b, gb)
	m.SetRawData(raw)
	return raw, m
}

func (g *G) previousVehicle() ([]byte, *ddv1.PreviousVehicleInfo) {
	rb, rv := g.registration()
	tb, tv := g.time()
	m := &ddv1.PreviousVehicleInfo{}
	m.SetVehicleRegistration(rv)
	m.SetCardWithdrawalTime(tv)
	raw := cat(rb, tb)
	m.SetRawData(raw)
	return raw, m
}

func (g *G) previousVehicleG2() ([]byte, *ddv1.PreviousVehicleInfoG2) {
	b, p := g.previousVehicle()
	gen := gKnown(g.t, tabGeneration, "generation")
	m := &ddv1.PreviousVehicleInfoG2{}
	m.SetVehicleRegistration(p.GetVehicleRegistration())
	m.SetCardWithdrawalTime(p.GetCardWithdrawalTime())
	m.SetVuGeneration(ddv1.Generation(gen))
	raw := append(exact(b), gen)
	m.SetRawData(raw)
	return raw, m
}

func (g *G) vehicleRecord() ([]byte, *ddv1.CardVehicleRecord) {
	ob, ov := g.odometer()
	eb, ev := g.odometer()
	fb, fv := g.time()
	lb, lv := g.time()
	rb, rv := g.registration()
	cb, cv := g.bcd(2)
	m := &ddv1.CardVehicleRecord{}
	m.SetVehicleOdometerBeginKm(ov)
	m.SetVehicleOdometerEndKm(ev)
	m.SetVehicleFirstUse(fv)
	m.SetVehicleLastUse(lv)
	m.SetVehicleRegistration(rv)
	m.SetVuDataBlockCounter(cv)
	raw := cat(ob, eb, fb, lb, rb, cb)
	m.SetRawData(raw)
	return raw, m
}

func (g *G) vehicleRecordG2() ([]byte, *ddv1.CardVehicleRecordG2) {
	b, v := g.vehicleRecord()
	vb, vin := g.textBytes(17, 4)
	if bytes.Count(vb, []byte{0xFF}) == 17 {
		vb, vin = make([]byte, 17), ""
	}
	m := &ddv1.CardVehicleRecordG2{}
	m.SetVehicleOdometerBeginKm(v.GetVehicleOdometerBeginKm())
	m.SetVehicleOdometerEndKm(v.GetVehicleOdometerEndKm())
	m.SetVehicleFirstUse(v.GetVehicleFirstUse())
	m.SetVehicleLastUse(v.GetVehicleLastUse())
	m.SetVehicleRegistration(v.GetVehicleRegistration())
	m.SetVuDataBlockCounter(v.GetVuDataBlockCounter())
	m.SetVehicleIdentificationNumber(vin)
	raw := cat(b, vb)
	m.SetRawData(raw)
	return raw, m
}

func (g *G) cardIW() ([]byte, *ddv1.VuCardIWRecord) {
	hb, hv := g.holderName()
	nb, nv := g.fullCardNumber()
	xb, xv := g.date()
	ib, iv := g.time()
	ob, ov := g.odometer()
	sl := gKnown(g.t, tabSlot, "slot")
	wb, wv := g.time()
	qb, qv := g.odometer()
	pb, pv := g.previousVehicle()
	fl := byte(gInt(g.t, 0, 1, "manual"))
	m := &ddv1.VuCardIWRecord{}
	m.SetCardHolderName(hv)
	m.SetFullCardNumber(nv)
	m.SetCardExpiryDate(xv)
	m.SetCardInsertionTime(iv)
	m.SetOdometerAtInsertionKm(ov)
	m.SetCardSlotNumber(ddv1.CardSlotNumber(enumNumber(m.GetCardSlotNumber().Descriptor(), tabSlot[int(sl)])))
	m.SetCardWithdrawalTime(wv)
	m.SetOdometerAtWithdrawalKm(qv)
	m.SetPreviousVehicleInfo(pv)
	m.SetManualInputFlag(fl == 1)
	raw := cat(hb, nb, xb, ib, ob, []byte{sl}, wb, qb, pb, []byte{fl})
	m.SetRawData(raw)
	return raw, m
}

// ---- registry ----------------------------------------------------------------

type ddSpec struct {
	name     string
	size     int // 0 when the size is the caller's
	variable bool
	gen      func(g *G) ([]byte, proto.Message)
	dec      func(b []byte) (proto.Message, error)
	enc      func(dst []byte, m proto.Message) ([]byte, error)
}

func mk[M proto.Message](name string, size int, gen func(*G) ([]byte, M), dec func([]byte) (M, error), enc func([]byte, M) ([]byte, error)) ddSpec {
	return ddSpec{name, size, size == 0,
		func(g *G) ([]byte, proto.Message) { b, m := gen(g); return b, m },
		func(b []byte) (proto.Message, error) { m, err := dec(b); return m, err },
		func(dst []byte, m proto.Message) ([]byte, error) { return enc(dst, m.(M)) }}
}

var dopts dd.UnmarshalOptions

var ddSpecs = []ddSpec{
	mk("StringValue", 0, func(g *G) ([]byte, *ddv1.StringValue) {
		return g.text(rapid.SampledFrom([]int{13, 35, 35, 1, 60}).Draw(g.t, "size"))
	}, dopts.UnmarshalStringValue, dd.AppendStringValue),
	mk("Ia5StringValue", 0, func(g *G) ([]byte, *ddv1.Ia5StringValue) {
		return g.ia5(rapid.SampledFrom([]int{1, 2, 8, 13, 14, 16, 17, 40}).Draw(g.t, "size"))
	}, dopts.UnmarshalIa5StringValue, dd.AppendIa5StringValue),
	mk("BcdString", 0, func(g *G) ([]byte, *ddv1.BcdString) {
		return g.bcd(gInt(g.t, 1, 4, "size"))
	}, dopts.UnmarshalBcdString, dd.AppendBcdString),
	mk("TimeReal", 4, (*G).time, dopts.UnmarshalTimeReal, dd.AppendTimeReal),
	mk("OdometerShort", 3, func(g *G) ([]byte, *wrapperspb.UInt32Value) {
		b, v := g.odometer()
		return b, wrapperspb.UInt32(uint32(v))
	}, func(b []byte) (*wrapperspb.UInt32Value, error) {
		v, err := dopts.UnmarshalOdometer(b)
		return wrapperspb.UInt32(v), err
	}, func(dst []byte, m *wrapperspb.UInt32Value) ([]byte, error) {
		return dd.AppendOdometer(dst, m.GetValue()), nil
	}),
	mk("Datef", 4, (*G).date, dopts.UnmarshalDate, dd.AppendDate),
	mk("MonthYear", 2, (*G).monthYear, dopts.UnmarshalMonthYear, dd.AppendMonthYear),
	mk("CardStructureVersion", 2, (*G).structureVersion, dopts.UnmarshalCardStructureVersion, dd.AppendCardStructureVersion),
	mk("ActivityChangeInfo", 2, (*G).activityChange, dopts.UnmarshalActivityChangeInfo, dd.AppendActivityChangeInfo),
	mk("ControlType", 1, (*G).controlType, dopts.UnmarshalControlType, dd.AppendControlType),
	mk("DriverIdentification", 14, (*G).driverIdentification, dopts.UnmarshalDriverIdentification, dd.AppendDriverIdentification),
	mk("OwnerIdentification", 16, (*G).ownerIdentification, dopts.UnmarshalOwnerIdentification, dd.AppendOwnerIdentification),
	mk("ExtendedSerialNumber", 8, (*G).serialNumber, dopts.UnmarshalExtendedSerialNumber, dd.AppendExtendedSerialNumber),
	mk("FullCardNumber", 18, (*G).fullCardNumber, dopts.UnmarshalFullCardNumber, dd.AppendFullCardNumber),
	mk("FullCardNumberAndGeneration", 19, (*G).fullCardNumberAndGeneration, dopts.UnmarshalFullCardNumberAndGeneration, dd.AppendFullCardNumberAndGeneration),
	mk("GeoCoordinates", 6, (*G).geo, dopts.UnmarshalGeoCoordinates, dd.AppendGeoCoordinates),
	mk("GNSSPlaceRecord", 11, (*G).gnssPlace, dopts.UnmarshalGNSSPlaceRecord, dd.AppendGNSSPlaceRecord),
	mk("GNSSPlaceAuthRecord", 12, (*G).gnssPlaceAuth, dopts.UnmarshalGNSSPlaceAuthRecord, dd.AppendGNSSPlaceAuthRecord),
	mk("HolderName", 72, (*G).holderName, dopts.UnmarshalHolderName, dd.AppendHolderName),
	mk("VehicleRegistrationIdentification", 15, (*G).registration, dopts.UnmarshalVehicleRegistration, dd.AppendVehicleRegistration),
	mk("SpecificConditionRecord", 5, (*G).specificCondition, dopts.UnmarshalSpecificConditionRecord, dd.AppendSpecificConditionRecord),
	mk("PlaceRecord", 10, (*G).place, dopts.UnmarshalPlaceRecord, dd.AppendPlaceRecord),
	mk("PlaceRecordG2", 21, (*G).placeG2, dopts.UnmarshalPlaceRecordG2, dd.AppendPlaceRecordG2),
	mk("PreviousVehicleInfo", 19, (*G).previousVehicle, dopts.UnmarshalPreviousVehicleInfo, dd.AppendPreviousVehicleInfo),
	mk("PreviousVehicleInfoG2", 20, (*G).previousVehicleG2, dopts.UnmarshalPreviousVehicleInfoG2, dd.AppendPreviousVehicleInfoG2),
	mk("CardVehicleRecord", 31, (*G).vehicleRecord, dopts.UnmarshalCardVehicleRecord, dd.AppendCardVehicleRecord),
	mk("CardVehicleRecordG2", 48, (*G).vehicleRecordG2, dopts.UnmarshalCardVehicleRecordG2, dd.AppendCardVehicleRecordG2),
	mk("VuCardIWRecord", 129, (*G).cardIW, dopts.UnmarshalVuCardIWRecord, dd.AppendVuCardIWRecord),
}
