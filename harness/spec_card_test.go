package verifpbt

import (
	"fmt"
	"slices"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"

	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
)

// The reference model of a driver card: for every elementary file that the library
// decodes, the layout of Appendix 2 and the message it must decode to.

type efSpec struct {
	name   string
	fid    int
	app    byte   // appendix of the data record: 0 first generation and chip files, 2 second generation
	df     string // field of DriverCardFile, "" for the chip files
	field  string // field within the application, or of DriverCardFile
	signed bool   // carries a signature record
	gen    func(g *G) ([]byte, proto.Message)
}

func (s efSpec) gen2() bool { return s.app == 2 }

func ef[M proto.Message](name string, fid int, app byte, df, field string, signed bool, gen func(*G) ([]byte, M)) efSpec {
	return efSpec{name, fid, app, df, field, signed, func(g *G) ([]byte, proto.Message) { b, m := gen(g); return b, m }}
}

// count draws a number of records, mostly few, sometimes as many as a card holds.
func (g *G) count(most int) int {
	switch rapid.IntRange(0, 9).Draw(g.t, "count.kind") {
	case 0:
		return 0
	case 1:
		return gInt(g.t, 0, most, "count.many")
	default:
		return gInt(g.t, 1, min(6, most), "count")
	}
}

// countBeyond is count, and once in a while a count that is larger than any real file has, up to
// extreme: where a size is computed from it, a type too narrow for the product shows.
func (g *G) countBeyond(most, extreme int) int {
	if oneIn(g.t, 80, "count.beyond") || g.large && !oneIn(g.t, 3, "count.usual") {
		return most + position(g.t, extreme-most+1, "count.extreme")
	}
	return g.count(most)
}

// repeat draws n records: a few distinct ones, cycled, so that long files stay cheap.
func repeat[M proto.Message](g *G, n int, gen func(*G) ([]byte, M)) ([]byte, []M) {
	var bs [][]byte
	var ms []M
	d := min(n, 5)
	if n > 1 && oneIn(g.t, 4, "alike") {
		d = gInt(g.t, 1, 2, "distinct") // most records are the same
	}
	for i := 0; i < d; i++ {
		var b []byte
		var m M
		if oneIn(g.t, 12, "blank record") {
			b, m = blankRecord(g.t, func() ([]byte, M) { return gen(g) })
		} else {
			b, m = gen(g)
		}
		bs, ms = append(bs, b), append(ms, m)
	}
	x := newXS(uint64(n))
	var out []byte
	var msgs []M
	for i := 0; i < n; i++ {
		k := i
		if i >= d {
			k = x.intn(d)
		}
		out = append(out, bs[k]...)
		msgs = append(msgs, proto.Clone(ms[k]).(M))
	}
	return out, msgs
}

func (g *G) icc() ([]byte, *cardv1.Icc) {
	m := &cardv1.Icc{}
	cs := gKnown(g.t, tabClockStop, "clockStop")
	e, _ := decodeEnum[ddv1.ClockStopMode](tabClockStop, cs)
	m.SetClockStop(ddv1.ClockStopMode(e))
	k := &G{t: g.t, canon: true} // an unknown equipment type is refused
	sb, sv := k.serialNumber()
	m.SetCardExtendedSerialNumber(sv)
	ab, av := g.ia5(8)
	m.SetCardApprovalNumber(av)
	p := gByte(g.t, "personaliser")
	m.SetCardPersonaliserId(int32(p))
	cb, cv := g.ia5(2)
	mb, mv := g.ia5(2)
	i := gByte(g.t, "manufacturerInfo")
	em := &cardv1.Icc_EmbedderIcAssemblerId{}
	em.SetCountryCode(cv)
	em.SetModuleEmbedder(mv)
	em.SetManufacturerInformation(int32(i))
	m.SetEmbedderIcAssemblerId(em)
	id := gBytes(g.t, 2, "icIdentifier")
	m.SetIcIdentifier(id)
	return cat([]byte{cs}, sb, ab, []byte{p}, cb, mb, []byte{i}, id), m
}

func (g *G) ic() ([]byte, *cardv1.Ic) {
	m := &cardv1.Ic{}
	s, r := gBytes(g.t, 4, "icSerial"), gBytes(g.t, 4, "icReferences")
	m.SetIcSerialNumber(s)
	m.SetIcManufacturingReferences(r)
	return cat(s, r), m
}

// otherReg hides codes that cannot be encoded again where the file keeps no copy of its bytes.
func (g *G) knownNation(label string) byte {
	if g.encodable {
		return gKnown(g.t, tabNation, label)
	}
	return g.code(tabNation, label)
}

func (g *G) regOf() ([]byte, *ddv1.VehicleRegistrationIdentification) {
	n := g.knownNation("nation")
	b, v := g.text(13)
	m := &ddv1.VehicleRegistrationIdentification{}
	m.SetNation(nation(n))
	m.SetNumber(v)
	return cat([]byte{n}, b), m
}

func (g *G) equipmentKnown() (byte, ddv1.EquipmentType) {
	b := gKnown(g.t, tabEquipment, "cardType")
	if !oneIn(g.t, 3, "cardType.any") {
		b = 1
	}
	e, _ := decodeEnum[ddv1.EquipmentType](tabEquipment, b)
	return b, ddv1.EquipmentType(e)
}

func (g *G) appID() ([]byte, *cardv1.ApplicationIdentification) {
	m := &cardv1.ApplicationIdentification{}
	ty, e := g.equipmentKnown()
	vb, vv := g.structureVersion()
	ev, fa := gByte(g.t, "events"), gByte(g.t, "faults")
	al, ve := gU16(g.t, "activityLength"), gU16(g.t, "vehicles")
	pl := gByte(g.t, "places")
	d := &cardv1.ApplicationIdentification_Driver{}
	d.SetEventsPerTypeCount(int32(ev))
	d.SetFaultsPerTypeCount(int32(fa))
	d.SetActivityStructureLength(int32(al))
	d.SetCardVehicleRecordsCount(int32(ve))
	d.SetCardPlaceRecordsCount(int32(pl))
	m.SetCardType(cardv1.CardType_DRIVER_CARD)
	m.SetTypeOfTachographCardId(e)
	m.SetCardStructureVersion(vv)
	m.SetDriver(d)
	return cat([]byte{ty}, vb, []byte{ev, fa}, u16(int(al)), u16(int(ve)), []byte{pl}), m
}

func (g *G) appIDG2() ([]byte, *cardv1.ApplicationIdentificationG2) {
	m := &cardv1.ApplicationIdentificationG2{}
	ty, e := g.equipmentKnown()
	vb, vv := g.structureVersion()
	ev, fa := gByte(g.t, "events"), gByte(g.t, "faults")
	var n [6]uint16
	for i := range n {
		n[i] = gU16(g.t, fmt.Sprintf("count%d", i))
	}
	d := &cardv1.ApplicationIdentificationG2_Driver{}
	d.SetEventsPerTypeCount(int32(ev))
	d.SetFaultsPerTypeCount(int32(fa))
	d.SetActivityStructureLength(int32(n[0]))
	d.SetCardVehicleRecordsCount(int32(n[1]))
	d.SetCardPlaceRecordsCount(int32(n[2]))
	d.SetGnssAdRecordsCount(int32(n[3]))
	d.SetSpecificConditionRecordsCount(int32(n[4]))
	d.SetCardVehicleUnitRecordsCount(int32(n[5]))
	m.SetCardType(cardv1.CardType_DRIVER_CARD)
	m.SetTypeOfTachographCardId(e)
	m.SetCardStructureVersion(vv)
	m.SetDriver(d)
	b := cat([]byte{ty}, vb, []byte{ev, fa})
	for _, v := range n {
		b = append(b, u16(int(v))...)
	}
	return b, m
}

func (g *G) appIDV2() ([]byte, *cardv1.ApplicationIdentificationV2) {
	m := &cardv1.ApplicationIdentificationV2{}
	var n [5]uint16
	var b []byte
	for i := range n {
		n[i] = gU16(g.t, fmt.Sprintf("count%d", i))
		b = append(b, u16(int(n[i]))...)
	}
	d := &cardv1.ApplicationIdentificationV2_Driver{}
	d.SetLengthOfFollowingData(int32(n[0]))
	d.SetBorderCrossingRecordsCount(int32(n[1]))
	d.SetLoadUnloadRecordsCount(int32(n[2]))
	d.SetLoadTypeEntryRecordsCount(int32(n[3]))
	d.SetVuConfigurationLengthRange(int32(n[4]))
	m.SetCardType(cardv1.CardType_DRIVER_CARD)
	m.SetDriver(d)
	return b, m
}

const cardIndices = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"

func (g *G) identification() ([]byte, *cardv1.Identification) {
	m := &cardv1.Identification{}
	c := &cardv1.Identification_Card{}
	n := g.knownNation("issuer")
	c.SetCardIssuingMemberState(nation(n))
	db, dv := g.driverIdentification()
	ri := cardIndices[gInt(g.t, 0, 35, "replacement")]
	re := cardIndices[gInt(g.t, 0, 35, "renewal")]
	dv.SetCardReplacementIndex(ia5Of([]byte{ri}, string(ri)))
	dv.SetCardRenewalIndex(ia5Of([]byte{re}, string(re)))
	c.SetDriverIdentification(dv)
	ab, av := g.text(35)
	c.SetCardIssuingAuthorityName(av)
	ib, iv := g.time()
	vb, vv := g.time()
	xb, xv := g.time()
	c.SetCardIssueDate(iv)
	c.SetCardValidityBegin(vv)
	c.SetCardExpiryDate(xv)
	m.SetCard(c)
	m.SetCardType(cardv1.CardType_DRIVER_CARD)
	h := &cardv1.Identification_DriverCardHolder{}
	sb, sv := g.text(35)
	fb, fv := g.text(35)
	bb, bv := g.date()
	lb, lv := g.ia5(2)
	h.SetCardHolderSurname(sv)
	h.SetCardHolderFirstNames(fv)
	h.SetCardHolderBirthDate(bv)
	h.SetCardHolderPreferredLanguage(lv)
	m.SetDriverCardHolder(h)
	return cat([]byte{n}, db, []byte{ri, re}, ab, ib, vb, xb, sb, fb, bb, lb), m
}

func (g *G) licence() ([]byte, *cardv1.DrivingLicenceInfo) {
	m := &cardv1.DrivingLicenceInfo{}
	ab, av := g.text(35)
	n := g.knownNation("nation")
	nb, nv := g.ia5(16)
	m.SetDrivingLicenceIssuingAuthority(av)
	m.SetDrivingLicenceIssuingNation(nation(n))
	m.SetDrivingLicenceNumber(nv)
	return cat(ab, []byte{n}, nb), m
}

func (g *G) cardDownload() ([]byte, *cardv1.CardDownloadDriver) {
	b, v := g.time()
	m := &cardv1.CardDownloadDriver{}
	m.SetTimestamp(v)
	return b, m
}

// eventRecord draws a used or an unused record of the events or faults file: a record
// without a begin time, or of a type that is not in the table, is kept as bytes.
func (g *G) eventRecord() ([]byte, *cardv1.EventsData_Record) {
	ty := gCode(g.t, tabEventFault, "type")
	tb, tv := g.time()
	eb, ev := g.time()
	rb, rv := g.regOf()
	raw := cat([]byte{ty}, tb, eb, rb)
	m := &cardv1.EventsData_Record{}
	e, known := decodeEnum[ddv1.EventFaultType](tabEventFault, ty)
	if tv == nil || !known {
		if tv == nil && gBool(g.t, "blank") {
			raw = make([]byte, 24)
		}
		m.SetValid(false)
		m.SetRawData(raw)
		return raw, m
	}
	m.SetValid(true)
	m.SetEventType(ddv1.EventFaultType(e))
	m.SetEventBeginTime(tv)
	m.SetEventEndTime(ev)
	m.SetEventVehicleRegistration(rv)
	return raw, m
}

func (g *G) events() ([]byte, *cardv1.EventsData) {
	b, rs := repeat(g, g.countBeyond(72, 2700), (*G).eventRecord)
	m := &cardv1.EventsData{}
	m.SetEvents(rs)
	return b, m
}

func (g *G) faults() ([]byte, *cardv1.FaultsData) {
	b, rs := repeat(g, g.countBeyond(48, 2700), (*G).eventRecord)
	m := &cardv1.FaultsData{}
	for _, r := range rs {
		f := &cardv1.FaultsData_Record{}
		f.SetValid(r.GetValid())
		if !r.GetValid() {
			f.SetRawData(r.GetRawData())
		} else {
			f.SetFaultType(r.GetEventType())
			f.SetFaultBeginTime(r.GetEventBeginTime())
			f.SetFaultEndTime(r.GetEventEndTime())
			f.SetFaultVehicleRegistration(r.GetEventVehicleRegistration())
		}
		m.SetFaults(append(m.GetFaults(), f))
	}
	return b, m
}

func (g *G) vehicles() ([]byte, *cardv1.VehiclesUsed) {
	p := gU16(g.t, "pointer")
	b, rs := repeat(g, g.countBeyond(200, 2100), (*G).vehicleRecord)
	m := &cardv1.VehiclesUsed{}
	m.SetNewestRecordIndex(int32(p))
	m.SetRecords(rs)
	return cat(u16(int(p)), b), m
}

func (g *G) vehiclesG2() ([]byte, *cardv1.VehiclesUsedG2) {
	p := gU16(g.t, "pointer")
	b, rs := repeat(g, g.countBeyond(200, 1350), (*G).vehicleRecordG2)
	m := &cardv1.VehiclesUsedG2{}
	m.SetNewestRecordIndex(int32(p))
	m.SetRecords(rs)
	return cat(u16(int(p)), b), m
}

func (g *G) places() ([]byte, *cardv1.Places) {
	p := gByte(g.t, "pointer")
	b, rs := repeat(g, g.countBeyond(112, 6500), (*G).place)
	m := &cardv1.Places{}
	m.SetNewestRecordIndex(int32(p))
	m.SetRecords(rs)
	return cat([]byte{p}, b), m
}

func (g *G) placesG2() ([]byte, *cardv1.PlacesG2) {
	p := gU16(g.t, "pointer")
	b, rs := repeat(g, g.countBeyond(112, 3100), (*G).placeG2)
	m := &cardv1.PlacesG2{}
	m.SetNewestRecordIndex(int32(p))
	m.SetRecords(rs)
	return cat(u16(int(p)), b), m
}

func (g *G) currentUsage() ([]byte, *cardv1.CurrentUsage) {
	tb, tv := g.time()
	rb, rv := g.regOf()
	m := &cardv1.CurrentUsage{}
	m.SetSessionOpenTime(tv)
	m.SetSessionOpenVehicle(rv)
	return cat(tb, rb), m
}

func (g *G) controlActivity() ([]byte, *cardv1.ControlActivityData) {
	cb, cv := g.controlType()
	tb, tv := g.time()
	nb, nv := g.fullCardNumber()
	rb, rv := g.regOf()
	bb, bv := g.time()
	eb, ev := g.time()
	raw := cat(cb, tb, nb, rb, bb, eb)
	m := &cardv1.ControlActivityData{}
	if tv == nil {
		if gBool(g.t, "blank") {
			raw = make([]byte, 46)
		}
		m.SetValid(false)
		m.SetRawData(raw)
		return raw, m
	}
	m.SetValid(true)
	m.SetControlType(cv)
	m.SetControlTime(tv)
	n := &ddv1.FullCardNumberAndGeneration{}
	n.SetFullCardNumber(nv)
	m.SetControlCardNumber(n)
	m.SetControlVehicleRegistration(rv)
	m.SetControlDownloadPeriodBegin(bv)
	m.SetControlDownloadPeriodEnd(ev)
	return raw, m
}

func (g *G) conditions() ([]byte, *cardv1.SpecificConditions) {
	b, rs := repeat(g, g.countBeyond(56, 13000), (*G).specificCondition)
	m := &cardv1.SpecificConditions{}
	m.SetRecords(rs)
	return b, m
}

func (g *G) conditionsG2() ([]byte, *cardv1.SpecificConditionsG2) {
	p := gU16(g.t, "pointer")
	b, rs := repeat(g, g.countBeyond(112, 13000), (*G).specificCondition)
	m := &cardv1.SpecificConditionsG2{}
	m.SetNewestRecordIndex(int32(p))
	m.SetRecords(rs)
	return cat(u16(int(p)), b), m
}

func (g *G) vehicleUnits() ([]byte, *cardv1.VehicleUnitsUsed) {
	p := gU16(g.t, "pointer")
	b, rs := repeat(g, g.countBeyond(200, 6500), func(g *G) ([]byte, *cardv1.VehicleUnitsUsed_Record) {
		tb, tv := g.time()
		mf, d, v := gByte(g.t, "manufacturer"), gBytes(g.t, 1, "device"), gBytes(g.t, 4, "software")
		m := &cardv1.VehicleUnitsUsed_Record{}
		m.SetTimestamp(tv)
		m.SetManufacturerCode(int32(mf))
		m.SetDeviceId(d)
		m.SetVuSoftwareVersion(v)
		return cat(tb, []byte{mf}, d, v), m
	})
	m := &cardv1.VehicleUnitsUsed{}
	m.SetVehicleUnitPointerNewestRecord(int32(p))
	m.SetRecords(rs)
	return cat(u16(int(p)), b), m
}

func (g *G) gnssPlaces() ([]byte, *cardv1.GnssPlaces) {
	p := gU16(g.t, "pointer")
	b, rs := repeat(g, g.countBeyond(336, 3600), func(g *G) ([]byte, *cardv1.GnssPlaces_Record) {
		tb, tv := g.time()
		pb, pv := g.gnssPlace()
		ob, ov := g.odometer()
		m := &cardv1.GnssPlaces_Record{}
		m.SetTimestamp(tv)
		m.SetGnssPlaceRecord(pv)
		m.SetVehicleOdometerKm(ov)
		return cat(tb, pb, ob), m
	})
	m := &cardv1.GnssPlaces{}
	m.SetNewestRecordIndex(int32(p))
	m.SetRecords(rs)
	return cat(u16(int(p)), b), m
}

// ---- the cyclic activity log ---------------------------------------------------

// day is one daily record as the card writes it.
type day struct {
	date, counter, distance int
	changes                 []uint16
}

func (d day) size() int { return 12 + 2*len(d.changes) }

func (d day) bytes(prev int) []byte {
	b := cat(u16(prev), u16(d.size()), u32(uint32(d.date)), bcdBytes(d.counter, 2), u16(d.distance))
	for _, c := range d.changes {
		b = append(b, u16(int(c))...)
	}
	return b
}

func (d day) message(prev int) *cardv1.DriverActivityData_DailyRecord {
	m := &cardv1.DriverActivityData_DailyRecord{}
	m.SetValid(true)
	m.SetActivityPreviousRecordLength(int32(prev))
	m.SetActivityRecordLength(int32(d.size()))
	m.SetActivityRecordDate(ts(uint32(d.date)))
	c := &ddv1.BcdString{}
	c.SetValue(int32(d.counter))
	c.SetLength(2)
	m.SetActivityDailyPresenceCounter(c)
	m.SetActivityDayDistance(int32(d.distance))
	for _, v := range d.changes {
		m.SetActivityChangeInfo(append(m.GetActivityChangeInfo(), aciOf(v)))
	}
	return m
}

// ring is a reference card's activity log: new days are written after the newest one,
// and the oldest days make room.
type ring struct {
	buf  []byte
	days []day
	pos  []int // where each day starts
}

func (r *ring) put(at int, b []byte) {
	for i, x := range b {
		r.buf[(at+i)%len(r.buf)] = x
	}
}

// add writes one day the way Appendix 2 has a card do it.
func (r *ring) add(d day) {
	n := len(r.buf)
	at, prev := 0, 0
	if k := len(r.days); k > 0 {
		at, prev = (r.pos[k-1]+r.days[k-1].size())%n, r.days[k-1].size()
	} else if len(r.pos) == 1 {
		at, r.pos = r.pos[0], nil
	}
	used := func() int {
		s := 0
		for _, x := range r.days {
			s += x.size()
		}
		return s
	}
	dropped := false
	for len(r.days) > 0 && used()+d.size() > n {
		r.days, r.pos, dropped = r.days[1:], r.pos[1:], true
	}
	if len(r.days) == 0 {
		prev = 0
	}
	if dropped && len(r.days) > 0 {
		r.put(r.pos[0], []byte{0, 0}) // the oldest day has no previous one
	}
	r.put(at, d.bytes(prev))
	r.days, r.pos = append(r.days, d), append(r.pos, at)
}

func (r *ring) file() ([]byte, *cardv1.DriverActivityData) {
	m := &cardv1.DriverActivityData{}
	oldest, newest := 0, 0
	if k := len(r.days); k > 0 {
		oldest, newest = r.pos[0], r.pos[k-1]
	}
	m.SetOldestDayRecordIndex(int32(oldest))
	m.SetNewestDayRecordIndex(int32(newest))
	prev := 0
	for _, d := range r.days {
		m.SetDailyRecords(append(m.GetDailyRecords(), d.message(prev)))
		prev = d.size()
	}
	return cat(u16(oldest), u16(newest), r.buf), m
}

func gDay(x *xs, most int) day {
	d := day{date: 1104537600 + 86400*x.intn(12000), counter: x.intn(10000), distance: x.intn(1 << 16)}
	if x.intn(12) == 0 {
		d.date = []int{0, 1, 0xFFFFFFFF, 0x80000000}[x.intn(4)]
	}
	if x.intn(6) == 0 {
		d.counter = []int{0, 1, 99, 100, 9999}[x.intn(5)]
	}
	if x.intn(6) == 0 {
		d.distance = []int{0, 1, 255, 256, 65535}[x.intn(5)]
	}
	n := 1 + x.intn(most)
	if x.intn(16) == 0 {
		n = 0 // a day without a single change
	}
	minutes := 0
	for i := 0; i < n; i++ {
		flags := x.intn(32)
		// Both slots may change in one minute; and a change may be stored once more, or out of order.
		if k := len(d.changes); k > 0 && x.intn(8) == 0 {
			v := d.changes[k-1]
			switch x.intn(4) {
			case 0:
				v ^= 1 << 15
			case 1:
				v = v&0x7FF | uint16(flags<<11)
			case 2:
				v = uint16(flags<<11 | x.intn(1440))
			}
			d.changes = append(d.changes, v)
			continue
		}
		if i == 0 && x.intn(2) == 0 {
			flags = 0 // a rest from midnight with the card inserted: all bits zero
		}
		d.changes = append(d.changes, uint16(flags<<11|minutes))
		minutes += 1 + x.intn(1+(1439-minutes)/(n-i))
		if minutes > 1439 {
			break
		}
	}
	return d
}

// activityRing draws a log: its size, where it starts, and the days written to it.
func (g *G) activityRing() *ring {
	t := g.t
	n := 0
	most := 4
	switch rapid.IntRange(0, 7).Draw(t, "ring.kind") {
	case 0:
		n, most = gInt(t, 5544, 13776, "ring.size"), 240
	case 1:
		n, most = 13776, 3
	case 2:
		n, most = gInt(t, 300, 2000, "ring.size"), 40
	default:
		n = gInt(t, 24, 300, "ring.size")
	}
	if oneIn(t, 60, "ring.beyond") || g.large {
		// larger than any card's, up to what a file can hold
		n = 13777 + position(t, 65532-13777, "ring.extreme")
		most = rapid.SampledFrom([]int{1, 2, 40, 240}).Draw(t, "ring.changes")
	}
	r := &ring{buf: gBytes(t, n, "ring.old")}
	x := newXS(gSeed(t, "ring.days"))
	if r.pos = nil; true {
		start := position(t, n, "ring.start")
		if gBool(t, "ring.early start") {
			start = gInt(t, 0, n-1, "ring.start early")
		}
		r.pos = []int{start}
	}
	days := rapid.OneOf(rapid.IntRange(1, 8), rapid.IntRange(1, 60)).Draw(t, "ring.count")
	if n >= 5544 && gBool(t, "ring.full") {
		days = 2 * n / (12 + most)
	}
	// Some logs hold no more than they must: every byte of the ring is in use.
	exact := oneIn(t, 4, "ring.exact")
	for i := 0; i < days; i++ {
		d := gDay(x, most)
		// Most days of a real log follow each other.
		if k := len(r.days); k > 0 {
			last := r.days[k-1]
			switch x.intn(8) {
			case 0, 1:
				d.date = last.date + 86400
			case 2:
				d.date = last.date
			case 3:
				d = day{last.date + 86400, last.counter, last.distance, slices.Clone(last.changes)}
			case 4:
				if x.intn(4) == 0 {
					d = day{last.date, last.counter, last.distance, slices.Clone(last.changes)}
				}
			}
			d.date &= 0xFFFFFFFF
		}
		for d.size() > n {
			d.changes = d.changes[:len(d.changes)-1]
		}
		r.add(d)
	}
	if exact {
		free := n
		for _, d := range r.days {
			free -= d.size()
		}
		if free >= 14 && free%2 == 0 {
			d := day{date: 1700000000, counter: 42, distance: 7}
			for k := 0; k < (free-12)/2; k++ {
				d.changes = append(d.changes, uint16(k%32<<11|k%1440))
			}
			r.add(d)
		}
	}
	return r
}

func (g *G) activity() ([]byte, *cardv1.DriverActivityData) {
	if oneIn(g.t, 8, "ring.empty") {
		n := gInt(g.t, 14, 600, "ring.size")
		m := &cardv1.DriverActivityData{}
		m.SetOldestDayRecordIndex(0)
		m.SetNewestDayRecordIndex(0)
		return make([]byte, 4+n), m
	}
	return g.activityRing().file()
}

// ---- certificates on a card ------------------------------------------------------

func (g *G) rsaCertificate() ([]byte, *securityv1.RsaCertificate) {
	b := gBytes(g.t, 194, "certificate")
	m := &securityv1.RsaCertificate{}
	m.SetCertificateAuthorityReference(fmt.Sprint(be64(b[186:])))
	m.SetRawData(b)
	return b, m
}

func be64(b []byte) uint64 {
	var v uint64
	for _, x := range b[:8] {
		v = v<<8 | uint64(x)
	}
	return v
}

func der(tag int, parts ...[]byte) []byte {
	b := cat(parts...)
	var out []byte
	if tag > 0xFF {
		out = append(out, byte(tag>>8))
	}
	out = append(out, byte(tag))
	switch n := len(b); {
	case n < 128:
		out = append(out, byte(n))
	case n < 256:
		out = append(out, 0x81, byte(n))
	default:
		out = append(out, 0x82, byte(n>>8), byte(n))
	}
	return append(out, b...)
}

// eccCurves are the standardized domain parameters of Appendix 11, Table 1.
var eccCurves = []struct {
	name, oid string
	der       []byte
	size      int
}{
	{"NIST P-256", "1.2.840.10045.3.1.7", []byte{0x2A, 0x86, 0x48, 0xCE, 0x3D, 0x03, 0x01, 0x07}, 32},
	{"NIST P-384", "1.3.132.0.34", []byte{0x2B, 0x81, 0x04, 0x00, 0x22}, 48},
	{"NIST P-521", "1.3.132.0.35", []byte{0x2B, 0x81, 0x04, 0x00, 0x23}, 66},
	{"brainpoolP256r1", "1.3.36.3.3.2.8.1.1.7", []byte{0x2B, 0x24, 0x03, 0x03, 0x02, 0x08, 0x01, 0x01, 0x07}, 32},
	{"brainpoolP384r1", "1.3.36.3.3.2.8.1.1.11", []byte{0x2B, 0x24, 0x03, 0x03, 0x02, 0x08, 0x01, 0x01, 0x0B}, 48},
	{"brainpoolP512r1", "1.3.36.3.3.2.8.1.1.13", []byte{0x2B, 0x24, 0x03, 0x03, 0x02, 0x08, 0x01, 0x01, 0x0D}, 64},
}

// eccFields are the parts of a second-generation certificate.
type eccFields struct {
	cpi             byte
	car, cha, chr   []byte
	curve           int
	x, y            []byte
	effective, expi uint32
	r, s            []byte
}

func (f eccFields) body() []byte {
	return der(0x7F4E,
		der(0x5F29, []byte{f.cpi}), der(0x42, f.car), der(0x5F4C, f.cha),
		der(0x7F49, der(0x06, eccCurves[f.curve].der), der(0x86, []byte{4}, f.x, f.y)),
		der(0x5F20, f.chr), der(0x5F25, u32(f.effective)), der(0x5F24, u32(f.expi)))
}

func (f eccFields) bytes() []byte { return der(0x7F21, f.body(), der(0x5F37, f.r, f.s)) }

func (f eccFields) message() *securityv1.EccCertificate {
	m := &securityv1.EccCertificate{}
	m.SetCertificateProfileIdentifier(int32(f.cpi))
	m.SetCertificateAuthorityReference(fmt.Sprint(be64(f.car)))
	m.SetCertificateHolderAuthorisation(f.cha)
	p := &securityv1.EccCertificate_PublicKey{}
	p.SetDomainParametersOid(eccCurves[f.curve].oid)
	p.SetPublicPointX(f.x)
	p.SetPublicPointY(f.y)
	m.SetPublicKey(p)
	m.SetCertificateHolderReference(fmt.Sprint(be64(f.chr)))
	m.SetCertificateEffectiveDate(ts(f.effective))
	m.SetCertificateExpirationDate(ts(f.expi))
	s := &securityv1.EccCertificate_EccSignature{}
	s.SetR(f.r)
	s.SetS(f.s)
	m.SetSignature(s)
	m.SetRawData(f.bytes())
	return m
}

func (g *G) eccFields() eccFields {
	t := g.t
	f := eccFields{
		cpi: 0, car: gBytes(t, 8, "car"), cha: gBytes(t, 7, "cha"), chr: gBytes(t, 8, "chr"),
		curve: gInt(t, 0, len(eccCurves)-1, "curve"), effective: max(1, gU32(t, "effective")), expi: max(1, gU32(t, "expiry")),
	}
	n := eccCurves[f.curve].size
	f.x, f.y = gBytes(t, n, "x"), gBytes(t, n, "y")
	k := eccCurves[gInt(t, 0, len(eccCurves)-1, "signer")].size
	f.r, f.s = gBytes(t, k, "r"), gBytes(t, k, "s")
	return f
}

func (g *G) eccCertificate() ([]byte, *securityv1.EccCertificate) {
	f := g.eccFields()
	return f.bytes(), f.message()
}

func wrapRSA[M any](set func(*M, *securityv1.RsaCertificate)) func(*G) ([]byte, *M) {
	return func(g *G) ([]byte, *M) {
		b, v := g.rsaCertificate()
		m := new(M)
		set(m, v)
		return b, m
	}
}

func wrapECC[M any](set func(*M, *securityv1.EccCertificate)) func(*G) ([]byte, *M) {
	return func(g *G) ([]byte, *M) {
		b, v := g.eccCertificate()
		m := new(M)
		set(m, v)
		return b, m
	}
}

// ---- registry --------------------------------------------------------------------

const (
	df1 = "tachograph"
	df2 = "tachograph_g2"
)

// efSpecs lists the files in the order in which the library writes them.
var efSpecs = []efSpec{
	ef("ICC", 0x0002, 0, "", "icc", false, (*G).icc),
	ef("IC", 0x0005, 0, "", "ic", false, (*G).ic),
	ef("Application_Identification", 0x0501, 0, df1, "application_identification", true, (*G).appID),
	ef("Driving_Licence_Info", 0x0521, 0, df1, "driving_licence_info", true, (*G).licence),
	ef("Identification", 0x0520, 0, df1, "identification", true, (*G).identification),
	ef("Events_Data", 0x0502, 0, df1, "events_data", true, (*G).events),
	ef("Faults_Data", 0x0503, 0, df1, "faults_data", true, (*G).faults),
	ef("Driver_Activity_Data", 0x0504, 0, df1, "driver_activity_data", true, (*G).activity),
	ef("Vehicles_Used", 0x0505, 0, df1, "vehicles_used", true, (*G).vehicles),
	ef("Places", 0x0506, 0, df1, "places", true, (*G).places),
	ef("Current_Usage", 0x0507, 0, df1, "current_usage", true, (*G).currentUsage),
	ef("Control_Activity_Data", 0x0508, 0, df1, "control_activity_data", true, (*G).controlActivity),
	ef("Specific_Conditions", 0x0522, 0, df1, "specific_conditions", true, (*G).conditions),
	ef("Card_Download", 0x050E, 0, df1, "card_download", false, (*G).cardDownload),
	ef("G2 Application_Identification", 0x0501, 2, df2, "application_identification", true, (*G).appIDG2),
	ef("G2 Driving_Licence_Info", 0x0521, 2, df2, "driving_licence_info", true, (*G).licence),
	ef("G2 Identification", 0x0520, 2, df2, "identification", true, (*G).identification),
	ef("G2 Events_Data", 0x0502, 2, df2, "events_data", true, (*G).events),
	ef("G2 Faults_Data", 0x0503, 2, df2, "faults_data", true, (*G).faults),
	ef("G2 Driver_Activity_Data", 0x0504, 2, df2, "driver_activity_data", true, (*G).activity),
	ef("G2 Vehicles_Used", 0x0505, 2, df2, "vehicles_used", true, (*G).vehiclesG2),
	ef("G2 Places", 0x0506, 2, df2, "places", true, (*G).placesG2),
	ef("G2 Current_Usage", 0x0507, 2, df2, "current_usage", true, (*G).currentUsage),
	ef("G2 Control_Activity_Data", 0x0508, 2, df2, "control_activity_data", true, (*G).controlActivity),
	ef("G2 Specific_Conditions", 0x0522, 2, df2, "specific_conditions", true, (*G).conditionsG2),
	ef("G2 Card_Download", 0x050E, 2, df2, "card_download", false, (*G).cardDownload),
	ef("G2 VehicleUnits_Used", 0x0523, 2, df2, "vehicle_units_used", true, (*G).vehicleUnits),
	ef("G2 GNSS_Places", 0x0524, 2, df2, "gnss_places", true, (*G).gnssPlaces),
	ef("G2 Application_Identification_V2", 0x0525, 2, df2, "application_identification_v2", true, (*G).appIDV2),
	ef("Card_Certificate", 0xC100, 0, df1, "card_certificate", false, wrapRSA((*cardv1.CardCertificate).SetRsaCertificate)),
	ef("CA_Certificate", 0xC108, 0, df1, "ca_certificate", false, wrapRSA((*cardv1.CaCertificate).SetRsaCertificate)),
	ef("G2 CardMA_Certificate", 0xC100, 2, df2, "card_ma_certificate", false, wrapECC((*cardv1.CardMaCertificate).SetEccCertificate)),
	ef("G2 CardSignCertificate", 0xC101, 2, df2, "card_sign_certificate", false, wrapECC((*cardv1.CardSignCertificate).SetEccCertificate)),
	ef("G2 CA_Certificate", 0xC108, 2, df2, "ca_certificate", false, wrapECC((*cardv1.CaCertificateG2).SetEccCertificate)),
	ef("G2 Link_Certificate", 0xC109, 2, df2, "link_certificate", false, wrapECC((*cardv1.LinkCertificate).SetEccCertificate)),
}

func efByName(name string) efSpec {
	for _, s := range efSpecs {
		if s.name == name {
			return s
		}
	}
	panic(name)
}

func modelled(fid int, gen2 bool) (efSpec, bool) {
	for _, s := range efSpecs {
		if s.fid == fid && (s.gen2() == gen2 || s.df == "") {
			return s, true
		}
	}
	return efSpec{}, false
}

// element is one elementary file of a generated card.
type element struct {
	spec efSpec
	val  []byte
	want proto.Message
	sig  []byte // nil when the card download has none
}

func (e element) records() []rec {
	rs := []rec{{e.spec.fid, e.spec.app, e.val}}
	if e.sig != nil {
		rs = append(rs, rec{e.spec.fid, e.spec.app | 1, e.sig})
	}
	return rs
}

func (g *G) element(s efSpec) element {
	e := element{spec: s}
	e.val, e.want = s.gen(g)
	if s.signed && !oneIn(g.t, 5, "unsigned") {
		n := 128
		if s.gen2() {
			n = rapid.SampledFrom([]int{64, 96, 128, 132}).Draw(g.t, "sig.len")
		}
		if oneIn(g.t, 12, "sig.odd") {
			n = gInt(g.t, 1, 200, "sig.any")
		}
		e.sig = gBytes(g.t, n, "signature")
	}
	return e
}

// place puts the element's message, with its signature, where it belongs in a driver card.
func place(file *cardv1.DriverCardFile, e element) {
	m := file.ProtoReflect()
	if e.spec.df != "" {
		m = m.Mutable(m.Descriptor().Fields().ByName(protoreflect.Name(e.spec.df))).Message()
	}
	v := proto.Clone(e.want).ProtoReflect()
	if e.sig != nil {
		v.Set(v.Descriptor().Fields().ByName("signature"), protoreflect.ValueOfBytes(e.sig))
	}
	m.Set(m.Descriptor().Fields().ByName(protoreflect.Name(e.spec.field)), protoreflect.ValueOfMessage(v))
}

var percents = func() []int {
	p := make([]int, 100)
	for i := range p {
		p[i] = 99 - i
	}
	return p
}()

// card draws the elementary files of a driver card in the library's order.
func (g *G) card(p int) []element {
	var es []element
	for _, s := range efSpecs {
		// SampledFrom draws evenly; small numbers would come up too often in a range.
		if rapid.SampledFrom(percents).Draw(g.t, "has "+s.name) < p {
			es = append(es, g.element(s))
		}
	}
	if oneIn(g.t, 4, "same in both applications") {
		sameInBoth(es)
	}
	return es
}

// sameInBoth gives the second-generation files the content, and where it fits the signature, of
// the first-generation files that are laid out alike: a card may say the same in both applications.
func sameInBoth(es []element) {
	for i := range es {
		for j := range es {
			one, two := es[i], &es[j]
			if one.spec.df == "" || two.spec.df == "" || one.spec.df == two.spec.df || one.spec.field != two.spec.field || one.spec.gen2() ||
				one.want.ProtoReflect().Descriptor() != two.want.ProtoReflect().Descriptor() {
				continue
			}
			two.val, two.want = exact(one.val), proto.Clone(one.want)
			if one.sig != nil && two.sig != nil {
				two.sig = exact(one.sig)
			}
		}
	}
}

func shuffle(t *rapid.T, es []element) []element {
	if len(es) < 2 {
		return es
	}
	return rapid.Permutation(es).Draw(t, "order")
}

func wantCard(es []element) *cardv1.DriverCardFile {
	f := &cardv1.DriverCardFile{}
	for _, e := range es {
		place(f, e)
	}
	return f
}

func elementsFile(es []element) []byte {
	var out []byte
	for _, e := range es {
		out = append(out, recsBytes(e.records())...)
	}
	return out
}

func elementsString(es []element) string {
	s := ""
	for i, e := range es {
		if i > 0 {
			s += ", "
		}
		s += fmt.Sprintf("%s (%d bytes", e.spec.name, len(e.val))
		if e.sig != nil {
			s += fmt.Sprintf(", signature of %d", len(e.sig))
		}
		s += ")"
	}
	return s
}

// splitTLV cuts a card file into its records, independently of the library.
func splitTLV(b []byte) ([]rec, error) {
	var rs []rec
	for len(b) > 0 {
		if len(b) < 5 {
			return nil, fmt.Errorf("%d bytes are left over", len(b))
		}
		n := int(b[3])<<8 | int(b[4])
		if len(b) < 5+n {
			return nil, fmt.Errorf("a record of %d bytes has only %d", n, len(b)-5)
		}
		rs = append(rs, rec{int(b[0])<<8 | int(b[1]), b[2], exact(b[5 : 5+n])})
		b = b[5+n:]
	}
	return rs, nil
}
