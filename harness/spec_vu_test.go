package verifpbt

import (
	"bytes"
	"fmt"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"

	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	vuv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/vu/v1"
)

// The reference model of vehicle-unit downloads (Appendix 7): which transfers a file of each
// generation and version holds, how each is laid out, and where it belongs in the result.

type vuFormat struct {
	field   string // of VehicleUnitFile
	gen     ddv1.Generation
	version ddv1.Version // unspecified for the first generation
	kinds   []vuKind
}

type vuKind struct {
	trep   byte
	field  string
	single bool
	gen    func(g *G) transfer
}

// transfer is one transfer of a generated file.
type transfer struct {
	trep   byte
	field  string
	single bool
	body   []byte
	sig    []byte // nil for a transfer without one
	// want is the fully decoded message, or nil when only bytes and signature are claimed
	want proto.Message
	// end of a record array (offsets into body), for record-array transfers
	arrays []int
}

func (x transfer) bytes() []byte { return cat([]byte{0x76, x.trep}, x.body) }

func (x transfer) String() string { return fmt.Sprintf("%02x (%d bytes)", x.trep, len(x.body)) }

func gSlots(g *G) (byte, ddv1.SlotCardType, ddv1.SlotCardType) {
	nib := func(label string) (byte, ddv1.SlotCardType) {
		var v byte
		if oneIn(g.t, 5, label+".any") {
			v = byte(gInt(g.t, 0, 15, label))
		} else {
			v = gKnown(g.t, tabSlotCard, label)
		}
		e, _ := decodeEnum[ddv1.SlotCardType](tabSlotCard, v)
		return v, ddv1.SlotCardType(e)
	}
	d, de := nib("driver slot")
	c, ce := nib("co-driver slot")
	return c<<4 | d, de, ce
}

// optionalCard is a card number, or the blank that is stored when there is none.
func (g *G) optionalCard() ([]byte, *ddv1.FullCardNumber) {
	if oneIn(g.t, 6, "no card") {
		return bytes.Repeat([]byte{rapid.SampledFrom([]byte{0, 0xFF}).Draw(g.t, "blank")}, 18), nil
	}
	return g.fullCardNumber()
}

func (g *G) overviewGen1() transfer {
	msc := g.random(194, "member state certificate")
	vuc := g.random(194, "vu certificate")
	vin, vinv := g.ia5(17)
	reg, regv := g.registration()
	now, nowv := g.time()
	from, fromv := g.time()
	to, tov := g.time()
	slots, ds, cs := gSlots(g)
	dt, dtv := g.time()
	dc, dcv := g.optionalCard()
	dn, dnv := g.text(35)
	m := &vuv1.OverviewGen1{}
	m.SetMemberStateCertificate(msc)
	m.SetVuCertificate(vuc)
	m.SetVehicleIdentificationNumber(vinv)
	m.SetVehicleRegistrationWithNation(regv)
	m.SetCurrentDateTime(nowv)
	p := &ddv1.DownloadablePeriod{}
	p.SetMinTime(fromv)
	p.SetMaxTime(tov)
	m.SetDownloadablePeriod(p)
	m.SetDriverSlotCard(ds)
	m.SetCoDriverSlotCard(cs)
	da := &vuv1.OverviewGen1_DownloadActivity{}
	da.SetDownloadingTime(dtv)
	da.SetFullCardNumber(dcv)
	da.SetCompanyOrWorkshopName(dnv)
	m.SetDownloadActivities([]*vuv1.OverviewGen1_DownloadActivity{da})
	nl := g.count(255)
	locks, lockv := repeat(g, nl, func(g *G) ([]byte, *vuv1.OverviewGen1_CompanyLock) {
		in, inv := g.time()
		out, outv := g.time()
		nb, nv := g.text(35)
		ab, av := g.text(35)
		cb, cv := g.optionalCard()
		l := &vuv1.OverviewGen1_CompanyLock{}
		l.SetLockInTime(inv)
		l.SetLockOutTime(outv)
		l.SetCompanyName(nv)
		l.SetCompanyAddress(av)
		l.SetCompanyCardNumber(cv)
		return cat(in, out, nb, ab, cb), l
	})
	m.SetCompanyLocks(lockv)
	nc := g.count(255)
	controls, controlv := repeat(g, nc, func(g *G) ([]byte, *vuv1.OverviewGen1_ControlActivity) {
		tb, tv := g.controlType()
		at, atv := g.time()
		cb, cv := g.optionalCard()
		b, bv := g.time()
		e, ev := g.time()
		l := &vuv1.OverviewGen1_ControlActivity{}
		l.SetControlType(tv)
		l.SetControlTime(atv)
		l.SetControlCardNumber(cv)
		l.SetDownloadPeriodBeginTime(bv)
		l.SetDownloadPeriodEndTime(ev)
		return cat(tb, at, cb, b, e), l
	})
	m.SetControlActivities(controlv)
	sig := g.random(128, "signature")
	m.SetSignature(sig)
	body := cat(msc, vuc, vin, reg, now, from, to, []byte{slots}, dt, dc, dn,
		[]byte{byte(nl)}, locks, []byte{byte(nc)}, controls, sig)
	m.SetRawData(body)
	return transfer{trep: 1, field: "overview", single: true, body: body, sig: sig, want: m}
}

// random draws n bytes, never empty of content.
func (g *G) random(n int, label string) []byte { return gBytes(g.t, n, label) }

func (g *G) activitiesGen1() transfer {
	day, dayv := g.time()
	odo, odov := g.odometer()
	m := &vuv1.ActivitiesGen1{}
	m.SetDateOfDay(dayv)
	m.SetOdometerMidnightKm(odov)
	ni := g.countBeyond(60, 700)
	iw, iwv := repeat(g, ni, (*G).cardIW)
	m.SetCardIwData(iwv)
	na := g.countBeyond(1440, 33500)
	ch, chv := repeat(g, na, (*G).activityChange)
	m.SetActivityChanges(chv)
	np := g.count(255)
	pl, plv := repeat(g, np, func(g *G) ([]byte, *vuv1.ActivitiesGen1_PlaceRecord) {
		card := g.random(18, "card")
		b, p := g.place()
		r := &vuv1.ActivitiesGen1_PlaceRecord{}
		r.SetEntryTime(p.GetEntryTime())
		r.SetEntryType(p.GetEntryTypeDailyWorkPeriod())
		r.SetCountry(p.GetDailyWorkPeriodCountry())
		r.SetRegion(p.GetDailyWorkPeriodRegion())
		r.SetOdometerKm(p.GetVehicleOdometerKm())
		return cat(card, b), r
	})
	m.SetPlaces(plv)
	nq := g.countBeyond(700, 14000)
	sc, scv := repeat(g, nq, (*G).specificCondition)
	m.SetSpecificConditions(scv)
	sig := g.random(128, "signature")
	m.SetSignature(sig)
	body := cat(day, odo, u16(ni), iw, u16(na), ch, []byte{byte(np)}, pl, u16(nq), sc, sig)
	m.SetRawData(body)
	return transfer{trep: 2, field: "activities", body: body, sig: sig, want: m}
}

func (g *G) eventsGen1() transfer {
	nf, ne, no, nt := g.count(255), g.count(255), g.count(255), g.count(255)
	sig := g.random(128, "signature")
	body := cat([]byte{byte(nf)}, g.random(nf*82, "faults"), []byte{byte(ne)}, g.random(ne*83, "events"),
		g.random(9, "overspeeding control"), []byte{byte(no)}, g.random(no*31, "overspeeding"),
		[]byte{byte(nt)}, g.random(nt*98, "time adjustments"), sig)
	return transfer{trep: 3, field: "events_and_faults", body: body, sig: sig}
}

func (g *G) speedGen1() transfer {
	extreme := 10000
	if g.large {
		extreme = 65535
	}
	n := g.countBeyond(1500, extreme)
	sig := g.random(128, "signature")
	return transfer{trep: 4, field: "detailed_speed", body: cat(u16(n), g.random(n*64, "blocks"), sig), sig: sig}
}

func (g *G) technicalGen1() transfer {
	n := g.count(255)
	sig := g.random(128, "signature")
	body := cat(g.random(116, "identification"), g.random(20, "sensor"), []byte{byte(n)}, g.random(n*167, "calibrations"), sig)
	return transfer{trep: 5, field: "technical_data", body: body, sig: sig}
}

// array draws one record array: its type, the size of a record, and its records.
type array struct {
	kind byte
	size int
}

func (g *G) array(a array) []byte {
	size := a.size
	kind := a.kind
	if oneIn(g.t, 8, "array.odd") {
		size = gInt(g.t, 0, 300, "array.size")
		kind = gByte(g.t, "array.kind")
	}
	n := 0
	kindOfCount := gInt(g.t, 0, 5, "array.count")
	if g.large && oneIn(g.t, 2, "array.large") && size > 0 {
		// as many records as the count holds, in up to some megabytes
		most := min(65535, 4200000/size)
		n = most - position(g.t, most/4+1, "array.less")
		kindOfCount = -1
	}
	switch kindOfCount {
	case 0, 1:
		n = gInt(g.t, 0, 20, "array.few")
	case 2:
		if size > 0 {
			most := min(65535, 60000/size)
			if oneIn(g.t, 4, "array.huge") {
				most = min(65535, 400000/size)
			}
			n = position(g.t, most+1, "array.many")
		} else {
			n = int(gU16(g.t, "array.empty"))
		}
	case 3, 4:
		n = 1
	case 5:
		n = 0
	}
	return cat([]byte{kind}, u16(size), u16(n), g.random(n*size, "records"))
}

// arrays is a second-generation transfer: its record arrays, the last one the signature.
func (g *G) arrays(trep byte, field string, single bool, list ...array) transfer {
	x := transfer{trep: trep, field: field, single: single}
	for _, a := range list {
		x.body = append(x.body, g.array(a)...)
		x.arrays = append(x.arrays, len(x.body))
	}
	size, n := rapid.SampledFrom([]int{64, 96, 128, 132, 65, 1, 256, 300}).Draw(g.t, "signature.size"), 1
	if oneIn(g.t, 12, "signature.empty") {
		// An unsigned transfer: no signature in the array, or one without any bytes.
		size, n = rapid.SampledFrom([]int{0, 0, 64, 128}).Draw(g.t, "signature.empty.size"), 0
		if size == 0 {
			n = gInt(g.t, 0, 1, "signature.empty.records")
		}
	}
	x.sig = g.random(size*n, "signature")
	x.body = cat(x.body, []byte{8}, u16(size), u16(n), x.sig)
	x.arrays = append(x.arrays, len(x.body))
	return x
}

// Record types as in Data Dictionary 2.120; the record sizes are the usual ones.
var (
	overviewArraysV1 = []array{{4, 204}, {4, 205}, {10, 17}, {36, 15}, {3, 4}, {7, 8}, {2, 1}, {9, 59}, {12, 99}, {11, 32}}
	overviewArraysV2 = []array{{4, 204}, {4, 205}, {10, 17}, {36, 14}, {3, 4}, {7, 8}, {2, 1}, {9, 59}, {12, 99}, {11, 32}}
	activitiesV1     = []array{{6, 4}, {5, 3}, {13, 132}, {1, 2}, {28, 41}, {22, 5}, {22, 58}}
	activitiesV2     = []array{{6, 4}, {5, 3}, {13, 132}, {1, 2}, {28, 42}, {22, 5}, {22, 59}, {34, 57}, {35, 60}}
	eventsArrays     = []array{{24, 86}, {21, 87}, {27, 9}, {26, 32}, {30, 99}}
	technicalArrays  = []array{{25, 140}, {33, 28}, {38, 28}, {12, 210}, {13, 50}, {39, 20}, {31, 90}}
)

var vuFormats = []vuFormat{
	{"gen1", ddv1.Generation_GENERATION_1, ddv1.Version_VERSION_UNSPECIFIED, []vuKind{
		{1, "overview", true, (*G).overviewGen1},
		{2, "activities", false, (*G).activitiesGen1},
		{3, "events_and_faults", false, (*G).eventsGen1},
		{4, "detailed_speed", false, (*G).speedGen1},
		{5, "technical_data", false, (*G).technicalGen1},
	}},
	{"gen2_v1", ddv1.Generation_GENERATION_2, ddv1.Version_VERSION_1, []vuKind{
		{0x21, "overview", true, func(g *G) transfer { return g.arrays(0x21, "overview", true, overviewArraysV1...) }},
		{0x22, "activities", false, func(g *G) transfer { return g.arrays(0x22, "activities", false, activitiesV1...) }},
		{0x23, "events_and_faults", false, func(g *G) transfer { return g.arrays(0x23, "events_and_faults", false, eventsArrays...) }},
		{0x24, "detailed_speed", false, (*G).speedGen2},
		{0x25, "technical_data", false, func(g *G) transfer { return g.arrays(0x25, "technical_data", false, technicalArrays...) }},
	}},
	{"gen2_v2", ddv1.Generation_GENERATION_2, ddv1.Version_VERSION_2, []vuKind{
		{0x00, "download_interface_version", true, (*G).interfaceVersion},
		{0x31, "overview", true, func(g *G) transfer { return g.arrays(0x31, "overview", true, overviewArraysV2...) }},
		{0x32, "activities", false, func(g *G) transfer { return g.arrays(0x32, "activities", false, activitiesV2...) }},
		{0x33, "events_and_faults", false, func(g *G) transfer { return g.arrays(0x33, "events_and_faults", false, eventsArrays...) }},
		{0x24, "detailed_speed", false, (*G).speedGen2},
		{0x35, "technical_data", false, func(g *G) transfer { return g.arrays(0x35, "technical_data", false, technicalArrays...) }},
	}},
}

func (g *G) speedGen2() transfer {
	return g.arrays(0x24, "detailed_speed", false, array{15, 64})
}

func (g *G) interfaceVersion() transfer {
	b := rapid.SampledFrom([]byte{1, 2}).Draw(g.t, "interface")
	m := &vuv1.DownloadInterfaceVersion{}
	m.SetGeneration(ddv1.Generation_GENERATION_2)
	m.SetVersion(ddv1.Version_VERSION_2)
	m.SetRawData([]byte{b, b})
	return transfer{trep: 0, field: "download_interface_version", single: true, body: []byte{b, b}, want: m}
}

// vuFile is a generated vehicle-unit download.
type vuFile struct {
	format    *vuFormat
	transfers []transfer
}

// identifies reports whether a transfer belongs to one version only.
func (f *vuFormat) identifies(trep byte) bool { return f.field != "gen2_v2" || trep != 0x24 }

// effective is the format that a file of these transfers has: detailed speed is the same
// transfer in both versions, and a file of nothing else is of the first version.
func effective(f *vuFormat, xs []transfer) *vuFormat {
	for _, x := range xs {
		if f.identifies(x.trep) {
			return f
		}
	}
	return &vuFormats[1]
}

// vuFile draws a download of up to most transfers. In any order and number, except that
// there is one overview and one interface version at most.
func (g *G) vuFile(most int) vuFile {
	f := &vuFormats[rapid.SampledFrom([]int{0, 1, 2}).Draw(g.t, "format")]
	n := gInt(g.t, 1, most, "transfers")
	var xs []transfer
	used := map[byte]bool{}
	for i := 0; i < n; i++ {
		// The same transfer once more: a download that was repeated in part.
		if i > 0 && oneIn(g.t, 6, "same transfer") {
			if x := xs[position(g.t, len(xs), "which transfer")]; !used[x.trep] {
				if x.want != nil {
					x.want = proto.Clone(x.want)
				}
				xs = append(xs, x)
				continue
			}
		}
		var kinds []vuKind
		for _, k := range f.kinds {
			if !used[k.trep] {
				kinds = append(kinds, k)
			}
		}
		k := rapid.SampledFrom(kinds).Draw(g.t, "transfer")
		if k.single {
			used[k.trep] = true
		}
		xs = append(xs, k.gen(g))
	}
	if oneIn(g.t, 40, "many transfers") {
		// A year of days, or the same transfer sent over and over.
		var short []transfer
		for _, x := range xs {
			if !used[x.trep] && len(x.body) < 3000 {
				short = append(short, x)
			}
		}
		size := 0
		for n := position(g.t, 700, "number of transfers"); n > 0 && len(short) > 0 && size < 400000; n-- {
			x := short[n%len(short)]
			if x.want != nil {
				x.want = proto.Clone(x.want)
			}
			size += len(x.body)
			xs = append(xs, x)
		}
	}
	return vuFile{effective(f, xs), xs}
}

func (v vuFile) bytes() []byte {
	var out []byte
	for _, x := range v.transfers {
		out = append(out, x.bytes()...)
	}
	return out
}

func (v vuFile) String() string {
	s := v.format.field + ":"
	for _, x := range v.transfers {
		s += " " + x.String()
	}
	return s
}

// checkVU compares a parsed file with the transfers it was built from, or reports "".
func checkVU(got *vuv1.VehicleUnitFile, f *vuFormat, xs []transfer) string {
	if got == nil {
		return "no vehicle-unit file"
	}
	if got.GetGeneration() != f.gen {
		return fmt.Sprintf("the file is reported as %v, want %v", got.GetGeneration(), f.gen)
	}
	if got.GetVersion() != f.version {
		return fmt.Sprintf("the file is reported as %v, want %v", got.GetVersion(), f.version)
	}
	m := got.ProtoReflect()
	fds := m.Descriptor().Fields()
	for _, name := range []string{"gen1", "gen2_v1", "gen2_v2"} {
		if has := m.Has(fds.ByName(protoreflect.Name(name))); has != (name == f.field) {
			return fmt.Sprintf("%s: present %v, want %v", name, has, name == f.field)
		}
	}
	in := m.Get(fds.ByName(protoreflect.Name(f.field))).Message()
	byField := map[string][]transfer{}
	for _, x := range xs {
		byField[x.field] = append(byField[x.field], x)
	}
	for _, k := range f.kinds {
		fd := in.Descriptor().Fields().ByName(protoreflect.Name(k.field))
		want := byField[k.field]
		var msgs []protoreflect.Message
		if fd.IsList() {
			l := in.Get(fd).List()
			for i := 0; i < l.Len(); i++ {
				msgs = append(msgs, l.Get(i).Message())
			}
		} else if in.Has(fd) {
			msgs = append(msgs, in.Get(fd).Message())
		}
		if len(msgs) != len(want) {
			return fmt.Sprintf("%s: %d transfers reported, %d stored", k.field, len(msgs), len(want))
		}
		for i, x := range want {
			p := fmt.Sprintf("%s[%d]", k.field, i)
			raw := msgs[i].Get(msgs[i].Descriptor().Fields().ByName("raw_data")).Bytes()
			if !bytes.Equal(raw, x.body) {
				return p + ": bytes of the transfer: " + firstDiff(raw, x.body)
			}
			if x.sig != nil {
				s := msgs[i].Get(msgs[i].Descriptor().Fields().ByName("signature")).Bytes()
				if !bytes.Equal(s, x.sig) {
					return p + ": signature: " + firstDiff(s, x.sig)
				}
			}
			if x.want != nil {
				if d := diffMsg(msgs[i].Interface(), x.want); d != "" {
					return p + ": " + d
				}
			}
		}
	}
	return ""
}
