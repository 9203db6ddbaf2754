package verifpbt

import (
	"testing"

	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"

	"github.com/way-platform/tachograph-go/internal/dd"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
)

type enumCheck struct {
	name string
	tab  codeTable
	desc protoreflect.EnumDescriptor
	dec  func(byte) (protoreflect.EnumNumber, error)
	enc  func(protoreflect.EnumNumber) (byte, error)
}

func mkEnum[T interface {
	~int32
	protoreflect.Enum
}](tab codeTable) enumCheck {
	var zero T
	return enumCheck{string(zero.Descriptor().Name()), tab, zero.Descriptor(),
		func(b byte) (protoreflect.EnumNumber, error) {
			v, err := dd.UnmarshalEnum[T](b)
			return v.Number(), err
		},
		func(n protoreflect.EnumNumber) (byte, error) { return dd.MarshalEnum(T(n)) }}
}

var enumChecks = []enumCheck{
	mkEnum[ddv1.NationNumeric](tabNation), mkEnum[ddv1.EquipmentType](tabEquipment),
	mkEnum[ddv1.EntryTypeDailyWorkPeriod](tabEntry), mkEnum[ddv1.SpecificConditionType](tabCondition),
	mkEnum[ddv1.PositionAuthenticationStatus](tabAuth), mkEnum[ddv1.Generation](tabGeneration),
	mkEnum[ddv1.SlotCardType](tabSlotCard), mkEnum[ddv1.CardSlotNumber](tabSlot),
	mkEnum[ddv1.DriverActivityValue](tabActivity), mkEnum[ddv1.EventFaultRecordPurpose](tabPurpose),
	mkEnum[ddv1.CalibrationPurpose](tabCalibration), mkEnum[ddv1.CompanyActivityType](tabCompany),
	mkEnum[ddv1.LoadType](tabLoad), mkEnum[ddv1.OperationType](tabOperation),
	mkEnum[ddv1.ClockStopMode](tabClockStop), mkEnum[ddv1.DrivingStatus](tabDrivingStatus),
	mkEnum[ddv1.EventFaultType](tabEventFault),
}

func TestC13(t *testing.T) {
	run(t, "C13", "the code is in the table of its enumeration, or next to one that is",
		sub{"codes", 6000, 200000, func(t *rapid.T, c *C) {
			e := rapid.SampledFrom(enumChecks).Draw(t, "enumeration")
			code := gCode(t, e.tab, "code")
			c.in("enumeration", e.name)
			c.in("code", code)
			name, known := e.tab[int(code)]
			got, err := e.dec(code)
			if !known {
				if err == nil {
					c.failf(t, "%s: unknown code %d decodes to value %d", e.name, code, got)
				}
				c.class("unknown code")
				_, below := e.tab[int(code)-1]
				_, above := e.tab[int(code)+1]
				if below || above {
					c.nontrivial([]byte{code, byte(len(e.name)), e.name[0], e.name[3]})
				}
				return
			}
			if err != nil {
				c.failf(t, "%s: code %d (%s) is refused: %v", e.name, code, name, err)
			}
			if want := enumNumber(e.desc, name); got != want {
				c.failf(t, "%s: code %d decodes to number %d, want %s (%d)", e.name, code, got, name, want)
			}
			back, err := e.enc(got)
			if err != nil || back != code {
				c.failf(t, "%s: %s encodes to %d (%v), want %d", e.name, name, back, err, code)
			}
			c.class(e.name)
			c.nontrivial([]byte(e.name + name))
		}},
		sub{"values", 4000, 100000, func(t *rapid.T, c *C) {
			e := rapid.SampledFrom(enumChecks).Draw(t, "enumeration")
			n := protoreflect.EnumNumber(rapid.OneOf(rapid.Int32Range(-2, 70), rapid.Int32()).Draw(t, "number"))
			c.in("enumeration", e.name)
			c.in("number", int(n))
			code, err := e.enc(n)
			want := -1
			for k, name := range e.tab {
				if enumNumber(e.desc, name) == n {
					want = k
				}
			}
			if want < 0 {
				if err == nil {
					c.failf(t, "%s: number %d is no coded value but encodes to %d", e.name, n, code)
				}
				c.class("value without a code")
				return
			}
			if err != nil || int(code) != want {
				c.failf(t, "%s: number %d encodes to %d (%v), want %d", e.name, n, code, err, want)
			}
			c.nontrivial([]byte(e.name + e.tab[want]))
		}})
}
