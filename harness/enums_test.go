package verifpbt

import (
	"fmt"

	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"

	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
)

// Code tables of the Regulation's data dictionary (Appendix 1), by the names the
// schema gives them. They are written out here and not read from the schema's
// annotations, which are part of what is checked.
type codeTable map[int]string

func span(first int, names ...string) codeTable {
	t := codeTable{}
	for i, n := range names {
		t[first+i] = n
	}
	return t
}

func merge(ts ...codeTable) codeTable {
	out := codeTable{}
	for _, t := range ts {
		for k, v := range t {
			out[k] = v
		}
	}
	return out
}

var (
	tabNation = merge(span(1,
		"AUSTRIA", "ALBANIA", "ANDORRA", "ARMENIA", "AZERBAIJAN", "BELGIUM", "BULGARIA", "BOSNIA_HERZEGOVINA",
		"BELARUS", "SWITZERLAND", "CYPRUS", "CZECH_REPUBLIC", "GERMANY", "DENMARK", "SPAIN", "ESTONIA", "FRANCE",
		"FINLAND", "LIECHTENSTEIN", "FAROE_ISLANDS", "UNITED_KINGDOM", "GEORGIA", "GREECE", "HUNGARY", "CROATIA",
		"ITALY", "IRELAND", "ICELAND", "KAZAKHSTAN", "LUXEMBOURG", "LITHUANIA", "LATVIA", "MALTA", "MONACO", "MOLDOVA",
		"NORTH_MACEDONIA", "NORWAY", "NETHERLANDS", "PORTUGAL", "POLAND", "ROMANIA", "SAN_MARINO", "RUSSIA", "SWEDEN",
		"SLOVAKIA", "SLOVENIA", "TURKMENISTAN", "TURKEY", "UKRAINE", "VATICAN_CITY"),
		codeTable{0: "NATION_NUMERIC_DEFAULT", 53: "SERBIA", 54: "MONTENEGRO", 56: "KYRGYZ_REPUBLIC",
			253: "EUROPEAN_COMMUNITY", 254: "REST_OF_WORLD", 255: "NATION_NUMERIC_EMPTY"})
	tabEquipment = span(0, "RESERVED_MEMBER_STATE_OR_EUROPE", "DRIVER_CARD", "WORKSHOP_CARD", "CONTROL_CARD",
		"COMPANY_CARD", "MANUFACTURING_CARD", "VEHICLE_UNIT", "MOTION_SENSOR", "GNSS_FACILITY",
		"REMOTE_COMMUNICATION_MODULE", "ITS_INTERFACE_MODULE", "PLAQUE", "M1_N1_ADAPTER", "EUROPEAN_ROOT_CA",
		"MEMBER_STATE_CA", "EXTERNAL_GNSS_CONNECTION", "UNUSED", "DRIVER_CARD_SIGN", "WORKSHOP_CARD_SIGN", "VEHICLE_UNIT_SIGN")
	tabEntry         = span(0, "BEGIN", "END", "BEGIN_GNSS", "END_GNSS", "BEGIN_ITS", "END_ITS")
	tabCondition     = span(0, "RFU", "OUT_OF_SCOPE_BEGIN", "OUT_OF_SCOPE_END", "FERRY_TRAIN_CROSSING_BEGIN", "FERRY_TRAIN_CROSSING_END")
	tabAuth          = span(0, "NOT_AUTHENTICATED", "AUTHENTICATED")
	tabGeneration    = span(1, "GENERATION_1", "GENERATION_2")
	tabSlotCard      = span(0, "NO_CARD", "DRIVER_CARD_INSERTED", "WORKSHOP_CARD_INSERTED", "CONTROL_CARD_INSERTED", "COMPANY_CARD_INSERTED")
	tabSlot          = span(0, "DRIVER_SLOT", "CO_DRIVER_SLOT")
	tabActivity      = span(0, "BREAK_REST", "AVAILABILITY", "WORK", "DRIVING")
	tabPurpose       = span(0, "TEN_MOST_RECENT", "LONGEST_IN_LAST_10_DAYS", "FIVE_LONGEST_IN_LAST_365_DAYS", "LAST_IN_LAST_10_DAYS", "MOST_SERIOUS_IN_LAST_10_DAYS", "FIVE_MOST_SERIOUS_IN_LAST_365_DAYS", "FIRST_AFTER_LAST_CALIBRATION", "ACTIVE_OR_ONGOING")
	tabCalibration   = span(0, "CALIBRATION_PURPOSE_RESERVED", "ACTIVATION", "FIRST_INSTALLATION", "INSTALLATION", "PERIODIC_INSPECTION", "VRN_ENTRY_BY_COMPANY", "TIME_ADJUSTMENT")
	tabCompany       = span(1, "CARD_DOWNLOADING", "VU_DOWNLOADING", "VU_LOCK_IN", "VU_LOCK_OUT")
	tabLoad          = span(0, "NOT_DEFINED", "GOODS", "PASSENGERS")
	tabOperation     = span(1, "LOAD_OPERATION", "UNLOAD_OPERATION", "SIMULTANEOUS_LOAD_UNLOAD_OPERATION")
	tabClockStop     = span(0, "NOT_ALLOWED", "ALLOWED_NO_PREFERENCE", "ALLOWED_ONLY_HIGH_LEVEL", "ALLOWED_HIGH_LEVEL_PREFERRED", "ALLOWED_ONLY_LOW_LEVEL", "ALLOWED_LOW_LEVEL_PREFERRED")
	tabDrivingStatus = span(0, "SINGLE", "CREW")
	tabEventFault    = merge(
		span(0x00, "GENERAL_NO_FURTHER_DETAILS", "GENERAL_INSERTION_OF_NON_VALID_CARD", "GENERAL_CARD_CONFLICT", "GENERAL_TIME_OVERLAP", "GENERAL_DRIVING_WITHOUT_APPROPRIATE_CARD", "GENERAL_CARD_INSERTION_WHILE_DRIVING", "GENERAL_LAST_CARD_SESSION_NOT_CORRECTLY_CLOSED", "GENERAL_OVER_SPEEDING", "GENERAL_POWER_SUPPLY_INTERRUPTION", "GENERAL_MOTION_DATA_ERROR", "GENERAL_VEHICLE_MOTION_CONFLICT", "GENERAL_TIME_CONFLICT_GNSS_VS_VU", "GENERAL_COMM_ERROR_REMOTE_COMM_FACILITY", "GENERAL_ABSENCE_OF_POSITION_INFO_FROM_GNSS", "GENERAL_COMM_ERROR_EXTERNAL_GNSS_FACILITY", "GENERAL_GNSS_ANOMALY"),
		span(0x10, "VU_SEC_NO_FURTHER_DETAILS", "VU_SEC_MOTION_SENSOR_AUTH_FAILURE", "VU_SEC_TACHOGRAPH_CARD_AUTH_FAILURE", "VU_SEC_UNAUTHORISED_CHANGE_OF_MOTION_SENSOR", "VU_SEC_CARD_DATA_INPUT_INTEGRITY_ERROR", "VU_SEC_STORED_USER_DATA_INTEGRITY_ERROR", "VU_SEC_INTERNAL_DATA_TRANSFER_ERROR", "VU_SEC_UNAUTHORISED_CASE_OPENING", "VU_SEC_HARDWARE_SABOTAGE", "VU_SEC_TAMPER_DETECTION_OF_GNSS", "VU_SEC_EXTERNAL_GNSS_FACILITY_AUTH_FAILURE", "VU_SEC_EXTERNAL_GNSS_FACILITY_CERT_EXPIRED", "VU_SEC_INCONSISTENCY_MOTION_VS_ACTIVITY"),
		span(0x20, "SENSOR_SEC_NO_FURTHER_DETAILS", "SENSOR_SEC_AUTHENTICATION_FAILURE", "SENSOR_SEC_STORED_DATA_INTEGRITY_ERROR", "SENSOR_SEC_INTERNAL_DATA_TRANSFER_ERROR", "SENSOR_SEC_UNAUTHORISED_CASE_OPENING", "SENSOR_SEC_HARDWARE_SABOTAGE"),
		span(0x30, "FAULT_REC_EQ_NO_FURTHER_DETAILS", "FAULT_REC_EQ_VU_INTERNAL_FAULT", "FAULT_REC_EQ_PRINTER_FAULT", "FAULT_REC_EQ_DISPLAY_FAULT", "FAULT_REC_EQ_DOWNLOADING_FAULT", "FAULT_REC_EQ_SENSOR_FAULT", "FAULT_REC_EQ_INTERNAL_GNSS_RECEIVER", "FAULT_REC_EQ_EXTERNAL_GNSS_FACILITY", "FAULT_REC_EQ_REMOTE_COMM_FACILITY", "FAULT_REC_EQ_ITS_INTERFACE", "FAULT_REC_EQ_INTERNAL_SENSOR_FAULT"),
		codeTable{0x40: "FAULT_CARD_NO_FURTHER_DETAILS"})
)

func enumNumber(d protoreflect.EnumDescriptor, name string) protoreflect.EnumNumber {
	v := d.Values().ByName(protoreflect.Name(name))
	if v == nil {
		panic(fmt.Sprintf("%s has no value %s", d.FullName(), name))
	}
	return v.Number()
}

// decodeEnum is the reference decoding of a code: the value, and whether the code is in the table.
func decodeEnum[T protoreflect.Enum](tab codeTable, code byte) (protoreflect.EnumNumber, bool) {
	var zero T
	if n, ok := tab[int(code)]; ok {
		return enumNumber(zero.Descriptor(), n), true
	}
	vs := zero.Descriptor().Values()
	for i := 0; i < vs.Len(); i++ {
		n := string(vs.Get(i).Name())
		if len(n) > 13 && n[len(n)-13:] == "_UNRECOGNIZED" {
			return vs.Get(i).Number(), false
		}
	}
	return 0, false
}

// gCode draws a code, mostly a known one.
func gCode(t *rapid.T, tab codeTable, label string) byte {
	if blank >= 0 {
		return byte(blank)
	}
	if oneIn(t, 6, label+".any") {
		return gByte(t, label)
	}
	return gKnown(t, tab, label)
}

func gKnown(t *rapid.T, tab codeTable, label string) byte {
	if _, ok := tab[blank]; ok {
		return byte(blank)
	}
	known := make([]byte, 0, len(tab))
	for k := 0; k < 256; k++ {
		if _, ok := tab[k]; ok {
			known = append(known, byte(k))
		}
	}
	return rapid.SampledFrom(known).Draw(t, label)
}

func nation(code byte) ddv1.NationNumeric {
	n, _ := decodeEnum[ddv1.NationNumeric](tabNation, code)
	return ddv1.NationNumeric(n)
}
