From e9ce56377228f339743a6f526d426a5899a627c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 01/52] fix: read card file records of any length a record
 header can state

---
 internal/card/rawcardfile.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/card/rawcardfile.go b/internal/card/rawcardfile.go
index 9de8894..daba03f 100644
--- a/internal/card/rawcardfile.go
+++ b/internal/card/rawcardfile.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"io"
+	"math"
 
 	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
 	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
@@ -14,6 +15,8 @@ import (
 func UnmarshalRawCardFile(input []byte) (*cardv1.RawCardFile, error) {
 	var output cardv1.RawCardFile
 	sc := bufio.NewScanner(bytes.NewReader(input))
+	// A record can be larger than bufio.MaxScanTokenSize: 5-byte header plus a value of up to 65535 bytes.
+	sc.Buffer(nil, 5+math.MaxUint16)
 	sc.Split(scanCardFile)
 	for sc.Scan() {
 		record, err := unmarshalRawCardFileRecord(sc.Bytes())
@@ -87,7 +90,7 @@ func unmarshalRawCardFileRecord(input []byte) (*cardv1.RawCardFile_Record, error
 	output.SetLength(int32(length))
 	// Parse value - make a copy since input slice may be reused by scanner
 	value := make([]byte, length)
-	copy(value, input[5:5+length])
+	copy(value, input[5:5+int(length)])
 	output.SetValue(value)
 	// Determine content type and generation based on appendix byte
 	// Per Chapter 12: Appendix encodes both content type and generation in bit pattern
-- 
2.43.0


From f859d34aff5a6931cb2832cb05280efa0ed2d23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:02 +0000
Subject: [PATCH 02/52] fix: map the issuing member state of a full card number
 through the nation code table

---
 internal/dd/full_card_number.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/dd/full_card_number.go b/internal/dd/full_card_number.go
index b68eb1d..eb9c500 100644
--- a/internal/dd/full_card_number.go
+++ b/internal/dd/full_card_number.go
@@ -45,8 +45,11 @@ func (opts UnmarshalOptions) UnmarshalFullCardNumber(data []byte) (*ddv1.FullCar
 	cardNumber.SetCardType(cardType)
 
 	// Parse issuing member state (1 byte)
-	issuingState := data[1]
-	cardNumber.SetCardIssuingMemberState(ddv1.NationNumeric(issuingState))
+	if issuingState, err := UnmarshalEnum[ddv1.NationNumeric](data[1]); err == nil {
+		cardNumber.SetCardIssuingMemberState(issuingState)
+	} else {
+		cardNumber.SetCardIssuingMemberState(ddv1.NationNumeric_NATION_NUMERIC_UNRECOGNIZED)
+	}
 
 	// Parse card number based on card type (16 bytes, may have padding)
 	cardNumberData := data[2:18]
@@ -106,7 +109,14 @@ func AppendFullCardNumber(dst []byte, cardNumber *ddv1.FullCardNumber) ([]byte,
 	dst = append(dst, cardTypeByte)
 
 	// Append issuing member state (1 byte)
-	dst = append(dst, byte(cardNumber.GetCardIssuingMemberState()))
+	var issuingState byte
+	if cardNumber.GetCardIssuingMemberState() != ddv1.NationNumeric_NATION_NUMERIC_UNSPECIFIED {
+		issuingState, err = MarshalEnum(cardNumber.GetCardIssuingMemberState())
+		if err != nil {
+			return nil, fmt.Errorf("failed to marshal card issuing member state: %w", err)
+		}
+	}
+	dst = append(dst, issuingState)
 
 	// Append card number based on card type (16 bytes with padding if needed)
 	switch cardNumber.GetCardType() {
-- 
2.43.0


From 92ffcf9e344cfc6070f7522e19491c6788264274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 03/52] fix: accept control cards in full card numbers

---
 internal/dd/full_card_number.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/dd/full_card_number.go b/internal/dd/full_card_number.go
index eb9c500..15c33c9 100644
--- a/internal/dd/full_card_number.go
+++ b/internal/dd/full_card_number.go
@@ -61,7 +61,7 @@ func (opts UnmarshalOptions) UnmarshalFullCardNumber(data []byte) (*ddv1.FullCar
 			return nil, fmt.Errorf("failed to parse driver identification: %w", err)
 		}
 		cardNumber.SetDriverIdentification(driverID)
-	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_COMPANY_CARD:
+	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_COMPANY_CARD, ddv1.EquipmentType_CONTROL_CARD:
 		// OwnerIdentification is 16 bytes (no padding)
 		ownerID, err := opts.UnmarshalOwnerIdentification(cardNumberData)
 		if err != nil {
@@ -133,7 +133,7 @@ func AppendFullCardNumber(dst []byte, cardNumber *ddv1.FullCardNumber) ([]byte,
 			// Empty driver ID: 16 zero bytes
 			dst = append(dst, make([]byte, 16)...)
 		}
-	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_COMPANY_CARD:
+	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_COMPANY_CARD, ddv1.EquipmentType_CONTROL_CARD:
 		if ownerID := cardNumber.GetOwnerIdentification(); ownerID != nil {
 			// OwnerIdentification is 16 bytes (no padding needed)
 			dst, err = AppendOwnerIdentification(dst, ownerID)
@@ -165,7 +165,7 @@ func AppendFullCardNumberAsString(dst []byte, cardNumber *ddv1.FullCardNumber, m
 		if driverID := cardNumber.GetDriverIdentification(); driverID != nil {
 			return AppendIa5StringValue(dst, driverID.GetDriverIdentificationNumber())
 		}
-	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_COMPANY_CARD:
+	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_COMPANY_CARD, ddv1.EquipmentType_CONTROL_CARD:
 		if ownerID := cardNumber.GetOwnerIdentification(); ownerID != nil {
 			return AppendIa5StringValue(dst, ownerID.GetOwnerIdentification())
 		}
-- 
2.43.0


From bafc3d26c8546622053660419962d95d79e229ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 04/52] fix: keep the replacement and renewal index of driver
 cards in full card numbers

---
 internal/dd/full_card_number.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/internal/dd/full_card_number.go b/internal/dd/full_card_number.go
index 15c33c9..920ec34 100644
--- a/internal/dd/full_card_number.go
+++ b/internal/dd/full_card_number.go
@@ -55,11 +55,21 @@ func (opts UnmarshalOptions) UnmarshalFullCardNumber(data []byte) (*ddv1.FullCar
 	cardNumberData := data[2:18]
 	switch cardType {
 	case ddv1.EquipmentType_DRIVER_CARD:
-		// DriverIdentification is 14 bytes + 2 bytes padding
+		// DriverIdentification is 14 bytes + replacement index + renewal index
 		driverID, err := opts.UnmarshalDriverIdentification(cardNumberData[:14])
 		if err != nil {
 			return nil, fmt.Errorf("failed to parse driver identification: %w", err)
 		}
+		replacementIndex, err := opts.UnmarshalIa5StringValue(cardNumberData[14:15])
+		if err != nil {
+			return nil, fmt.Errorf("failed to parse card replacement index: %w", err)
+		}
+		driverID.SetCardReplacementIndex(replacementIndex)
+		renewalIndex, err := opts.UnmarshalIa5StringValue(cardNumberData[15:16])
+		if err != nil {
+			return nil, fmt.Errorf("failed to parse card renewal index: %w", err)
+		}
+		driverID.SetCardRenewalIndex(renewalIndex)
 		cardNumber.SetDriverIdentification(driverID)
 	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_COMPANY_CARD, ddv1.EquipmentType_CONTROL_CARD:
 		// OwnerIdentification is 16 bytes (no padding)
@@ -122,13 +132,21 @@ func AppendFullCardNumber(dst []byte, cardNumber *ddv1.FullCardNumber) ([]byte,
 	switch cardNumber.GetCardType() {
 	case ddv1.EquipmentType_DRIVER_CARD:
 		if driverID := cardNumber.GetDriverIdentification(); driverID != nil {
-			// DriverIdentification is 14 bytes, pad to 16
+			// DriverIdentification is 14 bytes, followed by the two index bytes
 			dst, err = AppendDriverIdentification(dst, driverID)
 			if err != nil {
 				return nil, fmt.Errorf("failed to append driver identification: %w", err)
 			}
-			// Add 2 bytes padding
-			dst = append(dst, 0x00, 0x00)
+			for _, index := range []*ddv1.Ia5StringValue{driverID.GetCardReplacementIndex(), driverID.GetCardRenewalIndex()} {
+				if index == nil {
+					dst = append(dst, 0x00)
+					continue
+				}
+				dst, err = AppendIa5StringValue(dst, index)
+				if err != nil {
+					return nil, fmt.Errorf("failed to append card index: %w", err)
+				}
+			}
 		} else {
 			// Empty driver ID: 16 zero bytes
 			dst = append(dst, make([]byte, 16)...)
-- 
2.43.0


From 312e9a99fd745bd3bd40933c41525b4c4b64f468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 05/52] fix: keep the code page byte of strings with an
 unrecognized encoding

---
 internal/dd/string_value.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/dd/string_value.go b/internal/dd/string_value.go
index 0e51253..e32adf9 100644
--- a/internal/dd/string_value.go
+++ b/internal/dd/string_value.go
@@ -99,8 +99,11 @@ func AppendStringValue(dst []byte, sv *ddv1.StringValue) ([]byte, error) {
 		copy(canvas, raw)
 
 		// Paint only the code page byte at offset 0 (from semantic encoding field)
-		// The string data at offset 1+ is already correct in raw_data
-		canvas[0] = codePage
+		// The string data at offset 1+ is already correct in raw_data.
+		// An unrecognized encoding has no code page of its own: its byte is the one in raw_data.
+		if sv.GetEncoding() != ddv1.Encoding_ENCODING_UNRECOGNIZED {
+			canvas[0] = codePage
+		}
 
 		// Note: We do NOT re-encode from the value field because:
 		// 1. The value field is UTF-8 (for display), while raw_data is in the original encoding
-- 
2.43.0


From 2f5a1dd3f93cb1c6d8b662bc7541bdb9f0488450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 06/52] fix: keep the bytes of dates and versions that are not
 decimal digits

---
 internal/dd/card_structure_version.go | 16 ++++++++++++++--
 internal/dd/date.go                   | 16 +++++++++++++---
 internal/dd/month_year.go             | 26 +++++++++++++++-----------
 3 files changed, 42 insertions(+), 16 deletions(-)

diff --git a/internal/dd/card_structure_version.go b/internal/dd/card_structure_version.go
index ccd83be..46a83f6 100644
--- a/internal/dd/card_structure_version.go
+++ b/internal/dd/card_structure_version.go
@@ -28,8 +28,9 @@ func (opts UnmarshalOptions) UnmarshalCardStructureVersion(data []byte) (*ddv1.C
 	}
 	var output ddv1.CardStructureVersion
 	output.SetRawData(bytes.Clone(data))
-	output.SetMajor(int32((data[0]&0xF0)>>4)*10 + int32(data[0]&0x0F))
-	output.SetMinor(int32((data[1]&0xF0)>>4)*10 + int32(data[1]&0x0F))
+	major, minor := decodeCardStructureVersion(data)
+	output.SetMajor(major)
+	output.SetMinor(minor)
 	return &output, nil
 }
 
@@ -58,6 +59,10 @@ func AppendCardStructureVersion(dst []byte, csv *ddv1.CardStructureVersion) ([]b
 			)
 		}
 		copy(canvas[:], csv.GetRawData())
+		// Bytes that are no decimal digits cannot be rebuilt from the decoded values.
+		if major, minor := decodeCardStructureVersion(canvas[:]); major == csv.GetMajor() && minor == csv.GetMinor() {
+			return append(dst, canvas[:]...), nil
+		}
 	}
 	major := csv.GetMajor()
 	majorBCD := byte((major/10)<<4) | byte(major%10)
@@ -67,3 +72,10 @@ func AppendCardStructureVersion(dst []byte, csv *ddv1.CardStructureVersion) ([]b
 	canvas[1] = minorBCD
 	return append(dst, canvas[:]...), nil
 }
+
+// decodeCardStructureVersion reads the digits of a 2-byte structure version.
+func decodeCardStructureVersion(data []byte) (major, minor int32) {
+	major = int32((data[0]&0xF0)>>4)*10 + int32(data[0]&0x0F)
+	minor = int32((data[1]&0xF0)>>4)*10 + int32(data[1]&0x0F)
+	return major, minor
+}
diff --git a/internal/dd/date.go b/internal/dd/date.go
index 1de883c..d849621 100644
--- a/internal/dd/date.go
+++ b/internal/dd/date.go
@@ -25,9 +25,7 @@ func (opts UnmarshalOptions) UnmarshalDate(input []byte) (*ddv1.Date, error) {
 	}
 	var output ddv1.Date
 	output.SetRawData(input[:lenDatef])
-	year := int32(int32((input[0]&0xF0)>>4)*1000 + int32(input[0]&0x0F)*100 + int32((input[1]&0xF0)>>4)*10 + int32(input[1]&0x0F))
-	month := int32(int32((input[2]&0xF0)>>4)*10 + int32(input[2]&0x0F))
-	day := int32(int32((input[3]&0xF0)>>4)*10 + int32(input[3]&0x0F))
+	year, month, day := decodeDate(input)
 	output.SetYear(year)
 	output.SetMonth(month)
 	output.SetDay(day)
@@ -57,6 +55,10 @@ func AppendDate(dst []byte, date *ddv1.Date) ([]byte, error) {
 			)
 		}
 		copy(canvas[:], date.GetRawData())
+		// Bytes that are no decimal digits cannot be rebuilt from the decoded values.
+		if year, month, day := decodeDate(canvas[:]); year == date.GetYear() && month == date.GetMonth() && day == date.GetDay() {
+			return append(dst, canvas[:]...), nil
+		}
 	}
 	year := int(date.GetYear())
 	month := int(date.GetMonth())
@@ -67,3 +69,11 @@ func AppendDate(dst []byte, date *ddv1.Date) ([]byte, error) {
 	canvas[3] = byte((day/10)%10<<4 | day%10)
 	return append(dst, canvas[:]...), nil
 }
+
+// decodeDate reads the digits of a 4-byte date.
+func decodeDate(input []byte) (year, month, day int32) {
+	year = int32((input[0]&0xF0)>>4)*1000 + int32(input[0]&0x0F)*100 + int32((input[1]&0xF0)>>4)*10 + int32(input[1]&0x0F)
+	month = int32((input[2]&0xF0)>>4)*10 + int32(input[2]&0x0F)
+	day = int32((input[3]&0xF0)>>4)*10 + int32(input[3]&0x0F)
+	return year, month, day
+}
diff --git a/internal/dd/month_year.go b/internal/dd/month_year.go
index 5b1ff41..44fb704 100644
--- a/internal/dd/month_year.go
+++ b/internal/dd/month_year.go
@@ -27,17 +27,7 @@ func (opts UnmarshalOptions) UnmarshalMonthYear(data []byte) (*ddv1.MonthYear, e
 	monthYear := &ddv1.MonthYear{}
 	monthYear.SetRawData(data[:lenMonthYear])
 
-	// Decode BCD month/year as 4-digit number MMYY
-	monthYearInt, err := decodeBCD(data[:lenMonthYear])
-	if err == nil && monthYearInt > 0 {
-		month := int32(monthYearInt / 100)
-		year := int32(monthYearInt % 100)
-
-		// Convert 2-digit year to 4-digit (assuming 20xx for years 00-99)
-		if year >= 0 && year <= 99 {
-			year += 2000
-		}
-
+	if month, year, ok := decodeMonthYear(data); ok {
 		monthYear.SetMonth(month)
 		monthYear.SetYear(year)
 	}
@@ -71,6 +61,10 @@ func AppendMonthYear(dst []byte, monthYear *ddv1.MonthYear) ([]byte, error) {
 			return nil, fmt.Errorf("invalid raw_data length for MonthYear: got %d, want %d", len(rawData), lenMonthYear)
 		}
 		copy(canvas[:], rawData)
+		// Bytes that are no decimal digits cannot be rebuilt from the decoded values.
+		if month, year, _ := decodeMonthYear(rawData); month == monthYear.GetMonth() && year == monthYear.GetYear() {
+			return append(dst, canvas[:]...), nil
+		}
 	}
 	// Otherwise canvas is zero-initialized (Go default)
 
@@ -89,3 +83,13 @@ func AppendMonthYear(dst []byte, monthYear *ddv1.MonthYear) ([]byte, error) {
 
 	return append(dst, canvas[:]...), nil
 }
+
+// decodeMonthYear reads a 2-byte BCD number MMYY as a month and a year of the 21st century.
+// It reports false for bytes that are no decimal digits and for a month and year that are not set.
+func decodeMonthYear(data []byte) (month, year int32, ok bool) {
+	monthYear, err := decodeBCD(data)
+	if err != nil || monthYear <= 0 {
+		return 0, 0, false
+	}
+	return int32(monthYear / 100), int32(monthYear%100) + 2000, true
+}
-- 
2.43.0


From 5b08fab802be44876794e1d6c6221267cc1e1346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 07/52] fix: refuse control types of the wrong size and clear
 control activities that were unset

---
 internal/dd/controltype.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/dd/controltype.go b/internal/dd/controltype.go
index 8fc9019..dc835ce 100644
--- a/internal/dd/controltype.go
+++ b/internal/dd/controltype.go
@@ -14,8 +14,9 @@ import (
 //
 //	ControlType ::= OCTET STRING (SIZE(1))
 func (opts UnmarshalOptions) UnmarshalControlType(input []byte) (*ddv1.ControlType, error) {
-	if len(input) == 0 {
-		return nil, fmt.Errorf("insufficient data for control type")
+	const lenControlType = 1
+	if len(input) != lenControlType {
+		return nil, fmt.Errorf("invalid data length for ControlType: got %d, want %d", len(input), lenControlType)
 	}
 	b := input[0]
 	var output ddv1.ControlType
@@ -55,6 +56,8 @@ func AppendControlType(dst []byte, controlType *ddv1.ControlType) ([]byte, error
 		}
 		copy(canvas[:], controlType.GetRawData())
 	}
+	// Keep only the reserved bits: the others hold what the message says.
+	canvas[0] &^= 0xF8
 	if controlType.GetCardDownloading() {
 		canvas[0] |= 0x80
 	}
-- 
2.43.0


From 979b0ffc545e28d5b18d0e8b266e98364144309d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 08/52] fix: keep the code of unrecognized nations in records
 that hold their bytes

---
 internal/dd/card_vehicle_record.go      |  4 +++-
 internal/dd/card_vehicle_record_g2.go   |  4 +++-
 internal/dd/full_card_number.go         | 12 +++++++++-
 internal/dd/previous_vehicle_info.go    |  4 +++-
 internal/dd/previous_vehicle_info_g2.go |  4 +++-
 internal/dd/vehicle_registration.go     | 30 ++++++++++++++++---------
 internal/dd/vu_card_iw_record.go        |  4 +++-
 7 files changed, 46 insertions(+), 16 deletions(-)

diff --git a/internal/dd/card_vehicle_record.go b/internal/dd/card_vehicle_record.go
index 956ea9e..e487938 100644
--- a/internal/dd/card_vehicle_record.go
+++ b/internal/dd/card_vehicle_record.go
@@ -87,11 +87,13 @@ func AppendCardVehicleRecord(dst []byte, record *ddv1.CardVehicleRecord) ([]byte
 
 	// Use raw data painting strategy if available
 	var canvas [lenCardVehicleRecord]byte
+	var vehicleRegRaw []byte
 	if rawData := record.GetRawData(); len(rawData) > 0 {
 		if len(rawData) != lenCardVehicleRecord {
 			return nil, fmt.Errorf("invalid raw_data length for CardVehicleRecord: got %d, want %d", len(rawData), lenCardVehicleRecord)
 		}
 		copy(canvas[:], rawData)
+		vehicleRegRaw = rawData[14:29]
 	}
 
 	// Paint semantic values over the canvas
@@ -124,7 +126,7 @@ func AppendCardVehicleRecord(dst []byte, record *ddv1.CardVehicleRecord) ([]byte
 	copy(canvas[10:14], lastUseBytes)
 
 	// Vehicle registration (15 bytes)
-	vehicleRegBytes, err := AppendVehicleRegistration(nil, record.GetVehicleRegistration())
+	vehicleRegBytes, err := appendVehicleRegistration(nil, vehicleRegRaw, record.GetVehicleRegistration())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append vehicle registration: %w", err)
 	}
diff --git a/internal/dd/card_vehicle_record_g2.go b/internal/dd/card_vehicle_record_g2.go
index f466497..2608763 100644
--- a/internal/dd/card_vehicle_record_g2.go
+++ b/internal/dd/card_vehicle_record_g2.go
@@ -94,11 +94,13 @@ func AppendCardVehicleRecordG2(dst []byte, record *ddv1.CardVehicleRecordG2) ([]
 
 	// Use raw data painting strategy if available
 	var canvas [lenCardVehicleRecord]byte
+	var vehicleRegRaw []byte
 	if rawData := record.GetRawData(); len(rawData) > 0 {
 		if len(rawData) != lenCardVehicleRecord {
 			return nil, fmt.Errorf("invalid raw_data length for CardVehicleRecordG2: got %d, want %d", len(rawData), lenCardVehicleRecord)
 		}
 		copy(canvas[:], rawData)
+		vehicleRegRaw = rawData[14:29]
 	}
 
 	// Paint semantic values over the canvas
@@ -131,7 +133,7 @@ func AppendCardVehicleRecordG2(dst []byte, record *ddv1.CardVehicleRecordG2) ([]
 	copy(canvas[10:14], lastUseBytes)
 
 	// Vehicle registration (15 bytes)
-	vehicleRegBytes, err := AppendVehicleRegistration(nil, record.GetVehicleRegistration())
+	vehicleRegBytes, err := appendVehicleRegistration(nil, vehicleRegRaw, record.GetVehicleRegistration())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append vehicle registration: %w", err)
 	}
diff --git a/internal/dd/full_card_number.go b/internal/dd/full_card_number.go
index 920ec34..f1678af 100644
--- a/internal/dd/full_card_number.go
+++ b/internal/dd/full_card_number.go
@@ -107,6 +107,12 @@ func (opts UnmarshalOptions) UnmarshalFullCardNumber(data []byte) (*ddv1.FullCar
 //   - Issuing Member State (1 byte): NationNumeric
 //   - Card Number (16 bytes): CardNumber CHOICE based on card type (padded to 16 bytes)
 func AppendFullCardNumber(dst []byte, cardNumber *ddv1.FullCardNumber) ([]byte, error) {
+	return appendFullCardNumber(dst, nil, cardNumber)
+}
+
+// appendFullCardNumber appends cardNumber. The code of an issuing member state that is not
+// recognized is the one in raw, the bytes that cardNumber was read from, if there are any.
+func appendFullCardNumber(dst, raw []byte, cardNumber *ddv1.FullCardNumber) ([]byte, error) {
 	if cardNumber == nil {
 		return nil, fmt.Errorf("cardNumber cannot be nil")
 	}
@@ -121,7 +127,11 @@ func AppendFullCardNumber(dst []byte, cardNumber *ddv1.FullCardNumber) ([]byte,
 	// Append issuing member state (1 byte)
 	var issuingState byte
 	if cardNumber.GetCardIssuingMemberState() != ddv1.NationNumeric_NATION_NUMERIC_UNSPECIFIED {
-		issuingState, err = MarshalEnum(cardNumber.GetCardIssuingMemberState())
+		var issuingStateRaw []byte
+		if len(raw) > 1 {
+			issuingStateRaw = raw[1:2]
+		}
+		issuingState, err = marshalNation(cardNumber.GetCardIssuingMemberState(), issuingStateRaw)
 		if err != nil {
 			return nil, fmt.Errorf("failed to marshal card issuing member state: %w", err)
 		}
diff --git a/internal/dd/previous_vehicle_info.go b/internal/dd/previous_vehicle_info.go
index 5de4150..07cb1b3 100644
--- a/internal/dd/previous_vehicle_info.go
+++ b/internal/dd/previous_vehicle_info.go
@@ -53,18 +53,20 @@ func AppendPreviousVehicleInfo(dst []byte, info *ddv1.PreviousVehicleInfo) ([]by
 
 	// Use raw data painting strategy if available
 	var canvas [lenPreviousVehicleInfo]byte
+	var vehicleRegRaw []byte
 	if rawData := info.GetRawData(); len(rawData) > 0 {
 		if len(rawData) != lenPreviousVehicleInfo {
 			return nil, fmt.Errorf("invalid raw_data length for PreviousVehicleInfo: got %d, want %d", len(rawData), lenPreviousVehicleInfo)
 		}
 		copy(canvas[:], rawData)
+		vehicleRegRaw = rawData[:15]
 	}
 
 	// Paint semantic values over the canvas
 	var err error
 
 	// Vehicle registration (15 bytes)
-	vehicleRegBytes, err := AppendVehicleRegistration(nil, info.GetVehicleRegistration())
+	vehicleRegBytes, err := appendVehicleRegistration(nil, vehicleRegRaw, info.GetVehicleRegistration())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append vehicle registration: %w", err)
 	}
diff --git a/internal/dd/previous_vehicle_info_g2.go b/internal/dd/previous_vehicle_info_g2.go
index f9f6d7e..b48a910 100644
--- a/internal/dd/previous_vehicle_info_g2.go
+++ b/internal/dd/previous_vehicle_info_g2.go
@@ -62,18 +62,20 @@ func AppendPreviousVehicleInfoG2(dst []byte, info *ddv1.PreviousVehicleInfoG2) (
 
 	// Use raw data painting strategy if available
 	var canvas [lenPreviousVehicleInfo]byte
+	var vehicleRegRaw []byte
 	if rawData := info.GetRawData(); len(rawData) > 0 {
 		if len(rawData) != lenPreviousVehicleInfo {
 			return nil, fmt.Errorf("invalid raw_data length for PreviousVehicleInfoG2: got %d, want %d", len(rawData), lenPreviousVehicleInfo)
 		}
 		copy(canvas[:], rawData)
+		vehicleRegRaw = rawData[:15]
 	}
 
 	// Paint semantic values over the canvas
 	var err error
 
 	// Vehicle registration (15 bytes)
-	vehicleRegBytes, err := AppendVehicleRegistration(nil, info.GetVehicleRegistration())
+	vehicleRegBytes, err := appendVehicleRegistration(nil, vehicleRegRaw, info.GetVehicleRegistration())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append vehicle registration: %w", err)
 	}
diff --git a/internal/dd/vehicle_registration.go b/internal/dd/vehicle_registration.go
index 59abbad..629d7f5 100644
--- a/internal/dd/vehicle_registration.go
+++ b/internal/dd/vehicle_registration.go
@@ -62,22 +62,21 @@ func (opts UnmarshalOptions) UnmarshalVehicleRegistration(data []byte) (*ddv1.Ve
 //   - Nation code (1 byte): NationNumeric
 //   - Registration number (14 bytes): codePage (1 byte) + vehicleRegNumber (13 bytes)
 func AppendVehicleRegistration(dst []byte, vehicleReg *ddv1.VehicleRegistrationIdentification) ([]byte, error) {
+	return appendVehicleRegistration(dst, nil, vehicleReg)
+}
+
+// appendVehicleRegistration appends vehicleReg. The code of a nation that is not recognized
+// is the one in raw, the bytes that vehicleReg was read from, if there are any.
+func appendVehicleRegistration(dst, raw []byte, vehicleReg *ddv1.VehicleRegistrationIdentification) ([]byte, error) {
 	if vehicleReg == nil {
 		return nil, fmt.Errorf("vehicleRegistration cannot be nil")
 	}
 
 	// Append nation (1 byte) - get protocol value from enum
 	nation := vehicleReg.GetNation()
-	var nationByte byte
-	if nation == ddv1.NationNumeric_NATION_NUMERIC_UNRECOGNIZED {
-		// UNRECOGNIZED values should not occur during marshalling
-		return nil, fmt.Errorf("cannot marshal UNRECOGNIZED nation (no unrecognized field)")
-	} else {
-		var err error
-		nationByte, err = MarshalEnum(nation)
-		if err != nil {
-			return nil, fmt.Errorf("failed to marshal nation: %w", err)
-		}
+	nationByte, err := marshalNation(nation, raw)
+	if err != nil {
+		return nil, fmt.Errorf("failed to marshal nation: %w", err)
 	}
 	dst = append(dst, nationByte)
 
@@ -93,3 +92,14 @@ func AppendVehicleRegistration(dst []byte, vehicleReg *ddv1.VehicleRegistrationI
 	}
 	return AppendStringValue(dst, number)
 }
+
+// marshalNation returns the code of nation. A nation that is not recognized has no code of
+// its own: its code is the first byte of raw, if raw is there and holds no known code.
+func marshalNation(nation ddv1.NationNumeric, raw []byte) (byte, error) {
+	if nation == ddv1.NationNumeric_NATION_NUMERIC_UNRECOGNIZED && len(raw) > 0 {
+		if _, err := UnmarshalEnum[ddv1.NationNumeric](raw[0]); err != nil {
+			return raw[0], nil
+		}
+	}
+	return MarshalEnum(nation)
+}
diff --git a/internal/dd/vu_card_iw_record.go b/internal/dd/vu_card_iw_record.go
index c14147f..4f54950 100644
--- a/internal/dd/vu_card_iw_record.go
+++ b/internal/dd/vu_card_iw_record.go
@@ -143,11 +143,13 @@ func AppendVuCardIWRecord(dst []byte, record *ddv1.VuCardIWRecord) ([]byte, erro
 
 	// Use raw data painting strategy if available
 	var canvas [lenVuCardIWRecord]byte
+	var fullCardNumberRaw []byte
 	if rawData := record.GetRawData(); len(rawData) > 0 {
 		if len(rawData) != lenVuCardIWRecord {
 			return nil, fmt.Errorf("invalid raw_data length for VuCardIWRecord: got %d, want %d", len(rawData), lenVuCardIWRecord)
 		}
 		copy(canvas[:], rawData)
+		fullCardNumberRaw = rawData[72:90]
 	}
 
 	offset := 0
@@ -161,7 +163,7 @@ func AppendVuCardIWRecord(dst []byte, record *ddv1.VuCardIWRecord) ([]byte, erro
 	offset += 72
 
 	// fullCardNumber (18 bytes)
-	fullCardNumberBytes, err := AppendFullCardNumber(nil, record.GetFullCardNumber())
+	fullCardNumberBytes, err := appendFullCardNumber(nil, fullCardNumberRaw, record.GetFullCardNumber())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append full card number: %w", err)
 	}
-- 
2.43.0


From 979e749e430262bcda96287f100128202ee6e2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 09/52] fix: keep the manual input flag byte of card insertion
 records

---
 internal/dd/vu_card_iw_record.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/dd/vu_card_iw_record.go b/internal/dd/vu_card_iw_record.go
index 4f54950..a8a72a1 100644
--- a/internal/dd/vu_card_iw_record.go
+++ b/internal/dd/vu_card_iw_record.go
@@ -218,8 +218,11 @@ func AppendVuCardIWRecord(dst []byte, record *ddv1.VuCardIWRecord) ([]byte, erro
 	offset += 19
 
 	// manualInputFlag (1 byte)
+	// Any value other than zero in raw_data already stands for true.
 	if record.GetManualInputFlag() {
-		canvas[offset] = 1
+		if canvas[offset] == 0 {
+			canvas[offset] = 1
+		}
 	} else {
 		canvas[offset] = 0
 	}
-- 
2.43.0


From 6b9eef0c40abdffcc6fdd6943b38939cc9400357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 10/52] fix: refuse BCD strings whose value does not fit the
 message

---
 internal/dd/bcd_string.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/dd/bcd_string.go b/internal/dd/bcd_string.go
index fca325e..bb3ef93 100644
--- a/internal/dd/bcd_string.go
+++ b/internal/dd/bcd_string.go
@@ -2,6 +2,7 @@ package dd
 
 import (
 	"fmt"
+	"math"
 
 	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
 )
@@ -24,6 +25,9 @@ func (opts UnmarshalOptions) UnmarshalBcdString(input []byte) (*ddv1.BcdString,
 	if err != nil {
 		return nil, err
 	}
+	if value > math.MaxInt32 {
+		return nil, fmt.Errorf("BCD value %d is out of range", value)
+	}
 	var output ddv1.BcdString
 	output.SetValue(int32(value))
 	output.SetLength(int32(len(input)))
-- 
2.43.0


From 1d610e0ad8f7abd0d7a0163d36864906755fe3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 11/52] fix: keep the padding of vehicle identification numbers
 and decode them to valid text

---
 internal/dd/card_vehicle_record_g2.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/internal/dd/card_vehicle_record_g2.go b/internal/dd/card_vehicle_record_g2.go
index 2608763..cd11899 100644
--- a/internal/dd/card_vehicle_record_g2.go
+++ b/internal/dd/card_vehicle_record_g2.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"strings"
+	"unicode/utf8"
 
 	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
 )
@@ -81,9 +82,7 @@ func (opts UnmarshalOptions) UnmarshalCardVehicleRecordG2(data []byte) (*ddv1.Ca
 	record.SetVuDataBlockCounter(vuDataBlockCounter)
 
 	// Parse VIN (17 bytes IA5String)
-	vinBytes := data[idxVIN : idxVIN+17]
-	vin := strings.TrimRight(string(vinBytes), "\x00 ") // Trim null bytes and spaces
-	record.SetVehicleIdentificationNumber(vin)
+	record.SetVehicleIdentificationNumber(decodeVIN(data[idxVIN : idxVIN+17]))
 
 	return record, nil
 }
@@ -154,7 +153,16 @@ func AppendCardVehicleRecordG2(dst []byte, record *ddv1.CardVehicleRecordG2) ([]
 	for i := len(vin); i < 17; i++ {
 		vinBytes[i] = ' '
 	}
-	copy(canvas[31:48], vinBytes)
+	// Padding and bytes that are no text cannot be rebuilt from the decoded value.
+	if len(record.GetRawData()) == 0 || decodeVIN(canvas[31:48]) != vin {
+		copy(canvas[31:48], vinBytes)
+	}
 
 	return append(dst, canvas[:]...), nil
 }
+
+// decodeVIN reads a vehicle identification number without its padding.
+func decodeVIN(data []byte) string {
+	vin := strings.TrimRight(string(data), "\x00 ") // Trim null bytes and spaces
+	return strings.ToValidUTF8(vin, string(utf8.RuneError))
+}
-- 
2.43.0


From 0c3ed8f0137ff9215769e1b1db0330a33e6041c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:04 +0000
Subject: [PATCH 12/52] fix: encode text in its code page and refuse text that
 the code page does not have

---
 internal/dd/string_value.go | 85 ++++++++++++++++++-------------------
 1 file changed, 42 insertions(+), 43 deletions(-)

diff --git a/internal/dd/string_value.go b/internal/dd/string_value.go
index e32adf9..cd820f4 100644
--- a/internal/dd/string_value.go
+++ b/internal/dd/string_value.go
@@ -201,40 +201,7 @@ func decodeWithCodePage(codePage byte, data []byte) (string, error) {
 		return "", nil
 	}
 
-	// Map code page to character map
-	var cmap *charmap.Charmap
-	switch codePage {
-	case 0:
-		// Default to ISO-8859-1 for code page 0 (ASCII-compatible)
-		cmap = charmap.ISO8859_1
-	case 1:
-		cmap = charmap.ISO8859_1
-	case 2:
-		cmap = charmap.ISO8859_2
-	case 3:
-		cmap = charmap.ISO8859_3
-	case 5:
-		cmap = charmap.ISO8859_5
-	case 7:
-		cmap = charmap.ISO8859_7
-	case 9:
-		cmap = charmap.ISO8859_9
-	case 13:
-		cmap = charmap.ISO8859_13
-	case 15:
-		cmap = charmap.ISO8859_15
-	case 16:
-		cmap = charmap.ISO8859_16
-	case 80:
-		cmap = charmap.KOI8R
-	case 85:
-		cmap = charmap.KOI8U
-	default:
-		// For unrecognized code pages, fall back to ISO-8859-1
-		cmap = charmap.ISO8859_1
-	}
-
-	dec := cmap.NewDecoder()
+	dec := charmapForCodePage(codePage).NewDecoder()
 	res, err := dec.String(string(data))
 	if err != nil {
 		return "", fmt.Errorf("could not decode code page %d string: %w", codePage, err)
@@ -287,20 +254,52 @@ func getCodePageFromEncoding(encoding ddv1.Encoding) byte {
 }
 
 // encodeWithCodePage encodes a string to bytes using the specified code page.
-// For now, this is a simple implementation that only handles ASCII-compatible encodings.
+// A string with letters that the code page does not have is refused.
 func encodeWithCodePage(codePage byte, s string) ([]byte, error) {
 	// For code page 255 (empty), return empty bytes
 	if codePage == 255 {
+		if s != "" {
+			return nil, fmt.Errorf("an empty code page cannot hold %q", s)
+		}
 		return []byte{}, nil
 	}
-
-	// For ASCII-compatible code pages (0, 1), we can just convert to bytes
-	// TODO: Implement proper encoding for other code pages using charmap.Encoder
-	if codePage == 0 || codePage == 1 {
-		return []byte(s), nil
+	encoded, err := charmapForCodePage(codePage).NewEncoder().String(s)
+	if err != nil {
+		return nil, fmt.Errorf("could not encode code page %d string: %w", codePage, err)
 	}
+	return []byte(encoded), nil
+}
 
-	// For now, fall back to ISO-8859-1 encoding for other code pages
-	// This is a simplification and should be enhanced for full support
-	return []byte(s), nil
+// charmapForCodePage maps a code page byte to its character map.
+func charmapForCodePage(codePage byte) *charmap.Charmap {
+	switch codePage {
+	case 0:
+		// Default to ISO-8859-1 for code page 0 (ASCII-compatible)
+		return charmap.ISO8859_1
+	case 1:
+		return charmap.ISO8859_1
+	case 2:
+		return charmap.ISO8859_2
+	case 3:
+		return charmap.ISO8859_3
+	case 5:
+		return charmap.ISO8859_5
+	case 7:
+		return charmap.ISO8859_7
+	case 9:
+		return charmap.ISO8859_9
+	case 13:
+		return charmap.ISO8859_13
+	case 15:
+		return charmap.ISO8859_15
+	case 16:
+		return charmap.ISO8859_16
+	case 80:
+		return charmap.KOI8R
+	case 85:
+		return charmap.KOI8U
+	default:
+		// For unrecognized code pages, fall back to ISO-8859-1
+		return charmap.ISO8859_1
+	}
 }
-- 
2.43.0


From 6a6047c917c17143710fed486f35d2f8ee89ce22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:57 +0000
Subject: [PATCH 13/52] fix: refuse data-dictionary values that do not fit
 their stored size

---
 internal/dd/activity_change_info.go   |  6 +++++-
 internal/dd/card_structure_version.go |  3 +++
 internal/dd/card_vehicle_record.go    | 19 ++++++++++---------
 internal/dd/card_vehicle_record_g2.go | 22 +++++++++++++---------
 internal/dd/date.go                   |  3 +++
 internal/dd/extended_serial_number.go |  7 +++++++
 internal/dd/geo_coordinates.go        |  5 +++++
 internal/dd/gnss_place_auth_record.go |  6 +++++-
 internal/dd/month_year.go             |  5 +++++
 internal/dd/odometer.go               |  8 ++++++++
 internal/dd/place_record.go           |  8 +++++++-
 internal/dd/place_record_g2.go        |  8 +++++++-
 internal/dd/time_real.go              |  4 ++++
 internal/dd/vu_card_iw_record.go      | 10 ++++++++--
 14 files changed, 90 insertions(+), 24 deletions(-)

diff --git a/internal/dd/activity_change_info.go b/internal/dd/activity_change_info.go
index 5fe9e5a..75ff86e 100644
--- a/internal/dd/activity_change_info.go
+++ b/internal/dd/activity_change_info.go
@@ -132,12 +132,16 @@ func AppendActivityChangeInfo(dst []byte, ac *ddv1.ActivityChangeInfo) ([]byte,
 	if err != nil {
 		return nil, fmt.Errorf("failed to marshal activity: %w", err)
 	}
+	minutes := ac.GetTimeOfChangeMinutes()
+	if minutes < 0 || minutes > 0x7FF {
+		return nil, fmt.Errorf("time of change %d is out of range for ActivityChangeInfo", minutes)
+	}
 	var aci uint16
 	aci |= (uint16(slot) & 0x1) << 15
 	aci |= (drivingStatus & 0x1) << 14
 	aci |= (cardInserted & 0x1) << 13
 	aci |= (uint16(activity) & 0x3) << 11
-	aci |= (uint16(ac.GetTimeOfChangeMinutes()) & 0x7FF)
+	aci |= (uint16(minutes) & 0x7FF)
 	binary.BigEndian.PutUint16(canvas[:], aci)
 	return append(dst, canvas[:]...), nil
 }
diff --git a/internal/dd/card_structure_version.go b/internal/dd/card_structure_version.go
index 46a83f6..75eaa73 100644
--- a/internal/dd/card_structure_version.go
+++ b/internal/dd/card_structure_version.go
@@ -64,6 +64,9 @@ func AppendCardStructureVersion(dst []byte, csv *ddv1.CardStructureVersion) ([]b
 			return append(dst, canvas[:]...), nil
 		}
 	}
+	if csv.GetMajor() < 0 || csv.GetMajor() > 99 || csv.GetMinor() < 0 || csv.GetMinor() > 99 {
+		return nil, fmt.Errorf("version %d.%d is out of range for CardStructureVersion", csv.GetMajor(), csv.GetMinor())
+	}
 	major := csv.GetMajor()
 	majorBCD := byte((major/10)<<4) | byte(major%10)
 	canvas[0] = majorBCD
diff --git a/internal/dd/card_vehicle_record.go b/internal/dd/card_vehicle_record.go
index e487938..c3f5e6c 100644
--- a/internal/dd/card_vehicle_record.go
+++ b/internal/dd/card_vehicle_record.go
@@ -97,19 +97,20 @@ func AppendCardVehicleRecord(dst []byte, record *ddv1.CardVehicleRecord) ([]byte
 	}
 
 	// Paint semantic values over the canvas
-	var err error
 
 	// Odometer begin (3 bytes)
-	odometerBegin := uint32(record.GetVehicleOdometerBeginKm())
-	canvas[0] = byte(odometerBegin >> 16)
-	canvas[1] = byte(odometerBegin >> 8)
-	canvas[2] = byte(odometerBegin)
+	odometerBeginBytes, err := appendOdometerKm(nil, record.GetVehicleOdometerBeginKm())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append odometer begin: %w", err)
+	}
+	copy(canvas[0:3], odometerBeginBytes)
 
 	// Odometer end (3 bytes)
-	odometerEnd := uint32(record.GetVehicleOdometerEndKm())
-	canvas[3] = byte(odometerEnd >> 16)
-	canvas[4] = byte(odometerEnd >> 8)
-	canvas[5] = byte(odometerEnd)
+	odometerEndBytes, err := appendOdometerKm(nil, record.GetVehicleOdometerEndKm())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append odometer end: %w", err)
+	}
+	copy(canvas[3:6], odometerEndBytes)
 
 	// Vehicle first use (4 bytes)
 	firstUseBytes, err := AppendTimeReal(nil, record.GetVehicleFirstUse())
diff --git a/internal/dd/card_vehicle_record_g2.go b/internal/dd/card_vehicle_record_g2.go
index cd11899..ee2005a 100644
--- a/internal/dd/card_vehicle_record_g2.go
+++ b/internal/dd/card_vehicle_record_g2.go
@@ -103,19 +103,20 @@ func AppendCardVehicleRecordG2(dst []byte, record *ddv1.CardVehicleRecordG2) ([]
 	}
 
 	// Paint semantic values over the canvas
-	var err error
 
 	// Odometer begin (3 bytes)
-	odometerBegin := uint32(record.GetVehicleOdometerBeginKm())
-	canvas[0] = byte(odometerBegin >> 16)
-	canvas[1] = byte(odometerBegin >> 8)
-	canvas[2] = byte(odometerBegin)
+	odometerBeginBytes, err := appendOdometerKm(nil, record.GetVehicleOdometerBeginKm())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append odometer begin: %w", err)
+	}
+	copy(canvas[0:3], odometerBeginBytes)
 
 	// Odometer end (3 bytes)
-	odometerEnd := uint32(record.GetVehicleOdometerEndKm())
-	canvas[3] = byte(odometerEnd >> 16)
-	canvas[4] = byte(odometerEnd >> 8)
-	canvas[5] = byte(odometerEnd)
+	odometerEndBytes, err := appendOdometerKm(nil, record.GetVehicleOdometerEndKm())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append odometer end: %w", err)
+	}
+	copy(canvas[3:6], odometerEndBytes)
 
 	// Vehicle first use (4 bytes)
 	firstUseBytes, err := AppendTimeReal(nil, record.GetVehicleFirstUse())
@@ -155,6 +156,9 @@ func AppendCardVehicleRecordG2(dst []byte, record *ddv1.CardVehicleRecordG2) ([]
 	}
 	// Padding and bytes that are no text cannot be rebuilt from the decoded value.
 	if len(record.GetRawData()) == 0 || decodeVIN(canvas[31:48]) != vin {
+		if len(vin) > len(vinBytes) {
+			return nil, fmt.Errorf("vehicle identification number %q is longer than %d bytes", vin, len(vinBytes))
+		}
 		copy(canvas[31:48], vinBytes)
 	}
 
diff --git a/internal/dd/date.go b/internal/dd/date.go
index d849621..72f31de 100644
--- a/internal/dd/date.go
+++ b/internal/dd/date.go
@@ -63,6 +63,9 @@ func AppendDate(dst []byte, date *ddv1.Date) ([]byte, error) {
 	year := int(date.GetYear())
 	month := int(date.GetMonth())
 	day := int(date.GetDay())
+	if year < 0 || year > 9999 || month < 0 || month > 99 || day < 0 || day > 99 {
+		return nil, fmt.Errorf("date %d-%d-%d is out of range for Date", year, month, day)
+	}
 	canvas[0] = byte((year/1000)%10<<4 | (year/100)%10)
 	canvas[1] = byte((year/10)%10<<4 | year%10)
 	canvas[2] = byte((month/10)%10<<4 | month%10)
diff --git a/internal/dd/extended_serial_number.go b/internal/dd/extended_serial_number.go
index 9f9129b..911f460 100644
--- a/internal/dd/extended_serial_number.go
+++ b/internal/dd/extended_serial_number.go
@@ -3,6 +3,7 @@ package dd
 import (
 	"encoding/binary"
 	"fmt"
+	"math"
 
 	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
 )
@@ -90,6 +91,12 @@ func AppendExtendedSerialNumber(dst []byte, esn *ddv1.ExtendedSerialNumber) ([]b
 
 	// Append serial number (4 bytes, big-endian)
 	serialNumber := esn.GetSerialNumber()
+	if serialNumber < 0 || serialNumber > math.MaxUint32 {
+		return nil, fmt.Errorf("serial number %d is out of range for ExtendedSerialNumber", serialNumber)
+	}
+	if esn.GetManufacturerCode() < 0 || esn.GetManufacturerCode() > 255 {
+		return nil, fmt.Errorf("manufacturer code %d is out of range for ExtendedSerialNumber", esn.GetManufacturerCode())
+	}
 	dst = binary.BigEndian.AppendUint32(dst, uint32(serialNumber))
 
 	// Append month/year BCD (2 bytes, MMYY format)
diff --git a/internal/dd/geo_coordinates.go b/internal/dd/geo_coordinates.go
index ecd2029..456235d 100644
--- a/internal/dd/geo_coordinates.go
+++ b/internal/dd/geo_coordinates.go
@@ -65,6 +65,11 @@ func readInt24(data []byte) int32 {
 //
 // Unknown position marker: 0x7FFFFF (8388607 decimal)
 func AppendGeoCoordinates(dst []byte, geoCoords *ddv1.GeoCoordinates) ([]byte, error) {
+	for _, val := range []int32{geoCoords.GetLatitude(), geoCoords.GetLongitude()} {
+		if val < -1<<23 || val >= 1<<23 {
+			return nil, fmt.Errorf("coordinate %d is out of range for GeoCoordinates", val)
+		}
+	}
 	// Append latitude (3-byte signed integer)
 	dst = appendInt24(dst, geoCoords.GetLatitude())
 	// Append longitude (3-byte signed integer)
diff --git a/internal/dd/gnss_place_auth_record.go b/internal/dd/gnss_place_auth_record.go
index 679409a..ed7b37e 100644
--- a/internal/dd/gnss_place_auth_record.go
+++ b/internal/dd/gnss_place_auth_record.go
@@ -106,7 +106,11 @@ func AppendGNSSPlaceAuthRecord(dst []byte, record *ddv1.GNSSPlaceAuthRecord) ([]
 	}
 
 	// Append gnssAccuracy (1 byte)
-	dst = append(dst, byte(record.GetGnssAccuracy()))
+	accuracy := record.GetGnssAccuracy()
+	if accuracy < 0 || accuracy > 255 {
+		return nil, fmt.Errorf("invalid GNSS accuracy: %d (must be 0-255)", accuracy)
+	}
+	dst = append(dst, byte(accuracy))
 
 	// Append geoCoordinates (6 bytes)
 	var err error
diff --git a/internal/dd/month_year.go b/internal/dd/month_year.go
index 44fb704..7c7a14b 100644
--- a/internal/dd/month_year.go
+++ b/internal/dd/month_year.go
@@ -72,6 +72,11 @@ func AppendMonthYear(dst []byte, monthYear *ddv1.MonthYear) ([]byte, error) {
 	month := monthYear.GetMonth()
 	year := monthYear.GetYear()
 
+	// A month and year that are not set are stored as zero
+	if (month != 0 || year != 0) && (month < 0 || month > 99 || year < 2000 || year > 2099) {
+		return nil, fmt.Errorf("month %d of year %d is out of range for MonthYear", month, year)
+	}
+
 	// Convert 4-digit year to 2-digit for BCD encoding
 	year2Digit := year % 100
 
diff --git a/internal/dd/odometer.go b/internal/dd/odometer.go
index 3a59d08..05716f5 100644
--- a/internal/dd/odometer.go
+++ b/internal/dd/odometer.go
@@ -21,6 +21,14 @@ func AppendOdometer(dst []byte, odometer uint32) []byte {
 	return append(dst, b[1:]...)
 }
 
+// appendOdometerKm appends a distance as an OdometerShort and refuses one that does not fit.
+func appendOdometerKm(dst []byte, km int32) ([]byte, error) {
+	if km < 0 || km >= 1<<24 {
+		return nil, fmt.Errorf("distance of %d km is out of range for OdometerShort", km)
+	}
+	return AppendOdometer(dst, uint32(km)), nil
+}
+
 // UnmarshalOdometer unmarshals a 3-byte odometer value.
 //
 // The data type `OdometerShort` is specified in the Data Dictionary, Section 2.113.
diff --git a/internal/dd/place_record.go b/internal/dd/place_record.go
index 79f3c68..57042f2 100644
--- a/internal/dd/place_record.go
+++ b/internal/dd/place_record.go
@@ -116,13 +116,19 @@ func AppendPlaceRecord(dst []byte, rec *ddv1.PlaceRecord) ([]byte, error) {
 
 	// Region (1 byte)
 	regionBytes := rec.GetDailyWorkPeriodRegion()
+	if len(regionBytes) > 1 {
+		return nil, fmt.Errorf("invalid region length: got %d, want 1", len(regionBytes))
+	}
 	if len(regionBytes) > 0 {
 		canvas[6] = regionBytes[0]
 	}
 	// Otherwise leave as zero (or preserved from raw_data)
 
 	// Odometer (3 bytes)
-	odometerBytes := AppendOdometer(nil, uint32(rec.GetVehicleOdometerKm()))
+	odometerBytes, err := appendOdometerKm(nil, rec.GetVehicleOdometerKm())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append odometer: %w", err)
+	}
 	copy(canvas[7:10], odometerBytes)
 
 	return append(dst, canvas[:]...), nil
diff --git a/internal/dd/place_record_g2.go b/internal/dd/place_record_g2.go
index 489dae5..d9f329a 100644
--- a/internal/dd/place_record_g2.go
+++ b/internal/dd/place_record_g2.go
@@ -124,13 +124,19 @@ func AppendPlaceRecordG2(dst []byte, rec *ddv1.PlaceRecordG2) ([]byte, error) {
 
 	// Region (1 byte)
 	regionBytes := rec.GetDailyWorkPeriodRegion()
+	if len(regionBytes) > 1 {
+		return nil, fmt.Errorf("invalid region length: got %d, want 1", len(regionBytes))
+	}
 	if len(regionBytes) > 0 {
 		canvas[6] = regionBytes[0]
 	}
 	// Otherwise leave as zero (or preserved from raw_data)
 
 	// Odometer (3 bytes)
-	odometerBytes := AppendOdometer(nil, uint32(rec.GetVehicleOdometerKm()))
+	odometerBytes, err := appendOdometerKm(nil, rec.GetVehicleOdometerKm())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append odometer: %w", err)
+	}
 	copy(canvas[7:10], odometerBytes)
 
 	// GNSS place record (11 bytes)
diff --git a/internal/dd/time_real.go b/internal/dd/time_real.go
index 568c20e..479cbc1 100644
--- a/internal/dd/time_real.go
+++ b/internal/dd/time_real.go
@@ -3,6 +3,7 @@ package dd
 import (
 	"encoding/binary"
 	"fmt"
+	"math"
 	"time"
 
 	"google.golang.org/protobuf/types/known/timestamppb"
@@ -44,5 +45,8 @@ func AppendTimeReal(dst []byte, ts *timestamppb.Timestamp) ([]byte, error) {
 	if ts.GetNanos() > 0 {
 		return nil, fmt.Errorf("nanosecond resolution is not supported for TimeReal")
 	}
+	if ts.GetSeconds() < 0 || ts.GetSeconds() > math.MaxUint32 {
+		return nil, fmt.Errorf("time %d is out of range for TimeReal", ts.GetSeconds())
+	}
 	return binary.BigEndian.AppendUint32(dst, uint32(ts.GetSeconds())), nil
 }
diff --git a/internal/dd/vu_card_iw_record.go b/internal/dd/vu_card_iw_record.go
index a8a72a1..3fd0bb4 100644
--- a/internal/dd/vu_card_iw_record.go
+++ b/internal/dd/vu_card_iw_record.go
@@ -187,7 +187,10 @@ func AppendVuCardIWRecord(dst []byte, record *ddv1.VuCardIWRecord) ([]byte, erro
 	offset += 4
 
 	// vehicleOdometerValueAtInsertion (3 bytes)
-	odometerAtInsertionBytes := AppendOdometer(nil, uint32(record.GetOdometerAtInsertionKm()))
+	odometerAtInsertionBytes, err := appendOdometerKm(nil, record.GetOdometerAtInsertionKm())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append odometer at insertion: %w", err)
+	}
 	copy(canvas[offset:offset+3], odometerAtInsertionBytes)
 	offset += 3
 
@@ -205,7 +208,10 @@ func AppendVuCardIWRecord(dst []byte, record *ddv1.VuCardIWRecord) ([]byte, erro
 	offset += 4
 
 	// vehicleOdometerValueAtWithdrawal (3 bytes)
-	odometerAtWithdrawalBytes := AppendOdometer(nil, uint32(record.GetOdometerAtWithdrawalKm()))
+	odometerAtWithdrawalBytes, err := appendOdometerKm(nil, record.GetOdometerAtWithdrawalKm())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append odometer at withdrawal: %w", err)
+	}
 	copy(canvas[offset:offset+3], odometerAtWithdrawalBytes)
 	offset += 3
 
-- 
2.43.0


From 349a1a2c9a26b105c6b93ac672803d86872eb5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 14/52] fix: refuse card numbers whose identification does not
 fit the card type

---
 internal/dd/full_card_number.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/dd/full_card_number.go b/internal/dd/full_card_number.go
index f1678af..d0ccbd3 100644
--- a/internal/dd/full_card_number.go
+++ b/internal/dd/full_card_number.go
@@ -157,6 +157,8 @@ func appendFullCardNumber(dst, raw []byte, cardNumber *ddv1.FullCardNumber) ([]b
 					return nil, fmt.Errorf("failed to append card index: %w", err)
 				}
 			}
+		} else if cardNumber.HasOwnerIdentification() {
+			return nil, fmt.Errorf("a driver card is not identified by an owner identification")
 		} else {
 			// Empty driver ID: 16 zero bytes
 			dst = append(dst, make([]byte, 16)...)
@@ -168,11 +170,16 @@ func appendFullCardNumber(dst, raw []byte, cardNumber *ddv1.FullCardNumber) ([]b
 			if err != nil {
 				return nil, fmt.Errorf("failed to append owner identification: %w", err)
 			}
+		} else if cardNumber.HasDriverIdentification() {
+			return nil, fmt.Errorf("only a driver card is identified by a driver identification")
 		} else {
 			// Empty owner ID: 16 zero bytes
 			dst = append(dst, make([]byte, 16)...)
 		}
 	default:
+		if cardNumber.HasDriverIdentification() || cardNumber.HasOwnerIdentification() {
+			return nil, fmt.Errorf("unsupported card type: %d", cardNumber.GetCardType())
+		}
 		// Unknown card type: 16 zero bytes
 		dst = append(dst, make([]byte, 16)...)
 	}
-- 
2.43.0


From 2fffe844d79127ce4431b91b4b34c77d3dfa3815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 15/52] fix: write the signatures a driver card file holds and
 no others

---
 internal/card/driver_card_file.go | 90 +++++++++++++++++--------------
 1 file changed, 49 insertions(+), 41 deletions(-)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index 1da85a1..ac7f42c 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/binary"
 	"fmt"
+	"math"
 	"reflect"
 
 	"google.golang.org/protobuf/proto"
@@ -649,22 +650,9 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 	}
 
 	// 4. EF_IDENTIFICATION (0x0520) - composite file
-	if identification := card.GetTachograph().GetIdentification(); identification != nil {
-		valBuf := make([]byte, 0, 143)
-		valBuf, err = appendCardIdentification(valBuf, identification.GetCard())
-		if err != nil {
-			return nil, err
-		}
-		valBuf, err = appendDriverCardHolderIdentification(valBuf, identification.GetDriverCardHolder())
-		if err != nil {
-			return nil, err
-		}
-		dst, err = appendTlv(dst, cardv1.ElementaryFileType_EF_IDENTIFICATION, &compositeMessage{data: valBuf}, func(dst []byte, msg *compositeMessage) ([]byte, error) {
-			return append(dst, msg.data...), nil
-		})
-		if err != nil {
-			return nil, err
-		}
+	dst, err = appendTlv(dst, cardv1.ElementaryFileType_EF_IDENTIFICATION, card.GetTachograph().GetIdentification(), appendIdentification)
+	if err != nil {
+		return nil, err
 	}
 
 	dst, err = appendTlv(dst, cardv1.ElementaryFileType_EF_EVENTS_DATA, card.GetTachograph().GetEventsData(), appendEventsData)
@@ -826,14 +814,14 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 	return dst, nil
 }
 
-// compositeMessage is a helper type for marshalling composite TLV values
-type compositeMessage struct {
-	data []byte
-}
-
-// ProtoReflect implements proto.Message
-func (m *compositeMessage) ProtoReflect() protoreflect.Message {
-	return nil // Not needed for our use case
+// appendIdentification appends the content of EF_IDENTIFICATION, which is composed of the
+// identification of the card and the identification of its holder.
+func appendIdentification(dst []byte, identification *cardv1.Identification) ([]byte, error) {
+	dst, err := appendCardIdentification(dst, identification.GetCard())
+	if err != nil {
+		return nil, err
+	}
+	return appendDriverCardHolderIdentification(dst, identification.GetDriverCardHolder())
 }
 
 // appendCertificateEF appends a Gen1 certificate EF (which are not signed)
@@ -842,6 +830,9 @@ func appendCertificateEF(dst []byte, fileType cardv1.ElementaryFileType, certDat
 	if len(certData) == 0 {
 		return dst, nil // Skip empty certificates
 	}
+	if len(certData) > math.MaxUint16 {
+		return nil, fmt.Errorf("certificate is too long: %d bytes", len(certData))
+	}
 
 	opts := fileType.Descriptor().Values().ByNumber(protoreflect.EnumNumber(fileType)).Options()
 	tag := proto.GetExtension(opts, cardv1.E_FileId).(int32)
@@ -862,6 +853,9 @@ func appendCertificateEFG2(dst []byte, fileType cardv1.ElementaryFileType, certD
 	if len(certData) == 0 {
 		return dst, nil // Skip empty certificates
 	}
+	if len(certData) > math.MaxUint16 {
+		return nil, fmt.Errorf("certificate is too long: %d bytes", len(certData))
+	}
 
 	opts := fileType.Descriptor().Values().ByNumber(protoreflect.EnumNumber(fileType)).Options()
 	tag := proto.GetExtension(opts, cardv1.E_FileId).(int32)
@@ -909,19 +903,34 @@ func appendTlv[T proto.Message](
 	}
 
 	valLen := len(dst) - valPos
+	if valLen > math.MaxUint16 {
+		return nil, fmt.Errorf("content of EF %04X is too long: %d bytes", tag, valLen)
+	}
 
 	// Update the length field
 	binary.BigEndian.PutUint16(dst[lenPos:], uint16(valLen))
 
-	// Add signature block (FID + appendix 0x01, 128 bytes of zeros for now)
-	dst = binary.BigEndian.AppendUint16(dst, uint16(tag))
-	dst = append(dst, 0x01)                       // appendix for signature
-	dst = binary.BigEndian.AppendUint16(dst, 128) // Signature length
-	// Add 128 bytes of signature data (zeros for now)
-	signature := make([]byte, 128)
-	dst = append(dst, signature...)
+	// Add the signature block of a signed EF (FID + appendix 0x01)
+	return appendSignature(dst, tag, 0x01, msg)
+}
 
-	return dst, nil
+// appendSignature appends the signature block of an EF if the message holds a signature.
+func appendSignature(dst []byte, tag int32, appendix byte, msg proto.Message) ([]byte, error) {
+	signed, ok := msg.(interface {
+		HasSignature() bool
+		GetSignature() []byte
+	})
+	if !ok || !signed.HasSignature() {
+		return dst, nil
+	}
+	signature := signed.GetSignature()
+	if len(signature) > math.MaxUint16 {
+		return nil, fmt.Errorf("signature of EF %04X is too long: %d bytes", tag, len(signature))
+	}
+	dst = binary.BigEndian.AppendUint16(dst, uint16(tag))
+	dst = append(dst, appendix)
+	dst = binary.BigEndian.AppendUint16(dst, uint16(len(signature)))
+	return append(dst, signature...), nil
 }
 
 // appendTlvUnsigned is like appendTlv but doesn't add a signature block
@@ -957,6 +966,9 @@ func appendTlvUnsigned[T proto.Message](
 	}
 
 	valLen := len(dst) - valPos
+	if valLen > math.MaxUint16 {
+		return nil, fmt.Errorf("content of EF %04X is too long: %d bytes", tag, valLen)
+	}
 
 	// Update the length field
 	binary.BigEndian.PutUint16(dst[lenPos:], uint16(valLen))
@@ -998,19 +1010,15 @@ func appendTlvG2[T proto.Message](
 	}
 
 	valLen := len(dst) - valPos
+	if valLen > math.MaxUint16 {
+		return nil, fmt.Errorf("content of EF %04X is too long: %d bytes", tag, valLen)
+	}
 
 	// Update the length field
 	binary.BigEndian.PutUint16(dst[lenPos:], uint16(valLen))
 
-	// Add signature block (FID + appendix 0x03, 128 bytes of zeros for now) - Gen2 DF
-	dst = binary.BigEndian.AppendUint16(dst, uint16(tag))
-	dst = append(dst, 0x03)                       // appendix for Gen2 signature
-	dst = binary.BigEndian.AppendUint16(dst, 128) // Signature length
-	// Add 128 bytes of signature data (zeros for now)
-	signature := make([]byte, 128)
-	dst = append(dst, signature...)
-
-	return dst, nil
+	// Add the signature block of a signed EF (FID + appendix 0x03) - Gen2 DF
+	return appendSignature(dst, tag, 0x03, msg)
 }
 
 // CertificateResolver provides access to tachograph certificates
-- 
2.43.0


From 9c01c5bec46477fcd0295a34a902d9ce04cbaae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 16/52] fix: write the second-generation files of a driver card
 that share their format with the first generation

---
 internal/card/driver_card_file.go | 41 +++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index ac7f42c..979a8a8 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -710,6 +710,31 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 			return nil, err
 		}
 
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_DRIVING_LICENCE_INFO, tachographG2.GetDrivingLicenceInfo(), appendDrivingLicenceInfo)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_IDENTIFICATION, tachographG2.GetIdentification(), appendIdentification)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_EVENTS_DATA, tachographG2.GetEventsData(), appendEventsData)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_FAULTS_DATA, tachographG2.GetFaultsData(), appendFaultsData)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_DRIVER_ACTIVITY_DATA, tachographG2.GetDriverActivityData(), appendDriverActivity)
+		if err != nil {
+			return nil, err
+		}
+
 		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_VEHICLES_USED, tachographG2.GetVehiclesUsed(), appendVehiclesUsedG2)
 		if err != nil {
 			return nil, err
@@ -720,12 +745,28 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 			return nil, err
 		}
 
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_CURRENT_USAGE, tachographG2.GetCurrentUsage(), appendCurrentUsage)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_CONTROL_ACTIVITY_DATA, tachographG2.GetControlActivityData(), appendCardControlActivityData)
+		if err != nil {
+			return nil, err
+		}
+
 		// SpecificConditions (Gen2)
 		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_SPECIFIC_CONDITIONS, tachographG2.GetSpecificConditions(), appendCardSpecificConditionsG2)
 		if err != nil {
 			return nil, err
 		}
 
+		// CardDownload - not signed
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_CARD_DOWNLOAD_DRIVER, tachographG2.GetCardDownload(), appendCardDownload)
+		if err != nil {
+			return nil, err
+		}
+
 		// Marshal Gen2-exclusive EFs
 		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_VEHICLE_UNITS_USED, tachographG2.GetVehicleUnitsUsed(), appendCardVehicleUnitsUsed)
 		if err != nil {
-- 
2.43.0


From 2ea15bde181dd6323055cf880bd1119e55078714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:43 +0000
Subject: [PATCH 17/52] fix: read the mutual authentication certificate of
 second-generation driver cards

---
 internal/card/driver_card_file.go | 64 ++++++++++++++-----------------
 1 file changed, 29 insertions(+), 35 deletions(-)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index 979a8a8..c969cc3 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -495,46 +495,40 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 			}
 			tachographG2DF.SetApplicationIdentificationV2(appIdV2)
 
-		case cardv1.ElementaryFileType_EF_CARD_CERTIFICATE:
-			// Gen1: Card authentication certificate
-			// Only appears in Gen1 DF (Tachograph)
-			if efGeneration != ddv1.Generation_GENERATION_1 {
-				return nil, fmt.Errorf("EF_CARD_CERTIFICATE should only appear in Gen1 DF, got generation: %v", efGeneration)
-			}
-			if tachographDF == nil {
-				tachographDF = &cardv1.DriverCardFile_Tachograph{}
-			}
-			rsaCert, err := security.UnmarshalRsaCertificate(record.GetValue())
-			if err != nil {
-				return nil, fmt.Errorf("failed to parse EF_CARD_CERTIFICATE: %w", err)
+		case cardv1.ElementaryFileType_EF_CARD_CERTIFICATE, cardv1.ElementaryFileType_EF_CARD_MA_CERTIFICATE:
+			// Both certificates have FID C100h, which one it is depends on the DF
+			// Gen1 (Tachograph): Card authentication certificate
+			// Gen2 (Tachograph_G2): Card mutual authentication certificate
+			switch efGeneration {
+			case ddv1.Generation_GENERATION_1:
+				if tachographDF == nil {
+					tachographDF = &cardv1.DriverCardFile_Tachograph{}
+				}
+				rsaCert, err := security.UnmarshalRsaCertificate(record.GetValue())
+				if err != nil {
+					return nil, fmt.Errorf("failed to parse EF_CARD_CERTIFICATE: %w", err)
+				}
+				cert := &cardv1.CardCertificate{}
+				cert.SetRsaCertificate(rsaCert)
+				tachographDF.SetCardCertificate(cert)
+			case ddv1.Generation_GENERATION_2:
+				if tachographG2DF == nil {
+					tachographG2DF = &cardv1.DriverCardFile_TachographG2{}
+				}
+				eccCert, err := security.UnmarshalEccCertificate(record.GetValue())
+				if err != nil {
+					return nil, fmt.Errorf("failed to parse EF_CARD_MA_CERTIFICATE: %w", err)
+				}
+				cert := &cardv1.CardMaCertificate{}
+				cert.SetEccCertificate(eccCert)
+				tachographG2DF.SetCardMaCertificate(cert)
+			default:
+				return nil, fmt.Errorf("unexpected generation for EF_CARD_CERTIFICATE: %v", efGeneration)
 			}
-			cert := &cardv1.CardCertificate{}
-			cert.SetRsaCertificate(rsaCert)
-			tachographDF.SetCardCertificate(cert)
 			if signature != nil {
 				return nil, fmt.Errorf("unexpected signature for EF_CARD_CERTIFICATE")
 			}
 
-		case cardv1.ElementaryFileType_EF_CARD_MA_CERTIFICATE:
-			// Gen2: Card mutual authentication certificate (replaces Gen1 Card_Certificate)
-			// Only appears in Gen2 DF (Tachograph_G2)
-			if efGeneration != ddv1.Generation_GENERATION_2 {
-				return nil, fmt.Errorf("EF_CARD_MA_CERTIFICATE should only appear in Gen2 DF, got generation: %v", efGeneration)
-			}
-			if tachographG2DF == nil {
-				tachographG2DF = &cardv1.DriverCardFile_TachographG2{}
-			}
-			eccCert, err := security.UnmarshalEccCertificate(record.GetValue())
-			if err != nil {
-				return nil, fmt.Errorf("failed to parse EF_CARD_MA_CERTIFICATE: %w", err)
-			}
-			cert := &cardv1.CardMaCertificate{}
-			cert.SetEccCertificate(eccCert)
-			tachographG2DF.SetCardMaCertificate(cert)
-			if signature != nil {
-				return nil, fmt.Errorf("unexpected signature for EF_CARD_MA_CERTIFICATE")
-			}
-
 		case cardv1.ElementaryFileType_EF_CARD_SIGN_CERTIFICATE:
 			// Gen2: Card signature certificate
 			// Only appears in Gen2 DF (Tachograph_G2) on driver and workshop cards
-- 
2.43.0


From b8dd620e9fb58cbc2e09b334e8a678cce39f4d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:47 +0000
Subject: [PATCH 18/52] fix: keep the files and signatures of the two driver
 card applications apart

---
 internal/card/driver_card_file.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index c969cc3..f0e0dc1 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -72,7 +72,7 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 		var signature []byte
 		if i+1 < len(input.GetRecords()) {
 			nextRecord := input.GetRecords()[i+1]
-			if nextRecord.GetFile() == record.GetFile() && nextRecord.GetContentType() == cardv1.ContentType_SIGNATURE {
+			if nextRecord.GetFile() == record.GetFile() && nextRecord.GetGeneration() == efGeneration && nextRecord.GetContentType() == cardv1.ContentType_SIGNATURE {
 				signature = nextRecord.GetValue()
 				i++
 			}
@@ -451,6 +451,9 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 			}
 
 		case cardv1.ElementaryFileType_EF_VEHICLE_UNITS_USED:
+			if efGeneration != ddv1.Generation_GENERATION_2 {
+				return nil, fmt.Errorf("EF_VEHICLE_UNITS_USED should only appear in Gen2 DF, got generation: %v", efGeneration)
+			}
 			vehicleUnits, err := opts.unmarshalVehicleUnitsUsed(record.GetValue())
 			if err != nil {
 				return nil, err
@@ -466,6 +469,9 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 			tachographG2DF.SetVehicleUnitsUsed(vehicleUnits)
 
 		case cardv1.ElementaryFileType_EF_GNSS_PLACES:
+			if efGeneration != ddv1.Generation_GENERATION_2 {
+				return nil, fmt.Errorf("EF_GNSS_PLACES should only appear in Gen2 DF, got generation: %v", efGeneration)
+			}
 			gnssPlaces, err := opts.unmarshalGnssPlaces(record.GetValue())
 			if err != nil {
 				return nil, err
@@ -481,6 +487,9 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 			tachographG2DF.SetGnssPlaces(gnssPlaces)
 
 		case cardv1.ElementaryFileType_EF_APPLICATION_IDENTIFICATION_V2:
+			if efGeneration != ddv1.Generation_GENERATION_2 {
+				return nil, fmt.Errorf("EF_APPLICATION_IDENTIFICATION_V2 should only appear in Gen2 DF, got generation: %v", efGeneration)
+			}
 			appIdV2, err := opts.unmarshalApplicationIdentificationV2(record.GetValue())
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 7649c2a5242f0d8e62b39f01140de42bde574458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:11 +0000
Subject: [PATCH 19/52] fix: keep the bytes of card records apart from the
 scanner's buffer

---
 internal/card/events.go             | 2 +-
 internal/card/faults.go             | 2 +-
 internal/card/gnss_places.go        | 2 +-
 internal/card/vehicle_units_used.go | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/card/events.go b/internal/card/events.go
index 7419d2c..da14705 100644
--- a/internal/card/events.go
+++ b/internal/card/events.go
@@ -49,7 +49,7 @@ func (opts UnmarshalOptions) unmarshalEventsData(data []byte) (*cardv1.EventsDat
 
 	var records []*cardv1.EventsData_Record
 	for scanner.Scan() {
-		recordData := scanner.Bytes()
+		recordData := bytes.Clone(scanner.Bytes())
 		// Check if this is a valid record by examining the event begin time (first 4 bytes after event type)
 		// Event type is 1 byte, so event begin time starts at byte 1
 		eventBeginTime := binary.BigEndian.Uint32(recordData[1:5])
diff --git a/internal/card/faults.go b/internal/card/faults.go
index 7c2724f..1389d25 100644
--- a/internal/card/faults.go
+++ b/internal/card/faults.go
@@ -49,7 +49,7 @@ func (opts UnmarshalOptions) unmarshalFaultsData(data []byte) (*cardv1.FaultsDat
 
 	var records []*cardv1.FaultsData_Record
 	for scanner.Scan() {
-		recordData := scanner.Bytes()
+		recordData := bytes.Clone(scanner.Bytes())
 		// Check if this is a valid record by examining the fault begin time (first 4 bytes after fault type)
 		// Fault type is 1 byte, so fault begin time starts at byte 1
 		faultBeginTime := binary.BigEndian.Uint32(recordData[1:5])
diff --git a/internal/card/gnss_places.go b/internal/card/gnss_places.go
index e4fc1b5..8e57a1f 100644
--- a/internal/card/gnss_places.go
+++ b/internal/card/gnss_places.go
@@ -89,7 +89,7 @@ func parseGNSSAccumulatedDrivingRecords(data []byte, opts UnmarshalOptions) ([]*
 
 	var records []*cardv1.GnssPlaces_Record
 	for scanner.Scan() {
-		record, err := unmarshalGNSSAccumulatedDrivingRecord(scanner.Bytes(), opts)
+		record, err := unmarshalGNSSAccumulatedDrivingRecord(bytes.Clone(scanner.Bytes()), opts)
 		if err != nil {
 			return nil, fmt.Errorf("failed to unmarshal GNSS accumulated driving record: %w", err)
 		}
diff --git a/internal/card/vehicle_units_used.go b/internal/card/vehicle_units_used.go
index 8d8e680..bf7a13f 100644
--- a/internal/card/vehicle_units_used.go
+++ b/internal/card/vehicle_units_used.go
@@ -91,7 +91,7 @@ func parseCardVehicleUnitRecords(data []byte, opts UnmarshalOptions) ([]*cardv1.
 
 	var records []*cardv1.VehicleUnitsUsed_Record
 	for scanner.Scan() {
-		record, err := unmarshalCardVehicleUnitRecord(scanner.Bytes(), opts)
+		record, err := unmarshalCardVehicleUnitRecord(bytes.Clone(scanner.Bytes()), opts)
 		if err != nil {
 			return nil, fmt.Errorf("failed to unmarshal vehicle unit record: %w", err)
 		}
-- 
2.43.0


From e903553ce03b8a9ea5495d4ae94b3f07bf845811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:15 +0000
Subject: [PATCH 20/52] fix: refuse card files whose size their format does not
 have

---
 internal/card/card_download.go    | 4 ++--
 internal/card/control_activity.go | 4 ++--
 internal/card/current_usage.go    | 4 ++--
 internal/card/driving_licence.go  | 4 ++--
 internal/card/events.go           | 3 +++
 internal/card/faults.go           | 3 +++
 internal/card/ic.go               | 4 ++--
 internal/card/icc.go              | 4 ++--
 internal/card/identification.go   | 6 +++---
 9 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/internal/card/card_download.go b/internal/card/card_download.go
index a0aa448..e14cef9 100644
--- a/internal/card/card_download.go
+++ b/internal/card/card_download.go
@@ -20,8 +20,8 @@ func (opts UnmarshalOptions) unmarshalCardDownload(data []byte) (*cardv1.CardDow
 		lenCardDownloadDriver = 4 // TimeReal size
 	)
 
-	if len(data) < lenCardDownloadDriver {
-		return nil, fmt.Errorf("insufficient data for card download")
+	if len(data) != lenCardDownloadDriver {
+		return nil, fmt.Errorf("invalid data length for card download: got %d bytes, need %d", len(data), lenCardDownloadDriver)
 	}
 
 	var target cardv1.CardDownloadDriver
diff --git a/internal/card/control_activity.go b/internal/card/control_activity.go
index 3810245..9b3fd62 100644
--- a/internal/card/control_activity.go
+++ b/internal/card/control_activity.go
@@ -29,8 +29,8 @@ func (opts UnmarshalOptions) unmarshalControlActivityData(data []byte) (*cardv1.
 		lenCardControlActivityDataRecord = 46 // CardControlActivityDataRecord total size
 	)
 
-	if len(data) < lenCardControlActivityDataRecord {
-		return nil, fmt.Errorf("insufficient data for control activity data")
+	if len(data) != lenCardControlActivityDataRecord {
+		return nil, fmt.Errorf("invalid data length for control activity data: got %d bytes, need %d", len(data), lenCardControlActivityDataRecord)
 	}
 	var target cardv1.ControlActivityData
 	controlTime := binary.BigEndian.Uint32(data[1:5])
diff --git a/internal/card/current_usage.go b/internal/card/current_usage.go
index a6de7f7..a29e3e8 100644
--- a/internal/card/current_usage.go
+++ b/internal/card/current_usage.go
@@ -23,8 +23,8 @@ func (opts UnmarshalOptions) unmarshalCurrentUsage(data []byte) (*cardv1.Current
 		lenCardCurrentUse = 19 // 4 bytes time + 15 bytes vehicle registration
 	)
 
-	if len(data) < lenCardCurrentUse {
-		return nil, fmt.Errorf("insufficient data for current usage")
+	if len(data) != lenCardCurrentUse {
+		return nil, fmt.Errorf("invalid data length for current usage: got %d bytes, need %d", len(data), lenCardCurrentUse)
 	}
 	var target cardv1.CurrentUsage
 	offset := 0
diff --git a/internal/card/driving_licence.go b/internal/card/driving_licence.go
index 9b044ce..3640853 100644
--- a/internal/card/driving_licence.go
+++ b/internal/card/driving_licence.go
@@ -26,8 +26,8 @@ func (opts UnmarshalOptions) unmarshalDrivingLicenceInfo(data []byte) (*cardv1.D
 		lenCardDrivingLicenceInformation = 53 // CardDrivingLicenceInformation total size
 	)
 
-	if len(data) < lenCardDrivingLicenceInformation {
-		return nil, errors.New("not enough data for DrivingLicenceInfo")
+	if len(data) != lenCardDrivingLicenceInformation {
+		return nil, errors.New("invalid data length for DrivingLicenceInfo")
 	}
 	var dli cardv1.DrivingLicenceInfo
 	offset := 0
diff --git a/internal/card/events.go b/internal/card/events.go
index da14705..924d918 100644
--- a/internal/card/events.go
+++ b/internal/card/events.go
@@ -44,6 +44,9 @@ func splitCardEventRecord(data []byte, atEOF bool) (advance int, token []byte, e
 }
 
 func (opts UnmarshalOptions) unmarshalEventsData(data []byte) (*cardv1.EventsData, error) {
+	if len(data)%cardEventRecordSize != 0 {
+		return nil, fmt.Errorf("invalid data length for events data: got %d bytes, not a multiple of %d", len(data), cardEventRecordSize)
+	}
 	scanner := bufio.NewScanner(bytes.NewReader(data))
 	scanner.Split(splitCardEventRecord)
 
diff --git a/internal/card/faults.go b/internal/card/faults.go
index 1389d25..de06ac7 100644
--- a/internal/card/faults.go
+++ b/internal/card/faults.go
@@ -44,6 +44,9 @@ func splitCardFaultRecord(data []byte, atEOF bool) (advance int, token []byte, e
 }
 
 func (opts UnmarshalOptions) unmarshalFaultsData(data []byte) (*cardv1.FaultsData, error) {
+	if len(data)%cardFaultRecordSize != 0 {
+		return nil, fmt.Errorf("invalid data length for faults data: got %d bytes, not a multiple of %d", len(data), cardFaultRecordSize)
+	}
 	scanner := bufio.NewScanner(bytes.NewReader(data))
 	scanner.Split(splitCardFaultRecord)
 
diff --git a/internal/card/ic.go b/internal/card/ic.go
index 43677e9..09026ee 100644
--- a/internal/card/ic.go
+++ b/internal/card/ic.go
@@ -24,8 +24,8 @@ func (opts UnmarshalOptions) unmarshalIc(data []byte) (*cardv1.Ic, error) {
 		lenCardChipIdentification    = lenIcSerialNumber + lenIcManufacturingReferences
 	)
 
-	if len(data) < lenCardChipIdentification {
-		return nil, fmt.Errorf("insufficient data for IC identification: got %d bytes, need %d", len(data), lenCardChipIdentification)
+	if len(data) != lenCardChipIdentification {
+		return nil, fmt.Errorf("invalid data length for IC identification: got %d bytes, need %d", len(data), lenCardChipIdentification)
 	}
 
 	var target cardv1.Ic
diff --git a/internal/card/icc.go b/internal/card/icc.go
index 8606bee..e5a5154 100644
--- a/internal/card/icc.go
+++ b/internal/card/icc.go
@@ -37,8 +37,8 @@ func (opts UnmarshalOptions) unmarshalIcc(data []byte) (*cardv1.Icc, error) {
 	)
 
 	var icc cardv1.Icc
-	if len(data) < lenCardIccIdentification {
-		return nil, errors.New("not enough data for IccIdentification")
+	if len(data) != lenCardIccIdentification {
+		return nil, errors.New("invalid data length for IccIdentification")
 	}
 	offset := 0
 
diff --git a/internal/card/identification.go b/internal/card/identification.go
index fd549cc..eeec872 100644
--- a/internal/card/identification.go
+++ b/internal/card/identification.go
@@ -43,11 +43,11 @@ func createIA5StringValue(value string, length int32) *ddv1.Ia5StringValue {
 //	}
 func (opts UnmarshalOptions) unmarshalIdentification(data []byte) (*cardv1.Identification, error) {
 	const (
-		lenMinIdentification = 143 // Minimum size for EF_Identification
+		lenIdentification = 143 // Size of EF_Identification
 	)
 
-	if len(data) < lenMinIdentification {
-		return nil, errors.New("not enough data for EF_Identification")
+	if len(data) != lenIdentification {
+		return nil, errors.New("invalid data length for EF_Identification")
 	}
 
 	var identification cardv1.Identification
-- 
2.43.0


From 174c55fa06aa00d9c175915883d3afce28d91b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 21/52] fix: encode GNSS records whose odometer value is
 unknown

---
 internal/card/gnss_places.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/card/gnss_places.go b/internal/card/gnss_places.go
index 8e57a1f..cafa0e9 100644
--- a/internal/card/gnss_places.go
+++ b/internal/card/gnss_places.go
@@ -218,7 +218,7 @@ func appendGNSSAccumulatedDrivingRecord(dst []byte, record *cardv1.GnssPlaces_Re
 
 	// Append vehicle odometer (OdometerShort - 3 bytes)
 	odometer := record.GetVehicleOdometerKm()
-	if odometer < 0 || odometer > 999999 {
+	if odometer < 0 || odometer > 0xFFFFFF {
 		return nil, fmt.Errorf("invalid vehicle odometer value: %d", odometer)
 	}
 	dst = dd.AppendOdometer(dst, uint32(odometer))
-- 
2.43.0


From 7beaeebdef7dfb29989e92b4eb6277e4bd3e9434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 22/52] fix: keep bytes after the last whole record of a card
 file, but no removed records

---
 internal/card/places.go                 |  7 ++++---
 internal/card/places_g2.go              |  7 ++++---
 internal/card/specific_conditions.go    |  7 ++++---
 internal/card/specific_conditions_g2.go | 19 ++++++++-----------
 internal/card/vehicles_used.go          |  7 ++++---
 internal/card/vehicles_used_g2.go       |  7 ++++---
 6 files changed, 28 insertions(+), 26 deletions(-)

diff --git a/internal/card/places.go b/internal/card/places.go
index 80e1ab8..11f1368 100644
--- a/internal/card/places.go
+++ b/internal/card/places.go
@@ -87,10 +87,11 @@ func appendPlaces(dst []byte, p *cardv1.Places) ([]byte, error) {
 	numRecords := len(p.GetRecords())
 	expectedSize := 1 + (numRecords * recordSize)
 
-	// Use raw_data as canvas if available and correct size
-	if rawData := p.GetRawData(); len(rawData) == expectedSize {
+	// Use raw_data as canvas if available and holding as many records
+	// (bytes that are too few for another record are kept)
+	if rawData := p.GetRawData(); len(rawData) >= expectedSize && len(rawData) < expectedSize+recordSize {
 		// Make a copy to use as canvas
-		canvas := make([]byte, expectedSize)
+		canvas := make([]byte, len(rawData))
 		copy(canvas, rawData)
 
 		// Paint newest record index over canvas (1 byte for Gen1)
diff --git a/internal/card/places_g2.go b/internal/card/places_g2.go
index 89b5525..549a709 100644
--- a/internal/card/places_g2.go
+++ b/internal/card/places_g2.go
@@ -88,10 +88,11 @@ func appendPlacesG2(dst []byte, p *cardv1.PlacesG2) ([]byte, error) {
 	numRecords := len(p.GetRecords())
 	expectedSize := 2 + (numRecords * recordSize)
 
-	// Use raw_data as canvas if available and correct size
-	if rawData := p.GetRawData(); len(rawData) == expectedSize {
+	// Use raw_data as canvas if available and holding as many records
+	// (bytes that are too few for another record are kept)
+	if rawData := p.GetRawData(); len(rawData) >= expectedSize && len(rawData) < expectedSize+recordSize {
 		// Make a copy to use as canvas
-		canvas := make([]byte, expectedSize)
+		canvas := make([]byte, len(rawData))
 		copy(canvas, rawData)
 
 		// Paint newest record index over canvas (2 bytes for Gen2)
diff --git a/internal/card/specific_conditions.go b/internal/card/specific_conditions.go
index bc62edc..243909d 100644
--- a/internal/card/specific_conditions.go
+++ b/internal/card/specific_conditions.go
@@ -71,10 +71,11 @@ func appendCardSpecificConditions(data []byte, conditions *cardv1.SpecificCondit
 	numRecords := len(conditions.GetRecords())
 	expectedSize := numRecords * recordSize
 
-	// Use raw_data as canvas if available and correct size
-	if rawData := conditions.GetRawData(); len(rawData) == expectedSize {
+	// Use raw_data as canvas if available and holding as many records
+	// (bytes that are too few for another record are kept)
+	if rawData := conditions.GetRawData(); len(rawData) >= expectedSize && len(rawData) < expectedSize+recordSize {
 		// Make a copy to use as canvas
-		canvas := make([]byte, expectedSize)
+		canvas := make([]byte, len(rawData))
 		copy(canvas, rawData)
 
 		// Paint each record over canvas
diff --git a/internal/card/specific_conditions_g2.go b/internal/card/specific_conditions_g2.go
index 0df51c6..ec37e54 100644
--- a/internal/card/specific_conditions_g2.go
+++ b/internal/card/specific_conditions_g2.go
@@ -72,13 +72,15 @@ func appendCardSpecificConditionsG2(data []byte, conditions *cardv1.SpecificCond
 		return data, nil
 	}
 
-	// Use raw_data as canvas if available (includes pointer + records + trailing bytes)
-	if rawData := conditions.GetRawData(); len(rawData) > 0 {
-		const (
-			lenPointer = 2
-			recordSize = 5
-		)
+	const (
+		lenPointer = 2
+		recordSize = 5
+	)
+	expectedSize := lenPointer + len(conditions.GetRecords())*recordSize
 
+	// Use raw_data as canvas if available and holding as many records
+	// (includes pointer + records + trailing bytes)
+	if rawData := conditions.GetRawData(); len(rawData) >= expectedSize && len(rawData) < expectedSize+recordSize {
 		// Make a copy to use as canvas
 		canvas := make([]byte, len(rawData))
 		copy(canvas, rawData)
@@ -89,10 +91,6 @@ func appendCardSpecificConditionsG2(data []byte, conditions *cardv1.SpecificCond
 		// Paint each record over canvas
 		offset := lenPointer
 		for _, record := range conditions.GetRecords() {
-			if offset+recordSize > len(canvas) {
-				// Canvas too small for all records, fall back to building from scratch
-				goto fallback
-			}
 			recordBytes, err := dd.AppendSpecificConditionRecord(nil, record)
 			if err != nil {
 				return nil, fmt.Errorf("failed to append specific condition record: %w", err)
@@ -108,7 +106,6 @@ func appendCardSpecificConditionsG2(data []byte, conditions *cardv1.SpecificCond
 		return append(data, canvas...), nil
 	}
 
-fallback:
 	// Fall back to building from scratch
 	pointerBytes := make([]byte, 2)
 	binary.BigEndian.PutUint16(pointerBytes, uint16(conditions.GetNewestRecordIndex()))
diff --git a/internal/card/vehicles_used.go b/internal/card/vehicles_used.go
index ef945c9..299dd3f 100644
--- a/internal/card/vehicles_used.go
+++ b/internal/card/vehicles_used.go
@@ -84,10 +84,11 @@ func appendVehiclesUsed(dst []byte, vehiclesUsed *cardv1.VehiclesUsed) ([]byte,
 	numRecords := len(vehiclesUsed.GetRecords())
 	expectedSize := 2 + (numRecords * recordSize)
 
-	// Use raw_data as canvas if available and correct size
-	if rawData := vehiclesUsed.GetRawData(); len(rawData) == expectedSize {
+	// Use raw_data as canvas if available and holding as many records
+	// (bytes that are too few for another record are kept)
+	if rawData := vehiclesUsed.GetRawData(); len(rawData) >= expectedSize && len(rawData) < expectedSize+recordSize {
 		// Make a copy to use as canvas
-		canvas := make([]byte, expectedSize)
+		canvas := make([]byte, len(rawData))
 		copy(canvas, rawData)
 
 		// Paint newest record index over canvas
diff --git a/internal/card/vehicles_used_g2.go b/internal/card/vehicles_used_g2.go
index 1694a59..8e13a6d 100644
--- a/internal/card/vehicles_used_g2.go
+++ b/internal/card/vehicles_used_g2.go
@@ -84,10 +84,11 @@ func appendVehiclesUsedG2(dst []byte, vehiclesUsed *cardv1.VehiclesUsedG2) ([]by
 	numRecords := len(vehiclesUsed.GetRecords())
 	expectedSize := 2 + (numRecords * recordSize)
 
-	// Use raw_data as canvas if available and correct size
-	if rawData := vehiclesUsed.GetRawData(); len(rawData) == expectedSize {
+	// Use raw_data as canvas if available and holding as many records
+	// (bytes that are too few for another record are kept)
+	if rawData := vehiclesUsed.GetRawData(); len(rawData) >= expectedSize && len(rawData) < expectedSize+recordSize {
 		// Make a copy to use as canvas
-		canvas := make([]byte, expectedSize)
+		canvas := make([]byte, len(rawData))
 		copy(canvas, rawData)
 
 		// Paint newest record index over canvas
-- 
2.43.0


From 7cc44b651aeb386a98e87f2be52a62085ce83cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 23/52] fix: recognize letters in the card indices of a driver
 card

---
 internal/card/identification.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/card/identification.go b/internal/card/identification.go
index eeec872..2a352e4 100644
--- a/internal/card/identification.go
+++ b/internal/card/identification.go
@@ -83,15 +83,15 @@ func (opts UnmarshalOptions) unmarshalIdentification(data []byte) (*cardv1.Ident
 	// Determine card type based on the data structure
 	// Driver cards have 14 bytes for identification, other cards have 13 bytes
 	// We can detect this by checking if the 14th byte is a valid IA5String character
-	// and if the 15th and 16th bytes are single digits (replacement/renewal indices)
+	// and if the 15th and 16th bytes are replacement/renewal indices
 
 	// Try to parse as driver card first (14 + 1 + 1 format)
 	driverIdentification, err := opts.UnmarshalIa5StringValue(cardNumberData[0:14])
 	if err == nil {
-		// Check if bytes 14 and 15 are single digits (0-9)
+		// Check if bytes 14 and 15 are card indices (0-9, then A-Z)
 		replacementByte := cardNumberData[14]
 		renewalByte := cardNumberData[15]
-		if replacementByte >= '0' && replacementByte <= '9' && renewalByte >= '0' && renewalByte <= '9' {
+		if isCardIndex(replacementByte) && isCardIndex(renewalByte) {
 			// This looks like a driver card format
 			driverID := &ddv1.DriverIdentification{}
 			driverID.SetDriverIdentificationNumber(driverIdentification)
@@ -277,6 +277,12 @@ func (opts UnmarshalOptions) unmarshalIdentification(data []byte) (*cardv1.Ident
 	return &identification, nil
 }
 
+// isCardIndex tells if b is a card replacement or renewal index, which count 0-9, then A-Z
+// (Data Dictionary, Sections 2.30 and 2.31).
+func isCardIndex(b byte) bool {
+	return b >= '0' && b <= '9' || b >= 'A' && b <= 'Z'
+}
+
 // AppendCardIdentification appends the binary representation of CardIdentification to dst.
 //
 // The data type `CardIdentification` is specified in the Data Dictionary, Section 2.1.
-- 
2.43.0


From 245a30b9e5918730f4e611d8c75563c5cd2f2917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 24/52] fix: keep the bytes of the card number in the
 identification of a driver card

---
 internal/card/identification.go | 87 +++++++++++++++------------------
 1 file changed, 40 insertions(+), 47 deletions(-)

diff --git a/internal/card/identification.go b/internal/card/identification.go
index 2a352e4..e67575f 100644
--- a/internal/card/identification.go
+++ b/internal/card/identification.go
@@ -338,67 +338,43 @@ func appendCardIdentification(dst []byte, id *cardv1.Identification_Card) ([]byt
 		// Driver card: 14 bytes identification + 1 byte replacement + 1 byte renewal
 		identification := driverID.GetDriverIdentificationNumber()
 		if identification != nil {
-			// Pad or truncate to exactly 14 bytes
-			identStr := identification.GetValue()
-			if len(identStr) > 14 {
-				identStr = identStr[:14]
-			}
-			copy(cardNumberBytes[0:14], []byte(identStr))
-			// Pad with spaces if needed
-			for i := len(identStr); i < 14; i++ {
-				cardNumberBytes[i] = ' '
+			if err := putIa5String(cardNumberBytes[0:14], identification); err != nil {
+				return nil, fmt.Errorf("failed to append driver identification: %w", err)
 			}
 		}
 		// Write replacement and renewal indices (1 byte each)
 		replacementIndex := driverID.GetCardReplacementIndex()
-		if replacementIndex != nil && len(replacementIndex.GetValue()) > 0 {
-			cardNumberBytes[14] = replacementIndex.GetValue()[0]
+		if replacementIndex != nil {
+			if err := putIa5String(cardNumberBytes[14:15], replacementIndex); err != nil {
+				return nil, fmt.Errorf("failed to append card replacement index: %w", err)
+			}
 		} else {
 			cardNumberBytes[14] = '0' // Default replacement index
 		}
 		renewalIndex := driverID.GetCardRenewalIndex()
-		if renewalIndex != nil && len(renewalIndex.GetValue()) > 0 {
-			cardNumberBytes[15] = renewalIndex.GetValue()[0]
+		if renewalIndex != nil {
+			if err := putIa5String(cardNumberBytes[15:16], renewalIndex); err != nil {
+				return nil, fmt.Errorf("failed to append card renewal index: %w", err)
+			}
 		} else {
 			cardNumberBytes[15] = '0' // Default renewal index
 		}
 	} else if ownerID := id.GetOwnerIdentification(); ownerID != nil {
 		// Other cards: 13 bytes identification + 1 byte consecutive + 1 byte replacement + 1 byte renewal
-		identification := ownerID.GetOwnerIdentification()
-		if identification != nil {
-			// Pad or truncate to exactly 13 bytes
-			identStr := identification.GetValue()
-			if len(identStr) > 13 {
-				identStr = identStr[:13]
-			}
-			copy(cardNumberBytes[0:13], []byte(identStr))
-			// Pad with spaces if needed
-			for i := len(identStr); i < 13; i++ {
-				cardNumberBytes[i] = ' '
-			}
-		}
-		consecutive := ownerID.GetConsecutiveIndex()
-		if consecutive != nil {
-			// Convert string to byte value
-			consecutiveStr := consecutive.GetValue()
-			if len(consecutiveStr) > 0 {
-				cardNumberBytes[13] = consecutiveStr[0]
-			}
-		}
-		replacement := ownerID.GetReplacementIndex()
-		if replacement != nil {
-			// Convert string to byte value
-			replacementStr := replacement.GetValue()
-			if len(replacementStr) > 0 {
-				cardNumberBytes[14] = replacementStr[0]
+		for _, part := range []struct {
+			dst   []byte
+			value *ddv1.Ia5StringValue
+		}{
+			{cardNumberBytes[0:13], ownerID.GetOwnerIdentification()},
+			{cardNumberBytes[13:14], ownerID.GetConsecutiveIndex()},
+			{cardNumberBytes[14:15], ownerID.GetReplacementIndex()},
+			{cardNumberBytes[15:16], ownerID.GetRenewalIndex()},
+		} {
+			if part.value == nil {
+				continue
 			}
-		}
-		renewal := ownerID.GetRenewalIndex()
-		if renewal != nil {
-			// Convert string to byte value
-			renewalStr := renewal.GetValue()
-			if len(renewalStr) > 0 {
-				cardNumberBytes[15] = renewalStr[0]
+			if err := putIa5String(part.dst, part.value); err != nil {
+				return nil, fmt.Errorf("failed to append owner identification: %w", err)
 			}
 		}
 	}
@@ -422,6 +398,23 @@ func appendCardIdentification(dst []byte, id *cardv1.Identification_Card) ([]byt
 	return dst, nil
 }
 
+// putIa5String writes a string to the fixed size of dst: its original bytes if it holds them,
+// its value padded with spaces otherwise.
+func putIa5String(dst []byte, sv *ddv1.Ia5StringValue) error {
+	if raw := sv.GetRawData(); len(raw) == len(dst) {
+		copy(dst, raw)
+		return nil
+	}
+	value := sv.GetValue()
+	if len(value) > len(dst) {
+		return fmt.Errorf("string value '%s' is longer than the allowed length %d", value, len(dst))
+	}
+	for i := copy(dst, value); i < len(dst); i++ {
+		dst[i] = ' '
+	}
+	return nil
+}
+
 // AppendDriverCardHolderIdentification appends the binary representation of DriverCardHolderIdentification to dst.
 //
 // The data type `DriverCardHolderIdentification` is specified in the Data Dictionary, Section 2.1.
-- 
2.43.0


From 9e373a242420de86b76f7de2625390512e92880f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 25/52] fix: read and write the control card number and
 reserved control type bits of control activities

---
 internal/card/control_activity.go | 64 ++++++++-----------------------
 1 file changed, 17 insertions(+), 47 deletions(-)

diff --git a/internal/card/control_activity.go b/internal/card/control_activity.go
index 9b3fd62..fa57a4a 100644
--- a/internal/card/control_activity.go
+++ b/internal/card/control_activity.go
@@ -65,33 +65,23 @@ func (opts UnmarshalOptions) unmarshalControlActivityData(data []byte) (*cardv1.
 	target.SetControlTime(controlTimestamp)
 	offset += 4
 
-	// Read control card number (18 bytes) - this should be parsed as a proper FullCardNumberAndGeneration
-	// For now, create a basic structure - this needs proper protocol parsing
-	fullCardNumberAndGeneration := &ddv1.FullCardNumberAndGeneration{}
-
-	fullCardNumber := &ddv1.FullCardNumber{}
-	fullCardNumber.SetCardType(ddv1.EquipmentType_DRIVER_CARD)
-
-	// Read the card number as IA5 string
+	// Read control card number (18 bytes)
 	if offset+18 > len(data) {
 		return nil, fmt.Errorf("insufficient data for control card number")
 	}
-	cardNumberStr, err := opts.UnmarshalIa5StringValue(data[offset : offset+18])
+	fullCardNumber, err := opts.UnmarshalFullCardNumber(data[offset : offset+18])
 	if err != nil {
-		return nil, fmt.Errorf("failed to read control card number: %w", err)
+		// Not the number of a card: preserve the original bytes
+		var invalid cardv1.ControlActivityData
+		invalid.SetValid(false)
+		invalid.SetRawData(data)
+		return &invalid, nil
 	}
 	offset += 18
 
-	// Create driver identification with the card number
-	driverID := &ddv1.DriverIdentification{}
-	driverID.SetDriverIdentificationNumber(cardNumberStr)
-	fullCardNumber.SetDriverIdentification(driverID)
-
-	// Set the full card number in the generation wrapper
+	// The generation of the control card is not part of the record and stays unset
+	fullCardNumberAndGeneration := &ddv1.FullCardNumberAndGeneration{}
 	fullCardNumberAndGeneration.SetFullCardNumber(fullCardNumber)
-	// Default to Generation 1 for now - this should be determined from context
-	fullCardNumberAndGeneration.SetGeneration(ddv1.Generation_GENERATION_1)
-
 	target.SetControlCardNumber(fullCardNumberAndGeneration)
 
 	// Read vehicle registration (15 bytes: 1 byte nation + 14 bytes number)
@@ -161,35 +151,15 @@ func appendCardControlActivityData(data []byte, controlData *cardv1.ControlActiv
 
 	// Valid record: serialize semantic data
 	// Control type (1 byte)
-	controlType := controlData.GetControlType()
-	var controlTypeByte byte
-	if controlType != nil {
-		// Build bitmask from boolean fields
-		// Structure: 'cvpdexxx'B
-		// - 'c': card downloading
-		// - 'v': VU downloading
-		// - 'p': printing
-		// - 'd': display
-		// - 'e': calibration checking
-		if controlType.GetCardDownloading() {
-			controlTypeByte |= 0x80 // bit 7
-		}
-		if controlType.GetVuDownloading() {
-			controlTypeByte |= 0x40 // bit 6
-		}
-		if controlType.GetPrinting() {
-			controlTypeByte |= 0x20 // bit 5
-		}
-		if controlType.GetDisplay() {
-			controlTypeByte |= 0x10 // bit 4
-		}
-		if controlType.GetCalibrationChecking() {
-			controlTypeByte |= 0x08 // bit 3
+	var err error
+	if controlType := controlData.GetControlType(); controlType != nil {
+		data, err = dd.AppendControlType(data, controlType)
+		if err != nil {
+			return nil, fmt.Errorf("failed to append control type: %w", err)
 		}
+	} else {
+		data = append(data, 0x00)
 	}
-	data = append(data, controlTypeByte)
-
-	var err error
 
 	// Control time (4 bytes)
 	data, err = dd.AppendTimeReal(data, controlData.GetControlTime())
@@ -198,7 +168,7 @@ func appendCardControlActivityData(data []byte, controlData *cardv1.ControlActiv
 	}
 
 	// Control card number (18 bytes)
-	data, err = dd.AppendFullCardNumberAsString(data, controlData.GetControlCardNumber().GetFullCardNumber(), 18)
+	data, err = dd.AppendFullCardNumber(data, controlData.GetControlCardNumber().GetFullCardNumber())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 6b914aa4d32953cf39cf1411566438b28e2a44c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 26/52] fix: read and write the application identification V2
 in the format of the Regulation

---
 .../card/application_identification_v2.go     | 114 ++++++++++--------
 1 file changed, 62 insertions(+), 52 deletions(-)

diff --git a/internal/card/application_identification_v2.go b/internal/card/application_identification_v2.go
index 9837022..18fcecb 100644
--- a/internal/card/application_identification_v2.go
+++ b/internal/card/application_identification_v2.go
@@ -4,29 +4,31 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math"
 
 	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
 )
 
 // unmarshalApplicationIdentificationV2 parses the binary data for an EF_ApplicationIdentificationV2 record.
 //
-// The data type `ApplicationIdentificationV2` is specified in the Data Dictionary, Section 2.2.
+// The data type `DriverCardApplicationIdentificationV2` is specified in the Data Dictionary, Section 2.61a.
 //
 // ASN.1 Definition:
 //
-//	ApplicationIdentificationV2 ::= SEQUENCE {
-//	    noOfBorderCrossingRecords    INTEGER(0..255),
-//	    noOfLoadUnloadRecords        INTEGER(0..255),
-//	    noOfLoadTypeEntryRecords     INTEGER(0..255),
-//	    vuConfigurationLengthRange   INTEGER(0..255)
+//	DriverCardApplicationIdentificationV2 ::= SEQUENCE {
+//	    lengthOfFollowingData        INTEGER(0..65535),
+//	    noOfBorderCrossingRecords    INTEGER(0..65535),
+//	    noOfLoadUnloadRecords        INTEGER(0..65535),
+//	    noOfLoadTypeEntryRecords     INTEGER(0..65535),
+//	    vuConfigurationLengthRange   INTEGER(0..65535)
 //	}
 func (opts UnmarshalOptions) unmarshalApplicationIdentificationV2(data []byte) (*cardv1.ApplicationIdentificationV2, error) {
 	const (
-		lenEfApplicationIdentificationV2 = 4 // EF_ApplicationIdentificationV2 record size
+		lenEfApplicationIdentificationV2 = 10 // 5 fields of 2 bytes
 	)
 
-	if len(data) < lenEfApplicationIdentificationV2 {
-		return nil, fmt.Errorf("insufficient data for application identification V2: got %d bytes, need %d", len(data), lenEfApplicationIdentificationV2)
+	if len(data) != lenEfApplicationIdentificationV2 {
+		return nil, fmt.Errorf("invalid data length for application identification V2: got %d bytes, need %d", len(data), lenEfApplicationIdentificationV2)
 	}
 	var target cardv1.ApplicationIdentificationV2
 	r := bytes.NewReader(data)
@@ -34,29 +36,36 @@ func (opts UnmarshalOptions) unmarshalApplicationIdentificationV2(data []byte) (
 	// For now, assume this is a driver card and create the driver data
 	driver := &cardv1.ApplicationIdentificationV2_Driver{}
 
-	// Read border crossing records count (1 byte)
-	var borderCrossingCount byte
+	// Read length of following data (2 bytes)
+	var lengthOfFollowingData uint16
+	if err := binary.Read(r, binary.BigEndian, &lengthOfFollowingData); err != nil {
+		return nil, fmt.Errorf("failed to read length of following data: %w", err)
+	}
+	driver.SetLengthOfFollowingData(int32(lengthOfFollowingData))
+
+	// Read border crossing records count (2 bytes)
+	var borderCrossingCount uint16
 	if err := binary.Read(r, binary.BigEndian, &borderCrossingCount); err != nil {
 		return nil, fmt.Errorf("failed to read border crossing records count: %w", err)
 	}
 	driver.SetBorderCrossingRecordsCount(int32(borderCrossingCount))
 
-	// Read load/unload records count (1 byte)
-	var loadUnloadCount byte
+	// Read load/unload records count (2 bytes)
+	var loadUnloadCount uint16
 	if err := binary.Read(r, binary.BigEndian, &loadUnloadCount); err != nil {
 		return nil, fmt.Errorf("failed to read load/unload records count: %w", err)
 	}
 	driver.SetLoadUnloadRecordsCount(int32(loadUnloadCount))
 
-	// Read load type entry records count (1 byte)
-	var loadTypeCount byte
+	// Read load type entry records count (2 bytes)
+	var loadTypeCount uint16
 	if err := binary.Read(r, binary.BigEndian, &loadTypeCount); err != nil {
 		return nil, fmt.Errorf("failed to read load type entry records count: %w", err)
 	}
 	driver.SetLoadTypeEntryRecordsCount(int32(loadTypeCount))
 
-	// Read VU configuration length range (1 byte)
-	var vuConfigRange byte
+	// Read VU configuration length range (2 bytes)
+	var vuConfigRange uint16
 	if err := binary.Read(r, binary.BigEndian, &vuConfigRange); err != nil {
 		return nil, fmt.Errorf("failed to read VU configuration length range: %w", err)
 	}
@@ -71,60 +80,61 @@ func (opts UnmarshalOptions) unmarshalApplicationIdentificationV2(data []byte) (
 
 // AppendCardApplicationIdentificationV2 appends application identification V2 data to a byte slice.
 //
-// The data type `ApplicationIdentificationV2` is specified in the Data Dictionary, Section 2.2.
+// The data type `DriverCardApplicationIdentificationV2` is specified in the Data Dictionary, Section 2.61a.
 //
 // ASN.1 Definition:
 //
-//	ApplicationIdentificationV2 ::= SEQUENCE {
-//	    noOfBorderCrossingRecords    INTEGER(0..255),
-//	    noOfLoadUnloadRecords        INTEGER(0..255),
-//	    noOfLoadTypeEntryRecords     INTEGER(0..255),
-//	    vuConfigurationLengthRange   INTEGER(0..255)
+//	DriverCardApplicationIdentificationV2 ::= SEQUENCE {
+//	    lengthOfFollowingData        INTEGER(0..65535),
+//	    noOfBorderCrossingRecords    INTEGER(0..65535),
+//	    noOfLoadUnloadRecords        INTEGER(0..65535),
+//	    noOfLoadTypeEntryRecords     INTEGER(0..65535),
+//	    vuConfigurationLengthRange   INTEGER(0..65535)
 //	}
 func appendCardApplicationIdentificationV2(data []byte, appIdV2 *cardv1.ApplicationIdentificationV2) ([]byte, error) {
 	if appIdV2 == nil {
 		return data, nil
 	}
 
-	// Get the appropriate nested message based on card type
-	var borderCrossingRecords, loadUnloadRecords, loadTypeEntryRecords, vuConfigLength int32
+	// Get the fields of the appropriate nested message based on card type
+	var fields []int32
 
 	switch appIdV2.GetCardType() {
 	case cardv1.CardType_DRIVER_CARD:
-		if driver := appIdV2.GetDriver(); driver != nil {
-			borderCrossingRecords = driver.GetBorderCrossingRecordsCount()
-			loadUnloadRecords = driver.GetLoadUnloadRecordsCount()
-			loadTypeEntryRecords = driver.GetLoadTypeEntryRecordsCount()
-			vuConfigLength = driver.GetVuConfigurationLengthRange()
+		driver := appIdV2.GetDriver()
+		fields = []int32{
+			driver.GetLengthOfFollowingData(),
+			driver.GetBorderCrossingRecordsCount(),
+			driver.GetLoadUnloadRecordsCount(),
+			driver.GetLoadTypeEntryRecordsCount(),
+			driver.GetVuConfigurationLengthRange(),
 		}
 	case cardv1.CardType_WORKSHOP_CARD:
-		if workshop := appIdV2.GetWorkshop(); workshop != nil {
-			borderCrossingRecords = workshop.GetBorderCrossingRecordsCount()
-			loadUnloadRecords = workshop.GetLoadUnloadRecordsCount()
-			loadTypeEntryRecords = workshop.GetLoadTypeEntryRecordsCount()
-			vuConfigLength = workshop.GetVuConfigurationLengthRange()
+		workshop := appIdV2.GetWorkshop()
+		fields = []int32{
+			workshop.GetLengthOfFollowingData(),
+			workshop.GetBorderCrossingRecordsCount(),
+			workshop.GetLoadUnloadRecordsCount(),
+			workshop.GetLoadTypeEntryRecordsCount(),
+			workshop.GetVuConfigurationLengthRange(),
 		}
 	case cardv1.CardType_COMPANY_CARD:
-		if company := appIdV2.GetCompany(); company != nil {
-			vuConfigLength = company.GetVuConfigurationLengthRange()
-		}
+		company := appIdV2.GetCompany()
+		fields = []int32{company.GetLengthOfFollowingData(), company.GetVuConfigurationLengthRange()}
 	case cardv1.CardType_CONTROL_CARD:
-		if control := appIdV2.GetControl(); control != nil {
-			vuConfigLength = control.GetVuConfigurationLengthRange()
-		}
+		control := appIdV2.GetControl()
+		fields = []int32{control.GetLengthOfFollowingData(), control.GetVuConfigurationLengthRange()}
+	default:
+		return nil, fmt.Errorf("unsupported card type for application identification V2: %v", appIdV2.GetCardType())
 	}
 
-	// Border crossing records count (1 byte)
-	data = append(data, byte(borderCrossingRecords))
-
-	// Load/unload records count (1 byte)
-	data = append(data, byte(loadUnloadRecords))
-
-	// Load type entry records count (1 byte)
-	data = append(data, byte(loadTypeEntryRecords))
-
-	// VU configuration length range (1 byte)
-	data = append(data, byte(vuConfigLength))
+	// Each field has 2 bytes
+	for _, field := range fields {
+		if field < 0 || field > math.MaxUint16 {
+			return nil, fmt.Errorf("value %d is out of range for application identification V2", field)
+		}
+		data = binary.BigEndian.AppendUint16(data, uint16(field))
+	}
 
 	return data, nil
 }
-- 
2.43.0


From 2cbbfb55bdd3d22159872f9c26597d2e54f2480a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:24 +0000
Subject: [PATCH 27/52] fix: read every day of the cyclic activity log and
 encode edited days

---
 internal/card/activity.go | 294 ++++++++++++++++++++++----------------
 1 file changed, 172 insertions(+), 122 deletions(-)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index 061c706..169ec24 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math"
 
 	"github.com/way-platform/tachograph-go/internal/dd"
 
@@ -178,9 +179,9 @@ func (opts UnmarshalOptions) parseSingleActivityDailyRecord(data []byte) (*cardv
 	var activityChanges []*ddv1.ActivityChangeInfo
 
 	for offset+2 <= len(data) {
-		// Check for invalid entries before parsing (all zeros or all ones)
-		changeData := binary.BigEndian.Uint16(data[offset : offset+2])
-		if changeData == 0 || changeData == 0xFFFF {
+		// Skip entries that hold no activity change (all ones). An entry of zeros
+		// is one: a break or rest from midnight with the card in the driver slot.
+		if isUnusedActivityChangeInfo(data[offset : offset+2]) {
 			offset += 2
 			continue
 		}
@@ -231,24 +232,121 @@ func appendDriverActivity(dst []byte, activity *cardv1.DriverActivityData) ([]by
 		return dst, nil
 	}
 
-	// Append header (pointers)
-	dst = binary.BigEndian.AppendUint16(dst, uint16(activity.GetOldestDayRecordIndex()))
-	dst = binary.BigEndian.AppendUint16(dst, uint16(activity.GetNewestDayRecordIndex()))
-
-	// For perfect round-trip fidelity, use raw buffer directly when available.
-	// This preserves all padding, reserved bits, and linked-list structure.
-	if rawBuffer := activity.GetRawData(); len(rawBuffer) > 0 {
-		dst = append(dst, rawBuffer...)
+	records := activity.GetDailyRecords()
+	oldest, newest := activity.GetOldestDayRecordIndex(), activity.GetNewestDayRecordIndex()
+	buffer := activity.GetRawData()
+	if len(buffer) > 0 || len(records) == 0 {
+		// Paint the records over the original buffer, at their original positions.
+		// This preserves all padding and the linked-list structure.
+		painted, ok, err := paintDailyRecords(buffer, int(newest), records)
+		if err != nil {
+			return nil, fmt.Errorf("failed to paint daily records: %w", err)
+		}
+		if !ok {
+			// The records do not have the layout of the original buffer any more.
+			rebuilt, newestPos, err := buildCyclicBufferFromRecords(records)
+			if err != nil {
+				return nil, fmt.Errorf("failed to build cyclic buffer: %w", err)
+			}
+			if len(rebuilt) > len(buffer) {
+				return nil, fmt.Errorf("daily records need %d bytes, but the cyclic buffer has %d", len(rebuilt), len(buffer))
+			}
+			painted = append(rebuilt, make([]byte, len(buffer)-len(rebuilt))...)
+			oldest, newest = 0, int32(newestPos)
+		}
+		buffer = painted
 	} else {
 		// Fallback: Build cyclic buffer from scratch with proper linked-list structure
-		buffer, err := buildCyclicBufferFromRecords(activity.GetDailyRecords(), int(activity.GetNewestDayRecordIndex()))
+		rebuilt, newestPos, err := buildCyclicBufferFromRecords(records)
 		if err != nil {
 			return nil, fmt.Errorf("failed to build cyclic buffer: %w", err)
 		}
-		dst = append(dst, buffer...)
+		buffer = rebuilt
+		oldest, newest = 0, int32(newestPos)
+	}
+	if oldest < 0 || oldest > math.MaxUint16 || newest < 0 || newest > math.MaxUint16 {
+		return nil, fmt.Errorf("day record pointers %d and %d are out of range", oldest, newest)
 	}
 
-	return dst, nil
+	// Append header (pointers)
+	dst = binary.BigEndian.AppendUint16(dst, uint16(oldest))
+	dst = binary.BigEndian.AppendUint16(dst, uint16(newest))
+	return append(dst, buffer...), nil
+}
+
+// isUnusedActivityChangeInfo reports whether the bytes of an ActivityChangeInfo
+// hold no activity change.
+func isUnusedActivityChangeInfo(data []byte) bool {
+	return data[0] == 0xFF && data[1] == 0xFF
+}
+
+// paintDailyRecords returns a copy of a cyclic buffer with its daily records
+// replaced, at the positions where the linked list that ends at the newest record
+// has them. It returns false if the records do not have the layout of that list.
+func paintDailyRecords(buffer []byte, newestPos int, records []*cardv1.DriverActivityData_DailyRecord) ([]byte, bool, error) {
+	canvas := bytes.Clone(buffer)
+	iterator := NewCyclicRecordIterator(buffer, newestPos)
+	remaining := len(records)
+	for iterator.Next() {
+		if remaining == 0 {
+			return nil, false, nil
+		}
+		remaining--
+		recordBytes, position, _ := iterator.Record()
+		painted, ok, err := paintDailyRecord(recordBytes, records[remaining])
+		if err != nil {
+			return nil, false, fmt.Errorf("record %d: %w", remaining, err)
+		}
+		if !ok {
+			return nil, false, nil
+		}
+		for i, b := range painted {
+			// Records of a damaged list can overlap: only paint what changed.
+			if b != recordBytes[i] {
+				canvas[(position+i)%len(canvas)] = b
+			}
+		}
+	}
+	if err := iterator.Err(); err != nil {
+		return nil, false, err
+	}
+	return canvas, remaining == 0, nil
+}
+
+// paintDailyRecord returns a copy of the bytes of a daily record with its values
+// replaced. It returns false if the record does not have the layout of the bytes.
+func paintDailyRecord(data []byte, rec *cardv1.DriverActivityData_DailyRecord) ([]byte, bool, error) {
+	const (
+		lenHeader  = 4
+		idxChanges = 12
+	)
+	if !rec.GetValid() {
+		return rec.GetRawData(), len(rec.GetRawData()) == len(data) && bytes.Equal(rec.GetRawData()[:lenHeader], data[:lenHeader]), nil
+	}
+	changes := rec.GetActivityChangeInfo()
+	if len(data) < idxChanges ||
+		rec.GetActivityPreviousRecordLength() != int32(binary.BigEndian.Uint16(data)) ||
+		rec.GetActivityRecordLength() != int32(binary.BigEndian.Uint16(data[2:])) {
+		return nil, false, nil
+	}
+	painted, err := marshalRecordWithHeader(rec, int(rec.GetActivityPreviousRecordLength()), int(rec.GetActivityRecordLength()))
+	if err != nil {
+		return nil, false, err
+	}
+	canvas := bytes.Clone(data)
+	copy(canvas, painted[:idxChanges])
+	painted = painted[idxChanges:]
+	for offset := idxChanges; offset+2 <= len(data); offset += 2 {
+		if isUnusedActivityChangeInfo(data[offset : offset+2]) {
+			continue
+		}
+		if len(changes) == 0 {
+			return nil, false, nil
+		}
+		copy(canvas[offset:], painted[:2])
+		changes, painted = changes[1:], painted[2:]
+	}
+	return canvas, len(changes) == 0, nil
 }
 
 // cyclicRecordIterator provides a clean interface for traversing the cyclic buffer
@@ -261,7 +359,7 @@ func appendDriverActivity(dst []byte, activity *cardv1.DriverActivityData) ([]by
 type cyclicRecordIterator struct {
 	buffer      []byte
 	currentPos  int
-	recordCount int
+	totalLength int
 	err         error
 
 	// Current record state
@@ -283,24 +381,20 @@ func NewCyclicRecordIterator(buffer []byte, startPos int) *cyclicRecordIterator
 // Returns true if a record was found, false if end of chain or error.
 // The iterator traverses backwards from newest to oldest record.
 func (it *cyclicRecordIterator) Next() bool {
-	const maxRecords = 366 // Safety limit to prevent infinite loops (max days per year + 1)
 	if it.err != nil {
 		return false
 	}
-	if it.recordCount >= maxRecords {
-		it.err = fmt.Errorf("exceeded maximum record count (%d), possible infinite loop", maxRecords)
-		return false
-	}
 	if len(it.buffer) == 0 {
 		return false // No data to parse
 	}
 	// Validate current position for reading header
-	if it.currentPos < 0 || it.currentPos+4 > len(it.buffer) {
+	if it.currentPos < 0 || it.currentPos >= len(it.buffer) {
 		return false // Invalid position for header
 	}
 	// Read record header (4 bytes: prevRecordLength + currentRecordLength)
-	prevRecordLength := int(binary.BigEndian.Uint16(it.buffer[it.currentPos : it.currentPos+2]))
-	currentRecordLength := int(binary.BigEndian.Uint16(it.buffer[it.currentPos+2 : it.currentPos+4]))
+	header := it.read(4)
+	prevRecordLength := int(binary.BigEndian.Uint16(header))
+	currentRecordLength := int(binary.BigEndian.Uint16(header[2:]))
 	if currentRecordLength == 0 {
 		return false // Zero-length record signifies end of chain
 	}
@@ -309,15 +403,16 @@ func (it *cyclicRecordIterator) Next() bool {
 		it.err = fmt.Errorf("invalid record length %d at position %d", currentRecordLength, it.currentPos)
 		return false
 	}
+	// The records of one traversal have to fit the buffer (this also ends loops)
+	it.totalLength += currentRecordLength
+	if it.totalLength > len(it.buffer) {
+		it.err = fmt.Errorf("records exceed the cyclic buffer of %d bytes at position %d, possible infinite loop", len(it.buffer), it.currentPos)
+		return false
+	}
 	// Store current record information
 	it.recordStart = it.currentPos
 	it.recordLength = currentRecordLength
-	// Extract record bytes, handling buffer wrap-around
-	it.recordBytes = make([]byte, currentRecordLength)
-	for i := 0; i < currentRecordLength; i++ {
-		it.recordBytes[i] = it.buffer[(it.currentPos+i)%len(it.buffer)]
-	}
-	it.recordCount++
+	it.recordBytes = it.read(currentRecordLength)
 	// Move to previous record for next iteration
 	if prevRecordLength == 0 {
 		// End of chain marker - no more records
@@ -332,6 +427,16 @@ func (it *cyclicRecordIterator) Next() bool {
 	return true
 }
 
+// read returns n bytes of the buffer from the current position, which may wrap
+// around the end of the buffer.
+func (it *cyclicRecordIterator) read(n int) []byte {
+	data := make([]byte, n)
+	for i := range data {
+		data[i] = it.buffer[(it.currentPos+i)%len(it.buffer)]
+	}
+	return data
+}
+
 // Record returns the bytes of the current record along with its position and length
 // in the original buffer. This information is needed for the buffer painting strategy.
 func (it *cyclicRecordIterator) Record() (recordBytes []byte, position int, length int) {
@@ -346,107 +451,56 @@ func (it *cyclicRecordIterator) Err() error {
 // buildCyclicBufferFromRecords constructs a cyclic buffer from scratch with proper
 // linked-list structure. This is used when raw_data is not available (e.g., after anonymization).
 //
-// LIMITATION: This function does not perfectly reconstruct the original cyclic buffer because:
-// - We don't know the original buffer's total size (only the records we parsed)
-// - We don't know the original absolute positions of records (only relative prev/current lengths)
-// - We create a sequential buffer sized to fit all records contiguously
-//
-// This means the reconstructed buffer may differ from the original in:
-// - Total buffer size
-// - Record positions (we place sequentially, original may have gaps/wrapping)
-// - The order records appear when re-parsed (cyclic iterator may traverse differently)
-//
-// For perfect fidelity, callers should preserve and use the original raw_data buffer directly.
-// This fallback is primarily for testing scenarios where we need to marshal modified records.
-//
-// TODO: To fix this limitation:
-// - Store original buffer size during parsing
-// - Store absolute positions of records (not just prev/next lengths)
-// - Allocate buffer of original size and place records at original positions
+// The reconstructed buffer may differ from the original in its total size and in the
+// positions of the records, which are placed sequentially. For perfect fidelity, callers
+// should preserve the original raw_data buffer.
 //
 // The cyclic buffer structure:
 // - Records are stored sequentially in chronological order (oldest to newest)
 // - Each record has a header: [prevRecordLength: 2 bytes][currentRecordLength: 2 bytes]
 // - The prevRecordLength points backward to enable traversal from newest to oldest
-// - The newest record is at position newestRecordPos
+// - The position of the newest record is returned
 //
 // The buffer is sized to accommodate all records sequentially starting from position 0.
-func buildCyclicBufferFromRecords(records []*cardv1.DriverActivityData_DailyRecord, newestRecordPos int) ([]byte, error) {
+func buildCyclicBufferFromRecords(records []*cardv1.DriverActivityData_DailyRecord) ([]byte, int, error) {
 	if len(records) == 0 {
-		return nil, nil
-	}
-
-	// First pass: calculate the size of each record
-	recordSizes := make([]int, len(records))
-	totalRecordsSize := 0
-	for i, rec := range records {
-		if !rec.GetValid() {
-			// For invalid records, use raw_data length if available
-			if raw := rec.GetRawData(); len(raw) > 0 {
-				recordSizes[i] = len(raw)
-			} else {
-				return nil, fmt.Errorf("invalid record %d has no raw data", i)
-			}
-		} else {
-			// Calculate size for valid record
-			size, err := calculateRecordSize(rec)
-			if err != nil {
-				return nil, fmt.Errorf("failed to calculate size for record %d: %w", i, err)
-			}
-			recordSizes[i] = size
-		}
-		totalRecordsSize += recordSizes[i]
+		return nil, 0, nil
 	}
 
-	// Calculate buffer size: must be large enough for all records starting at position 0
-	// In a real cyclic buffer, we'd place records at their original positions, but since
-	// we don't know the original buffer size, we create a buffer that fits all records sequentially.
-	bufferSize := totalRecordsSize
-
-	// Allocate buffer (zero-filled by default)
-	buffer := make([]byte, bufferSize)
-
-	// Second pass: write records to buffer with proper linked-list pointers
-	// Records are written in chronological order (oldest to newest)
-	currentPos := 0
+	var buffer []byte
+	newestPos := 0
+	prevRecordLength := 0
 	for i, rec := range records {
-		recordSize := recordSizes[i]
-
-		// Calculate prevRecordLength (0 for first/oldest record, previous record's size for others)
-		prevRecordLength := 0
-		if i > 0 {
-			prevRecordLength = recordSizes[i-1]
+		recordSize := calculateRecordSize(rec)
+		if recordSize > math.MaxUint16 {
+			return nil, 0, fmt.Errorf("record %d is too long: %d bytes", i, recordSize)
 		}
-
-		// Write the record
-		if !rec.GetValid() {
-			// For invalid records, copy raw_data as-is (it already has the correct header)
-			copy(buffer[currentPos:], rec.GetRawData())
-		} else {
-			// For valid records, marshal with proper header
+		newestPos = len(buffer)
+		if rec.GetValid() {
 			recordWithHeader, err := marshalRecordWithHeader(rec, prevRecordLength, recordSize)
 			if err != nil {
-				return nil, fmt.Errorf("failed to marshal record %d: %w", i, err)
+				return nil, 0, fmt.Errorf("failed to marshal record %d: %w", i, err)
 			}
-			copy(buffer[currentPos:], recordWithHeader)
+			buffer = append(buffer, recordWithHeader...)
+		} else {
+			// For invalid records, only the header is updated.
+			if recordSize < 4 {
+				return nil, 0, fmt.Errorf("invalid record %d has no raw data", i)
+			}
+			buffer = append(buffer, rec.GetRawData()...)
+			binary.BigEndian.PutUint16(buffer[newestPos:], uint16(prevRecordLength))
+			binary.BigEndian.PutUint16(buffer[newestPos+2:], uint16(recordSize))
 		}
-
-		currentPos += recordSize
+		prevRecordLength = recordSize
 	}
-
-	return buffer, nil
+	if newestPos > math.MaxUint16 {
+		return nil, 0, fmt.Errorf("records are too long: %d bytes", len(buffer))
+	}
+	return buffer, newestPos, nil
 }
 
 // calculateRecordSize calculates the size of a marshalled activity record.
-// For records with activity_record_length set, we use that to preserve padding.
-// Otherwise, we calculate from content.
-func calculateRecordSize(rec *cardv1.DriverActivityData_DailyRecord) (int, error) {
-	// Use original record length if available (preserves padding)
-	if recordLength := rec.GetActivityRecordLength(); recordLength > 0 {
-		return int(recordLength), nil
-	}
-
-	// Fallback: calculate from content
+func calculateRecordSize(rec *cardv1.DriverActivityData_DailyRecord) int {
 	const (
 		lenHeader               = 4 // prevRecordLength (2) + currentRecordLength (2)
 		lenTimeReal             = 4 // activity record date
@@ -454,11 +508,11 @@ func calculateRecordSize(rec *cardv1.DriverActivityData_DailyRecord) (int, error
 		lenDayDistance          = 2 // distance
 		lenActivityChangeInfo   = 2 // each activity change
 	)
-
-	size := lenHeader + lenTimeReal + lenDailyPresenceCounter + lenDayDistance
-	size += len(rec.GetActivityChangeInfo()) * lenActivityChangeInfo
-
-	return size, nil
+	if !rec.GetValid() {
+		return len(rec.GetRawData())
+	}
+	return lenHeader + lenTimeReal + lenDailyPresenceCounter + lenDayDistance +
+		len(rec.GetActivityChangeInfo())*lenActivityChangeInfo
 }
 
 // marshalRecordWithHeader marshals a single activity record with the correct header values.
@@ -482,6 +536,9 @@ func marshalRecordWithHeader(rec *cardv1.DriverActivityData_DailyRecord, prevRec
 		return nil, fmt.Errorf("failed to append activity daily presence counter: %w", err)
 	}
 
+	if distance := rec.GetActivityDayDistance(); distance < 0 || distance > math.MaxUint16 {
+		return nil, fmt.Errorf("activity day distance %d is out of range", distance)
+	}
 	buf = binary.BigEndian.AppendUint16(buf, uint16(rec.GetActivityDayDistance()))
 
 	// Write activity change info
@@ -492,12 +549,5 @@ func marshalRecordWithHeader(rec *cardv1.DriverActivityData_DailyRecord, prevRec
 		}
 	}
 
-	// Add padding if the current length is less than the expected record length
-	// This preserves any padding bytes that were in the original record
-	if len(buf) < currentRecordLength {
-		padding := make([]byte, currentRecordLength-len(buf))
-		buf = append(buf, padding...)
-	}
-
 	return buf, nil
 }
-- 
2.43.0


From fcfe4b744ebfb8b237dfc454d25f2301d8891ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 28/52] fix: keep card events and faults of types that are not
 in the table

---
 internal/card/events.go | 13 ++++++++++---
 internal/card/faults.go | 14 +++++++++++---
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/internal/card/events.go b/internal/card/events.go
index 924d918..21fe7e4 100644
--- a/internal/card/events.go
+++ b/internal/card/events.go
@@ -56,7 +56,9 @@ func (opts UnmarshalOptions) unmarshalEventsData(data []byte) (*cardv1.EventsDat
 		// Check if this is a valid record by examining the event begin time (first 4 bytes after event type)
 		// Event type is 1 byte, so event begin time starts at byte 1
 		eventBeginTime := binary.BigEndian.Uint32(recordData[1:5])
-		if eventBeginTime == 0 {
+		// Event types that are not in the table (e.g. manufacturer specific ones) cannot be represented
+		_, eventTypeErr := dd.UnmarshalEnum[ddv1.EventFaultType](recordData[0])
+		if eventBeginTime == 0 || eventTypeErr != nil {
 			// Non-valid record: preserve original bytes
 			rec := &cardv1.EventsData_Record{}
 			rec.SetValid(false)
@@ -198,13 +200,18 @@ func appendEventsData(dst []byte, data *cardv1.EventsData) ([]byte, error) {
 //	}
 func appendEventRecord(dst []byte, record *cardv1.EventsData_Record) ([]byte, error) {
 	if !record.GetValid() {
+		if len(record.GetRawData()) != cardEventRecordSize {
+			return nil, fmt.Errorf("invalid raw_data length for event record: got %d, want %d", len(record.GetRawData()), cardEventRecordSize)
+		}
 		return append(dst, record.GetRawData()...), nil
 	}
 
-	protocolValue, _ := dd.MarshalEnum(record.GetEventType())
+	protocolValue, err := dd.MarshalEnum(record.GetEventType())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append event type: %w", err)
+	}
 	dst = append(dst, protocolValue)
 
-	var err error
 	dst, err = dd.AppendTimeReal(dst, record.GetEventBeginTime())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append event begin time: %w", err)
diff --git a/internal/card/faults.go b/internal/card/faults.go
index de06ac7..be4aee4 100644
--- a/internal/card/faults.go
+++ b/internal/card/faults.go
@@ -57,9 +57,12 @@ func (opts UnmarshalOptions) unmarshalFaultsData(data []byte) (*cardv1.FaultsDat
 		// Fault type is 1 byte, so fault begin time starts at byte 1
 		faultBeginTime := binary.BigEndian.Uint32(recordData[1:5])
 
+		// Fault types that are not in the table (e.g. manufacturer specific ones) cannot be represented
+		_, faultTypeErr := dd.UnmarshalEnum[ddv1.EventFaultType](recordData[0])
+
 		rec := &cardv1.FaultsData_Record{}
 
-		if faultBeginTime == 0 {
+		if faultBeginTime == 0 || faultTypeErr != nil {
 			// Non-valid record: preserve original bytes
 			rec.SetValid(false)
 			rec.SetRawData(recordData)
@@ -198,13 +201,18 @@ func appendFaultsData(dst []byte, data *cardv1.FaultsData) ([]byte, error) {
 //	}
 func appendFaultRecord(dst []byte, record *cardv1.FaultsData_Record) ([]byte, error) {
 	if !record.GetValid() {
+		if len(record.GetRawData()) != cardFaultRecordSize {
+			return nil, fmt.Errorf("invalid raw_data length for fault record: got %d, want %d", len(record.GetRawData()), cardFaultRecordSize)
+		}
 		return append(dst, record.GetRawData()...), nil
 	}
 
-	protocolValue, _ := dd.MarshalEnum(record.GetFaultType())
+	protocolValue, err := dd.MarshalEnum(record.GetFaultType())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append fault type: %w", err)
+	}
 	dst = append(dst, protocolValue)
 
-	var err error
 	dst, err = dd.AppendTimeReal(dst, record.GetFaultBeginTime())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append fault begin time: %w", err)
-- 
2.43.0


From 0ff18391dfa3737df5dbf562e1408189f4f4455f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 29/52] fix: refuse truncated vehicle-unit transfers instead of
 panicking

---
 internal/vu/activities.go            | 8 ++++----
 internal/vu/detailed_speed.go        | 2 +-
 internal/vu/events_faults.go         | 8 ++++----
 internal/vu/overview.go              | 4 ++--
 internal/vu/raw_vehicle_unit_file.go | 4 ++--
 internal/vu/technical_data.go        | 2 +-
 6 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/internal/vu/activities.go b/internal/vu/activities.go
index 3d59e67..05e3f8b 100644
--- a/internal/vu/activities.go
+++ b/internal/vu/activities.go
@@ -57,7 +57,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += 3 // OdometerValueMidnight
 
 	// VuCardIWData: 2 bytes count + variable records
-	if len(data[offset:]) < 2 {
+	if len(data)-offset < 2 {
 		return 0, fmt.Errorf("insufficient data for noOfIWRecords")
 	}
 	noOfIWRecords := binary.BigEndian.Uint16(data[offset:])
@@ -71,7 +71,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += int(noOfIWRecords) * vuCardIWRecordSize
 
 	// VuActivityDailyData: 2 bytes count + variable activity changes
-	if len(data[offset:]) < 2 {
+	if len(data)-offset < 2 {
 		return 0, fmt.Errorf("insufficient data for noOfActivityChanges")
 	}
 	noOfActivityChanges := binary.BigEndian.Uint16(data[offset:])
@@ -82,7 +82,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += int(noOfActivityChanges) * activityChangeInfoSize
 
 	// VuPlaceDailyWorkPeriodData: 1 byte count + variable place records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfPlaceRecords")
 	}
 	noOfPlaceRecords := data[offset]
@@ -93,7 +93,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += int(noOfPlaceRecords) * vuPlaceDailyWorkPeriodRecordSize
 
 	// VuSpecificConditionData: 2 bytes count + variable condition records
-	if len(data[offset:]) < 2 {
+	if len(data)-offset < 2 {
 		return 0, fmt.Errorf("insufficient data for noOfSpecificConditionRecords")
 	}
 	noOfSpecificConditionRecords := binary.BigEndian.Uint16(data[offset:])
diff --git a/internal/vu/detailed_speed.go b/internal/vu/detailed_speed.go
index a2b4386..2988c66 100644
--- a/internal/vu/detailed_speed.go
+++ b/internal/vu/detailed_speed.go
@@ -37,7 +37,7 @@ func sizeOfDetailedSpeedGen1(data []byte) (int, error) {
 	offset := 0
 
 	// VuDetailedSpeedData: 2 bytes count + variable speed blocks
-	if len(data[offset:]) < 2 {
+	if len(data)-offset < 2 {
 		return 0, fmt.Errorf("insufficient data for noOfSpeedBlocks")
 	}
 	noOfSpeedBlocks := binary.BigEndian.Uint16(data[offset:])
diff --git a/internal/vu/events_faults.go b/internal/vu/events_faults.go
index 23b4f67..186cc51 100644
--- a/internal/vu/events_faults.go
+++ b/internal/vu/events_faults.go
@@ -77,7 +77,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset := 0
 
 	// VuFaultData: 1 byte count + variable fault records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuFaults")
 	}
 	noOfVuFaults := data[offset]
@@ -88,7 +88,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset += int(noOfVuFaults) * vuFaultRecordSize
 
 	// VuEventData: 1 byte count + variable event records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuEvents")
 	}
 	noOfVuEvents := data[offset]
@@ -102,7 +102,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset += 9
 
 	// VuOverSpeedingEventData: 1 byte count + variable overspeed records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuOverSpeedingEvents")
 	}
 	noOfVuOverSpeedingEvents := data[offset]
@@ -113,7 +113,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset += int(noOfVuOverSpeedingEvents) * vuOverSpeedingEventRecordSize
 
 	// VuTimeAdjustmentData: 1 byte count + variable time adjustment records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuTimeAdjRecords")
 	}
 	noOfVuTimeAdjRecords := data[offset]
diff --git a/internal/vu/overview.go b/internal/vu/overview.go
index c33517e..ea726b2 100644
--- a/internal/vu/overview.go
+++ b/internal/vu/overview.go
@@ -58,7 +58,7 @@ func sizeOfOverviewGen1(data []byte) (int, error) {
 	offset += 58  // VuDownloadActivityData (4 + 18 + 36)
 
 	// VuCompanyLocksData: 1 byte count + variable records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfLocks")
 	}
 	noOfLocks := data[offset]
@@ -70,7 +70,7 @@ func sizeOfOverviewGen1(data []byte) (int, error) {
 	offset += int(noOfLocks) * vuCompanyLocksRecordSize
 
 	// VuControlActivityData: 1 byte count + variable records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfControls")
 	}
 	noOfControls := data[offset]
diff --git a/internal/vu/raw_vehicle_unit_file.go b/internal/vu/raw_vehicle_unit_file.go
index 5e82277..cf4201e 100644
--- a/internal/vu/raw_vehicle_unit_file.go
+++ b/internal/vu/raw_vehicle_unit_file.go
@@ -100,8 +100,8 @@ func sizeOfTransferValue(data []byte, transferType vuv1.TransferType) (int, erro
 // Total size = 5 + (recordSize * noOfRecords)
 func sizeOfRecordArray(data []byte, offset int) (int, error) {
 	const headerSize = 5
-	if len(data[offset:]) < headerSize {
-		return 0, fmt.Errorf("insufficient data for RecordArray header: need %d, have %d", headerSize, len(data[offset:]))
+	if len(data)-offset < headerSize {
+		return 0, fmt.Errorf("insufficient data for RecordArray header: need %d, have %d", headerSize, max(len(data)-offset, 0))
 	}
 
 	recordSize := binary.BigEndian.Uint16(data[offset+1:])
diff --git a/internal/vu/technical_data.go b/internal/vu/technical_data.go
index 5f1fbf6..9210b72 100644
--- a/internal/vu/technical_data.go
+++ b/internal/vu/technical_data.go
@@ -73,7 +73,7 @@ func sizeOfTechnicalDataGen1(data []byte) (int, error) {
 	offset += 20
 
 	// VuCalibrationData: 1 byte count + variable calibration records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuCalibrationRecords")
 	}
 	noOfVuCalibrationRecords := data[offset]
-- 
2.43.0


From ca62249341594e6a777b91691f58ae0ffdaadec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:35 +0000
Subject: [PATCH 30/52] fix: agree on the record arrays of second-generation
 vehicle-unit transfers

---
 internal/vu/activities_gen2_v1.go     |  6 ++++
 internal/vu/activities_gen2_v2.go     | 20 ++++++++++++-
 internal/vu/events_faults.go          |  9 +-----
 internal/vu/events_faults_gen2_v1.go  |  4 +++
 internal/vu/events_faults_gen2_v2.go  |  4 +++
 internal/vu/technical_data.go         | 41 +++++++++++++++++++++++++--
 internal/vu/technical_data_gen2_v1.go | 14 ++++-----
 internal/vu/technical_data_gen2_v2.go | 14 ++++-----
 8 files changed, 86 insertions(+), 26 deletions(-)

diff --git a/internal/vu/activities_gen2_v1.go b/internal/vu/activities_gen2_v1.go
index 16aa91f..6e7a458 100644
--- a/internal/vu/activities_gen2_v1.go
+++ b/internal/vu/activities_gen2_v1.go
@@ -19,6 +19,7 @@ import (
 //	    vuActivityDailyRecordArray            VuActivityDailyRecordArray,
 //	    vuPlaceDailyWorkPeriodRecordArray     VuPlaceDailyWorkPeriodRecordArray,
 //	    vuSpecificConditionRecordArray        VuSpecificConditionRecordArray,
+//	    vuGNSSADRecordArray                   VuGNSSADRecordArray,
 //	    signatureRecordArray                  SignatureRecordArray
 //	}
 //
@@ -75,6 +76,11 @@ func unmarshalActivitiesGen2V1(value []byte) (*vuv1.ActivitiesGen2V1, error) {
 		return nil, err
 	}
 
+	// VuGNSSADRecordArray
+	if err := skipRecordArray("VuGNSSAD"); err != nil {
+		return nil, err
+	}
+
 	// SignatureRecordArray (last)
 	if err := skipRecordArray("Signature"); err != nil {
 		return nil, err
diff --git a/internal/vu/activities_gen2_v2.go b/internal/vu/activities_gen2_v2.go
index 082db25..61a8ca9 100644
--- a/internal/vu/activities_gen2_v2.go
+++ b/internal/vu/activities_gen2_v2.go
@@ -8,7 +8,7 @@ import (
 
 // unmarshalActivitiesGen2V2 parses Gen2 V2 Activities data from the complete transfer value.
 //
-// Gen2 V2 Activities structure is identical to Gen2 V1 (from Data Dictionary):
+// Gen2 V2 Activities structure adds two RecordArrays to Gen2 V1 (from Data Dictionary):
 //
 // ASN.1 Definition:
 //
@@ -19,6 +19,9 @@ import (
 //	    vuActivityDailyRecordArray            VuActivityDailyRecordArray,
 //	    vuPlaceDailyWorkPeriodRecordArray     VuPlaceDailyWorkPeriodRecordArray,
 //	    vuSpecificConditionRecordArray        VuSpecificConditionRecordArray,
+//	    vuGNSSADRecordArray                   VuGNSSADRecordArray,
+//	    vuBorderCrossingRecordArray           VuBorderCrossingRecordArray,
+//	    vuLoadUnloadRecordArray               VuLoadUnloadRecordArray,
 //	    signatureRecordArray                  SignatureRecordArray
 //	}
 //
@@ -75,6 +78,21 @@ func unmarshalActivitiesGen2V2(value []byte) (*vuv1.ActivitiesGen2V2, error) {
 		return nil, err
 	}
 
+	// VuGNSSADRecordArray
+	if err := skipRecordArray("VuGNSSAD"); err != nil {
+		return nil, err
+	}
+
+	// VuBorderCrossingRecordArray
+	if err := skipRecordArray("VuBorderCrossing"); err != nil {
+		return nil, err
+	}
+
+	// VuLoadUnloadRecordArray
+	if err := skipRecordArray("VuLoadUnload"); err != nil {
+		return nil, err
+	}
+
 	// SignatureRecordArray (last)
 	if err := skipRecordArray("Signature"); err != nil {
 		return nil, err
diff --git a/internal/vu/events_faults.go b/internal/vu/events_faults.go
index 186cc51..8860c86 100644
--- a/internal/vu/events_faults.go
+++ b/internal/vu/events_faults.go
@@ -179,7 +179,7 @@ func sizeOfEventsAndFaultsGen2V1(data []byte) (int, error) {
 }
 
 // sizeOfEventsAndFaultsGen2V2 calculates size by parsing all Gen2 V2 RecordArrays.
-// Gen2 V2 has an additional VuTimeAdjustmentGNSSRecordArray.
+// Gen2 V2 has the same RecordArrays as Gen2 V1.
 func sizeOfEventsAndFaultsGen2V2(data []byte) (int, error) {
 	offset := 0
 
@@ -218,13 +218,6 @@ func sizeOfEventsAndFaultsGen2V2(data []byte) (int, error) {
 	}
 	offset += size
 
-	// VuTimeAdjustmentGNSSRecordArray (Gen2 V2+)
-	size, err = sizeOfRecordArray(data, offset)
-	if err != nil {
-		return 0, fmt.Errorf("VuTimeAdjustmentGNSSRecordArray: %w", err)
-	}
-	offset += size
-
 	// SignatureRecordArray (last)
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
diff --git a/internal/vu/events_faults_gen2_v1.go b/internal/vu/events_faults_gen2_v1.go
index 2d8103b..0f1f8c8 100644
--- a/internal/vu/events_faults_gen2_v1.go
+++ b/internal/vu/events_faults_gen2_v1.go
@@ -39,6 +39,10 @@ func unmarshalEventsAndFaultsGen2V1(value []byte) (*vuv1.EventsAndFaultsGen2V1,
 	if err := skipRecordArray("VuOverSpeedingControl"); err != nil {
 		return nil, err
 	}
+	// VuOverSpeedingEventRecordArray
+	if err := skipRecordArray("VuOverSpeedingEvent"); err != nil {
+		return nil, err
+	}
 	// VuTimeAdjustmentRecordArray
 	if err := skipRecordArray("VuTimeAdjustment"); err != nil {
 		return nil, err
diff --git a/internal/vu/events_faults_gen2_v2.go b/internal/vu/events_faults_gen2_v2.go
index b1f381e..c6e1416 100644
--- a/internal/vu/events_faults_gen2_v2.go
+++ b/internal/vu/events_faults_gen2_v2.go
@@ -39,6 +39,10 @@ func unmarshalEventsAndFaultsGen2V2(value []byte) (*vuv1.EventsAndFaultsGen2V2,
 	if err := skipRecordArray("VuOverSpeedingControl"); err != nil {
 		return nil, err
 	}
+	// VuOverSpeedingEventRecordArray
+	if err := skipRecordArray("VuOverSpeedingEvent"); err != nil {
+		return nil, err
+	}
 	// VuTimeAdjustmentRecordArray
 	if err := skipRecordArray("VuTimeAdjustment"); err != nil {
 		return nil, err
diff --git a/internal/vu/technical_data.go b/internal/vu/technical_data.go
index 9210b72..d4823fe 100644
--- a/internal/vu/technical_data.go
+++ b/internal/vu/technical_data.go
@@ -107,6 +107,13 @@ func sizeOfTechnicalDataGen2V1(data []byte) (int, error) {
 	}
 	offset += size
 
+	// SensorExternalGNSSCoupledRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("SensorExternalGNSSCoupledRecordArray: %w", err)
+	}
+	offset += size
+
 	// VuCalibrationRecordArray
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
@@ -114,6 +121,27 @@ func sizeOfTechnicalDataGen2V1(data []byte) (int, error) {
 	}
 	offset += size
 
+	// VuCardRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuCardRecordArray: %w", err)
+	}
+	offset += size
+
+	// VuITSConsentRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuITSConsentRecordArray: %w", err)
+	}
+	offset += size
+
+	// VuPowerSupplyInterruptionRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuPowerSupplyInterruptionRecordArray: %w", err)
+	}
+	offset += size
+
 	// SignatureRecordArray (last)
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
@@ -142,7 +170,7 @@ func sizeOfTechnicalDataGen2V2(data []byte) (int, error) {
 	}
 	offset += size
 
-	// SensorExternalGNSSCoupledRecordArray (Gen2 V2+)
+	// SensorExternalGNSSCoupledRecordArray
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
 		return 0, fmt.Errorf("SensorExternalGNSSCoupledRecordArray: %w", err)
@@ -156,14 +184,21 @@ func sizeOfTechnicalDataGen2V2(data []byte) (int, error) {
 	}
 	offset += size
 
-	// VuITSConsentRecordArray (Gen2 V2+)
+	// VuCardRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuCardRecordArray: %w", err)
+	}
+	offset += size
+
+	// VuITSConsentRecordArray
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
 		return 0, fmt.Errorf("VuITSConsentRecordArray: %w", err)
 	}
 	offset += size
 
-	// VuPowerSupplyInterruptionRecordArray (Gen2 V2+)
+	// VuPowerSupplyInterruptionRecordArray
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
 		return 0, fmt.Errorf("VuPowerSupplyInterruptionRecordArray: %w", err)
diff --git a/internal/vu/technical_data_gen2_v1.go b/internal/vu/technical_data_gen2_v1.go
index 441cf72..1769ba1 100644
--- a/internal/vu/technical_data_gen2_v1.go
+++ b/internal/vu/technical_data_gen2_v1.go
@@ -27,25 +27,25 @@ func unmarshalTechnicalDataGen2V1(value []byte) (*vuv1.TechnicalDataGen2V1, erro
 	}
 
 	// Skip all record arrays
-	if err := skipRecordArray("VuApprovalNumber"); err != nil {
+	if err := skipRecordArray("VuIdentification"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuSoftwareIdentification"); err != nil {
+	if err := skipRecordArray("SensorPaired"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuManufacturerName"); err != nil {
+	if err := skipRecordArray("SensorExternalGNSSCoupled"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuManufacturerAddress"); err != nil {
+	if err := skipRecordArray("VuCalibration"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuPartNumber"); err != nil {
+	if err := skipRecordArray("VuCard"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuSerialNumber"); err != nil {
+	if err := skipRecordArray("VuITSConsent"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("SensorPaired"); err != nil {
+	if err := skipRecordArray("VuPowerSupplyInterruption"); err != nil {
 		return nil, err
 	}
 	if err := skipRecordArray("Signature"); err != nil {
diff --git a/internal/vu/technical_data_gen2_v2.go b/internal/vu/technical_data_gen2_v2.go
index 72fc1d5..14cfaad 100644
--- a/internal/vu/technical_data_gen2_v2.go
+++ b/internal/vu/technical_data_gen2_v2.go
@@ -27,25 +27,25 @@ func unmarshalTechnicalDataGen2V2(value []byte) (*vuv1.TechnicalDataGen2V2, erro
 	}
 
 	// Skip all record arrays
-	if err := skipRecordArray("VuApprovalNumber"); err != nil {
+	if err := skipRecordArray("VuIdentification"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuSoftwareIdentification"); err != nil {
+	if err := skipRecordArray("SensorPaired"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuManufacturerName"); err != nil {
+	if err := skipRecordArray("SensorExternalGNSSCoupled"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuManufacturerAddress"); err != nil {
+	if err := skipRecordArray("VuCalibration"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuPartNumber"); err != nil {
+	if err := skipRecordArray("VuCard"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuSerialNumber"); err != nil {
+	if err := skipRecordArray("VuITSConsent"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("SensorPaired"); err != nil {
+	if err := skipRecordArray("VuPowerSupplyInterruption"); err != nil {
 		return nil, err
 	}
 	if err := skipRecordArray("Signature"); err != nil {
-- 
2.43.0


From 3a86da21f410e83f90004ef14745e7cc55f622b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:47 +0000
Subject: [PATCH 31/52] fix: report the signature of second-generation
 vehicle-unit transfers

---
 internal/vu/activities_gen2_v1.go     | 2 ++
 internal/vu/activities_gen2_v2.go     | 2 ++
 internal/vu/detailed_speed_gen2.go    | 2 ++
 internal/vu/events_faults_gen2_v1.go  | 2 ++
 internal/vu/events_faults_gen2_v2.go  | 2 ++
 internal/vu/overview_gen2_v1.go       | 2 ++
 internal/vu/overview_gen2_v2.go       | 2 ++
 internal/vu/raw_vehicle_unit_file.go  | 5 ++++-
 internal/vu/technical_data_gen2_v1.go | 2 ++
 internal/vu/technical_data_gen2_v2.go | 2 ++
 10 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/internal/vu/activities_gen2_v1.go b/internal/vu/activities_gen2_v1.go
index 6e7a458..b9c4eac 100644
--- a/internal/vu/activities_gen2_v1.go
+++ b/internal/vu/activities_gen2_v1.go
@@ -82,6 +82,7 @@ func unmarshalActivitiesGen2V1(value []byte) (*vuv1.ActivitiesGen2V1, error) {
 	}
 
 	// SignatureRecordArray (last)
+	signatureStart := offset + lenRecordArrayHeader
 	if err := skipRecordArray("Signature"); err != nil {
 		return nil, err
 	}
@@ -90,6 +91,7 @@ func unmarshalActivitiesGen2V1(value []byte) (*vuv1.ActivitiesGen2V1, error) {
 	if offset != len(value) {
 		return nil, fmt.Errorf("Activities Gen2 V1 parsing mismatch: parsed %d bytes, expected %d", offset, len(value))
 	}
+	activities.SetSignature(value[signatureStart:offset])
 
 	// TODO: Implement full semantic parsing of all record arrays
 	// For now, raw_data contains all the information needed for round-trip testing
diff --git a/internal/vu/activities_gen2_v2.go b/internal/vu/activities_gen2_v2.go
index 61a8ca9..edeb58c 100644
--- a/internal/vu/activities_gen2_v2.go
+++ b/internal/vu/activities_gen2_v2.go
@@ -94,6 +94,7 @@ func unmarshalActivitiesGen2V2(value []byte) (*vuv1.ActivitiesGen2V2, error) {
 	}
 
 	// SignatureRecordArray (last)
+	signatureStart := offset + lenRecordArrayHeader
 	if err := skipRecordArray("Signature"); err != nil {
 		return nil, err
 	}
@@ -102,6 +103,7 @@ func unmarshalActivitiesGen2V2(value []byte) (*vuv1.ActivitiesGen2V2, error) {
 	if offset != len(value) {
 		return nil, fmt.Errorf("Activities Gen2 V2 parsing mismatch: parsed %d bytes, expected %d", offset, len(value))
 	}
+	activities.SetSignature(value[signatureStart:offset])
 
 	// TODO: Implement full semantic parsing of all record arrays
 	// For now, raw_data contains all the information needed for round-trip testing
diff --git a/internal/vu/detailed_speed_gen2.go b/internal/vu/detailed_speed_gen2.go
index 81b3ea2..5d02fbc 100644
--- a/internal/vu/detailed_speed_gen2.go
+++ b/internal/vu/detailed_speed_gen2.go
@@ -33,6 +33,7 @@ func unmarshalDetailedSpeedGen2(value []byte) (*vuv1.DetailedSpeedGen2, error) {
 	}
 
 	// SignatureRecordArray
+	signatureStart := offset + lenRecordArrayHeader
 	if err := skipRecordArray("Signature"); err != nil {
 		return nil, err
 	}
@@ -40,6 +41,7 @@ func unmarshalDetailedSpeedGen2(value []byte) (*vuv1.DetailedSpeedGen2, error) {
 	if offset != len(value) {
 		return nil, fmt.Errorf("Detailed Speed Gen2 parsing mismatch: parsed %d bytes, expected %d", offset, len(value))
 	}
+	detailedSpeed.SetSignature(value[signatureStart:offset])
 
 	return detailedSpeed, nil
 }
diff --git a/internal/vu/events_faults_gen2_v1.go b/internal/vu/events_faults_gen2_v1.go
index 0f1f8c8..d4b7660 100644
--- a/internal/vu/events_faults_gen2_v1.go
+++ b/internal/vu/events_faults_gen2_v1.go
@@ -48,6 +48,7 @@ func unmarshalEventsAndFaultsGen2V1(value []byte) (*vuv1.EventsAndFaultsGen2V1,
 		return nil, err
 	}
 	// SignatureRecordArray
+	signatureStart := offset + lenRecordArrayHeader
 	if err := skipRecordArray("Signature"); err != nil {
 		return nil, err
 	}
@@ -55,6 +56,7 @@ func unmarshalEventsAndFaultsGen2V1(value []byte) (*vuv1.EventsAndFaultsGen2V1,
 	if offset != len(value) {
 		return nil, fmt.Errorf("Events and Faults Gen2 V1 parsing mismatch: parsed %d bytes, expected %d", offset, len(value))
 	}
+	eventsAndFaults.SetSignature(value[signatureStart:offset])
 
 	return eventsAndFaults, nil
 }
diff --git a/internal/vu/events_faults_gen2_v2.go b/internal/vu/events_faults_gen2_v2.go
index c6e1416..19f0214 100644
--- a/internal/vu/events_faults_gen2_v2.go
+++ b/internal/vu/events_faults_gen2_v2.go
@@ -48,6 +48,7 @@ func unmarshalEventsAndFaultsGen2V2(value []byte) (*vuv1.EventsAndFaultsGen2V2,
 		return nil, err
 	}
 	// SignatureRecordArray
+	signatureStart := offset + lenRecordArrayHeader
 	if err := skipRecordArray("Signature"); err != nil {
 		return nil, err
 	}
@@ -55,6 +56,7 @@ func unmarshalEventsAndFaultsGen2V2(value []byte) (*vuv1.EventsAndFaultsGen2V2,
 	if offset != len(value) {
 		return nil, fmt.Errorf("Events and Faults Gen2 V2 parsing mismatch: parsed %d bytes, expected %d", offset, len(value))
 	}
+	eventsAndFaults.SetSignature(value[signatureStart:offset])
 
 	return eventsAndFaults, nil
 }
diff --git a/internal/vu/overview_gen2_v1.go b/internal/vu/overview_gen2_v1.go
index e494aa5..92a89a3 100644
--- a/internal/vu/overview_gen2_v1.go
+++ b/internal/vu/overview_gen2_v1.go
@@ -100,6 +100,7 @@ func unmarshalOverviewGen2V1(value []byte) (*vuv1.OverviewGen2V1, error) {
 	}
 
 	// SignatureRecordArray (last)
+	signatureStart := offset + lenRecordArrayHeader
 	if err := skipRecordArray("Signature"); err != nil {
 		return nil, err
 	}
@@ -108,6 +109,7 @@ func unmarshalOverviewGen2V1(value []byte) (*vuv1.OverviewGen2V1, error) {
 	if offset != len(value) {
 		return nil, fmt.Errorf("Overview Gen2 V1 parsing mismatch: parsed %d bytes, expected %d", offset, len(value))
 	}
+	overview.SetSignature(value[signatureStart:offset])
 
 	// TODO: Implement full semantic parsing of all record arrays
 	// For now, raw_data contains all the information needed for round-trip testing
diff --git a/internal/vu/overview_gen2_v2.go b/internal/vu/overview_gen2_v2.go
index 4933249..89293cf 100644
--- a/internal/vu/overview_gen2_v2.go
+++ b/internal/vu/overview_gen2_v2.go
@@ -102,6 +102,7 @@ func unmarshalOverviewGen2V2(value []byte) (*vuv1.OverviewGen2V2, error) {
 	}
 
 	// SignatureRecordArray (last)
+	signatureStart := offset + lenRecordArrayHeader
 	if err := skipRecordArray("Signature"); err != nil {
 		return nil, err
 	}
@@ -110,6 +111,7 @@ func unmarshalOverviewGen2V2(value []byte) (*vuv1.OverviewGen2V2, error) {
 	if offset != len(value) {
 		return nil, fmt.Errorf("Overview Gen2 V2 parsing mismatch: parsed %d bytes, expected %d", offset, len(value))
 	}
+	overview.SetSignature(value[signatureStart:offset])
 
 	// TODO: Implement full semantic parsing of all record arrays
 	// For now, raw_data contains all the information needed for round-trip testing
diff --git a/internal/vu/raw_vehicle_unit_file.go b/internal/vu/raw_vehicle_unit_file.go
index cf4201e..8a09e62 100644
--- a/internal/vu/raw_vehicle_unit_file.go
+++ b/internal/vu/raw_vehicle_unit_file.go
@@ -89,6 +89,9 @@ func sizeOfTransferValue(data []byte, transferType vuv1.TransferType) (int, erro
 	}
 }
 
+// lenRecordArrayHeader is the size of the header that precedes the records of a Gen2 RecordArray.
+const lenRecordArrayHeader = 5
+
 // sizeOfRecordArray parses a Gen2 RecordArray header and returns the total size.
 // Gen2 uses RecordArray structures with a 5-byte header containing size information.
 //
@@ -99,7 +102,7 @@ func sizeOfTransferValue(data []byte, transferType vuv1.TransferType) (int, erro
 //
 // Total size = 5 + (recordSize * noOfRecords)
 func sizeOfRecordArray(data []byte, offset int) (int, error) {
-	const headerSize = 5
+	const headerSize = lenRecordArrayHeader
 	if len(data)-offset < headerSize {
 		return 0, fmt.Errorf("insufficient data for RecordArray header: need %d, have %d", headerSize, max(len(data)-offset, 0))
 	}
diff --git a/internal/vu/technical_data_gen2_v1.go b/internal/vu/technical_data_gen2_v1.go
index 1769ba1..5e838de 100644
--- a/internal/vu/technical_data_gen2_v1.go
+++ b/internal/vu/technical_data_gen2_v1.go
@@ -48,6 +48,7 @@ func unmarshalTechnicalDataGen2V1(value []byte) (*vuv1.TechnicalDataGen2V1, erro
 	if err := skipRecordArray("VuPowerSupplyInterruption"); err != nil {
 		return nil, err
 	}
+	signatureStart := offset + lenRecordArrayHeader
 	if err := skipRecordArray("Signature"); err != nil {
 		return nil, err
 	}
@@ -55,6 +56,7 @@ func unmarshalTechnicalDataGen2V1(value []byte) (*vuv1.TechnicalDataGen2V1, erro
 	if offset != len(value) {
 		return nil, fmt.Errorf("Technical Data Gen2 V1 parsing mismatch: parsed %d bytes, expected %d", offset, len(value))
 	}
+	technicalData.SetSignature(value[signatureStart:offset])
 
 	return technicalData, nil
 }
diff --git a/internal/vu/technical_data_gen2_v2.go b/internal/vu/technical_data_gen2_v2.go
index 14cfaad..fcc7abd 100644
--- a/internal/vu/technical_data_gen2_v2.go
+++ b/internal/vu/technical_data_gen2_v2.go
@@ -48,6 +48,7 @@ func unmarshalTechnicalDataGen2V2(value []byte) (*vuv1.TechnicalDataGen2V2, erro
 	if err := skipRecordArray("VuPowerSupplyInterruption"); err != nil {
 		return nil, err
 	}
+	signatureStart := offset + lenRecordArrayHeader
 	if err := skipRecordArray("Signature"); err != nil {
 		return nil, err
 	}
@@ -55,6 +56,7 @@ func unmarshalTechnicalDataGen2V2(value []byte) (*vuv1.TechnicalDataGen2V2, erro
 	if offset != len(value) {
 		return nil, fmt.Errorf("Technical Data Gen2 V2 parsing mismatch: parsed %d bytes, expected %d", offset, len(value))
 	}
+	technicalData.SetSignature(value[signatureStart:offset])
 
 	return technicalData, nil
 }
-- 
2.43.0


From 35a8b0da807504a1713f6808aa8a6813cf27a6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:16 +0000
Subject: [PATCH 32/52] fix: decode the card slots of the vehicle-unit overview

---
 internal/vu/overview_gen1.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/vu/overview_gen1.go b/internal/vu/overview_gen1.go
index 59f1884..02eb78f 100644
--- a/internal/vu/overview_gen1.go
+++ b/internal/vu/overview_gen1.go
@@ -137,8 +137,14 @@ func unmarshalOverviewGen1(value []byte) (*vuv1.OverviewGen1, error) {
 		return nil, fmt.Errorf("insufficient data for CardSlotsStatus")
 	}
 	cardSlotsStatus := value[offset]
-	driverSlot := ddv1.SlotCardType(cardSlotsStatus & 0x0F)
-	coDriverSlot := ddv1.SlotCardType((cardSlotsStatus >> 4) & 0x0F)
+	driverSlot, err := dd.UnmarshalEnum[ddv1.SlotCardType](cardSlotsStatus & 0x0F)
+	if err != nil {
+		driverSlot = ddv1.SlotCardType_SLOT_CARD_TYPE_UNRECOGNIZED
+	}
+	coDriverSlot, err := dd.UnmarshalEnum[ddv1.SlotCardType]((cardSlotsStatus >> 4) & 0x0F)
+	if err != nil {
+		coDriverSlot = ddv1.SlotCardType_SLOT_CARD_TYPE_UNRECOGNIZED
+	}
 	overview.SetDriverSlotCard(driverSlot)
 	overview.SetCoDriverSlotCard(coDriverSlot)
 	offset += 1
-- 
2.43.0


From 132b09eb1f81f40a8675405ec787e4113837e3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:19 +0000
Subject: [PATCH 33/52] fix: keep vehicle-unit records with blank card numbers
 or unknown place codes

---
 internal/vu/activities_gen1.go |  4 ++--
 internal/vu/overview_gen1.go   | 18 +++++++++++++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/internal/vu/activities_gen1.go b/internal/vu/activities_gen1.go
index 0c280b5..e77bfb5 100644
--- a/internal/vu/activities_gen1.go
+++ b/internal/vu/activities_gen1.go
@@ -165,7 +165,7 @@ func unmarshalActivitiesGen1(value []byte) (*vuv1.ActivitiesGen1, error) {
 		// entryTypeDailyWorkPeriod (1 byte)
 		entryType, err := dd.UnmarshalEnum[ddv1.EntryTypeDailyWorkPeriod](value[offset+recordOffset])
 		if err != nil {
-			return nil, fmt.Errorf("unmarshal entry type: %w", err)
+			entryType = ddv1.EntryTypeDailyWorkPeriod_ENTRY_TYPE_DAILY_WORK_PERIOD_UNRECOGNIZED
 		}
 		record.SetEntryType(entryType)
 		recordOffset += 1
@@ -173,7 +173,7 @@ func unmarshalActivitiesGen1(value []byte) (*vuv1.ActivitiesGen1, error) {
 		// dailyWorkPeriodCountry (1 byte)
 		country, err := dd.UnmarshalEnum[ddv1.NationNumeric](value[offset+recordOffset])
 		if err != nil {
-			return nil, fmt.Errorf("unmarshal country: %w", err)
+			country = ddv1.NationNumeric_NATION_NUMERIC_UNRECOGNIZED
 		}
 		record.SetCountry(country)
 		recordOffset += 1
diff --git a/internal/vu/overview_gen1.go b/internal/vu/overview_gen1.go
index 02eb78f..a17b4f4 100644
--- a/internal/vu/overview_gen1.go
+++ b/internal/vu/overview_gen1.go
@@ -165,7 +165,7 @@ func unmarshalOverviewGen1(value []byte) (*vuv1.OverviewGen1, error) {
 	offset += 4
 
 	// FullCardNumber (18 bytes)
-	fullCardNumber, err := opts.UnmarshalFullCardNumber(value[offset : offset+18])
+	fullCardNumber, err := unmarshalOptionalFullCardNumber(opts, value[offset:offset+18])
 	if err != nil {
 		return nil, fmt.Errorf("unmarshal full card number: %w", err)
 	}
@@ -231,7 +231,7 @@ func unmarshalOverviewGen1(value []byte) (*vuv1.OverviewGen1, error) {
 		offset += 36
 
 		// CompanyCardNumber (18 bytes)
-		companyCardNumber, err := opts.UnmarshalFullCardNumber(value[offset : offset+18])
+		companyCardNumber, err := unmarshalOptionalFullCardNumber(opts, value[offset:offset+18])
 		if err != nil {
 			return nil, fmt.Errorf("unmarshal company card number: %w", err)
 		}
@@ -275,7 +275,7 @@ func unmarshalOverviewGen1(value []byte) (*vuv1.OverviewGen1, error) {
 		offset += 4
 
 		// ControlCardNumber (18 bytes)
-		controlCardNumber, err := opts.UnmarshalFullCardNumber(value[offset : offset+18])
+		controlCardNumber, err := unmarshalOptionalFullCardNumber(opts, value[offset:offset+18])
 		if err != nil {
 			return nil, fmt.Errorf("unmarshal control card number: %w", err)
 		}
@@ -317,6 +317,18 @@ func unmarshalOverviewGen1(value []byte) (*vuv1.OverviewGen1, error) {
 	return overview, nil
 }
 
+// unmarshalOptionalFullCardNumber parses a FullCardNumber that is blank when there is no card to
+// report, such as the card of the last download when nothing has been downloaded yet. The card
+// number then stays unset.
+func unmarshalOptionalFullCardNumber(opts dd.UnmarshalOptions, data []byte) (*ddv1.FullCardNumber, error) {
+	if len(data) > 0 {
+		if cardType, err := dd.UnmarshalEnum[ddv1.EquipmentType](data[0]); err != nil || cardType == ddv1.EquipmentType_RESERVED_MEMBER_STATE_OR_EUROPE {
+			return nil, nil
+		}
+	}
+	return opts.UnmarshalFullCardNumber(data)
+}
+
 // appendOverviewGen1 marshals Gen1 Overview data using raw data painting.
 //
 // This function implements the raw data painting pattern: if raw_data is available
-- 
2.43.0


From 6441d2654f510a5dcec446a706b3744987013ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:47 +0000
Subject: [PATCH 34/52] fix: report the download interface version of a vehicle
 unit

---
 internal/vu/download_interface_version.go | 19 +++++++++++++++++++
 internal/vu/vehicle_unit_file.go          |  8 +++++---
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/internal/vu/download_interface_version.go b/internal/vu/download_interface_version.go
index 69d6dcb..9c43bbb 100644
--- a/internal/vu/download_interface_version.go
+++ b/internal/vu/download_interface_version.go
@@ -3,6 +3,7 @@ package vu
 import (
 	"fmt"
 
+	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
 	vuv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/vu/v1"
 )
 
@@ -38,3 +39,21 @@ func sizeOfDownloadInterfaceVersion(data []byte, transferType vuv1.TransferType)
 // ASN.1 Definition:
 //
 //	DownloadInterfaceVersion ::= OCTET STRING (SIZE (2))
+func unmarshalDownloadInterfaceVersion(value []byte) (*vuv1.DownloadInterfaceVersion, error) {
+	const lenDownloadInterfaceVersion = 2
+	if len(value) != lenDownloadInterfaceVersion {
+		return nil, fmt.Errorf("invalid data length for DownloadInterfaceVersion: got %d, want %d", len(value), lenDownloadInterfaceVersion)
+	}
+	version := &vuv1.DownloadInterfaceVersion{}
+	version.SetRawData(value)
+	// Data Dictionary 2.60a codes generation 2, version 2 as 01 01, DDP_028a as 02 02.
+	switch value[0] {
+	case 1, 2:
+		version.SetGeneration(ddv1.Generation_GENERATION_2)
+	}
+	switch value[1] {
+	case 1, 2:
+		version.SetVersion(ddv1.Version_VERSION_2)
+	}
+	return version, nil
+}
diff --git a/internal/vu/vehicle_unit_file.go b/internal/vu/vehicle_unit_file.go
index c0396e9..8fce776 100644
--- a/internal/vu/vehicle_unit_file.go
+++ b/internal/vu/vehicle_unit_file.go
@@ -219,9 +219,11 @@ func unmarshalVehicleUnitFileGen2V2(rawFile *vuv1.RawVehicleUnitFile) (*vuv1.Veh
 	for _, record := range rawFile.GetRecords() {
 		switch record.GetType() {
 		case vuv1.TransferType_DOWNLOAD_INTERFACE_VERSION:
-			// Download interface version can be parsed if needed
-			// For now, skip as it's mainly used for version detection
-			// output.SetDownloadInterfaceVersion(...)
+			version, err := unmarshalDownloadInterfaceVersion(record.GetValue())
+			if err != nil {
+				return nil, fmt.Errorf("unmarshal Download Interface Version: %w", err)
+			}
+			output.SetDownloadInterfaceVersion(version)
 
 		case vuv1.TransferType_OVERVIEW_GEN2_V2:
 			overview, err := unmarshalOverviewGen2V2(record.GetValue())
-- 
2.43.0


From eded617025f79123b750f0c83d25739e9096a52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:04 +0000
Subject: [PATCH 35/52] fix: keep the card indices when anonymising a driver
 identification

---
 internal/dd/driver_identification.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/dd/driver_identification.go b/internal/dd/driver_identification.go
index 31de0e8..a2bd975 100644
--- a/internal/dd/driver_identification.go
+++ b/internal/dd/driver_identification.go
@@ -3,6 +3,8 @@ package dd
 import (
 	"fmt"
 
+	"google.golang.org/protobuf/proto"
+
 	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
 )
 
@@ -73,5 +75,12 @@ func AnonymizeDriverIdentification(driverID *ddv1.DriverIdentification) *ddv1.Dr
 	testDriverID.SetValue("DRIVER00000001")
 	testDriverID.SetLength(14)
 	result.SetDriverIdentificationNumber(testDriverID)
+	// Preserve the card indices (structural info)
+	if index := driverID.GetCardReplacementIndex(); index != nil {
+		result.SetCardReplacementIndex(proto.CloneOf(index))
+	}
+	if index := driverID.GetCardRenewalIndex(); index != nil {
+		result.SetCardRenewalIndex(proto.CloneOf(index))
+	}
 	return result
 }
-- 
2.43.0


From fbfd5eabe38b3622f9c925e6658fe1b835893777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 36/52] fix: anonymise the card holder of an identification
 that has an owner number

---
 internal/card/identification.go | 67 +++++++++++++++++----------------
 1 file changed, 34 insertions(+), 33 deletions(-)

diff --git a/internal/card/identification.go b/internal/card/identification.go
index e67575f..7a480fe 100644
--- a/internal/card/identification.go
+++ b/internal/card/identification.go
@@ -522,42 +522,43 @@ func AnonymizeIdentification(id *cardv1.Identification) *cardv1.Identification {
 		result.SetCard(anonymizedCard)
 	}
 
-	// Anonymize holder identification based on card type
-	switch id.GetCardType() {
-	case cardv1.CardType_DRIVER_CARD:
-		if holder := id.GetDriverCardHolder(); holder != nil {
-			anonymizedHolder := &cardv1.Identification_DriverCardHolder{}
-
-			// Replace names with test values (code-paged strings: 1 byte code page + 35 bytes data each)
-			surname := &ddv1.StringValue{}
-			surname.SetValue("TEST_SURNAME")
-			surname.SetEncoding(ddv1.Encoding_ISO_8859_1)
-			surname.SetLength(35)
-			anonymizedHolder.SetCardHolderSurname(surname)
-
-			firstName := &ddv1.StringValue{}
-			firstName.SetValue("TEST_FIRSTNAME")
-			firstName.SetEncoding(ddv1.Encoding_ISO_8859_1)
-			firstName.SetLength(35)
-			anonymizedHolder.SetCardHolderFirstNames(firstName)
+	// Anonymize the driver card holder. It is present whatever the card type is,
+	// since it is decoded from every driver card file.
+	if holder := id.GetDriverCardHolder(); holder != nil {
+		anonymizedHolder := &cardv1.Identification_DriverCardHolder{}
+
+		// Replace names with test values (code-paged strings: 1 byte code page + 35 bytes data each)
+		surname := &ddv1.StringValue{}
+		surname.SetValue("TEST_SURNAME")
+		surname.SetEncoding(ddv1.Encoding_ISO_8859_1)
+		surname.SetLength(35)
+		anonymizedHolder.SetCardHolderSurname(surname)
+
+		firstName := &ddv1.StringValue{}
+		firstName.SetValue("TEST_FIRSTNAME")
+		firstName.SetEncoding(ddv1.Encoding_ISO_8859_1)
+		firstName.SetLength(35)
+		anonymizedHolder.SetCardHolderFirstNames(firstName)
+
+		// Replace birth date with static test date (2000-01-01)
+		birthDate := &ddv1.Date{}
+		birthDate.SetYear(2000)
+		birthDate.SetMonth(1)
+		birthDate.SetDay(1)
+		// Regenerate raw_data for binary fidelity
+		if rawData, err := dd.AppendDate(nil, birthDate); err == nil {
+			birthDate.SetRawData(rawData)
+		}
+		anonymizedHolder.SetCardHolderBirthDate(birthDate)
 
-			// Replace birth date with static test date (2000-01-01)
-			birthDate := &ddv1.Date{}
-			birthDate.SetYear(2000)
-			birthDate.SetMonth(1)
-			birthDate.SetDay(1)
-			// Regenerate raw_data for binary fidelity
-			if rawData, err := dd.AppendDate(nil, birthDate); err == nil {
-				birthDate.SetRawData(rawData)
-			}
-			anonymizedHolder.SetCardHolderBirthDate(birthDate)
+		// Preserve language (not sensitive)
+		anonymizedHolder.SetCardHolderPreferredLanguage(holder.GetCardHolderPreferredLanguage())
 
-			// Preserve language (not sensitive)
-			anonymizedHolder.SetCardHolderPreferredLanguage(holder.GetCardHolderPreferredLanguage())
-
-			result.SetDriverCardHolder(anonymizedHolder)
-		}
+		result.SetDriverCardHolder(anonymizedHolder)
+	}
 
+	// Anonymize holder identification based on card type
+	switch id.GetCardType() {
 	case cardv1.CardType_WORKSHOP_CARD:
 		if holder := id.GetWorkshopCardHolder(); holder != nil {
 			anonymizedHolder := &cardv1.Identification_WorkshopCardHolder{}
-- 
2.43.0


From 75be31ca2fe4e633e7972540c79e65d708ab57ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:27 +0000
Subject: [PATCH 37/52] fix: record a certificate as not valid whenever its
 verification fails

---
 internal/security/ecc_verify.go | 4 ++++
 internal/security/rsa_verify.go | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/internal/security/ecc_verify.go b/internal/security/ecc_verify.go
index 42265d4..6cb789a 100644
--- a/internal/security/ecc_verify.go
+++ b/internal/security/ecc_verify.go
@@ -38,6 +38,10 @@ func VerifyEccCertificateWithCA(cert *securityv1.EccCertificate, caCert *securit
 	if cert == nil {
 		return fmt.Errorf("certificate cannot be nil")
 	}
+
+	// A verdict of an earlier verification does not outlive a failure of this one
+	cert.SetSignatureValid(false)
+
 	if caCert == nil {
 		return fmt.Errorf("CA certificate cannot be nil")
 	}
diff --git a/internal/security/rsa_verify.go b/internal/security/rsa_verify.go
index 64c5263..52678e3 100644
--- a/internal/security/rsa_verify.go
+++ b/internal/security/rsa_verify.go
@@ -19,6 +19,9 @@ import (
 // See Appendix 11, Section 3.3 for the complete specification.
 func VerifyRsaCertificateWithCA(cert *securityv1.RsaCertificate, caCert *securityv1.RsaCertificate) error {
 	if caCert == nil {
+		if cert != nil {
+			cert.SetSignatureValid(false)
+		}
 		return fmt.Errorf("CA certificate cannot be nil")
 	}
 
@@ -39,6 +42,9 @@ func VerifyRsaCertificateWithCA(cert *securityv1.RsaCertificate, caCert *securit
 // RSA certificate verification.
 func VerifyRsaCertificateWithRoot(cert *securityv1.RsaCertificate, root *securityv1.RootCertificate) error {
 	if root == nil {
+		if cert != nil {
+			cert.SetSignatureValid(false)
+		}
 		return fmt.Errorf("root certificate cannot be nil")
 	}
 
@@ -92,6 +98,9 @@ func verifyRsaCertificate(cert *securityv1.RsaCertificate, caModulus, caExponent
 		return fmt.Errorf("certificate cannot be nil")
 	}
 
+	// A verdict of an earlier verification does not outlive a failure of this one
+	cert.SetSignatureValid(false)
+
 	rawData := cert.GetRawData()
 	if len(rawData) != 194 {
 		return fmt.Errorf("invalid certificate length: got %d, want 194", len(rawData))
-- 
2.43.0


From 8320d42e874e4fabbcec552be0373a45d014c03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:31 +0000
Subject: [PATCH 38/52] fix: refuse an issuer key that is not on its curve
 instead of panicking

---
 internal/security/ecc_verify.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/security/ecc_verify.go b/internal/security/ecc_verify.go
index 6cb789a..32e89f4 100644
--- a/internal/security/ecc_verify.go
+++ b/internal/security/ecc_verify.go
@@ -117,6 +117,13 @@ func VerifyEccCertificateWithCA(cert *securityv1.EccCertificate, caCert *securit
 	caX := new(big.Int).SetBytes(caPointX)
 	caY := new(big.Int).SetBytes(caPointY)
 
+	// A point outside the curve is no public key, and the curve arithmetic panics on it
+	p := curve.Params().P
+	if caX.Cmp(p) >= 0 || caY.Cmp(p) >= 0 || !curve.IsOnCurve(caX, caY) {
+		cert.SetSignatureValid(false)
+		return fmt.Errorf("CA public key is not a point on curve %s", caPubKey.GetDomainParametersOid())
+	}
+
 	caPub := &ecdsa.PublicKey{
 		Curve: curve,
 		X:     caX,
-- 
2.43.0


From c859d20516b6043541fff095cf30ac628ce6301d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:23 +0000
Subject: [PATCH 39/52] fix: refuse a first-generation signature that is not
 below the modulus

---
 internal/security/rsa_verify.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/security/rsa_verify.go b/internal/security/rsa_verify.go
index 52678e3..cdc49ec 100644
--- a/internal/security/rsa_verify.go
+++ b/internal/security/rsa_verify.go
@@ -139,6 +139,12 @@ func verifyRsaCertificate(cert *securityv1.RsaCertificate, caModulus, caExponent
 	modulus := new(big.Int).SetBytes(caModulus)
 	exponent := new(big.Int).SetBytes(caExponent)
 
+	// The signature is a number below the modulus
+	if sigInt.Cmp(modulus) >= 0 {
+		cert.SetSignatureValid(false)
+		return fmt.Errorf("signature is out of range for the CA modulus")
+	}
+
 	recovered := new(big.Int).Exp(sigInt, exponent, modulus)
 	srPrime := recovered.Bytes()
 
-- 
2.43.0


From bbfb04621d9e3dd032679c0254bb5885f65c1836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:50 +0000
Subject: [PATCH 40/52] fix: refuse second-generation certificates with wrong
 tags or extra data objects

---
 internal/security/ecc_certificate.go | 70 +++++++++++++++++++++++-----
 1 file changed, 59 insertions(+), 11 deletions(-)

diff --git a/internal/security/ecc_certificate.go b/internal/security/ecc_certificate.go
index cee98e6..9667cda 100644
--- a/internal/security/ecc_certificate.go
+++ b/internal/security/ecc_certificate.go
@@ -8,6 +8,45 @@ import (
 	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
 )
 
+// Tags of the data objects of an ECC certificate.
+//
+// See Appendix 11, Section 9.3.2 (PART B), Table 4.
+const (
+	tagEccCertificate                 = 0x7F21
+	tagEccCertificateBody             = 0x7F4E
+	tagCertificateProfileIdentifier   = 0x5F29
+	tagCertificateAuthorityReference  = 0x42
+	tagCertificateHolderAuthorisation = 0x5F4C
+	tagPublicKey                      = 0x7F49
+	tagPublicPoint                    = 0x86
+	tagCertificateHolderReference     = 0x5F20
+	tagCertificateEffectiveDate       = 0x5F25
+	tagCertificateExpirationDate      = 0x5F24
+	tagEccCertificateSignature        = 0x5F37
+)
+
+// unmarshalDataObject parses one data object, which must have the expected tag,
+// and returns the bytes that follow it.
+func unmarshalDataObject(data []byte, tag int, object *asn1.RawValue) ([]byte, error) {
+	rest, err := asn1.Unmarshal(data, object)
+	if err != nil {
+		return nil, err
+	}
+	if got := objectTag(object.FullBytes); got != tag {
+		return nil, fmt.Errorf("unexpected tag: got %X, want %X", got, tag)
+	}
+	return rest, nil
+}
+
+// objectTag returns the tag of a data object, which has one or two bytes.
+func objectTag(object []byte) int {
+	const multiByteTag = 0x1F
+	if object[0]&multiByteTag == multiByteTag {
+		return int(binary.BigEndian.Uint16(object))
+	}
+	return int(object[0])
+}
+
 // UnmarshalEccCertificate parses an ECC certificate from Generation 2 tachograph cards.
 //
 // The certificate format is specified in Appendix 11, Section 9.3.2 (PART B), Table 4.
@@ -47,21 +86,21 @@ func UnmarshalEccCertificate(data []byte) (*securityv1.EccCertificate, error) {
 
 	// Parse outer SEQUENCE (the certificate wrapper)
 	var outerSeq asn1.RawValue
-	_, err := asn1.Unmarshal(data, &outerSeq)
+	_, err := unmarshalDataObject(data, tagEccCertificate, &outerSeq)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse certificate outer SEQUENCE: %w", err)
 	}
 
 	// Parse certificate body SEQUENCE
 	var bodySeq asn1.RawValue
-	restAfterBody, err := asn1.Unmarshal(outerSeq.Bytes, &bodySeq)
+	restAfterBody, err := unmarshalDataObject(outerSeq.Bytes, tagEccCertificateBody, &bodySeq)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse certificate body SEQUENCE: %w", err)
 	}
 
 	// Parse Certificate Profile Identifier (CPI)
 	var cpiRaw asn1.RawValue
-	restAfterCPI, err := asn1.Unmarshal(bodySeq.Bytes, &cpiRaw)
+	restAfterCPI, err := unmarshalDataObject(bodySeq.Bytes, tagCertificateProfileIdentifier, &cpiRaw)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse CPI: %w", err)
 	}
@@ -72,7 +111,7 @@ func UnmarshalEccCertificate(data []byte) (*securityv1.EccCertificate, error) {
 
 	// Parse Certificate Authority Reference (CAR)
 	var carRaw asn1.RawValue
-	restAfterCAR, err := asn1.Unmarshal(restAfterCPI, &carRaw)
+	restAfterCAR, err := unmarshalDataObject(restAfterCPI, tagCertificateAuthorityReference, &carRaw)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse CAR: %w", err)
 	}
@@ -85,7 +124,7 @@ func UnmarshalEccCertificate(data []byte) (*securityv1.EccCertificate, error) {
 
 	// Parse Certificate Holder Authorisation (CHA)
 	var chaRaw asn1.RawValue
-	restAfterCHA, err := asn1.Unmarshal(restAfterCAR, &chaRaw)
+	restAfterCHA, err := unmarshalDataObject(restAfterCAR, tagCertificateHolderAuthorisation, &chaRaw)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse CHA: %w", err)
 	}
@@ -96,7 +135,7 @@ func UnmarshalEccCertificate(data []byte) (*securityv1.EccCertificate, error) {
 
 	// Parse Public Key SEQUENCE
 	var pkSeq asn1.RawValue
-	restAfterPK, err := asn1.Unmarshal(restAfterCHA, &pkSeq)
+	restAfterPK, err := unmarshalDataObject(restAfterCHA, tagPublicKey, &pkSeq)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse public key SEQUENCE: %w", err)
 	}
@@ -110,10 +149,13 @@ func UnmarshalEccCertificate(data []byte) (*securityv1.EccCertificate, error) {
 
 	// Parse Public Point (uncompressed EC point: 04 || X || Y)
 	var ppRaw asn1.RawValue
-	_, err = asn1.Unmarshal(restAfterDP, &ppRaw)
+	rest, err := unmarshalDataObject(restAfterDP, tagPublicPoint, &ppRaw)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse public point: %w", err)
 	}
+	if len(rest) > 0 {
+		return nil, fmt.Errorf("unexpected %d bytes after the public point", len(rest))
+	}
 
 	// Parse the uncompressed point (first byte should be 0x04)
 	if len(ppRaw.Bytes) < 1 || ppRaw.Bytes[0] != 0x04 {
@@ -134,7 +176,7 @@ func UnmarshalEccCertificate(data []byte) (*securityv1.EccCertificate, error) {
 
 	// Parse Certificate Holder Reference (CHR)
 	var chrRaw asn1.RawValue
-	restAfterCHR, err := asn1.Unmarshal(restAfterPK, &chrRaw)
+	restAfterCHR, err := unmarshalDataObject(restAfterPK, tagCertificateHolderReference, &chrRaw)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse CHR: %w", err)
 	}
@@ -147,7 +189,7 @@ func UnmarshalEccCertificate(data []byte) (*securityv1.EccCertificate, error) {
 
 	// Parse Certificate Effective Date (CEfD)
 	var cefdRaw asn1.RawValue
-	restAfterCEfD, err := asn1.Unmarshal(restAfterCHR, &cefdRaw)
+	restAfterCEfD, err := unmarshalDataObject(restAfterCHR, tagCertificateEffectiveDate, &cefdRaw)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse CEfD: %w", err)
 	}
@@ -162,10 +204,13 @@ func UnmarshalEccCertificate(data []byte) (*securityv1.EccCertificate, error) {
 
 	// Parse Certificate Expiration Date (CExD)
 	var cexdRaw asn1.RawValue
-	_, err = asn1.Unmarshal(restAfterCEfD, &cexdRaw)
+	rest, err = unmarshalDataObject(restAfterCEfD, tagCertificateExpirationDate, &cexdRaw)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse CExD: %w", err)
 	}
+	if len(rest) > 0 {
+		return nil, fmt.Errorf("unexpected %d bytes after the CExD", len(rest))
+	}
 	if len(cexdRaw.Bytes) != 4 {
 		return nil, fmt.Errorf("invalid CExD length: got %d, want 4", len(cexdRaw.Bytes))
 	}
@@ -177,10 +222,13 @@ func UnmarshalEccCertificate(data []byte) (*securityv1.EccCertificate, error) {
 
 	// Parse signature from rest after body
 	var sigRaw asn1.RawValue
-	_, err = asn1.Unmarshal(restAfterBody, &sigRaw)
+	rest, err = unmarshalDataObject(restAfterBody, tagEccCertificateSignature, &sigRaw)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse signature: %w", err)
 	}
+	if len(rest) > 0 {
+		return nil, fmt.Errorf("unexpected %d bytes after the signature", len(rest))
+	}
 
 	// Signature is in plain format: R || S, each of equal length
 	if len(sigRaw.Bytes)%2 != 0 {
-- 
2.43.0


From 3c7faafe03d4ab8b5ce89b51715232d2ca79f0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 41/52] fix: look up embedded certificates in the directories
 they are embedded from

---
 internal/cert/certcache/embed.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/cert/certcache/embed.go b/internal/cert/certcache/embed.go
index d28f1eb..0268fb3 100644
--- a/internal/cert/certcache/embed.go
+++ b/internal/cert/certcache/embed.go
@@ -19,7 +19,7 @@ func Root() []byte {
 
 // ReadG1 reads a cached Gen1 certificate by its CHR.
 func ReadG1(chr string) ([]byte, bool) {
-	data, err := g1.ReadFile(chr + ".bin")
+	data, err := g1.ReadFile("g1/" + chr + ".bin")
 	if err != nil {
 		return nil, false
 	}
@@ -28,7 +28,7 @@ func ReadG1(chr string) ([]byte, bool) {
 
 // ReadG2 reads a cached Gen2 certificate by its CHR.
 func ReadG2(chr string) ([]byte, bool) {
-	data, err := g2.ReadFile(chr + ".bin")
+	data, err := g2.ReadFile("g2/" + chr + ".bin")
 	if err != nil {
 		return nil, false
 	}
-- 
2.43.0


From e2d56513618d6a3f01219c56ffa0ddc6c690237b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:15 +0000
Subject: [PATCH 42/52] fix: drop earlier certificate verdicts when file
 verification fails before reaching them

---
 internal/card/driver_card_file.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index f0e0dc1..4c8d1b9 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -1108,6 +1108,15 @@ func (o VerifyOptions) VerifyDriverCardFile(ctx context.Context, file *cardv1.Dr
 		return fmt.Errorf("driver card file cannot be nil")
 	}
 
+	// The verdicts of an earlier verification do not outlive a failure of this one,
+	// which may end before it gets to the certificates
+	if cardCert := file.GetTachograph().GetCardCertificate().GetRsaCertificate(); cardCert != nil {
+		cardCert.SetSignatureValid(false)
+	}
+	if cardSignCert := file.GetTachographG2().GetCardSignCertificate().GetEccCertificate(); cardSignCert != nil {
+		cardSignCert.SetSignatureValid(false)
+	}
+
 	// Verify Generation 1 certificates (RSA)
 	if tachograph := file.GetTachograph(); tachograph != nil {
 		if err := o.verifyGen1Certificates(ctx, tachograph); err != nil {
-- 
2.43.0


From a8ff3b1f9feb86207e98e3a509c602a92a325e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 43/52] fix: accept an activity file that holds no ring

---
 internal/card/activity.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index 169ec24..0cffa16 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"math"
 
 	"github.com/way-platform/tachograph-go/internal/dd"
@@ -61,7 +62,7 @@ func (opts UnmarshalOptions) unmarshalDriverActivityData(data []byte) (*cardv1.D
 
 	// The rest of the data is the cyclic buffer of daily records.
 	activityData := make([]byte, r.Len())
-	if _, err := r.Read(activityData); err != nil {
+	if _, err := io.ReadFull(r, activityData); err != nil {
 		return nil, fmt.Errorf("failed to read activity daily records: %w", err)
 	}
 
-- 
2.43.0


From 306182a0ecc463e511ba39d56a874f46183cc8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 44/52] fix: refuse card values that do not fit their field

---
 internal/card/application_identification.go   | 15 ++++++++++++
 .../card/application_identification_g2.go     | 24 +++++++++++++++++++
 internal/card/gnss_places.go                  |  3 +++
 internal/card/ic.go                           |  6 +++++
 internal/card/icc.go                          | 14 +++++++++--
 internal/card/places.go                       |  3 +++
 internal/card/places_g2.go                    |  3 +++
 internal/card/specific_conditions_g2.go       |  3 +++
 internal/card/unsigned.go                     | 12 ++++++++++
 internal/card/vehicle_units_used.go           |  3 +++
 internal/card/vehicles_used.go                |  3 +++
 internal/card/vehicles_used_g2.go             |  3 +++
 internal/dd/extended_serial_number.go         |  7 ++++++
 13 files changed, 97 insertions(+), 2 deletions(-)
 create mode 100644 internal/card/unsigned.go

diff --git a/internal/card/application_identification.go b/internal/card/application_identification.go
index 83f9c40..d92be57 100644
--- a/internal/card/application_identification.go
+++ b/internal/card/application_identification.go
@@ -164,6 +164,9 @@ func appendCardApplicationIdentification(data []byte, appId *cardv1.ApplicationI
 
 	// Events per type count (1 byte)
 	if driver.HasEventsPerTypeCount() {
+		if err := checkUnsigned("events per type count", driver.GetEventsPerTypeCount(), 1); err != nil {
+			return nil, err
+		}
 		data = append(data, byte(driver.GetEventsPerTypeCount()))
 	} else {
 		data = append(data, 0x00)
@@ -171,6 +174,9 @@ func appendCardApplicationIdentification(data []byte, appId *cardv1.ApplicationI
 
 	// Faults per type count (1 byte)
 	if driver.HasFaultsPerTypeCount() {
+		if err := checkUnsigned("faults per type count", driver.GetFaultsPerTypeCount(), 1); err != nil {
+			return nil, err
+		}
 		data = append(data, byte(driver.GetFaultsPerTypeCount()))
 	} else {
 		data = append(data, 0x00)
@@ -178,6 +184,9 @@ func appendCardApplicationIdentification(data []byte, appId *cardv1.ApplicationI
 
 	// Activity structure length (2 bytes)
 	if driver.HasActivityStructureLength() {
+		if err := checkUnsigned("activity structure length", driver.GetActivityStructureLength(), 2); err != nil {
+			return nil, err
+		}
 		activityLength := make([]byte, 2)
 		binary.BigEndian.PutUint16(activityLength, uint16(driver.GetActivityStructureLength()))
 		data = append(data, activityLength...)
@@ -187,6 +196,9 @@ func appendCardApplicationIdentification(data []byte, appId *cardv1.ApplicationI
 
 	// Card vehicle records count (2 bytes in Gen1)
 	if driver.HasCardVehicleRecordsCount() {
+		if err := checkUnsigned("card vehicle records count", driver.GetCardVehicleRecordsCount(), 2); err != nil {
+			return nil, err
+		}
 		vehicleRecords := make([]byte, 2)
 		binary.BigEndian.PutUint16(vehicleRecords, uint16(driver.GetCardVehicleRecordsCount()))
 		data = append(data, vehicleRecords...)
@@ -196,6 +208,9 @@ func appendCardApplicationIdentification(data []byte, appId *cardv1.ApplicationI
 
 	// Card place records count (1 byte in Gen1)
 	if driver.HasCardPlaceRecordsCount() {
+		if err := checkUnsigned("card place records count", driver.GetCardPlaceRecordsCount(), 1); err != nil {
+			return nil, err
+		}
 		data = append(data, byte(driver.GetCardPlaceRecordsCount()))
 	} else {
 		data = append(data, 0x00)
diff --git a/internal/card/application_identification_g2.go b/internal/card/application_identification_g2.go
index 72654e3..fb456a6 100644
--- a/internal/card/application_identification_g2.go
+++ b/internal/card/application_identification_g2.go
@@ -192,6 +192,9 @@ func appendCardApplicationIdentificationG2(data []byte, appId *cardv1.Applicatio
 
 	// Events per type count (1 byte)
 	if driver.HasEventsPerTypeCount() {
+		if err := checkUnsigned("events per type count", driver.GetEventsPerTypeCount(), 1); err != nil {
+			return nil, err
+		}
 		data = append(data, byte(driver.GetEventsPerTypeCount()))
 	} else {
 		data = append(data, 0x00)
@@ -199,6 +202,9 @@ func appendCardApplicationIdentificationG2(data []byte, appId *cardv1.Applicatio
 
 	// Faults per type count (1 byte)
 	if driver.HasFaultsPerTypeCount() {
+		if err := checkUnsigned("faults per type count", driver.GetFaultsPerTypeCount(), 1); err != nil {
+			return nil, err
+		}
 		data = append(data, byte(driver.GetFaultsPerTypeCount()))
 	} else {
 		data = append(data, 0x00)
@@ -206,6 +212,9 @@ func appendCardApplicationIdentificationG2(data []byte, appId *cardv1.Applicatio
 
 	// Activity structure length (2 bytes)
 	if driver.HasActivityStructureLength() {
+		if err := checkUnsigned("activity structure length", driver.GetActivityStructureLength(), 2); err != nil {
+			return nil, err
+		}
 		activityLength := make([]byte, 2)
 		binary.BigEndian.PutUint16(activityLength, uint16(driver.GetActivityStructureLength()))
 		data = append(data, activityLength...)
@@ -215,6 +224,9 @@ func appendCardApplicationIdentificationG2(data []byte, appId *cardv1.Applicatio
 
 	// Card vehicle records count (2 bytes in Gen2)
 	if driver.HasCardVehicleRecordsCount() {
+		if err := checkUnsigned("card vehicle records count", driver.GetCardVehicleRecordsCount(), 2); err != nil {
+			return nil, err
+		}
 		vehicleRecords := make([]byte, 2)
 		binary.BigEndian.PutUint16(vehicleRecords, uint16(driver.GetCardVehicleRecordsCount()))
 		data = append(data, vehicleRecords...)
@@ -224,6 +236,9 @@ func appendCardApplicationIdentificationG2(data []byte, appId *cardv1.Applicatio
 
 	// Card place records count (2 bytes in Gen2)
 	if driver.HasCardPlaceRecordsCount() {
+		if err := checkUnsigned("card place records count", driver.GetCardPlaceRecordsCount(), 2); err != nil {
+			return nil, err
+		}
 		placeRecords := make([]byte, 2)
 		binary.BigEndian.PutUint16(placeRecords, uint16(driver.GetCardPlaceRecordsCount()))
 		data = append(data, placeRecords...)
@@ -235,6 +250,9 @@ func appendCardApplicationIdentificationG2(data []byte, appId *cardv1.Applicatio
 
 	// GNSS AD records count (2 bytes)
 	if driver.HasGnssAdRecordsCount() {
+		if err := checkUnsigned("gnss ad records count", driver.GetGnssAdRecordsCount(), 2); err != nil {
+			return nil, err
+		}
 		gnssAdRecords := make([]byte, 2)
 		binary.BigEndian.PutUint16(gnssAdRecords, uint16(driver.GetGnssAdRecordsCount()))
 		data = append(data, gnssAdRecords...)
@@ -244,6 +262,9 @@ func appendCardApplicationIdentificationG2(data []byte, appId *cardv1.Applicatio
 
 	// Specific condition records count (2 bytes)
 	if driver.HasSpecificConditionRecordsCount() {
+		if err := checkUnsigned("specific condition records count", driver.GetSpecificConditionRecordsCount(), 2); err != nil {
+			return nil, err
+		}
 		specificConditionRecords := make([]byte, 2)
 		binary.BigEndian.PutUint16(specificConditionRecords, uint16(driver.GetSpecificConditionRecordsCount()))
 		data = append(data, specificConditionRecords...)
@@ -253,6 +274,9 @@ func appendCardApplicationIdentificationG2(data []byte, appId *cardv1.Applicatio
 
 	// Card vehicle unit records count (2 bytes)
 	if driver.HasCardVehicleUnitRecordsCount() {
+		if err := checkUnsigned("card vehicle unit records count", driver.GetCardVehicleUnitRecordsCount(), 2); err != nil {
+			return nil, err
+		}
 		vehicleUnitRecords := make([]byte, 2)
 		binary.BigEndian.PutUint16(vehicleUnitRecords, uint16(driver.GetCardVehicleUnitRecordsCount()))
 		data = append(data, vehicleUnitRecords...)
diff --git a/internal/card/gnss_places.go b/internal/card/gnss_places.go
index cafa0e9..b49cd7d 100644
--- a/internal/card/gnss_places.go
+++ b/internal/card/gnss_places.go
@@ -176,6 +176,9 @@ func appendCardGnssPlaces(dst []byte, gnssPlaces *cardv1.GnssPlaces) ([]byte, er
 
 	// Append newest record index (2 bytes)
 	newestRecordIndex := gnssPlaces.GetNewestRecordIndex()
+	if err := checkUnsigned("newest record index", newestRecordIndex, 2); err != nil {
+		return nil, err
+	}
 	dst = binary.BigEndian.AppendUint16(dst, uint16(newestRecordIndex))
 
 	// Append all GNSS accumulated driving records
diff --git a/internal/card/ic.go b/internal/card/ic.go
index 09026ee..0daebea 100644
--- a/internal/card/ic.go
+++ b/internal/card/ic.go
@@ -70,6 +70,9 @@ func appendCardIc(data []byte, ic *cardv1.Ic) ([]byte, error) {
 
 	// Append IC Serial Number (4 bytes)
 	serialBytes := ic.GetIcSerialNumber()
+	if len(serialBytes) > lenIcSerialNumber {
+		return nil, fmt.Errorf("IC serial number too long: %d bytes", len(serialBytes))
+	}
 	if len(serialBytes) >= lenIcSerialNumber {
 		data = append(data, serialBytes[:lenIcSerialNumber]...)
 	} else {
@@ -81,6 +84,9 @@ func appendCardIc(data []byte, ic *cardv1.Ic) ([]byte, error) {
 
 	// Append IC Manufacturing References (4 bytes)
 	mfgBytes := ic.GetIcManufacturingReferences()
+	if len(mfgBytes) > lenIcManufacturingReferences {
+		return nil, fmt.Errorf("IC manufacturing references too long: %d bytes", len(mfgBytes))
+	}
 	if len(mfgBytes) >= lenIcManufacturingReferences {
 		data = append(data, mfgBytes[:lenIcManufacturingReferences]...)
 	} else {
diff --git a/internal/card/icc.go b/internal/card/icc.go
index e5a5154..c3e91a6 100644
--- a/internal/card/icc.go
+++ b/internal/card/icc.go
@@ -194,6 +194,9 @@ func appendIcc(dst []byte, icc *cardv1.Icc) ([]byte, error) {
 	}
 
 	// Append card personaliser ID (1 byte)
+	if err := checkUnsigned("card personaliser id", icc.GetCardPersonaliserId(), 1); err != nil {
+		return nil, err
+	}
 	dst = append(dst, byte(icc.GetCardPersonaliserId()))
 
 	// Append embedder IC assembler ID (5 bytes)
@@ -203,8 +206,12 @@ func appendIcc(dst []byte, icc *cardv1.Icc) ([]byte, error) {
 	}
 
 	// Append IC identifier (2 bytes)
-	dst = append(dst, icc.GetIcIdentifier()...)
-	return dst, nil
+	icIdentifier := icc.GetIcIdentifier()
+	if len(icIdentifier) != lenIcIdentifier && len(icIdentifier) != 0 {
+		return nil, fmt.Errorf("invalid length for IC identifier: got %d, want %d", len(icIdentifier), lenIcIdentifier)
+	}
+	dst = append(dst, icIdentifier...)
+	return append(dst, make([]byte, lenIcIdentifier-len(icIdentifier))...), nil
 }
 
 // appendEmbedderIcAssemblerId appends an EmbedderIcAssemblerId structure (5 bytes total)
@@ -230,6 +237,9 @@ func appendEmbedderIcAssemblerId(dst []byte, eia *cardv1.Icc_EmbedderIcAssembler
 	}
 
 	// Append manufacturer information (1 byte)
+	if err := checkUnsigned("manufacturer information", eia.GetManufacturerInformation(), 1); err != nil {
+		return nil, err
+	}
 	dst = append(dst, byte(eia.GetManufacturerInformation()))
 
 	return dst, nil
diff --git a/internal/card/places.go b/internal/card/places.go
index 11f1368..9a4e7a1 100644
--- a/internal/card/places.go
+++ b/internal/card/places.go
@@ -81,6 +81,9 @@ func appendPlaces(dst []byte, p *cardv1.Places) ([]byte, error) {
 	if p == nil {
 		return dst, nil
 	}
+	if err := checkUnsigned("newest record index", p.GetNewestRecordIndex(), 1); err != nil {
+		return nil, err
+	}
 
 	// Calculate expected size: 1 byte (pointer) + N records × 10 bytes
 	const recordSize = 10
diff --git a/internal/card/places_g2.go b/internal/card/places_g2.go
index 549a709..6d06b57 100644
--- a/internal/card/places_g2.go
+++ b/internal/card/places_g2.go
@@ -82,6 +82,9 @@ func appendPlacesG2(dst []byte, p *cardv1.PlacesG2) ([]byte, error) {
 	if p == nil {
 		return dst, nil
 	}
+	if err := checkUnsigned("newest record index", p.GetNewestRecordIndex(), 2); err != nil {
+		return nil, err
+	}
 
 	// Calculate expected size: 2 bytes (pointer) + N records × 21 bytes
 	const recordSize = 21
diff --git a/internal/card/specific_conditions_g2.go b/internal/card/specific_conditions_g2.go
index ec37e54..fe2fc22 100644
--- a/internal/card/specific_conditions_g2.go
+++ b/internal/card/specific_conditions_g2.go
@@ -71,6 +71,9 @@ func appendCardSpecificConditionsG2(data []byte, conditions *cardv1.SpecificCond
 	if conditions == nil {
 		return data, nil
 	}
+	if err := checkUnsigned("newest record index", conditions.GetNewestRecordIndex(), 2); err != nil {
+		return nil, err
+	}
 
 	const (
 		lenPointer = 2
diff --git a/internal/card/unsigned.go b/internal/card/unsigned.go
new file mode 100644
index 0000000..ff050b8
--- /dev/null
+++ b/internal/card/unsigned.go
@@ -0,0 +1,12 @@
+package card
+
+import "fmt"
+
+// checkUnsigned returns an error if a value does not fit an unsigned integer of the
+// given number of bytes, which would otherwise store another value.
+func checkUnsigned(name string, value int32, size int) error {
+	if value < 0 || int64(value) >= 1<<(8*size) {
+		return fmt.Errorf("%s %d does not fit %d byte(s)", name, value, size)
+	}
+	return nil
+}
diff --git a/internal/card/vehicle_units_used.go b/internal/card/vehicle_units_used.go
index bf7a13f..4faca49 100644
--- a/internal/card/vehicle_units_used.go
+++ b/internal/card/vehicle_units_used.go
@@ -176,6 +176,9 @@ func appendCardVehicleUnitsUsed(dst []byte, vehicleUnits *cardv1.VehicleUnitsUse
 
 	// Append newest record pointer (2 bytes)
 	newestRecordPointer := vehicleUnits.GetVehicleUnitPointerNewestRecord()
+	if err := checkUnsigned("newest record pointer", newestRecordPointer, 2); err != nil {
+		return nil, err
+	}
 	dst = binary.BigEndian.AppendUint16(dst, uint16(newestRecordPointer))
 
 	// Append all vehicle unit records
diff --git a/internal/card/vehicles_used.go b/internal/card/vehicles_used.go
index 299dd3f..01979aa 100644
--- a/internal/card/vehicles_used.go
+++ b/internal/card/vehicles_used.go
@@ -78,6 +78,9 @@ func appendVehiclesUsed(dst []byte, vehiclesUsed *cardv1.VehiclesUsed) ([]byte,
 	if vehiclesUsed == nil {
 		return dst, nil
 	}
+	if err := checkUnsigned("newest record index", vehiclesUsed.GetNewestRecordIndex(), 2); err != nil {
+		return nil, err
+	}
 
 	// Calculate expected size: 2 bytes (pointer) + N records × 31 bytes
 	const recordSize = 31
diff --git a/internal/card/vehicles_used_g2.go b/internal/card/vehicles_used_g2.go
index 8e13a6d..ac20d7f 100644
--- a/internal/card/vehicles_used_g2.go
+++ b/internal/card/vehicles_used_g2.go
@@ -78,6 +78,9 @@ func appendVehiclesUsedG2(dst []byte, vehiclesUsed *cardv1.VehiclesUsedG2) ([]by
 	if vehiclesUsed == nil {
 		return dst, nil
 	}
+	if err := checkUnsigned("newest record index", vehiclesUsed.GetNewestRecordIndex(), 2); err != nil {
+		return nil, err
+	}
 
 	// Calculate expected size: 2 bytes (pointer) + N records × 48 bytes
 	const recordSize = 48
diff --git a/internal/dd/extended_serial_number.go b/internal/dd/extended_serial_number.go
index 911f460..f7c56f6 100644
--- a/internal/dd/extended_serial_number.go
+++ b/internal/dd/extended_serial_number.go
@@ -126,6 +126,13 @@ func AppendExtendedSerialNumberAsString(dst []byte, esn *ddv1.ExtendedSerialNumb
 		return nil, fmt.Errorf("extendedSerialNumber cannot be nil")
 	}
 
+	if esn.GetSerialNumber() < 0 || esn.GetSerialNumber() > math.MaxUint32 {
+		return nil, fmt.Errorf("serial number %d is out of range for ExtendedSerialNumber", esn.GetSerialNumber())
+	}
+	if esn.GetManufacturerCode() < 0 || esn.GetManufacturerCode() > 255 {
+		return nil, fmt.Errorf("manufacturer code %d is out of range for ExtendedSerialNumber", esn.GetManufacturerCode())
+	}
+
 	// Create a byte slice for the extended serial number
 	serialBytes := make([]byte, 8)
 
-- 
2.43.0


From 63822fe01c3fc9a6f77df5ab9fc328808020bf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:14 +0000
Subject: [PATCH 45/52] fix: keep downloaded certificates that begin with the
 byte of '<'

---
 tools/cmd/fetch-certs/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/cmd/fetch-certs/main.go b/tools/cmd/fetch-certs/main.go
index 23a3231..b783882 100644
--- a/tools/cmd/fetch-certs/main.go
+++ b/tools/cmd/fetch-certs/main.go
@@ -936,7 +936,9 @@ func downloadCertificate(url string, maxSize int) ([]byte, error) {
 		return nil, err
 	}
 
-	if len(data) > 0 && data[0] == '<' {
+	// A certificate may begin with any byte, also that of '<'.
+	contentType := http.DetectContentType(data)
+	if strings.HasPrefix(contentType, "text/html") || strings.HasPrefix(contentType, "text/xml") {
 		return nil, fmt.Errorf("received HTML instead of certificate data")
 	}
 
-- 
2.43.0


From 6b925ce137e4501253342d6a52db021e34cd21d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:17 +0000
Subject: [PATCH 46/52] fix: list a certificate without an end of validity
 under the listed date

---
 tools/cmd/fetch-certs/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/cmd/fetch-certs/main.go b/tools/cmd/fetch-certs/main.go
index b783882..4cec91e 100644
--- a/tools/cmd/fetch-certs/main.go
+++ b/tools/cmd/fetch-certs/main.go
@@ -650,7 +650,9 @@ func extractGen1CHRAndEOV(cPrime []byte) (chr uint64, eov string, err error) {
 	eovTime := eovTimeReal.Decode()
 
 	// Convert to UTC and format as RFC3339
-	eov = eovTime.UTC().Format(time.RFC3339)
+	if !eovTime.IsZero() {
+		eov = eovTime.UTC().Format(time.RFC3339)
+	}
 
 	return chr, eov, nil
 }
-- 
2.43.0


From f76bbab83f7a1a50e08c5aa83c85cb9d79060d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:20 +0000
Subject: [PATCH 47/52] fix: store every downloaded certificate inside the
 output directory

---
 tools/cmd/fetch-certs/main.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/tools/cmd/fetch-certs/main.go b/tools/cmd/fetch-certs/main.go
index 4cec91e..aefedd6 100644
--- a/tools/cmd/fetch-certs/main.go
+++ b/tools/cmd/fetch-certs/main.go
@@ -915,11 +915,8 @@ func extractCertificateName(url string) string {
 		return filepath.Base(url)
 	}
 
-	name := parts[len(parts)-1]
-	name = strings.TrimPrefix(name, "iot_doc/")
-	name = strings.TrimPrefix(name, "erca_of_doc/")
-
-	return name
+	// The name becomes a file name, so it must not lead to another directory.
+	return filepath.Base(parts[len(parts)-1])
 }
 
 func downloadCertificate(url string, maxSize int) ([]byte, error) {
-- 
2.43.0


From 1156c16f31ec16b657938dd4068c62d35ba17d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:07 +0000
Subject: [PATCH 48/52] fix: verify brainpool certificates concurrently without
 a data race

---
 internal/security/ecc_verify.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/security/ecc_verify.go b/internal/security/ecc_verify.go
index 32e89f4..03b9049 100644
--- a/internal/security/ecc_verify.go
+++ b/internal/security/ecc_verify.go
@@ -142,6 +142,11 @@ func VerifyEccCertificateWithCA(cert *securityv1.EccCertificate, caCert *securit
 	return nil
 }
 
+// The arithmetic of the brainpool curves reads the NIST curves of crypto/elliptic
+// without waiting for their setup on first use. Setting them up here keeps
+// concurrent verifications free of data races.
+var _ = elliptic.P256()
+
 // parseCurveOID parses an elliptic curve OID and returns the hash size (in bits)
 // and the elliptic.Curve interface.
 //
-- 
2.43.0


From 7b1bbde8fabbc6dca78df4d543dc9873df146d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:27 +0000
Subject: [PATCH 49/52] fix: keep a parsed vehicle-unit file when the caller
 reuses its input

---
 internal/vu/raw_vehicle_unit_file.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/vu/raw_vehicle_unit_file.go b/internal/vu/raw_vehicle_unit_file.go
index 8a09e62..85b813d 100644
--- a/internal/vu/raw_vehicle_unit_file.go
+++ b/internal/vu/raw_vehicle_unit_file.go
@@ -1,6 +1,7 @@
 package vu
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 
@@ -50,7 +51,8 @@ func unmarshalRawVehicleUnitFile(data []byte) (*vuv1.RawVehicleUnitFile, error)
 		if offset+valueSize > len(data) {
 			return nil, fmt.Errorf("insufficient data for %v value: need %d bytes, have %d", transferType, valueSize, len(data)-offset)
 		}
-		value := data[offset : offset+valueSize]
+		// Copy it, since the caller may reuse the input slice.
+		value := bytes.Clone(data[offset : offset+valueSize])
 		offset += valueSize
 
 		// Create record
-- 
2.43.0


From 5df5e7facc882cce47455b3eff6c350b1739c93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:32 +0000
Subject: [PATCH 50/52] fix: refuse an activity change that encodes as an
 unused entry

---
 internal/card/activity.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index 0cffa16..8738cf4 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -548,6 +548,9 @@ func marshalRecordWithHeader(rec *cardv1.DriverActivityData_DailyRecord, prevRec
 		if err != nil {
 			return nil, fmt.Errorf("failed to append activity change info: %w", err)
 		}
+		if isUnusedActivityChangeInfo(buf[len(buf)-2:]) {
+			return nil, fmt.Errorf("activity change info has the value of an unused entry")
+		}
 	}
 
 	return buf, nil
-- 
2.43.0


From 981749605022ae96463313e39e30ef487566c0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:36 +0000
Subject: [PATCH 51/52] fix: take the output directory of fetch-certs for a
 name, not a pattern

---
 tools/cmd/fetch-certs/main.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tools/cmd/fetch-certs/main.go b/tools/cmd/fetch-certs/main.go
index aefedd6..48649ac 100644
--- a/tools/cmd/fetch-certs/main.go
+++ b/tools/cmd/fetch-certs/main.go
@@ -194,11 +194,16 @@ func createDirectoryStructure(baseDir string) error {
 		}
 
 		// Remove existing .bin files to ensure clean state
-		files, err := filepath.Glob(filepath.Join(dir, "*.bin"))
+		// (the name of the directory is not a pattern)
+		entries, err := os.ReadDir(dir)
 		if err != nil {
 			return fmt.Errorf("failed to list files in %s: %w", dir, err)
 		}
-		for _, file := range files {
+		for _, entry := range entries {
+			if !strings.HasSuffix(entry.Name(), ".bin") {
+				continue
+			}
+			file := filepath.Join(dir, entry.Name())
 			if err := os.Remove(file); err != nil {
 				return fmt.Errorf("failed to remove file %s: %w", file, err)
 			}
-- 
2.43.0


From 8c6197e948f541cf99694fd48349a001a595ed35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:40 +0000
Subject: [PATCH 52/52] fix: keep certificates apart whose links end in the
 same name

---
 tools/cmd/fetch-certs/main.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tools/cmd/fetch-certs/main.go b/tools/cmd/fetch-certs/main.go
index 48649ac..cef52d1 100644
--- a/tools/cmd/fetch-certs/main.go
+++ b/tools/cmd/fetch-certs/main.go
@@ -771,6 +771,20 @@ func parseCertificateTable(n *html.Node, baseURL string) []certificateMetadata {
 	}
 
 	findRows(n)
+
+	// Different links can end in the same name; the names become file names, so tell them apart.
+	taken := make(map[string]string, len(certs))
+	for i := range certs {
+		name := certs[i].name
+		for n := 2; ; n++ {
+			url, ok := taken[certs[i].name]
+			if !ok || url == certs[i].downloadURL {
+				break
+			}
+			certs[i].name = fmt.Sprintf("%s_%d", name, n)
+		}
+		taken[certs[i].name] = certs[i].downloadURL
+	}
 	return certs
 }
 
-- 
2.43.0

