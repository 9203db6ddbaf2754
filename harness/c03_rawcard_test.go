package verifpbt

import (
	"bytes"
	"fmt"
	"testing"

	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"github.com/way-platform/tachograph-go/internal/card"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
)

// efNames is the Regulation's table of file identifiers (Appendix 2).
var efNames = map[int]string{
	0x0002: "EF_ICC", 0x0005: "EF_IC", 0x2F01: "EF_ATR_INFO", 0x0006: "EF_EXTENDED_LENGTH",
	0x0501: "EF_APPLICATION_IDENTIFICATION", 0x0502: "EF_EVENTS_DATA", 0x0503: "EF_FAULTS_DATA",
	0x0504: "EF_DRIVER_ACTIVITY_DATA", 0x0505: "EF_VEHICLES_USED", 0x0506: "EF_PLACES",
	0x0507: "EF_CURRENT_USAGE", 0x0508: "EF_CONTROL_ACTIVITY_DATA", 0x0509: "EF_CARD_DOWNLOAD_WORKSHOP",
	0x050A: "EF_CALIBRATION", 0x050B: "EF_SENSOR_INSTALLATION_DATA", 0x050C: "EF_CONTROLLER_ACTIVITY_DATA",
	0x050D: "EF_COMPANY_ACTIVITY_DATA", 0x050E: "EF_CARD_DOWNLOAD_DRIVER", 0x0520: "EF_IDENTIFICATION",
	0x0521: "EF_DRIVING_LICENCE_INFO", 0x0522: "EF_SPECIFIC_CONDITIONS", 0x0523: "EF_VEHICLE_UNITS_USED",
	0x0524: "EF_GNSS_PLACES", 0x0525: "EF_APPLICATION_IDENTIFICATION_V2", 0x0526: "EF_PLACES_AUTHENTICATION",
	0x0527: "EF_GNSS_PLACES_AUTHENTICATION", 0x0528: "EF_BORDER_CROSSINGS", 0x0529: "EF_LOAD_UNLOAD_OPERATIONS",
	0x0530: "EF_LOAD_TYPE_ENTRIES", 0x0531: "EF_CALIBRATION_ADD_DATA", 0x0540: "EF_VU_CONFIGURATION",
	0x2F00: "EF_DIR", 0xC100: "EF_CARD_CERTIFICATE", 0xC101: "EF_CARD_SIGN_CERTIFICATE",
	0xC108: "EF_CA_CERTIFICATE", 0xC109: "EF_LINK_CERTIFICATE", 0x2F2F: "EF_EGF", 0x2F30: "EF_VU",
}

var efFids = func() []int {
	var out []int
	for f := 0; f <= 0xFFFF; f++ {
		if _, ok := efNames[f]; ok {
			out = append(out, f)
		}
	}
	return out
}()

// rec is one tag-length-value element of a card download.
type rec struct {
	fid int
	app byte
	val []byte
}

func (r rec) bytes() []byte { return cat(u16(r.fid), []byte{r.app}, u16(len(r.val)), r.val) }

func (r rec) String() string { return fmt.Sprintf("%04x/%02x len %d", r.fid, r.app, len(r.val)) }

func recsBytes(rs []rec) []byte {
	var out []byte
	for _, r := range rs {
		out = append(out, r.bytes()...)
	}
	return out
}

func recsString(rs []rec) string {
	s := ""
	for i, r := range rs {
		if i > 0 {
			s += ", "
		}
		s += r.String()
	}
	return s
}

func gRecord(t *rapid.T, fids []int) rec {
	r := rec{}
	if oneIn(t, 5, "fid.any") {
		r.fid = int(rapid.Uint16().Draw(t, "fid"))
	} else {
		r.fid = rapid.SampledFrom(fids).Draw(t, "fid")
	}
	r.app = rapid.OneOf(rapid.SampledFrom([]byte{0, 1, 2, 3}), rapid.Byte()).Draw(t, "appendix")
	n := 0
	switch rapid.IntRange(0, 19).Draw(t, "len.kind") {
	case 0:
		n = 0
	case 1:
		n = rapid.IntRange(4000, 4200).Draw(t, "len.4k")
	case 2:
		n = rapid.IntRange(256, 14000).Draw(t, "len.big")
	case 3:
		n = rapid.SampledFrom([]int{65535, 65534, 65532, 65531, 65530, 60000, 0x100, 0xFF}).Draw(t, "len.edge")
	default:
		n = rapid.IntRange(1, 260).Draw(t, "len")
	}
	r.val = gBytes(t, n, "value")
	return r
}

// wantRecord is the reference reading of one stored element.
func wantRecord(r rec) *cardv1.RawCardFile_Record {
	w := &cardv1.RawCardFile_Record{}
	w.SetTag(int32(r.fid)<<8 | int32(r.app))
	w.SetLength(int32(len(r.val)))
	w.SetValue(r.val)
	w.SetFile(cardv1.ElementaryFileType(cardv1.ElementaryFileType_value[efNames[r.fid]]))
	w.SetContentType(cardv1.ContentType_DATA)
	if r.app&1 == 1 {
		w.SetContentType(cardv1.ContentType_SIGNATURE)
	}
	w.SetGeneration(ddv1.Generation_GENERATION_1)
	if r.app&2 == 2 {
		w.SetGeneration(ddv1.Generation_GENERATION_2)
	}
	return w
}

func TestC03(t *testing.T) {
	body := func(gen func(t *rapid.T) []rec) func(t *rapid.T, c *C) {
		return func(t *rapid.T, c *C) {
			rs := gen(t)
			n := len(rs)
			file := recsBytes(rs)
			if n < 40 {
				c.in("records", recsString(rs))
			} else {
				c.in("records", fmt.Sprintf("%d records, %d bytes", n, len(file)))
			}
			if len(file) < 3000 {
				c.in("file", file)
			}
			orig := exact(file)
			raw, err := card.UnmarshalRawCardFile(file)
			if err != nil {
				c.failf(t, "a well-formed card file is refused: %v", err)
			}
			if !bytes.Equal(file, orig) {
				c.failf(t, "the input was changed")
			}
			want := &cardv1.RawCardFile{}
			for _, r := range rs {
				want.SetRecords(append(want.GetRecords(), wantRecord(r)))
			}
			if len(raw.GetRecords()) != n {
				c.failf(t, "%d records from a file of %d", len(raw.GetRecords()), n)
			}
			for i := range rs {
				g, w := raw.GetRecords()[i], want.GetRecords()[i]
				if rs[i].fid == 0xC100 && g.GetFile() == cardv1.ElementaryFileType_EF_CARD_MA_CERTIFICATE {
					// One identifier names the certificate of either application.
					g = proto.Clone(g).(*cardv1.RawCardFile_Record)
					g.SetFile(cardv1.ElementaryFileType_EF_CARD_CERTIFICATE)
				}
				if !proto.Equal(g, w) {
					c.failf(t, "record %d (%s): %s", i, rs[i], diffMsg(g, w))
				}
			}
			back, err := card.MarshalRawCardFile(raw)
			if err != nil {
				c.failf(t, "reassembling fails: %v", err)
			}
			if !bytes.Equal(back, file) {
				c.failf(t, "reassembling changes the file: %s", firstDiff(back, file))
			}
			c.classIf(n == 0, "empty file")
			c.classIf(len(file) > 4096, "over one scanner buffer")
			c.classIf(len(file) > 1<<20, "over a megabyte")
			for _, r := range rs {
				c.classIf(len(r.val) == 0, "empty record")
				c.classIf(len(r.val) > 65530, "record near the length limit")
				c.classIf(efNames[r.fid] == "", "unknown identifier")
				c.classIf(r.app > 3, "appendix byte with high bits")
			}
			if n >= 2 || len(file) >= 256 {
				c.nontrivial(file)
			}
		}
	}
	run(t, "C03", "a file of at least two records, or one of 256 bytes or more",
		sub{"split", 900, 40000, body(func(t *rapid.T) []rec {
			n := gInt(t, 0, 12, "records")
			var rs []rec
			for i := 0; i < n; i++ {
				rs = append(rs, gRecord(t, efFids))
			}
			return rs
		})},
		// Files larger than any buffer a reader or writer starts with.
		sub{"large files", 6, 200, body(largeRecords)})
}

// largeRecords draws records of a megabyte or more in all: a few drawn ones and many full ones.
func largeRecords(t *rapid.T) []rec {
	n := 17 + position(t, 200, "full records")
	var rs []rec
	for i := 0; i < gInt(t, 0, 4, "records"); i++ {
		rs = append(rs, gRecord(t, efFids))
	}
	x := newXS(gSeed(t, "large"))
	short := gBool(t, "short ones too")
	for i := 0; i < n; i++ {
		r := rec{fid: efFids[x.intn(len(efFids))], app: byte(x.intn(4))}
		size := 65535 - x.intn(3)*x.intn(300)
		if short && x.intn(4) == 0 {
			size = x.intn(400)
		}
		r.val = make([]byte, size)
		for j := range r.val {
			r.val[j] = byte(x.next())
		}
		rs = append(rs, r)
	}
	at := position(t, len(rs), "rotate")
	return append(rs[at:len(rs):len(rs)], rs[:at]...)
}
