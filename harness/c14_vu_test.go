package verifpbt

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/vu"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	vuv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/vu/v1"
)

func decodeVU(b []byte, viaFile bool) (*vuv1.VehicleUnitFile, error) {
	if !viaFile {
		return vu.UnmarshalVehicleUnitFile(exact(b))
	}
	f, err := tachograph.UnmarshalFile(exact(b))
	if err != nil {
		return nil, err
	}
	if f.GetType() != tachographv1.File_VEHICLE_UNIT {
		return nil, fmt.Errorf("a vehicle-unit file is read as %v", f.GetType())
	}
	return f.GetVehicleUnit(), nil
}

func inVU(c *C, v vuFile, file []byte) {
	c.in("transfers", v.String())
	if len(file) < 6000 {
		c.in("bytes", file)
	}
}

func TestC14(t *testing.T) {
	body := func(most int, viaFile, large bool) func(t *rapid.T, c *C) {
		return func(t *rapid.T, c *C) {
			g := &G{t: t, large: large}
			v := g.vuFile(most)
			file := v.bytes()
			inVU(c, v, file)
			got, err := decodeVU(file, viaFile)
			if err != nil {
				c.failf(t, "a well-formed vehicle-unit file is refused: %v", err)
			}
			if d := checkVU(got, v.format, v.transfers); d != "" {
				c.failf(t, "%s", d)
			}
			c.class("format: " + v.format.field)
			n := map[byte]int{}
			for _, x := range v.transfers {
				n[x.trep]++
			}
			for k, m := range n {
				c.class(fmt.Sprintf("transfer %02x", k))
				c.classIf(m > 1, fmt.Sprintf("transfer %02x more than once", k))
			}
			if len(v.transfers) >= 2 {
				c.nontrivial(file)
			}
		}
	}
	run(t, "C14", "a vehicle-unit file of at least two transfers",
		sub{"whole file", 300, 8000, body(6, true, false)},
		sub{"vehicle unit", 150, 4000, body(12, false, false)},
		sub{"large files", 6, 200, body(12, false, true)},
		sub{"mixed", 150, 6000, func(t *rapid.T, c *C) {
			g := &G{t: t}
			v := g.vuFile(4)
			other := g.vuFile(2)
			if v.format.field == other.format.field {
				other = g.vuFile(2)
			}
			// Detailed speed is the same transfer in both versions of the second generation.
			own := map[byte]bool{}
			for _, k := range v.format.kinds {
				own[k.trep] = true
			}
			var foreign []transfer
			for _, x := range other.transfers {
				if !own[x.trep] && !(x.trep == 0x24 && v.format.gen == ddv1.Generation_GENERATION_2) {
					foreign = append(foreign, x)
				}
			}
			if len(foreign) == 0 {
				c.class("nothing foreign")
				return
			}
			// Files of detailed speed only belong to either version.
			either := v.format.field == "gen2_v1" && other.format.gen == ddv1.Generation_GENERATION_2
			for _, x := range v.transfers {
				either = either && x.trep == 0x24
			}
			if either {
				c.class("nothing foreign")
				return
			}
			xs := append([]transfer(nil), v.transfers...)
			for _, x := range foreign {
				at := position(t, len(xs)+1, "foreign.at")
				xs = append(xs[:at], append([]transfer{x}, xs[at:]...)...)
			}
			mix := vuFile{v.format, xs}
			file := mix.bytes()
			inVU(c, mix, file)
			if got, err := decodeVU(file, gBool(t, "via file")); err == nil {
				c.failf(t, "a file with transfers of %s and %s is accepted, as %v %v", v.format.field, other.format.field, got.GetGeneration(), got.GetVersion())
			}
			c.class(v.format.field + " with " + other.format.field)
			c.nontrivial(file)
		}})
}

func oneTransfer(t *rapid.T, c *C, f *vuFormat, x transfer) {
	v := vuFile{effective(f, []transfer{x}), []transfer{x}}
	file := v.bytes()
	inVU(c, v, file)
	got, err := decodeVU(file, gBool(t, "via file"))
	if err != nil {
		c.failf(t, "a well-formed transfer is refused: %v", err)
	}
	if d := checkVU(got, v.format, v.transfers); d != "" {
		c.failf(t, "%s", d)
	}
}

func TestC15(t *testing.T) {
	run(t, "C15", "an overview with at least one company lock or control", sub{"overview", 500, 20000, func(t *rapid.T, c *C) {
		g := &G{t: t}
		x := g.overviewGen1()
		oneTransfer(t, c, &vuFormats[0], x)
		o := x.want.(*vuv1.OverviewGen1)
		c.classIf(len(o.GetCompanyLocks()) > 0, "company locks")
		c.classIf(len(o.GetCompanyLocks()) > 20, "many company locks")
		c.classIf(len(o.GetControlActivities()) > 0, "controls")
		c.classIf(!o.GetDownloadActivities()[0].HasFullCardNumber(), "no card in the last download")
		c.classIf(o.GetDriverSlotCard() != o.GetCoDriverSlotCard(), "different cards inserted")
		if len(o.GetCompanyLocks())+len(o.GetControlActivities()) > 0 {
			c.nontrivial(x.body)
		}
	}})
}

func TestC16(t *testing.T) {
	run(t, "C16", "a day with at least one entry in two of its four lists", sub{"activities", 400, 15000, func(t *rapid.T, c *C) {
		g := &G{t: t}
		x := g.activitiesGen1()
		oneTransfer(t, c, &vuFormats[0], x)
		a := x.want.(*vuv1.ActivitiesGen1)
		lists := 0
		for n, l := range map[string]int{"insertions": len(a.GetCardIwData()), "changes": len(a.GetActivityChanges()),
			"places": len(a.GetPlaces()), "conditions": len(a.GetSpecificConditions())} {
			if l > 0 {
				lists++
				c.class(n)
			}
			c.classIf(l > 255, "over 255 "+n)
		}
		if lists >= 2 {
			c.nontrivial(x.body)
		}
	}})
}

func TestC17(t *testing.T) {
	var subs []sub
	for fi := range vuFormats {
		f := &vuFormats[fi]
		for _, k := range f.kinds {
			if f.field == "gen1" && (k.trep == 1 || k.trep == 2) || k.trep == 0x24 && f.field == "gen2_v2" || k.trep == 0 {
				continue
			}
			subs = append(subs, sub{fmt.Sprintf("%s %s", f.field, k.field), 80, 3000, func(t *rapid.T, c *C) {
				g := &G{t: t}
				x := k.gen(g)
				oneTransfer(t, c, f, x)
				c.class(fmt.Sprintf("transfer %02x", k.trep))
				if len(x.body) > 5*(len(x.arrays)+1) {
					c.nontrivial(x.body)
				}
				if x.arrays == nil {
					return
				}
				// Without its last record array, and with one more, the transfer is refused.
				n := len(x.arrays)
				lacking := x
				lacking.body = x.body[:x.arrays[n-2]]
				if _, err := decodeVU(lacking.bytes(), false); err == nil {
					c.failf(t, "a transfer without its last record array is accepted")
				}
				extra := x
				kind := gByte(t, "extra.kind")
				if kind == 0x76 {
					kind = 8
				}
				size := gInt(t, 0, 40, "extra.size")
				count := gInt(t, 0, 3, "extra.count")
				extra.body = cat(x.body, []byte{kind}, u16(size), u16(count), g.random(size*count, "extra.records"))
				c.in("extra array", extra.body[len(x.body):])
				if _, err := decodeVU(extra.bytes(), false); err == nil {
					c.failf(t, "a transfer with one record array too many is accepted")
				}
				c.class("one array less and one more refused")
			}})
		}
	}
	run(t, "C17", "a transfer with at least one stored record", subs...)
}
