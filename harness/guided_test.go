package verifpbt

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"testing"

	"pgregory.net/rapid"
)

// FuzzGuided searches the cases of one property's generators with the coverage-guided
// mutation of `go test -fuzz`: the first byte of an input selects the generator and the rest
// is the stream of choices that it draws from, so that what is mutated is structured input
// and what decides is the oracle of the generator.
func FuzzGuided(f *testing.F) {
	test := guidedTests[getenv("VERIF_GUIDED", "")]
	if test == nil {
		f.Skip("no property selected")
	}
	collecting = true
	test(&testing.T{})
	collecting = false
	r := rand.New(rand.NewSource(int64(atof(getenv("VERIF_GUIDED_SEED", "1")))))
	for i := range collected {
		for _, n := range []int{64, 512, 4096} {
			f.Add(byte(i), choices(r, n))
		}
	}
	f.Fuzz(func(t *testing.T, which byte, data []byte) {
		s := collected[int(which)%len(collected)]
		var last *failure
		chosen := data
		defer func() {
			if last != nil {
				col.mu.Lock()
				col.Failures = append(col.Failures, *last)
				col.mu.Unlock()
				// For the runner, also where the input is one of those above.
				name := filepath.Join(envDir, fmt.Sprintf("failing-%06d-%d", len(chosen), which))
				_ = os.WriteFile(name, chosen, 0o644)
			}
		}()
		// Behind its last choice an input has the smallest choice of everything.
		data = append(data[:len(data):len(data)], smallest[:]...)
		rapid.MakeFuzz(func(rt *rapid.T) { oneCase(rt, s, &last) })(t, data)
	})
}

var smallest [8 * 2048]byte

// choices draws a stream of n choices of all magnitudes.
func choices(r *rand.Rand, n int) []byte {
	out := make([]byte, 0, 8*n)
	for i := 0; i < n; i++ {
		out = binary.LittleEndian.AppendUint64(out, r.Uint64()>>r.Intn(64))
	}
	return out
}

var guidedTests = map[string]func(*testing.T){
	"C01": TestC01,
	"C02": TestC02,
	"C03": TestC03,
	"C04": TestC04,
	"C05": TestC05,
	"C06": TestC06,
	"C07": TestC07,
	"C08": TestC08,
	"C09": TestC09,
	"C10": TestC10,
	"C11": TestC11,
	"C12": TestC12,
	"C13": TestC13,
	"C14": TestC14,
	"C15": TestC15,
	"C16": TestC16,
	"C17": TestC17,
	"C18": TestC18,
	"C19": TestC19,
	"C20": TestC20,
	"C21": TestC21,
	"C22": TestC22,
	"C23": TestC23,
	"C24": TestC24,
	"C25": TestC25,
	"C26": TestC26,
	"C28": TestC28,
	"C30": TestC30,
	"C32": TestC32,
	"C33": TestC33,
	"C34": TestC34,
	"C35": TestC35,
}
