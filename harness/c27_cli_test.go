package verifpbt

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"testing"

	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	tachograph "github.com/way-platform/tachograph-go"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
)

func TestC27(t *testing.T) {
	cli := os.Getenv("VERIF_CLI")
	if cli == "" {
		t.Skip("the command is not built")
	}
	type arg struct {
		name string
		want *tachographv1.File // nil: reading or parsing fails
		kind string
	}
	run(t, "C27", "a list with a file that parses",
		sub{"parse", 60, 2500, func(t *rapid.T, c *C) {
			g := &G{t: t}
			dir, err := os.MkdirTemp(envDir, "cli")
			if err != nil {
				c.failf(t, "no scratch directory: %v", err)
			}
			defer os.RemoveAll(dir)
			var args []arg
			var stdin []byte
			piped := false
			n := rapid.SampledFrom([]int{1, 1, 2, 2, 3, 4, 6}).Draw(t, "files")
			kinds := []string{"file", "file", "file", "file", "file", "any", "missing", "directory", "again", "large", "link", "pipe"}
			if oneIn(t, 25, "many files") {
				// Nearly all of them parse, or nothing beyond the first few is looked at.
				kinds = slices.Repeat([]string{"file", "again", "again"}, 20)
				if gBool(t, "some fail") {
					kinds = append(kinds, "missing", "any")
				}
				n = 7 + position(t, 40, "number of files")
				c.class("more than six files")
			}
			for i := 0; i < n; i++ {
				a := arg{name: fmt.Sprintf("%s%d%s", rapid.SampledFrom([]string{"f", "C_", "ü", "M.", "a%s", ".", "a b", "*", "f.json"}).Draw(t, "name"), i, rapid.SampledFrom([]string{".DDD", ".ddd", "", ".esm"}).Draw(t, "suffix"))}
				// Files of one name in different directories are different files.
				switch folder := rapid.SampledFrom([]string{"", "", "in", "out", "in/deep", "."}).Draw(t, "folder"); {
				case folder == ".":
					a.name = "./" + a.name
				case folder != "":
					a.name = folder + "/" + a.name
					c.class("file in a directory")
				}
				if len(args) > 0 && oneIn(t, 3, "same base name") {
					a.name = fmt.Sprintf("d%d/%s", i, filepath.Base(args[position(t, len(args), "name of")].name))
					c.class("same base name")
				}
				if oneIn(t, 6, "absolute") {
					a.name = filepath.Join(dir, a.name)
				}
				path := a.name
				if !filepath.IsAbs(path) {
					path = filepath.Join(dir, path)
				}
				if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
					c.failf(t, "scratch directory: %v", err)
				}
				switch a.kind = kinds[position(t, len(kinds), "kind")]; a.kind {
				case "missing":
				case "directory":
					err = os.Mkdir(path, 0o755)
				case "again":
					if len(args) > 0 {
						a = args[position(t, len(args), "which")]
						if a.kind == "pipe" {
							a.want = nil // it has been read to its end
						}
					}
				default:
					var b []byte
					switch {
					case a.kind == "large" && oneIn(t, 3, "large"):
						// larger than any buffer a reader starts with
						b = cat(rec{0x0002, 0, g.element(efByName("ICC")).val}.bytes(), recsBytes(largeRecords(t)))
						if gBool(t, "large vehicle unit") {
							v := &G{t: t, large: true}
							for k := 0; k < 5 && (k == 0 || len(b) < 2<<20); k++ {
								b = v.vuFile(6).bytes()
							}
						}
					case a.kind != "any":
						b, _ = g.wellFormed()
					default:
						b, _ = g.anyBytes()
					}
					if f, perr := tachograph.UnmarshalFile(exact(b)); perr == nil {
						a.want = f
						c.classIf(len(b) > 1<<20, "a file over a megabyte parses")
					}
					switch {
					case a.kind == "pipe" && !piped:
						// Of a file like this the size is known only at its end.
						a.name, piped, stdin = "/dev/stdin", true, b
						c.class("a file that is a pipe")
					case a.kind == "link":
						to := fmt.Sprintf("%s/linked%d", dir, i)
						if err = os.WriteFile(to, b, 0o644); err == nil {
							err = os.Symlink(to, path)
						}
						c.class("a link to a file")
					default:
						a.kind = "file"
						err = os.WriteFile(path, b, 0o644)
					}
					if len(b) < 4000 {
						c.in("file "+a.name, b)
					}
				}
				if err != nil {
					c.failf(t, "scratch file: %v", err)
				}
				c.in("argument "+fmt.Sprint(i), a.name+" ("+a.kind+")")
				args = append(args, a)
			}
			argv := []string{"parse"}
			failed := -1
			for i, a := range args {
				argv = append(argv, a.name)
				if a.want == nil && failed < 0 {
					failed = i
				}
			}
			var stdout, stderr bytes.Buffer
			cmd := exec.Command(cli, argv...)
			cmd.Dir, cmd.Stdin, cmd.Stdout, cmd.Stderr = dir, bytes.NewReader(stdin), &stdout, &stderr
			cmd.Env = append(os.Environ(), "NO_COLOR=1", "COLUMNS=400")
			err = cmd.Run()
			var exit *exec.ExitError
			if err != nil && !errors.As(err, &exit) {
				c.failf(t, "the command does not run: %v", err)
			}
			if strings.Contains(stderr.String(), "goroutine ") || exit != nil && exit.ExitCode() < 0 {
				c.failf(t, "the command crashes: %s", short([]byte(stderr.String())))
			}
			if (failed < 0) != (err == nil) {
				c.failf(t, "the command exits with %v; file that fails: %d", err, failed)
			}
			whole := args
			if failed >= 0 {
				whole = args[:failed]
				if !strings.Contains(stderr.String(), args[failed].name) {
					c.failf(t, "the error does not name %s: %q", args[failed].name, stderr.String())
				}
			}
			dec := json.NewDecoder(&stdout)
			for i, a := range whole {
				var doc json.RawMessage
				if err := dec.Decode(&doc); err != nil {
					c.failf(t, "no JSON for file %d: %v", i, err)
				}
				got := &tachographv1.File{}
				if err := protojson.Unmarshal(doc, got); err != nil {
					c.failf(t, "the JSON for file %d cannot be read: %v", i, err)
				}
				if !proto.Equal(got, a.want) {
					c.failf(t, "the JSON for file %d is not what the library parses: %s", i, diffMsg(got, a.want))
				}
			}
			var more json.RawMessage
			if err := dec.Decode(&more); err != io.EOF {
				c.failf(t, "more is printed than the files before the failing one: %s", short(more))
			}
			if len(whole) > 0 {
				c.nontrivial([]byte(fmt.Sprint(argv, whole[0].want.String())))
			}
			c.classIf(failed < 0, "all parse")
			c.classIf(failed == 0, "the first fails")
			c.classIf(failed > 0, "a later one fails")
		}},
		sub{"no files", 2, 10, func(t *rapid.T, c *C) {
			_ = gBool(t, "any")
			if err := exec.Command(cli, "parse").Run(); err == nil {
				c.failf(t, "parse without files succeeds")
			}
			c.class("no files")
		}},
	)
}
