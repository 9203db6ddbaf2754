package verifpbt

import (
	"context"
	"fmt"
	"net/http"
	"sync"
	"testing"

	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/card"
	"github.com/way-platform/tachograph-go/internal/cert"
	"github.com/way-platform/tachograph-go/internal/security"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
)

// freshSource answers every request with new certificates and shares nothing.
type freshSource struct {
	root func() *securityv1.RootCertificate
	rsa  []byte
	ecc  []byte
}

func (s freshSource) GetRootCertificate(context.Context) (*securityv1.RootCertificate, error) {
	return s.root(), nil
}

func (s freshSource) GetRsaCertificate(context.Context, string) (*securityv1.RsaCertificate, error) {
	return security.UnmarshalRsaCertificate(exact(s.rsa))
}

func (s freshSource) GetEccCertificate(context.Context, string) (*securityv1.EccCertificate, error) {
	return security.UnmarshalEccCertificate(exact(s.ecc))
}

// offline refuses every download.
type offline struct{}

func (offline) RoundTrip(r *http.Request) (*http.Response, error) {
	return nil, fmt.Errorf("offline: %s", r.URL)
}

// task is one use of the library; it reports what came out.
type task struct {
	name string
	do   func() string
}

func outcome(m proto.Message, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		return "no protobuf: " + err.Error()
	}
	return string(b)
}

func bytesOutcome(b []byte, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	return string(b)
}

func (x task) run() (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprintf("panic: %v", r)
		}
	}()
	return x.do()
}

func TestC29(t *testing.T) {
	watchdogLimit = 900 // a case is the work of eight goroutines under the race detector
	run(t, "C29", "several goroutines share one input or one source and repeat each other's work",
		// What the library sets up on first use is set up once in a process, so the first
		// case of every process starts its goroutines before anything else has run.
		sub{"first use", 1, 1, func(t *rapid.T, c *C) {
			g := &G{t: t}
			w := &work{c: c}
			for _, kind := range []int{0, 1, 1, 2, 4} {
				b, name := modest(func() ([]byte, string) { return g.wellFormedKind(kind) })
				w.file(b, name, false)
			}
			w.certificates(g)
			w.parallel(t, 8)
		}},
		sub{"files and certificates", 5, 800, func(t *rapid.T, c *C) {
			g := &G{t: t}
			w := &work{c: c}
			n := gInt(t, 1, 4, "files")
			for i := 0; i < n; i++ {
				b, kind := modest(g.wellFormed)
				if oneIn(t, 4, "damaged") {
					b = g.damage(b)
				}
				w.file(b, kind, true)
			}
			w.certificates(g)
			w.parallel(t, gCount(t, 2, 8, 24, "goroutines"))
		}},
		// Goroutines that start one use together meet in it, without other work that would
		// put them in an order.
		sub{"one use at a time", 8, 150, func(t *rapid.T, c *C) {
			g := &G{t: t}
			b, kind := elementsFile(g.cardFile(90)), "full driver card"
			if oneIn(t, 4, "any file") {
				b, kind = modest(g.wellFormed)
			}
			w := &work{c: c}
			w.file(b, kind, true)
			workers := gCount(t, 2, 4, 16, "goroutines")
			for _, x := range w.tasks {
				got := make([]string, workers)
				start := make(chan struct{})
				var wg sync.WaitGroup
				for k := range got {
					wg.Add(1)
					go func() {
						defer wg.Done()
						<-start
						for i := 0; i < 3; i++ {
							if out := x.run(); i == 0 || out != got[k] {
								got[k] = out
							}
						}
					}()
				}
				close(start)
				wg.Wait()
				alone := x.run()
				for k := range got {
					if got[k] != alone {
						c.failf(t, "%s gives another result beside itself: %s", x.name, firstDiff([]byte(got[k]), []byte(alone)))
					}
				}
			}
			c.class(fmt.Sprint("goroutines in one use: ", workers))
			c.nontrivial(cat(w.key, []byte{byte(workers)}))
		}})
}

// modest draws files until one is small enough to be worked on many times.
func modest(draw func() ([]byte, string)) (b []byte, kind string) {
	for i := 0; i < 5; i++ {
		if b, kind = draw(); len(b) < 8000 {
			break
		}
	}
	return b, kind
}

// work is a list of uses of the library, to be made at the same time.
type work struct {
	c     *C
	files int
	tasks []task
	key   []byte
}

func (w *work) add(name string, do func() string) { w.tasks = append(w.tasks, task{name, do}) }

func (w *work) file(b []byte, kind string, shared bool) {
	w.c.in(fmt.Sprintf("file %d", w.files), b)
	w.files++
	w.c.class(kind)
	w.key = append(w.key, b...)
	w.add("parse "+kind, func() string { f, err := tachograph.UnmarshalFile(b); return outcome(f, err) })
	uses := func(get func() *tachographv1.File) {
		w.add("encode "+kind, func() string { return bytesOutcome(tachograph.MarshalFile(get())) })
		w.add("json "+kind, func() string {
			j, err := protojson.Marshal(get())
			if err != nil {
				return "error: " + err.Error()
			}
			var back tachographv1.File
			return outcome(&back, protojson.Unmarshal(j, &back))
		})
		w.add("anonymise", func() string {
			return outcome(card.AnonymizeIdentification(get().GetDriverCard().GetTachograph().GetIdentification()), nil) +
				outcome(card.AnonymizeVehiclesUsed(get().GetDriverCard().GetTachograph().GetVehiclesUsed()), nil) +
				outcome(card.AnonymizePlaces(get().GetDriverCard().GetTachograph().GetPlaces()), nil) +
				outcome(card.AnonymizePlacesG2(get().GetDriverCard().GetTachographG2().GetPlaces()), nil)
		})
	}
	if !shared {
		uses(func() *tachographv1.File { f, _ := tachograph.UnmarshalFile(b); return f })
		return
	}
	f, err := tachograph.UnmarshalFile(exact(b))
	if err != nil {
		return
	}
	// The decoded file is shared too: none of these may write to it.
	uses(func() *tachographv1.File { return f })
}

func (w *work) certificates(g *G) {
	ctx := context.Background()
	a, b := g.app1(), g.app2()
	cardBytes := g.certified(a.craw, b.raw)
	w.c.in("certified card", cardBytes)
	w.key = append(w.key, cardBytes...)
	w.c.classIf(a.cardState == "genuine", "genuine first-generation chain")
	src := freshSource{a.rootCertificate, a.araw, b.caCert}
	chain := cert.NewChainResolver(cert.NewClient(&http.Client{Transport: offline{}}), cert.NewEmbeddedResolver(), src)
	// The bundled source knows the European root only; the chains of half the cards begin elsewhere.
	issuers := cert.NewChainResolver(cert.NewClient(&http.Client{Transport: offline{}}), src)
	for _, source := range []cert.Resolver{chain, issuers} {
		w.add("verify", func() string {
			f, err := tachograph.UnmarshalFile(cardBytes)
			if err != nil {
				return "error: " + err.Error()
			}
			verr := tachograph.VerifyOptions{CertificateResolver: source}.VerifyFile(ctx, f)
			return fmt.Sprint(verr) + outcome(f, nil)
		})
	}
	w.add("verify first generation", func() string {
		ca, err := security.UnmarshalRsaCertificate(a.araw)
		if err != nil {
			return "error: " + err.Error()
		}
		own, err := security.UnmarshalRsaCertificate(a.craw)
		if err != nil {
			return "error: " + err.Error()
		}
		rootErr := security.VerifyRsaCertificateWithRoot(ca, a.rootCertificate())
		ownErr := security.VerifyRsaCertificateWithCA(own, ca)
		return fmt.Sprint(rootErr, ownErr) + outcome(ca, nil) + outcome(own, nil)
	})
	w.add("verify second generation", func() string {
		ca, err := security.UnmarshalEccCertificate(b.caCert)
		if err != nil {
			return "error: " + err.Error()
		}
		own, err := security.UnmarshalEccCertificate(b.raw)
		if err != nil {
			return "error: " + err.Error()
		}
		ownErr := security.VerifyEccCertificateWithCA(own, ca)
		return fmt.Sprint(ownErr) + outcome(ca, nil) + outcome(own, nil)
	})
	ix := readIndex(w.c, g.t)
	for i := 0; i < 2; i++ {
		chr := gReference(w.c, g.t, ix)
		w.add("first-generation source", func() string { m, err := chain.GetRsaCertificate(ctx, chr); return outcome(m, err) })
		w.add("second-generation source", func() string { m, err := chain.GetEccCertificate(ctx, chr); return outcome(m, err) })
	}
	for _, gen := range []string{"g1", "g2"} {
		for _, chr := range sortedKeys(bundled(w.c, g.t, gen)) {
			w.add("bundled "+gen, func() string {
				// Each user may write to the certificate it was given: verification does.
				if gen == "g1" {
					m, err := cert.NewEmbeddedResolver().GetRsaCertificate(ctx, chr)
					out := outcome(m, err)
					if err == nil {
						root, rootErr := cert.NewEmbeddedResolver().GetRootCertificate(ctx)
						out += fmt.Sprint(rootErr, security.VerifyRsaCertificateWithRoot(m, root)) + outcome(m, nil)
					}
					return out
				}
				m, err := cert.NewEmbeddedResolver().GetEccCertificate(ctx, chr)
				out := outcome(m, err)
				if err == nil {
					m.SetSignatureValid(true)
				}
				return out
			})
		}
	}
	w.add("root", func() string { m, err := chain.GetRootCertificate(ctx); return outcome(m, err) })
}

// parallel makes every use in every goroutine, in different orders, and then each use alone.
func (w *work) parallel(t *rapid.T, workers int) {
	tasks := w.tasks
	seeds := make([]uint64, workers)
	for i := range seeds {
		seeds[i] = gSeed(t, "order")
	}
	got := make([][]string, workers)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		got[k] = make([]string, len(tasks))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			x := newXS(seeds[k])
			at, stride := x.intn(len(tasks)), 1
			if x.intn(2) == 0 {
				stride = len(tasks) - 1
			}
			for range tasks {
				got[k][at] = tasks[at].run()
				at = (at + stride) % len(tasks)
			}
		}()
	}
	close(start)
	wg.Wait()
	for i, x := range tasks {
		alone := x.run()
		for k := range got {
			if got[k][i] != alone {
				w.c.failf(t, "%s gives another result beside other work: %s", x.name, firstDiff([]byte(got[k][i]), []byte(alone)))
			}
		}
	}
	w.c.classIf(workers > 4, "more than four goroutines")
	w.c.nontrivial(cat(w.key, []byte{byte(workers)}, []byte(fmt.Sprint(seeds))))
}
