package verifpbt

import (
	"archive/zip"
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"html"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

const siteHost = "dtc.jrc.ec.europa.eu"

// answer is what the site gives for one path.
type answer struct {
	status int
	body   []byte
}

// siteServer stands in for the site of the certificate authority: a proxy on the loopback
// interface that answers every request for the site, also over TLS, from a table.
type siteServer struct {
	addr   string // of the proxy, and of the site without TLS
	caFile string
	mu     sync.Mutex
	pages  map[string]answer // by path with its query
	slow   map[string]bool   // paths of certificates: answered after a moment
	now    int               // how many of those are being answered
	most   int               // and how many were at most
}

func (s *siteServer) set(pages map[string]answer, slow map[string]bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.pages, s.slow, s.now, s.most = pages, slow, 0, 0
}

func (s *siteServer) serve(w http.ResponseWriter, r *http.Request) {
	path := r.URL.EscapedPath()
	if r.URL.RawQuery != "" {
		path += "?" + r.URL.RawQuery
	}
	s.mu.Lock()
	a, ok := s.pages[path]
	slow := s.slow[path]
	if slow {
		s.now++
		s.most = max(s.most, s.now)
	}
	s.mu.Unlock()
	if slow {
		// The client cannot turn to the next one before it has this answer.
		time.Sleep(3 * time.Millisecond)
		s.mu.Lock()
		s.now--
		s.mu.Unlock()
	}
	if !ok {
		http.NotFound(w, r)
		return
	}
	w.Header().Set("Content-Length", fmt.Sprint(len(a.body)))
	w.WriteHeader(a.status)
	_, _ = w.Write(a.body)
}

// startSite starts the stand-in; its certificate authority is in a file of the scratch directory.
func startSite(dir string) (*siteServer, error) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		return nil, err
	}
	tmpl := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: siteHost}, DNSNames: []string{siteHost},
		NotBefore: time.Now().AddDate(-1, 0, 0), NotAfter: time.Now().AddDate(1, 0, 0),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
	}
	raw, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	if err != nil {
		return nil, err
	}
	s := &siteServer{caFile: filepath.Join(dir, "site.pem"), pages: map[string]answer{}}
	if err := os.WriteFile(s.caFile, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: raw}), 0o644); err != nil {
		return nil, err
	}
	plain, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	secure, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	s.addr = plain.Addr().String()
	cfg := &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{raw}, PrivateKey: key}}}
	quiet := func(h http.HandlerFunc) *http.Server {
		return &http.Server{Handler: h, ErrorLog: log.New(io.Discard, "", 0)}
	}
	go func() { _ = quiet(s.serve).Serve(tls.NewListener(secure, cfg)) }()
	go func() {
		_ = quiet(func(w http.ResponseWriter, r *http.Request) {
			if r.Method != http.MethodConnect {
				s.serve(w, r)
				return
			}
			if r.Host != siteHost+":443" {
				http.Error(w, "no such host", http.StatusBadGateway)
				return
			}
			up, err := net.Dial("tcp", secure.Addr().String())
			if err != nil {
				http.Error(w, err.Error(), http.StatusBadGateway)
				return
			}
			down, buf, err := w.(http.Hijacker).Hijack()
			if err != nil {
				up.Close()
				return
			}
			_, _ = io.WriteString(down, "HTTP/1.1 200 Connection established\r\n\r\n")
			go func() { _, _ = io.Copy(up, buf); up.Close() }()
			go func() { _, _ = io.Copy(down, up); down.Close() }()
		}).Serve(plain)
	}()
	return s, nil
}

type siteEntry struct {
	CAR            string `json:"car"`
	CHR            string `json:"chr"`
	Country        string `json:"country"`
	URL            string `json:"url"`
	EffectiveDate  string `json:"effectiveDate"`
	ExpirationDate string `json:"expirationDate"`
	Path           string `json:"path"`
}

type siteIndex struct {
	CreateTime time.Time   `json:"createTime"`
	Root       *siteEntry  `json:"root"`
	G1         []siteEntry `json:"g1"`
	G2         []siteEntry `json:"g2"`
}

// listed is one row of a list of certificates on the site.
type listed struct {
	row  string
	path string // what the link leads to
	a    answer
	want *siteEntry // nil: there is no usable certificate behind the link
	data []byte
	kind string
}

var siteCountries = []string{"Andorra", "Austria", "Bosnia and Herzegovina", "Côte d'Ivoire", "España", "Finland", "France", "Österreich", "Sweden", "Türkiye", "United Kingdom", "Åland", "R&D <Lab>", "EUR", "Saint-Pierre-et-Miquelon", "Trinidad/Tobago/Nevis", "certified", "2-1-0"}

func (g *G) pageDate(label string) (text, want string) {
	t := g.t
	d := time.Date(gInt(t, 1, 200, label+".year")+1990, time.Month(gInt(t, 1, 12, label+".month")), gInt(t, 1, 28, label+".day"), 0, 0, 0, 0, time.UTC)
	switch rapid.SampledFrom([]string{"d", "d", "d", "iso", "iso", "bad", "none"}).Draw(t, label) {
	case "d":
		return d.Format("02/01/2006"), d.Format(time.RFC3339)
	case "iso":
		return d.Format("2006-01-02"), d.Format(time.RFC3339)
	case "bad":
		return rapid.SampledFrom([]string{"31/02/2030", "2030-13-01", "00/00/0000", "aa/bb/cccc"}).Draw(t, label+".bad"), ""
	}
	return "", ""
}

func gWhite(t *rapid.T, label string) string {
	return rapid.SampledFrom([]string{"", "", " ", "\n\t ", "  "}).Draw(t, label)
}

// listedCertificate makes row i of the list of generation gen.
func (g *G) listedCertificate(gen, i int, root rsaKey, rootChr uint64, base string) listed {
	t := g.t
	l := listed{a: answer{status: 200}}
	country := siteCountries[position(t, len(siteCountries), "country")]
	date, wantDate := g.pageDate("date")
	// Each certificate has a holder of its own.
	chr := uint64(i)<<32 | uint64(gU32(t, "holder"))
	if i == 0 && gBool(t, "largest holder") {
		chr = ^uint64(0)
	}
	w := &siteEntry{Country: country, ExpirationDate: wantDate}
	kinds := []string{"genuine", "genuine", "genuine", "genuine", "foreign", "angle", "forged", "status", "html", "short", "long"}
	if gen == 2 {
		kinds = []string{"genuine", "genuine", "genuine", "genuine", "status", "html", "short", "long", "cut", "small", "large"}
	}
	l.kind = rapid.SampledFrom(kinds).Draw(t, "kind")
	if gen == 1 {
		car := gCHR(t, "authority")
		v := g.content1(rapid.SampledFrom([]uint64{rootChr, car}).Draw(t, "signed authority"))
		v.chr = chr
		k := root
		if l.kind == "foreign" || l.kind == "angle" {
			keys := rsaKeys()
			for k = keys[position(t, len(keys), "foreign key")]; k.n.Cmp(root.n) == 0; {
				k = keys[(position(t, len(keys), "another key"))]
			}
		}
		var forge func([]byte)
		if l.kind == "forged" {
			forge = func(block []byte) {
				switch rapid.SampledFrom([]string{"head", "zero head", "tail", "hash", "content"}).Draw(t, "forged") {
				case "head":
					block[0] ^= byte(1 << gInt(t, 0, 5, "bit"))
				case "zero head":
					block[0] = 0
				case "tail":
					block[127] ^= byte(1 << gInt(t, 0, 7, "bit"))
				case "hash":
					block[107+position(t, 20, "at")] ^= byte(1 << gInt(t, 0, 7, "bit"))
				case "content":
					block[1+position(t, 106, "at")] ^= byte(1 << gInt(t, 0, 7, "bit"))
				}
			}
		}
		l.data = k.sign(v.bytes(), car, forge)
		if l.kind == "angle" {
			l.data[0] = '<'
		}
		w.CAR = fmt.Sprint(car)
		if l.kind != "foreign" && l.kind != "angle" && l.kind != "forged" {
			w.CHR = fmt.Sprint(chr)
			if v.eov != 0 {
				w.ExpirationDate = time.Unix(int64(v.eov), 0).UTC().Format(time.RFC3339)
			}
		}
	} else {
		var f eccFields
		for {
			f = g.eccFields()
			f.chr = u64(chr)
			// Otherwise well formed, and of a size that no certificate has.
			switch l.kind {
			case "small":
				f.curve, f.x, f.y = 3, f.x[:32], f.y[:32]
				for n := rapid.SampledFrom([]int{203, 203, 202, 190, 160}).Draw(t, "small size"); len(f.bytes()) > n && len(f.s) > 1; {
					f.r, f.s = f.r[:len(f.r)-1], f.s[:len(f.s)-1]
					if len(f.bytes()) < n {
						f.s = append(f.s, 1)
					}
				}
			case "large":
				for n := rapid.SampledFrom([]int{342, 342, 343, 360, 500}).Draw(t, "large size"); len(f.bytes()) < n; {
					f.s = append(f.s, 1)
				}
			}
			if n := len(f.bytes()); l.kind == "small" && n < 204 || l.kind == "large" && n > 341 {
				break
			}
			if n := len(f.bytes()); l.kind != "small" && l.kind != "large" && n >= 204 && n <= 341 {
				break
			}
		}
		l.data = f.bytes()
		w.CAR, w.CHR = fmt.Sprint(be64(f.car)), fmt.Sprint(chr)
	}
	l.a.body = l.data
	switch l.kind {
	case "genuine", "foreign", "angle", "forged":
		l.want = w
	case "status":
		l.a.status = rapid.SampledFrom([]int{201, 403, 404, 500, 503}).Draw(t, "status")
	case "html":
		n := rapid.SampledFrom([]int{40, 194, 204, 300, 341, 2000}).Draw(t, "page size")
		l.a.body = []byte(fmt.Sprintf("%-*s", n, rapid.SampledFrom([]string{"<html><body>no</body></html>", "<!DOCTYPE html><html></html>", "<HTML></HTML>"}).Draw(t, "page")))
	case "short":
		n := min(len(l.data), 194)
		if gen == 2 {
			n = 204
		}
		l.a.body = l.data[:position(t, n, "length")]
	case "long":
		n := 195
		if gen == 2 {
			n = 342
		}
		n += rapid.SampledFrom([]int{0, 0, 1, 1000}).Draw(t, "more")
		l.a.body = cat(l.data, make([]byte, n))[:n]
	case "cut":
		if len(l.data) == 204 {
			l.a.body = nil
		} else {
			l.a.body = l.data[:204+position(t, len(l.data)-204, "length")]
		}
	}
	// The link, and the name a certificate without a known holder is stored under.
	dir := []string{"", "BIN_DT", "BIN_ST"}[gen]
	title := ` title="Download certificate file"`
	name := fmt.Sprintf("C%d%d_%s", gen, i, rapid.SampledFrom([]string{"TCC", "MSCA_Card(1-37)_Cert", "x.y", "É"}).Draw(t, "name"))
	link := ""
	switch rapid.SampledFrom([]string{"dir", "dir", "page", "query", "up", "same"}).Draw(t, "link") {
	case "dir":
		link = dir + "/" + name + ".bin"
		if gBool(t, "without title") {
			title = ""
		}
	case "page":
		link = "downloadpublicCertificate_" + name
	case "query":
		link = "download.php?file=" + rapid.SampledFrom([]string{"iot_doc/", "erca_of_doc/", "", dir + "/"}).Draw(t, "folder") + name
	case "same":
		// One name in several folders of the site.
		link = fmt.Sprintf("download.php?file=doc%d/C%d_same", i, gen)
	case "up":
		link = "download.php?file=" + rapid.SampledFrom([]string{"../", "../../", "/", "a/../../", "./"}).Draw(t, "up") + name
	}
	w.URL = base + "/" + link
	// What a client sends for the link.
	r, err := http.NewRequest(http.MethodGet, w.URL, nil)
	if err != nil {
		panic(err)
	}
	l.path = r.URL.EscapedPath()
	if r.URL.RawQuery != "" {
		l.path += "?" + r.URL.RawQuery
	}
	cell := func(tag, text string) string {
		return "<" + tag + ">" + gWhite(t, "before") + text + gWhite(t, "after") + "</" + tag + ">"
	}
	anchor := fmt.Sprintf(`<a class="x"%s href="%s">Download</a>`, title, html.EscapeString(link))
	if gBool(t, "title last") {
		anchor = fmt.Sprintf(`<a href="%s"%s><b>Download</b></a>`, html.EscapeString(link), title)
	}
	if gBool(t, "wrapped") {
		anchor = "<div><span>" + anchor + "</span></div>"
	}
	td := rapid.SampledFrom([]string{"td", "td", "th"}).Draw(t, "cell")
	cells := []string{cell(td, html.EscapeString(country)), cell("td", "certificate "+fmt.Sprint(i)), cell("td", date), cell("td", anchor)}
	if gBool(t, "another link") {
		cells[1] = cell("td", `<a href="mailto:x@example.com">certificate</a>`)
	}
	// A link to something else, which is no certificate.
	if oneIn(t, 4, "information") {
		info := `<a href="info.html" title="Information">certificate information</a>`
		switch gInt(t, 0, 2, "information at") {
		case 0:
			cells = append(cells, cell("td", info))
		case 1:
			cells[len(cells)-1] = cell("td", anchor+" "+info)
		case 2:
			cells[len(cells)-1] = cell("td", info+" "+anchor)
		}
	}
	if gBool(t, "link before the date") {
		cells[2], cells[3] = cells[3], cells[2]
	}
	if oneIn(t, 3, "a further cell") {
		note := rapid.SampledFrom([]string{"MSCA " + name, "renewed", "RSA", "-", "Norway"}).Draw(t, "further text")
		at := 1 + position(t, len(cells), "further cell")
		cells = append(cells[:at:at], append([]string{cell("td", html.EscapeString(note))}, cells[at:]...)...)
	}
	if oneIn(t, 5, "link first") {
		for i, x := range cells {
			if strings.Contains(x, anchor) && !strings.Contains(x, "information") {
				cells = append([]string{x}, slices.Delete(slices.Clone(cells), i, i+1)...)
				break
			}
		}
	}
	l.row = "<tr>" + strings.Join(cells, gWhite(t, "between")) + "</tr>"
	return l
}

func (g *G) listPage(rows []listed) []byte {
	t := g.t
	var b strings.Builder
	b.WriteString("<!DOCTYPE html><html><head><title>x</title></head><body><table>")
	if gBool(t, "heading") {
		b.WriteString("<thead><tr><th>Country</th><th>Certificate</th><th>Expires</th><th>File</th></tr></thead>")
	}
	for _, l := range rows {
		b.WriteString(l.row)
		if oneIn(t, 6, "other row") {
			b.WriteString(`<tr><td>Atlantis</td><td>` + rapid.SampledFrom([]string{`<a href="about.html">about</a>`, ``, `no file`, `<link href="x/BIN_DT/x.bin">`}).Draw(t, "other cell") + `</td><td>01/01/2030</td></tr>`)
		}
		if oneIn(t, 8, "new table") {
			b.WriteString("</table><p>text</p><table>")
		}
	}
	b.WriteString("</table></body></html>")
	return []byte(b.String())
}

func gZip(t *rapid.T, data []byte, name string) []byte {
	var b bytes.Buffer
	w := zip.NewWriter(&b)
	add := func(n string, v []byte) {
		m := zip.Deflate
		if gBool(t, "stored") {
			m = zip.Store
		}
		f, err := w.CreateHeader(&zip.FileHeader{Name: n, Method: m})
		if err == nil {
			_, err = f.Write(v)
		}
		if err != nil {
			panic(err)
		}
	}
	if gBool(t, "file before") {
		add("README.txt", []byte("read me"))
	}
	add(name, data)
	if gBool(t, "file after") {
		add("EC_PK.bin.sha", []byte("sum"))
	}
	if err := w.Close(); err != nil {
		panic(err)
	}
	return b.Bytes()
}

func TestC31(t *testing.T) {
	program := os.Getenv("VERIF_CLI")
	if program == "" {
		t.Skip("the command is not built")
	}
	site, err := startSite(envDir)
	if err != nil {
		t.Fatal(err)
	}
	run(t, "C31", "a site with at least one usable certificate of each generation",
		sub{"sites", 25, 1000, func(t *rapid.T, c *C) { checkIndex(t, c, program, site) }})
}

func checkIndex(t *rapid.T, c *C, program string, site *siteServer) {
	g := &G{t: t}
	scratch, err := os.MkdirTemp(envDir, "index")
	if err != nil {
		c.failf(t, "no scratch directory: %v", err)
	}
	defer os.RemoveAll(scratch)
	// Names that climb stay in the scratch directory.
	dir := filepath.Join(scratch, "a", "b", rapid.SampledFrom([]string{"certs", "certs", "certs", "c*", "[a-z]erts", "c[", "c?rts", `c\erts`, "c d", "%s", "{certs}"}).Draw(t, "directory"))
	// A directory beside it is not the tool's.
	for _, name := range []string{"certz", "derts", "carts"} {
		p := filepath.Join(scratch, "a", "b", name, "g1")
		if err := errors.Join(os.MkdirAll(p, 0o755), os.WriteFile(filepath.Join(p, "7.bin"), []byte("beside"), 0o644)); err != nil {
			c.failf(t, "scratch file: %v", err)
		}
		defer func() {
			if b, err := os.ReadFile(filepath.Join(p, "7.bin")); err != nil || string(b) != "beside" {
				c.failf(t, "the file %s beside %s was changed: %v", p, dir, err)
			}
		}()
	}
	keys := rsaKeys()
	root := keys[position(t, len(keys), "root key")]
	rootChr := gCHR(t, "root name")
	// The directory may be named from where the tool runs, or not at all.
	named := []string{"-dir", dir}
	work := scratch
	switch rapid.SampledFrom([]string{"absolute", "absolute", "relative", "slash", "default"}).Draw(t, "named") {
	case "relative":
		named[1] = "a/b/" + filepath.Base(dir)
	case "slash":
		named[1] += "/"
	case "default":
		if filepath.Base(dir) == "certs" {
			named, work = nil, filepath.Dir(dir)
			c.class("default directory")
		}
	}
	base, args := "https://"+siteHost, named
	if gBool(t, "another base") {
		base = "http://" + site.addr + "/mirror"
		args = append(args, "-base-url", base)
	}
	most := 10
	if gBool(t, "concurrency") {
		most = rapid.SampledFrom([]int{1, 1, 2, 3, 16}).Draw(t, "downloads at once")
		args = append(args, "-concurrency", fmt.Sprint(most))
	}
	var lists [3][]listed
	pages, slow := map[string]answer{}, map[string]bool{}
	for gen := 1; gen <= 2; gen++ {
		n := gCount(t, 0, 6, 60, "rows")
		for i := 0; i < n; i++ {
			l := g.listedCertificate(gen, i, root, rootChr, base)
			if len(lists[gen]) > 0 && oneIn(t, 10, "listed twice") {
				l = lists[gen][position(t, len(lists[gen]), "which")]
			}
			lists[gen] = append(lists[gen], l)
			pages[l.path] = l.a
			slow[l.path] = true
			c.in(fmt.Sprintf("generation %d row %d", gen, i), fmt.Sprintf("%s %s", l.kind, l.row))
			c.class(fmt.Sprintf("generation %d: %s", gen, l.kind))
		}
	}
	prefix := strings.TrimPrefix(base, "https://"+siteHost)
	if i := strings.Index(prefix, "/mirror"); i >= 0 {
		prefix = prefix[i:]
	}
	rootData := cat(u64(rootChr), root.modulus(), root.exponent())
	rootZip := answer{200, gZip(t, rootData, "EC_PK.bin")}
	list1 := answer{200, g.listPage(lists[1])}
	list2 := answer{200, g.listPage(lists[2])}
	// Without the root or a list there is no index.
	trouble := rapid.SampledFrom([]string{"", "", "", "", "", "", "", "root status", "root damaged", "root name", "root length", "root empty key", "list 1", "list 2"}).Draw(t, "trouble")
	switch trouble {
	case "root status":
		rootZip.status = 404
	case "root damaged":
		rootZip.body = rootZip.body[:position(t, len(rootZip.body), "cut")]
	case "root name":
		rootZip.body = gZip(t, rootData, "EC_PK.txt")
	case "root length":
		n := rapid.SampledFrom([]int{0, 8, 136, 143, 145, 194}).Draw(t, "length")
		rootZip.body = gZip(t, cat(rootData, make([]byte, 60))[:n], "EC_PK.bin")
	case "root empty key":
		rootZip.body = gZip(t, cat(rootData[:8], make([]byte, 136)), "EC_PK.bin")
	case "list 1":
		list1.status = 503
	case "list 2":
		list2.status = 404
	}
	// The site's other pages are no certificates of its lists, whatever they hold.
	if gBool(t, "certificate elsewhere") {
		l := g.listedCertificate(2, 99, root, rootChr, base)
		for _, p := range []string{"/", "/about.html", "/info.html", "/x/BIN_DT/x.bin"} {
			pages[prefix+p] = answer{200, l.data}
		}
	}
	pages["/erca_of_doc/EC_PK.zip"] = rootZip
	pages[prefix+"/dtc_public_key_certificates_dt.php.html"] = list1
	pages[prefix+"/dtc_public_key_certificates_st.php.html"] = list2
	c.in("arguments", strings.Join(args, " "))
	c.in("trouble", trouble)
	// What an earlier run left: its certificates go, everything else stays.
	old := []byte(`{"createTime":"2020-01-01T00:00:00Z"}`)
	if gBool(t, "larger before") {
		old = append(old, bytes.Repeat([]byte(" \n"), 40000)...) // longer than what will stand there
		old = append(old, old...)
	}
	keep := map[string]string{"notes.txt": "mine", filepath.Join("g1", "readme"): "also mine"}
	earlier := gBool(t, "earlier run")
	if earlier {
		for name, v := range map[string]string{"index.json": string(old), "g1/1.bin": "old", "g2/2.bin": "old", "root/EC_PK.bin": "old"} {
			keep[name] = v
		}
		for gen := 1; gen <= 2; gen++ {
			for _, l := range lists[gen] {
				if l.want != nil && l.want.CHR != "" && gBool(t, "stored before") {
					keep[fmt.Sprintf("g%d/%s.bin", gen, l.want.CHR)] = strings.Repeat("old", 400)
				}
			}
		}
		for name, v := range keep {
			p := filepath.Join(dir, name)
			if err := errors.Join(os.MkdirAll(filepath.Dir(p), 0o755), os.WriteFile(p, []byte(v), 0o644)); err != nil {
				c.failf(t, "scratch file: %v", err)
			}
		}
	}
	site.set(pages, slow)
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, program, args...)
	var out bytes.Buffer
	cmd.Dir, cmd.Stdout, cmd.Stderr = work, &out, &out
	cmd.Env = append(os.Environ(), "SSL_CERT_FILE="+site.caFile, "SSL_CERT_DIR=/nonexistent", "GORACE=atexit_sleep_ms=0", "HTTPS_PROXY=http://"+site.addr, "HTTP_PROXY=http://"+site.addr, "NO_PROXY=", "no_proxy=", "https_proxy=", "http_proxy=")
	start := time.Now().Add(-2 * time.Second)
	err = cmd.Run()
	if ctx.Err() != nil {
		c.failf(t, "does not finish: %s", out.String())
	}
	var exit *exec.ExitError
	if err != nil && !errors.As(err, &exit) {
		c.failf(t, "the command does not run: %v", err)
	}
	if strings.Contains(out.String(), "goroutine ") {
		c.failf(t, "the command crashes: %s", out.String())
	}
	raw, readErr := os.ReadFile(filepath.Join(dir, "index.json"))
	if trouble != "" {
		if err == nil {
			c.failf(t, "succeeds without %s: %s", trouble, out.String())
		}
		if earlier && !bytes.Equal(raw, old) || !earlier && readErr == nil {
			c.failf(t, "writes an index without %s: %s", trouble, raw)
		}
		c.class("trouble: " + trouble)
		return
	}
	if err != nil {
		c.failf(t, "fails: %v: %s", err, out.String())
	}
	site.mu.Lock()
	atOnce := site.most
	site.mu.Unlock()
	if atOnce > most {
		c.failf(t, "%d downloads at once, %d allowed", atOnce, most)
	}
	c.classIf(atOnce == most && most > 1, "as many downloads as allowed")
	var ix siteIndex
	dec := json.NewDecoder(bytes.NewReader(raw))
	more := func() error {
		if dec.More() {
			return errors.New("something stands behind it")
		}
		return nil
	}
	if err := errors.Join(readErr, dec.Decode(&ix), more()); err != nil {
		c.failf(t, "the index cannot be read: %v: %s", err, raw)
	}
	if ix.CreateTime.Before(start) || ix.CreateTime.After(time.Now().Add(2*time.Second)) {
		c.failf(t, "the index says it was made at %v", ix.CreateTime)
	}
	stored := map[string][]byte{}
	wantRoot := siteEntry{CAR: fmt.Sprint(rootChr), CHR: fmt.Sprint(rootChr), URL: "https://" + siteHost + "/erca_of_doc/EC_PK.zip", Path: "root/EC_PK.bin"}
	if ix.Root == nil || *ix.Root != wantRoot {
		c.failf(t, "the root in the index is %+v, want %+v", ix.Root, wantRoot)
	}
	stored["root/EC_PK.bin"] = rootData
	for gen, got := range map[int][]siteEntry{1: ix.G1, 2: ix.G2} {
		var want []siteEntry
		data := map[string][]byte{}
		for _, l := range lists[gen] {
			if l.want != nil {
				e := *l.want
				if e.CHR != "" {
					e.Path = fmt.Sprintf("g%d/%s.bin", gen, e.CHR)
				}
				want = append(want, e)
				data[e.URL] = l.data
			}
		}
		for i := range got {
			e := got[i]
			file, err := os.ReadFile(filepath.Join(dir, filepath.FromSlash(e.Path)))
			if err != nil {
				c.failf(t, "generation %d: %s names a file that is not there: %v", gen, e.URL, err)
			}
			if !bytes.Equal(file, data[e.URL]) {
				c.failf(t, "generation %d: the file of %s is not what was downloaded: %x", gen, e.URL, file)
			}
			if d := filepath.Dir(e.Path); d != fmt.Sprintf("g%d", gen) || !strings.HasSuffix(e.Path, ".bin") {
				c.failf(t, "generation %d: %s is stored as %s", gen, e.URL, e.Path)
			}
			stored[e.Path] = file
			if i > 0 && !inOrder(got[i-1], e) {
				c.failf(t, "generation %d: %s (%s) stands after %s (%s)", gen, e.Country, e.ExpirationDate, got[i-1].Country, got[i-1].ExpirationDate)
			}
		}
		text := func(es []siteEntry) string {
			var out []string
			for _, e := range es {
				if e.CHR == "" {
					e.Path = "" // any name will do
				}
				out = append(out, fmt.Sprintf("%+v", e))
			}
			sort.Strings(out)
			return strings.Join(out, "\n")
		}
		if g, w := text(got), text(want); g != w {
			c.failf(t, "generation %d: the index lists\n%s\nwant\n%s\n%s", gen, g, w, out.String())
		}
	}
	// Nothing else is stored, and nothing of the user's is lost.
	if !earlier {
		keep = nil
	}
	err = filepath.Walk(scratch, func(p string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() {
			return err
		}
		name, err := filepath.Rel(dir, p)
		if err != nil {
			return err
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		name = filepath.ToSlash(name)
		if strings.HasPrefix(name, "../") && strings.HasSuffix(name, "erts/g1/7.bin") || strings.HasSuffix(name, "certz/g1/7.bin") || strings.HasSuffix(name, "carts/g1/7.bin") {
			return nil // beside it
		}
		switch v, mine := keep[name]; {
		case name == "index.json":
		case stored[name] != nil:
			if !bytes.Equal(b, stored[name]) {
				c.failf(t, "%s holds %x", name, b)
			}
		case mine && !strings.HasSuffix(name, ".bin"):
			if string(b) != v {
				c.failf(t, "%s was changed", name)
			}
			delete(keep, name)
		default:
			c.failf(t, "%s is there, and the index does not list it", name)
		}
		return nil
	})
	if err != nil {
		c.failf(t, "scratch directory: %v", err)
	}
	for name := range keep {
		if name != "index.json" && !strings.HasSuffix(name, ".bin") {
			c.failf(t, "%s was removed", name)
		}
	}
	c.classIf(earlier, "over an earlier run")
	c.classIf(len(ix.G1)+len(ix.G2) > 6, "more than six certificates")
	if len(ix.G1) > 0 && len(ix.G2) > 0 {
		c.nontrivial(raw)
	}
}

// inOrder reports whether b may follow a: by country, the later expiry first, without one last.
func inOrder(a, b siteEntry) bool {
	if a.Country != b.Country {
		return a.Country < b.Country
	}
	x, errX := time.Parse(time.RFC3339, a.ExpirationDate)
	y, errY := time.Parse(time.RFC3339, b.ExpirationDate)
	if errX != nil || errY != nil {
		return errY != nil
	}
	return !x.Before(y)
}
