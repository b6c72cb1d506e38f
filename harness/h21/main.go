//go:build go1.22

// h21: directory listings through the real drivers against a stand-in object
// store, for every bucket content, page size, marker convention and fault.
package main

import (
	"bytes"
	"context"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/prometheus/client_golang/prometheus"

	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	"github.com/NVIDIA/vdisc/pkg/storage/s3"
	"github.com/NVIDIA/vdisc/pkg/storage/swift"
	"github.com/NVIDIA/vdisc/zzverif/mc"
	"github.com/NVIDIA/vdisc/zzverif/vs"
	xhttp "github.com/NVIDIA/vdisc/zzverif/xhttp"
	xnet "github.com/NVIDIA/vdisc/zzverif/xnet"
)

const region = "us-west-2"

var errBroken = errors.New("injected")

// version is one version of a key; versions of a key are newest first.
type version struct {
	key, id string
	latest  bool
	deleted bool // a delete marker
	size    int64
}

func (v version) modified() time.Time {
	return time.Date(2020, 1, 2, 3, 4, 5, int(v.size)*1000000, time.UTC)
}

// item is what a page consists of.
type item struct {
	prefix string // a rolled up prefix, or
	v      version
}

const (
	okFault     = iota
	broken      // the body breaks off with an error
	cut         // the body breaks off without an error
	denied      // 403
	gone        // 404
	down        // 503, always
	hiccup      // 503, once
	garbage     // not XML
	other       // an error document with status 200
	noMarker    // truncated without a marker
	sameMarker  // truncated, with the marker of the page before
	emptyPrefix // a common prefix without a name
	badDate     // an entry with a date that is none
	nFaults
)

type store struct {
	c         *mc.Ctx
	versions  []version
	limit     int
	inclusive bool // markers name the first entry of the next page
	swift     bool

	pages    int
	requests int
	fault    int
	at       int // page the fault applies to
	hit      bool
	seen     map[string]int // page of a marker
}

func esc(s string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

// items lists everything a request without a limit would.
func (s *store) items(prefix, delimiter string) []item {
	var out []item
	for _, v := range s.versions {
		if !strings.HasPrefix(v.key, prefix) {
			continue
		}
		if delimiter != "" {
			if i := strings.Index(v.key[len(prefix):], delimiter); i >= 0 {
				p := v.key[:len(prefix)+i+len(delimiter)]
				if len(out) == 0 || out[len(out)-1].prefix != p {
					out = append(out, item{prefix: p})
				}
				continue
			}
		}
		out = append(out, item{v: v})
	}
	return out
}

func (it item) marker() (string, string) {
	if it.prefix != "" {
		return it.prefix, ""
	}
	return it.v.key, it.v.id
}

func reply(req *http.Request, status int, body io.Reader) *http.Response {
	return &http.Response{StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(body), ContentLength: -1, Request: req}
}

type breaking struct{ io.Reader }

func (b breaking) Read(p []byte) (int, error) {
	n, err := b.Reader.Read(p)
	if err == io.EOF {
		err = errBroken
	}
	return n, err
}

func (s *store) serve(req *http.Request) (*http.Response, error) {
	q := req.URL.Query()
	text := func(status int, b string) (*http.Response, error) {
		return reply(req, status, strings.NewReader(b)), nil
	}
	if _, ok := q["location"]; ok {
		return text(200, `<LocationConstraint xmlns="http://s3.amazonaws.com/doc/2006-03-01/">`+region+`</LocationConstraint>`)
	}
	if req.Method != "GET" {
		vs.Fail("wrong request", "%s %s", req.Method, req.URL)
		return text(405, "")
	}
	ok := false
	if s.swift {
		ok = req.URL.Host == "host" && (req.URL.Path == "/b" || req.URL.Path == "/b/")
	} else {
		ok = strings.HasPrefix(req.URL.Host, "b.s3") && (req.URL.Path == "/" || req.URL.Path == "")
	}
	if _, v := q["versions"]; !v || !ok {
		// Another listing than that of the versions in the bucket.
		vs.Fail("wrong request", "%s %s", req.Method, req.URL)
		return text(400, "<Error><Code>InvalidRequest</Code></Error>")
	}
	if s.requests++; s.requests > 200 {
		vs.Fail("listing does not end", "%d requests", s.requests)
		return nil, errBroken
	}
	vs.Do("request", func() { s.c.Step() })
	vs.Logf("%s", req.URL)
	for k := range q {
		switch k {
		case "versions", "delimiter", "prefix", "key-marker", "version-id-marker", "max-keys":
		default:
			vs.Logf("unknown parameter %q", k)
		}
	}
	items := s.items(q.Get("prefix"), q.Get("delimiter"))
	start := 0
	km, vm := q.Get("key-marker"), q.Get("version-id-marker")
	if km == "" && vm != "" {
		return text(400, "<Error><Code>InvalidArgument</Code></Error>")
	}
	page := 0
	if km != "" {
		if p, known := s.seen[km+"\x00"+vm]; known {
			page = p
		}
		start = len(items)
		for i, it := range items {
			k, v := it.marker()
			if s.inclusive {
				if k > km || k == km && (vm == "" || vm == v) {
					start = i
					break
				}
				continue
			}
			if k > km {
				start = i
				break
			}
			if k == km && vm != "" && vm == v {
				start = i + 1
				break
			}
		}
	}
	end := start + s.limit
	truncated := end < len(items)
	if !truncated {
		end = len(items)
	}
	nk, nv := "", ""
	if truncated {
		if s.inclusive {
			nk, nv = items[end].marker()
		} else {
			nk, nv = items[end-1].marker()
		}
		if _, known := s.seen[nk+"\x00"+nv]; !known {
			s.seen[nk+"\x00"+nv] = page + 1
		}
	}
	if page+1 > s.pages {
		// A page not asked for before.
		s.pages = page + 1
		if s.fault == okFault {
			if s.fault = vs.Fault(nFaults-1, "fault"); s.fault != okFault {
				s.at, s.hit = page, true
			}
		}
	}
	fault := okFault
	if s.hit && s.at == page {
		fault = s.fault
	}
	var b strings.Builder
	fmt.Fprintf(&b, `<?xml version="1.0" encoding="UTF-8"?><ListVersionsResult xmlns="http://s3.amazonaws.com/doc/2006-03-01/"><Name>b</Name><Prefix>%s</Prefix><KeyMarker>%s</KeyMarker><VersionIdMarker>%s</VersionIdMarker><MaxKeys>%d</MaxKeys><Delimiter>/</Delimiter>`, esc(q.Get("prefix")), esc(km), esc(vm), s.limit)
	switch {
	case fault == noMarker:
		truncated = true
	case fault == sameMarker:
		truncated, nk, nv = true, km, vm
		if nk == "" {
			// The first page has no marker: name one before everything.
			nk = "\x01"
			s.seen[nk+"\x00"] = page
		}
	}
	fmt.Fprintf(&b, `<IsTruncated>%v</IsTruncated>`, truncated)
	if truncated && fault != noMarker {
		fmt.Fprintf(&b, `<NextKeyMarker>%s</NextKeyMarker>`, esc(nk))
		if nv != "" {
			fmt.Fprintf(&b, `<NextVersionIdMarker>%s</NextVersionIdMarker>`, esc(nv))
		}
	}
	for _, it := range items[start:end] {
		v := it.v
		date := v.modified().Format("2006-01-02T15:04:05.000Z")
		switch {
		case it.prefix != "":
		case v.deleted:
			fmt.Fprintf(&b, `<DeleteMarker><Key>%s</Key><VersionId>%s</VersionId><IsLatest>%v</IsLatest><LastModified>%s</LastModified></DeleteMarker>`, esc(v.key), v.id, v.latest, date)
		default:
			fmt.Fprintf(&b, `<Version><Key>%s</Key><VersionId>%s</VersionId><IsLatest>%v</IsLatest><LastModified>%s</LastModified><ETag>&quot;e%d&quot;</ETag><Size>%d</Size><StorageClass>STANDARD</StorageClass></Version>`, esc(v.key), v.id, v.latest, date, v.size, v.size)
		}
	}
	if fault == badDate {
		fmt.Fprintf(&b, `<Version><Key>%sq</Key><VersionId>q1</VersionId><IsLatest>true</IsLatest><LastModified>yesterday</LastModified><Size>1</Size></Version>`, esc(q.Get("prefix")))
	}
	for _, it := range items[start:end] {
		if it.prefix != "" {
			fmt.Fprintf(&b, `<CommonPrefixes><Prefix>%s</Prefix></CommonPrefixes>`, esc(it.prefix))
		}
	}
	if fault == emptyPrefix {
		fmt.Fprintf(&b, `<CommonPrefixes><Prefix></Prefix></CommonPrefixes>`)
	}
	b.WriteString(`</ListVersionsResult>`)
	body := b.String()
	switch fault {
	case broken:
		return reply(req, 200, breaking{strings.NewReader(body)}), nil
	case cut:
		return text(200, body[:len(body)*2/3])
	case denied:
		return text(403, "<Error><Code>AccessDenied</Code></Error>")
	case gone:
		return text(404, "<Error><Code>NoSuchBucket</Code></Error>")
	case down:
		return text(503, "<Error><Code>ServiceUnavailable</Code></Error>")
	case hiccup:
		s.hit = false
		return text(503, "<Error><Code>ServiceUnavailable</Code></Error>")
	case garbage:
		return text(200, "nonsense")
	case other:
		return text(200, `<Error><Code>InternalError</Code></Error>`)
	}
	return text(200, body)
}

type cfg struct {
	keys   int // index of the key alphabet
	faults int
	limits []int
}

// Key alphabets; every key is absent, there, there with an older version, or
// deleted with an older version left.
var alphabets = [][]string{
	{"d", "d/", "d/a", "d/a/x", "d/b", "dd/q"},
	{"d/a b+&", "d/a/x", "d/a/y/z", "d/é<", "d/s/z", "e"},
	{"d/a", "d/b", "d/s/z"},
}

var dirs = []string{"", "/", "/d", "/d/", "/d/a", "/d/missing/"}

func entry(name string, dir bool, size int64, t time.Time) string {
	if dir {
		return fmt.Sprintf("%q/", name)
	}
	return fmt.Sprintf("%q %d %d", name, size, t.UnixNano()/1000000)
}

func run(k cfg) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		s := &store{c: c, seen: map[string]int{}}
		var desc strings.Builder
		for i, key := range alphabets[k.keys] {
			st := c.Choose(4, "key")
			if k.faults > 0 && st == 3 {
				return
			}
			fmt.Fprint(&desc, st)
			n := int64(i * 10)
			switch st {
			case 1:
				s.versions = append(s.versions, version{key, "null", true, false, n})
			case 2:
				s.versions = append(s.versions, version{key, "v2", true, false, n + 2}, version{key, "v1", false, false, n + 1})
			case 3:
				s.versions = append(s.versions, version{key, "v2", true, true, n + 2}, version{key, "v1", false, false, n + 1})
			}
		}
		sort.SliceStable(s.versions, func(i, j int) bool { return s.versions[i].key < s.versions[j].key })
		dir := dirs[c.Choose(len(dirs), "directory")]
		s.limit = k.limits[c.Choose(len(k.limits), "limit")]
		s.inclusive = c.Bool("convention")
		s.swift = c.Bool("store")
		url := "s3://b" + dir
		if s.swift {
			if dir == "" {
				return // not a URL of that store
			}
			url = "swift://host/acct/b" + dir
		}

		prometheus.DefaultRegisterer = prometheus.NewRegistry()
		defer driver.ClearRegistry()()
		if s.swift {
			swiftdriver.RegisterDefaultDriver()
		} else {
			s3driver.RegisterDefaultDriver()
		}
		xhttp.Answer = s.serve
		xnet.Resolve = func(string) ([]string, error) { return []string{"10.0.0.1"}, nil }
		d, err := driver.Find(url)
		c.Assert(err == nil, "no driver", "%v", err)
		var fis []os.FileInfo
		vs.Run(c, vs.Options{Delays: true, NoStates: true}, func() {
			fis, err = d.(driver.Readdirer).Readdir(context.Background(), url)
		})

		prefix := strings.TrimPrefix(dir, "/")
		if prefix != "" && !strings.HasSuffix(prefix, "/") {
			prefix += "/"
		}
		want := map[string]bool{}
		any := prefix == ""
		for _, it := range s.items(prefix, "/") {
			any = true
			if it.prefix != "" {
				want[entry(strings.TrimSuffix(it.prefix[len(prefix):], "/"), true, 0, time.Time{})] = true
			} else if it.v.latest && !it.v.deleted && it.v.key != prefix {
				want[entry(it.v.key[len(prefix):], false, it.v.size, it.v.modified())] = true
			}
		}
		fault := okFault
		if s.hit {
			fault = s.fault
		}
		switch {
		case fault == gone && s.at == 0:
			c.Assert(os.IsNotExist(err), "missing bucket", "%s: %v", url, err)
		case fault != okFault:
			c.Assert(err != nil, "failure ignored", "%s: fault %d on page %d, %d entries", url, fault, s.at, len(fis))
		case err != nil && !any && os.IsNotExist(err):
			// No key under it: there is no such directory.
		default:
			c.Assert(err == nil, "listing fails", "%s: %v", url, err)
			for _, fi := range fis {
				e := entry(fi.Name(), fi.IsDir(), fi.Size(), fi.ModTime())
				ok, known := want[e]
				c.Assert(known, "entry that is not there", "%s: %s", url, e)
				c.Assert(ok, "entry listed twice", "%s: %s", url, e)
				want[e] = false
			}
			for e, missing := range want {
				c.Assert(!missing, "entry missing", "%s: %s", url, e)
			}
		}
		c.State(k.keys, desc.String(), dir, s.limit, s.inclusive, s.swift, s.fault, s.at)
		c.Outcome(fmt.Sprintf("fault=%d pages=%d entries=%d err=%v", s.fault, s.pages, len(fis), err != nil))
	}
}

func main() {
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "AWS_") {
			os.Unsetenv(strings.SplitN(e, "=", 2)[0])
		}
	}
	os.Setenv("AWS_REGION", region)
	os.Setenv("AWS_ACCESS_KEY_ID", "id")
	os.Setenv("AWS_SECRET_ACCESS_KEY", "key")
	os.Setenv("SWIFT_ACCESS_KEY_ID", "id")
	os.Setenv("SWIFT_SECRET_ACCESS_KEY", "key")
	os.Setenv("HOME", "/nonexistent")
	mc.Main(mc.Def{
		Scenarios: func(tier string) []mc.Scenario {
			var out []mc.Scenario
			add := func(name string, k cfg) {
				out = append(out, mc.Scenario{Name: name, Budget: [3]int{0, k.faults, 0}, Run: run(k), NoPrune: true})
			}
			limits := []int{1, 2, 3, 1000}
			if tier == "thorough" {
				limits = []int{1, 2, 3, 4, 5, 1000}
			}
			add("nested", cfg{0, 0, limits})
			add("odd names", cfg{1, 0, limits})
			add("faults", cfg{2, 1, limits[:3]})
			return out
		}})
}
