//go:build go1.22

// h13b: uploads through the real SDK client to a stand-in HTTP server, with
// the real part size, bodies around its multiples and every request failing.
package main

import (
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"strings"
	"sync"

	"github.com/aws/aws-sdk-go/aws"
	"github.com/aws/aws-sdk-go/aws/credentials"
	"github.com/aws/aws-sdk-go/aws/session"
	"github.com/aws/aws-sdk-go/service/s3"
	"github.com/aws/aws-sdk-go/service/s3/s3manager"

	"github.com/NVIDIA/vdisc/pkg/storage/s3"
	"github.com/NVIDIA/vdisc/zzverif/mc"
)

// store is one object behind HTTP.
type store struct {
	mu       sync.Mutex
	objects  [][]byte
	parts    map[string][]byte
	open     bool
	requests []string
	fail     string // request that fails
	hit      bool
	bad      string
}

func answer(req *http.Request, status int, body string) *http.Response {
	return &http.Response{StatusCode: status, Status: http.StatusText(status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: io.NopCloser(strings.NewReader(body)), ContentLength: int64(len(body)), Request: req}
}

func (s *store) RoundTrip(req *http.Request) (*http.Response, error) {
	var data []byte
	if req.Body != nil {
		var err error
		if data, err = io.ReadAll(req.Body); err != nil {
			return nil, err
		}
		req.Body.Close()
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	q := req.URL.Query()
	_, create := q["uploads"]
	name := ""
	switch {
	case req.Method == "POST" && create:
		name = "create"
	case req.Method == "PUT" && q.Get("partNumber") != "":
		name = "part " + q.Get("partNumber")
	case req.Method == "POST":
		name = "complete"
	case req.Method == "DELETE":
		name = "abort"
	case req.Method == "PUT":
		name = "put"
	}
	s.requests = append(s.requests, name)
	if req.URL.Path != "/b/k" {
		s.bad = "request for " + req.URL.Path
	}
	if int64(len(data)) != req.ContentLength && req.ContentLength > 0 {
		s.bad = "length of the request"
	}
	if name == s.fail {
		s.hit = true
		return answer(req, 400, "<Error><Code>InvalidRequest</Code></Error>"), nil
	}
	r := answer(req, 200, "")
	switch {
	case name == "put":
		s.objects = append(s.objects, data)
		r.Header.Set("x-amz-version-id", "v1")
	case name == "create":
		s.open, s.parts = true, map[string][]byte{}
		r = answer(req, 200, "<InitiateMultipartUploadResult><UploadId>u</UploadId></InitiateMultipartUploadResult>")
	case !s.open || q.Get("uploadId") != "u":
		r = answer(req, 404, "<Error><Code>NoSuchUpload</Code></Error>")
	case name == "complete":
		var in struct {
			Part []struct {
				PartNumber int
				ETag       string
			}
		}
		if err := xml.Unmarshal(data, &in); err != nil {
			s.bad = "parts: " + err.Error()
		}
		var all []byte
		for i, p := range in.Part {
			d, ok := s.parts[fmt.Sprint(p.PartNumber)]
			if !ok || p.PartNumber != i+1 || p.ETag != fmt.Sprintf("\"e%d\"", p.PartNumber) || i+1 < len(in.Part) && len(d) < 5<<20 {
				s.bad = fmt.Sprint("parts ", in.Part)
			}
			all = append(all, d...)
		}
		s.open = false
		s.objects = append(s.objects, all)
		r = answer(req, 200, "<CompleteMultipartUploadResult><Location>x</Location></CompleteMultipartUploadResult>")
		r.Header.Set("x-amz-version-id", "v1")
	case name == "abort":
		s.open = false
		r.StatusCode = 204
	default:
		s.parts[q.Get("partNumber")] = data
		r.Header.Set("ETag", "\"e"+q.Get("partNumber")+"\"")
	}
	return r, nil
}

type failing struct {
	io.Reader
	n int
}

var errBody = errors.New("injected")

func (f *failing) Read(p []byte) (int, error) {
	if f.n == 0 {
		return 0, errBody
	}
	n, err := f.Reader.Read(p[:min(len(p), f.n)])
	f.n -= n
	return n, err
}

const part = int(s3manager.DefaultUploadPartSize)

var sizes = []int{0, 1, part - 1, part, part + 1, 2 * part, 2*part + 1}

var ways = []string{"write", "stream", "stream seekable", "abort", "failing body"}

var source []byte

func run(c *mc.Ctx) {
	way := ways[c.Choose(len(ways), "way")]
	size := sizes[c.Choose(len(sizes), "size")]
	s := &store{fail: []string{"", "put", "create", "part 1", "part 2", "part 3", "complete"}[c.Choose(7, "failing request")]}
	svc := s3.New(session.Must(session.NewSession(aws.NewConfig().WithRegion("us-west-2").WithEndpoint("http://store").WithS3ForcePathStyle(true).
		WithMaxRetries(0).WithS3DisableContentMD5Validation(true).WithHTTPClient(&http.Client{Transport: s}).
		WithCredentials(credentials.NewStaticCredentials("a", "b", "")))))
	ow := s3driver.NewObjectWriter(svc, "b", "k", "s3://b/k")
	data := source[:size]
	var err error
	n := int64(size)
	switch way {
	case "write", "abort":
		for i := 0; i < size && err == nil; i += 3 << 20 {
			_, err = ow.Write(data[i:min(size, i+3<<20)])
		}
	case "stream":
		n, err = ow.(io.ReaderFrom).ReadFrom(struct{ io.Reader }{bytes.NewReader(data)})
	case "stream seekable":
		n, err = ow.(io.ReaderFrom).ReadFrom(bytes.NewReader(data))
	case "failing body":
		_, err = ow.(io.ReaderFrom).ReadFrom(&failing{bytes.NewReader(data), size})
		c.Assert(err != nil, "failing body streamed", "%d bytes", size)
	}
	url := ""
	if way != "abort" {
		info, cerr := ow.Commit()
		c.Assert(err == nil || cerr != nil, "failed upload committed", "%v", err)
		if err = cerr; err == nil {
			url = info.ObjectURL()
		}
	}
	ow.Abort()
	s.mu.Lock()
	defer s.mu.Unlock()
	what := fmt.Sprintf("%s of %d bytes with %q failing: %q, error %v", way, size, s.fail, s.requests, err)
	c.Logf("%s", what)
	c.Assert(s.bad == "", "bad request", "%s: %s", s.bad, what)
	c.Assert(!s.open, "upload left open", "%s", what)
	if way == "abort" || way == "failing body" {
		c.Assert(len(s.objects) == 0, "aborted object stored", "%s", what)
	} else if s.hit {
		c.Assert(err != nil, "failed request ignored", "%s", what)
	} else {
		c.Assert(err == nil, "upload fails", "%s", what)
		c.Assert(n == int64(size), "wrong count", "%d: %s", n, what)
		c.Assert(len(s.objects) == 1 && bytes.Equal(s.objects[0], data), "wrong object stored", "%s", what)
		c.Assert(url == "s3://b/k?versionId=v1", "URL of another object", "%s: %s", url, what)
	}
	c.Steps(len(s.requests))
	c.State(fmt.Sprint(way, size, s.fail))
	c.Outcome(fmt.Sprint("sdk ", len(s.requests), " requests, ", err == nil))
}

func main() {
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "AWS_") {
			os.Unsetenv(strings.SplitN(e, "=", 2)[0])
		}
	}
	source = make([]byte, 2*part+1)
	x := uint32(1)
	for i := range source {
		x = x*1664525 + 1013904223
		source[i] = byte(x >> 24)
	}
	mc.Main(mc.Def{Scenarios: func(string) []mc.Scenario {
		return []mc.Scenario{{Name: "sdk", Run: run}}
	}})
}
