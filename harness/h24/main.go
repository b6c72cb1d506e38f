//go:build go1.22

// h24: every sequence of option settings on a context, then every getter and
// every kind of request of every driver made with it.
package main

import (
	"context"
	"encoding/xml"
	"fmt"
	"io"
	"net/http"
	"os"
	"strings"
	"time"

	"github.com/aws/aws-sdk-go/aws/credentials"
	"github.com/prometheus/client_golang/prometheus"

	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	httpdriver "github.com/NVIDIA/vdisc/pkg/storage/http"
	"github.com/NVIDIA/vdisc/pkg/storage/s3"
	"github.com/NVIDIA/vdisc/pkg/storage/swift"
	"github.com/NVIDIA/vdisc/zzverif/mc"
	"github.com/NVIDIA/vdisc/zzverif/vs"
	xhttp "github.com/NVIDIA/vdisc/zzverif/xhttp"
	xnet "github.com/NVIDIA/vdisc/zzverif/xnet"
)

// options holds what was set last; empty means never.
type options struct {
	httpAuthz, s3Creds, swiftCreds, swiftRegion string
	httpTimeout, s3Timeout, swiftTimeout        time.Duration
}

var (
	s3Creds    = map[string]*credentials.Credentials{}
	swiftCreds = map[string]*swiftdriver.SwiftCreds{}
)

const envRegion, envSwiftRegion = "us-west-2", "eu-north-1"

type setting struct {
	name string
	set  func(context.Context, *options) context.Context
}

var settings []setting

func init() {
	for i := 1; i <= 2; i++ {
		v := fmt.Sprintf("value%d", i)
		// Distinct for each driver, far from each other and from defaults.
		t := time.Duration(i) * 1000 * time.Hour
		s3Creds[v] = credentials.NewStaticCredentials("s3"+v, "secret", "")
		swiftCreds[v] = &swiftdriver.SwiftCreds{AccessKeyId: "swift" + v, SecretAccessKey: "secret"}
		add := func(name string, set func(context.Context, *options) context.Context) {
			settings = append(settings, setting{name + " " + v, set})
		}
		add("http authz", func(c context.Context, o *options) context.Context {
			o.httpAuthz = v
			return httpdriver.CtxWithAuthz(c, v)
		})
		add("http timeout", func(c context.Context, o *options) context.Context {
			o.httpTimeout = t
			return httpdriver.CtxWithTimeout(c, o.httpTimeout)
		})
		add("s3 creds", func(c context.Context, o *options) context.Context {
			o.s3Creds = v
			return s3driver.CtxWithCredentials(c, s3Creds[v])
		})
		add("s3 timeout", func(c context.Context, o *options) context.Context {
			o.s3Timeout = t + 100*time.Hour
			return s3driver.CtxWithTimeout(c, o.s3Timeout)
		})
		add("swift creds", func(c context.Context, o *options) context.Context {
			o.swiftCreds = v
			return swiftdriver.CtxWithCredentials(c, swiftCreds[v])
		})
		add("swift region", func(c context.Context, o *options) context.Context {
			o.swiftRegion = v
			return swiftdriver.CtxWithRegion(c, v)
		})
		add("swift timeout", func(c context.Context, o *options) context.Context {
			o.swiftTimeout = t + 200*time.Hour
			return swiftdriver.CtxWithTimeout(c, o.swiftTimeout)
		})
	}
}

// check compares every getter with what was set.
func check(c *mc.Ctx, ctx context.Context, o options) {
	c.Step()
	str := func(name, want string, got *string, ok bool) {
		if want == "" {
			c.Assert(!ok, "option that was not set", "%s: %v", name, got)
			return
		}
		c.Assert(ok && got != nil && *got == want, "option", "%s is not %q: %v", name, want, got)
	}
	dur := func(name string, want time.Duration, got *time.Duration, ok bool) {
		if want == 0 {
			c.Assert(!ok, "option that was not set", "%s: %v", name, got)
			return
		}
		c.Assert(ok && got != nil && *got == want, "option", "%s is not %v: %v", name, want, got)
	}
	s, ok := httpdriver.AuthzFromCtx(ctx)
	str("http authz", o.httpAuthz, s, ok)
	r, ok := swiftdriver.RegionFromCtx(ctx)
	str("swift region", o.swiftRegion, &r, ok)
	d, ok := httpdriver.TimeoutFromCtx(ctx)
	dur("http timeout", o.httpTimeout, d, ok)
	d, ok = s3driver.TimeoutFromCtx(ctx)
	dur("s3 timeout", o.s3Timeout, d, ok)
	d, ok = swiftdriver.TimeoutFromCtx(ctx)
	dur("swift timeout", o.swiftTimeout, d, ok)
	sc, ok := s3driver.CredentialsFromCtx(ctx)
	c.Assert(ok == (o.s3Creds != "") && (!ok || sc == s3Creds[o.s3Creds]), "option", "s3 credentials are not %q", o.s3Creds)
	wc, ok := swiftdriver.CredentialsFromCtx(ctx)
	c.Assert(ok == (o.swiftCreds != "") && (!ok || wc == swiftCreds[o.swiftCreds]), "option", "swift credentials are not %q", o.swiftCreds)
}

type server struct {
	kind     string // the driver
	upload   bool
	o        options
	requests int
}

func reply(req *http.Request, status int, body string) *http.Response {
	return &http.Response{StatusCode: status, Status: http.StatusText(status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(body)), ContentLength: int64(len(body)), Request: req}
}

func (s *server) RoundTrip(req *http.Request) (*http.Response, error) { return s.serve(req) }

func (s *server) serve(req *http.Request) (*http.Response, error) {
	if req.Body != nil {
		io.Copy(io.Discard, req.Body)
		req.Body.Close()
	}
	q := req.URL.Query()
	if _, ok := q["location"]; ok {
		return reply(req, 200, `<LocationConstraint xmlns="http://s3.amazonaws.com/doc/2006-03-01/">eu-west-3</LocationConstraint>`), nil
	}
	s.requests++
	authz := req.Header.Get("Authorization")
	var id, region string
	var timeout time.Duration
	switch s.kind {
	case "http":
		if authz != s.o.httpAuthz {
			vs.Fail("authorization", "%s %s: %q instead of %q", req.Method, req.URL, authz, s.o.httpAuthz)
		}
		timeout = s.o.httpTimeout
	case "s3":
		id, region = "envid", "eu-west-3"
		if s.o.s3Creds != "" {
			id = "s3" + s.o.s3Creds
		}
		timeout = s.o.s3Timeout
	case "swift":
		id, region = "swiftenvid", envSwiftRegion
		if s.o.swiftCreds != "" {
			id = "swift" + s.o.swiftCreds
		}
		id += ":AUTH_acct"
		if s.o.swiftRegion != "" {
			region = s.o.swiftRegion
		}
		timeout = s.o.swiftTimeout
	}
	if s.kind != "http" {
		f := strings.SplitN(authz, "Credential=", 2)
		ok := len(f) == 2
		if ok {
			p := strings.Split(strings.SplitN(f[1], ",", 2)[0], "/")
			ok = len(p) == 5 && p[0] == id && p[2] == region && p[3] == "s3"
		}
		if !ok {
			vs.Fail("signature", "%s %s is not signed by %s for %s: %q", req.Method, req.URL, id, region, authz)
		}
	}
	if !s.upload {
		dl, ok := req.Context().Deadline()
		left := time.Until(dl)
		if timeout != 0 && (!ok || left > timeout || left < timeout-time.Hour) {
			vs.Fail("timeout", "%s %s: %v instead of %v", req.Method, req.URL, left, timeout)
		}
		if timeout == 0 && ok && left > 10*time.Hour {
			vs.Fail("timeout", "%s %s: %v although none was set", req.Method, req.URL, left)
		}
	}
	_, versions := q["versions"]
	_, uploads := q["uploads"]
	switch {
	case versions:
		return reply(req, 200, `<ListVersionsResult><IsTruncated>false</IsTruncated></ListVersionsResult>`), nil
	case req.Method == "DELETE":
		return reply(req, 204, ""), nil
	case req.Method == "HEAD":
		r := reply(req, 200, "")
		r.ContentLength = 3
		return r, nil
	case req.Method == "POST" && uploads:
		return reply(req, 200, `<InitiateMultipartUploadResult><Bucket>b</Bucket><Key>k</Key><UploadId>u</UploadId></InitiateMultipartUploadResult>`), nil
	case req.Method == "POST":
		return reply(req, 200, `<CompleteMultipartUploadResult><Location>l</Location><Bucket>b</Bucket><Key>k</Key><ETag>e</ETag></CompleteMultipartUploadResult>`), nil
	case req.Method == "PUT":
		r := reply(req, 200, "")
		r.Header.Set("ETag", `"e"`)
		return r, nil
	case req.Method == "GET":
		r := reply(req, 206, "abc")
		r.Header.Set("Content-Range", "bytes 0-2/3")
		return r, nil
	}
	var e xml.Name
	return reply(req, 400, e.Local), nil
}

var kinds = []string{"http", "s3", "swift"}
var urls = map[string]string{"http": "http://h/k", "s3": "s3://b/k", "swift": "swift://h/acct/b/k"}

func request(d driver.Driver, ctx context.Context, url string, op int) error {
	switch op {
	case 0:
		_, err := d.Stat(ctx, url)
		return err
	case 1:
		o, err := d.Open(ctx, url, 3)
		if err != nil {
			return err
		}
		defer o.Close()
		_, err = o.ReadAt(make([]byte, 3), 0)
		if err == io.EOF {
			err = nil
		}
		return err
	case 2:
		if r, ok := d.(driver.Remover); ok {
			return r.Remove(ctx, url)
		}
	case 3:
		if r, ok := d.(driver.Readdirer); ok {
			_, err := r.Readdir(ctx, url+"/")
			return err
		}
	case 4:
		if r, ok := d.(driver.Creator); ok {
			w, err := r.Create(ctx, url)
			if err != nil {
				return err
			}
			w.Write([]byte("abc"))
			_, err = w.Commit()
			return err
		}
	}
	return nil
}

func run(depth int, requests bool) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		ctx := context.Background()
		var o options
		var names []string
		// The contexts on the way keep what they had.
		ctxs := []context.Context{ctx}
		opts := []options{o}
		for i := 0; i < depth; i++ {
			k := c.Choose(len(settings)+1, "setting")
			if k == len(settings) {
				break
			}
			ctx = settings[k].set(ctx, &o)
			names = append(names, settings[k].name)
			ctxs, opts = append(ctxs, ctx), append(opts, o)
		}
		for i := range ctxs {
			check(c, ctxs[i], opts[i])
		}
		c.State(depth, requests, o)
		if !requests {
			c.Outcome(fmt.Sprint(len(names), " settings"))
			return
		}
		kind := kinds[c.Choose(len(kinds), "driver")]
		op := c.Choose(5, "request")
		s := &server{kind: kind, o: o, upload: op == 4}
		prometheus.DefaultRegisterer = prometheus.NewRegistry()
		defer driver.ClearRegistry()()
		switch kind {
		case "http":
			httpdriver.RegisterDefaultDriver()
		case "s3":
			s3driver.RegisterDefaultDriver()
		case "swift":
			swiftdriver.RegisterDefaultDriver()
		}
		xhttp.Answer = s.serve
		xnet.Resolve = func(string) ([]string, error) { return []string{"10.0.0.1"}, nil }
		http.DefaultClient.Transport = s
		http.DefaultTransport = s
		d, err := driver.Find(urls[kind])
		c.Assert(err == nil, "no driver", "%v", err)
		vs.Run(c, vs.Options{Delays: true, NoStates: true}, func() {
			err = request(d, ctx, urls[kind], op)
		})
		c.Assert(err == nil, "request fails", "%s %d: %v", kind, op, err)
		c.State(kind, op, o)
		c.Outcome(fmt.Sprintf("%s %d: %d requests", kind, op, s.requests))
	}
}

func main() {
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "AWS_") || strings.HasPrefix(e, "SWIFT_") {
			os.Unsetenv(strings.SplitN(e, "=", 2)[0])
		}
	}
	os.Setenv("AWS_REGION", envRegion)
	os.Setenv("AWS_ACCESS_KEY_ID", "envid")
	os.Setenv("AWS_SECRET_ACCESS_KEY", "key")
	os.Setenv("SWIFT_REGION", envSwiftRegion)
	os.Setenv("SWIFT_ACCESS_KEY_ID", "swiftenvid")
	os.Setenv("SWIFT_SECRET_ACCESS_KEY", "key")
	os.Setenv("HOME", "/nonexistent")
	mc.Main(mc.Def{
		Scenarios: func(tier string) []mc.Scenario {
			d := 3
			if tier == "thorough" {
				d = 4
			}
			return []mc.Scenario{
				{Name: "getters", Run: run(d+2, false), NoPrune: true},
				{Name: "requests", Run: run(d, true), NoPrune: true},
			}
		}})
}
