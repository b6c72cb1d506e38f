//go:build go1.22

// h25: concurrent operations on buckets whose regions have to be looked up,
// under every interleaving up to the bounds and every answer to the lookup.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"strings"

	"github.com/prometheus/client_golang/prometheus"

	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	"github.com/NVIDIA/vdisc/pkg/storage/s3"
	"github.com/NVIDIA/vdisc/zzverif/mc"
	"github.com/NVIDIA/vdisc/zzverif/vs"
	xhttp "github.com/NVIDIA/vdisc/zzverif/xhttp"
	xnet "github.com/NVIDIA/vdisc/zzverif/xnet"
)

const home = "us-west-2"

var errBroken = errors.New("injected")

// answer is what the store says about a bucket's region.
type answer struct {
	status int
	body   string
	region string // meaning; empty for a failure
	broken bool   // the body cannot be read to its end
	flaky  int    // first attempt: 1 an unavailable store, 2 a broken connection
}

func location(r string) string {
	return `<?xml version="1.0" encoding="UTF-8"?><LocationConstraint xmlns="http://s3.amazonaws.com/doc/2006-03-01/">` + r + `</LocationConstraint>`
}

var answers = []answer{
	{200, location("eu-central-1"), "eu-central-1", false, 0},
	{200, location("ap-south-1"), "ap-south-1", false, 0},
	{200, location(""), "us-east-1", false, 0},
	{200, `<LocationConstraint xmlns="http://s3.amazonaws.com/doc/2006-03-01/"/>`, "us-east-1", false, 0},
	{200, location("EU"), "eu-west-1", false, 0},
	{200, location("cn-north-1"), "cn-north-1", false, 0},
	{403, "<Error><Code>AccessDenied</Code></Error>", "", false, 0},
	{404, "<Error><Code>NoSuchBucket</Code></Error>", "", false, 0},
	{200, "nonsense", "", false, 0},
	{200, location("eu-central-1"), "", true, 0},
	{200, location("eu-central-1"), "eu-central-1", false, 1},
	{200, location(""), "us-east-1", false, 2},
}

type body struct {
	io.Reader
	broken bool
}

func (b *body) Close() error { return nil }
func (b *body) Read(p []byte) (int, error) {
	n, err := b.Reader.Read(p)
	if err == io.EOF && b.broken {
		err = errBroken
	}
	return n, err
}

type bucket struct {
	name    string
	answer  answer
	lookups int
	told    bool
}

type world struct {
	buckets []*bucket
	hosts   []string
}

func (w *world) bucket(name string) *bucket {
	for _, b := range w.buckets {
		if b.name == name {
			return b
		}
	}
	return nil
}

func (w *world) resolve(host string) ([]string, error) {
	vs.Do("resolve", func() { w.hosts = append(w.hosts, host) })
	return []string{"10.0.0.1"}, nil
}

func reply(req *http.Request, status int, b io.ReadCloser, n int64) *http.Response {
	return &http.Response{StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: b, ContentLength: n, Request: req}
}

// serve is the object store.
func (w *world) serve(req *http.Request) (*http.Response, error) {
	vs.Yield()
	host, method, query := req.URL.Host, req.Method, req.URL.RawQuery
	var a answer
	ok := false
	var err error
	vs.Do("serve", func() {
		name := strings.SplitN(host, ".", 2)[0]
		b := w.bucket(name)
		if b == nil {
			vs.Fail("request for another bucket", "%s %s", method, host)
			return
		}
		if method == "GET" && strings.HasPrefix(query, "location") {
			if host != name+".s3."+home+".amazonaws.com" {
				vs.Fail("lookup elsewhere", "%s", host)
			}
			b.lookups++
			ok = true
			if b.lookups == 1 && b.answer.flaky == 1 {
				a = answer{status: 503}
				return
			}
			if b.lookups == 1 && b.answer.flaky == 2 {
				err = errBroken
				return
			}
			if b.told {
				vs.Fail("looked up again", "%s", name)
			}
			a = b.answer
			b.told = true
			return
		}
		if !b.told {
			vs.Fail("request before the region is known", "%s", name)
		}
		r := b.answer.region
		want := []string{name + ".s3." + r + ".amazonaws.com", name + ".s3-" + r + ".amazonaws.com"}
		if strings.HasPrefix(r, "cn-") {
			want = []string{name + ".s3." + r + ".amazonaws.com.cn"}
		}
		for _, h := range want {
			if r != "" && h == host {
				return
			}
		}
		vs.Fail("bad endpoint", "%q, the region of %s is %q", host, name, r)
	})
	if err != nil {
		return nil, err
	}
	if ok {
		return reply(req, a.status, &body{bytes.NewReader([]byte(a.body)), a.broken}, -1), nil
	}
	return reply(req, 200, io.NopCloser(bytes.NewReader(nil)), 7), nil
}

type cfg struct {
	callers, length int
	all             bool // all answers
	preempt         int
}

func run(k cfg) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		w := &world{}
		for _, n := range []string{"x", "y"} {
			a := answers[1]
			if k.all {
				a = answers[c.Choose(len(answers), "answer")]
			} else if n == "x" {
				a = answers[c.Choose(2, "answer")*6]
			}
			w.buckets = append(w.buckets, &bucket{name: n, answer: a})
		}
		prometheus.DefaultRegisterer = prometheus.NewRegistry()
		defer driver.ClearRegistry()()
		s3driver.RegisterDefaultDriver()
		xhttp.Answer, xnet.Resolve = w.serve, w.resolve
		d, err := driver.Find(urls[0])
		c.Assert(err == nil, "no driver", "%v", err)
		var prog [][]int
		for i := 0; i < k.callers; i++ {
			var l []int
			for j := 0; j < k.length; j++ {
				l = append(l, c.Choose(4, "operation"))
			}
			if i > 0 && fmt.Sprint(l) < fmt.Sprint(prog[i-1]) {
				return
			}
			prog = append(prog, l)
		}
		res := vs.Run(c, vs.Options{Delays: true, QuietReaders: true}, func() {
			done := make(chan struct{}, len(prog))
			for _, l := range prog {
				l := l
				vs.Go(func() {
					for _, o := range l {
						w.call(d, o)
					}
					vs.SendTo((chan<- struct{})(done))(struct{}{})
				})
			}
			for range prog {
				vs.Recv((<-chan struct{})(done))
			}
		})
		c.Assert(len(res.Leaked) <= len(w.hosts), "goroutines left behind", "%s", strings.Join(res.Leaked, "; "))
		c.State(fmt.Sprint(k, prog, w.buckets[0].answer, w.buckets[1].answer))
		c.Outcome(fmt.Sprint(w.buckets[0].lookups, w.buckets[0].answer.region, " ", w.buckets[1].lookups, w.buckets[1].answer.region))
	}
}

var urls = [2]string{"s3://x/k", "s3://y/k"}

func (w *world) call(d driver.Driver, o int) {
	var err error
	var size int64
	if o < 2 {
		var fi os.FileInfo
		if fi, err = d.Stat(context.Background(), urls[o%2]); err == nil {
			size = fi.Size()
		}
	} else {
		var obj driver.Object
		if obj, err = d.Open(context.Background(), urls[o%2], -1); err == nil {
			size = obj.Size()
			obj.Close()
		}
	}
	vs.Do("called", func() {
		b := w.buckets[o%2]
		if !b.told {
			vs.Fail("answer without a lookup", "%s: %v", b.name, err)
		}
		if b.answer.region == "" && err == nil {
			vs.Fail("failed lookup ignored", "%s", b.name)
		}
		if b.answer.region != "" && (err != nil || size != 7) {
			vs.Fail("call fails", "%s: %d %v", b.name, size, err)
		}
	})
}

func main() {
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "AWS_") {
			os.Unsetenv(strings.SplitN(e, "=", 2)[0])
		}
	}
	os.Setenv("AWS_REGION", home)
	os.Setenv("AWS_ACCESS_KEY_ID", "id")
	os.Setenv("AWS_SECRET_ACCESS_KEY", "key")
	os.Setenv("HOME", "/nonexistent")
	mc.Main(mc.Def{
		Setup: func(string) {
			// What the process finds out once.
			mc.Default(run(cfg{1, 1, false, 0}))
		},
		Scenarios: func(tier string) []mc.Scenario {
			var out []mc.Scenario
			add := func(k cfg) {
				out = append(out, mc.Scenario{Name: fmt.Sprintf("%+v", k), Budget: [3]int{k.preempt, 0, 0}, Run: run(k)})
			}
			d := 2
			if tier == "thorough" {
				d = 3
			}
			if mc.Race {
				d--
			}
			add(cfg{1, 2, true, 0})
			add(cfg{2, 1, false, d + 1})
			add(cfg{2, 2, false, d})
			if mc.Race {
				d++
			}
			add(cfg{3, 1, false, min(d, 2)})
			return out
		}})
}
