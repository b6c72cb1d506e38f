//go:build go1.22

// h15: the retrying and authorizing transports over every sequence of attempt
// outcomes.
package main

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strings"
	"time"

	"github.com/NVIDIA/vdisc/pkg/httputil"
	"github.com/NVIDIA/vdisc/zzverif/mc"
	"github.com/NVIDIA/vdisc/zzverif/vs"
)

var outcomes = []int{200, 0, 429, 500, 503, 599, 204, 206, 301, 400, 404, 428, 430, 499, 501, 504}

func retryable(code int) bool { return code == 0 || code == 429 || code >= 500 }

type respBody struct {
	io.Reader
	closed int
	read   bool
}

func (b *respBody) Read(p []byte) (int, error) { b.read = true; return b.Reader.Read(p) }
func (b *respBody) Close() error               { b.closed++; return nil }

type reqBody struct {
	io.Reader
	closed bool
}

func (b *reqBody) Close() error { b.closed = true; return nil }

type attempt struct {
	code int
	err  error
	resp *http.Response
	body *respBody
	sent string // what was sent
}

type base struct {
	c        *mc.Ctx
	attempts []*attempt
	max      int // retryable outcomes before a final one
	outcomes []int
	slow     int // attempt taking too long
	nap      time.Duration
}

func show(r *http.Request, body string) string {
	var h []string
	for k, v := range r.Header {
		h = append(h, fmt.Sprint(k, v))
	}
	sort.Strings(h)
	return fmt.Sprint(r.Method, " ", r.URL, " ", r.Host, " ", r.ContentLength, " ", h, " ", body)
}

func (b *base) RoundTrip(req *http.Request) (*http.Response, error) {
	c := b.c
	c.Step()
	n := len(b.attempts)
	for _, a := range b.attempts {
		c.Assert(a.body == nil || a.body.closed > 0, "discarded response left open", "attempt %d begins", n+1)
	}
	if n > 0 {
		c.Assert(retryable(b.attempts[n-1].code), "repeated a request already answered", "HTTP %d", b.attempts[n-1].code)
	}
	body := ""
	if req.Body != nil {
		d, err := io.ReadAll(req.Body)
		c.Assert(err == nil, "request body unreadable", "attempt %d: %v", n+1, err)
		body = "body " + string(d)
		req.Body.Close()
	}
	k := len(b.outcomes)
	if n > b.max {
		c.Fail("too many attempts", "%d", n+1)
	}
	var code int
	if n == b.max {
		code = outcomes[[]int{0, 10, 6}[c.Choose(3, "last outcome")]]
	} else {
		code = b.outcomes[c.Choose(k, "outcome")]
	}
	if b.nap > 0 {
		code = []int{500, 0, 429}[c.Choose(3, "failure")]
		if n == b.slow {
			time.Sleep(b.nap)
		}
	}
	a := &attempt{code: code, sent: show(req, body)}
	b.attempts = append(b.attempts, a)
	c.Logf("attempt %d: %s -> %d", n+1, a.sent, code)
	if code == 0 {
		a.err = errors.New("injected")
		return nil, a.err
	}
	a.body = &respBody{Reader: strings.NewReader("answer")}
	a.resp = &http.Response{StatusCode: code, Header: http.Header{"X": {fmt.Sprint(n)}}, Body: a.body, Request: req}
	return a.resp, nil
}

func request(c *mc.Ctx) (*http.Request, string, bool) {
	m := []string{"GET", "PUT", "DELETE"}[c.Choose(3, "method")]
	var body io.Reader
	text := ""
	again := true
	switch c.Choose(4, "body") {
	case 0:
	case 1:
		text = "body content"
		body = strings.NewReader("content")
	case 2:
		text = "body content"
		body = &reqBody{Reader: strings.NewReader("content")}
		again = false
	case 3:
		body = http.NoBody
		text = "body "
	}
	req, err := http.NewRequest(m, "http://h:1/p?q", body)
	c.Assert(err == nil, "setup", "%v", err)
	if body != nil {
		if text == "body content" {
			req.ContentLength = 7
		}
	} else {
		text = ""
	}
	switch c.Choose(3, "headers") {
	case 1:
		req.Header.Set("Range", "bytes=0-1")
		req.Header.Add("A", "1")
		req.Header.Add("A", "2")
	case 2:
		req.Header.Set("Authorization", "own")
	}
	return req, text, again
}

func transport(c *mc.Ctx, b http.RoundTripper, o httputil.RetryOptions) (http.RoundTripper, bool) {
	switch c.Choose(3, "transport") {
	case 0:
		return httputil.WithRetries(b, o), false
	case 1:
		return httputil.WithAuthz(httputil.WithRetries(b, o), "secret"), true
	default:
		return httputil.WithRetries(httputil.WithAuthz(b, "secret"), o), true
	}
}

func (b *base) verify(c *mc.Ctx, req *http.Request, want string, auth bool, resp *http.Response, err error) *attempt {
	c.Assert(len(b.attempts) > 0, "request not sent", "%v", err)
	last := b.attempts[len(b.attempts)-1]
	if last.code == 0 {
		c.Assert(resp == nil && err == last.err, "not the last outcome", "%v %v, want %v", resp, err, last.err)
	} else {
		c.Assert(err == nil && resp == last.resp && resp.StatusCode == last.code && resp.Header.Get("X") == fmt.Sprint(len(b.attempts)-1), "not the last outcome", "%v %v", resp, err)
		c.Assert(last.body.closed == 0 && !last.body.read, "answer closed or consumed", "HTTP %d", last.code)
	}
	for i, a := range b.attempts {
		c.Assert(a.sent == want, "not the same request", "attempt %d of %d: %s, want %s", i+1, len(b.attempts), a.sent, want)
	}
	return last
}

func expected(c *mc.Ctx, req *http.Request, body string, auth bool) string {
	r := req.Clone(req.Context())
	if auth && r.Header.Get("Authorization") == "" {
		r.Header.Set("Authorization", "secret")
	}
	return show(r, body)
}

func sequences(max int, outs []int, another bool) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		b := &base{c: c, max: max, outcomes: outs}
		rt, auth := transport(c, b, httputil.RetryOptions{InitialInterval: 1, MaxInterval: 1, MaxElapsedTime: time.Hour})
		req, body, again := request(c)
		want := expected(c, req, body, auth)
		resp, err := rt.RoundTrip(req)
		last := b.verify(c, req, want, auth, resp, err)
		if again {
			c.Assert(!retryable(last.code), "gave up", "after %d attempts, the last with %d", len(b.attempts), last.code)
		} else {
			c.Assert(len(b.attempts) == 1, "repeated without its body", "%d attempts", len(b.attempts))
		}
		// The transport serves further requests.
		if another {
			b.attempts, b.max = nil, 1
			req, body, _ := request(c)
			want := expected(c, req, body, auth)
			resp, err := rt.RoundTrip(req)
			b.verify(c, req, want, auth, resp, err)
		}
		s := ""
		for _, a := range b.attempts {
			s += fmt.Sprint(" ", a.code)
		}
		c.State(auth, want, s)
		c.Outcome(fmt.Sprint(len(b.attempts), " ", last.code))
	}
}

// outOfTime has one attempt outlast the time allowed.
func outOfTime(c *mc.Ctx) {
	const allowed = 30 * time.Millisecond
	b := &base{c: c, max: 1 << 20, outcomes: outcomes, nap: 2 * allowed, slow: c.Choose(3, "slow attempt")}
	rt, auth := transport(c, b, httputil.RetryOptions{InitialInterval: 1, MaxInterval: 1, MaxElapsedTime: allowed})
	req, err := http.NewRequest("GET", "http://h:1/p?q", nil)
	c.Assert(err == nil, "setup", "%v", err)
	want := expected(c, req, "", auth)
	start := time.Now()
	resp, err := rt.RoundTrip(req)
	took := time.Since(start)
	b.verify(c, req, want, auth, resp, err)
	c.Assert(len(b.attempts) <= b.slow+1, "repeated after the time allowed", "%d attempts, number %d was slow", len(b.attempts), b.slow+1)
	c.Assert(took >= allowed, "gave up with time left", "after %v of %v", took, allowed)
	c.State("slow", b.slow, len(b.attempts))
	c.Outcome("out of time")
}

// run executes f in virtual time.
func run(f func(*mc.Ctx)) func(*mc.Ctx) {
	return func(c *mc.Ctx) { vs.Run(c, vs.Options{}, func() { f(c) }) }
}

func main() {
	mc.Main(mc.Def{Scenarios: func(tier string) []mc.Scenario {
		n := 3
		if tier == "thorough" {
			n = 4
		}
		return []mc.Scenario{
			{Name: "sequences", Run: run(sequences(n, outcomes, false))},
			{Name: "two-requests", Run: run(sequences(2, []int{200, 0, 503}, true))},
			{Name: "out-of-time", Run: run(outOfTime)},
		}
	}})
}
