//go:build go1.22

// h14: ranged reads of remote objects against every response a server can
// give, truthful or not about lengths and positions. The bytes of a response
// are always those of the position its Content-Range names.
package main

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"strconv"
	"strings"

	"github.com/NVIDIA/vdisc/pkg/storage/http"
	"github.com/NVIDIA/vdisc/zzverif/mc"
)

const content = "abcdefgh"

type body struct {
	d      string
	err    error
	closed bool
}

func (b *body) Close() error { b.closed = true; return nil }
func (b *body) Read(p []byte) (int, error) {
	if len(b.d) == 0 {
		return 0, b.err
	}
	n := copy(p, b.d)
	b.d = b.d[n:]
	return n, nil
}

type server struct {
	c      *mc.Ctx
	size   int // real size of the object
	next   func(req *http.Request) *http.Response
	reqs   []*http.Request
	bodies []*body
	fail   error
	dev    bool // answers count as deviations
	lied   bool // the last answer claimed a larger object
}

func (s *server) choose(n int, label string) int {
	if s.dev {
		return s.c.Deviate(mc.Fault, n, label)
	}
	return s.c.Choose(n, label)
}

func (s *server) RoundTrip(req *http.Request) (*http.Response, error) {
	s.reqs = append(s.reqs, req)
	r := s.next(req)
	if r == nil {
		return nil, s.fail
	}
	r.Request = req
	r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/1.1", 1, 1
	r.Status = fmt.Sprintf("%d x", r.StatusCode)
	s.bodies = append(s.bodies, r.Body.(*body))
	return r, nil
}

var statuses = []int{206, 200, 404, 403, 416, 429, 500, 503, 204, 302}

var injected = errors.New("injected")

// object bytes from off, as far as there are any, then made up ones.
func at(size, off, n int) string {
	s := ""
	for i := off; i < off+n; i++ {
		if i >= 0 && i < size {
			s += content[i : i+1]
		} else {
			s += "#"
		}
	}
	return s
}

// answer enumerates the answers to a ranged GET for [off, end).
func (s *server) answer(c *mc.Ctx, off, end int) (*http.Response, bool) {
	status := statuses[s.choose(len(statuses), "status")]
	h := http.Header{}
	resp := &http.Response{StatusCode: status, Header: h}
	if status == 302 {
		// A redirection without a location.
		resp.Body = &body{err: io.EOF}
		return resp, false
	}
	if status != 206 {
		b := at(s.size, 0, s.size)
		resp.ContentLength = int64(len(b))
		if status != 200 {
			b = "some error page"
			resp.ContentLength = int64(len(b))
			if s.choose(2, "with a Content-Range") == 1 {
				h.Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", off, end-1, s.size))
				b = b[:min(end-off, len(b))]
				resp.ContentLength = int64(end - off)
			}
		} else if s.choose(2, "with a Content-Range") == 1 {
			h.Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", off, end-1, s.size))
			resp.ContentLength = int64(end - off)
		}
		resp.Body = &body{d: b, err: io.EOF}
		return resp, false
	}
	first, last := off, end-1
	total := strconv.Itoa(s.size)
	form := "bytes %d-%d/%s"
	label := s.choose(16, "content range")
	s.lied = label == 8 || label == 10 || label == 14
	switch label {
	case 1:
		first++
	case 2:
		first--
	case 3:
		last++
	case 4:
		last--
	case 5:
		first, last = first+1, last+1
	case 6:
		first, last = 0, s.size-1
	case 7:
		total = strconv.Itoa(s.size - 1)
	case 8:
		total = strconv.Itoa(s.size + 1)
	case 9:
		total = "*"
	case 10:
		total = "18446744073709551615"
	case 11:
		total = "99999999999999999999999"
	case 12:
		form = "bytes=%d-%d/%s"
	case 13:
		form = "items %d-%d/%s"
	case 14:
		form = "bytes %d-18446744073709551614/18446744073709551615"
	case 15:
		form = ""
	}
	switch {
	case label == 14:
		h.Set("Content-Range", fmt.Sprintf(form, first))
	case form != "":
		h.Set("Content-Range", fmt.Sprintf(form, first, last, total))
	}
	n := last - first + 1
	b := at(s.size, first, max(0, n))
	resp.ContentLength = int64(n)
	cl := s.choose(6, "content length")
	switch cl {
	case 1:
		resp.ContentLength = -1
	case 2:
		resp.ContentLength++
	case 3:
		resp.ContentLength--
	case 4:
		resp.ContentLength = 0
	case 5:
		resp.ContentLength = int64(s.size)
	}
	bd := &body{d: b, err: io.EOF}
	bk := s.choose(6, "body")
	switch bk {
	case 1:
		bd.d = b[:max(0, len(b)-1)]
	case 2:
		bd.d = ""
	case 3:
		bd.d += "#"
	case 4:
		bd.d, bd.err = b[:max(0, len(b)-1)], injected
	case 5:
		bd.d, bd.err = b[:max(0, len(b)-1)], io.ErrUnexpectedEOF
	}
	// What an HTTP client makes of a body at odds with its length.
	if cl := int(resp.ContentLength); cl >= 0 {
		if len(bd.d) > cl {
			bd.d, bd.err = bd.d[:cl], io.EOF
		} else if len(bd.d) < cl && bd.err == io.EOF {
			bd.err = io.ErrUnexpectedEOF
		}
	}
	resp.Body = bd
	return resp, label+cl+bk == 0
}

// probe enumerates the answers to a HEAD request.
func (s *server) probe(c *mc.Ctx) (*http.Response, string) {
	h := http.Header{}
	resp := &http.Response{StatusCode: 200, Header: h, ContentLength: int64(s.size), Body: &body{err: io.EOF}}
	switch s.choose(8, "probe") {
	case 0:
		return resp, "good"
	case 1:
		resp.ContentLength = -1
	case 2:
		resp.StatusCode = 404
		return resp, "missing"
	case 3:
		resp.StatusCode = 403
	case 4:
		resp.StatusCode = 500
	case 5:
		s.fail = injected
		return nil, "bad"
	case 6:
		resp.StatusCode = 405
		return resp, "fallback"
	case 7:
		resp.StatusCode = 206
	}
	return resp, "bad"
}

// fallback enumerates the answers to the plain GET made when HEAD is not
// allowed.
func (s *server) fallback(c *mc.Ctx) (*http.Response, string) {
	resp := &http.Response{StatusCode: 200, Header: http.Header{}, ContentLength: int64(s.size), Body: &body{d: at(s.size, 0, s.size), err: io.EOF}}
	switch s.choose(7, "fallback") {
	case 0:
		return resp, "good"
	case 1:
		resp.ContentLength = -1
		return resp, "good"
	case 2:
		resp.StatusCode = 404
		return resp, "missing"
	case 3:
		resp.StatusCode = 500
	case 4:
		s.fail = injected
		return nil, "bad"
	case 5:
		resp.Body = &body{d: content[:s.size/2], err: injected}
	case 6:
		resp.Body = &body{d: content[:s.size/2], err: io.ErrUnexpectedEOF}
	}
	return resp, "bad"
}

const addr = "http://h/x?y=1"

func (s *server) check(c *mc.Ctx, r *http.Request, method string) {
	c.Assert(r.Method == method && r.URL.String() == addr, "wrong request", "%s %s, want %s %s", r.Method, r.URL, method, addr)
}

func read(maxReads int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		u, _ := url.Parse(addr)
		s := &server{c: c, dev: maxReads > 1}
		k := 4
		if s.dev {
			k = 3
		}
		s.size = c.Choose(k, "size") + 1
		declared := -1
		// The size a caller declares may also be smaller than the object,
		// or larger.
		switch c.Choose(4, "declared size") {
		case 0:
			declared = s.size
		case 1:
			declared = s.size - 1
		case 2:
			declared = s.size + 1
		}
		o := httpdriver.NewObject(&http.Client{Transport: s}, addr, u, int64(declared))
		size := declared
		verdict := ""
		pos := 0
		for i := 0; i < maxReads; i++ {
			off := c.Choose(s.size+2, "offset")
			n := c.Choose(s.size+3, "length")
			seq := i > 0 && c.Bool("sequential")
			if seq {
				off = pos
			}
			end := off + n
			good, asked, resolved := false, 0, false
			s.next = func(req *http.Request) *http.Response {
				switch {
				case req.Method == "HEAD":
					s.check(c, req, "HEAD")
					c.Assert(size < 0, "needless probe", "size %d is known", size)
					var r *http.Response
					r, verdict = s.probe(c)
					resolved = true
					if verdict == "good" {
						size = s.size
					}
					return r
				case verdict == "fallback":
					s.check(c, req, "GET")
					c.Assert(req.Header.Get("Range") == "", "ranged probe", "%s", req.Header.Get("Range"))
					var r *http.Response
					r, verdict = s.fallback(c)
					if verdict == "good" {
						size = s.size
					}
					return r
				}
				s.check(c, req, "GET")
				end = min(end, size)
				asked++
				want := fmt.Sprintf("bytes=%d-%d", off, end-1)
				c.Assert(req.Header.Get("Range") == want, "wrong range asked", "size %d: %d bytes at %d: %s, want %s", size, n, off, req.Header.Get("Range"), want)
				c.Assert(off < size && n > 0, "needless request", "size %d: %d bytes at %d", size, n, off)
				s.lied = false
				if s.choose(2, "transport") == 1 {
					s.fail = injected
					return nil
				}
				var r *http.Response
				r, good = s.answer(c, off, end)
				return r
			}
			p := []byte(strings.Repeat("?", n))
			var got int
			var err error
			if seq {
				got, err = o.Read(p)
			} else {
				got, err = o.ReadAt(p, int64(off))
			}
			c.Step()
			c.Logf("size %d (really %d), %d bytes at %d: %d %q %v", size, s.size, n, off, got, p, err)
			c.Assert(got >= 0 && got <= n, "impossible count", "%d of %d", got, n)
			if seq {
				pos += got
			}
			for _, b := range s.bodies {
				c.Assert(b.closed, "response body left open", "size %d: %d bytes at %d", size, n, off)
			}
			if size < 0 {
				c.Assert(n == 0 || err != nil && err != io.EOF, "read succeeds although the size is unknown", "%d %v", got, err)
				if verdict == "missing" && n > 0 {
					c.Assert(os.IsNotExist(err) || errors.Is(err, os.ErrNotExist), "missing object not reported as such", "%v", err)
				}
				c.Outcome("unknown size: " + verdict)
				continue
			}
			end = min(off+n, size)
			want := ""
			if off < end {
				want = at(s.size, off, end-off)
			}
			if err == nil || err == io.EOF {
				c.Assert(got == len(want) && string(p[:got]) == want && (s.lied || !strings.Contains(want, "#")), "wrong bytes", "size %d (really %d): %d bytes at %d: %d %q %v, want %q", size, s.size, n, off, got, p[:got], err, want)
				c.Assert(err == nil || off+got >= size || n == 0, "end of data reported early", "size %d: %d bytes at %d", size, n, off)
				c.Assert(n == 0 || got > 0 || err != nil, "empty read without end of data", "size %d: %d bytes at %d", size, n, off)
			} else {
				c.Assert(strings.HasPrefix(at(s.size, off, n), string(p[:got])), "wrong bytes before an error", "%q", p[:got])
				c.Assert(!(good && size <= s.size), "good answer refused", "size %d: %d bytes at %d: %v", size, n, off, err)
				c.Assert(asked > 0 || resolved, "read refused without asking", "size %d: %d bytes at %d: %v", size, n, off, err)
			}
			c.Outcome(fmt.Sprintf("%v %v", asked, err == nil))
		}
		c.State(size, s.size, verdict, pos)
	}
}

func remove(c *mc.Ctx) {
	u, _ := url.Parse(addr)
	s := &server{c: c}
	code := []int{204, 403, 404, 500, 429, 301}[c.Choose(6, "status")]
	lost := c.Bool("transport fails")
	badBody := c.Bool("body fails")
	s.next = func(req *http.Request) *http.Response {
		s.check(c, req, "DELETE")
		if lost {
			s.fail = injected
			return nil
		}
		b := &body{err: io.EOF}
		if badBody {
			b.err = injected
		}
		return &http.Response{StatusCode: code, Header: http.Header{}, Body: b}
	}
	devnull, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	old := os.Stderr
	os.Stderr = devnull
	err := httpdriver.Delete(&http.Client{Transport: s}, addr, u)
	os.Stderr = old
	devnull.Close()
	c.Step()
	c.Assert(len(s.reqs) == 1, "wrong number of requests", "%d", len(s.reqs))
	if code == 204 && !lost && !badBody {
		c.Assert(err == nil, "removal refused", "%v", err)
	}
	if code != 204 || lost {
		c.Assert(err != nil, "failed removal reported as success", "HTTP %d", code)
	}
	c.State(code, lost, err == nil)
}

func stat(c *mc.Ctx) {
	s := &server{c: c, size: c.Choose(4, "size")}
	verdict := ""
	s.next = func(req *http.Request) *http.Response {
		var r *http.Response
		if verdict == "fallback" {
			s.check(c, req, "GET")
			r, verdict = s.fallback(c)
			return r
		}
		s.check(c, req, "HEAD")
		r, verdict = s.probe(c)
		return r
	}
	n, err := httpdriver.Stat(&http.Client{Transport: s}, addr)
	c.Step()
	c.Logf("%s: %d %v", verdict, n, err)
	switch verdict {
	case "good":
		c.Assert(err == nil && n == int64(s.size), "wrong size", "%d %v, want %d", n, err, s.size)
	case "missing":
		c.Assert(errors.Is(err, os.ErrNotExist), "missing object not reported as such", "%d %v", n, err)
	default:
		c.Assert(err != nil, "failed probe reported as success", "%d", n)
	}
	c.State(verdict, s.size)
	c.Outcome(verdict)
}

func main() {
	mc.Main(mc.Def{Scenarios: func(tier string) []mc.Scenario {
		l := []mc.Scenario{
			{Name: "one-read", Run: read(1)},
			{Name: "stat", Run: stat},
			{Name: "remove", Run: remove},
		}
		var b [3]int
		b[mc.Fault] = 2
		if tier == "thorough" {
			b[mc.Fault] = 3
		}
		l = append(l, mc.Scenario{Name: "two-reads", Run: read(2), Budget: b})
		return l
	}})
}
