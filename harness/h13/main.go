//go:build go1.22

// h13: histories of an object-store writer under every interleaving up to the
// bounds of the writer, the uploading goroutines and a cancellation, with
// failing requests and bodies.
package main

import (
	"errors"
	"fmt"
	"io"
	"net/url"
	"strings"

	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	"github.com/NVIDIA/vdisc/pkg/storage/s3"
	"github.com/NVIDIA/vdisc/zzverif/mc"
	"github.com/NVIDIA/vdisc/zzverif/sm"
	"github.com/NVIDIA/vdisc/zzverif/vs"
	vctx "github.com/NVIDIA/vdisc/zzverif/vs/context"
)

var errBody = errors.New("injected")

// body is what is streamed; Reads return at most chunk bytes.
type body struct {
	w     *world
	data  []byte
	pos   int64
	chunk int
	eof   bool // end reported with the last bytes
}

func (b *body) fault() error {
	if vs.Fault(1, "body") > 0 {
		vs.Do("body", func() { b.w.s.hits++ })
		return errBody
	}
	return nil
}

func (b *body) Read(p []byte) (int, error) {
	if err := b.fault(); err != nil {
		return 0, err
	}
	if b.pos >= int64(len(b.data)) {
		return 0, io.EOF
	}
	n := copy(p[:min(len(p), b.chunk)], b.data[b.pos:])
	vs.Write(p[:n])
	b.pos += int64(n)
	if b.eof && b.pos == int64(len(b.data)) {
		return n, io.EOF
	}
	return n, nil
}

type seeker struct{ body }

func (b *seeker) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += b.pos
	case io.SeekEnd:
		off += int64(len(b.data))
	}
	b.pos = off
	return off, nil
}

type readerAt struct{ seeker }

func (b *readerAt) ReadAt(p []byte, off int64) (int, error) {
	vs.Yield()
	if err := b.fault(); err != nil {
		return 0, err
	}
	if off >= int64(len(b.data)) {
		return 0, io.EOF
	}
	n := copy(p, b.data[off:])
	vs.Write(p[:n])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

type world struct{ s *store }

type streamer interface {
	ReadFromContext(vctx.Context, io.Reader, *int64) error
}

// op is a call on the writer.
type op struct {
	kind byte // w write, r stream, c commit, a abort
	n    int
	// streaming
	body  int
	chunk int
	eof   bool
	start int
}

func (o op) String() string {
	switch o.kind {
	case 'w':
		return fmt.Sprintf("write %d", o.n)
	case 'r':
		return fmt.Sprintf("stream %d kind %d chunk %d eof %v from %d", o.n, o.body, o.chunk, o.eof, o.start)
	case 'c':
		return "commit"
	}
	return "abort"
}

func bytesOf(from, n int) []byte {
	p := make([]byte, n)
	for i := range p {
		p[i] = byte(from + i + 1)
	}
	return p
}

func (w *world) play(ow driver.ObjectWriter, ops []op, scheme string, cancel bool) {
	var content []byte
	const (
		opened = iota
		piped
		direct
		committed
		aborted
		settledDirect // aborted when it was already stored
	)
	state := opened
	failed := false // an upload has failed
	done := false   // and the writer's part is over
	var after int
	settled := func(what string) {
		if n := w.s.left(); n > 0 && !w.s.unaborted {
			vs.Fail("upload left open", "%d after %s", n, what)
		}
		for _, v := range w.s.versions {
			if string(v) != string(content) {
				vs.Fail("wrong object stored", "%v instead of %v", v, content)
			}
		}
		if len(w.s.versions) > 1 {
			vs.Fail("stored more than once", "%d", len(w.s.versions))
		}
	}
	healthy := func() bool { return w.s.hits == 0 && !w.s.cutOff && !cancel }
	for _, o := range ops {
		switch o.kind {
		case 'w':
			p := bytesOf(len(content), o.n)
			n, err := ow.Write(p)
			vs.Do("write", func() {
				if err == nil && n != o.n {
					vs.Fail("short write without an error", "%d of %d", n, o.n)
				}
				switch {
				case done || state == direct:
					if err == nil {
						vs.Fail("write accepted", "in state %d", state)
					}
				case err == nil:
					content = append(content, p...)
				default:
					if healthy() && len(content)+o.n < s3manager.MaxUploadParts*int(s3manager.MinUploadPartSize) {
						vs.Fail("write fails", "%v", err)
					}
					failed = true
				}
			})
			if state == opened {
				state = piped
			}
		case 'r':
			data := bytesOf(0, o.n)
			base := body{w: w, data: append(make([]byte, o.start), data...), pos: int64(o.start), chunk: o.chunk, eof: o.eof}
			var r io.Reader = &base
			switch o.body {
			case 1:
				r = &seeker{base}
			case 2:
				r = &readerAt{seeker{base}}
			}
			if !done && state == opened {
				content = data
			}
			var n int64
			var err error
			if cancel {
				ctx, stop := vctx.WithCancel(vctx.Background())
				vs.Go(stop)
				err = ow.(streamer).ReadFromContext(ctx, r, &n)
			} else {
				n, err = ow.(io.ReaderFrom).ReadFrom(r)
			}
			vs.Do("stream", func() {
				if done || state != opened {
					if err == nil {
						vs.Fail("stream accepted", "in state %d", state)
					}
					return
				}
				state = direct
				if err == nil {
					if n != int64(o.n) {
						vs.Fail("wrong count", "%d of %d", n, o.n)
					}
					if !w.s.is(content) {
						vs.Fail("streamed object not stored", "%v", w.s.versions)
					}
				} else {
					if healthy() && (o.n < s3manager.MaxUploadParts*int(s3manager.MinUploadPartSize) || o.body > 0) {
						vs.Fail("stream fails", "%v", err)
					}
					failed = true
				}
				settled("streaming")
			})
		case 'c':
			info, err := ow.Commit()
			vs.Do("commit", func() {
				if state == committed {
					return
				}
				after = w.s.requests
				settled("commit")
				if err != nil {
					if !failed && state != aborted && state != settledDirect && healthy() && len(content) < s3manager.MaxUploadParts*int(s3manager.MinUploadPartSize) {
						vs.Fail("commit fails", "%v", err)
					}
				} else {
					if failed {
						vs.Fail("failed upload committed", "%v", content)
					}
					if state == aborted {
						vs.Fail("aborted upload committed", "%v", content)
					}
					if !w.s.is(content) {
						vs.Fail("commit without the object", "%v stored, not %v", w.s.versions, content)
					}
					want := scheme + "://b/k"
					if w.s.versioned && scheme != "http" {
						want += "?versionId=" + names[len(w.s.versions)]
					}
					if got := info.ObjectURL(); got != want {
						if u, err := url.Parse(got); err != nil || u.String() != want {
							vs.Fail("URL of another object", "%s, not %s", got, want)
						}
					}
				}
				if state != aborted && state != settledDirect {
					state, done = committed, true
				}
			})
		case 'a':
			ow.Abort()
			vs.Do("abort", func() {
				if state == committed {
					return
				}
				after = w.s.requests
				settled("abort")
				if len(w.s.versions) > 0 && state != direct && state != settledDirect {
					vs.Fail("aborted object stored", "%v", w.s.versions)
				}
				if done = true; state == direct || state == settledDirect {
					state = settledDirect
				} else {
					state = aborted
				}
			})
		}
	}
	vs.Idle()
	vs.Do("end", func() {
		settled("the end")
		if done && w.s.requests != after {
			vs.Fail("requests after the end", "%d", w.s.requests-after)
		}
	})
}

type cfg struct {
	name    string
	writes  int
	max     int
	preempt int
	faults  int
}

// programs chooses a history.
func program(c *mc.Ctx, k cfg) ([]op, bool) {
	var ops []op
	switch k.name {
	case "writes":
		total := 0
		for i := 0; i < k.writes; i++ {
			n := c.Choose(k.max-total+2, "write")
			if n == 0 {
				break
			}
			ops = append(ops, op{kind: 'w', n: n - 1})
			total += n - 1
		}
		return append(ops, [][]op{{{kind: 'c'}, {kind: 'a'}}, {{kind: 'a'}, {kind: 'c'}}}[c.Choose(2, "end")]...), false
	case "stream", "cancel":
		o := op{kind: 'r', n: c.Choose(k.max+1, "size"), body: c.Choose(3, "kind"), chunk: 9}
		if o.body < 2 && k.name == "stream" {
			o.chunk = []int{9, 1, 3}[c.Choose(3, "chunk")]
			o.eof = c.Bool("eof")
		}
		if o.body > 0 {
			o.start = c.Choose(2, "start")
		}
		return []op{o, {kind: 'c'}, {kind: 'a'}}, k.name == "cancel"
	}
	// Any calls in any order.
	alpha := []op{{kind: 'c'}, {kind: 'a'}, {kind: 'w', n: 1}, {kind: 'w', n: 3}, {kind: 'r', n: 1, chunk: 9}, {kind: 'r', n: 3, body: 2, chunk: 9}}
	over := false
	for i := 0; i < k.writes; i++ {
		n := len(alpha)
		if over {
			// Writing to an aborted writer is not specified.
			n = 2
		}
		o := alpha[c.Choose(n, "op")]
		over = over || o.kind == 'a'
		ops = append(ops, o)
	}
	return append(ops, op{kind: 'a'}), false
}

func run(k cfg) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		w := &world{s: &store{}}
		ops, cancel := program(c, k)
		scheme := "s3"
		if k.name != "cancel" {
			w.s.versioned = true
			if k.name != "any" {
				switch c.Choose(3, "URL") {
				case 1:
					w.s.versioned = false
				case 2:
					scheme = "http"
				}
			}
		}
		res := vs.Run(c, vs.Options{Delays: true}, func() {
			w.play(s3driver.NewObjectWriter(w.s, "b", "k", scheme+"://b/k"), ops, scheme, cancel)
		})
		c.Assert(len(res.Leaked) == 0, "goroutines left behind", "%s", strings.Join(res.Leaked, "; "))
		c.State(fmt.Sprint(k, ops, w.s.versioned, scheme))
		c.Outcome(fmt.Sprint(w.s.hits, " failures, ", len(w.s.versions), " objects of ", len(w.s.uploads), " uploads"))
	}
}

func main() {
	mc.Main(mc.Def{
		Scenarios: func(tier string) []mc.Scenario {
			var out []mc.Scenario
			add := func(k cfg) {
				out = append(out, mc.Scenario{Name: fmt.Sprintf("%+v", k), Budget: [3]int{k.preempt, k.faults, 0}, Run: run(k)})
			}
			d := 2
			if tier == "thorough" {
				d = 3
			}
			if mc.Race {
				d--
			}
			add(cfg{"writes", 2, 5, d, 1})
			add(cfg{"stream", 0, 9, d, 1})
			add(cfg{"cancel", 0, 5, d, 1})
			add(cfg{"any", 3, 0, d, 1})
			if !mc.Race {
				add(cfg{"writes", 1, 7, d + 1, 1})
			}
			return out
		}})
}
