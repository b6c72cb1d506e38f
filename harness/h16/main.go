//go:build go1.22

// h16: requests through the round-robin transport in virtual time: histories
// of requests, waits and resolver answers, and concurrent requests under every
// interleaving up to the bounds with re-resolution. Connecting always fails;
// which address was dialled for a request is what is judged.
package main

import (
	"context"
	"errors"
	"fmt"
	"net"
	"net/http"
	stdurl "net/url"
	"strings"
	"time"

	"github.com/NVIDIA/vdisc/pkg/httputil"
	"github.com/NVIDIA/vdisc/zzverif/mc"
	"github.com/NVIDIA/vdisc/zzverif/vs"
	vtime "github.com/NVIDIA/vdisc/zzverif/vs/time"
	_ "github.com/NVIDIA/vdisc/zzverif/xhttp"
)

var (
	errDial   = errors.New("dial refused")
	errLookup = errors.New("no such host")
)

type reqKey struct{}

// rec is what was dialled for a request.
type rec struct{ dialed []string }

func dial(ctx context.Context, network, addr string) (net.Conn, error) {
	r := ctx.Value(reqKey{}).(*rec)
	vs.Do("dial", func() { r.dialed = append(r.dialed, network+" "+addr) })
	return nil, errDial
}

type lookup struct {
	addrs []string // nil: failed
	now   int64
}

// host is the monitor's view of a host.
type host struct {
	name    string
	sets    [][]string // what it may resolve to
	lists   [][]string
	lookups []lookup
	sure    int      // lookups before this one have been superseded
	recent  []string // addresses used since the last lookup
	asked   int
	atRest  int // lookups when everything came to rest
}

// world is only touched on the explorer.
type world struct {
	hosts  []*host
	choose bool // resolver answers are chosen
	drops  bool // hosts can be dropped
	shared bool // the resolver returns the same lists to all
	fails  int
	// settled says that lookups do not overlap.
	settled bool
	seq     int
}

func (w *world) host(name string) *host {
	for _, h := range w.hosts {
		if h.name == name {
			return h
		}
	}
	return nil
}

func (w *world) lookupHost(name string) (addrs []string, err error) {
	vs.Yield()
	k := 0
	if w.choose {
		k = vs.Choose(3, "resolver")
	} else if vs.Fault(1, "resolver") > 0 {
		k = 2
	}
	vs.Do("lookup", func() {
		h := w.host(name)
		if h == nil {
			vs.Fail("unknown host looked up", "%q", name)
			return
		}
		if !w.choose && k < 2 {
			k = len(h.lookups) % 2
		}
		l := lookup{now: int64(vtime.Now().UnixNano())}
		if k < len(h.sets) {
			l.addrs = h.sets[k]
			addrs = h.lists[k]
		} else {
			w.fails++
			err = errLookup
		}
		h.lookups = append(h.lookups, l)
		h.recent = nil
	})
	if !w.shared {
		// A fresh list, not the resolver's own.
		addrs = append([]string(nil), addrs...)
	}
	return
}

// current gives the resolutions a request beginning now may use.
func (h *host) current() int {
	last := 0
	for i := h.sure; i < len(h.lookups); i++ {
		if h.lookups[i].addrs != nil {
			last = i
		}
	}
	return last
}

// settle declares the last resolution the one in use.
func (w *world) settle() {
	for _, h := range w.hosts {
		h.sure = h.current()
	}
}

func (w *world) request(rt http.RoundTripper, h *host, scheme, port string, alone bool) {
	r := &rec{}
	req := &http.Request{Method: "GET", Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	req = req.WithContext(context.WithValue(context.Background(), reqKey{}, r))
	u := *urls[h.name+port]
	u.Scheme = scheme
	req.URL, req.Host = &u, u.Host
	var from int
	vs.Do("request", func() {
		from = h.sure
		h.asked++
	})
	_, err := rt.RoundTrip(req)
	vs.Do("request", func() {
		// The addresses of the lookup in use when it began or of a later one.
		var all []string
		must := false
		var last lookup
		for i := from; i < len(h.lookups); i++ {
			all = append(all, h.lookups[i].addrs...)
			if h.lookups[i].addrs != nil {
				last = h.lookups[i]
			}
		}
		must = last.addrs != nil
		if w.drops && h.lookups[len(h.lookups)-1].addrs == nil {
			// Its addresses may have been forgotten.
			must = false
		}
		if len(r.dialed) == 0 {
			if alone && must && (w.settled || !w.drops && h.atRest == len(h.lookups)) {
				vs.Fail("request not sent", "to %s: %v, which resolves to %v", h.name, err, last.addrs)
			}
			if err == nil {
				vs.Fail("answer without a request", "from %s", h.name)
			}
			return
		}
		if len(r.dialed) > 1 {
			vs.Fail("several addresses for a request", "%v", r.dialed)
		}
		if !errors.Is(err, errDial) {
			vs.Fail("other error", "%v", err)
		}
		d := strings.SplitN(r.dialed[0], " ", 2)
		ip, p, perr := net.SplitHostPort(d[1])
		if perr != nil || d[0] != "tcp" {
			vs.Fail("bad address", "%q for %s", r.dialed[0], h.name)
			return
		}
		want := strings.TrimPrefix(port, ":")
		if want == "" {
			want = map[string]string{"http": "80", "https": "443"}[scheme]
		}
		if p != want {
			vs.Fail("wrong port", "%s instead of %s", p, want)
		}
		known := func(s []string) bool {
			for _, a := range s {
				if a == ip {
					return true
				}
			}
			return false
		}
		if w.drops && !w.settled {
			// The last lookup may have been for one that was dropped.
			for _, l := range h.lookups {
				all = append(all, l.addrs...)
			}
		} else if alone && (w.settled || h.atRest == len(h.lookups)) {
			if !known(last.addrs) {
				vs.Fail("address not current", "%s for %s, which resolves to %v", ip, h.name, last.addrs)
			}
			// Evenly: no address again before all the others.
			n := len(last.addrs)
			if k := len(h.recent); k >= n {
				h.recent = h.recent[k-n+1:]
			}
			if known(h.recent) {
				vs.Fail("uneven", "%s again after %v, of %v", ip, h.recent, last.addrs)
			}
			h.recent = append(h.recent, ip)
			return
		}
		if !known(all) {
			vs.Fail("address not current", "%s for %s, which resolves to %v", ip, h.name, all)
		}
		h.recent = append(h.recent, ip)
	})
}

var urls = map[string]*stdurl.URL{}

type cfg struct {
	name     string
	maxHosts int
	hosts    int
	length   int
	shared   bool // resolver returns the same list to several hosts
	preempt  int
	timers   int
	faults   int
}

func (k cfg) world(choose bool) *world {
	w := &world{choose: choose, settled: choose, drops: k.maxHosts > 0 && k.maxHosts < k.hosts}
	for i := 0; i < k.hosts; i++ {
		n := string(rune('a' + i))
		p := fmt.Sprintf("10.0.%d.", i)
		h := &host{name: n, sets: [][]string{{p + "1", p + "2"}, {p + "2", "fd00::" + n, p + "4"}}}
		if k.shared {
			h.sets = [][]string{{"10.9.9.1", "10.9.9.2", "10.9.9.3"}, {"10.9.9.4"}}
			if i > 0 {
				h.sets = w.hosts[0].sets
			}
		}
		if w.shared = k.shared; k.shared && i > 0 {
			h.lists = w.hosts[0].lists
		} else {
			for _, s := range h.sets {
				h.lists = append(h.lists, append([]string(nil), s...))
			}
		}
		w.hosts = append(w.hosts, h)
	}
	return w
}

func (k cfg) transport(w *world) http.RoundTripper {
	return httputil.NewRoundRobinTransport(httputil.RoundRobinTransportConfig{MaxHosts: k.maxHosts, LookupHost: w.lookupHost, Dial: dial})
}

func (k cfg) resolvers() int {
	if k.maxHosts > 0 && k.maxHosts < k.hosts {
		return k.maxHosts
	}
	return k.hosts
}

// history is a sequence of requests and waits.
func history(k cfg) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		w := k.world(true)
		var ops []int
		for i := 0; i < k.length; i++ {
			o := c.Choose(k.hosts+1, "op")
			if o > 0 && o < k.hosts {
				// Hosts in order of first use.
				first := true
				for _, p := range ops {
					first = first && p != o-1
				}
				if first {
					return
				}
			}
			ops = append(ops, o)
		}
		res := vs.Run(c, vs.Options{}, func() {
			rt := k.transport(w)
			for i, o := range ops {
				if o < k.hosts {
					scheme := "http"
					if i%2 == 1 {
						scheme = "https"
					}
					w.request(rt, w.hosts[o], scheme, []string{"", ":8080"}[i/2%2], true)
				} else {
					var before []int
					vs.Do("wait", func() {
						for _, h := range w.hosts {
							before = append(before, len(h.lookups))
						}
					})
					vtime.Sleep(10 * time.Minute)
					vs.Idle()
					vs.Do("wait", func() {
						n := 0
						for i, h := range w.hosts {
							if len(h.lookups) > before[i] {
								n++
							}
						}
						if n > k.resolvers() {
							vs.Fail("dropped hosts resolved", "%d of %d", n, k.resolvers())
						}
						if last := lastHost(ops[:i], k.hosts); last >= 0 && len(w.hosts[last].lookups) == before[last] {
							vs.Fail("not resolved again", "%s", w.hosts[last].name)
						}
					})
				}
				vs.Idle()
				vs.Do("settle", w.settle)
			}
		})
		k.end(c, w, res, fmt.Sprint(ops))
	}
}

func lastHost(ops []int, hosts int) int {
	for i := len(ops) - 1; i >= 0; i-- {
		if ops[i] < hosts {
			return ops[i]
		}
	}
	return -1
}

func (k cfg) end(c *mc.Ctx, w *world, res vs.Result, what string) {
	c.Assert(len(res.Leaked) <= k.resolvers(), "resolvers left behind", "%d for %d hosts: %s", len(res.Leaked), k.resolvers(), strings.Join(res.Leaked, "; "))
	n := 0
	for _, h := range w.hosts {
		n += len(h.lookups)
	}
	c.State(fmt.Sprint(k, what))
	c.Outcome(fmt.Sprint(n, " lookups, ", w.fails, " failed"))
}

// concurrent has several clients make requests.
func concurrent(k cfg) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		w := k.world(false)
		var prog [][]int
		for i := 0; i < 2; i++ {
			var l []int
			for j := 0; j < k.length; j++ {
				l = append(l, c.Choose(k.hosts, "host"))
			}
			prog = append(prog, l)
		}
		if k.length == 1 {
			prog = append(prog, []int{c.Choose(k.hosts, "host")})
		}
		for i := 1; i < len(prog); i++ {
			if fmt.Sprint(prog[i-1]) > fmt.Sprint(prog[i]) {
				return
			}
		}
		res := vs.Run(c, vs.Options{Delays: true, EarlyTimers: k.timers > 0}, func() {
			rt := k.transport(w)
			done := make(chan struct{}, len(prog))
			for _, l := range prog {
				l := l
				vs.Go(func() {
					for _, h := range l {
						w.request(rt, w.hosts[h], "http", "", false)
					}
					vs.SendTo((chan<- struct{})(done))(struct{}{})
				})
			}
			for range prog {
				vs.Recv((<-chan struct{})(done))
			}
			vs.Do("settle", func() {
				for _, h := range w.hosts {
					h.atRest = len(h.lookups)
				}
			})
			vs.Idle()
			vs.Do("settle", func() {
				for _, h := range w.hosts {
					// With one lookup the requests are spread evenly.
					if len(h.lookups) != 1 || h.lookups[0].addrs == nil {
						continue
					}
					least, most := h.asked, 0
					for _, a := range h.lookups[0].addrs {
						n := 0
						for _, b := range h.recent {
							if a == b {
								n++
							}
						}
						least, most = min(least, n), max(most, n)
					}
					if most > least+1 || len(h.recent) != h.asked {
						vs.Fail("uneven", "%d requests, %v of %v", h.asked, h.recent, h.lookups[0].addrs)
					}
				}
				for _, h := range w.hosts {
					if h.atRest == len(h.lookups) {
						h.sure = h.current()
					}
					h.recent = nil
				}
			})
			for i := 0; i < 3; i++ {
				for _, h := range w.hosts {
					w.request(rt, h, "http", "", true)
				}
			}
		})
		k.end(c, w, res, fmt.Sprint(prog))
	}
}

func main() {
	for _, h := range []string{"a", "b", "c", "d"} {
		for _, p := range []string{"", ":8080"} {
			urls[h+p] = &stdurl.URL{Host: h + p, Path: "/"}
		}
	}
	mc.Main(mc.Def{
		Scenarios: func(tier string) []mc.Scenario {
			var out []mc.Scenario
			add := func(k cfg) {
				f := concurrent(k)
				if k.name == "history" {
					f = history(k)
				}
				out = append(out, mc.Scenario{Name: fmt.Sprintf("%+v", k), Budget: [3]int{k.preempt, k.faults, k.timers}, Run: f})
			}
			x, d := 0, 2
			if tier == "thorough" {
				x, d = 1, 3
			}
			if mc.Race {
				x, d = 0, d-1
			}
			if !mc.Race {
				for max := 0; max <= 2; max++ {
					add(cfg{"history", max, 3, 4 + x, false, 0, 0, 0})
					add(cfg{"history", max, 2, 5 + x, false, 0, 0, 0})
				}
				add(cfg{"history", 0, 2, 5, true, 0, 0, 0})
			}
			for max := 0; max <= 2; max++ {
				add(cfg{"concurrent", max, 3, 1, false, 1 + x, 0, 1})
				add(cfg{"concurrent", max, 2, 2, false, 1 + x, 0, 1})
				add(cfg{"concurrent", max, 2, 1, false, d, 0, 1})
				if max < 2 {
					add(cfg{"concurrent", max, 2, 1, false, d, 1, 0})
				}
			}
			add(cfg{"concurrent", 0, 2, 2, true, 1 + x, 0, 1})
			add(cfg{"concurrent", 0, 2, 1, true, d, 1, 0})
			return out
		}})
}
