//go:build go1.22

// h16b: sequences of requests through the round-robin transport over real
// HTTP connections, kept open or not, to in-memory servers.
package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"sync"

	"github.com/NVIDIA/vdisc/pkg/httputil"
	"github.com/NVIDIA/vdisc/zzverif/mc"
)

// serve answers every request on a connection to addr with that address.
func serve(conn net.Conn, addr string) {
	defer conn.Close()
	r := bufio.NewReader(conn)
	for {
		req, err := http.ReadRequest(r)
		if err != nil {
			return
		}
		shut := ""
		if req.URL.Path == "/close" {
			shut = "Connection: close\r\n"
		}
		body := addr + " " + req.Host
		fmt.Fprintf(conn, "HTTP/1.1 200 OK\r\n%sContent-Length: %d\r\n\r\n%s", shut, len(body), body)
		if shut != "" {
			return
		}
	}
}

var sets = map[string][]string{
	"a": {"10.0.0.1", "10.0.0.2"},
	"b": {"10.0.1.1", "fd00::b", "10.0.1.2"},
	"c": {"10.0.2.1"},
}

var names = []string{"a", "b", "c"}

func run(length, maxHosts int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		var mu sync.Mutex
		lookups := map[string]int{}
		var conns []net.Conn
		rt := httputil.NewRoundRobinTransport(httputil.RoundRobinTransportConfig{MaxHosts: maxHosts,
			LookupHost: func(h string) ([]string, error) {
				mu.Lock()
				defer mu.Unlock()
				lookups[h]++
				return append([]string(nil), sets[h]...), nil
			},
			Dial: func(_ context.Context, network, addr string) (net.Conn, error) {
				if _, _, err := net.SplitHostPort(addr); err != nil || network != "tcp" {
					return nil, errors.New("bad address " + addr)
				}
				x, y := net.Pipe()
				go serve(y, addr)
				mu.Lock()
				conns = append(conns, x)
				mu.Unlock()
				return x, nil
			}})
		defer func() {
			for _, x := range conns {
				x.Close()
			}
		}()
		recent := map[string][]string{}
		var prog []string
		for i := 0; i < length; i++ {
			h := names[c.Choose(len(names), "host")]
			port := []string{"", ":8080"}[c.Choose(2, "port")]
			path := []string{"/", "/close"}[c.Choose(2, "path")]
			prog = append(prog, h+port+path)
			before := lookups[h]
			req, _ := http.NewRequest("GET", "http://"+h+port+path, nil)
			resp, err := rt.RoundTrip(req)
			c.Assert(err == nil, "request fails", "%v: %v", prog, err)
			if err != nil {
				return
			}
			b, err := io.ReadAll(resp.Body)
			resp.Body.Close()
			c.Assert(err == nil, "answer fails", "%v: %v", prog, err)
			if lookups[h] != before {
				recent[h] = nil
			}
			if port == "" {
				port = ":80"
			}
			used := ""
			for _, a := range sets[h] {
				if string(b) == net.JoinHostPort(a, port[1:])+" "+req.URL.Host {
					used = a
				}
			}
			c.Assert(used != "", "address of another host", "%v: %s", prog, b)
			n := len(sets[h])
			if k := len(recent[h]); k >= n {
				recent[h] = recent[h][k-n+1:]
			}
			for _, a := range recent[h] {
				c.Assert(a != used, "uneven", "%v: %s again after %v", prog, used, recent[h])
			}
			recent[h] = append(recent[h], used)
			c.Step()
		}
		c.State(fmt.Sprint(maxHosts, prog))
		c.Outcome(fmt.Sprint("net ", len(conns), " connections"))
	}
}

func main() {
	mc.Main(mc.Def{Scenarios: func(string) []mc.Scenario {
		var out []mc.Scenario
		for max := 0; max <= 2; max++ {
			out = append(out, mc.Scenario{Name: fmt.Sprint("net ", max), Run: run(3, max)})
		}
		return out
	}})
}
