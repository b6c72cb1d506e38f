//go:build go1.22

// h12: devices sharing a command pool, under every interleaving up to the
// bounds of commands, completions, ending inputs and closing the pool.
package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/tnarg/go-tcmu"

	"github.com/NVIDIA/vdisc/pkg/blockdev"
	"github.com/NVIDIA/vdisc/zzverif/mc"
	"github.com/NVIDIA/vdisc/zzverif/vs"
)

type command struct {
	dev, n    int
	cmd       *tcmu.SCSICmd
	handled   int
	answered  int
	accepted  bool
	busy      bool
	buf       *byte
	grown     bool
	delivered bool
}

// world is the monitor; only touched on the explorer.
type world struct {
	cmds []*command
}

type handler struct {
	w   *world
	dev int
	buf int
	// replace makes the handler put another buffer in place.
	replace bool
}

func status(k *command) byte { return byte(16*k.dev + k.n + 1) }

func (h *handler) HandleCommand(cmd *tcmu.SCSICmd) (tcmu.SCSIResponse, error) {
	var k *command
	vs.Step("handle", func() {
		for _, c := range h.w.cmds {
			if c.cmd == cmd {
				k = c
			}
		}
		if k == nil {
			vs.Fail("unknown command handled", "device %d", h.dev)
			return
		}
		k.handled++
		if k.handled > 1 {
			vs.Fail("command handled twice", "command %d of device %d", k.n, k.dev)
		}
		if k.dev != h.dev {
			vs.Fail("command handled by another device", "command %d of device %d by %d", k.n, k.dev, h.dev)
		}
		if len(cmd.Buf) < h.buf {
			vs.Fail("buffer too small", "%d of %d bytes", len(cmd.Buf), h.buf)
			return
		}
		k.busy, k.buf = true, &cmd.Buf[0]
		for _, c := range h.w.cmds {
			if c != k && c.busy && c.buf == k.buf {
				vs.Fail("buffer shared by two commands", "command %d of device %d and command %d of device %d", k.n, k.dev, c.n, c.dev)
			}
		}
	})
	vs.Write(cmd.Buf)
	cmd.Buf[0] = status(k)
	vs.Step("handle", func() {
		if cmd.Buf[0] != status(k) {
			vs.Fail("buffer overwritten", "command %d of device %d", k.n, k.dev)
		}
		k.busy = false
	})
	vs.Read(cmd.Buf)
	if h.replace {
		cmd.Buf = make([]byte, h.buf+1)
	}
	return cmd.RespondStatus(status(k)), nil
}

type cfg struct {
	workers, devices, cmds, chanCap int
	closePool                       bool // at any time, not just in the end
	endInputs                       bool
	preempt                         int
}

func run(k cfg) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		w := &world{}
		lens := make([]int, k.devices)
		for i := range lens {
			lens[i] = c.Choose(k.cmds+1, "commands")
			if i > 0 && lens[i] > lens[i-1] {
				return
			}
		}
		replace := c.Bool("replace buffer")
		for d, n := range lens {
			for j := 0; j < n; j++ {
				w.cmds = append(w.cmds, &command{dev: d, n: j, cmd: &tcmu.SCSICmd{}})
			}
		}
		res := vs.Run(c, vs.Options{}, func() {
			pool := blockdev.NewCmdPool(k.workers, 2)
			stop := make(chan struct{})
			done := make(chan struct{}, k.devices)
			for d := 0; d < k.devices; d++ {
				var todo []*command
				for _, x := range w.cmds {
					if x.dev == d {
						todo = append(todo, x)
					}
				}
				in := make(chan *tcmu.SCSICmd, k.chanCap)
				out := make(chan tcmu.SCSIResponse, k.chanCap)
				if err := pool.DevReady(&handler{w, d, 2, replace})(in, out); err != nil {
					vs.Fail("device not ready", "%v", err)
				}
				d := d
				vs.Go(func() {
					w.client(k, d, todo, in, out, stop)
					vs.SendTo((chan<- struct{})(done))(struct{}{})
				})
			}
			if !k.closePool {
				for i := 0; i < k.devices; i++ {
					vs.Recv((<-chan struct{})(done))
				}
			}
			if err := pool.Close(); err != nil {
				vs.Fail("close fails", "%v", err)
			}
			vs.Do("closed", func() {
				for _, x := range w.cmds {
					if x.busy {
						vs.Fail("pool closed while a command is handled", "command %d of device %d", x.n, x.dev)
					}
				}
			})
			vs.Close((chan<- struct{})(stop))
		})
		c.Assert(len(res.Leaked) == 0, "goroutines left behind", "%s", strings.Join(res.Leaked, "; "))
		answers := 0
		for _, x := range w.cmds {
			if x.handled > 0 || !k.closePool {
				c.Assert(x.handled == 1 && x.answered == 1, "command lost", "command %d of device %d: handled %d times, answered %d times", x.n, x.dev, x.handled, x.answered)
			}
			answers += x.answered
		}
		c.State(fmt.Sprint(k, lens, replace))
		c.Outcome(fmt.Sprint(answers, " answers"))
	}
}

// client is the device's side: sends its commands and takes the responses.
func (w *world) client(k cfg, d int, todo []*command, in chan *tcmu.SCSICmd, out chan tcmu.SCSIResponse, stop chan struct{}) {
	open, answers := true, 0
	next := 0
	for {
		if open && next == len(todo) && (k.endInputs || answers == len(todo)) {
			vs.Close((chan<- *tcmu.SCSICmd)(in))
			open = false
		}
		r := vs.CRecv((<-chan tcmu.SCSIResponse)(out))
		cases := []vs.Case{r, vs.CRecv((<-chan struct{})(stop))}
		if next < len(todo) {
			cases = append(cases, vs.CSend((chan<- *tcmu.SCSICmd)(in))(todo[next].cmd))
		}
		switch vs.Select(false, cases...) {
		case 0:
			ended := false
			vs.Do("answer", func() {
				if !r.OK {
					ended = true
					if open {
						vs.Fail("output closed before the input", "device %d", d)
					}
					for _, x := range todo {
						if x.answered != 1 {
							vs.Fail("output closed before the responses", "device %d", d)
						}
					}
					return
				}
				answers++
				for _, x := range todo {
					if reflect.DeepEqual(r.V, x.cmd.RespondStatus(status(x))) {
						x.answered++
						if x.answered > 1 || x.handled != 1 {
							vs.Fail("response delivered twice", "command %d of device %d", x.n, d)
						}
						return
					}
				}
				vs.Fail("response of another command", "device %d: %v", d, r.V)
			})
			if ended {
				return
			}
		case 1:
			// Responses already delivered stay in the channel.
			for {
				r := vs.CRecv((<-chan tcmu.SCSIResponse)(out))
				if vs.Select(true, r) < 0 || !r.OK {
					return
				}
				vs.Do("answer", func() {
					for _, x := range todo {
						if reflect.DeepEqual(r.V, x.cmd.RespondStatus(status(x))) {
							x.answered++
							return
						}
					}
					vs.Fail("response of another command", "device %d: %v", d, r.V)
				})
			}
		case 2:
			next++
		}
	}
}

func main() {
	mc.Main(mc.Def{Scenarios: func(tier string) []mc.Scenario {
		var out []mc.Scenario
		th := tier == "thorough"
		for _, cp := range []bool{false, true} {
			for _, end := range []bool{false, true} {
				for _, cc := range []int{0, 5} {
					add := func(workers, devices, cmds, p int) {
						k := cfg{workers, devices, cmds, cc, cp, end, p}
						out = append(out, mc.Scenario{Name: fmt.Sprintf("%+v", k), Budget: [3]int{p, 0, 0}, Run: run(k)})
					}
					if mc.Race {
						add(2, 1, 2, 0)
						add(1, 2, 1, 0)
						if th {
							add(2, 2, 1, 0)
						}
						continue
					}
					add(1, 1, 3, 2)
					add(2, 1, 2, 2)
					add(1, 2, 1, 2)
					add(2, 2, 1, 1)
					if th {
						add(2, 1, 3, 2)
						add(3, 1, 3, 1)
						add(2, 2, 2, 1)
						add(2, 1, 2, 3)
					} else {
						add(2, 1, 3, 1)
					}
				}
			}
		}
		return out
	}})
}
