//go:build go1.22

// h27: SCSI commands given to the handler of an opened block device.
package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"strings"
	"unsafe"

	"github.com/google/uuid"
	"github.com/tnarg/go-tcmu"

	"github.com/NVIDIA/vdisc/pkg/blockdev"
	"github.com/NVIDIA/vdisc/zzverif/mc"
	"github.com/NVIDIA/vdisc/zzverif/vs"
	_ "github.com/NVIDIA/vdisc/zzverif/xkmod"
	xtcmu "github.com/NVIDIA/vdisc/zzverif/xtcmu"
)

var errImage = errors.New("injected image error")

// image is an object whose bytes follow from their position.
type image struct {
	size   int64
	fault  bool
	failed bool // a read failed
	atEnd  bool // full reads up to the end report it
	pos    int64
}

func at(i int64) byte { return byte(i*7 + i>>8*3 + i>>16*11 + 1) }

func (m *image) ReadAt(p []byte, off int64) (n int, err error) {
	if off < 0 {
		vs.Step("image", func() { m.failed = true })
		return 0, errors.New("negative offset")
	}
	for n < len(p) && off+int64(n) < m.size {
		p[n] = at(off + int64(n))
		n++
	}
	if n < len(p) {
		return n, io.EOF
	}
	if m.fault && len(p) > 0 {
		k := 0
		vs.Step("image", func() {
			k = vs.Fault(4, "image read")
			m.failed = m.failed || k > 0
		})
		switch k {
		case 1:
			return 0, errImage
		case 2:
			return n / 2, errImage
		case 3:
			return n - 1, io.EOF
		}
	}
	if m.atEnd && off+int64(n) == m.size {
		return n, io.EOF
	}
	return n, nil
}

func (m *image) Read(p []byte) (int, error) {
	n, err := m.ReadAt(p, m.pos)
	m.pos += int64(n)
	return n, err
}

func (m *image) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += m.pos
	case io.SeekEnd:
		off += m.size
	}
	m.pos = off
	return off, nil
}

func (m *image) Close() error { return nil }

func (m *image) Size() int64 { return m.size }

func set(x interface{}, field string, v interface{}) {
	f := reflect.ValueOf(x).Elem().FieldByName(field)
	reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(v))
}

func command(id uint16, cdb []byte, vecs [][]byte) *tcmu.SCSICmd {
	dev := &tcmu.Device{}
	set(dev, "scsi", xtcmu.Opened)
	cmd := &tcmu.SCSICmd{}
	set(cmd, "id", id)
	set(cmd, "cdb", cdb)
	set(cmd, "vecs", vecs)
	set(cmd, "device", dev)
	return cmd
}

type answer struct {
	id     uint16
	status byte
	sense  []byte
}

func response(r tcmu.SCSIResponse) answer {
	v := reflect.ValueOf(r)
	return answer{uint16(v.FieldByName("id").Uint()), byte(v.FieldByName("status").Uint()), v.FieldByName("senseBuffer").Bytes()}
}

func cdbLen(op byte) int {
	switch {
	case op <= 0x1f:
		return 6
	case op <= 0x5f:
		return 10
	case op >= 0x80 && op <= 0x9f:
		return 16
	case op >= 0xa0 && op <= 0xbf:
		return 12
	}
	return 0
}

var volume = uuid.MustParse("01234567-89ab-cdef-0123-456789abcdef")

const (
	xferMin = 3
	xferMax = 1 << 24
	xferOpt = 5
)

// issue opens a device over the image and gives it the commands in order.
func issue(c *mc.Ctx, m *image, bs int64, cdbs [][]byte, vecs [][][]byte) []answer {
	var out []answer
	res := vs.Run(c, vs.Options{NoStates: true, Delays: true}, func() {
		mgr, err := blockdev.NewTCMUBlockDeviceManager(blockdev.TCMUConfig{
			Workers: 1, WorkerBufferSize: 4096, DeviceNamespace: "verif",
			BlockXferMin: xferMin, BlockXferMax: xferMax, BlockXferOpt: xferOpt,
		})
		if err != nil {
			panic(err)
		}
		xtcmu.Opened = nil
		mgr.Open(m, volume, bs) // fails, there being no such device file
		if xtcmu.Opened == nil {
			panic("no device opened")
		}
		in := make(chan *tcmu.SCSICmd, 5)
		ans := make(chan tcmu.SCSIResponse, 5)
		if err := xtcmu.Opened.DevReady(in, ans); err != nil {
			vs.Fail("device not ready", "%v", err)
		}
		for i := range cdbs {
			vs.SendTo((chan<- *tcmu.SCSICmd)(in))(command(uint16(i+7), cdbs[i], vecs[i]))
			r := vs.Recv((<-chan tcmu.SCSIResponse)(ans))
			a := response(r)
			if a.id != uint16(i+7) {
				vs.Fail("response to another command", "command %d: %d", i+7, a.id)
			}
			out = append(out, a)
		}
		vs.Close((chan<- *tcmu.SCSICmd)(in))
		mgr.Close()
	})
	c.Assert(len(res.Leaked) == 0, "goroutines left behind", "%s", strings.Join(res.Leaked, "; "))
	return out
}

// split makes a buffer of n bytes in one of several layouts.
func split(n, bs, how int) [][]byte {
	b := bytes.Repeat([]byte{0xee}, n)
	switch how {
	case 1: // within a block
		k := n / 3
		return [][]byte{b[:k:k], b[k:]}
	case 2: // one for each block
		var out [][]byte
		for len(b) > bs {
			out = append(out, b[:bs:bs])
			b = b[bs:]
		}
		return append(out, b)
	case 3: // with an empty one
		k := n - n/4
		return [][]byte{b[:k:k], {}, b[k:]}
	}
	return [][]byte{b}
}

func join(v [][]byte) []byte { return bytes.Join(v, nil) }

const (
	read6  = 0x08
	read10 = 0x28
	read12 = 0xa8
	read16 = 0x88
)

type rd struct {
	op  byte
	lba uint64
	n   uint64
}

func (r rd) cdb() []byte {
	b := make([]byte, cdbLen(r.op))
	b[0] = r.op
	be := binary.BigEndian
	switch r.op {
	case read6:
		b[1], b[2], b[3], b[4] = byte(r.lba>>16), byte(r.lba>>8), byte(r.lba), byte(r.n)
	case read10:
		be.PutUint32(b[2:], uint32(r.lba))
		be.PutUint16(b[7:], uint16(r.n))
	case read12:
		be.PutUint32(b[2:], uint32(r.lba))
		be.PutUint32(b[6:], uint32(r.n))
	case read16:
		be.PutUint64(b[2:], r.lba)
		be.PutUint32(b[10:], uint32(r.n))
	}
	return b
}

// reads lists the reads worth making of a device of the given size.
func reads(blocks, bs uint64) []rd {
	lbas := []uint64{}
	ns := []uint64{}
	for i := uint64(0); i <= 5; i++ {
		lbas = append(lbas, i)
		ns = append(ns, i)
	}
	for _, x := range []uint64{blocks - 1, blocks, blocks + 1, 255, 256, 257, 1 << 16, 1<<16 + 1, 1<<20 + 1, 1 << 21, 1<<32/bs + 1, 1<<32 - 1,
		1 << 32, 1<<32 + 1, 1<<63/bs - 1, 1<<63/bs + 1, 1<<63/bs*2 + 1, 1 << 53, 1<<53 + 1, 1<<62 + 1, 1 << 63, 1<<64 - 1, 1<<64 - 2} {
		lbas = append(lbas, x)
	}
	for _, x := range []uint64{255, 256, 257, 1<<16 - 1, 1<<32/bs - 1, 1 << 32 / bs, 1<<32/bs + 1, 1<<31 + 1, 1<<32 - 1} {
		ns = append(ns, x)
	}
	var out []rd
	seen := map[rd]bool{}
	for _, op := range []byte{read6, read10, read12, read16} {
		for _, l := range lbas {
			for _, n := range ns {
				ok := false
				switch op {
				case read6:
					ok = l < 1<<21 && n < 1<<8
				case read10:
					ok = l < 1<<32 && n < 1<<16
				case read12:
					ok = l < 1<<32 && n < 1<<32
				case read16:
					ok = n < 1<<32
				}
				r := rd{op, l, n}
				if ok && !seen[r] {
					seen[r] = true
					out = append(out, r)
				}
			}
		}
	}
	return out
}

// checkRead compares the answer to a read with the image.
func checkRead(c *mc.Ctx, m *image, bs int64, r rd, a answer, vecs [][]byte) {
	n := r.n
	if r.op == read6 && n == 0 {
		n = 256
	}
	blocks := uint64(m.size / bs)
	fits := r.lba <= blocks && n <= blocks-r.lba
	got := join(vecs)
	what := fmt.Sprintf("read %#x of %d blocks at %d of %d", r.op, r.n, r.lba, blocks)
	if a.status != 0 {
		c.Assert(a.status == 2 && len(a.sense) > 2 && a.sense[2]&0xf != 0, "failure without sense data", "%s: %+v", what, a)
		full := uint64(len(got)) == n*uint64(bs)
		ok := m.failed || !fits || r.op == read6 || m.atEnd || !full
		c.Assert(ok, "good read refused", "%s: %+v", what, a)
		c.Outcome("refused")
		return
	}
	if n == 0 {
		c.Outcome("empty read")
		return
	}
	c.Assert(fits, "read beyond the end succeeds", "%s", what)
	c.Assert(!m.failed, "failed image read not reported", "%s", what)
	for i, b := range got {
		if uint64(i) >= n*uint64(bs) {
			break
		}
		if b != at(int64(r.lba)*bs+int64(i)) {
			c.Fail("wrong bytes", "%s: byte %d", what, i)
		}
	}
	c.Outcome("read")
}

// buffer is the initiator's buffer for a transfer, cut where it gets large.
func buffer(n uint64, bs int64, how int) [][]byte {
	if n > 260 {
		n = 2
	}
	return split(int(n)*int(bs), int(bs), how)
}

func single(blocks, bs int64, faults bool) func(*mc.Ctx) {
	all := reads(uint64(blocks), uint64(bs))
	if faults {
		var in []rd
		for _, r := range all {
			if r.lba <= uint64(blocks) && r.n <= 5 {
				in = append(in, r)
			}
		}
		all = in
	}
	return func(c *mc.Ctx) {
		r := all[c.Choose(len(all), "read")]
		n := r.n
		if r.op == read6 && n == 0 {
			n = 256
		}
		m := &image{size: blocks * bs, fault: faults}
		hows := 4
		if blocks > 1000 {
			hows = 1
		}
		vecs := buffer(n, bs, c.Choose(hows, "buffers"))
		if n == 0 {
			vecs = nil
		}
		m.atEnd = blocks < 1000 && c.Bool("end reported early")
		c.Logf("%+v", r)
		c.State(fmt.Sprint(r, len(vecs), m.atEnd))
		a := issue(c, m, bs, [][]byte{r.cdb()}, [][][]byte{vecs})
		checkRead(c, m, bs, r, a[0], vecs)
	}
}

// sequence gives a device several reads, of which one may fail.
func sequence(blocks, bs int64, count int) func(*mc.Ctx) {
	all := []rd{{read10, 0, 1}, {read10, 1, 2}, {read16, 0, 3}, {read12, 2, 1}, {read10, 2, 2}, {read6, 1, 1}, {read16, 1 << 63, 1}}
	return func(c *mc.Ctx) {
		m := &image{size: blocks * bs, fault: true}
		var rs []rd
		var cdbs [][]byte
		var vecs [][][]byte
		for i := 0; i < count; i++ {
			r := all[c.Choose(len(all), "read")]
			rs, cdbs, vecs = append(rs, r), append(cdbs, r.cdb()), append(vecs, buffer(r.n, bs, 2))
		}
		as := issue(c, m, bs, cdbs, vecs)
		c.State(fmt.Sprint(rs))
		failed := 0
		for i, r := range rs {
			n := &image{size: m.size}
			if m.failed && as[i].status != 0 && r.op != read6 && r.lba+r.n <= uint64(blocks) && r.lba < 1<<32 {
				failed++
				n.failed = true
			}
			checkRead(c, n, bs, r, as[i], vecs[i])
		}
		if m.failed {
			c.Assert(failed == 1, "failed image read not reported once", "%v: %v", rs, as)
		}
	}
}

const (
	testUnitReady = 0x00
	inquiry       = 0x12
	modeSense6    = 0x1a
	modeSense10   = 0x5a
	modeSelect6   = 0x15
	modeSelect10  = 0x55
	serviceIn16   = 0x9e
)

// other gives every other command with a buffer of the length it asks for.
func other(blocks, bs int64) func(*mc.Ctx) {
	var ops []byte
	for op := 0; op < 256; op++ {
		switch byte(op) {
		case read6, read10, read12, read16:
		default:
			if cdbLen(byte(op)) > 0 {
				ops = append(ops, byte(op))
			}
		}
	}
	ones := []byte{0, 1, 0x08, 0x10, 0x11, 0x12}
	twos := []byte{0, 0x08, 0x3f, 0x80, 0x83, 0xb0, 0xb1, 0xff}
	lens := []int{0, 1, 4, 7, 8, 11, 12, 16, 20, 24, 28, 32, 35, 36, 37, 64, 96, 255, 512, 1024}
	return func(c *mc.Ctx) {
		op := ops[c.Choose(len(ops), "opcode")]
		cdb := make([]byte, cdbLen(op))
		cdb[0] = op
		cdb[1] = ones[c.Choose(len(ones), "byte 1")]
		cdb[2] = twos[c.Choose(len(twos), "byte 2")]
		n := lens[c.Choose(len(lens), "length")]
		how := c.Choose(2, "buffers")
		switch len(cdb) {
		case 6:
			if n > 255 && op != inquiry {
				return
			}
			cdb[3], cdb[4] = byte(n>>8), byte(n)
		case 10:
			binary.BigEndian.PutUint16(cdb[7:], uint16(n))
		case 12:
			binary.BigEndian.PutUint32(cdb[6:], uint32(n))
		case 16:
			binary.BigEndian.PutUint32(cdb[10:], uint32(n))
		}
		m := &image{size: blocks * bs}
		vecs := split(n, int(bs), how)
		if n == 0 {
			vecs = nil
		}
		if op == modeSelect6 || op == modeSelect10 {
			// The initiator sends a caching page back.
			b := make([]byte, n)
			h := 4
			if op == modeSelect10 {
				h = 8
			}
			if len(b) > h+1 {
				b[h], b[h+1] = 0x08, 0x12
			}
			if n > 0 {
				vecs = [][]byte{b}
			}
		}
		c.Logf("%x", cdb)
		c.State(fmt.Sprintf("%x %d", cdb, how))
		a := issue(c, m, bs, [][]byte{cdb}, [][][]byte{vecs})[0]
		got := join(vecs)
		good := a.status == 0
		if !good {
			c.Assert(a.status == 2 && len(a.sense) > 2 && a.sense[2]&0xf != 0, "failure without sense data", "%x: %+v", cdb, a)
		}
		// want compares what the buffer has room for.
		want := func(off int, b []byte) {
			for i := range b {
				if off+i < len(got) && got[off+i] != b[i] {
					c.Fail("wrong answer", "%x: %x at %d, want %x", cdb, got, off, b)
				}
			}
		}
		be := binary.BigEndian
		switch {
		case op == testUnitReady:
			c.Assert(good, "ready device refuses", "%+v", a)
		case op == inquiry && cdb[1]&1 == 0:
			c.Assert(good == (cdb[2] == 0), "inquiry", "%x: %+v", cdb, a)
			if good {
				want(0, []byte{0})
				want(4, []byte{31})
				want(8, []byte("NVIDIA  VDISC           0001"))
			}
		case op == inquiry:
			known := cdb[2] == 0 || cdb[2] == 0x83 || cdb[2] == 0xb0
			c.Assert(good == known, "inquiry", "%x: %+v", cdb, a)
			if good {
				want(0, []byte{0, cdb[2]})
			}
			if good && cdb[2] == 0xb0 {
				b := make([]byte, 10)
				be.PutUint16(b, xferMin)
				be.PutUint32(b[2:], xferMax)
				be.PutUint32(b[6:], xferOpt)
				want(6, b)
			}
			if good && cdb[2] == 0x83 && n >= 255 {
				c.Assert(bytes.Contains(got, []byte(volume.String())), "device identification", "%q", got)
			}
		case op == serviceIn16 && cdb[1] == 0x10:
			c.Assert(good, "capacity refused", "%+v", a)
			b := make([]byte, 12)
			be.PutUint64(b, uint64(blocks-1))
			be.PutUint32(b[8:], uint32(bs))
			want(0, b)
		case op == modeSense6 || op == modeSense10:
			c.Assert(good, "mode sense refused", "%x: %+v", cdb, a)
		case op == modeSelect6 || op == modeSelect10:
		default:
			c.Assert(!good, "unsupported command succeeds", "%x", cdb)
			c.Assert(bytes.Count(got, []byte{0xee}) == len(got), "refused command leaves data", "%x: %x", cdb, got)
		}
		c.Outcome(fmt.Sprintf("%#x %v", op, good))
	}
}

func main() {
	os.Setenv("PATH", "/nonexistent")
	mc.Main(mc.Def{Scenarios: func(tier string) []mc.Scenario {
		x := 0
		if tier == "thorough" {
			x = 1
		}
		fault := [3]int{0, 1 + x, 0}
		return []mc.Scenario{
			{Name: "read of 3 blocks", Run: single(3, 2048, false), NoPrune: true},
			{Name: "read of 1 small block", Run: single(1, 512, false), NoPrune: true},
			{Name: "read of 300 blocks", Run: single(300, 512, false), NoPrune: true},
			{Name: "read of a large device", Run: single(1<<33/2048+3, 2048, false), NoPrune: true},
			{Name: "failing reads", Run: single(4, 2048, true), Budget: fault, NoPrune: true},
			{Name: "sequence", Run: sequence(3, 512, 3+x), Budget: [3]int{0, 1, 0}, NoPrune: true},
			{Name: "other commands", Run: other(5, 2048), NoPrune: true},
			{Name: "other commands, large device", Run: other(1<<40/512, 512), NoPrune: true},
		}
	}})
}
