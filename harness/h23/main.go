//go:build go1.22

// h23: burns over failing storage, and loads of damaged vdiscs.
package main

import (
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	"github.com/NVIDIA/vdisc/pkg/vdisc"
	"github.com/NVIDIA/vdisc/zzverif/isox"
	"github.com/NVIDIA/vdisc/zzverif/mc"
	"github.com/NVIDIA/vdisc/zzverif/memst"
)

var zero driver.Driver
var undo driver.Undo

const url = "mem://h/dir/v.vdsc"

func store() *memst.Store {
	s := memst.New()
	if undo != nil {
		undo()
	}
	undo = driver.ClearRegistry()
	driver.Register("mem", s)
	driver.Register("zero", zero)
	return s
}

// manifest adds n files of the variant to a builder.
func manifest(c *mc.Ctx, s *memst.Store, b vdisc.Builder, n int, long int, seed byte) (isox.Tree, error) {
	t := isox.Tree{}
	for i := 0; i < n; i++ {
		u := fmt.Sprintf("mem://h/%d/%s%d", seed, strings.Repeat("u", long), i)
		s.Gen[u] = isox.Obj{N: int64(1000 * (i + 1)), Seed: seed + byte(i)}
		p := fmt.Sprintf("d%d/%s", i, strings.Repeat("n", 1+long*i))
		if err := b.AddFile(p, u, -1); err != nil {
			return nil, err
		}
		t.Add(p, isox.Entry{Kind: 'f', Size: int64(1000 * (i + 1)), Seed: seed + byte(i)})
	}
	return t, nil
}

func check(c *mc.Ctx, what, u string, t isox.Tree) {
	d, err := vdisc.Load(u, caching.NopCache)
	c.Assert(err == nil, "published vdisc does not load", "%s: %v", what, err)
	defer d.Close()
	defer func() {
		if r := recover(); r != nil {
			if c.Failed() {
				panic(r)
			}
			c.Fail("published vdisc unusable", "%s: %v", what, r)
		}
	}()
	same(c, what, d, t)
}

// same asserts that the image is the volume of the tree.
func same(c *mc.Ctx, what string, d vdisc.VDisc, t isox.Tree) {
	meta, err := d.OpenExtent(0)
	c.Assert(err == nil, "wrong volume", "%s: metadata: %v", what, err)
	lay := t.Structure(c, d.Image(), meta.Size())
	c.Assert(lay.Space == d.Image().Size() && d.BlockSize() == 2048 && d.FsType() == "iso9660", "wrong volume", "%s: %d of %d bytes", what, d.Image().Size(), lay.Space)
	for p, e := range t {
		if e.Kind != 'f' {
			continue
		}
		g, w := make([]byte, e.Size), make([]byte, e.Size)
		n, err := d.Image().ReadAt(g, lay.Start[p])
		(&isox.Obj{N: e.Size, Seed: e.Seed}).ReadAt(w, 0)
		c.Assert(int64(n) == e.Size && (err == nil || err == io.EOF) && bytes.Equal(g, w), "wrong volume", "%s: %s: %d bytes, %v", what, p, n, err)
		x, err := d.OpenExtent(iso9660.LogicalBlockAddress(lay.Start[p] / 2048))
		c.Assert(err == nil && x.Size() == e.Size, "wrong volume", "%s: extent of %s: %v", what, p, err)
	}
}

// burn fails one storage operation, or two, at every position.
func burn(counts []int, longs []int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		s := store()
		n := counts[c.Choose(len(counts), "files")]
		long := longs[c.Choose(len(longs), "name length")]
		prev := c.Bool("earlier vdisc")
		var old string
		if prev {
			b := vdisc.NewPosixPortableISO9660Builder(vdisc.BuilderConfig{URL: url})
			_, err := manifest(c, s, b, 1, 3, 100)
			c.Assert(err == nil, "setup", "%v", err)
			_, err = b.Build()
			c.Assert(err == nil, "build failed", "%v", err)
			old = string(s.Data[url])
		}
		b := vdisc.NewPosixPortableISO9660Builder(vdisc.BuilderConfig{URL: url})
		faults, writes := 0, 0
		last := ""
		s.Fault = func(op, key string, m int) (int, error) {
			if n > 9 {
				// How often a large compressed object is written depends on
				// map order; its first two writes are decided.
				if op == "write" && key == url {
					writes++
				}
				if op == "open" || writes > 2 && op == "write" {
					return m, nil
				}
			}
			k := 2
			if op == "write" {
				k = 3
			}
			switch c.Deviate(mc.Fault, k, op) {
			case 1:
				faults++
				last = op + " " + key
				c.Logf("%s %s fails", op, key)
				return 0, errors.New("injected")
			case 2:
				faults++
				last = op + " " + key
				c.Logf("%s %s fails half way", op, key)
				return m / 2, errors.New("injected")
			}
			return m, nil
		}
		t, err := manifest(c, s, b, n, long, 1)
		if err != nil {
			c.Assert(faults > 0, "addition refused", "%v", err)
			c.Outcome("addition failed")
			c.State("add", n, long, prev, last)
			return
		}
		addFaults := faults
		u, err := b.Build()
		s.Fault = nil
		c.State(n, long, prev, s.Dump(), last)
		what := fmt.Sprintf("%d files, failed %q", n, last)
		if err != nil {
			c.Assert(faults > addFaults, "build failed", "%s: %v", what, err)
			got, ok := s.Data[url]
			c.Assert(ok == prev && string(got) == old, "failed burn changed the vdisc", "%s: error %v, vdisc present=%v, %d bytes, before %d", what, err, ok, len(got), len(old))
			c.Outcome("failed: " + strings.Fields(last + " x")[0])
			return
		}
		c.Assert(faults == addFaults, "storage failure not reported", "%s: burn succeeded", what)
		check(c, what, u, t)
		c.Outcome("burned")
	}
}

// images caches burned vdiscs by manifest, as burning is deterministic apart
// from the clock and map order.
type image struct {
	s   *memst.Store
	t   isox.Tree
	raw []byte
}

var images = map[string]*image{}

func burned(c *mc.Ctx, n, long int, plain bool) *image {
	k := fmt.Sprint(n, long, plain)
	if im, ok := images[k]; ok {
		undo()
		undo = driver.ClearRegistry()
		driver.Register("mem", im.s)
		driver.Register("zero", zero)
		return im
	}
	s := store()
	b := vdisc.NewPosixPortableISO9660Builder(vdisc.BuilderConfig{URL: url})
	t, err := manifest(c, s, b, n, long, 1)
	c.Assert(err == nil, "setup", "%v", err)
	_, err = b.Build()
	c.Assert(err == nil, "build failed", "%v", err)
	raw := s.Data[url]
	if plain {
		z, err := gzip.NewReader(bytes.NewReader(raw))
		c.Assert(err == nil, "setup", "%v", err)
		raw, err = io.ReadAll(z)
		c.Assert(err == nil, "setup", "%v", err)
	}
	im := &image{s, t, raw}
	images[k] = im
	return im
}

// damaged loads truncations and corruptions.
func damaged(c *mc.Ctx) {
	n := c.Choose(3, "files")
	long := []int{0, 40}[c.Choose(2, "name length")]
	plain := c.Bool("uncompressed")
	im := burned(c, n, long, plain)
	kinds := 4
	if plain {
		kinds = 2 // without compression there is no checksum
	}
	kind := c.Choose(kinds, "damage")
	data := append([]byte(nil), im.raw...)
	what := fmt.Sprintf("%d files, uncompressed=%v", n, plain)
	switch kind {
	case 0:
		what += ", undamaged"
	case 1:
		l := c.Choose(len(data), "truncated to")
		data = data[:l]
		what += fmt.Sprintf(", truncated to %d of %d", l, len(im.raw))
	case 2:
		i := c.Choose(len(data), "byte")
		x := []byte{0x01, 0x80, 0xff, 0x10}[c.Choose(4, "flip")]
		data[i] ^= x
		what += fmt.Sprintf(", byte %d of %d flipped by %x", i, len(im.raw), x)
	case 3:
		i := c.Choose(len(data), "byte")
		data = append(data[:i], data[i+1:]...)
		what += fmt.Sprintf(", byte %d of %d removed", i, len(im.raw))
	}
	im.s.Data[url] = data
	d, err := vdisc.Load(url, caching.NopCache)
	im.s.Data[url] = im.raw
	c.State(what)
	if err != nil {
		c.Assert(kind != 0, "load failed", "%s: %v", what, err)
		c.Outcome("refused")
		return
	}
	defer d.Close()
	c.Assert(kind != 1, "truncated vdisc loaded", "%s", what)
	same(c, what, d, im.t)
	c.Outcome("loaded")
}

// other loads files that are not vdiscs.
func other(c *mc.Ctx) {
	s := store()
	var z bytes.Buffer
	w := gzip.NewWriter(&z)
	fills := []string{"", "\x00", "hello", "\x1f\x8b\x08\x00", "\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff", strings.Repeat("\x00", 8), strings.Repeat("\x00", 16), strings.Repeat("\xff", 64),
		strings.Repeat("a", 5000), "\x00\x00\x00\x00\x01\x00\x00\x00" + strings.Repeat("\x00", 8), "\x00\x00\x00\x00\x01\x00\x00\x00" + strings.Repeat("\xff", 8), strings.Repeat("\x00", 4096), "CD001"}
	d := fills[c.Choose(len(fills), "contents")]
	if c.Bool("compressed") {
		io.WriteString(w, d)
		w.Close()
		s.Data[url] = z.Bytes()
	} else {
		s.Data[url] = []byte(d)
	}
	v, err := vdisc.Load(url, caching.NopCache)
	c.State(s.Data[url])
	if err == nil {
		defer v.Close()

		c.Fail("junk loaded as a vdisc", "%q: image of %d bytes", d, v.Image().Size())
		c.Outcome("empty")
		return
	}
	c.Outcome("refused")
}

func main() {
	var err error
	if zero, err = driver.Find("zero:1"); err != nil {
		panic(err)
	}
	mc.Main(mc.Def{Scenarios: func(tier string) []mc.Scenario {
		var b [3]int
		b[mc.Fault] = 1
		if tier == "thorough" {
			b[mc.Fault] = 2
		}
		return []mc.Scenario{
			{Name: "failing-burn", Run: burn([]int{0, 1, 2}, []int{0, 60}), Budget: b},
			{Name: "failing-large-burn", Run: burn([]int{700}, []int{0}), Budget: b},
			{Name: "damaged", Run: damaged},
			{Name: "not-a-vdisc", Run: other},
		}
	}})
}
