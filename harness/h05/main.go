//go:build go1.22

// h05: volumes read back by a reader that shares nothing with the writer, and
// every metadata structure decoded from its own encoding.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"reflect"
	"strings"
	"time"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/iso9660/rrip"
	"github.com/NVIDIA/vdisc/pkg/iso9660/susp"
	"github.com/NVIDIA/vdisc/zzverif/isox"
	"github.com/NVIDIA/vdisc/zzverif/mc"
)

func finish(c *mc.Ctx, v *iso9660.Volume, t isox.Tree) {
	im, err := isox.NewImage(v)
	c.Assert(err == nil, "serialization failed", "tree %s: %v", t.Canon(), err)
	c.State(t.Canon())
	t.Structure(c, im, int64(len(im.Meta)))
}

type failWriter struct {
	left int64
	n    int64
}

func (w *failWriter) Write(p []byte) (int, error) {
	if w.left < int64(len(p)) {
		n := w.left
		w.left = 0
		w.n += n
		return int(n), io.ErrShortWrite
	}
	w.left -= int64(len(p))
	w.n += int64(len(p))
	return len(p), nil
}

type badObj struct {
	isox.Obj
	limit int64
}

func (o *badObj) ReadAt(p []byte, off int64) (int, error) {
	if off+int64(len(p)) > o.limit {
		return 0, io.ErrUnexpectedEOF
	}
	return o.Obj.ReadAt(p, off)
}

func (o *badObj) Read(p []byte) (int, error) { return 0, io.ErrUnexpectedEOF }

// whole writes complete volumes, structure and contents in one stream, also to
// writers that fail and from objects that cannot be read.
func whole(c *mc.Ctx) {
	ss := []int64{0, 1, 2048, 2049}
	build := func(bad int) (*iso9660.Volume, isox.Tree) {
		v := iso9660.NewPosixPortableVolume()
		t := isox.Tree{}
		isox.Apply(c, v, t, isox.Addition{Path: "l", Kind: 'l', Target: "d/e"}, 9)
		return v, t
	}
	v, t := build(-1)
	n := c.Choose(4, "files")
	paths := []string{"a", "d/b", "d/e/c"}
	var sz []int64
	for i := 0; i < n; i++ {
		sz = append(sz, ss[c.Choose(len(ss), "size")])
		isox.Apply(c, v, t, isox.Addition{Path: paths[i], Kind: 'f', Size: sz[i]}, byte(i+1))
	}
	var b bytes.Buffer
	m, err := v.WriteTo(&b)
	c.Assert(err == nil && m == int64(b.Len()), "serialization failed", "tree %s: %d bytes of %d, err %v", t.Canon(), m, b.Len(), err)
	meta := int64(b.Len())
	v.VisitFileInodes(func(f *iso9660.FileInode) error {
		if s := int64(f.Start()) * 2048; s < meta {
			meta = s
		}
		return nil
	})
	t.Structure(c, bytes.NewReader(b.Bytes()), meta)
	space := int64(binary.LittleEndian.Uint32(b.Bytes()[16*2048+80:])) * 2048
	c.Assert(space == int64(b.Len()), "volume shorter or longer than declared", "tree %s: %d bytes, declared %d", t.Canon(), b.Len(), space)
	c.State(t.Canon())
	// A writer that fails after any sector, or inside one.
	cut := int64(c.Choose(b.Len()/2048*2, "failing write"))
	w := &failWriter{left: cut*1024 + cut%3}
	lim := w.left
	if lim >= int64(b.Len()) {
		return
	}
	_, err = v.WriteTo(w)
	c.Assert(err != nil, "failed write not reported", "tree %s: writer failed after %d of %d bytes, no error", t.Canon(), lim, b.Len())
	c.Outcome("written")
}

// unreadable has one file whose contents cannot be read.
func unreadable(c *mc.Ctx) {
	v := iso9660.NewPosixPortableVolume()
	paths := []string{"a", "d/b", "d/e/c"}
	n := c.Choose(3, "files") + 1
	bad := c.Choose(n, "unreadable")
	for i := 0; i < n; i++ {
		o := isox.Obj{U: "mem:" + paths[i], N: 3000, Seed: byte(i)}
		var err error
		if i == bad {
			err = v.AddFile(paths[i], &badObj{o, 0})
		} else {
			err = v.AddFile(paths[i], &o)
		}
		c.Assert(err == nil, "addition refused", "%v", err)
	}
	_, err := v.WriteTo(io.Discard)
	c.State(n, bad)
	c.Assert(err != nil, "failed read not reported", "file %d of %d cannot be read, no error", bad, n)
}

var nums = []uint32{0, 1, 0xff, 0x100, 0x01020304, 0x7fffffff, 0x80000000, 0xffffffff}
var times = []time.Time{
	time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2000, 2, 29, 23, 59, 59, 0, time.UTC), time.Date(2155, 12, 31, 1, 2, 3, 0, time.UTC),
	time.Date(1999, 12, 31, 23, 30, 0, 0, time.FixedZone("x", -5*3600)), time.Date(2026, 10, 9, 8, 7, 6, 999999999, time.UTC),
}

func entries(c *mc.Ctx) []susp.SystemUseEntry {
	tm := func(i int) *time.Time { return &times[i] }
	switch c.Choose(9, "entry") {
	case 0:
		return nil
	case 1:
		return []susp.SystemUseEntry{susp.NewSharingProtocolEntry(byte(c.Choose(2, "skip") * 7))}
	case 2:
		return []susp.SystemUseEntry{susp.NewContinuationAreaEntry(nums[c.Choose(len(nums), "start")], nums[c.Choose(len(nums), "offset")], nums[c.Choose(len(nums), "length")])}
	case 3:
		return []susp.SystemUseEntry{susp.NewTerminatorEntry()}
	case 4:
		l := []int{0, 1, 40}
		e, err := susp.NewExtensionsReferenceEntry(byte(c.Choose(2, "version")), strings.Repeat("i", l[c.Choose(3, "id")]), strings.Repeat("d", l[c.Choose(3, "description")]), strings.Repeat("s", l[c.Choose(3, "source")]))
		c.Assert(err == nil, "entry refused", "%v", err)
		return []susp.SystemUseEntry{e}
	case 5:
		es, err := rrip.NewName(strings.Repeat("n", c.Choose(180, "name")+1))
		c.Assert(err == nil, "entry refused", "%v", err)
		return es
	case 6:
		return []susp.SystemUseEntry{&rrip.PosixEntry{Mode: os.FileMode(nums[c.Choose(len(nums), "mode")]), Nlink: nums[c.Choose(len(nums), "links")], Uid: nums[c.Choose(3, "uid")], Gid: nums[c.Choose(3, "gid")+3], Ino: nums[c.Choose(len(nums), "ino")]}}
	case 7:
		es, err := rrip.NewSymlink([]string{"a", ".", "..", "/", "/a", "a/b/..c", "../x", strings.Repeat("s", 100)}[c.Choose(8, "target")])
		c.Assert(err == nil, "entry refused", "%v", err)
		return es
	default:
		t := &rrip.Timestamps{LongForm: c.Bool("long form")}
		bits := c.Choose(128, "stamps")
		k := 0
		for i, p := range []**time.Time{&t.Created, &t.Modified, &t.Access, &t.Attributes, &t.Backup, &t.Expiration, &t.Effective} {
			if bits>>i&1 == 1 {
				*p = tm((i + bits) % len(times))
				k++
			}
		}
		return []susp.SystemUseEntry{t}
	}
}

// sameTime compares what the encoding can hold: seconds in UTC.
func sameTime(a, b time.Time) bool {
	return a.Truncate(time.Second).Equal(b.Truncate(time.Second))
}

func sameEntry(a, b susp.SystemUseEntry) bool {
	ta, ok := a.(*rrip.Timestamps)
	if !ok {
		return reflect.DeepEqual(a, b)
	}
	tb, ok := b.(*rrip.Timestamps)
	if !ok || ta.LongForm != tb.LongForm {
		return false
	}
	x := []*time.Time{ta.Created, ta.Modified, ta.Access, ta.Attributes, ta.Backup, ta.Expiration, ta.Effective}
	y := []*time.Time{tb.Created, tb.Modified, tb.Access, tb.Attributes, tb.Backup, tb.Expiration, tb.Effective}
	for i := range x {
		if (x[i] == nil) != (y[i] == nil) || x[i] != nil && !sameTime(*x[i], *y[i]) {
			return false
		}
	}
	return true
}

func codecEntries(c *mc.Ctx) {
	var es []susp.SystemUseEntry
	es = append(es, entries(c)...)
	if c.Bool("second") {
		es = append(es, &rrip.PosixEntry{Mode: 0100444, Nlink: 1, Ino: 9})
	}
	var b bytes.Buffer
	for _, e := range es {
		at := b.Len()
		n, err := e.WriteTo(&b)
		c.Assert(err == nil && int(n) == e.Len() && b.Len()-at == e.Len(), "entry length wrong", "%T: wrote %d, reports %d, length %d, err %v", e, b.Len()-at, n, e.Len(), err)
		c.Step()
	}
	got, err := iso9660.DecodeSystemUseEntries(bytes.NewReader(b.Bytes()))
	c.Assert(err == nil && len(got) == len(es), "entries do not decode", "%d of %d entries, err %v", len(got), len(es), err)
	for i := range es {
		c.Assert(sameEntry(es[i], got[i]), "entry changed by encoding", "%T: %+v became %+v", es[i], es[i], got[i])
	}
	c.StateHash(mc.Hash(b.String()))
	c.Outcome(fmt.Sprintf("%d entries", len(es)))
}

func codecRecord(c *mc.Ctx) {
	id := []string{"\x00", "\x01", "A", "AB", "ABC;1", strings.Repeat("Z", 29), strings.Repeat("Z", 30)}[c.Choose(7, "identifier")]
	r := iso9660.DirectoryRecord{
		Identifier: id, Start: iso9660.LogicalBlockAddress(nums[c.Choose(len(nums), "start")]), Length: nums[c.Choose(len(nums), "length")],
		Flags: iso9660.FileFlag([]byte{0, 2, 0x80, 0x82}[c.Choose(4, "flags")]), Recorded: times[c.Choose(len(times), "time")],
		ExtendedAttrRecordLength: []byte{0, 255}[c.Choose(2, "xattr")], FileUnitSize: []byte{0, 3}[c.Choose(2, "unit")], InterleaveGap: []byte{0, 7}[c.Choose(2, "gap")],
		VolumeID: []uint16{1, 0x0102}[c.Choose(2, "volume")],
	}
	if c.Bool("system use") {
		r.SystemUse = []susp.SystemUseEntry{&rrip.PosixEntry{Mode: 0100444, Nlink: 1, Ino: 9}}
	}
	var b bytes.Buffer
	n, err := r.WriteTo(&b)
	c.Assert(err == nil && int(n) == b.Len() && r.Len() == b.Len() && int(b.Bytes()[0]) == b.Len(), "record length wrong", "%+v: wrote %d, reports %d, length %d, err %v", r, b.Len(), n, r.Len(), err)
	var g iso9660.DirectoryRecord
	err = iso9660.DecodeDirectoryRecord(bytes.NewReader(b.Bytes()[1:]), &g)
	c.Assert(err == nil, "record does not decode", "%+v: %v", r, err)
	ok := sameTime(g.Recorded, r.Recorded)
	want := r
	want.Recorded = g.Recorded
	c.Assert(ok && reflect.DeepEqual(g, want), "record changed by encoding", "%+v became %+v", r, g)
	c.StateHash(mc.Hash(b.String()))
	c.Step()
}

func codecPVD(c *mc.Ctx) {
	str := func(max int, l string) string {
		n := []int{0, 1, max - 1, max}[c.Choose(4, l)]
		return strings.Repeat("A1_", max)[:n]
	}
	num := func(l string) uint32 { return nums[c.Choose(len(nums), l)] }
	p := iso9660.PrimaryVolumeDescriptor{VolumeSetSize: 1, VolumeSequenceNumber: 1, RootModified: times[0], Created: times[0], Modified: times[1], Effective: times[2]}
	switch c.Choose(14, "field") {
	case 0:
		p.SystemIdentifier, p.VolumeIdentifier = str(32, "length"), str(32, "length")
	case 1:
		p.VolumeSetIdentifier, p.PublisherIdentifier = str(128, "length"), str(128, "length")
	case 2:
		p.DataPreparerIdentifier, p.ApplicationIdentifier = str(128, "length"), str(128, "length")
	case 3:
		p.CopyrightFileIdentifier, p.AbstractFileIdentifier, p.BibliographicFileIdentifier = str(38, "length"), str(36, "length"), str(37, "length")
	case 4:
		p.VolumeSpaceSize, p.PathTableSize = num("n"), num("n")
	case 5:
		p.VolumeSetSize, p.VolumeSequenceNumber = uint16(num("n")), uint16(num("n"))
	case 6:
		p.LTableStart, p.OptionalLTableStart = iso9660.LogicalBlockAddress(num("n")), iso9660.LogicalBlockAddress(num("n"))
	case 7:
		p.MTableStart, p.OptionalMTableStart = iso9660.LogicalBlockAddress(num("n")), iso9660.LogicalBlockAddress(num("n"))
	case 8:
		p.RootStart, p.RootLength = iso9660.LogicalBlockAddress(num("n")), num("n")
	case 9:
		p.RootModified, p.Created = times[c.Choose(len(times), "t")], times[c.Choose(len(times), "t")]
	case 10:
		p.Modified, p.Effective = times[c.Choose(len(times), "t")], times[c.Choose(len(times), "t")]
	default:
		p.VolumeIdentifier, p.VolumeSpaceSize, p.RootStart, p.Created = str(32, "length"), num("n"), iso9660.LogicalBlockAddress(num("n")), times[c.Choose(len(times), "t")]
	}
	var b bytes.Buffer
	n, err := p.WriteTo(&b)
	c.Assert(err == nil && n == 2048 && b.Len() == 2048, "descriptor length wrong", "%d, %d, err %v", n, b.Len(), err)
	var g iso9660.PrimaryVolumeDescriptor
	err = iso9660.DecodePrimaryVolumeDescriptor(bytes.NewReader(b.Bytes()), &g)
	c.Assert(err == nil, "descriptor does not decode", "%+v: %v", p, err)
	c.Assert(sameTime(g.RootModified, p.RootModified) && sameTime(g.Created, p.Created) && sameTime(g.Modified, p.Modified) && sameTime(g.Effective, p.Effective), "descriptor time changed by encoding", "%+v became %+v", p, g)
	p.RootModified, p.Created, p.Modified, p.Effective = g.RootModified, g.Created, g.Modified, g.Effective
	c.Assert(reflect.DeepEqual(p, g), "descriptor changed by encoding", "%+v became %+v", p, g)
	c.StateHash(mc.Hash(b.String()))
	c.Step()
}

// codecDirectory packs records of chosen sizes into a directory.
func codecDirectory(c *mc.Ctx) {
	var d iso9660.Directory
	n := c.Choose(24, "records") + 1
	base := c.Choose(180, "name length") + 1
	step := c.Choose(3, "growth")
	for i := 0; i < n; i++ {
		l := base + i*step
		if l > 180 {
			l = 180
		}
		es, err := rrip.NewName(strings.Repeat("n", l))
		c.Assert(err == nil, "entry refused", "%v", err)
		d.Records = append(d.Records, iso9660.DirectoryRecord{Identifier: fmt.Sprintf("R%d", i), Start: 7, Length: uint32(i), Recorded: times[0], VolumeID: 1, SystemUse: es})
	}
	var b bytes.Buffer
	m, err := d.WriteTo(&b)
	c.Assert(err == nil && m == int64(b.Len()), "directory not written", "%d, %d, err %v", m, b.Len(), err)
	c.Assert(d.Size() == (int64(b.Len())+2047)/2048*2048, "directory size wrong", "%d for %d bytes", d.Size(), b.Len())
	for b.Len()%2048 != 0 {
		b.WriteByte(0)
	}
	var g iso9660.Directory
	err = iso9660.DecodeDirectory(bytes.NewReader(b.Bytes()), &g)
	c.Assert(err == nil && len(g.Records) == n, "directory does not decode", "%d of %d records, err %v", len(g.Records), n, err)
	for i := range g.Records {
		w := d.Records[i]
		w.Recorded = g.Records[i].Recorded
		c.Assert(reflect.DeepEqual(w, g.Records[i]), "record changed by encoding", "record %d", i)
		c.Step()
	}
	c.State(n, base, step)
}

func main() {
	mc.Main(mc.Def{Scenarios: func(tier string) []mc.Scenario {
		return append(isox.Spaces(tier, finish),
			mc.Scenario{Name: "whole-volume", Run: whole},
			mc.Scenario{Name: "unreadable-file", Run: unreadable},
			mc.Scenario{Name: "codec-entries", Run: codecEntries},
			mc.Scenario{Name: "codec-record", Run: codecRecord},
			mc.Scenario{Name: "codec-descriptor", Run: codecPVD},
			mc.Scenario{Name: "codec-directory", Run: codecDirectory},
		)
	}})
}
