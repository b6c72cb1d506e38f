//go:build go1.22

// Package isox holds what the ISO 9660 harnesses share: objects, volume
// assembly, the expected tree, and an independent reader of the format.
package isox

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path"
	"sort"
	"strings"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
)

// Obj is a storage object with generated contents.
type Obj struct {
	U    string
	N    int64
	Seed byte
	pos  int64
}

// At is byte i of an object with the given seed.
func At(seed byte, i int64) byte {
	return byte(i) ^ byte(i>>8)*7 ^ byte(i>>20)*13 ^ seed*31 ^ 0x5a
}

func (o *Obj) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, fmt.Errorf("negative offset")
	}
	if off >= o.N {
		return 0, io.EOF
	}
	n := len(p)
	if int64(n) > o.N-off {
		n = int(o.N - off)
	}
	for i := 0; i < n; i++ {
		p[i] = At(o.Seed, off+int64(i))
	}
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func (o *Obj) Read(p []byte) (int, error) {
	n, err := o.ReadAt(p, o.pos)
	o.pos += int64(n)
	if n > 0 {
		err = nil
	}
	return n, err
}

func (o *Obj) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += o.pos
	case io.SeekEnd:
		off += o.N
	}
	if off < 0 {
		return 0, fmt.Errorf("negative seek")
	}
	o.pos = off
	return off, nil
}

func (o *Obj) Close() error { return nil }
func (o *Obj) URL() string  { return o.U }
func (o *Obj) Size() int64  { return o.N }

// Entry is an expected path.
type Entry struct {
	Kind   byte // 'f', 'd', 'l'
	Size   int64
	Seed   byte
	Target string
}

// Tree is the expected contents of a volume, by absolute clean path.
type Tree map[string]Entry

// Clean is the absolute path an addition lands at.
func Clean(p string) string { return path.Clean("/" + p) }

// Add records an addition and its ancestors.
func (t Tree) Add(p string, e Entry) {
	p = Clean(p)
	t[p] = e
	for d := path.Dir(p); d != "/"; d = path.Dir(d) {
		t[d] = Entry{Kind: 'd'}
	}
}

// Children lists the names directly in dir, sorted.
func (t Tree) Children(dir string) []string {
	var out []string
	for p := range t {
		if path.Dir(p) == dir {
			out = append(out, path.Base(p))
		}
	}
	sort.Strings(out)
	return out
}

// Paths lists all paths, sorted.
func (t Tree) Paths() []string {
	var out []string
	for p := range t {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

// Canon is a text form of the tree.
func (t Tree) Canon() string {
	var sb strings.Builder
	for _, p := range t.Paths() {
		e := t[p]
		if len(p) > 40 {
			p = fmt.Sprintf("%s..%d", p[:20], len(p))
		}
		fmt.Fprintf(&sb, "%s:%c:%d:%s;", p, e.Kind, e.Size, e.Target)
	}
	return sb.String()
}

// Volume is the interface of volumes the harnesses use.
type Volume struct{ V *iso9660.Volume }

// Image is a volume image: metadata bytes, and file extents served lazily so
// that multi-gigabyte files need no memory.
type Image struct {
	Meta   []byte
	files  []extent
	Blocks int64
}

type extent struct {
	start, size int64
	o           io.ReaderAt
}

// NewImage serializes the metadata of v and attaches its files.
func NewImage(v *iso9660.Volume) (*Image, error) {
	var b bytes.Buffer
	if _, err := v.WriteMetadataTo(&b); err != nil {
		return nil, err
	}
	im := &Image{Meta: b.Bytes()}
	err := v.VisitFileInodes(func(f *iso9660.FileInode) error {
		im.files = append(im.files, extent{int64(f.Start()) * 2048, f.Object().Size(), f.Object()})
		return nil
	})
	return im, err
}

// ReadAt reads the image as a block device would; gaps read as zero.
func (im *Image) ReadAt(p []byte, off int64) (int, error) {
	for i := range p {
		p[i] = 0
	}
	if off < int64(len(im.Meta)) {
		copy(p, im.Meta[off:])
	}
	for _, e := range im.files {
		lo, hi := e.start, e.start+e.size
		a, b := off, off+int64(len(p))
		if a < lo {
			a = lo
		}
		if b > hi {
			b = hi
		}
		if a < b {
			e.o.ReadAt(p[a-off:b-off], a-lo)
		}
	}
	return len(p), nil
}

// Mode is the expected mode of an entry.
func Mode(k byte) os.FileMode {
	switch k {
	case 'd':
		return os.ModeDir | 0555
	case 'l':
		return os.ModeSymlink | 0777
	}
	return 0444
}

// Nlink is the expected link count.
func (t Tree) Nlink(p string) uint32 {
	if p != "/" && t[p].Kind != 'd' {
		return 1
	}
	n := uint32(2)
	for _, c := range t.Children(p) {
		if t[path.Join(p, c)].Kind == 'd' {
			n++
		}
	}
	return n
}

// Resolve follows links in the last component; it reports false for
// targets through intermediate links, which are not specified here.
func (t Tree) Resolve(p string) (string, string) {
	for i := 0; i < 40; i++ {
		if p == "/" {
			return p, ""
		}
		// an intermediate component that is a link is unspecified
		for d := path.Dir(p); d != "/"; d = path.Dir(d) {
			if e, ok := t[d]; ok && e.Kind == 'l' {
				return p, "unspecified"
			}
		}
		e, ok := t[p]
		if !ok {
			for d := path.Dir(p); d != "/"; d = path.Dir(d) {
				if e, ok := t[d]; ok && e.Kind == 'f' {
					return p, "ENOTDIR"
				}
			}
			return p, "ENOENT"
		}
		if e.Kind != 'l' {
			return p, ""
		}
		if path.IsAbs(e.Target) {
			p = path.Clean(e.Target)
		} else {
			p = path.Clean(path.Join(path.Dir(p), e.Target))
		}
	}
	return p, "ELOOP"
}
