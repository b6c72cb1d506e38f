//go:build go1.22

// h19: kernel requests on the mounted file system against the volume's tree.
package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"path"
	"syscall"

	"github.com/jacobsa/fuse/fuseops"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/isofuse"
	"github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/zzverif/isox"
	"github.com/NVIDIA/vdisc/zzverif/mc"
	"github.com/NVIDIA/vdisc/zzverif/vs"
	fuseutil "github.com/NVIDIA/vdisc/zzverif/xfuseutil"
	ristretto "github.com/NVIDIA/vdisc/zzverif/xristretto"
)

var bg = context.Background()

var errIO = errors.New("injected error")

// disc is a small volume in memory.
type disc struct {
	t     isox.Tree
	data  []byte
	files []file
	paths []string // "/" first
	dirs  map[string]int64
}

type file struct {
	lba  iso9660.LogicalBlockAddress
	data []byte
}

func mkDisc(add func(v *iso9660.Volume, t isox.Tree)) *disc {
	v := iso9660.NewPosixPortableVolume()
	d := &disc{t: isox.Tree{}, dirs: map[string]int64{}}
	add(v, d.t)
	im, err := isox.NewImage(v)
	if err != nil {
		panic(err)
	}
	size := int64(len(im.Meta))
	v.VisitFileInodes(func(f *iso9660.FileInode) error {
		b := make([]byte, f.Object().Size())
		f.Object().ReadAt(b, 0)
		d.files = append(d.files, file{f.Start(), b})
		if e := int64(f.Start())*2048 + (int64(len(b))+2047)/2048*2048; e > size {
			size = e
		}
		return nil
	})
	d.data = make([]byte, size)
	im.ReadAt(d.data, 0)
	d.paths = append([]string{"/"}, d.t.Paths()...)
	for _, p := range d.paths {
		if p == "/" || d.t[p].Kind == 'd' {
			fi, err := iso9660.NewWalker(im).Lstat(p)
			if err != nil {
				panic(err)
			}
			d.dirs[p] = fi.Size()
		}
	}
	return d
}

func add(v *iso9660.Volume, t isox.Tree, p string, e isox.Entry) {
	var err error
	if e.Kind == 'l' {
		err = v.AddSymlink(p, e.Target)
	} else {
		err = v.AddFile(p, &isox.Obj{U: "mem:" + p, N: e.Size, Seed: e.Seed})
	}
	if err != nil {
		panic(err)
	}
	t.Add(p, e)
}

// vol serves a disc and counts what is open.
type vol struct {
	*disc
	opened, closed int
	failed         bool
}

type image struct{ v *vol }

// fault is true if the call at hand is to fail.
func (v *vol) fault(label string) bool {
	if vs.Fault(1, label) == 0 {
		return false
	}
	vs.Do("vol", func() { v.failed = true })
	return true
}

func (i image) ReadAt(p []byte, off int64) (int, error) {
	if i.v.fault("image read") {
		return 0, errIO
	}
	if off >= int64(len(i.v.data)) {
		return 0, io.EOF
	}
	n := copy(p, i.v.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}
func (i image) Read([]byte) (int, error)       { panic("read") }
func (i image) Seek(int64, int) (int64, error) { panic("seek") }
func (i image) Close() error                   { return nil }
func (i image) Size() int64                    { return int64(len(i.v.data)) }

func (v *vol) Image() storage.AnonymousObject { return image{v} }

func (v *vol) OpenExtent(lba iso9660.LogicalBlockAddress) (storage.Object, error) {
	for i := range v.files {
		if v.files[i].lba == lba {
			if v.fault("open extent") {
				return nil, errIO
			}
			vs.Do("vol", func() { v.opened++ })
			return &object{v: v, data: v.files[i].data}, nil
		}
	}
	return nil, errIO
}

type object struct {
	v      *vol
	data   []byte
	closed bool
}

func (o *object) ReadAt(p []byte, off int64) (int, error) {
	bad := false
	vs.Step("object", func() { bad = o.closed })
	if bad {
		vs.Fail("reads a closed file", "")
	}
	if o.v.fault("read") {
		return 0, errIO
	}
	if off >= int64(len(o.data)) {
		return 0, io.EOF
	}
	n := copy(p, o.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}
func (o *object) Read([]byte) (int, error)       { panic("read") }
func (o *object) Seek(int64, int) (int64, error) { panic("seek") }
func (o *object) URL() string                    { return "mem:" }
func (o *object) Size() int64                    { return int64(len(o.data)) }
func (o *object) Close() error {
	vs.Step("object", func() {
		if o.closed {
			o.v.closed += 1000
		}
		o.closed = true
		o.v.closed++
	})
	return nil
}

// kernel is what the kernel knows: inodes by path and lookups owed.
type kernel struct {
	fs      fuseutil.FileSystem
	v       *vol
	ino     []fuseops.InodeID // by index of the path, 0 if never seen
	refs    []uint64
	handles []handle
}

type handle struct {
	id   fuseops.HandleID
	path int
	open bool
}

func (k *kernel) index(p string) int {
	for i, q := range k.v.paths {
		if q == p {
			return i
		}
	}
	return -1
}

// start brings a server up; the root is owed nothing.
func start(d *disc) (*kernel, *isofuse.Server) {
	v := &vol{disc: d}
	s, err := isofuse.NewWithOptions("/mnt", v, isofuse.Options{})
	if err != nil {
		if v.failed {
			return nil, nil
		}
		vs.Fail("server not created", "%v", err)
	}
	if err := s.Start(); err != nil {
		vs.Fail("server not started", "%v", err)
	}
	v.failed = false // the root was found before
	k := &kernel{fs: fuseutil.Served, v: v, ino: make([]fuseops.InodeID, len(d.paths)), refs: make([]uint64, len(d.paths))}
	k.ino[0] = fuseops.RootInodeID
	return k, s
}

// attrs compares attributes with those of a path.
func (k *kernel) attrs(how string, i int, a fuseops.InodeAttributes) {
	p := k.v.paths[i]
	e := k.v.t[p]
	if i == 0 {
		e.Kind = 'd'
	}
	size := e.Size
	switch e.Kind {
	case 'd':
		size = k.v.dirs[p]
	case 'l':
		size = int64(len(e.Target))
	}
	if a.Size != uint64(size) || a.Mode != isox.Mode(e.Kind) || a.Nlink != k.v.t.Nlink(p) || a.Uid != 0 || a.Gid != 0 {
		vs.Fail("wrong attributes", "%s of %s: %+v", how, p, a)
	}
}

// saw records the inode number of a path.
func (k *kernel) saw(how string, i int, ino fuseops.InodeID) {
	for j := range k.ino {
		if j == i && k.ino[j] != 0 && k.ino[j] != ino || j != i && k.ino[j] == ino {
			vs.Fail("wrong inode number", "%s: %s is inode %d, but %s is %d", how, k.v.paths[i], ino, k.v.paths[j], k.ino[j])
		}
	}
	k.ino[i] = ino
}

func (k *kernel) lookup(dir int, name string) {
	op := &fuseops.LookUpInodeOp{Parent: k.ino[dir], Name: name}
	err := k.fs.LookUpInode(bg, op)
	vs.Do("kernel", func() {
		i := k.index(path.Join(k.v.paths[dir], name))
		if i < 0 {
			vs.Assert(err == syscall.ENOENT && !k.v.failed || k.took(err), "wrong lookup error", "%s in %s: %v", name, k.v.paths[dir], err)
			return
		}
		if err != nil {
			vs.Assert(k.took(err), "lookup failed", "%s in %s: %v", name, k.v.paths[dir], err)
			return
		}
		k.v.failed = false // what was wanted was found before
		k.saw("lookup", i, op.Entry.Child)
		k.attrs("lookup", i, op.Entry.Attributes)
		k.refs[i]++
	})
}

// took is true if an error is the answer to an injected fault, which then is
// used up.
func (k *kernel) took(err error) bool {
	if err != nil && err != syscall.ENOENT && k.v.failed {
		k.v.failed = false
		return true
	}
	return false
}

// clean complains about an injected fault nobody heard of.
func (k *kernel) clean(how string) {
	vs.Assert(!k.v.failed, "error swallowed", "%s succeeded", how)
}

func (k *kernel) getattr(i int) {
	op := &fuseops.GetInodeAttributesOp{Inode: k.ino[i]}
	err := k.fs.GetInodeAttributes(bg, op)
	vs.Do("kernel", func() {
		if err != nil {
			vs.Assert(k.took(err), "inode unusable", "attributes of %s with %d lookups: %v", k.v.paths[i], k.refs[i], err)
			return
		}
		k.attrs("attributes", i, op.Attributes)
	})
}

func (k *kernel) forget(i int, n uint64) {
	err := k.fs.ForgetInode(bg, &fuseops.ForgetInodeOp{Inode: k.ino[i], N: n})
	vs.Do("kernel", func() {
		vs.Assert(err == nil, "forget failed", "%s: %v", k.v.paths[i], err)
		k.refs[i] -= n
	})
}

type dirent struct {
	ino  fuseops.InodeID
	off  fuseops.DirOffset
	name string
	typ  fuseutil.DirentType
}

func parse(b []byte) (out []dirent) {
	for len(b) > 0 {
		if len(b) < 24 {
			vs.Fail("malformed directory data", "%d bytes left", len(b))
		}
		n := int(binary.LittleEndian.Uint32(b[16:]))
		l := 24 + (n+7)/8*8
		if l > len(b) {
			vs.Fail("malformed directory data", "entry of %d bytes, %d left", l, len(b))
		}
		out = append(out, dirent{fuseops.InodeID(binary.LittleEndian.Uint64(b)), fuseops.DirOffset(binary.LittleEndian.Uint64(b[8:])), string(b[24 : 24+n]), fuseutil.DirentType(binary.LittleEndian.Uint32(b[20:]))})
		b = b[l:]
	}
	return
}

// readdir reads at off and returns the entries; nil after an error.
func (k *kernel) readdir(i int, off fuseops.DirOffset, size int) (es []dirent, ok bool) {
	op := &fuseops.ReadDirOp{Inode: k.ino[i], Offset: off, Dst: make([]byte, size)}
	err := k.fs.ReadDir(bg, op)
	vs.Do("kernel", func() {
		if err != nil {
			vs.Assert(k.took(err), "reading a directory failed", "%s at %d: %v", k.v.paths[i], off, err)
			return
		}
		ok = true
		es = parse(op.Dst[:op.BytesRead])
		for _, e := range es {
			p := path.Join(k.v.paths[i], e.name)
			j := k.index(p)
			if j < 0 {
				vs.Fail("wrong directory entry", "%s lists %q", k.v.paths[i], e.name)
			}
			want := fuseutil.DT_File
			switch {
			case j == 0 || k.v.t[p].Kind == 'd':
				want = fuseutil.DT_Directory
			case k.v.t[p].Kind == 'l':
				want = fuseutil.DT_Link
			}
			vs.Assert(e.typ == want || e.typ == fuseutil.DT_Unknown, "wrong entry type", "%s: %v", p, e.typ)
			k.saw("directory", j, e.ino)
		}
	})
	return
}

// all reads a whole directory from off in pieces and compares it with the
// names wanted.
func (k *kernel) all(i int, size int) (es []dirent) {
	var off fuseops.DirOffset
	for n := 0; ; n++ {
		got, ok := k.readdir(i, off, size)
		if !ok {
			return nil
		}
		if len(got) == 0 {
			break
		}
		es = append(es, got...)
		off = got[len(got)-1].off
		if n > 1000 {
			vs.Fail("directory never ends", "%s", k.v.paths[i])
		}
	}
	vs.Do("kernel", func() {
		k.clean("reading a directory")
		seen := map[string]int{}
		for _, e := range es {
			seen[e.name]++
		}
		want := k.v.t.Children(k.v.paths[i])
		for _, n := range want {
			vs.Assert(seen[n] == 1, "wrong directory", "%s: %q listed %d times reading %d bytes at a time", k.v.paths[i], n, seen[n], size)
		}
		vs.Assert(seen["."] <= 1 && seen[".."] <= 1 && len(es) == len(want)+seen["."]+seen[".."], "wrong directory", "%s: %v", k.v.paths[i], es)
	})
	return es
}

func (k *kernel) readlink(i int) {
	op := &fuseops.ReadSymlinkOp{Inode: k.ino[i]}
	err := k.fs.ReadSymlink(bg, op)
	vs.Do("kernel", func() {
		if err != nil {
			vs.Assert(k.took(err), "reading a link failed", "%v", err)
			return
		}
		vs.Assert(op.Target == k.v.t[k.v.paths[i]].Target, "wrong link target", "%q", op.Target)
	})
}

func (k *kernel) open(i int) {
	op := &fuseops.OpenFileOp{Inode: k.ino[i]}
	err := k.fs.OpenFile(bg, op)
	vs.Do("kernel", func() {
		if err != nil {
			vs.Assert(k.took(err), "opening failed", "%s with %d lookups: %v", k.v.paths[i], k.refs[i], err)
			return
		}
		for _, h := range k.handles {
			vs.Assert(!h.open || h.id != op.Handle, "handle used twice", "%d", op.Handle)
		}
		k.handles = append(k.handles, handle{op.Handle, i, true})
	})
}

func (k *kernel) read(h int, off int64, n int) {
	op := &fuseops.ReadFileOp{Inode: k.ino[k.handles[h].path], Handle: k.handles[h].id, Offset: off, Dst: make([]byte, n)}
	err := k.fs.ReadFile(bg, op)
	vs.Do("kernel", func() {
		if err != nil {
			vs.Assert(k.took(err), "reading failed", "%v", err)
			return
		}
		k.clean("reading")
		p := k.v.paths[k.handles[h].path]
		e := k.v.t[p]
		want := make([]byte, n)
		m, _ := (&isox.Obj{N: e.Size, Seed: e.Seed}).ReadAt(want, off)
		vs.Assert(op.BytesRead == m && string(op.Dst[:m]) == string(want[:m]), "wrong data", "%d bytes at %d of %s: %d", n, off, p, op.BytesRead)
	})
}

func (k *kernel) release(h int) {
	err := k.fs.ReleaseFileHandle(bg, &fuseops.ReleaseFileHandleOp{Handle: k.handles[h].id})
	vs.Do("kernel", func() {
		vs.Assert(err == nil, "release failed", "%v", err)
		k.handles[h].open = false
	})
}

// stray sends what a confused kernel might; only panics count.
func (k *kernel) stray(n int) {
	const ino, h = 4000000, 5000000
	switch n {
	case 0:
		k.fs.LookUpInode(bg, &fuseops.LookUpInodeOp{Parent: ino, Name: "f"})
	case 1:
		k.fs.GetInodeAttributes(bg, &fuseops.GetInodeAttributesOp{Inode: ino})
	case 2:
		k.fs.ForgetInode(bg, &fuseops.ForgetInodeOp{Inode: ino, N: 1})
	case 3:
		k.fs.ReadDir(bg, &fuseops.ReadDirOp{Inode: ino, Dst: make([]byte, 100)})
	case 4:
		k.fs.ReadSymlink(bg, &fuseops.ReadSymlinkOp{Inode: ino})
	case 5:
		k.fs.OpenFile(bg, &fuseops.OpenFileOp{Inode: ino})
	case 6:
		k.fs.ReadFile(bg, &fuseops.ReadFileOp{Handle: h, Dst: make([]byte, 10)})
	case 7:
		k.fs.ReleaseFileHandle(bg, &fuseops.ReleaseFileHandleOp{Handle: h})
	case 8:
		k.fs.StatFS(bg, &fuseops.StatFSOp{})
	case 9:
		k.fs.OpenDir(bg, &fuseops.OpenDirOp{Inode: 1})
		k.fs.ReleaseDirHandle(bg, &fuseops.ReleaseDirHandleOp{})
		k.fs.FlushFile(bg, &fuseops.FlushFileOp{})
	case 10:
		k.fs.ForgetInode(bg, &fuseops.ForgetInodeOp{Inode: fuseops.RootInodeID, N: 1})
	}
}

const strays = 11

// settle ends a history: what is owed is given back and nothing stays.
func (k *kernel) settle() {
	for i := range k.refs {
		if k.refs[i] > 0 {
			k.getattr(i)
		}
	}
	for h := range k.handles {
		if k.handles[h].open {
			k.read(h, 0, 10)
			k.release(h)
		}
	}
	vs.Assert(k.v.opened == k.v.closed, "files not closed once", "%d opened, %d closed", k.v.opened, k.v.closed)
	for i := 1; i < len(k.refs); i++ {
		if k.refs[i] > 0 {
			k.forget(i, k.refs[i])
		}
		if k.ino[i] != 0 {
			op := &fuseops.GetInodeAttributesOp{Inode: k.ino[i]}
			vs.Assert(k.fs.GetInodeAttributes(bg, op) != nil, "inode kept", "%s after all its lookups were forgotten", k.v.paths[i])
		}
	}
	k.getattr(0)
}

// ops are the requests possible now.
func (k *kernel) ops(small bool, names []string) (out []func()) {
	for i, p := range k.v.paths {
		if i > 0 && k.refs[i] == 0 {
			continue
		}
		i := i
		kind := k.v.t[p].Kind
		if i == 0 {
			kind = 'd'
		}
		if !small || i > 0 {
			out = append(out, func() { k.getattr(i) })
		}
		switch kind {
		case 'd':
			for _, n := range names {
				n := n
				out = append(out, func() { k.lookup(i, n) })
			}
			if small {
				out = append(out, func() { k.all(i, 4096) })
				break
			}
			for _, size := range []int{40, 100, 4096} {
				size := size
				out = append(out, func() { k.all(i, size) })
			}
		case 'l':
			out = append(out, func() { k.readlink(i) })
		case 'f':
			out = append(out, func() { k.open(i) })
		}
		if i > 0 {
			out = append(out, func() { k.forget(i, 1) })
			if k.refs[i] > 1 {
				out = append(out, func() { k.forget(i, k.refs[i]) })
			}
		}
	}
	for h := range k.handles {
		h := h
		if !k.handles[h].open {
			continue
		}
		out = append(out, func() { k.read(h, 1, 3) }, func() { k.release(h) })
		if !small {
			out = append(out, func() { k.read(h, 0, 4096) }, func() { k.read(h, 10000, 8) })
		}
	}
	return out
}

func (k *kernel) canon() string { return fmt.Sprint(k.ino, k.refs, k.handles) }

// history runs every sequence of requests.
func history(d *disc, depth int, small bool, names []string) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		ristretto.Capacity = []int{1000, 0, 1}[c.Choose(3, "cache")]
		vs.Run(c, vs.Options{NoStates: true}, func() {
			k, s := start(d)
			if k == nil {
				return
			}
			for i := 0; i < depth; i++ {
				ops := k.ops(small, names)
				n := len(ops) + 1
				if !small {
					n += strays
				}
				o := vs.Choose(n, "request")
				switch {
				case o == 0:
					i = depth
				case o <= len(ops):
					ops[o-1]()
				default:
					k.stray(o - len(ops) - 1)
				}
				vs.Do("state", func() { c.Step(); c.State(ristretto.Capacity, k.canon()) })
			}
			k.settle()
			vs.Assert(s.Close() == nil, "closing failed", "")
			vs.Recv[interface{}](s.Join())
		})
	}
}

// listing reads a directory with every buffer size, and again from every
// offset.
func listing(ds []*disc) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		d := ds[c.Choose(len(ds), "disc")]
		ristretto.Capacity = 1000
		vs.Run(c, vs.Options{NoStates: true}, func() {
			k, _ := start(d)
			if k == nil {
				return
			}
			size := []int{24, 32, 40, 64, 100, 280, 512, 1000, 4096, 65536}[vs.Choose(10, "buffer")]
			whole := k.all(0, 65536)
			if whole == nil {
				return
			}
			if size >= 32+256 {
				k.all(0, size)
			}
			for i := -1; i < len(whole); i++ {
				var off fuseops.DirOffset
				if i >= 0 {
					off = whole[i].off
				}
				rest, ok := k.readdir(0, off, size)
				if !ok {
					return
				}
				k.clean("reading a directory")
				used := 0
				j := i + 1
				for ; j < len(whole); j++ {
					used += 24 + (len(whole[j].name)+7)/8*8
					if used > size {
						break
					}
				}
				vs.Assert(len(rest) == j-i-1, "wrong part of a directory", "%d entries after %d of %d in %d bytes", len(rest), i+1, len(whole), size)
				for n, e := range rest {
					vs.Assert(e == whole[i+1+n], "wrong part of a directory", "%v, want %v", e, whole[i+1+n])
				}
			}
			// Lookups agree with the listing.
			for _, e := range whole {
				if e.name != "." && e.name != ".." {
					k.lookup(0, e.name)
				}
			}
			k.lookup(0, "nosuch")
			vs.Do("state", func() { c.Step(); c.State(size, len(whole)) })
		})
	}
}

// concurrent interleaves requests.
func concurrent(d *disc, n int, cap int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		const kinds = 9
		var prog []int
		for i := 0; i < n; i++ {
			prog = append(prog, c.Choose(kinds, "request"))
			if i > 0 && prog[i] < prog[i-1] {
				return
			}
		}
		twice := c.Bool("looked up twice")
		ristretto.Capacity = cap
		vs.Run(c, vs.Options{Delays: true}, func() {
			k, s := start(d)
			f, dir := k.index("/f"), k.index("/d")
			k.lookup(0, "d")
			k.lookup(0, "f")
			if twice {
				k.lookup(0, "f")
			}
			k.open(f)
			k.open(f)
			k.lookup(0, "z")
			done := make(chan struct{}, n)
			var gs []func()
			owed, rel := k.refs[f], 0
			for _, o := range prog {
				var g func()
				switch o {
				case 0:
					g = func() { k.lookup(0, "f") }
				case 1:
					// Only what is owed is forgotten.
					if owed == 0 {
						continue
					}
					owed--
					g = func() { k.forget(f, 1) }
				case 2:
					g = func() { k.lookup(dir, "f") }
				case 3:
					g = func() { k.all(0, 200) }
				case 4:
					g = func() { k.open(k.index("/z")) }
				case 5:
					if rel == 2 {
						continue
					}
					h := rel
					rel++
					g = func() { k.release(h) }
				case 6:
					g = func() { k.read(1, 0, 8) }
					if rel == 2 {
						continue
					}
				case 7:
					g = func() { k.getattr(dir) }
				case 8:
					g = func() { k.lookup(0, "nosuch") }
				}
				gs = append(gs, g)
			}
			for _, g := range gs {
				g := g
				vs.Go(func() {
					g()
					vs.SendTo[struct{}](done)(struct{}{})
				})
			}
			for range gs {
				vs.Recv[struct{}](done)
			}
			k.settle()
			vs.Assert(s.Close() == nil, "closing failed", "")
		})
	}
}

func main() {
	base := mkDisc(func(v *iso9660.Volume, t isox.Tree) {
		add(v, t, "f", isox.Entry{Kind: 'f', Size: 5, Seed: 1})
		add(v, t, "d/f", isox.Entry{Kind: 'f', Size: 3000, Seed: 2})
		add(v, t, "l", isox.Entry{Kind: 'l', Target: "d/f"})
		add(v, t, "z", isox.Entry{Kind: 'f', Size: 0, Seed: 3})
	})
	var sizes []*disc
	for _, n := range []int{0, 1, 2, 11, 12, 13, 14, 15, 16, 17, 30, 60} {
		for _, l := range []int{1, 7, 60, 200} {
			n, l := n, l
			sizes = append(sizes, mkDisc(func(v *iso9660.Volume, t isox.Tree) {
				for i := 0; i < n; i++ {
					name := fmt.Sprint(i)
					for len(name) < l {
						name += "n"
					}
					switch i % 3 {
					case 0:
						add(v, t, name, isox.Entry{Kind: 'f', Size: int64(i), Seed: 1})
					case 1:
						add(v, t, name, isox.Entry{Kind: 'l', Target: "x" + name})
					case 2:
						add(v, t, name+"/f", isox.Entry{Kind: 'f', Size: 3, Seed: 2})
					}
				}
			}))
		}
	}
	mc.Main(mc.Def{Scenarios: func(tier string) []mc.Scenario {
		x := 0
		if tier == "thorough" {
			x = 1
		}
		var out []mc.Scenario
		failing := sizes[:12]
		if x > 0 {
			failing = sizes[:20]
		}
		if !mc.Race {
			out = append(out,
				mc.Scenario{Name: "history", Run: history(base, 3+x, false, []string{"f", "d", "l", "z", "nosuch", "F", "ff"}), NoPrune: true},
				mc.Scenario{Name: "deep history", Run: history(base, 5+x, true, []string{"f", "d"}), NoPrune: true},
				mc.Scenario{Name: "faults", Run: history(base, 2+x, false, []string{"f", "d", "l", "nosuch"}), Budget: [3]int{0, 1, 0}, NoPrune: true},
				mc.Scenario{Name: "listing", Run: listing(sizes), NoPrune: true},
				mc.Scenario{Name: "listing faults", Run: listing(failing), Budget: [3]int{0, 1, 0}, NoPrune: true})
		}
		d := 1 + x
		for _, cap := range []int{0, 1000} {
			out = append(out,
				mc.Scenario{Name: fmt.Sprintf("2 requests, cache %d", cap), Run: concurrent(base, 2, cap), Budget: [3]int{d + 1, 0, 0}},
				mc.Scenario{Name: fmt.Sprintf("3 requests, cache %d", cap), Run: concurrent(base, 3, cap), Budget: [3]int{d, 0, 0}})
		}
		return out
	}})
}
