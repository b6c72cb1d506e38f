//go:build go1.22

// Package cfs is a file-system driver held in memory for scheduled runs: each
// call is a scheduling point and may fail.
package cfs

import (
	"errors"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	"github.com/NVIDIA/vdisc/zzverif/vs"
	vctx "github.com/NVIDIA/vdisc/zzverif/vs/context"
	vsync "github.com/NVIDIA/vdisc/zzverif/vs/sync"
)

// ErrInjected is the error of every failing call.
var ErrInjected = syscall.EIO

// File is a file's content.
type File struct {
	Data  []byte
	Xattr []Attr
}

// Attr is one extended attribute.
type Attr struct {
	Name  string
	Value []byte
}

// Get returns an attribute.
func (f *File) Get(name string) ([]byte, bool) {
	for _, a := range f.Xattr {
		if a.Name == name {
			return a.Value, true
		}
	}
	return nil, false
}

// FS is the file system and monitor.
type FS struct {
	Files   map[string]*File
	Locks   map[string]*vsync.Mutex
	Held    int // locks
	Handles int // open objects
	Writers int // neither committed nor aborted
	Temps   int // uncommitted files
	Faulty  bool
	Hits    int // injected errors
	Removed []string
	// Published is told of every commit.
	Published func(path string, f *File)
	// names orders the use of a name listed after its creation.
	names byte
	// Junk lists further directory entries, by directory.
	Junk map[string][]string
}

func New() *FS { return &FS{Files: map[string]*File{}, Locks: map[string]*vsync.Mutex{}} }

// Register replaces the file driver; the function returned undoes it.
func (fs *FS) Register() func() {
	undo := driver.ClearRegistry()
	driver.Register("file", fs)
	return func() { undo() }
}

func (fs *FS) fail(op string, n int) int {
	if !fs.Faulty {
		return 0
	}
	k := vs.Fault(n, op)
	if k > 0 {
		vs.Do("hits", func() { fs.Hits++ })
	}
	return k
}

func (fs *FS) Name() string { return "cfs" }

func (fs *FS) Open(_ vctx.Context, url string, size int64) (o driver.Object, err error) {
	vs.Step(url, func() {
		f := fs.Files[url]
		if f == nil {
			err = &os.PathError{Op: "open", Path: url, Err: syscall.ENOENT}
			return
		}
		fs.Handles++
		o = &object{fs: fs, url: url, f: f}
	})
	if fs.fail("open", 1) > 0 {
		if o != nil {
			o.Close()
		}
		return nil, &os.PathError{Op: "open", Path: url, Err: ErrInjected}
	}
	return
}

func (fs *FS) Stat(_ vctx.Context, url string) (fi os.FileInfo, err error) {
	err = &os.PathError{Op: "stat", Path: url, Err: syscall.ENOENT}
	vs.Step(url, func() {
		if f := fs.Files[url]; f != nil {
			fi, err = info{filepath.Base(url), int64(len(f.Data)), false}, nil
		}
	})
	return
}

func (fs *FS) Create(_ vctx.Context, url string) (driver.ObjectWriter, error) {
	if fs.fail("create", 1) > 0 {
		return nil, &os.PathError{Op: "create", Path: url, Err: ErrInjected}
	}
	vs.Do("writers", func() { fs.Writers++; fs.Temps++ })
	return &writer{fs: fs, url: url, f: &File{}}, nil
}

func (fs *FS) Remove(_ vctx.Context, url string) (err error) {
	if fs.fail("remove", 1) > 0 {
		return &os.PathError{Op: "remove", Path: url, Err: ErrInjected}
	}
	vs.Step(url, func() {
		if fs.Files[url] == nil {
			err = &os.PathError{Op: "remove", Path: url, Err: syscall.ENOENT}
			return
		}
		delete(fs.Files, url)
		fs.Removed = append(fs.Removed, url)
	})
	return
}

func (fs *FS) Readdir(_ vctx.Context, url string) (out []os.FileInfo, err error) {
	if fs.fail("readdir", 1) > 0 {
		return nil, &os.PathError{Op: "readdir", Path: url, Err: ErrInjected}
	}
	vs.Step("dir", func() {
		seen := map[string]info{}
		for p, f := range fs.Files {
			rel := strings.TrimPrefix(p, url+"/")
			if rel == p {
				continue
			}
			if i := strings.IndexByte(rel, '/'); i >= 0 {
				seen[rel[:i]] = info{rel[:i], 0, true}
			} else {
				seen[rel] = info{rel, int64(len(f.Data)), false}
			}
		}
		for _, j := range fs.Junk[url] {
			seen[strings.TrimSuffix(j, "/")] = info{strings.TrimSuffix(j, "/"), 0, strings.HasSuffix(j, "/")}
		}
		var names []string
		for n := range seen {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			out = append(out, seen[n])
		}
		if len(out) == 0 {
			err = &os.PathError{Op: "readdir", Path: url, Err: syscall.ENOENT}
		}
	})
	vs.Acquire(unsafe.Pointer(&fs.names))
	return
}

func (fs *FS) Lock(_ vctx.Context, url string) (io.Closer, error) {
	if fs.fail("lock", 1) > 0 {
		return nil, &os.PathError{Op: "lock", Path: url, Err: ErrInjected}
	}
	var m *vsync.Mutex
	vs.Do(url, func() {
		m = fs.Locks[url]
		if m == nil {
			m = new(vsync.Mutex)
			fs.Locks[url] = m
		}
	})
	m.Lock()
	vs.Do("held", func() { fs.Held++ })
	return &unlock{fs: fs, m: m}, nil
}

func (fs *FS) RLock(ctx vctx.Context, url string) (io.Closer, error) { return fs.Lock(ctx, url) }

type unlock struct {
	fs   *FS
	m    *vsync.Mutex
	done bool
}

func (u *unlock) Close() error {
	if u.done {
		return os.ErrClosed
	}
	u.done = true
	vs.Do("held", func() { u.fs.Held-- })
	u.m.Unlock()
	return nil
}

type object struct {
	fs     *FS
	url    string
	f      *File
	pos    int64
	closed bool
}

func (o *object) URL() string { return o.url }
func (o *object) Size() int64 { return int64(len(o.f.Data)) }

func (o *object) Close() error {
	if o.closed {
		return os.ErrClosed
	}
	o.closed = true
	vs.Do("handles", func() { o.fs.Handles-- })
	return nil
}

func (o *object) Read(p []byte) (int, error) {
	n, err := o.ReadAt(p, o.pos)
	o.pos += int64(n)
	if n > 0 && err == io.EOF {
		err = nil
	}
	return n, err
}

func (o *object) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += o.pos
	case io.SeekEnd:
		off += o.Size()
	}
	o.pos = off
	return off, nil
}

func (o *object) ReadAt(p []byte, off int64) (int, error) {
	if o.closed {
		return 0, os.ErrClosed
	}
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	n := 0
	if off < o.Size() {
		n = copy(p, o.f.Data[off:])
	}
	vs.Write(p[:n])
	switch o.fs.fail("read", 2) {
	case 1:
		return 0, ErrInjected
	case 2:
		return n / 2, ErrInjected
	}
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func (o *object) GetXattr(name string) ([]byte, error) {
	if o.closed {
		return nil, os.ErrClosed
	}
	if o.fs.fail("getxattr", 1) > 0 {
		return nil, ErrInjected
	}
	v, ok := o.f.Get(name)
	if !ok {
		return nil, syscall.ENODATA
	}
	return append([]byte{}, v...), nil
}

type writer struct {
	fs    *FS
	url   string
	f     *File
	moved bool
	done  bool
}

func (w *writer) Write(p []byte) (int, error) {
	if w.done || w.moved {
		return 0, os.ErrClosed
	}
	vs.Read(p)
	switch w.fs.fail("write", 2) {
	case 1:
		return 0, ErrInjected
	case 2:
		w.f.Data = append(w.f.Data, p[:len(p)/2]...)
		return len(p) / 2, ErrInjected
	}
	w.f.Data = append(w.f.Data, p...)
	return len(p), nil
}

func (w *writer) SetXattr(name string, v []byte) error {
	if w.done || w.moved {
		return os.ErrClosed
	}
	if w.fs.fail("setxattr", 1) > 0 {
		return ErrInjected
	}
	w.f.Xattr = append(w.f.Xattr, Attr{name, append([]byte{}, v...)})
	return nil
}

func (w *writer) Commit() (driver.CommitInfo, error) {
	if w.done || w.moved {
		return nil, os.ErrClosed
	}
	if w.fs.fail("commit", 1) > 0 {
		return nil, ErrInjected
	}
	w.moved = true
	vs.Release(unsafe.Pointer(&w.fs.names))
	vs.Step(w.url, func() {
		w.fs.Files[w.url] = w.f
		w.fs.Temps--
		if w.fs.Published != nil {
			w.fs.Published(w.url, w.f)
		}
	})
	return driver.NewCommitInfo(w.url), nil
}

func (w *writer) Abort() {
	if w.done {
		return
	}
	w.done = true
	vs.Do("writers", func() {
		w.fs.Writers--
		if !w.moved {
			w.fs.Temps--
		}
	})
}

type info struct {
	name string
	size int64
	dir  bool
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return i.size }
func (i info) Mode() os.FileMode {
	if i.dir {
		return os.ModeDir | 0755
	}
	return 0644
}
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return i.dir }
func (i info) Sys() interface{}   { return nil }
