//go:build go1.22

// Package memst is an in-memory object store behind the storage driver
// interface, with an interception point on every operation.
package memst

import (
	"context"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	"github.com/NVIDIA/vdisc/zzverif/isox"
)

// Store holds objects by key.
type Store struct {
	mu sync.Mutex
	// Key maps a URL to an object key; nil means the URL itself.
	Key func(url string) string
	// Fault, when set, is asked before every operation; for writes it may
	// return a number of bytes to accept before the error.
	Fault func(op, key string, n int) (int, error)
	// CommitURL maps a key to the URL a commit reports; nil means the key.
	CommitURL func(key string) string

	Data  map[string][]byte
	Gen   map[string]isox.Obj // generated contents
	Ops   []string
	Open_ int // objects opened and not closed
}

func New() *Store {
	return &Store{Data: map[string][]byte{}, Gen: map[string]isox.Obj{}}
}

func (s *Store) key(url string) string {
	if s.Key != nil {
		return s.Key(url)
	}
	return url
}

func (s *Store) fault(op, key string, n int) (int, error) {
	s.Ops = append(s.Ops, op+" "+key)
	if s.Fault != nil {
		return s.Fault(op, key, n)
	}
	return n, nil
}

func (s *Store) Name() string { return "memst" }

func (s *Store) Open(ctx context.Context, url string, size int64) (driver.Object, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	k := s.key(url)
	if _, err := s.fault("open", k, 0); err != nil {
		return nil, err
	}
	if g, ok := s.Gen[k]; ok {
		g.U = url
		s.Open_++
		return &handle{s: s, k: k, url: url, r: &g, size: g.N}, nil
	}
	d, ok := s.Data[k]
	if !ok {
		return nil, os.ErrNotExist
	}
	s.Open_++
	return &handle{s: s, k: k, url: url, r: strings.NewReader(string(d)), size: int64(len(d))}, nil
}

func (s *Store) Stat(ctx context.Context, url string) (os.FileInfo, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	k := s.key(url)
	if _, err := s.fault("stat", k, 0); err != nil {
		return nil, err
	}
	d, ok := s.Data[k]
	if !ok {
		return nil, os.ErrNotExist
	}
	return info{k, int64(len(d))}, nil
}

func (s *Store) Remove(ctx context.Context, url string) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	k := s.key(url)
	if _, err := s.fault("remove", k, 0); err != nil {
		return err
	}
	delete(s.Data, k)
	return nil
}

func (s *Store) Create(ctx context.Context, url string) (driver.ObjectWriter, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	k := s.key(url)
	if _, err := s.fault("create", k, 0); err != nil {
		return nil, err
	}
	return &writer{s: s, k: k}, nil
}

// Dump lists the store's contents.
func (s *Store) Dump() string {
	var ks []string
	for k, d := range s.Data {
		ks = append(ks, fmt.Sprintf("%s:%d", k, len(d)))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

type readSeekerAt interface {
	io.Reader
	io.ReaderAt
	io.Seeker
}

type handle struct {
	s      *Store
	k, url string
	r      readSeekerAt
	size   int64
	closed bool
}

func (h *handle) URL() string { return h.url }
func (h *handle) Size() int64 { return h.size }
func (h *handle) Close() error {
	h.s.mu.Lock()
	defer h.s.mu.Unlock()
	if !h.closed {
		h.closed = true
		h.s.Open_--
	}
	return nil
}

func (h *handle) Seek(o int64, w int) (int64, error) { return h.r.Seek(o, w) }

func (h *handle) Read(p []byte) (int, error) {
	h.s.mu.Lock()
	n, err := h.s.fault("read", h.k, len(p))
	h.s.mu.Unlock()
	if err != nil {
		m, _ := h.r.Read(p[:n])
		return m, err
	}
	return h.r.Read(p)
}

func (h *handle) ReadAt(p []byte, off int64) (int, error) {
	h.s.mu.Lock()
	n, err := h.s.fault("read", h.k, len(p))
	h.s.mu.Unlock()
	if err != nil {
		m, _ := h.r.ReadAt(p[:n], off)
		return m, err
	}
	return h.r.ReadAt(p, off)
}

type writer struct {
	s    *Store
	k    string
	b    []byte
	done bool
	err  error
}

func (w *writer) Write(p []byte) (int, error) {
	w.s.mu.Lock()
	defer w.s.mu.Unlock()
	n, err := w.s.fault("write", w.k, len(p))
	if w.done {
		return 0, os.ErrClosed
	}
	w.b = append(w.b, p[:n]...)
	if err == nil && n < len(p) {
		err = io.ErrShortWrite
	}
	if err != nil {
		w.err = err
	}
	return n, err
}

func (w *writer) Abort() {
	w.s.mu.Lock()
	defer w.s.mu.Unlock()
	w.s.Ops = append(w.s.Ops, "abort "+w.k)
	w.done = true
}

func (w *writer) Commit() (driver.CommitInfo, error) {
	w.s.mu.Lock()
	defer w.s.mu.Unlock()
	if _, err := w.s.fault("commit", w.k, 0); err != nil {
		return nil, err
	}
	if w.done {
		return nil, driver.CommitOnAbortedObjectWriter
	}
	w.done = true
	w.s.Data[w.k] = w.b
	u := w.k
	if w.s.CommitURL != nil {
		u = w.s.CommitURL(w.k)
	}
	return driver.NewCommitInfo(u), nil
}

type info struct {
	name string
	size int64
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() os.FileMode  { return 0644 }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return false }
func (i info) Sys() interface{}   { return nil }
