//go:build go1.22

// Package io is the controlled scheduler's io.Pipe.
package io

import (
	"io"

	"github.com/NVIDIA/vdisc/zzverif/vs"
)

type onceError struct {
	mu  vs.Mutex
	err error
}

func (a *onceError) Store(err error) {
	a.mu.Lock()
	defer a.mu.Unlock()
	if a.err == nil {
		a.err = err
	}
}

func (a *onceError) Load() error {
	a.mu.Lock()
	defer a.mu.Unlock()
	return a.err
}

type pipe struct {
	wrMu       vs.Mutex
	wrCh       chan []byte
	rdCh       chan int
	once       vs.Once
	done       chan struct{}
	rerr, werr onceError
}

func (p *pipe) read(b []byte) (n int, err error) {
	d := vs.CRecv((<-chan struct{})(p.done))
	if vs.Select(true, d) == 0 {
		return 0, p.readCloseError()
	}
	w := vs.CRecv((<-chan []byte)(p.wrCh))
	d = vs.CRecv((<-chan struct{})(p.done))
	if vs.Select(false, w, d) == 0 {
		nr := copy(b, w.V)
		vs.Read(w.V[:nr])
		vs.Write(b[:nr])
		vs.SendTo((chan<- int)(p.rdCh))(nr)
		return nr, nil
	}
	return 0, p.readCloseError()
}

func (p *pipe) closeRead(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	p.rerr.Store(err)
	p.once.Do(func() { vs.Close((chan<- struct{})(p.done)) })
	return nil
}

func (p *pipe) write(b []byte) (n int, err error) {
	d := vs.CRecv((<-chan struct{})(p.done))
	if vs.Select(true, d) == 0 {
		return 0, p.writeCloseError()
	}
	p.wrMu.Lock()
	defer p.wrMu.Unlock()
	for once := true; once || len(b) > 0; once = false {
		if vs.Aborting() {
			return
		}
		w := vs.CSend((chan<- []byte)(p.wrCh))(b)
		d := vs.CRecv((<-chan struct{})(p.done))
		if vs.Select(false, w, d) == 0 {
			nw := vs.Recv((<-chan int)(p.rdCh))
			b = b[nw:]
			n += nw
		} else {
			return n, p.writeCloseError()
		}
	}
	return n, nil
}

func (p *pipe) closeWrite(err error) error {
	if err == nil {
		err = io.EOF
	}
	p.werr.Store(err)
	p.once.Do(func() { vs.Close((chan<- struct{})(p.done)) })
	return nil
}

func (p *pipe) readCloseError() error {
	rerr := p.rerr.Load()
	if werr := p.werr.Load(); rerr == nil && werr != nil {
		return werr
	}
	return io.ErrClosedPipe
}

func (p *pipe) writeCloseError() error {
	werr := p.werr.Load()
	if rerr := p.rerr.Load(); werr == nil && rerr != nil {
		return rerr
	}
	return io.ErrClosedPipe
}

// PipeReader is the read half of a pipe.
type PipeReader struct{ p *pipe }

func (r *PipeReader) Read(b []byte) (int, error)     { return r.p.read(b) }
func (r *PipeReader) Close() error                   { return r.CloseWithError(nil) }
func (r *PipeReader) CloseWithError(err error) error { return r.p.closeRead(err) }

// PipeWriter is the write half of a pipe.
type PipeWriter struct{ p *pipe }

func (w *PipeWriter) Write(b []byte) (int, error)    { return w.p.write(b) }
func (w *PipeWriter) Close() error                   { return w.CloseWithError(nil) }
func (w *PipeWriter) CloseWithError(err error) error { return w.p.closeWrite(err) }

// Pipe is io.Pipe.
func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{wrCh: make(chan []byte), rdCh: make(chan int), done: make(chan struct{})}
	return &PipeReader{p}, &PipeWriter{p}
}
