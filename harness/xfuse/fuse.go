//go:build go1.22

// Package fuse stands in for the package of that name: mounting only records
// the server and unmounting ends it.
package fuse

import (
	"context"

	real "github.com/jacobsa/fuse"

	"github.com/NVIDIA/vdisc/zzverif/vs"
)

const (
	EEXIST    = real.EEXIST
	EINVAL    = real.EINVAL
	EIO       = real.EIO
	ENOATTR   = real.ENOATTR
	ENOENT    = real.ENOENT
	ENOSYS    = real.ENOSYS
	ENOTDIR   = real.ENOTDIR
	ENOTEMPTY = real.ENOTEMPTY
)

type (
	MountConfig = real.MountConfig
	Connection  = real.Connection
	Server      = real.Server
)

type MountedFileSystem struct {
	dir string
	ch  chan struct{}
}

func (m *MountedFileSystem) Dir() string { return m.dir }

func (m *MountedFileSystem) Join(ctx context.Context) error {
	vs.Recv[struct{}](m.ch)
	return nil
}

var mounted *MountedFileSystem

// Config is what the last mount asked for.
var Config *MountConfig

func Mount(dir string, server Server, config *MountConfig) (*MountedFileSystem, error) {
	mounted = &MountedFileSystem{dir, make(chan struct{})}
	Config = config
	return mounted, nil
}

func Unmount(dir string) error {
	if mounted == nil || mounted.dir != dir {
		return EINVAL
	}
	vs.Close(mounted.ch)
	return nil
}
