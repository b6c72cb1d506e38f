//go:build go1.22

// Package fuseutil stands in for the package of that name: the file system to
// be served is kept for the harness.
package fuseutil

import (
	real "github.com/jacobsa/fuse/fuseutil"

	"github.com/NVIDIA/vdisc/zzverif/xfuse"
)

const (
	DT_Unknown   = real.DT_Unknown
	DT_Socket    = real.DT_Socket
	DT_Link      = real.DT_Link
	DT_File      = real.DT_File
	DT_Block     = real.DT_Block
	DT_Directory = real.DT_Directory
	DT_Char      = real.DT_Char
	DT_FIFO      = real.DT_FIFO
)

type (
	DirentType               = real.DirentType
	Dirent                   = real.Dirent
	FileSystem               = real.FileSystem
	NotImplementedFileSystem = real.NotImplementedFileSystem
)

func WriteDirent(buf []byte, d Dirent) int { return real.WriteDirent(buf, d) }

// Served is the file system last given to a server.
var Served FileSystem

func NewFileSystemServer(fs FileSystem) fuse.Server {
	Served = fs
	return nil
}
