//go:build go1.22

// Package s3manager has the limits of the real package of that name scaled
// down, so that an upload of a few bytes has several parts.
package s3manager

const (
	MaxUploadParts                 = 4
	MinUploadPartSize        int64 = 2
	DefaultUploadPartSize          = MinUploadPartSize
	DefaultUploadConcurrency       = 2
)
