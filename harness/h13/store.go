//go:build go1.22

package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"io"

	"github.com/aws/aws-sdk-go/aws"
	"github.com/aws/aws-sdk-go/aws/awserr"
	"github.com/aws/aws-sdk-go/aws/client"
	"github.com/aws/aws-sdk-go/aws/client/metadata"
	"github.com/aws/aws-sdk-go/aws/request"
	"github.com/aws/aws-sdk-go/service/s3"
	"github.com/aws/aws-sdk-go/service/s3/s3iface"

	"github.com/NVIDIA/vdisc/zzverif/sm"
	"github.com/NVIDIA/vdisc/zzverif/vs"
)

type part struct {
	num  int64
	data []byte
	tag  int
}

type upload struct {
	parts []part
	open  bool
}

// store is an object store with one object. Its state is only touched on the
// explorer.
type store struct {
	s3iface.S3API
	versioned bool
	uploads   []*upload
	versions  [][]byte
	tags      int
	requests  int
	hits      int  // failed requests
	unaborted bool // an abort request failed
	cutOff    bool // requests were refused as their context had ended
	dead      bool // no upload can be completed
}

var names = [...]string{"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12"}

var (
	errLost     = awserr.New("InternalError", "injected", nil)
	errCanceled = awserr.New(request.CanceledErrorCode, "request context canceled", errors.New("canceled"))
	errRefused  = awserr.New("InvalidRequest", "refused by the store", nil)
)

// op makes a request of which f is the effect. f returns nil if the store
// refuses the request.
func (s *store) op(name string, params, data interface{}, body func() io.ReadSeeker, f func(data []byte) bool) *request.Request {
	var h request.Handlers
	h.Send.PushBack(func(r *request.Request) {
		if r.Context().Err() != nil {
			vs.Do("request", func() { s.cutOff = true })
			r.Error = errCanceled
			return
		}
		vs.Yield()
		var data []byte
		if body != nil {
			if b := body(); b != nil {
				var err error
				if data, err = io.ReadAll(b); err != nil {
					r.Error = awserr.New("RequestError", "send request failed", err)
					return
				}
			}
			if h := r.HTTPRequest.Header.Get("X-Amz-Content-Sha256"); h != "" {
				if sum := sha256.Sum256(data); h != hex.EncodeToString(sum[:]) {
					r.Error = errRefused
					return
				}
			}
		}
		if r.Context().Err() != nil {
			vs.Do("request", func() { s.cutOff = true })
			r.Error = errCanceled
			return
		}
		// Fails without or after having its effect, or does not tell.
		k := 0
		switch {
		case name == "create":
			k = vs.Fault(1, name)
		case name == "complete" && s.dead:
			k = 1
		case name == "complete":
			if k = vs.Fault(3, name); k == 3 {
				// This one and all those repeating it.
				k, s.dead = 1, true
			}
		default:
			k = vs.Fault(2, name)
		}
		ok := false
		vs.Do("request", func() {
			s.requests++
			if k > 0 {
				s.hits++
				if name == "abort" && k == 1 {
					s.unaborted = true
				}
			}
			if k != 1 {
				ok = f(data)
			}
		})
		if k > 0 {
			r.Error = errLost
		} else if !ok {
			r.Error = errRefused
		}
	})
	return request.New(aws.Config{}, metadata.ClientInfo{ServiceName: "s3", Endpoint: "http://store"}, h, client.NoOpRetryer{},
		&request.Operation{Name: name, HTTPMethod: "PUT", HTTPPath: "/"}, params, data)
}

func send(r *request.Request, ctx aws.Context) error {
	if ctx != nil {
		r.SetContext(ctx)
	}
	return r.Send()
}

func (s *store) publish(data []byte) *string {
	s.versions = append(s.versions, data)
	if !s.versioned {
		return nil
	}
	return &names[len(s.versions)]
}

func (s *store) named(bucket, key *string) bool {
	return aws.StringValue(bucket) == "b" && aws.StringValue(key) == "k"
}

func (s *store) find(bucket, key, id *string) *upload {
	for i, u := range s.uploads {
		if u.open && names[i] == aws.StringValue(id) && s.named(bucket, key) {
			return u
		}
	}
	return nil
}

func (s *store) PutObjectRequest(in *s3.PutObjectInput) (*request.Request, *s3.PutObjectOutput) {
	out := &s3.PutObjectOutput{}
	return s.op("put", in, out, func() io.ReadSeeker { return in.Body }, func(data []byte) bool {
		if !s.named(in.Bucket, in.Key) {
			return false
		}
		out.VersionId = s.publish(data)
		return true
	}), out
}

func (s *store) PutObject(in *s3.PutObjectInput) (*s3.PutObjectOutput, error) {
	r, out := s.PutObjectRequest(in)
	return out, send(r, nil)
}

func (s *store) PutObjectWithContext(ctx aws.Context, in *s3.PutObjectInput, _ ...request.Option) (*s3.PutObjectOutput, error) {
	r, out := s.PutObjectRequest(in)
	return out, send(r, ctx)
}

func (s *store) CreateMultipartUploadRequest(in *s3.CreateMultipartUploadInput) (*request.Request, *s3.CreateMultipartUploadOutput) {
	out := &s3.CreateMultipartUploadOutput{}
	return s.op("create", in, out, nil, func([]byte) bool {
		if !s.named(in.Bucket, in.Key) {
			return false
		}
		out.UploadId = &names[len(s.uploads)]
		s.uploads = append(s.uploads, &upload{open: true})
		return true
	}), out
}

func (s *store) CreateMultipartUpload(in *s3.CreateMultipartUploadInput) (*s3.CreateMultipartUploadOutput, error) {
	r, out := s.CreateMultipartUploadRequest(in)
	return out, send(r, nil)
}

func (s *store) CreateMultipartUploadWithContext(ctx aws.Context, in *s3.CreateMultipartUploadInput, _ ...request.Option) (*s3.CreateMultipartUploadOutput, error) {
	r, out := s.CreateMultipartUploadRequest(in)
	return out, send(r, ctx)
}

func (s *store) UploadPartRequest(in *s3.UploadPartInput) (*request.Request, *s3.UploadPartOutput) {
	out := &s3.UploadPartOutput{}
	return s.op("part", in, out, func() io.ReadSeeker { return in.Body }, func(data []byte) bool {
		u := s.find(in.Bucket, in.Key, in.UploadId)
		n := aws.Int64Value(in.PartNumber)
		if u == nil || n < 1 || n > s3manager.MaxUploadParts {
			return false
		}
		s.tags++
		p := part{n, data, s.tags}
		for i := range u.parts {
			if u.parts[i].num == n {
				u.parts[i] = p
				out.ETag = &names[p.tag]
				return true
			}
		}
		u.parts = append(u.parts, p)
		out.ETag = &names[p.tag]
		return true
	}), out
}

func (s *store) UploadPart(in *s3.UploadPartInput) (*s3.UploadPartOutput, error) {
	r, out := s.UploadPartRequest(in)
	return out, send(r, nil)
}

func (s *store) UploadPartWithContext(ctx aws.Context, in *s3.UploadPartInput, _ ...request.Option) (*s3.UploadPartOutput, error) {
	r, out := s.UploadPartRequest(in)
	return out, send(r, ctx)
}

func (s *store) CompleteMultipartUploadRequest(in *s3.CompleteMultipartUploadInput) (*request.Request, *s3.CompleteMultipartUploadOutput) {
	out := &s3.CompleteMultipartUploadOutput{}
	return s.op("complete", in, out, nil, func([]byte) bool {
		u := s.find(in.Bucket, in.Key, in.UploadId)
		if u == nil || in.MultipartUpload == nil || len(in.MultipartUpload.Parts) == 0 {
			return false
		}
		var data []byte
		last := int64(0)
		for i, c := range in.MultipartUpload.Parts {
			n := aws.Int64Value(c.PartNumber)
			if n <= last {
				return false // not in order
			}
			last = n
			found := false
			for _, p := range u.parts {
				if p.num == n && names[p.tag] == aws.StringValue(c.ETag) {
					if i+1 < len(in.MultipartUpload.Parts) && int64(len(p.data)) < s3manager.MinUploadPartSize {
						return false // too small
					}
					found = true
					data = append(data, p.data...)
				}
			}
			if !found {
				return false
			}
		}
		u.open = false
		out.VersionId = s.publish(data)
		return true
	}), out
}

func (s *store) CompleteMultipartUpload(in *s3.CompleteMultipartUploadInput) (*s3.CompleteMultipartUploadOutput, error) {
	r, out := s.CompleteMultipartUploadRequest(in)
	return out, send(r, nil)
}

func (s *store) CompleteMultipartUploadWithContext(ctx aws.Context, in *s3.CompleteMultipartUploadInput, _ ...request.Option) (*s3.CompleteMultipartUploadOutput, error) {
	r, out := s.CompleteMultipartUploadRequest(in)
	return out, send(r, ctx)
}

func (s *store) AbortMultipartUploadRequest(in *s3.AbortMultipartUploadInput) (*request.Request, *s3.AbortMultipartUploadOutput) {
	out := &s3.AbortMultipartUploadOutput{}
	return s.op("abort", in, out, nil, func([]byte) bool {
		u := s.find(in.Bucket, in.Key, in.UploadId)
		if u == nil {
			return false
		}
		u.open = false
		return true
	}), out
}

func (s *store) AbortMultipartUpload(in *s3.AbortMultipartUploadInput) (*s3.AbortMultipartUploadOutput, error) {
	r, out := s.AbortMultipartUploadRequest(in)
	return out, send(r, nil)
}

func (s *store) AbortMultipartUploadWithContext(ctx aws.Context, in *s3.AbortMultipartUploadInput, _ ...request.Option) (*s3.AbortMultipartUploadOutput, error) {
	r, out := s.AbortMultipartUploadRequest(in)
	return out, send(r, ctx)
}

func (s *store) left() int {
	n := 0
	for _, u := range s.uploads {
		if u.open {
			n++
		}
	}
	return n
}

func (s *store) is(data []byte) bool {
	return len(s.versions) == 1 && bytes.Equal(s.versions[0], data)
}
