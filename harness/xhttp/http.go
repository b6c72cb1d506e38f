//go:build go1.22

// Package http is net/http with another Transport: one whose requests are
// answered by the harness or end when the connection has been dialled, on the
// goroutine that made them.
package http

import (
	"context"
	"crypto/tls"
	"errors"
	"net"
	"net/http"
	"net/url"
	"time"
)

// Answer answers requests if set.
var Answer func(*Request) (*Response, error)

var errNotSent = errors.New("connections end where they are dialled")

type Transport struct {
	Proxy                  func(*Request) (*url.URL, error)
	OnProxyConnectResponse func(ctx context.Context, proxyURL *url.URL, connectReq *Request, connectRes *Response) error
	DialContext            func(ctx context.Context, network, addr string) (net.Conn, error)
	Dial                   func(network, addr string) (net.Conn, error)
	DialTLSContext         func(ctx context.Context, network, addr string) (net.Conn, error)
	DialTLS                func(network, addr string) (net.Conn, error)
	TLSClientConfig        *tls.Config
	TLSHandshakeTimeout    time.Duration
	DisableKeepAlives      bool
	DisableCompression     bool
	MaxIdleConns           int
	MaxIdleConnsPerHost    int
	MaxConnsPerHost        int
	IdleConnTimeout        time.Duration
	ResponseHeaderTimeout  time.Duration
	ExpectContinueTimeout  time.Duration
	TLSNextProto           map[string]func(authority string, c *tls.Conn) RoundTripper
	ProxyConnectHeader     Header
	GetProxyConnectHeader  func(ctx context.Context, proxyURL *url.URL, target string) (Header, error)
	MaxResponseHeaderBytes int64
	WriteBufferSize        int
	ReadBufferSize         int
	ForceAttemptHTTP2      bool
	HTTP2                  *HTTP2Config
	Protocols              *Protocols
}

func (t *Transport) CloseIdleConnections()                 {}
func (t *Transport) CancelRequest(*Request)                {}
func (t *Transport) RegisterProtocol(string, RoundTripper) {}
func (t *Transport) Clone() *Transport                     { c := *t; return &c }

func (t *Transport) RoundTrip(req *Request) (*Response, error) {
	if Answer != nil {
		return Answer(req)
	}
	addr := req.URL.Host
	if req.URL.Port() == "" {
		port := "80"
		if req.URL.Scheme == "https" {
			port = "443"
		}
		addr = net.JoinHostPort(req.URL.Hostname(), port)
	}
	var err error
	switch {
	case req.URL.Scheme == "https" && t.DialTLSContext != nil:
		_, err = t.DialTLSContext(req.Context(), "tcp", addr)
	case req.URL.Scheme == "https" && t.DialTLS != nil:
		_, err = t.DialTLS("tcp", addr)
	case t.DialContext != nil:
		_, err = t.DialContext(req.Context(), "tcp", addr)
	case t.Dial != nil:
		_, err = t.Dial("tcp", addr)
	}
	if err == nil {
		err = errNotSent
	}
	return nil, err
}

type (
	Client                = http.Client
	ClientConn            = http.ClientConn
	CloseNotifier         = http.CloseNotifier
	ConnState             = http.ConnState
	Cookie                = http.Cookie
	CookieJar             = http.CookieJar
	CrossOriginProtection = http.CrossOriginProtection
	Dir                   = http.Dir
	File                  = http.File
	FileSystem            = http.FileSystem
	Flusher               = http.Flusher
	HTTP2Config           = http.HTTP2Config
	Handler               = http.Handler
	HandlerFunc           = http.HandlerFunc
	Header                = http.Header
	Hijacker              = http.Hijacker
	MaxBytesError         = http.MaxBytesError
	ProtocolError         = http.ProtocolError
	Protocols             = http.Protocols
	PushOptions           = http.PushOptions
	Pusher                = http.Pusher
	Request               = http.Request
	Response              = http.Response
	ResponseController    = http.ResponseController
	ResponseWriter        = http.ResponseWriter
	RoundTripper          = http.RoundTripper
	SameSite              = http.SameSite
	ServeMux              = http.ServeMux
	Server                = http.Server
)

const (
	DefaultMaxHeaderBytes               = http.DefaultMaxHeaderBytes
	DefaultMaxHeaderValueCount          = http.DefaultMaxHeaderValueCount
	DefaultMaxIdleConnsPerHost          = http.DefaultMaxIdleConnsPerHost
	MethodConnect                       = http.MethodConnect
	MethodDelete                        = http.MethodDelete
	MethodGet                           = http.MethodGet
	MethodHead                          = http.MethodHead
	MethodOptions                       = http.MethodOptions
	MethodPatch                         = http.MethodPatch
	MethodPost                          = http.MethodPost
	MethodPut                           = http.MethodPut
	MethodTrace                         = http.MethodTrace
	SameSiteDefaultMode                 = http.SameSiteDefaultMode
	SameSiteLaxMode                     = http.SameSiteLaxMode
	SameSiteNoneMode                    = http.SameSiteNoneMode
	SameSiteStrictMode                  = http.SameSiteStrictMode
	StateActive                         = http.StateActive
	StateClosed                         = http.StateClosed
	StateHijacked                       = http.StateHijacked
	StateIdle                           = http.StateIdle
	StateNew                            = http.StateNew
	StatusAccepted                      = http.StatusAccepted
	StatusAlreadyReported               = http.StatusAlreadyReported
	StatusBadGateway                    = http.StatusBadGateway
	StatusBadRequest                    = http.StatusBadRequest
	StatusConflict                      = http.StatusConflict
	StatusContinue                      = http.StatusContinue
	StatusCreated                       = http.StatusCreated
	StatusEarlyHints                    = http.StatusEarlyHints
	StatusExpectationFailed             = http.StatusExpectationFailed
	StatusFailedDependency              = http.StatusFailedDependency
	StatusForbidden                     = http.StatusForbidden
	StatusFound                         = http.StatusFound
	StatusGatewayTimeout                = http.StatusGatewayTimeout
	StatusGone                          = http.StatusGone
	StatusHTTPVersionNotSupported       = http.StatusHTTPVersionNotSupported
	StatusIMUsed                        = http.StatusIMUsed
	StatusInsufficientStorage           = http.StatusInsufficientStorage
	StatusInternalServerError           = http.StatusInternalServerError
	StatusLengthRequired                = http.StatusLengthRequired
	StatusLocked                        = http.StatusLocked
	StatusLoopDetected                  = http.StatusLoopDetected
	StatusMethodNotAllowed              = http.StatusMethodNotAllowed
	StatusMisdirectedRequest            = http.StatusMisdirectedRequest
	StatusMovedPermanently              = http.StatusMovedPermanently
	StatusMultiStatus                   = http.StatusMultiStatus
	StatusMultipleChoices               = http.StatusMultipleChoices
	StatusNetworkAuthenticationRequired = http.StatusNetworkAuthenticationRequired
	StatusNoContent                     = http.StatusNoContent
	StatusNonAuthoritativeInfo          = http.StatusNonAuthoritativeInfo
	StatusNotAcceptable                 = http.StatusNotAcceptable
	StatusNotExtended                   = http.StatusNotExtended
	StatusNotFound                      = http.StatusNotFound
	StatusNotImplemented                = http.StatusNotImplemented
	StatusNotModified                   = http.StatusNotModified
	StatusOK                            = http.StatusOK
	StatusPartialContent                = http.StatusPartialContent
	StatusPaymentRequired               = http.StatusPaymentRequired
	StatusPermanentRedirect             = http.StatusPermanentRedirect
	StatusPreconditionFailed            = http.StatusPreconditionFailed
	StatusPreconditionRequired          = http.StatusPreconditionRequired
	StatusProcessing                    = http.StatusProcessing
	StatusProxyAuthRequired             = http.StatusProxyAuthRequired
	StatusRequestEntityTooLarge         = http.StatusRequestEntityTooLarge
	StatusRequestHeaderFieldsTooLarge   = http.StatusRequestHeaderFieldsTooLarge
	StatusRequestTimeout                = http.StatusRequestTimeout
	StatusRequestURITooLong             = http.StatusRequestURITooLong
	StatusRequestedRangeNotSatisfiable  = http.StatusRequestedRangeNotSatisfiable
	StatusResetContent                  = http.StatusResetContent
	StatusSeeOther                      = http.StatusSeeOther
	StatusServiceUnavailable            = http.StatusServiceUnavailable
	StatusSwitchingProtocols            = http.StatusSwitchingProtocols
	StatusTeapot                        = http.StatusTeapot
	StatusTemporaryRedirect             = http.StatusTemporaryRedirect
	StatusTooEarly                      = http.StatusTooEarly
	StatusTooManyRequests               = http.StatusTooManyRequests
	StatusUnauthorized                  = http.StatusUnauthorized
	StatusUnavailableForLegalReasons    = http.StatusUnavailableForLegalReasons
	StatusUnprocessableEntity           = http.StatusUnprocessableEntity
	StatusUnsupportedMediaType          = http.StatusUnsupportedMediaType
	StatusUpgradeRequired               = http.StatusUpgradeRequired
	StatusUseProxy                      = http.StatusUseProxy
	StatusVariantAlsoNegotiates         = http.StatusVariantAlsoNegotiates
	TimeFormat                          = http.TimeFormat
	TrailerPrefix                       = http.TrailerPrefix
)

var (
	AllowQuerySemicolons     = http.AllowQuerySemicolons
	CanonicalHeaderKey       = http.CanonicalHeaderKey
	DefaultClient            = http.DefaultClient
	DefaultServeMux          = http.DefaultServeMux
	DefaultTransport         = http.DefaultTransport
	DetectContentType        = http.DetectContentType
	ErrAbortHandler          = http.ErrAbortHandler
	ErrBodyNotAllowed        = http.ErrBodyNotAllowed
	ErrBodyReadAfterClose    = http.ErrBodyReadAfterClose
	ErrContentLength         = http.ErrContentLength
	ErrHandlerTimeout        = http.ErrHandlerTimeout
	ErrHeaderTooLong         = http.ErrHeaderTooLong
	ErrHijacked              = http.ErrHijacked
	ErrLineTooLong           = http.ErrLineTooLong
	ErrMissingBoundary       = http.ErrMissingBoundary
	ErrMissingContentLength  = http.ErrMissingContentLength
	ErrMissingFile           = http.ErrMissingFile
	ErrNoCookie              = http.ErrNoCookie
	ErrNoLocation            = http.ErrNoLocation
	ErrNotMultipart          = http.ErrNotMultipart
	ErrNotSupported          = http.ErrNotSupported
	ErrSchemeMismatch        = http.ErrSchemeMismatch
	ErrServerClosed          = http.ErrServerClosed
	ErrShortBody             = http.ErrShortBody
	ErrSkipAltProtocol       = http.ErrSkipAltProtocol
	ErrUnexpectedTrailer     = http.ErrUnexpectedTrailer
	ErrUseLastResponse       = http.ErrUseLastResponse
	ErrWriteAfterFlush       = http.ErrWriteAfterFlush
	Error                    = http.Error
	FS                       = http.FS
	FileServer               = http.FileServer
	FileServerFS             = http.FileServerFS
	Get                      = http.Get
	Handle                   = http.Handle
	HandleFunc               = http.HandleFunc
	Head                     = http.Head
	ListenAndServe           = http.ListenAndServe
	ListenAndServeTLS        = http.ListenAndServeTLS
	LocalAddrContextKey      = http.LocalAddrContextKey
	MaxBytesHandler          = http.MaxBytesHandler
	MaxBytesReader           = http.MaxBytesReader
	NewCrossOriginProtection = http.NewCrossOriginProtection
	NewFileTransport         = http.NewFileTransport
	NewFileTransportFS       = http.NewFileTransportFS
	NewRequest               = http.NewRequest
	NewRequestWithContext    = http.NewRequestWithContext
	NewResponseController    = http.NewResponseController
	NewServeMux              = http.NewServeMux
	NoBody                   = http.NoBody
	NotFound                 = http.NotFound
	NotFoundHandler          = http.NotFoundHandler
	ParseCookie              = http.ParseCookie
	ParseHTTPVersion         = http.ParseHTTPVersion
	ParseSetCookie           = http.ParseSetCookie
	ParseTime                = http.ParseTime
	Post                     = http.Post
	PostForm                 = http.PostForm
	ProxyFromEnvironment     = http.ProxyFromEnvironment
	ProxyURL                 = http.ProxyURL
	ReadRequest              = http.ReadRequest
	ReadResponse             = http.ReadResponse
	Redirect                 = http.Redirect
	RedirectHandler          = http.RedirectHandler
	Serve                    = http.Serve
	ServeContent             = http.ServeContent
	ServeFile                = http.ServeFile
	ServeFileFS              = http.ServeFileFS
	ServeTLS                 = http.ServeTLS
	ServerContextKey         = http.ServerContextKey
	SetCookie                = http.SetCookie
	StatusText               = http.StatusText
	StripPrefix              = http.StripPrefix
	TimeoutHandler           = http.TimeoutHandler
)
