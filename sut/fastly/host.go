//go:build !((tinygo.wasm && wasi) || wasip1) || nofastlyhostcalls

// The calls of the edge host, answered by the harness over two pipes (descriptors 3 and 4), one
// JSON object a line. The guest program (cmd/fastly-monitor and the SDK above this package) is
// the real one; this package takes the place of the SDK's hostcalls_noguest.go, in which every
// call fails.
package fastly

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"time"
)

var host struct {
	sync.Mutex
	in  *bufio.Reader
	out *os.File
}

type hostMsg struct {
	Op      string              `json:"op,omitempty"`
	Method  string              `json:"method,omitempty"`
	URI     string              `json:"uri,omitempty"`
	Backend string              `json:"backend,omitempty"`
	Header  map[string][]string `json:"header,omitempty"`
	Status  int                 `json:"status,omitempty"`
	Body    []byte              `json:"body,omitempty"`
	Key     []byte              `json:"key,omitempty"`
	Name    string              `json:"name,omitempty"`
	Value   string              `json:"value,omitempty"`
	TTL     int64               `json:"ttl,omitempty"`
	OK      bool                `json:"ok,omitempty"`
	Must    bool                `json:"must,omitempty"`
	Cut     bool                `json:"cut,omitempty"`
}

// call sends a message to the host and waits for the answer.
func call(m hostMsg) hostMsg {
	host.Lock()
	defer host.Unlock()
	if host.out == nil {
		host.in = bufio.NewReaderSize(os.NewFile(3, "host-in"), 1<<16)
		host.out = os.NewFile(4, "host-out")
	}
	b, err := json.Marshal(m)
	if err == nil {
		_, err = host.out.Write(append(b, '\n'))
	}
	var r hostMsg
	if err == nil {
		var l []byte
		if l, err = host.in.ReadBytes('\n'); err == nil {
			err = json.Unmarshal(l, &r)
		}
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "host:", err)
		os.Exit(97)
	}
	return r
}

func values(vs []string) *Values {
	v := &Values{finished: true}
	for _, s := range vs {
		v.pending = append(append(v.pending, s...), 0)
	}
	return v
}

func names(h map[string][]string) *Values {
	var ks []string
	for k := range h {
		ks = append(ks, k)
	}
	return values(ks)
}

type HTTPBody struct {
	sync.Mutex
	b      bytes.Buffer
	closed bool
	cut    bool // reading ends with an error
	sink   func(p []byte, end bool)
	wait   *HTTPBody // the body this one is a copy of once it is complete
	n      int
}

var errBody = FastlyError{Status: FastlyStatusBadf}

func NewHTTPBody() (*HTTPBody, error) { return &HTTPBody{}, nil }

func (b *HTTPBody) Append(other *HTTPBody) error {
	_, err := io.Copy(b, other)
	return err
}

func (b *HTTPBody) Read(p []byte) (int, error) {
	b.Lock()
	defer b.Unlock()
	if w := b.wait; w != nil {
		w.Lock()
		defer w.Unlock()
		all := w.b.Bytes()
		if b.n < len(all) {
			n := copy(p, all[b.n:])
			b.n += n
			return n, nil
		}
		if !w.closed || w.cut {
			return 0, errBody
		}
		return 0, io.EOF
	}
	if b.closed && b.sink == nil && b.b.Len() == 0 && !b.cut {
		return 0, errBody
	}
	n, err := b.b.Read(p)
	if err == io.EOF && b.cut {
		err = FastlyError{Status: FastlyStatusError}
	}
	return n, err
}

func (b *HTTPBody) Write(p []byte) (int, error) {
	b.Lock()
	defer b.Unlock()
	if b.closed {
		return 0, errBody
	}
	if b.sink != nil {
		b.sink(p, false)
		return len(p), nil
	}
	return b.b.Write(p)
}

func (b *HTTPBody) Close() error {
	b.Lock()
	defer b.Unlock()
	if b.closed {
		return errBody
	}
	b.closed = true
	if b.sink != nil {
		b.sink(nil, true)
	}
	return nil
}

func (b *HTTPBody) Abandon() error {
	b.Lock()
	defer b.Unlock()
	b.closed, b.cut = true, true
	return nil
}

type HTTPRequest struct {
	method, uri string
	header      map[string][]string
}

func BodyDownstreamGet() (*HTTPRequest, *HTTPBody, error) {
	m := call(hostMsg{Op: "request"})
	b := &HTTPBody{}
	b.b.Write(m.Body)
	return &HTTPRequest{m.Method, m.URI, m.Header}, b, nil
}

func NewHTTPRequest() (*HTTPRequest, error) { return &HTTPRequest{header: map[string][]string{}}, nil }

func (r *HTTPRequest) SetCacheOverride(options CacheOverrideOptions) error { return nil }
func (r *HTTPRequest) SetAutoDecompressResponse(options AutoDecompressResponseOptions) error {
	return nil
}
func (r *HTTPRequest) SetFramingHeadersMode(manual bool) error { return nil }
func (r *HTTPRequest) GetMethod() (string, error)              { return r.method, nil }
func (r *HTTPRequest) SetMethod(method string) error           { r.method = method; return nil }
func (r *HTTPRequest) GetURI() (string, error)                 { return r.uri, nil }
func (r *HTTPRequest) SetURI(uri string) error                 { r.uri = uri; return nil }
func (r *HTTPRequest) GetVersion() (string, int, int, error)   { return "HTTP/1.1", 1, 1, nil }
func (r *HTTPRequest) GetHeaderNames(int) *Values              { return names(r.header) }
func (r *HTTPRequest) GetHeaderValues(k string, _ int) *Values { return values(r.header[k]) }
func (r *HTTPRequest) SetHeaderValues(k string, vs []string) error {
	r.header[k] = vs
	return nil
}

func DownstreamClientIPAddr() (net.IP, error) { return net.IPv4(192, 0, 2, 1), nil }
func DownstreamServerIPAddr() (net.IP, error) { return net.IPv4(192, 0, 2, 2), nil }

type PendingRequest struct {
	once sync.Once
	r    *HTTPRequest
	be   string
	resp *HTTPResponse
	body *HTTPBody
	err  error
}

func (r *PendingRequest) do() {
	r.once.Do(func() {
		m := call(hostMsg{Op: "send", Method: r.r.method, URI: r.r.uri, Backend: r.be, Header: r.r.header})
		if !m.OK {
			r.err = FastlyError{Status: FastlyStatusError}
			return
		}
		r.resp = &HTTPResponse{status: m.Status, header: m.Header}
		r.body = &HTTPBody{cut: m.Cut}
		r.body.b.Write(m.Body)
	})
}

func (r *HTTPRequest) SendAsync(_ *HTTPBody, backend string) (*PendingRequest, error) {
	if !call(hostMsg{Op: "backend", Backend: backend}).OK {
		return nil, FastlyError{Status: FastlyStatusInval}
	}
	return &PendingRequest{r: r, be: backend}, nil
}

func (r *HTTPRequest) SendAsyncStreaming(b *HTTPBody, backend string) (*PendingRequest, error) {
	return r.SendAsync(b, backend)
}

func (r *HTTPRequest) Send(b *HTTPBody, backend string) (*HTTPResponse, *HTTPBody, error) {
	p, err := r.SendAsync(b, backend)
	if err != nil {
		return nil, nil, err
	}
	return p.Wait()
}

func (r *PendingRequest) Poll() (bool, *HTTPResponse, *HTTPBody, error) {
	r.do()
	return r.err == nil, r.resp, r.body, r.err
}

func (r *PendingRequest) Wait() (*HTTPResponse, *HTTPBody, error) {
	r.do()
	return r.resp, r.body, r.err
}

type HTTPResponse struct {
	status int
	header map[string][]string
}

func NewHTTPResponse() (*HTTPResponse, error) {
	return &HTTPResponse{200, map[string][]string{}}, nil
}
func (r *HTTPResponse) GetHeaderNames(int) *Values              { return names(r.header) }
func (r *HTTPResponse) GetHeaderValues(k string, _ int) *Values { return values(r.header[k]) }
func (r *HTTPResponse) SetHeaderValues(k string, vs []string) error {
	r.header[k] = vs
	return nil
}
func (r *HTTPResponse) GetStatusCode() (int, error)             { return r.status, nil }
func (r *HTTPResponse) SetStatusCode(code int) error            { r.status = code; return nil }
func (r *HTTPResponse) SetFramingHeadersMode(manual bool) error { return nil }

// SendDownstream begins the answer; what is written to the body from now on is streamed.
func (r *HTTPResponse) SendDownstream(body *HTTPBody, stream bool) error {
	body.Lock()
	defer body.Unlock()
	call(hostMsg{Op: "respond", Status: r.status, Header: r.header, Body: body.b.Bytes()})
	body.sink = func(p []byte, end bool) {
		if end {
			call(hostMsg{Op: "end"})
		} else {
			call(hostMsg{Op: "body", Body: p})
		}
	}
	if !stream {
		body.sink(nil, true)
	}
	return nil
}

type ConfigStore struct{ name string }

func OpenConfigStore(name string) (*ConfigStore, error) {
	if !call(hostMsg{Op: "store", Name: name}).OK {
		return nil, FastlyError{Status: FastlyStatusBadf}
	}
	return &ConfigStore{name}, nil
}

func (d *ConfigStore) Get(key string) (string, error) {
	m := call(hostMsg{Op: "config", Name: d.name, Value: key})
	if !m.OK {
		return "", FastlyError{Status: FastlyStatusNone}
	}
	return m.Value, nil
}

func (d *ConfigStore) GetBytes(key string) ([]byte, error) {
	s, err := d.Get(key)
	return []byte(s), err
}

func (d *ConfigStore) Has(key string) (bool, error) {
	return call(hostMsg{Op: "config", Name: d.name, Value: key}).OK, nil
}

type CacheWriteOptions struct{ ttl time.Duration }

func (o *CacheWriteOptions) MaxAge(v time.Duration) error   { o.ttl = v; return nil }
func (o *CacheWriteOptions) SurrogateKeys(v []string) error { return nil }
func (o *CacheWriteOptions) ContentLength(v uint64) error   { return nil }

// CacheEntry is the answer of a lookup. After a transaction that found nothing, the entry has
// the obligation to insert; other lookups of the key wait until it is met or dropped.
type CacheEntry struct {
	key   []byte
	found bool
	must  bool
	body  []byte
	live  *HTTPBody
	ttl   time.Duration
}

func lookup(key []byte, tx bool) *CacheEntry {
	m := call(hostMsg{Op: "lookup", Key: key, Must: tx})
	return &CacheEntry{key: key, found: m.OK, must: m.Must, body: m.Body, ttl: time.Duration(m.TTL)}
}

func CacheTransactionLookup(key []byte, opts CacheLookupOptions) (*CacheEntry, error) {
	return lookup(key, true), nil
}

func CacheLookup(key []byte, opts CacheLookupOptions) (*CacheEntry, error) {
	return lookup(key, false), nil
}

func (e *CacheEntry) insert(opts CacheWriteOptions) (*HTTPBody, error) {
	if !e.must {
		return nil, errors.New("no obligation")
	}
	e.must = false
	w := &HTTPBody{}
	w.sink = func(p []byte, end bool) {
		w.b.Write(p)
		if end {
			call(hostMsg{Op: "insert", Key: e.key, Body: w.b.Bytes(), TTL: int64(opts.ttl)})
		}
	}
	return w, nil
}

func (e *CacheEntry) Insert(opts CacheWriteOptions) (*HTTPBody, error) { return e.insert(opts) }

func (e *CacheEntry) InsertAndStreamBack(opts CacheWriteOptions) (*HTTPBody, *CacheEntry, error) {
	w, err := e.insert(opts)
	if err != nil {
		return nil, nil, err
	}
	return w, &CacheEntry{key: e.key, found: true, live: w, ttl: opts.ttl}, nil
}

func (e *CacheEntry) Cancel() error { return e.Close() }

func (c *CacheEntry) Close() error {
	if c.must {
		c.must = false
		call(hostMsg{Op: "drop", Key: c.key})
	}
	return nil
}

func (c *CacheEntry) State() (CacheLookupState, error) {
	var s CacheLookupState
	if c.found {
		s |= CacheLookupStateFound | CacheLookupStateUsable
	}
	if c.must {
		s |= CacheLookupStateMustInsertOrUpdate
	}
	return s, nil
}

func (c *CacheEntry) Body(opts CacheGetBodyOptions) (*HTTPBody, error) {
	if c.live != nil {
		return &HTTPBody{wait: c.live}, nil
	}
	b := &HTTPBody{}
	b.b.Write(c.body)
	return b, nil
}

func (c *CacheEntry) UserMetadata() ([]byte, error)                { return nil, nil }
func (c *CacheEntry) Length() (uint64, error)                      { return uint64(len(c.body)), nil }
func (c *CacheEntry) MaxAge() (time.Duration, error)               { return c.ttl, nil }
func (c *CacheEntry) StaleWhileRevalidate() (time.Duration, error) { return 0, nil }
func (c *CacheEntry) Age() (time.Duration, error)                  { return 0, nil }
func (c *CacheEntry) Hits() (uint64, error)                        { return 0, nil }
