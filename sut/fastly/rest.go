//go:build !((tinygo.wasm && wasi) || wasip1) || nofastlyhostcalls

//revive:disable:exported

// The calls of the host that the guest does not use. Derived from hostcalls_noguest.go of
// compute-sdk-go (Apache License 2.0); the ones it does use are in host.go.

// Copyright 2022 Fastly, Inc.

package fastly

import (
	"fmt"
	"io"
	"net"
	"time"
)

func ParseUserAgent(userAgent string) (family, major, minor, patch string, err error) {
	return "", "", "", "", fmt.Errorf("not implemented")
}

type LogEndpoint struct{}

func GetLogEndpoint(name string) (*LogEndpoint, error) {
	return nil, fmt.Errorf("not implemented")
}

func (e *LogEndpoint) Write(p []byte) (n int, err error) {
	return 0, fmt.Errorf("not implemented")
}

func DownstreamTLSCipherOpenSSLName() (string, error) {
	return "", fmt.Errorf("not implemented")
}

func DownstreamTLSProtocol() (string, error) {
	return "", fmt.Errorf("not implemented")
}

func DownstreamTLSClientHello() ([]byte, error) {
	return nil, fmt.Errorf("not implemented")
}

func GetOriginalHeaderNames() *Values {
	return nil
}

func GetOriginalHeaderCount() (int, error) {
	return 0, fmt.Errorf("not implemented")
}

func (r *HTTPRequest) GetHeaderValue(name string, maxHeaderValueLen int) (string, error) {
	return "", fmt.Errorf("not implemented")
}

func (r *HTTPRequest) InsertHeader(name, value string) error {
	return fmt.Errorf("not implemented")
}

func (r *HTTPRequest) AppendHeader(name, value string) error {
	return fmt.Errorf("not implemented")
}

func (r *HTTPRequest) RemoveHeader(name string) error {
	return fmt.Errorf("not implemented")
}

func (r *HTTPRequest) SetVersion(v HTTPVersion) error {
	return fmt.Errorf("not implemented")
}

func (r *HTTPResponse) GetAddrDestIP() (net.IP, error) {
	return nil, fmt.Errorf("not implemented")
}

func (r *HTTPResponse) GetAddrDestPort() (uint16, error) {
	return 0, fmt.Errorf("not implemented")
}

func HandoffWebsocket(backend string) error {
	return fmt.Errorf("not implemented")
}

func HandoffFanout(backend string) error {
	return fmt.Errorf("not implemented")
}

func RegisterDynamicBackend(name string, target string, opts *BackendConfigOptions) error {
	return fmt.Errorf("not implemented")
}

func BackendExists(name string) (bool, error) {
	return false, fmt.Errorf("not implemented")
}

func BackendIsHealthy(name string) (BackendHealth, error) {
	return BackendHealthUnknown, fmt.Errorf("not implemented")
}

func BackendIsDynamic(name string) (bool, error) {
	return false, fmt.Errorf("not implemented")
}

func BackendGetHost(name string) (string, error) {
	return "", fmt.Errorf("not implemented")
}

func BackendGetOverrideHost(name string) (string, error) {
	return "", fmt.Errorf("not implemented")
}

func BackendGetPort(name string) (int, error) {
	return 0, fmt.Errorf("not implemented")
}

func BackendGetConnectTimeout(name string) (time.Duration, error) {
	return 0, fmt.Errorf("not implemented")
}

func BackendGetFirstByteTimeout(name string) (time.Duration, error) {
	return 0, fmt.Errorf("not implemented")
}

func BackendGetBetweenBytesTimeout(name string) (time.Duration, error) {
	return 0, fmt.Errorf("not implemented")
}

func BackendIsSSL(name string) (bool, error) {
	return false, fmt.Errorf("not implemented")
}

func BackendGetSSLMinVersion(name string) (TLSVersion, error) {
	return 0, fmt.Errorf("not implemented")
}

func BackendGetSSLMaxVersion(name string) (TLSVersion, error) {
	return 0, fmt.Errorf("not implemented")
}

func (r *HTTPResponse) GetHeaderValue(name string, maxHeaderValueLen int) (string, error) {
	return "", fmt.Errorf("not implemented")
}

func (r *HTTPResponse) InsertHeader(name, value string) error {
	return fmt.Errorf("not implemented")
}

func (r *HTTPResponse) AppendHeader(name, value string) error {
	return fmt.Errorf("not implemented")
}

func (r *HTTPResponse) RemoveHeader(name string) error {
	return fmt.Errorf("not implemented")
}

func (r *HTTPResponse) GetVersion() (proto string, major, minor int, err error) {
	return "", 0, 0, fmt.Errorf("not implemented")
}

func (r *HTTPResponse) SetVersion(v HTTPVersion) error {
	return fmt.Errorf("not implemented")
}

type Dictionary struct{}

func OpenDictionary(name string) (*Dictionary, error) {
	return nil, fmt.Errorf("not implemented")
}

func (d *Dictionary) GetBytes(key string) ([]byte, error) {
	return nil, fmt.Errorf("not implemented")
}

func (d *Dictionary) Get(key string) (string, error) {
	return "", fmt.Errorf("not implemented")
}

func (d *Dictionary) Has(key string) (bool, error) {
	return false, fmt.Errorf("not implemented")
}

func GeoLookup(ip net.IP) ([]byte, error) {
	return nil, fmt.Errorf("not implemented")
}

type KVStore struct{}

func OpenKVStore(name string) (*KVStore, error) {
	return nil, fmt.Errorf("not implemented")
}

func (o *KVStore) Lookup(key string) (io.Reader, error) {
	return nil, fmt.Errorf("not implemented")
}

func (o *KVStore) Insert(key string, value io.Reader) error {
	return fmt.Errorf("not implemented")
}

func (o *KVStore) Delete(key string) error {
	return fmt.Errorf("not implemented")
}

type (
	SecretStore struct{}
	Secret      struct{}
)

func OpenSecretStore(name string) (*SecretStore, error) {
	return nil, fmt.Errorf("not implemented")
}

func (s *SecretStore) Get(name string) (*Secret, error) {
	return nil, fmt.Errorf("not implemented")
}

func (s *Secret) Plaintext() ([]byte, error) {
	return nil, fmt.Errorf("not implemented")
}

func (s *Secret) Handle() secretHandle {
	return 0
}

func SecretFromBytes(b []byte) (*Secret, error) {
	return nil, fmt.Errorf("not implemented")
}

type (
	CacheLookupOptions  struct{}
	CacheGetBodyOptions struct{}
)

func (o *CacheLookupOptions) SetRequest(req *HTTPRequest) error {
	return fmt.Errorf("not implemented")
}

func (o *CacheGetBodyOptions) From(from uint64) error {
	return fmt.Errorf("not implemented")
}

func (o *CacheGetBodyOptions) To(to uint64) error {
	return fmt.Errorf("not implemented")
}

func (o *CacheWriteOptions) SetRequest(req *HTTPRequest) error {
	return fmt.Errorf("not implemented")
}

func (o *CacheWriteOptions) Vary(v []string) error {
	return fmt.Errorf("not implemented")
}

func (o *CacheWriteOptions) InitialAge(v time.Duration) error {
	return fmt.Errorf("not implemented")
}

func (o *CacheWriteOptions) StaleWhileRevalidate(v time.Duration) error {
	return fmt.Errorf("not implemented")
}

func (o *CacheWriteOptions) UserMetadata(v []byte) error {
	return fmt.Errorf("not implemented")
}

func (o *CacheWriteOptions) SensitiveData(v bool) error {
	return fmt.Errorf("not implemented")
}

func CacheInsert(key []byte, opts CacheWriteOptions) (*HTTPBody, error) {
	return nil, fmt.Errorf("not implemented")
}

func (e *CacheEntry) Update(opts CacheWriteOptions) error {
	return fmt.Errorf("not implemented")
}

type PurgeOptions struct{}

func (o *PurgeOptions) SoftPurge(v bool) error {
	return fmt.Errorf("not implemented")
}

func PurgeSurrogateKey(surrogateKey string, opts PurgeOptions) error {
	return fmt.Errorf("not implemented")
}

func DeviceLookup(userAgent string) ([]byte, error) {
	return nil, fmt.Errorf("not implemented")
}

func ERLCheckRate(rateCounter, entry string, delta uint32, window RateWindow, limit uint32, penaltyBox string, ttl time.Duration) (bool, error) {
	return false, fmt.Errorf("not implemented")
}

func RateCounterIncrement(rateCounter, entry string, delta uint32) error {
	return fmt.Errorf("not implemented")
}

func RateCounterLookupRate(rateCounter, entry string, window RateWindow) (uint32, error) {
	return 0, fmt.Errorf("not implemented")
}

func RateCounterLookupCount(rateCounter, entry string, duration CounterDuration) (uint32, error) {
	return 0, fmt.Errorf("not implemented")
}

func PenaltyBoxAdd(penaltyBox, entry string, ttl time.Duration) error {
	return fmt.Errorf("not implemented")
}

func PenaltyBoxHas(penaltyBox, entry string) (bool, error) {
	return false, fmt.Errorf("not implemented")
}

func GetVCPUMilliseconds() (uint64, error) {
	return 0, fmt.Errorf("not implemented")
}
