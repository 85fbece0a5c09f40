package bk

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"math/rand"
	"mime"
	"mime/multipart"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/Azure/azure-sdk-for-go/sdk/azcore"
	"github.com/Azure/azure-sdk-for-go/sdk/azcore/policy"
	"github.com/Azure/azure-sdk-for-go/sdk/storage/azblob"
	"github.com/aws/aws-sdk-go-v2/aws"
	"github.com/cybozu-go/moco/pkg/bucket"
	"google.golang.org/api/option"

	"verifharness/vlib"
)

// Store is an object storage service; it speaks the S3, GCS and Azure Blob
// protocols as far as the adapters use them. Uploads become visible only when
// the protocol's last step succeeded.
type Store struct {
	mu                  sync.Locker
	onPublish           func(key string, b []byte)
	region, wrongRegion string
	rng                 *rand.Rand
	name                string
	objs                map[string][]byte
	uploads             map[string]*upload
	seq                 int
	page                int
	// failures to come: request ordinal -> kind
	fail  map[int]string
	every string // every request fails this way
	nreq  int
	fired int
	odd   []string
	log   []string
	done  int // objects that became visible
}

type upload struct {
	key    string
	parts  map[string][]byte
	buf    []byte
	closed bool
}

type reply struct {
	code int
	hdr  map[string]string
	body []byte
}

func xmlReply(code int, v any) reply {
	b, _ := xml.Marshal(v)
	return reply{code, map[string]string{"Content-Type": "application/xml"}, append([]byte(xml.Header), b...)}
}

func jsonReply(code int, v any) reply {
	b, _ := json.Marshal(v)
	return reply{code, map[string]string{"Content-Type": "application/json"}, b}
}

type cutBody struct {
	r    io.Reader
	left int
}

func (c *cutBody) Read(p []byte) (int, error) {
	if c.left <= 0 {
		return 0, io.ErrUnexpectedEOF
	}
	if len(p) > c.left {
		p = p[:c.left]
	}
	n, err := c.r.Read(p)
	c.left -= n
	return n, err
}

func (c *cutBody) Close() error { return nil }

// RoundTrip serves a request in the process.
func (s *Store) RoundTrip(r *http.Request) (*http.Response, error) {
	if err := r.Context().Err(); err != nil {
		return nil, err
	}
	var body []byte
	if r.Body != nil {
		var err error
		body, err = io.ReadAll(r.Body)
		_ = r.Body.Close()
		if err != nil {
			return nil, err
		}
		if r.ContentLength > 0 && int64(len(body)) != r.ContentLength {
			return nil, errors.New("the body differs from its Content-Length")
		}
	}
	orig := r
	r = r.Clone(r.Context())
	for k, v := range orig.Header {
		r.Header[http.CanonicalHeaderKey(k)] = v
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.nreq++
	kind := s.fail[s.nreq]
	if s.every != "" {
		kind = s.every
	}
	s.log = append(s.log, fmt.Sprintf("%s %s (%d bytes) %s", r.Method, r.URL, len(body), kind))
	if kind != "" {
		s.fired++
	}
	switch kind {
	case "drop":
		return nil, errors.New("connection reset by peer")
	case "500", "503", "403":
		c, _ := strconv.Atoi(kind)
		return resp(r, s.errReply(r, c)), nil
	}
	rep := s.serve(r, body)
	if kind == "lost" {
		return nil, errors.New("connection reset by peer")
	}
	w := resp(r, rep)
	if kind == "cut" && len(rep.body) > 0 {
		w.Body = &cutBody{bytes.NewReader(rep.body), s.rng.Intn(len(rep.body))}
	}
	return w, nil
}

func resp(r *http.Request, p reply) *http.Response {
	h := http.Header{}
	for k, v := range p.hdr {
		h.Set(k, v)
	}
	h.Set("Content-Length", strconv.Itoa(len(p.body)))
	b := p.body
	if r.Method == "HEAD" {
		b = nil
	}
	return &http.Response{StatusCode: p.code, Status: fmt.Sprintf("%d %s", p.code, http.StatusText(p.code)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: io.NopCloser(bytes.NewReader(b)), ContentLength: int64(len(p.body)), Request: r}
}

// ServeHTTP serves over the network, without failures.
func (s *Store) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	body, _ := io.ReadAll(r.Body)
	s.mu.Lock()
	p := s.serve(r, body)
	s.mu.Unlock()
	for k, v := range p.hdr {
		w.Header().Set(k, v)
	}
	w.WriteHeader(p.code)
	if r.Method != "HEAD" {
		_, _ = w.Write(p.body)
	}
}

func (s *Store) kind(r *http.Request) string {
	switch {
	case r.Header.Get("x-ms-version") != "":
		return "azure"
	case strings.Contains(r.Host, "gcs") || strings.Contains(r.URL.Path, "/storage/v1/"):
		return "gcs"
	}
	return "s3"
}

func (s *Store) errReply(r *http.Request, code int) reply {
	switch s.kind(r) {
	case "gcs":
		return jsonReply(code, map[string]any{"error": map[string]any{"code": code, "message": "failure"}})
	case "azure":
		c := map[int]string{403: "AuthorizationFailure", 404: "BlobNotFound"}[code]
		if c == "" {
			c = "InternalError"
		}
		p := xmlReply(code, struct {
			XMLName xml.Name `xml:"Error"`
			Code    string
			Message string
		}{Code: c, Message: "failure"})
		p.hdr["x-ms-error-code"] = c
		return p
	}
	c := map[int]string{403: "AccessDenied", 404: "NoSuchKey", 503: "SlowDown"}[code]
	if c == "" {
		c = "InternalError"
	}
	return xmlReply(code, struct {
		XMLName xml.Name `xml:"Error"`
		Code    string
		Message string
	}{Code: c, Message: "failure"})
}

func (s *Store) serve(r *http.Request, body []byte) reply {
	switch s.kind(r) {
	case "gcs":
		return s.gcs(r, body)
	case "azure":
		return s.azure(r, body)
	}
	return s.s3(r, body)
}

func (s *Store) publish(key string, b []byte) {
	s.objs[key] = b
	s.done++
	if s.onPublish != nil {
		s.onPublish(key, b)
	}
	s.log = append(s.log, fmt.Sprintf("visible: %s (%d bytes)", key, len(b)))
}

func (s *Store) list(prefix, after string) (keys []string, next string) {
	for k := range s.objs {
		if strings.HasPrefix(k, prefix) && k > after {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	if len(keys) > s.page {
		keys = keys[:s.page]
		next = keys[len(keys)-1]
	}
	return keys, next
}

func deChunk(b []byte) ([]byte, error) {
	var r []byte
	for {
		i := bytes.Index(b, []byte("\r\n"))
		if i < 0 {
			return nil, errors.New("bad chunk")
		}
		h, _, _ := strings.Cut(string(b[:i]), ";")
		n, err := strconv.ParseInt(h, 16, 64)
		if err != nil {
			return nil, err
		}
		b = b[i+2:]
		if n == 0 {
			return r, nil
		}
		if int64(len(b)) < n+2 {
			return nil, errors.New("short chunk")
		}
		r = append(r, b[:n]...)
		b = b[n+2:]
	}
}

func (s *Store) s3(r *http.Request, body []byte) reply {
	if a := r.Header.Get("Authorization"); s.region != "" && a != "" && !strings.Contains(a, "/"+s.region+"/s3/") {
		s.wrongRegion = a
	}
	p := strings.TrimPrefix(r.URL.Path, "/")
	b, key, _ := strings.Cut(p, "/")
	if b != s.name {
		return s.errReply(r, 404)
	}
	if strings.Contains(r.Header.Get("Content-Encoding"), "aws-chunked") {
		d, err := deChunk(body)
		if err != nil {
			return s.errReply(r, 400)
		}
		body = d
	}
	if c := r.Header.Get("x-amz-checksum-crc32"); c != "" {
		var x [4]byte
		n := crc32.ChecksumIEEE(body)
		x[0], x[1], x[2], x[3] = byte(n>>24), byte(n>>16), byte(n>>8), byte(n)
		if base64.StdEncoding.EncodeToString(x[:]) != c {
			return s.errReply(r, 400)
		}
	}
	q := r.URL.Query()
	id := q.Get("uploadId")
	switch {
	case r.Method == "GET" && key == "" && q.Get("list-type") == "2":
		keys, next := s.list(q.Get("prefix"), q.Get("continuation-token"))
		type obj struct{ Key string }
		v := struct {
			XMLName               xml.Name `xml:"ListBucketResult"`
			Name                  string
			KeyCount              int
			MaxKeys               int
			IsTruncated           bool
			NextContinuationToken string `xml:",omitempty"`
			Contents              []obj
		}{Name: b, KeyCount: len(keys), MaxKeys: s.page, IsTruncated: next != "", NextContinuationToken: next}
		for _, k := range keys {
			v.Contents = append(v.Contents, obj{k})
		}
		return xmlReply(200, v)
	case r.Method == "GET" && key != "":
		d, ok := s.objs[key]
		if !ok {
			return s.errReply(r, 404)
		}
		return reply{200, map[string]string{"Content-Type": "application/octet-stream", "ETag": `"x"`}, d}
	case r.Method == "POST" && q.Has("uploads"):
		s.seq++
		id := fmt.Sprintf("up%d", s.seq)
		s.uploads[id] = &upload{key: key, parts: map[string][]byte{}}
		return xmlReply(200, struct {
			XMLName  xml.Name `xml:"InitiateMultipartUploadResult"`
			Bucket   string
			Key      string
			UploadId string
		}{Bucket: b, Key: key, UploadId: id})
	case r.Method == "PUT" && id != "":
		u := s.uploads[id]
		if u == nil || u.closed {
			return s.errReply(r, 404)
		}
		n := q.Get("partNumber")
		u.parts[n] = body
		return reply{200, map[string]string{"ETag": `"p` + n + `"`}, nil}
	case r.Method == "POST" && id != "":
		u := s.uploads[id]
		if u == nil || u.closed {
			return s.errReply(r, 404)
		}
		var v struct {
			Part []struct {
				PartNumber int
				ETag       string
			}
		}
		if err := xml.Unmarshal(body, &v); err != nil {
			return s.errReply(r, 400)
		}
		var all []byte
		for _, x := range v.Part {
			d, ok := u.parts[strconv.Itoa(x.PartNumber)]
			if !ok {
				return s.errReply(r, 400)
			}
			all = append(all, d...)
		}
		u.closed = true
		s.publish(u.key, all)
		return xmlReply(200, struct {
			XMLName xml.Name `xml:"CompleteMultipartUploadResult"`
			Bucket  string
			Key     string
			ETag    string
		}{Bucket: b, Key: u.key, ETag: `"e"`})
	case r.Method == "DELETE" && id != "":
		if u := s.uploads[id]; u != nil {
			u.closed = true
		}
		return reply{204, nil, nil}
	case r.Method == "PUT" && key != "":
		s.publish(key, body)
		return reply{200, map[string]string{"ETag": `"e"`}, nil}
	}
	s.odd = append(s.odd, "s3 "+r.Method+" "+r.URL.String())
	return s.errReply(r, 501)
}

func (s *Store) gcs(r *http.Request, body []byte) reply {
	q := r.URL.Query()
	path := r.URL.EscapedPath()
	obj := func(k string) reply {
		return jsonReply(200, map[string]any{"kind": "storage#object", "name": k, "bucket": s.name, "size": strconv.Itoa(len(s.objs[k])), "generation": "1", "metageneration": "1",
			"crc32c": crcC(s.objs[k])})
	}
	switch {
	case strings.HasPrefix(path, "/upload/storage/v1/b/"+s.name+"/o") || strings.HasPrefix(path, "/resumable/"):
		switch {
		case q.Get("uploadType") == "multipart":
			_, ps, err := mime.ParseMediaType(r.Header.Get("Content-Type"))
			if err != nil {
				return s.errReply(r, 400)
			}
			m := multipart.NewReader(bytes.NewReader(body), ps["boundary"])
			a, err := m.NextPart()
			if err != nil {
				return s.errReply(r, 400)
			}
			var meta struct{ Name string }
			ab, _ := io.ReadAll(a)
			_ = json.Unmarshal(ab, &meta)
			d, err := m.NextPart()
			if err != nil {
				return s.errReply(r, 400)
			}
			db, err := io.ReadAll(d)
			if err != nil {
				return s.errReply(r, 400)
			}
			name := meta.Name
			if name == "" {
				name = q.Get("name")
			}
			s.publish(name, db)
			return obj(name)
		case q.Get("uploadType") == "resumable" && q.Get("upload_id") == "":
			var meta struct{ Name string }
			_ = json.Unmarshal(body, &meta)
			if meta.Name == "" {
				meta.Name = q.Get("name")
			}
			s.seq++
			id := fmt.Sprintf("up%d", s.seq)
			s.uploads[id] = &upload{key: meta.Name}
			return reply{200, map[string]string{"Location": fmt.Sprintf("%s://%s/upload/storage/v1/b/%s/o?uploadType=resumable&upload_id=%s", scheme(r), r.Host, s.name, id)}, nil}
		case q.Get("upload_id") != "":
			u := s.uploads[q.Get("upload_id")]
			if u == nil {
				return s.errReply(r, 404)
			}
			if r.Method == "DELETE" {
				delete(s.uploads, q.Get("upload_id"))
				return reply{499, nil, nil}
			}
			if u.closed {
				return obj(u.key)
			}
			var a, b int64
			total := "*"
			cr := r.Header.Get("Content-Range")
			if n, _ := fmt.Sscanf(cr, "bytes %d-%d/%s", &a, &b, &total); n < 2 {
				if _, err := fmt.Sscanf(cr, "bytes */%s", &total); err != nil {
					return s.errReply(r, 400)
				}
				a, b = int64(len(u.buf)), int64(len(u.buf))-1
			}
			if a <= int64(len(u.buf)) && a+int64(len(body)) >= int64(len(u.buf)) {
				u.buf = append(u.buf[:a:a], body...)
			} else if a > int64(len(u.buf)) {
				return s.errReply(r, 503)
			}
			if total != "*" {
				if n, _ := strconv.Atoi(total); n == len(u.buf) {
					u.closed = true
					s.publish(u.key, u.buf)
					return obj(u.key)
				}
			}
			h := map[string]string{"X-HTTP-Status-Code-Override": "308"}
			if len(u.buf) > 0 {
				h["Range"] = fmt.Sprintf("bytes=0-%d", len(u.buf)-1)
			}
			// the client asks for the override of the status
			if r.Header.Get("X-GUploader-No-308") == "yes" {
				return reply{200, h, nil}
			}
			return reply{308, h, nil}
		}
	case r.Method == "GET" && path == "/storage/v1/b/"+s.name+"/o":
		keys, next := s.list(q.Get("prefix"), q.Get("pageToken"))
		var items []map[string]any
		for _, k := range keys {
			items = append(items, map[string]any{"kind": "storage#object", "name": k, "bucket": s.name})
		}
		return jsonReply(200, map[string]any{"kind": "storage#objects", "items": items, "nextPageToken": next})
	case r.Method == "GET" && (strings.HasPrefix(path, "/"+s.name+"/") || strings.HasPrefix(path, "/storage/v1/b/"+s.name+"/o/")):
		e := strings.TrimPrefix(strings.TrimPrefix(path, "/storage/v1/b/"+s.name+"/o/"), "/"+s.name+"/")
		k, _ := url.PathUnescape(e)
		d, ok := s.objs[k]
		if !ok {
			return s.errReply(r, 404)
		}
		h := map[string]string{"Content-Type": "application/octet-stream", "x-goog-hash": "crc32c=" + crcC(d), "x-goog-generation": "1", "x-goog-stored-content-length": strconv.Itoa(len(d))}
		if rg := r.Header.Get("Range"); rg != "" {
			var a int
			if n, _ := fmt.Sscanf(rg, "bytes=%d-", &a); n == 1 && a > 0 && a <= len(d) {
				h["Content-Range"] = fmt.Sprintf("bytes %d-%d/%d", a, len(d)-1, len(d))
				return reply{206, h, d[a:]}
			}
		}
		return reply{200, h, d}
	}
	s.odd = append(s.odd, "gcs "+r.Method+" "+r.URL.String())
	return s.errReply(r, 501)
}

func scheme(r *http.Request) string {
	if r.URL.Scheme != "" {
		return r.URL.Scheme
	}
	return "http"
}

func crcC(b []byte) string {
	n := crc32.Checksum(b, crc32.MakeTable(crc32.Castagnoli))
	return base64.StdEncoding.EncodeToString([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)})
}

func (s *Store) azure(r *http.Request, body []byte) reply {
	p := strings.TrimPrefix(r.URL.Path, "/")
	p = strings.TrimPrefix(p, "devstoreaccount1/")
	c, key, _ := strings.Cut(p, "/")
	if c != s.name {
		return s.errReply(r, 404)
	}
	q := r.URL.Query()
	ok := map[string]string{"x-ms-version": "2020-10-02", "ETag": `"0x1"`, "Last-Modified": "Mon, 01 Jan 2001 00:00:00 GMT"}
	switch {
	case r.Method == "GET" && q.Get("comp") == "list":
		keys, next := s.list(q.Get("prefix"), q.Get("marker"))
		type blob struct{ Name string }
		v := struct {
			XMLName    xml.Name `xml:"EnumerationResults"`
			Blobs      []blob   `xml:"Blobs>Blob"`
			NextMarker string
		}{NextMarker: next}
		for _, k := range keys {
			v.Blobs = append(v.Blobs, blob{k})
		}
		return xmlReply(200, v)
	case r.Method == "GET" && key != "":
		d, found := s.objs[key]
		if !found {
			return s.errReply(r, 404)
		}
		ok["Content-Type"] = "application/octet-stream"
		if rg := r.Header.Get("x-ms-range"); rg != "" {
			var a int
			if n, _ := fmt.Sscanf(rg, "bytes=%d-", &a); n == 1 && a > 0 && a <= len(d) {
				ok["Content-Range"] = fmt.Sprintf("bytes %d-%d/%d", a, len(d)-1, len(d))
				return reply{206, ok, d[a:]}
			}
		}
		return reply{200, ok, d}
	case r.Method == "PUT" && q.Get("comp") == "block":
		u := s.uploads[key]
		if u == nil {
			u = &upload{key: key, parts: map[string][]byte{}}
			s.uploads[key] = u
		}
		u.parts[q.Get("blockid")] = body
		return reply{201, ok, nil}
	case r.Method == "PUT" && q.Get("comp") == "blocklist":
		var v struct {
			Latest      []string
			Uncommitted []string
			Committed   []string
		}
		if err := xml.Unmarshal(body, &v); err != nil {
			return s.errReply(r, 400)
		}
		var all []byte
		u := s.uploads[key]
		for _, id := range append(v.Latest, v.Uncommitted...) {
			if u == nil {
				return s.errReply(r, 400)
			}
			d, found := u.parts[id]
			if !found {
				return s.errReply(r, 400)
			}
			all = append(all, d...)
		}
		delete(s.uploads, key)
		s.publish(key, all)
		return reply{201, ok, nil}
	case r.Method == "PUT" && r.Header.Get("x-ms-blob-type") == "BlockBlob":
		s.publish(key, body)
		return reply{201, ok, nil}
	}
	s.log = append(s.log, "not modelled: "+r.URL.String())
	s.odd = append(s.odd, "azure "+r.Method+" "+r.URL.String())
	return s.errReply(r, 501)
}

// ---- the check ----

type cred struct{}

func (cred) GetToken(ctx context.Context, o policy.TokenRequestOptions) (azcore.AccessToken, error) {
	return azcore.AccessToken{Token: "t", ExpiresOn: time.Now().Add(time.Hour)}, nil
}

type transporter struct{ s *Store }

func (t transporter) Do(r *http.Request) (*http.Response, error) { return t.s.RoundTrip(r) }

func newStore(r *rand.Rand, name string) *Store {
	return &Store{mu: &sync.Mutex{}, rng: r, name: name, objs: map[string][]byte{}, uploads: map[string]*upload{}, page: 1 + r.Intn(7), fail: map[int]string{}}
}

func open(kind string, s *Store) (bucket.Bucket, error) {
	switch kind {
	case "s3":
		return bucket.NewS3Bucket(s.name, bucket.WithHTTPClient(&http.Client{Transport: s}), bucket.WithRegion("us-east-1"), bucket.WithEndpointURL("http://s3.invalid"), bucket.WithPathStyle(),
			bucket.WithCredentials(aws.CredentialsProviderFunc(func(context.Context) (aws.Credentials, error) {
				return aws.Credentials{AccessKeyID: "a", SecretAccessKey: "b"}, nil
			})))
	case "gcs":
		return bucket.NewGCSBucket(context.Background(), s.name, option.WithEndpoint("http://gcs.invalid/storage/v1/"), option.WithHTTPClient(&http.Client{Transport: s}))
	}
	return bucket.NewAzureBucket(context.Background(), "https://acct.blob.core.windows.net/", s.name, cred{}, bucket.WithAzureClientOptions(&azblob.ClientOptions{ClientOptions: azcore.ClientOptions{Transport: transporter{s}}}))
}

var errSource = errors.New("the source of the data failed")

// oddReader returns data in irregular pieces, and errSource after `fail` bytes (if >= 0).
type oddReader struct {
	r    *rand.Rand
	b    []byte
	fail int
	n    int
}

func (o *oddReader) Read(p []byte) (int, error) {
	if o.fail >= 0 && o.n >= o.fail {
		return 0, errSource
	}
	if len(o.b) == 0 {
		return 0, io.EOF
	}
	k := min(len(p), len(o.b))
	if k > 1 && o.r.Intn(3) > 0 {
		k = 1 + o.r.Intn(k)
	}
	if o.fail >= 0 {
		k = min(k, max(o.fail-o.n, 0))
	}
	copy(p, o.b[:k])
	o.b = o.b[k:]
	o.n += k
	if len(o.b) == 0 && o.fail < 0 && o.r.Intn(2) == 0 {
		return k, io.EOF
	}
	return k, nil
}

func runBucket(kind string, seed int64, rep *vlib.Report, big bool) {
	r := rand.New(rand.NewSource(seed))
	s := newStore(r, "bkt")
	cs := fmt.Sprintf("%s/%d", kind, seed)
	viol := func(rule, f string, a ...any) {
		rep.Violate("B04", rule, kind+": "+fmt.Sprintf(f, a...), cs, strings.Join(s.log, "\n"), "")
	}
	b, err := open(kind, s)
	if err != nil {
		viol("open", "%v", err)
		return
	}
	keys := []string{"moco/ns/a/20200101-000000/dump.tar", "moco/ns/a/20200101-000000/binlog.tar.zst", "moco/ns/a2/20200101-000000/dump.tar", "moco/ns/a/20210101-000000/dump.tar", "x", "moco/ns/a b/+%&?#/é"}
	ref := map[string][]byte{}
	var acts []string
	steps := 6 + r.Intn(14)
	if big {
		steps = 2
	}
	for i := range steps {
		key := keys[r.Intn(len(keys))]
		if r.Intn(3) == 0 {
			key = fmt.Sprintf("moco/ns/a/2020%04d-000000/dump.tar", r.Intn(40))
		}
		s.mu.Lock()
		s.fail, s.every, s.nreq, s.fired = map[int]string{}, "", 0, 0
		fault := ""
		if r.Intn(3) == 0 && !big {
			fault = []string{"500", "503", "drop", "cut", "403", "lost"}[r.Intn(6)]
			if r.Intn(3) == 0 && fault != "cut" && fault != "lost" {
				s.every = fault
			} else {
				s.fail[1+r.Intn(3)] = fault
			}
		}
		before := s.done
		s.mu.Unlock()
		ctx, cancel := context.WithTimeout(context.Background(), 4*time.Minute)
		op := r.Intn(6)
		if big {
			op = i
		}
		switch {
		case op < 3: // put
			size := []int{0, 1, 100, 5000, 200000, 5 << 20, 9 << 20}[r.Intn(7)]
			if size >= 1<<20 && r.Intn(3) > 0 {
				size = 3000
			}
			if big {
				size = map[string]int{"s3": 270 << 20, "gcs": 40 << 20, "azure": 30 << 20}[kind] + r.Intn(1000)
			}
			data := make([]byte, size)
			r.Read(data)
			rd := &oddReader{r: rand.New(rand.NewSource(seed + int64(i))), b: data, fail: -1}
			hint := int64(size)
			switch r.Intn(4) {
			case 0:
				hint = hint / 2
			case 1:
				hint = 1 << 39
				if kind == "s3" {
					hint = 100 << 20
				}
			case 2:
				hint = 4096
			}
			if hint == 0 {
				hint = 4096
			}
			if r.Intn(4) == 0 && !big {
				rd.fail = r.Intn(size + 1)
			}
			err := b.Put(ctx, key, rd, hint)
			if rd.fail >= 0 {
				// uploads that were already handed over may still be under way
				time.Sleep(time.Minute)
			}
			s.mu.Lock()
			got, ok := s.objs[key]
			rep.Count("puts", 1)
			acts = append(acts, fmt.Sprintf("put%d:%v:%s", sizeClass(size), rd.fail >= 0, fault))
			switch {
			case rd.fail >= 0:
				rep.Count("puts_with_source_failure", 1)
				if err == nil {
					viol("failure not reported", "Put of %s succeeded though its source failed after %d of %d bytes", key, rd.fail, size)
				}
				if s.done != before {
					viol("partial object", "Put of %s, whose source failed after %d of %d bytes, made an object of %d bytes visible", key, rd.fail, size, len(got))
				}
			case err == nil:
				rep.Count("puts_ok", 1)
				if !ok || !bytes.Equal(got, data) {
					viol("wrong object", "Put of %s returned success; stored %d bytes (equal: %v) instead of %d", key, len(got), bytes.Equal(got, data), size)
				}
				ref[key] = data
			case s.fired == 0:
				viol("fails", "Put of %s (%d bytes, hint %d) failed without a fault: %v", key, size, hint, err)
			default:
				rep.Count("puts_failed", 1)
				if s.done != before {
					if !bytes.Equal(got, data) {
						viol("partial object", "a failed Put of %s made an object of %d instead of %d bytes visible", key, len(got), size)
					}
					ref[key] = data
				}
			}
			s.mu.Unlock()
		case op == 3: // get
			if len(ref) > 0 && r.Intn(4) > 0 {
				var have []string
				for k := range ref {
					have = append(have, k)
				}
				sort.Strings(have)
				key = have[r.Intn(len(have))]
			}
			rc, err := b.Get(ctx, key)
			var got []byte
			if err == nil {
				got, err = io.ReadAll(rc)
				_ = rc.Close()
			}
			want, ok := ref[key]
			rep.Count("gets", 1)
			acts = append(acts, fmt.Sprintf("get:%v:%s", ok, fault))
			switch {
			case err == nil && !ok:
				viol("missing object", "Get of %s, which does not exist, returned %d bytes and no error", key, len(got))
			case err == nil && !bytes.Equal(got, want):
				viol("wrong data", "Get of %s returned %d bytes and no error; the object has %d", key, len(got), len(want))
			case err != nil && ok && s.fired == 0:
				viol("fails", "Get of %s failed without a fault: %v", key, err)
			}
			if err != nil {
				rep.Count("gets_failed", 1)
			}
		default:
			prefix := []string{"", "moco/ns/a/", "moco/ns/a", "moco/", "nothing/"}[r.Intn(5)]
			got, err := b.List(ctx, prefix)
			var want []string
			for k := range ref {
				if strings.HasPrefix(k, prefix) {
					want = append(want, k)
				}
			}
			sort.Strings(want)
			rep.Count("lists", 1)
			if len(want) > s.page {
				rep.Count("lists_paged", 1)
			}
			acts = append(acts, fmt.Sprintf("list:%d:%s", min(len(want)/s.page, 3), fault))
			switch {
			case err == nil:
				sort.Strings(got)
				if strings.Join(got, "\n") != strings.Join(want, "\n") {
					viol("wrong list", "List(%q) returned %q instead of %q (pages of %d)", prefix, got, want, s.page)
				}
			case s.fired == 0:
				viol("fails", "List(%q) failed without a fault: %v", prefix, err)
			}
		}
		cancel()
		if rep.Violated() {
			return
		}
	}
	for _, o := range s.odd {
		rep.Note("not modelled: " + o)
	}
	rep.Eval(kind + ":" + strings.Join(acts, ","))
	for _, a := range acts {
		rep.Sig(kind + " " + a)
	}
}

func sizeClass(n int) int {
	c := 0
	for n > 0 {
		n /= 16
		c++
	}
	return c
}
