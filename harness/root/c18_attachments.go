package textsecure

//vf:use server

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"io"
	"strings"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/config"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	vftransport "github.com/signal-golang/textsecure/transport"
)

// C18: attachments are verified before they are decrypted.

type vfCDN struct {
	blobs    map[string][]byte
	uploads  int
	status   int // of a download
	location string
	signed   string
	fail     string
}

func (c *vfCDN) answer(r *vftransport.VfReq) vftransport.VfAnswer {
	i := strings.Index(r.URL, "/attachments/")
	switch {
	case r.Method == "GET" && strings.Contains(r.URL, "/v3/attachments/form/upload"):
		if c.fail == "form" {
			return vftransport.VfAnswer{Status: c.status, Body: []byte("{}")}
		}
		return vftransport.VfAnswer{Status: 200, Body: []byte(`{"cdn":2,"key":"k","headers":{"x-goog":"1"},"signedUploadLocation":"` + c.signed + `"}`)}
	case r.Method == "POST":
		if c.fail == "" {
			vfAssert(strings.HasSuffix(r.URL, c.signed[len("https://cdn2.signal.org"):]), "the upload is begun where the server said")
			vfAssert(r.Header.Get("x-goog") == "1", "with the headers the server gave")
		}
		if c.fail == "allocate" {
			return vftransport.VfAnswer{Status: c.status}
		}
		return vftransport.VfAnswer{Status: 201, Header: map[string]string{"Location": c.location}}
	case r.Method == "PUT":
		if c.fail == "" {
			vfAssert(strings.HasSuffix(r.URL, c.location[len("https://cdn2.signal.org"):]), "the upload goes where the server said")
		}
		if c.fail == "put" {
			return vftransport.VfAnswer{Status: c.status}
		}
		c.uploads++
		c.blobs["k"] = r.Body
		return vftransport.VfAnswer{Status: 200}
	case r.Method == "GET" && i > 0:
		if c.fail == "lost" {
			return vftransport.VfAnswer{Err: errors.New("connection lost")}
		}
		if c.fail == "get" {
			return vftransport.VfAnswer{Status: c.status, Body: c.blobs[r.URL[i+13:]]}
		}
		b, ok := c.blobs[r.URL[i+13:]]
		if !ok {
			return vftransport.VfAnswer{Status: 404}
		}
		return vftransport.VfAnswer{Status: 200, Body: b}
	}
	return vftransport.VfAnswer{Status: 404}
}

func vfNewCDN() *vfCDN {
	c := &vfCDN{blobs: map[string][]byte{}, location: "https://cdn2.signal.org/upload/k?id=1", signed: "https://cdn2.signal.org/form/k"}
	vfClient(vfTempDir(), c.answer)
	config.ConfigFile = &config.Config{UUID: vfPeer, ProfileKey: make([]byte, 32)}
	return c
}

// vfUpload encrypts and uploads content and returns the pointer the message
// gets.
func vfUpload(content []byte) *signalservice.AttachmentPointer {
	own := append([]byte{}, content...)
	a, err := uploadAttachment(bytes.NewReader(own), "image/png")
	vfAssert(err == nil, "an attachment the server takes is uploaded")
	dm := createMessage(&outgoingMessage{destination: vfPeer, msg: "see", attachment: a})
	b, err := proto.Marshal(dm)
	if err != nil {
		panic("message not encoded")
	}
	got := &signalservice.DataMessage{}
	if proto.Unmarshal(b, got) != nil || len(got.Attachments) != 1 {
		panic("message not decoded")
	}
	return got.Attachments[0]
}

func vfFetch(p ...*signalservice.AttachmentPointer) ([]*Attachment, error) {
	return handleAttachments(&signalservice.DataMessage{Attachments: p})
}

func vfRefused(what string, p ...*signalservice.AttachmentPointer) {
	l, err := vfFetch(p...)
	vfAssert(err != nil, what)
	vfAssert(len(l) == 0, "nothing is handed over together with an error")
}

// What is uploaded arrives unchanged.
//
//vf:fixedrand
func VC18_RoundTrip() {
	c := vfNewCDN()
	c.location = "https://cdn2.signal.org" + []string{"/upload/k?id=1", "/upload/a/b/c", "/k?a=b%2Fc&d=e/f", "/upload//k"}[vfChoose("location", 4)]
	c.signed = "https://cdn2.signal.org" + []string{"/form/k", "/form?x=1&y=2"}[vfChoose("signed", 2)]
	n := []int{0, 1, 15, 16, 17, 33}[vfChoose("length", 6)]
	content := vfBytes("content", n)
	p := vfUpload(content)
	blob := c.blobs["k"]
	vfAssert(len(p.Key) == 64, "the key has 64 bytes")
	vfAssert(int(p.GetSize()) == n, "the size is that of the content")
	vfAssert(p.GetContentType() == "image/png", "the content type is kept")
	sum := sha256.Sum256(blob)
	vfAssert(vfEq(p.Digest, sum[:]), "the digest is that of the uploaded bytes")
	if n > 0 {
		vfAssert(vfCanDiffer(blob[:len(blob)], append(append([]byte{}, content...), make([]byte, len(blob)-n)...)), "the content is not uploaded in the clear")
	}
	l, err := vfFetch(p, p)
	vfAssert(err == nil, "an unaltered attachment is accepted")
	vfAssert(len(l) == 2, "every attachment is handed over")
	for _, a := range l {
		b, err := io.ReadAll(a.R)
		vfAssert(err == nil, "the attachment can be read")
		vfAssert(vfEq(b, content), "the content is what the sender encrypted")
		vfAssert(a.MimeType == "image/png", "the content type is what the sender said")
	}
	vfReach("received")
}

// Two attachments have nothing in common.
func VC18_FreshKeys() {
	vfNewCDN()
	a, b := vfUpload([]byte("first")), vfUpload([]byte("first"))
	for i := range a.Key {
		vfAssert(vfCanDiffer(a.Key[i:i+1], b.Key[i:i+1]), "all of the key is fresh")
		vfAssume(a.Key[i] != b.Key[i])
	}
	vfReach("fresh")
}

// The stored bytes, the key or the digest are altered.
//
//vf:fixedrand
func VC18_Altered() {
	c := vfNewCDN()
	content := []byte("sixteen bytes...")[:[]int{5, 16}[vfChoose("length", 2)]]
	p := vfUpload(content)
	good := c.blobs["k"]
	blob := append([]byte{}, good...)
	flip := func(b []byte) {
		i := vfChoose("byte", len(b))
		m := vfU8("mask")
		vfAssume(m != 0)
		b[i] ^= m
	}
	if vfBool("without digest") {
		p.Digest = nil
	}
	switch vfChoose("alteration", 7) {
	case 0:
		flip(blob)
	case 1:
		flip(p.Key[32:])
	case 2:
		blob = blob[:vfChoose("cut", len(blob))]
	case 3:
		blob = append(blob, make([]byte, 1+15*vfChoose("more bytes", 2))...)
	case 4:
		blob = blob[16*(1+vfChoose("dropped", 2)):]
	case 5:
		k := vfChoose("key length", 100)
		vfAssume(k != 64)
		if k < 64 {
			p.Key = p.Key[:k]
		} else {
			p.Key = append(p.Key, vfBytes("key", k-64)...)
		}
	case 6:
		vfAssume(len(p.Digest) > 0)
		if vfBool("digest length") {
			p.Digest = p.Digest[:1+vfChoose("digest cut", 31)]
		} else {
			flip(p.Digest)
		}
	}
	c.blobs["k"] = blob
	vfRefused("an altered attachment is refused", p)
	// together with a good one
	q := *p
	c.blobs["good"] = good
	q.AttachmentIdentifier = &signalservice.AttachmentPointer_CdnKey{CdnKey: "good"}
	vfRefused("a message with an altered attachment is refused", &q, p)
	vfReach("refused")
}

// Anything the server may store for any key.
//
//vf:fixedrand
func VC18_Arbitrary() {
	c := vfNewCDN()
	n := []int{0, 1, 15, 16, 31, 32, 33, 47, 48, 63, 64, 65, 80}[vfChoose("length", 13)]
	k := []int{0, 16, 31, 32, 33, 63, 64, 65}[vfChoose("key length", 8)]
	c.blobs["k"] = vfBytes("body", n)
	p := &signalservice.AttachmentPointer{
		AttachmentIdentifier: &signalservice.AttachmentPointer_CdnKey{CdnKey: "k"},
		Key:                  vfBytes("key", k),
	}
	if vfBool("no key") {
		p.Key = nil
	}
	l, err := vfFetch(p)
	if n < 64 || k != 64 {
		vfAssert(err != nil, "a malformed attachment is refused")
	}
	if err != nil {
		vfAssert(len(l) == 0, "nothing is handed over together with an error")
	}
	vfReach("handled")
}

// The server answers with an error, or not at all.
//
//vf:fixedrand
func VC18_Server() {
	c := vfNewCDN()
	content := vfBytes("content", 5)
	p := vfUpload(content)
	c.status = vfInt("status", 100, 600)
	vfAssume(vfOr(c.status < 200, c.status >= 300))
	c.fail = []string{"get", "lost", "form", "allocate", "put", "signed", "location"}[vfChoose("fault", 7)]
	if c.fail == "get" || c.fail == "lost" {
		vfRefused("an attachment that is not found is refused", p)
		vfReach("refused")
		return
	}
	bad := []string{"", "/", "//", "https:", "https://cdn2.signal.org", "upload", "a/b"}
	if c.fail == "signed" {
		c.signed = bad[vfChoose("location", len(bad))]
	}
	if c.fail == "location" {
		c.location = bad[vfChoose("location", len(bad))]
	}
	_, err := uploadAttachment(bytes.NewReader([]byte("x")), "")
	vfAssert(err != nil, "a failed upload is reported")
	vfReach("not uploaded")
}
