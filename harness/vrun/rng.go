package main

import (
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"sync"

	"aaa.verif/harness/ref"
	"aaa.verif/harness/source"
	"pgregory.net/rapid"
)

// Stream describes a substitute for the operating system's random source.
type Stream struct {
	Head  string `json:"head"`           // hex, delivered first
	Seed  string `json:"seed"`           // then bytes expanded from this
	Chunk int    `json:"chunk"`          // most bytes per Read (0: any)
	Fail  int    `json:"fail,omitempty"` // >0: fails for good after Fail-1 bytes
	Err   int    `json:"err,omitempty"`
	Heal  bool   `json:"heal,omitempty"` // it fails only once
}

var streamErrs = []error{errors.New("random source failed"), io.EOF, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrClosedPipe}

type streamReader struct {
	s        Stream
	mu       sync.Mutex
	head     []byte
	flip     int // position of a flipped bit, or -1
	consumed []byte
	hit      bool
	block    [32]byte
	blockNo  int
}

func (s Stream) reader() *streamReader {
	return &streamReader{s: s, head: unhex(s.Head), flip: -1, blockNo: -1}
}

func (r *streamReader) at(i int) byte {
	var b byte
	if i < len(r.head) {
		b = r.head[i]
	} else {
		j := i - len(r.head)
		if j/32 != r.blockNo {
			r.blockNo = j / 32
			r.block = sha256.Sum256([]byte(fmt.Sprintf("stream/%s/%d", r.s.Seed, r.blockNo)))
		}
		b = r.block[j%32]
	}
	if r.flip >= 0 && r.flip/8 == i {
		b ^= 1 << (r.flip % 8)
	}
	return b
}

func (r *streamReader) Read(p []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	n := 0
	for n < len(p) {
		if r.s.Fail > 0 && len(r.consumed) >= r.s.Fail-1 && !(r.s.Heal && r.hit) {
			r.hit = true
			return n, streamErrs[r.s.Err%len(streamErrs)]
		}
		p[n] = r.at(len(r.consumed))
		r.consumed = append(r.consumed, p[n])
		n++
		if r.s.Chunk > 0 && n >= r.s.Chunk {
			break
		}
	}
	return n, nil
}

// withRandom runs f with the random source replaced.
func withRandom(r io.Reader, f func()) { source.With(r, f) }

func genSeedText(t *rapid.T, label string) string {
	return ref.Hex(uniformBytes(t, 8, label))
}
