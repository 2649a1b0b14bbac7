// Package source puts a switch in front of crypto/rand.Reader.
//
// Go initialises packages in the order of their import paths as soon as what they
// import is ready. The path of this one sorts before that of the library, so the
// switch is there before the library can take a copy of rand.Reader.
package source

import (
	"crypto/rand"
	"io"
	"sync"
)

var real = rand.Reader

type toggle struct {
	mu  sync.RWMutex
	cur io.Reader
}

func (s *toggle) Read(p []byte) (int, error) {
	s.mu.RLock()
	r := s.cur
	s.mu.RUnlock()
	return r.Read(p)
}

var sw = &toggle{cur: real}

func init() { rand.Reader = sw }

// With runs f with the random source replaced.
func With(r io.Reader, f func()) {
	old := set(r)
	defer set(old)
	f()
}

func set(r io.Reader) io.Reader {
	sw.mu.Lock()
	defer sw.mu.Unlock()
	old := sw.cur
	sw.cur = r
	return old
}
