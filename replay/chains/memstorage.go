package chains

import (
	"errors"
	"io"
	"os"
	"sync"

	lvs "github.com/syndtr/goleveldb/leveldb/storage"
)

// vstore is an in-memory leveldb storage that can be cloned at any write
// (a crash at that point) and can be told to fail a write.
type vstore struct {
	mu     sync.Mutex
	files  map[lvs.FileDesc]*[]byte
	meta   lvs.FileDesc
	onWr   func() // before a journal write, lock held
	failIn int    // fail the n-th journal write from now (0: never)
}

func newVstore() *vstore { return &vstore{files: map[lvs.FileDesc]*[]byte{}} }

func (s *vstore) cloneLocked() *vstore {
	c := newVstore()
	for k, v := range s.files {
		b := append([]byte{}, *v...)
		c.files[k] = &b
	}
	c.meta = s.meta
	return c
}

type vlock struct{}

func (vlock) Unlock() {}

func (s *vstore) Lock() (lvs.Locker, error) { return vlock{}, nil }
func (s *vstore) Log(string)                {}
func (s *vstore) SetMeta(fd lvs.FileDesc) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.meta = fd
	return nil
}
func (s *vstore) GetMeta() (lvs.FileDesc, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.meta.Zero() {
		return s.meta, os.ErrNotExist
	}
	return s.meta, nil
}
func (s *vstore) List(ft lvs.FileType) (r []lvs.FileDesc, err error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for k := range s.files {
		if k.Type&ft != 0 {
			r = append(r, k)
		}
	}
	return
}

type vreader struct {
	b []byte
	p int64
}

func (r *vreader) Read(p []byte) (int, error) {
	if r.p >= int64(len(r.b)) {
		return 0, io.EOF
	}
	n := copy(p, r.b[r.p:])
	r.p += int64(n)
	return n, nil
}
func (r *vreader) ReadAt(p []byte, o int64) (int, error) {
	if o >= int64(len(r.b)) {
		return 0, io.EOF
	}
	n := copy(p, r.b[o:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}
func (r *vreader) Seek(o int64, w int) (int64, error) {
	switch w {
	case io.SeekStart:
		r.p = o
	case io.SeekCurrent:
		r.p += o
	default:
		r.p = int64(len(r.b)) + o
	}
	return r.p, nil
}
func (r *vreader) Close() error { return nil }

func (s *vstore) Open(fd lvs.FileDesc) (lvs.Reader, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	f, ok := s.files[fd]
	if !ok {
		return nil, os.ErrNotExist
	}
	return &vreader{b: append([]byte{}, *f...)}, nil
}

type vwriter struct {
	s  *vstore
	b  *[]byte
	fd lvs.FileDesc
}

var errInjected = errors.New("injected write error")

func (w *vwriter) Write(p []byte) (int, error) {
	w.s.mu.Lock()
	defer w.s.mu.Unlock()
	if w.fd.Type == lvs.TypeJournal {
		if w.s.onWr != nil {
			w.s.onWr()
		}
		if w.s.failIn > 0 {
			w.s.failIn--
			if w.s.failIn == 0 {
				return 0, errInjected
			}
		}
	}
	*w.b = append(*w.b, p...)
	return len(p), nil
}
func (w *vwriter) Sync() error  { return nil }
func (w *vwriter) Close() error { return nil }
func (s *vstore) Create(fd lvs.FileDesc) (lvs.Writer, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	b := []byte{}
	s.files[fd] = &b
	return &vwriter{s, &b, fd}, nil
}
func (s *vstore) Remove(fd lvs.FileDesc) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	delete(s.files, fd)
	return nil
}
func (s *vstore) Rename(a, b lvs.FileDesc) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.files[b] = s.files[a]
	delete(s.files, a)
	return nil
}
func (s *vstore) Close() error { return nil }
