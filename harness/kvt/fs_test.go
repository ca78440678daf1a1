//go:build go1.23

// Package kvt checks the key-value store: against a model map, and over a
// storage that forgets what was not flushed when it crashes.
package kvt

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"sort"
	"sync"

	"github.com/coniks-sys/coniks-go/storage/kv"
	"github.com/coniks-sys/coniks-go/storage/kv/leveldbkv"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"github.com/syndtr/goleveldb/leveldb"
	"github.com/syndtr/goleveldb/leveldb/opt"
	"github.com/syndtr/goleveldb/leveldb/storage"
)

// file is a file: its contents, and how many of its bytes are on the disk.
type file struct {
	data   []byte
	synced int
	named  int // of a manifest: what CURRENT was made to point to
}

// metaOp is a creation or removal not yet on the disk.
type metaOp struct {
	fd      storage.FileDesc
	created bool
	old     *file
}

// image is what a crash leaves behind.
type image struct {
	files map[storage.FileDesc]file
	meta  storage.FileDesc
	pend  []metaOp
	acked []int // operations that had returned, by writer
	op    string
	n     int
}

// fs is a storage that records what is on the disk.  A file's bytes get there
// when it is synced, and with them all creations and removals so far.
type fs struct {
	mu     sync.Mutex
	files  map[storage.FileDesc]*file
	meta   storage.FileDesc
	pend   []metaOp
	locked bool
	ops    int
	after  func(op string, n int) // called after every change, with mu held
	rotate int                    // journals created
	tables int
}

func newFS() *fs { return &fs{files: map[storage.FileDesc]*file{}} }

func (s *fs) did(op string, fd storage.FileDesc) {
	s.ops++
	if s.after != nil {
		s.after(fmt.Sprintf("%s %v", op, fd), s.ops)
	}
}

type fsLock struct{ s *fs }

func (l fsLock) Unlock() {
	l.s.mu.Lock()
	l.s.locked = false
	l.s.mu.Unlock()
}

func (s *fs) Lock() (storage.Locker, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.locked {
		return nil, storage.ErrLocked
	}
	s.locked = true
	return fsLock{s}, nil
}

func (s *fs) Log(string) {}

func (s *fs) SetMeta(fd storage.FileDesc) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.meta = fd
	if f := s.files[fd]; f != nil {
		f.named = len(f.data)
	}
	s.pend = nil
	s.did("setmeta", fd)
	return nil
}

func (s *fs) GetMeta() (storage.FileDesc, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.meta.Zero() || s.files[s.meta] == nil {
		return storage.FileDesc{}, os.ErrNotExist
	}
	return s.meta, nil
}

func (s *fs) List(t storage.FileType) (fds []storage.FileDesc, err error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for fd := range s.files {
		if fd.Type&t != 0 {
			fds = append(fds, fd)
		}
	}
	sort.Slice(fds, func(i, j int) bool {
		if fds[i].Type != fds[j].Type {
			return fds[i].Type < fds[j].Type
		}
		return fds[i].Num < fds[j].Num
	})
	return
}

type reader struct{ *bytes.Reader }

func (reader) Close() error { return nil }

func (s *fs) Open(fd storage.FileDesc) (storage.Reader, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	f := s.files[fd]
	if f == nil {
		return nil, os.ErrNotExist
	}
	return reader{bytes.NewReader(f.data[:len(f.data):len(f.data)])}, nil
}

type writer struct {
	s  *fs
	fd storage.FileDesc
	f  *file
}

func (w writer) Write(p []byte) (int, error) {
	w.s.mu.Lock()
	defer w.s.mu.Unlock()
	w.f.data = append(w.f.data, p...)
	w.s.did("write", w.fd)
	return len(p), nil
}

func (w writer) Sync() error {
	w.s.mu.Lock()
	defer w.s.mu.Unlock()
	w.f.synced = len(w.f.data)
	w.s.pend = nil
	w.s.did("sync", w.fd)
	return nil
}

func (w writer) Close() error { return nil }

func (s *fs) Create(fd storage.FileDesc) (storage.Writer, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	f := &file{}
	s.pend = append(s.pend, metaOp{fd, true, s.files[fd]})
	s.files[fd] = f
	if fd.Type == storage.TypeJournal {
		s.rotate++
	}
	if fd.Type == storage.TypeTable {
		s.tables++
	}
	s.did("create", fd)
	return writer{s, fd, f}, nil
}

func (s *fs) Remove(fd storage.FileDesc) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	f := s.files[fd]
	if f == nil {
		return os.ErrNotExist
	}
	s.pend = append(s.pend, metaOp{fd, false, f})
	delete(s.files, fd)
	s.did("remove", fd)
	return nil
}

func (s *fs) Rename(a, b storage.FileDesc) error { return errors.New("rename is not simulated") }
func (s *fs) Close() error                       { return nil }

// image copies the state; mu is held.
func (s *fs) image() image {
	im := image{files: map[storage.FileDesc]file{}, meta: s.meta, n: s.ops}
	for fd, f := range s.files {
		im.files[fd] = file{f.data[:len(f.data):len(f.data)], f.synced, f.named}
	}
	for _, p := range s.pend {
		if p.old != nil {
			p.old = &file{p.old.data[:len(p.old.data):len(p.old.data)], p.old.synced, p.old.named}
		}
		im.pend = append(im.pend, p)
	}
	return im
}

// crash makes the storage found after a crash: all that was not on the disk is
// lost (r nil), or each file keeps some more of its bytes, or garbage of that
// length, and some more of the creations and removals are there.  Unless named is
// false, manifests are on the disk as they were when CURRENT was made to point to
// them.
func (im image) crash(r *vh.DRBG, named bool) *fs {
	s := newFS()
	s.meta = im.meta
	for fd, f := range im.files {
		c := f
		s.files[fd] = &c
	}
	keep := 0
	if r != nil {
		keep = int(r.Bytes(1)[0]) % (len(im.pend) + 1)
	}
	for i := len(im.pend) - 1; i >= keep; i-- {
		p := im.pend[i]
		if p.created {
			delete(s.files, p.fd)
		}
		if p.old != nil {
			c := *p.old
			s.files[p.fd] = &c
		}
	}
	fds, _ := s.List(storage.TypeAll)
	for _, fd := range fds {
		f := s.files[fd]
		if named && f.synced < f.named {
			f.synced = f.named
		}
		n, fill := f.synced, byte(0)
		if r != nil && len(f.data) > f.synced {
			b := r.Bytes(4)
			tail := len(f.data) - f.synced
			n += (int(b[0])<<16 | int(b[1])<<8 | int(b[2])) % (tail + 1)
			fill = b[3] % 4
		}
		d := append([]byte{}, f.data[:n]...)
		if fill == 1 { // blocks allocated, not written
			for i := f.synced + (n-f.synced)/2; i < n; i++ {
				d[i] = 0
			}
		} else if fill == 2 {
			copy(d[f.synced+(n-f.synced)/2:], r.Bytes(n-f.synced-(n-f.synced)/2))
		}
		s.files[fd] = &file{d, n, 0}
	}
	return s
}

var hooked = struct {
	sync.Mutex
	m map[string]*fs
}{m: map[string]*fs{}}

func init() {
	storage.Hook = func(path string, readOnly bool) (storage.Storage, error) {
		hooked.Lock()
		defer hooked.Unlock()
		if s := hooked.m[path]; s != nil {
			return s, nil
		}
		return nil, nil
	}
}

// how is a way of opening the store.
type how struct {
	plain bool // OpenDB, as users open it; otherwise Wrap with small buffers
	buf   int
	huge  bool // draw values of megabytes
}

func (h how) String() string {
	if h.plain {
		return "OpenDB"
	}
	return fmt.Sprintf("Wrap with write buffers of %d bytes", h.buf)
}

// openOn opens the store on s, or says why it does not open.
func openOn(s *fs, h how) (db kv.DB, err error) {
	if h.plain {
		const path = "/nonexistent/crash-storage"
		hooked.Lock()
		hooked.m[path] = s
		hooked.Unlock()
		defer func() {
			hooked.Lock()
			delete(hooked.m, path)
			hooked.Unlock()
			if p := recover(); p != nil {
				db, err = nil, fmt.Errorf("OpenDB: %v", p)
			}
		}()
		return leveldbkv.OpenDB(path), nil
	}
	ldb, err := leveldb.Open(s, &opt.Options{WriteBuffer: h.buf, CompactionTableSize: h.buf,
		CompactionTotalSize: 4 * h.buf, CompactionL0Trigger: 2, BlockSize: 256,
		DisableLargeBatchTransaction: true}) // see OpenDB
	if err != nil {
		return nil, err
	}
	return leveldbkv.Wrap(ldb), nil
}
