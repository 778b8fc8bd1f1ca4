// Package simfs is the simulated disk: a file system in memory whose operations can
// fail, fall short or lose unsynced data in a crash, as a fault plan says.
package simfs

import (
	"fmt"
	"io"
	"io/fs"
	"math/rand/v2"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"verifsim/rt"
)

// Fault kinds: open-error (Nth open), write-error / disk-full (after At bytes written in
// total), read-error (after At bytes read in total), short-read, sync-error.
type Fault struct {
	Kind string `json:"kind"`
	At   int64  `json:"at"`
}

func (f Fault) String() string { return fmt.Sprintf("disk:%s at=%d", f.Kind, f.At) }

type inode struct {
	data   []byte
	synced []byte
	dir    bool
}

type FS struct {
	Sim       *rt.Sim
	files     map[string]*inode
	Faults    []Fault
	opens     int64
	wrote     int64
	read      int64
	ShortRead bool
	OpenFiles int
	ReadFiles int
}

func New(s *rt.Sim) *FS {
	f := &FS{Sim: s, files: map[string]*inode{}}
	s.Ext["fs"] = f
	return f
}

func Get() *FS {
	if rt.S == nil {
		return nil
	}
	f, _ := rt.S.Ext["fs"].(*FS)
	return f
}

func (f *FS) Put(name string, data []byte) {
	f.files[path.Clean(name)] = &inode{data: append([]byte(nil), data...), synced: append([]byte(nil), data...)}
}

func (f *FS) Data(name string) ([]byte, bool) {
	n := f.files[path.Clean(name)]
	if n == nil {
		return nil, false
	}
	return n.data, true
}

// Names lists the files.
func (f *FS) Names() (out []string) {
	for k := range f.files {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

// Crash keeps of each file what had been synced plus a prefix, chosen by the simulator,
// of what had not (process is the simulator's machine crash; a mere process crash loses
// nothing).
func (f *FS) Crash() {
	for _, k := range f.Names() {
		n := f.files[k]
		if n.dir || len(n.data) == len(n.synced) {
			continue
		}
		lost := f.Sim.ChooseN("torn", len(n.data)+1)
		if lost > 0 {
			f.Sim.Fire("torn-write")
			n.data = n.data[:len(n.data)-lost]
		}
	}
}

func (f *FS) fault(kind string, lo, hi int64) (int64, bool) {
	for _, x := range f.Faults {
		if x.Kind == kind && x.At >= lo && x.At < hi {
			return x.At, true
		}
	}
	return 0, false
}

type File struct {
	fs     *FS
	name   string
	ino    *inode
	off    int64
	flag   int
	closed bool
}

func perr(op, name string, err error) error { return &os.PathError{Op: op, Path: name, Err: err} }

func dead() bool { return rt.Dead() }

func (f *FS) OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	if dead() {
		return nil, perr("open", name, syscall.EINTR)
	}
	rt.YS()
	i := f.opens
	f.opens++
	if _, hit := f.fault("open-error", i, i+1); hit {
		f.Sim.Fire("disk-open-error")
		return nil, perr("open", name, syscall.EACCES)
	}
	key := path.Clean(name)
	ino := f.files[key]
	if ino == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		ino = &inode{}
		f.files[key] = ino
	} else if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, perr("open", name, syscall.EEXIST)
	} else if ino.dir {
		return nil, perr("open", name, syscall.EISDIR)
	}
	if flag&os.O_TRUNC != 0 && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		ino.data = nil
	}
	f.OpenFiles++
	f.Sim.Note("fopen", name, flag)
	return &File{fs: f, name: name, ino: ino, flag: flag}, nil
}

func (x *File) check(op string) error {
	if x == nil {
		return os.ErrInvalid
	}
	if x.closed {
		return perr(op, x.name, os.ErrClosed)
	}
	return nil
}

func (x *File) Name() string { return x.name }
func (x *File) Fd() uintptr  { return 99 }

func (x *File) Read(p []byte) (int, error) {
	if dead() {
		return 0, io.EOF
	}
	rt.YS()
	n, err := x.readAt(p, x.off)
	x.off += int64(n)
	if err == nil && n == 0 && len(p) > 0 {
		err = io.EOF
	}
	return n, err
}

func (x *File) readAt(p []byte, off int64) (int, error) {
	if err := x.check("read"); err != nil {
		return 0, err
	}
	if x.flag&os.O_WRONLY != 0 {
		return 0, perr("read", x.name, syscall.EBADF)
	}
	if off >= int64(len(x.ino.data)) || len(p) == 0 {
		if _, hit := x.fs.fault("read-error", x.fs.read, x.fs.read+1); hit && len(p) > 0 {
			x.fs.Sim.Fire("disk-read-error")
			return 0, perr("read", x.name, syscall.EIO)
		}
		return 0, nil
	}
	k := min(len(p), len(x.ino.data)-int(off))
	if x.fs.ShortRead && k > 1 {
		if v := x.fs.Sim.Choose("short-read", func(r *rand.Rand) int {
			switch r.IntN(3) {
			case 0:
				return 0
			case 1:
				return 1 + r.IntN(min(k, 8))
			}
			return 1 + r.IntN(k)
		}); v > 0 && v < k {
			k = v
			x.fs.Sim.Fired["short-read"]++
		}
	}
	if at, hit := x.fs.fault("read-error", x.fs.read, x.fs.read+int64(k)); hit {
		k = int(at - x.fs.read)
		if k == 0 {
			x.fs.Sim.Fire("disk-read-error")
			return 0, perr("read", x.name, syscall.EIO)
		}
	}
	copy(p, x.ino.data[off:int(off)+k])
	x.fs.read += int64(k)
	return k, nil
}

func (x *File) ReadAt(p []byte, off int64) (int, error) {
	rt.YS()
	done := 0
	for done < len(p) {
		n, err := x.readAt(p[done:], off+int64(done))
		done += n
		if err != nil {
			return done, err
		}
		if n == 0 {
			return done, io.EOF
		}
	}
	return done, nil
}

func (x *File) Write(p []byte) (int, error) {
	if dead() {
		return 0, syscall.EINTR
	}
	rt.YS()
	if err := x.check("write"); err != nil {
		return 0, err
	}
	if x.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", x.name, syscall.EBADF)
	}
	k := len(p)
	var werr error
	lo := x.fs.wrote
	if at, hit := x.fs.fault("disk-full", -1<<60, lo+int64(k)); hit {
		k = int(max(0, at-lo))
		x.fs.Sim.Fire("disk-full")
		werr = perr("write", x.name, syscall.ENOSPC)
	} else if at, hit := x.fs.fault("write-error", lo, lo+int64(k)); hit {
		k = int(at - lo)
		x.fs.Sim.Fire("disk-write-error")
		werr = perr("write", x.name, syscall.EIO)
		x.fs.wrote++
	}
	if x.flag&os.O_APPEND != 0 {
		x.off = int64(len(x.ino.data))
	}
	for int64(len(x.ino.data)) < x.off {
		x.ino.data = append(x.ino.data, 0)
	}
	m := copy(x.ino.data[x.off:], p[:k])
	x.ino.data = append(x.ino.data, p[m:k]...)
	x.off += int64(k)
	x.fs.wrote += int64(k)
	return k, werr
}

func (x *File) WriteString(s string) (int, error) { return x.Write([]byte(s)) }

func (x *File) Seek(off int64, whence int) (int64, error) {
	rt.YS()
	if err := x.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 0:
		x.off = off
	case 1:
		x.off += off
	case 2:
		x.off = int64(len(x.ino.data)) + off
	}
	return x.off, nil
}

func (x *File) Sync() error {
	if dead() {
		return nil
	}
	rt.YS()
	if err := x.check("sync"); err != nil {
		return err
	}
	if _, hit := x.fs.fault("sync-error", 0, 1<<60); hit {
		x.fs.Sim.Fire("disk-sync-error")
		return perr("sync", x.name, syscall.EIO)
	}
	x.ino.synced = append([]byte(nil), x.ino.data...)
	return nil
}

func (x *File) Truncate(n int64) error {
	rt.YS()
	if err := x.check("truncate"); err != nil {
		return err
	}
	for int64(len(x.ino.data)) < n {
		x.ino.data = append(x.ino.data, 0)
	}
	x.ino.data = x.ino.data[:n]
	return nil
}

func (x *File) Close() error {
	if dead() {
		return nil
	}
	rt.YS()
	if err := x.check("close"); err != nil {
		return err
	}
	x.closed = true
	x.fs.OpenFiles--
	if x.flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		// a file system that writes late finds out now that it cannot
		if at, hit := x.fs.fault("close-error", 0, int64(len(x.ino.data))); hit {
			x.fs.Sim.Fire("disk-close-error")
			x.ino.data = x.ino.data[:at]
			return perr("close", x.name, syscall.EIO)
		}
	}
	return nil
}

func (x *File) Chmod(os.FileMode) error { return nil }

type info struct {
	name string
	size int64
	dir  bool
}

func (i info) Name() string       { return path.Base(i.name) }
func (i info) Size() int64        { return i.size }
func (i info) Mode() fs.FileMode  { return 0644 }
func (i info) ModTime() time.Time { return time.Unix(1600000000, 0) }
func (i info) IsDir() bool        { return i.dir }
func (i info) Sys() any           { return nil }

func (x *File) Stat() (os.FileInfo, error) {
	rt.YS()
	if err := x.check("stat"); err != nil {
		return nil, err
	}
	return info{x.name, int64(len(x.ino.data)), false}, nil
}

func (f *FS) Stat(name string) (os.FileInfo, error) {
	rt.YS()
	n := f.files[path.Clean(name)]
	if n == nil {
		for k := range f.files {
			if strings.HasPrefix(k, path.Clean(name)+"/") {
				return info{name, 0, true}, nil
			}
		}
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return info{name, int64(len(n.data)), n.dir}, nil
}

func (f *FS) Remove(name string) error {
	if dead() {
		return nil
	}
	rt.YS()
	k := path.Clean(name)
	if f.files[k] == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	delete(f.files, k)
	return nil
}

func (f *FS) Rename(a, b string) error {
	if dead() {
		return nil
	}
	rt.YS()
	ka, kb := path.Clean(a), path.Clean(b)
	if f.files[ka] == nil {
		return perr("rename", a, syscall.ENOENT)
	}
	f.files[kb] = f.files[ka]
	delete(f.files, ka)
	return nil
}

func (f *FS) Mkdir(name string) error {
	rt.YS()
	if k := path.Clean(name); f.files[k] == nil {
		f.files[k] = &inode{dir: true}
	}
	return nil
}
