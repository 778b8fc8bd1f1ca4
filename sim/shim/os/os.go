// Package os replaces the standard package: files are on the simulated disk, Exit ends
// the simulated process.
package os

import (
	"fmt"
	"io"
	real "os"
	"strings"

	"verifsim/rt"
	"verifsim/simfs"
)

type File = simfs.File

func OpenFile(name string, flag int, perm real.FileMode) (*File, error) {
	return simfs.Get().OpenFile(name, flag, perm)
}
func Open(name string) (*File, error) { return OpenFile(name, real.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, real.O_RDWR|real.O_CREATE|real.O_TRUNC, 0666)
}
func Remove(name string) error { return simfs.Get().Remove(name) }
func RemoveAll(name string) error {
	_ = simfs.Get().Remove(name)
	return nil
}
func Rename(a, b string) error                       { return simfs.Get().Rename(a, b) }
func Stat(name string) (real.FileInfo, error)        { return simfs.Get().Stat(name) }
func Lstat(name string) (real.FileInfo, error)       { return simfs.Get().Stat(name) }
func Mkdir(name string, perm real.FileMode) error    { return simfs.Get().Mkdir(name) }
func MkdirAll(name string, perm real.FileMode) error { return simfs.Get().Mkdir(name) }
func Chmod(name string, perm real.FileMode) error    { return nil }
func TempDir() string                                { return "/tmp" }
func Exit(code int)                                  { rt.Fatal(fmt.Sprintf("os.Exit(%d)", code)) }
func Truncate(name string, n int64) error {
	f, err := OpenFile(name, real.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	for i := 0; ; i++ {
		p := pattern + fmt.Sprint(i)
		if j := strings.LastIndex(pattern, "*"); j >= 0 {
			p = pattern[:j] + fmt.Sprint(i) + pattern[j+1:]
		}
		f, err := OpenFile(dir+"/"+p, real.O_RDWR|real.O_CREATE|real.O_EXCL, 0600)
		if err == nil || !real.IsExist(err) {
			return f, err
		}
	}
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm real.FileMode) error {
	f, err := OpenFile(name, real.O_WRONLY|real.O_CREATE|real.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}
