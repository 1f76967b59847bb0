// Package ioutil stands in for io/ioutil.
package ioutil

import (
	"io"
	"io/fs"
	"lhasim/shim/os"
)

var Discard io.Writer = io.Discard

func NopCloser(r io.Reader) io.ReadCloser         { return io.NopCloser(r) }
func ReadAll(r io.Reader) ([]byte, error)         { return io.ReadAll(r) }
func ReadFile(name string) ([]byte, error)        { return os.ReadFile(name) }
func TempDir(dir, pattern string) (string, error) { return os.MkdirTemp(dir, pattern) }
func TempFile(dir, pattern string) (*os.File, error) {
	return os.CreateTemp(dir, pattern)
}
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return os.WriteFile(name, data, perm)
}
func ReadDir(name string) ([]fs.FileInfo, error) {
	es, err := os.ReadDir(name)
	var r []fs.FileInfo
	for _, e := range es {
		fi, _ := e.Info()
		r = append(r, fi)
	}
	return r, err
}
