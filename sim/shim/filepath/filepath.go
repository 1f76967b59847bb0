// Package filepath stands in for path/filepath.
package filepath

import (
	"errors"
	"io/fs"
	"lhasim/shim/os"
	"path/filepath"
	"sort"
	"strings"
)

const (
	Separator     = '/'
	ListSeparator = ':'
)

var (
	ErrBadPattern = filepath.ErrBadPattern
	SkipAll       = filepath.SkipAll
	SkipDir       = filepath.SkipDir
)

type WalkFunc = filepath.WalkFunc

func Base(p string) string                     { return filepath.Base(p) }
func Clean(p string) string                    { return filepath.Clean(p) }
func Dir(p string) string                      { return filepath.Dir(p) }
func Ext(p string) string                      { return filepath.Ext(p) }
func FromSlash(p string) string                { return p }
func ToSlash(p string) string                  { return p }
func HasPrefix(p, q string) bool               { return strings.HasPrefix(p, q) }
func IsAbs(p string) bool                      { return filepath.IsAbs(p) }
func IsLocal(p string) bool                    { return filepath.IsLocal(p) }
func Join(e ...string) string                  { return filepath.Join(e...) }
func Localize(p string) (string, error)        { return filepath.Localize(p) }
func Match(pattern, name string) (bool, error) { return filepath.Match(pattern, name) }
func Rel(a, b string) (string, error)          { return filepath.Rel(a, b) }
func Split(p string) (string, string)          { return filepath.Split(p) }
func SplitList(p string) []string              { return filepath.SplitList(p) }
func VolumeName(p string) string               { return "" }

func Abs(p string) (string, error) {
	if IsAbs(p) {
		return Clean(p), nil
	}
	wd, err := os.Getwd()
	if err != nil {
		return "", err
	}
	return Join(wd, p), nil
}

func EvalSymlinks(p string) (string, error) {
	for n := 0; n < 256; n++ {
		again := false
		parts := strings.Split(p, "/")
		cur := ""
		for i, e := range parts {
			if i > 0 {
				cur += "/"
			}
			cur += e
			if e == "" || e == "." || e == ".." {
				continue
			}
			fi, err := os.Lstat(cur)
			if err != nil {
				return "", err
			}
			if fi.Mode()&fs.ModeSymlink != 0 {
				t, err := os.Readlink(cur)
				if err != nil {
					return "", err
				}
				rest := strings.Join(parts[i+1:], "/")
				if !IsAbs(t) {
					t = Dir(cur) + "/" + t
				}
				p = t
				if rest != "" {
					p += "/" + rest
				}
				again = true
				break
			}
		}
		if !again {
			return Clean(p), nil
		}
	}
	return "", errors.New("EvalSymlinks: too many links")
}

func Glob(pattern string) ([]string, error) {
	dir, file := Split(pattern)
	d := strings.TrimRight(dir, "/")
	if d == "" {
		d = "."
		if dir != "" {
			d = "/"
		}
	}
	es, err := os.ReadDir(d)
	if err != nil {
		return nil, nil
	}
	var r []string
	for _, e := range es {
		ok, err := Match(file, e.Name())
		if err != nil {
			return nil, err
		}
		if ok {
			r = append(r, dir+e.Name())
		}
	}
	sort.Strings(r)
	return r, nil
}

func Walk(root string, fn WalkFunc) error {
	fi, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fi, fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walk(p string, fi fs.FileInfo, fn WalkFunc) error {
	if !fi.IsDir() {
		return fn(p, fi, nil)
	}
	es, err := os.ReadDir(p)
	if e := fn(p, fi, err); err != nil || e != nil {
		return e
	}
	for _, e := range es {
		q := Join(p, e.Name())
		st, err := os.Lstat(q)
		if err != nil {
			if err := fn(q, st, err); err != nil && err != SkipDir {
				return err
			}
			continue
		}
		if err := walk(q, st, fn); err != nil {
			if !st.IsDir() || err != SkipDir {
				return err
			}
		}
	}
	return nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	return Walk(root, func(p string, fi fs.FileInfo, err error) error {
		var d fs.DirEntry
		if fi != nil {
			d = fs.FileInfoToDirEntry(fi)
		}
		return fn(p, d, err)
	})
}
