// Package filepath is package path/filepath on the simulated disk.
package filepath

import (
	"io/fs"
	"path"
	"path/filepath"

	"simmod/simrt"
	"simmod/simrt/sh/os"
)

func Abs(p string) (string, error) {
	if path.IsAbs(p) {
		return path.Clean(p), nil
	}
	return path.Join(simrt.Getwd(), p), nil
}
func EvalSymlinks(p string) (string, error) {
	if _, err := os.Lstat(p); err != nil {
		return "", err
	}
	return path.Clean(p), nil
}
func Glob(pattern string) ([]string, error) {
	d, f := path.Split(pattern)
	dir := d
	if dir == "" {
		dir = "."
	}
	es, err := os.ReadDir(dir)
	if err != nil {
		return nil, nil
	}
	var r []string
	for _, e := range es {
		if ok, err := path.Match(f, e.Name()); err != nil {
			return nil, err
		} else if ok {
			r = append(r, path.Join(d, e.Name()))
		}
	}
	return r, nil
}
func Walk(root string, fn filepath.WalkFunc) error {
	in, err := os.Lstat(root)
	if err != nil {
		return fn(root, nil, err)
	}
	return walk(root, in, fn)
}
func walk(p string, in fs.FileInfo, fn filepath.WalkFunc) error {
	if !in.IsDir() {
		return fn(p, in, nil)
	}
	es, err := os.ReadDir(p)
	if e := fn(p, in, err); err != nil || e != nil {
		return e
	}
	for _, x := range es {
		i, _ := x.Info()
		if err := walk(path.Join(p, x.Name()), i, fn); err != nil {
			return err
		}
	}
	return nil
}
func WalkDir(root string, fn fs.WalkDirFunc) error {
	return Walk(root, func(p string, in fs.FileInfo, err error) error {
		if in == nil {
			return fn(p, nil, err)
		}
		return fn(p, fs.FileInfoToDirEntry(in), err)
	})
}
