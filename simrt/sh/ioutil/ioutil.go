// Package ioutil is package io/ioutil on the simulated disk.
package ioutil

import (
	"io"
	"io/fs"

	"simmod/simrt/sh/os"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)                  { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser                  { return io.NopCloser(r) }
func ReadFile(name string) ([]byte, error)                 { return os.ReadFile(name) }
func WriteFile(name string, d []byte, m fs.FileMode) error { return os.WriteFile(name, d, m) }
func TempFile(dir, p string) (*os.File, error)             { return os.CreateTemp(dir, p) }
func TempDir(dir, p string) (string, error)                { return os.MkdirTemp(dir, p) }
func ReadDir(name string) ([]fs.FileInfo, error) {
	es, err := os.ReadDir(name)
	if err != nil {
		return nil, err
	}
	var r []fs.FileInfo
	for _, e := range es {
		in, _ := e.Info()
		r = append(r, in)
	}
	return r, nil
}
