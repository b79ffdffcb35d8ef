//go:build go1.25

// Package vioutil stands in for package io/ioutil.
package vioutil

import (
	"io/fs"
	"os"
	"sort"

	"github.com/sencha-dev/powkit/internal/vh/shim/vos"
)

// ReadDir lists a directory.
func ReadDir(name string) ([]fs.FileInfo, error) {
	l, err := vos.ReadDir(name)
	if err != nil {
		return nil, err
	}
	var out []fs.FileInfo
	for _, e := range l {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		out = append(out, i)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out, nil
}

// ReadFile reads a file.
func ReadFile(name string) ([]byte, error) { return vos.ReadFile(name) }

// WriteFile writes a file.
func WriteFile(name string, data []byte, perm os.FileMode) error {
	return vos.WriteFile(name, data, perm)
}

// TempFile creates a file.
func TempFile(dir, pattern string) (*vos.File, error) { return vos.CreateTemp(dir, pattern) }

// TempDir creates a directory.
func TempDir(dir, pattern string) (string, error) { return vos.MkdirTemp(dir, pattern) }
