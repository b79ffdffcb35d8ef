//go:build go1.25

// Package vmmap stands in for package github.com/edsrzf/mmap-go. Unmapped memory
// becomes inaccessible, and its addresses are not used again.
package vmmap

import (
	"errors"
	"os"
	"syscall"

	"github.com/sencha-dev/powkit/internal/vh/shim/vos"
	"github.com/sencha-dev/powkit/internal/vh/vrt"
)

const (
	RDONLY = 0
	RDWR   = 1 << iota
	COPY
	EXEC
)

const (
	ANON = 1 << iota
)

// MMap is a mapping.
type MMap []byte

// Map maps a file.
func Map(f *vos.File, prot, flags int) (MMap, error) { return MapRegion(f, -1, prot, flags, 0) }

// MapRegion maps a part of a file.
func MapRegion(f *vos.File, length int, inprot, inflags int, offset int64) (MMap, error) {
	if offset%int64(os.Getpagesize()) != 0 {
		return nil, errors.New("offset parameter must be a multiple of the system's page size")
	}
	op := vrt.Op{Kind: "map", Flag: inprot}
	if inflags&ANON == 0 {
		op.Path = f.Path()
		if e := f.Entry(); e != nil {
			op.File = e.No
		}
	}
	op.Mutates = inprot&RDWR != 0
	if err := vrt.Begin(&op); err != nil {
		return nil, err
	}
	fd := -1
	if inflags&ANON == 0 {
		fd = int(f.Real().Fd())
		if length < 0 {
			fi, err := f.Real().Stat()
			if err != nil {
				vrt.Did(&op, err)
				return nil, err
			}
			length = int(fi.Size())
		}
	} else if length <= 0 {
		return nil, errors.New("anonymous mapping requires non-zero length")
	}
	flags := syscall.MAP_SHARED
	prot := syscall.PROT_READ
	switch {
	case inprot&COPY != 0:
		prot |= syscall.PROT_WRITE
		flags = syscall.MAP_PRIVATE
	case inprot&RDWR != 0:
		prot |= syscall.PROT_WRITE
	}
	if inprot&EXEC != 0 {
		prot |= syscall.PROT_EXEC
	}
	if inflags&ANON != 0 {
		flags |= syscall.MAP_ANON
	}
	b, err := syscall.Mmap(fd, offset, length, prot, flags)
	if err == nil {
		vrt.Mapped(op.Path, op.File, b)
		op.N = int64(length)
	}
	vrt.Did(&op, err)
	if err != nil {
		return nil, err
	}
	return b, nil
}

func (m MMap) do(kind string, mut bool, real func() error) error {
	op := vrt.Op{Kind: kind, Path: vrt.PathOf(m), Mutates: mut}
	op.File = vrt.FileOf(m)
	if err := vrt.Begin(&op); err != nil {
		return err
	}
	err := real()
	vrt.Did(&op, err)
	return err
}

// Lock keeps the region in memory.
func (m MMap) Lock() error { return m.do("mlock", false, func() error { return syscall.Mlock(m) }) }

// Unlock reverses Lock.
func (m MMap) Unlock() error {
	return m.do("munlock", false, func() error { return syscall.Munlock(m) })
}

// Flush writes the region to the file.
func (m MMap) Flush() error {
	return m.do("flush", false, func() error {
		if len(m) == 0 {
			return syscall.EINVAL
		}
		return nil
	})
}

// Unmap ends the mapping.
func (m *MMap) Unmap() error {
	b := *m
	err := b.do("unmap", false, func() error { return vrt.Unmapped(b) })
	*m = nil
	return err
}
