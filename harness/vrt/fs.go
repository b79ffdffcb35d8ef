//go:build go1.25

package vrt

import (
	"errors"
	"fmt"
	"os"
	"sync"
	"syscall"
	"unsafe"
	"weak"
)

// OpenFile is an entry of the table of open files.
type OpenFile struct {
	No   int
	Path string
	Proc int
	Open bool
	F    *os.File
	w    weak.Pointer[os.File] // instead of F outside of executions, where the collector closes what is lost
}

// Mapping is an entry of the table of mappings.
type Mapping struct {
	Mem  []byte
	File int
	Path string
	Proc int
	Open bool // the code has not unmapped it
}

var (
	tmu    sync.Mutex
	Files  []*OpenFile
	Maps   []*Mapping
	fileNo int
)

// ErrInjected is what a failing operation returns.
var ErrInjected = errors.New("injected failure")

// Errnos lists, per kind of operation, the errors of the system with which it can fail
// without an effect while nothing else is wrong.
var Errnos = map[string][]syscall.Errno{
	"stat":     {syscall.ENOENT, syscall.EACCES, syscall.ENOTDIR, syscall.ELOOP, syscall.EIO, syscall.EINTR},
	"open":     {syscall.ENOENT, syscall.EACCES, syscall.EMFILE, syscall.ENFILE, syscall.EIO, syscall.EINTR},
	"create":   {syscall.EEXIST, syscall.EACCES, syscall.EPERM, syscall.ENOENT, syscall.EMFILE, syscall.ENOSPC, syscall.EROFS, syscall.EDQUOT, syscall.EINTR},
	"mkdir":    {syscall.EEXIST, syscall.EACCES, syscall.EPERM, syscall.ENOTDIR, syscall.ENOSPC, syscall.EROFS},
	"truncate": {syscall.ENOSPC, syscall.EFBIG, syscall.EPERM, syscall.EIO, syscall.EINTR, syscall.EINVAL},
	"write":    {syscall.ENOSPC, syscall.EIO, syscall.EDQUOT, syscall.EINTR},
	"read":     {syscall.EIO, syscall.EINTR},
	"map":      {syscall.ENOMEM, syscall.EAGAIN, syscall.ENODEV, syscall.EPERM, syscall.EINVAL},
	"unmap":    {syscall.EINVAL, syscall.ENOMEM},
	"flush":    {syscall.EIO, syscall.EBUSY, syscall.ENOMEM},
	"mlock":    {syscall.ENOMEM, syscall.EPERM, syscall.EAGAIN},
	"sync":     {syscall.EIO, syscall.ENOSPC, syscall.EROFS, syscall.EDQUOT},
	"close":    {syscall.EIO, syscall.EINTR, syscall.ENOSPC},
	"rename":   {syscall.EEXIST, syscall.ENOTEMPTY, syscall.EISDIR, syscall.EACCES, syscall.EPERM, syscall.ENOSPC, syscall.EXDEV, syscall.EROFS, syscall.EBUSY, syscall.EIO},
	"link":     {syscall.EACCES, syscall.EPERM, syscall.ENOSPC, syscall.EXDEV, syscall.EMLINK},
	"remove":   {syscall.EACCES, syscall.EPERM, syscall.EBUSY, syscall.EROFS, syscall.EIO},
	"chmod":    {syscall.EPERM, syscall.EROFS},
}

// ErrDead is what the operations of a dead process return.
var ErrDead = errors.New("the process is dead")

// Begin announces a storage operation. A non-nil error is to be returned by the
// operation, which must then have no effect (closing apart).
func Begin(op *Op) error {
	t := self()
	if t == nil {
		op.Thread, op.Proc = -1, -1
		return nil
	}
	x := t.x
	if t.Dead() {
		return ErrDead
	}
	op.Thread, op.Proc = t.ID, t.Proc
	t.ops++
	x.Ops++
	k := Dev{T: t.ID, O: t.ops, W: op.Kind + " " + op.Path}
	if !x.NoFSPoints && !x.Coarse {
		x.maybeSwitch(t, k.key())
	}
	x.maybeCrash(t, k.key())
	if x.OnOp != nil {
		x.OnOp(op)
	}
	if x.FailOp != nil {
		if err := x.FailOp(op); err != nil {
			x.Faulty = append(x.Faulty, *op)
			return err
		}
	}
	if x.suffix[t.Proc] {
		x.Faulty = append(x.Faulty, *op)
		return ErrInjected
	}
	if x.Faults > 0 && !x.noFaults && (x.Faultable == nil || x.Faultable(op)) {
		k := k.key()
		k.K = "f"
		if x.FaultMode == "errnos" {
			alts := make([]int, len(Errnos[op.Kind]))
			for i := range alts {
				alts[i] = i + 1
			}
			if a, ok := x.choose(k, alts); ok {
				x.Faulty = append(x.Faulty, *op)
				return Errnos[op.Kind][a-1]
			}
			return nil
		}
		if _, ok := x.choose(k, []int{1}); ok {
			if x.FaultMode == "suffix" {
				x.suffix[t.Proc] = true
			}
			x.Faulty = append(x.Faulty, *op)
			return ErrInjected
		}
	}
	return nil
}

// Did announces the end of a storage operation.
func Did(op *Op, err error) {
	op.Err = err
	op.Effect = err == nil && op.Mutates
	t := self()
	if t == nil || t.Dead() || t.x.OnEffect == nil {
		return
	}
	t.x.OnEffect(op)
}

// NoFaults ends the injection of faults in a process.
func (x *Exec) NoFaults(proc int) {
	x.suffix[proc] = false
	x.noFaults = true
	x.FailOp = nil
}

func procOf() int {
	if t := self(); t != nil {
		return t.Proc
	}
	return -1
}

// Opened enters a file in the table.
func Opened(path string, f *os.File) *OpenFile {
	raceOff()
	defer raceOn()
	tmu.Lock()
	defer tmu.Unlock()
	fileNo++
	e := &OpenFile{No: fileNo, Path: path, Proc: procOf(), Open: true}
	if e.Proc < 0 {
		e.w = weak.Make(f)
	} else {
		e.F = f
	}
	Files = append(Files, e)
	return e
}

// Mapped enters a mapping in the table.
func Mapped(path string, file int, mem []byte) {
	raceOff()
	defer raceOn()
	tmu.Lock()
	defer tmu.Unlock()
	Maps = append(Maps, &Mapping{Mem: mem, File: file, Path: path, Proc: procOf(), Open: true})
}

// Unmapped makes a mapping inaccessible (the addresses are kept, so that a later access cannot hit something else).
func Unmapped(mem []byte) error {
	raceOff()
	defer raceOn()
	tmu.Lock()
	defer tmu.Unlock()
	if len(mem) == 0 {
		return syscall.EINVAL
	}
	for _, m := range Maps {
		if m.Open && unsafe.SliceData(m.Mem) == unsafe.SliceData(mem) {
			if len(m.Mem) != len(mem) {
				return syscall.EINVAL
			}
			m.Open = false
			return syscall.Mprotect(m.Mem, syscall.PROT_NONE)
		}
	}
	return syscall.EINVAL
}

// Closed takes a file out of the table.
func Closed(e *OpenFile) {
	raceOff()
	tmu.Lock()
	e.Open = false
	tmu.Unlock()
	raceOn()
}

// Live lists open files and mappings of a process (all: -2).
func Live(proc int) (files, maps []string) {
	tmu.Lock()
	defer tmu.Unlock()
	for _, f := range Files {
		if f.Open && (proc == -2 || f.Proc == proc) {
			files = append(files, f.Path)
		}
	}
	for _, m := range Maps {
		if m.Open && (proc == -2 || m.Proc == proc) {
			maps = append(maps, fmt.Sprintf("%s (%d bytes)", m.Path, len(m.Mem)))
		}
	}
	return
}

// Cleanup closes and unmaps everything.
func Cleanup() {
	raceOff()
	defer raceOn()
	tmu.Lock()
	defer tmu.Unlock()
	for _, f := range Files {
		if f.F != nil {
			f.F.Close()
		} else if w := f.w.Value(); w != nil {
			w.Close()
		}
	}
	for _, m := range Maps {
		if m.Mem != nil {
			syscall.Munmap(m.Mem)
		}
	}
	Files, Maps = nil, nil
}

func mapping(mem []byte) *Mapping {
	raceOff()
	defer raceOn()
	tmu.Lock()
	defer tmu.Unlock()
	for _, m := range Maps {
		if m.Open && len(mem) > 0 && unsafe.SliceData(m.Mem) == unsafe.SliceData(mem) {
			return m
		}
	}
	return &Mapping{Path: "?"}
}

// PathOf a mapping.
func PathOf(mem []byte) string { return mapping(mem).Path }

// FileOf a mapping.
func FileOf(mem []byte) int { return mapping(mem).File }
