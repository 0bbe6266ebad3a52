package main

// An in-memory file that watches how it is used and misbehaves on request.

import (
	"errors"
	"io"
	"math/rand"
	"sync"
	"time"
)

var errFault = errors.New("injected fault")

const (
	faultRead    = iota // a read fails
	faultSeek           // a seek fails
	faultPartial        // a read returns some bytes and an error
	faultFull           // a read returns all the bytes and an error
	faultAny            // whatever comes next fails
	nFaults
)

type fio struct {
	mu    sync.Mutex
	data  []byte
	at    func(p []byte, off int64) // content, if not data
	size  int64
	pos   int64
	ops   int64 // reads and seeks so far
	read  int64 // bytes handed out
	reads int64
	seeks int64
	short *rand.Rand // return short reads, and EOF together with the last bytes
	yield bool       // give way between a seek and a read
	// faults
	kind   int
	failAt int64 // the operation to fail, counted like ops; <0: none
	sticky bool  // and all after it
	faults int64 // how many were injected
	// lifecycle
	closes   int
	afterEnd int // uses after it was closed
	closeErr error
	log      func(off, n int64)
}

func newFio(data []byte) *fio { return &fio{data: data, size: int64(len(data)), failAt: -1} }

// arm makes the k-th operation from now on fail.
func (f *fio) arm(k int64, kind int, sticky bool) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.failAt, f.kind, f.sticky = f.ops+k, kind, sticky
}
func (f *fio) disarm() {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.failAt = -1
}

func (f *fio) due() bool {
	return f.failAt >= 0 && (f.ops == f.failAt || f.sticky && f.ops > f.failAt)
}

func (f *fio) Read(p []byte) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.closes > 0 {
		f.afterEnd++
		return 0, errors.New("read of a closed file")
	}
	bad := f.due()
	f.ops++
	f.reads++
	if bad && (f.kind == faultRead || f.kind == faultAny) {
		f.faults++
		return 0, errFault
	}
	if f.pos >= f.size {
		return 0, io.EOF
	}
	n := int64(len(p))
	if n > f.size-f.pos {
		n = f.size - f.pos
	}
	var err error
	if f.short != nil && n > 0 {
		if f.short.Intn(3) > 0 {
			n = 1 + f.short.Int63n(n)
		}
	}
	if bad && f.kind == faultPartial {
		f.faults++
		n /= 2
		err = errFault
	}
	if bad && f.kind == faultFull {
		f.faults++
		err = errFault
	}
	if f.at != nil {
		f.at(p[:n], f.pos)
	} else {
		copy(p[:n], f.data[f.pos:])
	}
	if f.log != nil {
		f.log(f.pos, n)
	}
	f.pos += n
	f.read += n
	if f.short != nil && f.pos == f.size && err == nil && f.short.Intn(2) == 0 {
		err = io.EOF
	}
	return int(n), err
}

func (f *fio) Seek(off int64, whence int) (int64, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.closes > 0 {
		f.afterEnd++
		return 0, errors.New("seek in a closed file")
	}
	bad := f.due()
	f.ops++
	f.seeks++
	if bad && (f.kind == faultSeek || f.kind == faultAny) {
		f.faults++
		return 0, errFault
	}
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += f.size
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	f.pos = off
	if f.yield {
		f.mu.Unlock()
		time.Sleep(time.Microsecond)
		f.mu.Lock()
	}
	return off, nil
}

func (f *fio) Close() error {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.closes++
	return f.closeErr
}
