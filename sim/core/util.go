package core

import (
	"errors"
	"fmt"
	"io"
	"os"
	"syscall"

	"github.com/dargueta/disko"
)

// Fill produces n bytes which depend only on the tape: a short choice expands to
// a recognisable pattern, so that tapes stay small and every buffer is unique.
func (r *Run) Fill(n int) []byte {
	seed := r.Int(1 << 16)
	return Pattern(uint64(seed), n)
}

// Pattern makes n pseudo-random bytes, none of which is zero.
func Pattern(seed uint64, n int) []byte {
	p := NewPRNG(seed, 77)
	b := make([]byte, n)
	var x uint64
	for i := range b {
		if i%8 == 0 {
			x = p.Next()
		}
		b[i] = byte(x%255) + 1
		x >>= 8
	}
	return b
}

// Sim errors are returned by simulated devices. Each kind mirrors an error real
// storage gives.
var SimErrors = []error{
	errors.New("simulated I/O error"),
	disko.ErrIOFailed,
	disko.ErrNoSpaceOnDevice,
	disko.ErrFileTooLarge,
	disko.ErrNotSupported,
	disko.ErrReadOnlyFileSystem,
	io.ErrUnexpectedEOF,
	io.ErrShortWrite,
	io.ErrClosedPipe,
	disko.ErrArgumentOutOfRange,
	disko.ErrNotPermitted,
	disko.ErrInvalidArgument,
	disko.ErrBusy,
	&os.PathError{Op: "simulated", Path: "device", Err: syscall.EIO},
	// Only io.EOF itself is the end of something.
	fmt.Errorf("simulated connection failure: %w", io.EOF),
}

// SimError picks an error for an injected fault.
func (r *Run) SimError() error { return SimErrors[r.Int(len(SimErrors))] }

// CallError picks an error for an injected fault of a call which, unlike reading
// from an [io.Reader], can't have reached the end of something.
func (r *Run) CallError() error {
	if i := r.Int(len(SimErrors) + 1); i < len(SimErrors) {
		return SimErrors[i]
	}
	return io.EOF
}

// predefined are the errors of disko which aren't among the others.
var predefined = []error{
	disko.ErrNotFound, disko.ErrPermissionDenied, disko.ErrFileSystemCorrupted, disko.ErrExists, disko.ErrIsADirectory, disko.ErrNotADirectory,
	disko.ErrAlreadyInProgress, disko.ErrBlockDeviceRequired, disko.ErrCrossDeviceLink, disko.ErrDirectoryNotEmpty, disko.ErrDiskQuotaExceeded,
	disko.ErrFileDescriptorBadState, disko.ErrInvalidFileDescriptor, disko.ErrInvalidFileSystem, disko.ErrLinkCycleDetected, disko.ErrNameTooLong,
	disko.ErrNoDevice, disko.ErrNotImplemented, disko.ErrResultOutOfRange, disko.ErrTooManyLinks, disko.ErrTooManyOpenFiles, disko.ErrTooManyUsers,
}

// DeviceError picks an error for an injected fault of a device. None of them is an
// answer to anything there.
func (r *Run) DeviceError() error {
	if r.Chance(1, 4) {
		return predefined[r.Int(len(predefined))]
	}
	return r.SimError()
}

// DeviceCallError is the same for a device which isn't a reader.
func (r *Run) DeviceCallError() error {
	if r.Chance(1, 4) {
		return predefined[r.Int(len(predefined))]
	}
	return r.CallError()
}

// FaultRate draws a run's fault probability as a percentage.
func (r *Run) FaultRate() int { return []int{0, 2, 5, 12, 30}[r.Pick(2, 2, 3, 2, 1)] }
