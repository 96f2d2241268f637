package main

import (
	"errors"
	"fmt"
	"os"
	"strings"

	"github.com/dargueta/disko"
)

// builtError is an error made by the simulated implementation, and what it has
// to be recognised as.
type builtError struct {
	err  disko.DriverError
	is   []error
	text []string
}

// kinds are predefined errors an implementation may give for a failing call
// without the driver being allowed to take them for an ordinary answer.
var kinds = []disko.DriverError{
	disko.ErrIOFailed, disko.ErrNoSpaceOnDevice, disko.ErrFileTooLarge, disko.ErrNotSupported, disko.ErrReadOnlyFileSystem,
	disko.ErrBusy, disko.ErrFileSystemCorrupted, disko.ErrDiskQuotaExceeded, disko.ErrPermissionDenied, disko.ErrTooManyLinks,
	disko.ErrNameTooLong, disko.ErrInvalidArgument, disko.ErrAlreadyInProgress, disko.ErrCrossDeviceLink,
}

// answers are predefined errors which look-ups answer with, but with which other
// calls can fail as well.
var answers = []disko.DriverError{
	disko.ErrNotFound, disko.ErrExists, disko.ErrNotADirectory, disko.ErrIsADirectory, disko.ErrDirectoryNotEmpty, disko.ErrNotPermitted,
	disko.ErrNotImplemented, disko.ErrInvalidArgument, disko.ErrArgumentOutOfRange, disko.ErrLinkCycleDetected, disko.ErrFileDescriptorBadState,
}

// makeError makes the error an injected fault reports.
func (fs *simFS) makeError(kind string, modifies bool) disko.DriverError {
	if !fs.c.identity {
		if (modifies || kind == "ListDir") && fs.r.Chance(1, 3) {
			return answers[fs.r.Int(len(answers))]
		}
		if fs.r.Chance(1, 3) {
			return kinds[fs.r.Int(len(kinds))]
		}
		return disko.CastToDriverError(fs.r.CallError())
	}
	b := fs.buildError(2)
	fs.injected = append(fs.injected, b)
	return b.err
}

func (fs *simFS) serial(what string) string {
	fs.errCount++
	return fmt.Sprintf("<%s %d>", what, fs.errCount)
}

// foreign makes an error which has nothing to do with disko.
func (fs *simFS) foreign() (err error, is []error) {
	base := errors.New(fs.serial("cause"))
	is = []error{base}
	switch fs.r.Pick(4, 1, 1, 1, 1) {
	case 4:
		// There's a driver error inside.
		inner := kinds[fs.r.Int(len(kinds))].WithMessage(fs.serial("inner"))
		if n := len(fs.built); n > 0 && fs.r.Chance(1, 2) {
			inner = fs.built[fs.r.Int(n)].err
		}
		err = &os.PathError{Op: "simulated", Path: fs.serial("device"), Err: inner}
		is = []error{inner}
	case 1:
		err = &os.PathError{Op: "simulated", Path: "device", Err: base}
	case 2:
		err = fmt.Errorf("device: %w", base)
	case 3:
		other := errors.New(fs.serial("other"))
		err = errors.Join(base, other)
		is = append(is, other)
	default:
		return base, is
	}
	return err, append(is, err)
}

// buildError builds an error up in the ways disko offers.
func (fs *simFS) buildError(depth int) *builtError {
	r := fs.r
	b := &builtError{}
	kind := r.Pick(6, 2, 1)
	if len(fs.built) > 0 && r.Chance(1, 5) {
		kind = 3
	}
	switch kind {
	case 0:
		k := kinds[r.Int(len(kinds))]
		*b = builtError{k, []error{k}, []string{k.Error()}}
	case 1:
		err, is := fs.foreign()
		r.Catch("CastToDriverError", func() { b.err = disko.CastToDriverError(err) })
		b.is, b.text = is, []string{err.Error()}
	case 2:
		m := fs.serial("new")
		b.err = disko.NewError(m)
		b.is, b.text = []error{b.err}, []string{m}
	case 3:
		// Derive it from an older one, which others may be derived from, too.
		old := fs.built[r.Int(len(fs.built))]
		b = old.derive(old.err)
		r.Probe("error derived from an earlier one")
	}
	for i := r.Int(5); i > 0; i-- {
		next := b.derive(b.err)
		r.Catch("building an error", func() {
			switch r.Pick(4, 4, 1, 1) {
			case 0:
				m := fs.serial("message")
				next.err = b.err.WithMessage(m)
				next.text = append(next.text, m)
			case 1:
				err, is := fs.foreign()
				next.err = b.err.Wrap(err)
				next.is = append(next.is, is...)
				next.text = append(next.text, err.Error())
			case 2:
				if depth > 0 {
					// A cause which is itself a built-up error.
					cause := fs.buildError(depth - 1)
					next.err = b.err.Wrap(cause.err)
					next.is = append(append(next.is, cause.is...), cause.err)
					next.text = append(next.text, cause.text...)
				}
			case 3:
				next.err = disko.CastToDriverError(b.err)
				r.Check(next.err == b.err, "cast", "casting a driver error gave another error")
				var none error
				r.Check(disko.CastToDriverError(none) == nil, "cast", "casting no error gave an error")
			}
		})
		fs.built = append(fs.built, b)
		b = next
	}
	fs.built = append(fs.built, b)
	return b
}

// derive begins an error which is built from b.
func (b *builtError) derive(err disko.DriverError) *builtError {
	return &builtError{err, append(append([]error{}, b.is...), b.err), append([]string{}, b.text...)}
}

// missing says what of b can't be found in err.
func (b *builtError) missing(err error) string {
	for _, x := range b.is {
		if !errors.Is(err, x) {
			return fmt.Sprintf("is not recognised as %q", x.Error())
		}
	}
	for _, t := range b.text {
		if !strings.Contains(err.Error(), t) {
			return fmt.Sprintf("doesn't mention %q", t)
		}
	}
	return ""
}

// checkIdentity judges the error of an operation during which errors were
// injected. Without them it would have worked, if clean is set.
func (s *sim) checkIdentity(what string, err error, clean bool) {
	r, fs := s.r, s.fs
	if err != nil && clean && len(fs.injected) == fs.fired {
		var why string
		found := false
		for _, b := range fs.injected {
			m := b.missing(err)
			if m == "" {
				found = true
				break
			}
			if why == "" {
				why = m
			}
		}
		r.Check(found, "identity", "%s failed with %q, which %s", what, err.Error(), why)
		// Who uses disko may add to what they get.
		m := fs.serial("user")
		var mine disko.DriverError
		r.Catch("adding to an error", func() { mine = disko.CastToDriverError(err).WithMessage(m) })
		r.Check(errors.Is(mine, err) && strings.Contains(mine.Error(), m) && strings.Contains(mine.Error(), err.Error()),
			"user-identity", "adding %q to %q gave %q", m, err.Error(), mine.Error())
		r.Probe("error reached the user with all it carries")
	}
	s.checkBuilt()
}

// checkBuilt checks every error built so far: each still is what it was made
// from, and nothing else.
func (s *sim) checkBuilt() {
	for _, b := range s.fs.built {
		if m := b.missing(b.err); m != "" {
			s.r.Fail("built-identity", "an error built from predefined errors, messages and causes (%q) %s", b.err.Error(), m)
		}
		for _, k := range kinds {
			if errors.Is(b.err, k) {
				own := false
				for _, x := range b.is {
					own = own || errors.Is(x, k)
				}
				s.r.Check(own, "foreign-identity", "the error %q is taken for %q, which it wasn't built from", b.err.Error(), k.Error())
			}
		}
	}
	for _, k := range kinds {
		for _, o := range kinds {
			s.r.Check(k == o || !errors.Is(k, o), "foreign-identity", "%q is taken for %q", k.Error(), o.Error())
		}
	}
}
