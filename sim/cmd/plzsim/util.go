package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"sort"
	"syscall"
	"time"

	"verifsim/sim"
)

const (
	ms  = time.Millisecond
	sec = time.Second
)

// swarm tells, with probability num/den and independently of the minimised choices, whether
// a feature is on in this run.
func swarm(r *sim.Run, num, den int) bool { return r.Swarm.Chance(num, den) }

func pickDur(r *sim.Run, ds ...time.Duration) time.Duration { return ds[r.W.Draw(len(ds))] }

// try runs f and returns the panic it let out, if any.
func try(f func()) (p interface{}, panicked bool) {
	defer func() {
		if panicked {
			p = recover()
		}
	}()
	panicked = true
	f()
	panicked = false
	return
}

func itoa(n int) string { return fmt.Sprintf("%d", n) }

// Errors that code likes to treat specially.
var knownErrors = []error{io.EOF, io.ErrShortWrite, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, context.Canceled, context.DeadlineExceeded,
	os.ErrClosed, os.ErrNotExist, os.ErrExist, os.ErrPermission, os.ErrInvalid, syscall.EAGAIN, syscall.EINTR, syscall.EPIPE, syscall.ENOSPC, syscall.EIO, syscall.EBADF}

type kindError struct {
	s   string
	err error
}

func (e *kindError) Error() string   { return e.s }
func (e *kindError) Unwrap() error   { return e.err }
func (e *kindError) Timeout() bool   { return true }
func (e *kindError) Temporary() bool { return true }

// someError is an error with the given text, or now and then a well-known one.
func someError(g *sim.Stream, text string) error {
	switch g.Draw(8) {
	case 1:
		return knownErrors[g.Draw(len(knownErrors))]
	case 2:
		return &kindError{text, knownErrors[g.Draw(len(knownErrors))]}
	}
	return errors.New(text)
}

// names lists the keys of m in order.
func names[V any](m map[string]V) []string {
	l := make([]string, 0, len(m))
	for n := range m {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}
