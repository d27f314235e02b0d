// Package gzip is compress/gzip with writers that are used again in later runs: making one
// allocates most of a megabyte.
package gzip

import (
	"compress/gzip"
	"io"

	"verifsim/sim"
)

type (
	Header = gzip.Header
	Reader = gzip.Reader
	Writer = gzip.Writer
)

const (
	NoCompression      = gzip.NoCompression
	BestSpeed          = gzip.BestSpeed
	BestCompression    = gzip.BestCompression
	DefaultCompression = gzip.DefaultCompression
	HuffmanOnly        = gzip.HuffmanOnly
)

var (
	ErrChecksum = gzip.ErrChecksum
	ErrHeader   = gzip.ErrHeader
)

var free, used [HuffmanOnlyLevels][]*gzip.Writer

// HuffmanOnlyLevels is the number of levels.
const HuffmanOnlyLevels = BestCompression - HuffmanOnly + 1

func init() {
	sim.OnStart(func() {
		for i := range used {
			if free[i] = append(free[i], used[i]...); len(free[i]) > 64 {
				free[i] = free[i][:64]
			}
			used[i] = nil
		}
	})
}

func NewReader(r io.Reader) (*Reader, error) { return gzip.NewReader(r) }

func NewWriter(w io.Writer) *Writer {
	z, _ := NewWriterLevel(w, DefaultCompression)
	return z
}

func NewWriterLevel(w io.Writer, level int) (*Writer, error) {
	if level < HuffmanOnly || level > BestCompression {
		return gzip.NewWriterLevel(w, level)
	}
	i := level - HuffmanOnly
	var z *gzip.Writer
	if n := len(free[i]); n > 0 {
		z = free[i][n-1]
		free[i] = free[i][:n-1]
		z.Reset(w)
	} else {
		z, _ = gzip.NewWriterLevel(w, level)
	}
	used[i] = append(used[i], z)
	return z, nil
}
