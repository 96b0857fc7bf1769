//go:build go1.22

package main

import (
	"errors"
	"io"
	"strconv"
	"strings"
)

var errInjected = errors.New("injected failure")

// readerFor wraps a reader so that it behaves differently but legally:
//
//	""        as is
//	one       one byte per Read
//	chunkN    at most N bytes per Read
//	eof       data together with io.EOF when the end is reached
//	oneeof    both
func readerFor(kind string, r io.ReadSeeker) io.ReadSeeker {
	if g, rest := gateOf(kind); g != nil {
		return readerFor(rest, &gated{g, r})
	}
	switch {
	case kind == "" || kind == "plain":
		return r
	case kind == "one":
		return &shortReader{r: r, max: 1}
	case kind == "eof":
		return &shortReader{r: r, max: 1 << 30, dataEOF: true}
	case kind == "oneeof":
		return &shortReader{r: r, max: 1, dataEOF: true}
	case strings.HasPrefix(kind, "chunk"):
		n, err := strconv.Atoi(kind[5:])
		if err != nil {
			bug("reader %q", kind)
		}
		return &shortReader{r: r, max: n}
	case strings.HasPrefix(kind, "vary"):
		n, err := strconv.Atoi(kind[4:])
		if err != nil {
			bug("reader %q", kind)
		}
		return &shortReader{r: r, max: 7, vary: uint32(n)*2654435761 + 1, dataEOF: n%2 == 0}
	}
	bug("reader %q", kind)
	return nil
}

type shortReader struct {
	r       io.ReadSeeker
	max     int
	vary    uint32
	dataEOF bool
}

func (s *shortReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	max := s.max
	if s.vary != 0 {
		s.vary = s.vary*1664525 + 1013904223
		max = int(s.vary>>24)%s.max + 1
	}
	if len(p) > max {
		p = p[:max]
	}
	n, err := s.r.Read(p)
	if s.dataEOF && n > 0 && err == nil {
		// at the end: hand out the last bytes together with io.EOF
		pos, e1 := s.r.Seek(0, io.SeekCurrent)
		end, e2 := s.r.Seek(0, io.SeekEnd)
		_, e3 := s.r.Seek(pos, io.SeekStart)
		if e1 == nil && e2 == nil && e3 == nil && pos == end {
			return n, io.EOF
		}
	}
	return n, err
}

func (s *shortReader) Seek(offset int64, whence int) (int64, error) { return s.r.Seek(offset, whence) }
