//go:build go1.22

package main

import (
	"errors"
	"io"
	"math"

	"github.com/abema/go-mp4"
)

// sparseFile is a read-only file of any length up to 2^63-1, zero except for
// some runs of bytes.
type sparseFile struct {
	len  uint64
	segs []seg
	pos  int64
}

type seg struct {
	off uint64
	b   []byte
}

var errSeek = errors.New("invalid seek")

func (s *sparseFile) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if uint64(s.pos) >= s.len {
		return 0, io.EOF
	}
	n := uint64(len(p))
	if n > s.len-uint64(s.pos) {
		n = s.len - uint64(s.pos)
	}
	p = p[:n]
	for i := range p {
		p[i] = 0
	}
	from, to := uint64(s.pos), uint64(s.pos)+n
	for _, g := range s.segs {
		a, b := g.off, g.off+uint64(len(g.b))
		if a < from {
			a = from
		}
		if b > to {
			b = to
		}
		if a < b {
			copy(p[a-from:b-from], g.b[a-g.off:b-g.off])
		}
	}
	s.pos += int64(n)
	return int(n), nil
}

func (s *sparseFile) Seek(offset int64, whence int) (int64, error) {
	var base int64
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		base = s.pos
	case io.SeekEnd:
		base = int64(s.len)
	default:
		return 0, errSeek
	}
	if offset > 0 && base > math.MaxInt64-offset {
		return 0, errSeek
	}
	if base+offset < 0 {
		return 0, errSeek
	}
	s.pos = base + offset
	return s.pos, nil
}

// fileOf reads a file description - a hexadecimal string or {len, segs:[{o,b}]} -
// and rewrites it in the record into the form the specification reads.
func fileOf(c Cmd, key string) *sparseFile {
	f := &sparseFile{}
	switch x := c[key].(type) {
	case string, []any:
		b := bytesOf(x)
		f.len = uint64(len(b))
		f.segs = []seg{{0, b}}
	case map[string]any:
		f.len = unW64(x["len"])
		for _, y := range x["segs"].([]any) {
			m := y.(map[string]any)
			f.segs = append(f.segs, seg{unW64(m["o"]), bytesOf(m["b"])})
		}
	default:
		bug("no file %q", key)
	}
	c[key] = f.record()
	return f
}

func (s *sparseFile) record() any {
	segs := make([]any, len(s.segs))
	for i, g := range s.segs {
		segs[i] = map[string]any{"o": w64(g.off), "b": B(g.b)}
	}
	return map[string]any{"len": w64(s.len), "segs": segs}
}

// reader gives the file to the library, possibly through a reader with other habits.
func (s *sparseFile) reader(kind string) io.ReadSeeker {
	return readerFor(kind, &sparseFile{len: s.len, segs: s.segs})
}

func dumpBI(bi *mp4.BoxInfo) any {
	return map[string]any{
		"off": w64(bi.Offset), "size": w64(bi.Size), "hdr": clampInt(bi.HeaderSize),
		"type": B(bi.Type[:]), "ext": bi.ExtendToEOF,
	}
}

func biOf(v any) *mp4.BoxInfo {
	m := v.(map[string]any)
	bi := &mp4.BoxInfo{
		Offset: unW64(m["off"]), Size: unW64(m["size"]), HeaderSize: numOf(m["hdr"]),
		Type: typeOf(m["type"]), ExtendToEOF: boolOf(m["ext"]),
	}
	return bi
}

func dumpPath(p mp4.BoxPath) any {
	l := make([]any, len(p))
	for i := range p {
		l[i] = B(append([]byte{}, p[i][:]...))
	}
	return l
}

func pathOf(v any) mp4.BoxPath {
	l, _ := v.([]any)
	p := make(mp4.BoxPath, len(l))
	for i := range l {
		p[i] = typeOf(l[i])
	}
	return p
}
