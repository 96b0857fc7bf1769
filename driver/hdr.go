//go:build go1.22

package main

import (
	"io"
	"reflect"
	"sort"

	"github.com/abema/go-mp4"
)

func init() {
	ops["hdrw"] = opHdrW
	ops["hdrr"] = opHdrR
	ops["reg"] = opReg
	ops["extract"] = opExtract
}

// sparseOut is an output of any length: every Write becomes a run of bytes.
type sparseOut struct {
	sparseFile
}

func (s *sparseOut) Write(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	b := append([]byte{}, p...)
	s.segs = append(s.segs, seg{uint64(s.pos), b})
	s.pos += int64(len(p))
	if uint64(s.pos) > s.len {
		s.len = uint64(s.pos)
	}
	return len(p), nil
}

// content reads the whole (small) output back.
func (s *sparseOut) content() []byte {
	r := &sparseFile{len: s.len, segs: s.segs}
	b := make([]byte, s.len)
	if _, err := io.ReadFull(r, b); err != nil && s.len > 0 {
		bug("content: %v", err)
	}
	return b
}

// seekLog follows the position it is told to go to.
type seekLog struct {
	pos  int64
	args []any
}

func (s *seekLog) Seek(offset int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		s.pos = offset
	case io.SeekCurrent:
		s.pos += offset
	default:
		return 0, errSeek
	}
	return s.pos, nil
}

func seeks(bi *mp4.BoxInfo) any {
	l := &seekLog{pos: 12345}
	var rets []any
	for _, f := range []func(io.Seeker) (int64, error){bi.SeekToStart, bi.SeekToPayload, bi.SeekToEnd} {
		n, err := f(l)
		if err != nil {
			bug("seek log: %v", err)
		}
		l.args = append(l.args, w64(uint64(l.pos)))
		rets = append(rets, w64(uint64(n)))
	}
	return map[string]any{"args": l.args, "rets": rets}
}

var noBI = map[string]any{"off": w64(0), "size": w64(0), "hdr": 0, "type": B{0, 0, 0, 0}, "ext": false}

func hdrErr(err error) string {
	switch err {
	case nil:
		return "ok"
	case io.EOF, io.ErrUnexpectedEOF:
		return "eof"
	}
	return "err"
}

// hdrw: write a header at a position, read it back from a file of length flen.
func opHdrW(c Cmd) Rec {
	off := unW64(c["off"])
	bi := biOf(c["bi"])
	w := &sparseOut{}
	w.pos = int64(off)
	out, err := mp4.WriteBoxInfo(w, bi)
	rec := Rec{"st": errClass(err), "out": noBI, "segs": []any{}, "pos": w64(uint64(w.pos)), "in": dumpBI(bi),
		"bst": "none", "back": noBI, "bpos": w64(0), "seeks": map[string]any{"args": []any{}, "rets": []any{}}}
	if err != nil {
		return rec
	}
	rec["out"] = dumpBI(out)
	rec["segs"] = w.record().(map[string]any)["segs"]
	rec["seeks"] = seeks(out)
	r := &sparseFile{len: unW64(c["flen"]), segs: w.segs, pos: int64(off)}
	back, err := mp4.ReadBoxInfo(r)
	rec["bst"] = hdrErr(err)
	if err == nil {
		rec["back"], rec["bpos"] = dumpBI(back), w64(uint64(r.pos))
	}
	return rec
}

// hdrr: read the header at a position of a file.
func opHdrR(c Cmd) Rec {
	f := fileOf(c, "f")
	r := f.reader(strOf(c["reader"]))
	if _, err := r.Seek(int64(unW64(c["off"])), io.SeekStart); err != nil {
		bug("seek: %v", err)
	}
	bi, err := mp4.ReadBoxInfo(r)
	rec := Rec{"st": hdrErr(err), "bi": noBI, "pos": w64(0), "seeks": map[string]any{"args": []any{}, "rets": []any{}}}
	if err == nil {
		pos, e := r.Seek(0, io.SeekCurrent)
		if e != nil {
			bug("seek: %v", e)
		}
		rec["bi"], rec["pos"], rec["seeks"] = dumpBI(bi), w64(uint64(pos)), seeks(bi)
	}
	return rec
}

// reg: what a type means in a context.
func opReg(c Cmd) Rec {
	typ, ctx := typeOf(c["type"]), ctxOf(c["ctx"])
	c["ctx"] = dumpCtx(ctx)
	bi := mp4.BoxInfo{Type: typ, Context: ctx}
	rec := Rec{"st": "ok", "sup": typ.IsSupported(ctx), "sup2": bi.IsSupportedType(), "layout": "", "gtype": B{0, 0, 0, 0},
		"vst": "ok", "vers": []int{}, "isv": []int{}, "item": mp4.IsIlstMetaBoxType(typ)}
	box, err := typ.New(ctx)
	rec["nst"] = errClass(err)
	if err == nil {
		t := box.GetType()
		rec["layout"], rec["gtype"] = layoutName(box), B(t[:])
	}
	vs, err := typ.GetSupportedVersions(ctx)
	rec["vst"] = errClass(err)
	l := []int{}
	for _, v := range vs {
		l = append(l, int(v))
	}
	sort.Ints(l)
	rec["vers"] = l
	isv := []int{}
	for v := 0; v < 256; v++ {
		if typ.IsSupportedVersion(uint8(v), ctx) {
			isv = append(isv, v)
		}
	}
	if len(isv) == 256 {
		isv = []int{-1}
	}
	rec["isv"] = isv
	return rec
}

// extract: the boxes of some paths, with their payloads or without.
func opExtract(c Cmd) Rec {
	f := fileOf(c, "f")
	r := f.reader(strOf(c["reader"]))
	var paths []mp4.BoxPath
	pl, _ := c["paths"].([]any)
	for _, p := range pl {
		paths = append(paths, pathOf(p))
	}
	if pl == nil {
		c["paths"] = []any{}
	}
	var parent *mp4.BoxInfo
	if l, ok := c["from"].([]any); ok && len(l) == 1 {
		m := l[0].(map[string]any)
		parent = biOf(m["bi"])
		parent.Context = ctxOf(m["ctx"])
		m["ctx"] = dumpCtx(parent.Context)
	} else {
		c["from"] = []any{}
	}
	one := len(paths) == 1 && boolOf(c["single"])
	var out []any
	var err error
	if boolOf(c["pay"]) {
		var l []*mp4.BoxInfoWithPayload
		if one {
			l, err = mp4.ExtractBoxWithPayload(r, parent, paths[0])
		} else {
			l, err = mp4.ExtractBoxesWithPayload(r, parent, paths)
		}
		if err == nil {
			for _, x := range l {
				t := x.Payload.GetType()
				out = append(out, map[string]any{"bi": dumpBI(&x.Info), "ctx": dumpCtx(x.Info.Context), "v": dump(x.Payload),
					"gt": B(t[:])})
			}
		}
	} else {
		var l []*mp4.BoxInfo
		if one {
			l, err = mp4.ExtractBox(r, parent, paths[0])
		} else {
			l, err = mp4.ExtractBoxes(r, parent, paths)
		}
		if err == nil {
			for _, x := range l {
				out = append(out, map[string]any{"bi": dumpBI(x), "ctx": dumpCtx(x.Context), "v": []any{}, "gt": B(x.Type[:])})
			}
		}
	}
	if out == nil {
		out = []any{}
	}
	return Rec{"st": errClass(err), "out": out}
}

func layoutName(box mp4.IBox) string {
	t := reflect.TypeOf(box)
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t.Name()
}
