//go:build go1.22

package main

import (
	"bytes"
	"io"
	"runtime"

	"github.com/abema/go-mp4"
)

func init() {
	ops["dec"] = opDec
	ops["enc"] = opEnc
}

// dec: decode a payload found between other bytes.
// in:  type ctx p (payload) pre post (numbers of surrounding bytes / bytes)
// out: st n v pos alloc; if ok and rt is asked: encoding of the value again
func opDec(c Cmd) Rec {
	typ, ctx, p := typeOf(c["type"]), ctxOf(c["ctx"]), bytesOf(c["p"])
	pre, post := bytesOf(c["pre"]), bytesOf(c["post"])
	delete(c, "pre")
	delete(c, "post")
	all := append(append(append([]byte{}, pre...), p...), post...)
	r := readerFor(strOf(c["reader"]), bytes.NewReader(all))
	if _, err := r.Seek(int64(len(pre)), io.SeekStart); err != nil {
		bug("seek: %v", err)
	}
	c["p"] = B(p)
	measure := boolOf(c["mem"])
	var m0, m1 runtime.MemStats
	if measure {
		runtime.ReadMemStats(&m0)
	}
	var box mp4.IBox
	var n uint64
	var err error
	if strOf(c["api"]) == "direct" {
		box, err = typ.New(ctx)
		if err == nil {
			n, err = mp4.Unmarshal(r, uint64(len(p)), box, ctx)
		}
	} else {
		box, n, err = mp4.UnmarshalAny(r, typ, uint64(len(p)), ctx)
	}
	rec := Rec{"st": errClass(err), "n": clampInt(n), "v": []any{}, "pos": -1, "bigalloc": false, "est": "none", "en": 0, "eb": B(nil)}
	if measure {
		runtime.ReadMemStats(&m1)
		rec["bigalloc"] = m1.TotalAlloc-m0.TotalAlloc > 32<<20
	}
	if pos, e := r.Seek(0, io.SeekCurrent); e == nil {
		rec["pos"] = clampInt(uint64(pos - int64(len(pre))))
	}
	if err == nil {
		rec["v"] = dump(box)
		if boolOf(c["re"]) {
			var buf bytes.Buffer
			en, e := mp4.Marshal(&buf, box, ctx)
			rec["est"] = errClass(e)
			if e == nil {
				rec["en"], rec["eb"] = clampInt(en), B(buf.Bytes())
			}
		}
	}
	return rec
}

func clampInt(u uint64) int {
	if u > 1<<30 {
		return 1 << 30
	}
	return int(u)
}

// enc: encode a value, then decode the bytes again.
func opEnc(c Cmd) Rec {
	typ, ctx := typeOf(c["type"]), ctxOf(c["ctx"])
	box, err := typ.New(ctx)
	if err != nil {
		return Rec{"st": errClass(err), "n": 0, "b": B(nil), "dst": "none", "dn": 0, "dv": []any{}}
	}
	load(box, c["v"])
	var buf bytes.Buffer
	n, err := mp4.Marshal(writerFor(strOf(c["reader"]), &buf), box, ctx)
	rec := Rec{"st": errClass(err), "n": clampInt(n), "b": B(nil), "dst": "none", "dn": 0, "dv": []any{}}
	if err == nil {
		b := append([]byte{}, buf.Bytes()...)
		rec["b"] = B(b)
		post := bytesOf(c["post"])
		all := append(append([]byte{}, b...), post...)
		box2, n2, err2 := mp4.UnmarshalAny(bytes.NewReader(all), typ, uint64(len(b)), ctx)
		rec["dst"], rec["dn"] = errClass(err2), clampInt(n2)
		if err2 == nil {
			rec["dv"] = dump(box2)
		}
	}
	delete(c, "post")
	return rec
}
