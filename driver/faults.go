//go:build go1.22

package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"io"
	"sort"

	"github.com/abema/go-mp4"
)

func init() {
	ops["fault"] = opFault
	ops["same"] = opSame
}

func copyCmd(c Cmd) Cmd {
	b, err := json.Marshal(c)
	if err != nil {
		bug("copy: %v", err)
	}
	var d Cmd
	if err := json.Unmarshal(b, &d); err != nil {
		bug("copy: %v", err)
	}
	return d
}

// faulty counts the calls it gets and lets one of them fail, once:
//
//	err   with an error and nothing done
//	part  with an error, half of the bytes read or written
//	eof   a Read with io.EOF
//	cut   a Read gives half of what it could, and the next one there io.EOF
type faulty struct {
	r        io.ReadSeeker
	w        io.WriteSeeker
	calls    int
	at       int
	mode     string
	what     string // which call failed
	failedAt int64  // where
	seen     bool   // the failure has been asked for
	cut      bool   // the file ends at cutAt
	cutAt    int64
}

func newFaulty(r io.ReadSeeker, at int, mode string) *faulty {
	return &faulty{r: r, at: at, mode: mode}
}
func newFaultyOut(w io.WriteSeeker, at int, mode string) *faulty {
	return &faulty{w: w, at: at, mode: mode}
}

// fired: a call has failed since fired was last asked
func (f *faulty) fired() bool {
	if f.what == "" || f.seen {
		return false
	}
	f.seen = true
	return true
}

func (f *faulty) now() bool {
	f.calls++
	return f.calls == f.at && f.what == ""
}

func (f *faulty) seeker() io.Seeker {
	if f.w != nil {
		return f.w
	}
	return f.r
}

func (f *faulty) fail(what string) {
	f.what = what
	f.failedAt = -1
	if p, err := f.seeker().Seek(0, io.SeekCurrent); err == nil {
		f.failedAt = p
	}
}

func (f *faulty) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	now := f.now()
	if f.mode == "cut" {
		pos, err := f.r.Seek(0, io.SeekCurrent)
		if err != nil {
			return 0, err
		}
		if now && !f.cut {
			f.cut, f.cutAt = true, pos+int64(len(p)/2)
		}
		if f.cut {
			if pos >= f.cutAt {
				f.fail("read")
				f.cut = false
				return 0, io.EOF
			}
			if int64(len(p)) > f.cutAt-pos {
				p = p[:f.cutAt-pos]
			}
		}
		return f.r.Read(p)
	}
	if !now {
		return f.r.Read(p)
	}
	f.fail("read")
	switch {
	case f.mode == "eof":
		return 0, io.EOF
	case f.mode == "part" && len(p) > 1:
		n, _ := f.r.Read(p[:len(p)/2])
		return n, errInjected
	}
	return 0, errInjected
}

func (f *faulty) Write(p []byte) (int, error) {
	if !f.now() {
		return f.w.Write(p)
	}
	f.fail("write")
	if f.mode == "part" && len(p) > 1 {
		n, _ := f.w.Write(p[:len(p)/2])
		return n, errInjected
	}
	return 0, errInjected
}

func (f *faulty) Seek(offset int64, whence int) (int64, error) {
	if f.mode == "eof" || f.mode == "cut" || !f.now() {
		return f.seeker().Seek(offset, whence)
	}
	f.fail("seek")
	return 0, errInjected
}

// An inner operation under faults: it is given a device and returns its error.
// late says that the error did not come from the call during which the device
// failed.
func innerOf(c Cmd) (fn func(d *faulty) (err error, late bool), mk func(at int, mode string) *faulty) {
	x := c["in"].(map[string]any)
	kind := strOf(x["k"])
	if _, ok := c["f"]; !ok {
		c["f"] = ""
	}
	f := fileOf(c, "f")
	mk = func(at int, mode string) *faulty { return newFaulty(f.reader(strOf(c["reader"])), at, mode) }
	out := func(at int, mode string) *faulty { return newFaultyOut(&sparseOut{}, at, mode) }
	switch kind {
	case "hdr":
		off := unW64(x["off"])
		return func(d *faulty) (error, bool) {
			if _, err := d.r.Seek(int64(off), io.SeekStart); err != nil {
				bug("seek: %v", err)
			}
			_, err := mp4.ReadBoxInfo(d)
			return err, false
		}, mk
	case "seeks":
		bi := biOf(x["bi"])
		return func(d *faulty) (error, bool) {
			for k, s := range []func(io.Seeker) (int64, error){bi.SeekToStart, bi.SeekToPayload, bi.SeekToEnd} {
				if _, err := s(d); err != nil {
					return err, d.calls != k+1
				}
			}
			return nil, false
		}, mk
	case "walk", "from":
		var from *mp4.BoxInfo
		if kind == "from" {
			from = biOf(x["bi"])
			from.Context = ctxOf(x["ctx"])
		}
		acts := strOf(x["acts"])
		handler := func(h *mp4.ReadHandle) (any, error) {
			for _, a := range acts {
				var err error
				if a != 'D' && !h.BoxInfo.IsSupportedType() {
					continue
				}
				switch a {
				case 'P':
					_, _, err = h.ReadPayload()
				case 'D':
					_, err = h.ReadData(io.Discard)
				case 'X':
					_, err = h.Expand()
				}
				if err != nil {
					return nil, err
				}
			}
			return nil, nil
		}
		return func(d *faulty) (err error, late bool) {
			if from != nil {
				bi := *from
				_, err = mp4.ReadBoxStructureFromInternal(d, &bi, handler)
			} else {
				_, err = mp4.ReadBoxStructure(d, handler)
			}
			return err, false
		}, mk
	case "extract":
		var paths []mp4.BoxPath
		for _, p := range x["paths"].([]any) {
			paths = append(paths, pathOf(p))
		}
		pay := boolOf(x["pay"])
		return func(d *faulty) (err error, late bool) {
			if pay {
				_, err = mp4.ExtractBoxesWithPayload(d, nil, paths)
			} else {
				_, err = mp4.ExtractBoxes(d, nil, paths)
			}
			return err, false
		}, mk
	case "probe":
		return func(d *faulty) (error, bool) { _, err := mp4.Probe(d); return err, false }, mk
	case "probefra":
		return func(d *faulty) (error, bool) { _, err := mp4.ProbeFra(d); return err, false }, mk
	case "idr":
		t := trackOf(x["track"].(map[string]any))
		return func(d *faulty) (error, bool) { _, err := mp4.FindIDRFrames(d, t); return err, false }, mk
	case "dec":
		typ, ctx, p := typeOf(x["type"]), ctxOf(x["ctx"]), bytesOf(x["p"])
		return func(d *faulty) (error, bool) {
				_, _, err := mp4.UnmarshalAny(d, typ, uint64(len(p)), ctx)
				return err, false
			}, func(at int, mode string) *faulty {
				return newFaulty(readerFor(strOf(c["reader"]), bytes.NewReader(p)), at, mode)
			}
	case "copyin":
		bi := biOf(x["bi"])
		return func(d *faulty) (error, bool) {
			return mp4.NewWriter(&sparseOut{}).CopyBox(d, bi), false
		}, mk
	case "copyout":
		bi := biOf(x["bi"])
		return func(d *faulty) (error, bool) {
			return mp4.NewWriter(d).CopyBox(f.reader(""), bi), false
		}, out
	case "enc":
		typ, ctx := typeOf(x["type"]), ctxOf(x["ctx"])
		return func(d *faulty) (error, bool) {
			box, e := typ.New(ctx)
			if e != nil {
				bug("new: %v", e)
			}
			load(box, x["v"])
			_, err := mp4.Marshal(d, box, ctx)
			return err, false
		}, out
	case "whdr":
		bi := biOf(x["bi"])
		return func(d *faulty) (error, bool) { _, err := mp4.WriteBoxInfo(d, bi); return err, false }, out
	case "script":
		return func(d *faulty) (err error, late bool) {
			w := mp4.NewWriter(d)
			depth := 0
			for _, y := range x["ops"].([]any) {
				o := y.(map[string]any)
				switch strOf(o["e"]) {
				case "write":
					_, err = w.Write(bytesOf(o["b"]))
				case "marshal":
					typ, ctx := typeOf(o["type"]), ctxOf(o["ctx"])
					box, e := typ.New(ctx)
					if e != nil {
						bug("new: %v", e)
					}
					load(box, o["v"])
					_, err = mp4.Marshal(w, box, ctx)
				case "seek":
					_, err = w.Seek(int64(unW64(o["off"])), intOf(o["whence"]))
				case "start":
					_, err = w.StartBox(biOf(o["bi"]))
					depth++
				case "end":
					if depth == 0 {
						bug("script ends a box that was not started")
					}
					depth--
					_, err = w.EndBox()
				case "copy":
					err = w.CopyBox(fileOf(copyCmd(o), "f").reader(""), biOf(o["bi"]))
				}
				fired := d.fired()
				if err != nil || fired {
					return err, err != nil && d.what != "" && !fired
				}
			}
			return nil, false
		}, out
	}
	bug("inner operation %q", kind)
	return nil, nil
}

// fault: an operation again and again, each time with another failing call.
func opFault(c Cmd) Rec {
	fn, mk := innerOf(c)
	run := func(at int, mode string) (d *faulty, st string, late bool) {
		d = mk(at, mode)
		defer func() {
			if p := recover(); p != nil {
				if b, ok := p.(driverBug); ok {
					panic(b)
				}
				st = "panic"
			}
		}()
		err, late := fn(d)
		return d, errClass(err), late
	}
	d, st0, _ := run(0, "")
	n := d.calls
	limit := intOf(c["limit"])
	var ks []int
	for k := 1; k <= n; k++ {
		if n <= limit || k <= limit/4 || k > n-limit/4 || k%(n/(limit/2)+1) == 0 {
			ks = append(ks, k)
		}
	}
	type out struct {
		mode, what, st string
		late           bool
		pos            int64
	}
	first := map[out]int{}
	runs := 0
	for _, m := range c["modes"].([]any) {
		for _, k := range ks {
			d, st, late := run(k, strOf(m))
			if d.what == "" {
				continue // not that kind of call, or ended before
			}
			runs++
			o := out{strOf(m), d.what, st, late, -1}
			if st == "ok" && (d.mode == "eof" || d.mode == "cut") {
				o.pos = d.failedAt
			}
			if f, ok := first[o]; !ok || k < f {
				first[o] = k
			}
		}
	}
	list := []any{}
	for o, k := range first {
		m := map[string]any{"mode": o.mode, "call": o.what, "st": o.st, "late": o.late, "pos": w64(0), "first": k}
		if o.pos >= 0 {
			m["pos"] = w64(uint64(o.pos))
		}
		list = append(list, m)
	}
	sort.Slice(list, func(i, j int) bool {
		return list[i].(map[string]any)["first"].(int) < list[j].(map[string]any)["first"].(int)
	})
	x := c["in"].(map[string]any)
	c["k"] = x["k"]
	delete(c, "in")
	return Rec{"st": st0, "calls": n, "runs": runs, "out": list}
}

// same: one operation under several reading habits.  The record holds a
// fingerprint of everything observed under each of them.
func opSame(c Cmd) Rec {
	in := c["in"].(map[string]any)
	sigs := []any{}
	sts := []any{}
	for _, k := range c["readers"].([]any) {
		d := copyCmd(in)
		d["reader"] = k
		rec := runOne(d)
		for _, key := range []string{"reader", "calls", "bigalloc"} {
			delete(rec, key)
		}
		b, err := json.Marshal(rec)
		if err != nil {
			bug("%v", err)
		}
		h := sha256.Sum256(b)
		sigs = append(sigs, hex.EncodeToString(h[:8]))
		sts = append(sts, rec["st"])
	}
	c["k"] = in["op"]
	delete(c, "in")
	return Rec{"st": "ok", "sigs": sigs, "sts": sts}
}
