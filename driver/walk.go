//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"slices"

	"github.com/abema/go-mp4"
)

func init() { ops["walk"] = opWalk }

var errHandler = errors.New("the handler says no")

func walkErr(err error) string {
	if errors.Is(err, errHandler) {
		return "hnd"
	}
	return errClass(err)
}

const maxVisits = 400

// walk: traverse a file with a handler that follows a script and logs what it
// is given.  script[k] is what the handler does on its k-th visit (from 0), a
// string of letters; beyond the script def is used:
//
//	p/P ReadPayload (ignoring / returning an error)   d/D ReadData
//	x/X Expand with two parameters                    s   seek away
//	e   return an error                               n   return nil
func opWalk(c Cmd) Rec {
	at, mode := 0, ""
	if x, ok := c["fault"].(map[string]any); ok {
		// the place of the failing call is given in parts of 10000 of all calls
		delete(c, "fault")
		n := opWalk(copyCmd(c))["calls"].(int)
		at, mode = 1+intOf(x["frac"])*n/10000, strOf(x["mode"])
		c["mode"] = mode
	}
	f := fileOf(c, "f")
	r := newFaulty(f.reader(strOf(c["reader"])), at, mode)
	if _, ok := c["mode"]; !ok {
		c["mode"] = ""
	}
	script, _ := c["script"].([]any)
	def := strOf(c["def"])
	if def == "" {
		def = "X"
	}
	delete(c, "script")
	delete(c, "def")
	var from *mp4.BoxInfo
	if l, ok := c["from"].([]any); ok && len(l) == 1 {
		m := l[0].(map[string]any)
		from = biOf(m["bi"])
		from.Context = ctxOf(m["ctx"])
		m["ctx"] = dumpCtx(from.Context)
	} else {
		c["from"] = []any{}
	}

	log := []any{}
	ev := func(e map[string]any) { log = append(log, e) }
	call := func(e map[string]any) { // an event which ends a call of the library
		e["inj"] = r.fired()
		e["at"] = w64(uint64(r.failedAt))
		ev(e)
	}
	visits := 0
	vals := func(l []any) []any {
		out := make([]any, len(l))
		for i := range l {
			out[i] = -1
			if n, ok := l[i].(int); ok {
				out[i] = n
			} else if l[i] != nil {
				out[i] = fmt.Sprint(l[i])
			}
		}
		return out
	}

	type keep struct {
		h    *mp4.ReadHandle
		path mp4.BoxPath
		bi   mp4.BoxInfo
	}
	var kept []keep
	handler := func(h *mp4.ReadHandle) (any, error) {
		kept = append(kept, keep{h, append(mp4.BoxPath{}, h.Path...), h.BoxInfo})
		k := visits
		visits++
		ev(Rec{"e": "v", "bi": dumpBI(&h.BoxInfo), "ctx": dumpCtx(h.BoxInfo.Context), "path": dumpPath(h.Path), "params": vals(h.Params)})
		if k >= maxVisits {
			ev(Rec{"e": "reterr", "st": "hnd"})
			return nil, errHandler
		}
		acts := def
		if k < len(script) {
			acts = strOf(script[k])
		}
		var ret any = k
		for j, a := range acts {
			var err error
			switch a {
			case 'p', 'P':
				var box mp4.IBox
				var n uint64
				box, n, err = h.ReadPayload()
				e := Rec{"e": "rp", "st": errClass(err), "n": clampInt(n), "v": []any{}}
				if err == nil {
					e["v"] = dump(box)
				}
				call(e)
			case 'd', 'D':
				if f.len > 1<<20 && h.BoxInfo.Offset < f.len && min(h.BoxInfo.Size, f.len-h.BoxInfo.Offset) > 1<<20 {
					continue // would fill the memory with the zeros of a sparse file
				}
				var buf bytes.Buffer
				var n uint64
				n, err = h.ReadData(&buf)
				e := Rec{"e": "rd", "st": errClass(err), "n": w64(n), "b": B(nil)}
				if err == nil {
					e["b"] = B(buf.Bytes())
				}
				call(e)
			case 'x', 'X':
				ev(Rec{"e": "xb", "params": []any{k, j}})
				var l []any
				l, err = h.Expand(k, j)
				call(Rec{"e": "xe", "st": walkErr(err), "vals": vals(l)})
			case 's':
				if _, e := r.r.Seek(int64(k*7+j), io.SeekStart); e != nil {
					bug("seek: %v", e)
				}
			case 'z':
				if _, e := r.r.Seek(3, io.SeekEnd); e != nil {
					bug("seek: %v", e)
				}
			case 'e':
				err = errHandler
			case 'n':
				ret = nil
			default:
				bug("script %q", acts)
			}
			if err != nil && a < 'a' || a == 'e' {
				ev(Rec{"e": "reterr", "st": walkErr(err)})
				return nil, err
			}
		}
		if ret == nil {
			ev(Rec{"e": "ret", "val": -1})
		} else {
			ev(Rec{"e": "ret", "val": k})
		}
		return ret, nil
	}

	ps := []any{}
	if l, ok := c["params"].([]any); ok {
		for _, x := range l {
			ps = append(ps, int(x.(float64)))
		}
	}
	c["params"] = ps
	var l []any
	var err error
	if from != nil {
		var v any
		v, err = mp4.ReadBoxStructureFromInternal(r, from, handler, ps...)
		if err == nil {
			l = []any{v}
		}
	} else {
		l, err = mp4.ReadBoxStructure(r, handler, ps...)
	}
	call(Rec{"e": "done", "st": walkErr(err), "vals": vals(l)})
	// what a handler was given stays as it was
	same := true
	for _, k := range kept {
		same = same && k.h.BoxInfo == k.bi && slices.Equal(k.h.Path, k.path)
	}
	return Rec{"st": "ok", "log": log, "calls": r.calls, "kept": same}
}
