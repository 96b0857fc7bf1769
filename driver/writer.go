//go:build go1.22

package main

import (
	"sort"

	"github.com/abema/go-mp4"
)

func init() { ops["writer"] = opWriter }

// runs gives what was written as runs of bytes, in order, no two of them touching.
func (s *sparseOut) runs() []any {
	type run struct {
		o uint64
		b []byte
	}
	var cuts []uint64
	for _, g := range s.segs {
		cuts = append(cuts, g.off, g.off+uint64(len(g.b)))
	}
	sort.Slice(cuts, func(i, j int) bool { return cuts[i] < cuts[j] })
	var rs []run
	for i := 0; i+1 < len(cuts); i++ {
		a, e := cuts[i], cuts[i+1]
		if a == e {
			continue
		}
		covered := false
		var b []byte
		for _, g := range s.segs {
			if g.off <= a && e <= g.off+uint64(len(g.b)) {
				covered = true
				b = g.b[a-g.off : e-g.off]
			}
		}
		if !covered {
			continue
		}
		if n := len(rs); n > 0 && rs[n-1].o+uint64(len(rs[n-1].b)) == a {
			rs[n-1].b = append(append([]byte{}, rs[n-1].b...), b...)
		} else {
			rs = append(rs, run{a, append([]byte{}, b...)})
		}
	}
	out := []any{}
	for _, r := range rs {
		out = append(out, map[string]any{"o": w64(r.o), "b": B(r.b)})
	}
	return out
}

// writer: a script of writer operations; stops after the first error.
func opWriter(c Cmd) Rec {
	out := &sparseOut{}
	w := mp4.NewWriter(outFor(strOf(c["reader"]), out))
	log := []any{}
	depth := 0
	for _, x := range c["ops"].([]any) {
		o := x.(map[string]any)
		ev := Rec{"e": o["e"], "st": "ok", "out": noBI}
		var err error
		switch strOf(o["e"]) {
		case "write":
			b := bytesOf(o["b"])
			ev["b"] = B(b)
			var n int
			n, err = w.Write(b)
			ev["n"] = n
		case "marshal":
			typ, ctx := typeOf(o["type"]), ctxOf(o["ctx"])
			box, e := typ.New(ctx)
			if e != nil {
				bug("new: %v", e)
			}
			load(box, o["v"])
			var n uint64
			n, err = mp4.Marshal(w, box, ctx)
			ev["layout"], ev["v"], ev["ctx"], ev["n"] = layoutName(box), o["v"], dumpCtx(ctx), clampInt(n)
		case "seek":
			var n int64
			n, err = w.Seek(int64(unW64(o["off"])), intOf(o["whence"]))
			ev["off"], ev["whence"], ev["n"] = w64(unW64(o["off"])), intOf(o["whence"]), w64(uint64(n))
		case "start":
			bi := biOf(o["bi"])
			ev["bi"] = dumpBI(bi)
			var got *mp4.BoxInfo
			got, err = w.StartBox(bi)
			if err == nil {
				ev["out"] = dumpBI(got)
				depth++
			}
		case "end":
			if depth == 0 {
				bug("script ends a box that was not started")
			}
			var got *mp4.BoxInfo
			got, err = w.EndBox()
			if err == nil {
				ev["out"] = dumpBI(got)
				depth--
			}
		case "copy":
			f := fileOf(o, "f")
			bi := biOf(o["bi"])
			ev["f"], ev["bi"] = o["f"], dumpBI(bi)
			err = w.CopyBox(f.reader(strOf(o["reader"])), bi)
		default:
			bug("writer op %v", o["e"])
		}
		ev["st"] = errClass(err)
		ev["pos"] = w64(uint64(out.pos))
		log = append(log, ev)
		if err != nil {
			delete(c, "ops")
			return Rec{"st": "ok", "log": log}
		}
	}
	log = append(log, Rec{"e": "done", "segs": out.runs(), "len": w64(out.len)})
	delete(c, "ops")
	return Rec{"st": "ok", "log": log}
}
