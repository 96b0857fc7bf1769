//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"runtime/debug"

	"github.com/abema/go-mp4"
)

func init() {
	ops["robust"] = opRobust
	ops["track"] = opTrack
}

// counted counts what is asked of a reader.
type counted struct {
	r     io.ReadSeeker
	calls int
	bytes int
}

func (c *counted) Read(p []byte) (int, error) {
	c.calls++
	n, err := c.r.Read(p)
	c.bytes += n
	return n, err
}

func (c *counted) Seek(o int64, w int) (int64, error) {
	c.calls++
	return c.r.Seek(o, w)
}

// stage runs one use of the library and notes how it ends and what it cost.
func stage(name string, r *counted, f func() (int, error)) (rec map[string]any) {
	r.calls, r.bytes = 0, 0
	n := 0
	defer func() {
		p := recover()
		if p != nil {
			if d, ok := p.(driverBug); ok {
				panic(d)
			}
			rec = map[string]any{"s": name, "st": "panic", "msg": fmt.Sprint(p)}
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "panic in %s: %v\n%s\n", name, p, debug.Stack())
			}
		}
		rec["n"], rec["calls"], rec["bytes"] = n, clampInt(uint64(r.calls)), clampInt(uint64(r.bytes))
	}()
	var err error
	n, err = f()
	return map[string]any{"s": name, "st": errClass(err)}
}

func texts(box mp4.IBox, ctx mp4.Context) {
	_, _ = mp4.Stringify(box, ctx)
	_, _ = mp4.StringifyWithIndent(box, "  ", ctx)
	_, _ = mp4.Marshal(io.Discard, box, ctx)
}

func rates(info *mp4.ProbeInfo) {
	for _, t := range info.Tracks {
		for _, ts := range []uint32{0, 1, t.Timescale} {
			_ = t.Samples.GetBitrate(ts)
			for _, d := range []uint64{0, 1, uint64(t.Timescale), 1 << 63} {
				_ = t.Samples.GetMaxBitrate(ts, d)
			}
			_ = info.Segments.GetBitrate(t.TrackID, ts)
			_ = info.Segments.GetMaxBitrate(t.TrackID, ts)
		}
	}
	_ = info.Segments.GetBitrate(0, 0)
	_ = info.Segments.GetMaxBitrate(1, 1)
}

// robust: everything the library can be asked about one file.
// f: the file; paths: paths to extract; probe: whether its tables are small enough to be expanded
func opRobust(c Cmd) Rec {
	f := fileOf(c, "f")
	delete(c, "f")
	c["len"] = clampInt(f.len)
	fill := 0
	for _, g := range f.segs {
		fill += len(g.b)
	}
	c["fill"] = fill
	r := &counted{r: f.reader(strOf(c["reader"]))}
	stages := []any{}
	add := func(name string, f func() (int, error)) { stages = append(stages, stage(name, r, f)) }

	visits := 0
	for _, mode := range []string{"walk", "raw"} {
		add(mode, func() (int, error) {
			visits = 0
			_, err := mp4.ReadBoxStructure(r, func(h *mp4.ReadHandle) (any, error) {
				visits++
				if h.BoxInfo.IsSupportedType() {
					if box, _, err := h.ReadPayload(); err == nil {
						texts(box, h.BoxInfo.Context)
					}
					// a version nobody knows, a broken payload: its inside is tried all the same
					_, err := h.Expand(1)
					if mode == "raw" {
						return nil, nil // on to the next box
					}
					return nil, err
				}
				if mode == "raw" && h.BoxInfo.Size < 1<<16 {
					_, err := h.ReadData(&bytes.Buffer{})
					return nil, err
				}
				return nil, nil
			})
			return visits, err
		})
	}
	c["visits"] = visits
	add("info", func() (int, error) {
		for o := uint64(0); o < f.len && o < 200; o += 3 {
			if _, err := r.Seek(int64(o), io.SeekStart); err != nil {
				return 0, err
			}
			bi, err := mp4.ReadBoxInfo(r)
			if err == nil {
				_ = bi.IsSupportedType()
				_ = bi.Type.String()
				_, _ = bi.SeekToPayload(r)
				_, _ = bi.SeekToEnd(r)
			}
		}
		return 0, nil
	})
	paths := []mp4.BoxPath{}
	for _, p := range c["paths"].([]any) {
		path := mp4.BoxPath{}
		for _, x := range p.([]any) {
			path = append(path, typeOf(x))
		}
		paths = append(paths, path)
	}
	delete(c, "paths")
	c["npaths"] = len(paths)
	add("extract", func() (int, error) {
		bs, err := mp4.ExtractBoxesWithPayload(r, nil, paths)
		for _, b := range bs {
			texts(b.Payload, b.Info.Context)
		}
		return len(bs), err
	})
	add("extract1", func() (int, error) {
		n := 0
		var last error
		for _, p := range paths {
			bs, err := mp4.ExtractBoxWithPayload(r, nil, p)
			n += len(bs)
			if err != nil {
				last = err
			}
			bis, _ := mp4.ExtractBox(r, nil, p)
			for _, bi := range bis {
				_, _ = mp4.ExtractBox(r, bi, mp4.BoxPath{mp4.BoxTypeAny()})
				break
			}
		}
		return n, last
	})
	if boolOf(c["probe"]) {
		var info *mp4.ProbeInfo
		add("probe", func() (n int, err error) {
			info, err = mp4.Probe(r)
			return 0, err
		})
		if info != nil {
			add("rates", func() (int, error) { rates(info); return 0, nil })
			for k, t := range info.Tracks {
				if k >= 3 {
					break
				}
				size := 0
				for _, s := range t.Samples {
					size = min(size+int(s.Size), 1<<29)
				}
				st := stage("idr", r, func() (int, error) {
					l, err := mp4.FindIDRFrames(r, t)
					return len(l), err
				})
				st["declared"] = size + len(t.Samples) + len(t.Chunks)
				stages = append(stages, st)
			}
		}
	}
	return Rec{"st": "ok", "stages": stages}
}

// track: FindIDRFrames and the bitrates of any track and any segments.
func opTrack(c Cmd) Rec {
	f := fileOf(c, "f")
	r := &counted{r: f.reader(strOf(c["reader"]))}
	delete(c, "f")
	c["len"] = clampInt(f.len)
	t := trackOf(c["track"].(map[string]any))
	delete(c, "track")
	var gs mp4.Segments
	for _, x := range c["segs"].([]any) {
		m := x.(map[string]any)
		gs = append(gs, &mp4.Segment{TrackID: uint32(numOf(m["id"])), Size: uint32(numOf(m["size"])), Duration: uint32(numOf(m["dur"]))})
	}
	delete(c, "segs")
	t.Timescale = uint32(intOf(c["timescale"]))
	stages := []any{}
	stages = append(stages, stage("rates", r, func() (int, error) {
		rates(&mp4.ProbeInfo{Tracks: mp4.Tracks{t}, Segments: gs})
		return 0, nil
	}))
	size := 0
	for _, s := range t.Samples {
		size = min(size+int(s.Size), 1<<29)
	}
	st := stage("idr", r, func() (int, error) {
		l, err := mp4.FindIDRFrames(r, t)
		return len(l), err
	})
	st["declared"] = size + len(t.Samples) + len(t.Chunks)
	return Rec{"st": "ok", "stages": append(stages, st)}
}
