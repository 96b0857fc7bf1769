//go:build go1.22

package main

import (
	"github.com/abema/go-mp4"
)

func init() {
	ops["probe"] = opProbe
	ops["idr"] = opIdr
	ops["rate"] = opRate
}

func w32(n uint32) B { return w64(uint64(n)) }

func dumpTrack(t *mp4.Track) any {
	codec := -1
	switch t.Codec {
	case mp4.CodecUnknown:
		codec = 0
	case mp4.CodecAVC1:
		codec = 1
	case mp4.CodecMP4A:
		codec = 2
	}
	edits, avc, mp4a, chunks, samples := []any{}, []any{}, []any{}, []any{}, []any{}
	for _, e := range t.EditList {
		edits = append(edits, map[string]any{"time": w64(uint64(e.MediaTime)), "dur": w64(e.SegmentDuration)})
	}
	if a := t.AVC; a != nil {
		avc = append(avc, map[string]any{"cv": w64(uint64(a.ConfigurationVersion)), "profile": w64(uint64(a.Profile)),
			"compat": w64(uint64(a.ProfileCompatibility)), "level": w64(uint64(a.Level)), "ls": w64(uint64(a.LengthSize)),
			"w": w64(uint64(a.Width)), "h": w64(uint64(a.Height))})
	}
	if a := t.MP4A; a != nil {
		mp4a = append(mp4a, map[string]any{"oti": w64(uint64(a.OTI)), "aud": w64(uint64(a.AudOTI)), "ch": w64(uint64(a.ChannelCount))})
	}
	for _, c := range t.Chunks {
		chunks = append(chunks, map[string]any{"off": w64(c.DataOffset), "spc": w32(c.SamplesPerChunk)})
	}
	for _, s := range t.Samples {
		samples = append(samples, map[string]any{"size": w32(s.Size), "delta": w32(s.TimeDelta), "cto": w64(uint64(s.CompositionTimeOffset))})
	}
	return map[string]any{"id": w32(t.TrackID), "timescale": w32(t.Timescale), "duration": w64(t.Duration), "codec": codec,
		"enc": t.Encrypted, "edits": edits, "avc": avc, "mp4a": mp4a, "chunks": chunks, "samples": samples}
}

func dumpSegment(s *mp4.Segment) any {
	return map[string]any{"id": w32(s.TrackID), "off": w64(s.MoofOffset), "base": w64(s.BaseMediaDecodeTime),
		"defdur": w32(s.DefaultSampleDuration), "count": w32(s.SampleCount), "dur": w32(s.Duration),
		"cto": w64(uint64(int64(s.CompositionTimeOffset))), "size": w32(s.Size)}
}

func dumpInfo(p *mp4.ProbeInfo) any {
	brands, tracks, segs := []any{}, []any{}, []any{}
	for i := range p.CompatibleBrands {
		brands = append(brands, B(p.CompatibleBrands[i][:]))
	}
	for _, t := range p.Tracks {
		tracks = append(tracks, dumpTrack(t))
	}
	for _, s := range p.Segments {
		segs = append(segs, dumpSegment(s))
	}
	return map[string]any{"major": B(p.MajorBrand[:]), "minor": w32(p.MinorVersion), "brands": brands, "fast": p.FastStart,
		"timescale": w32(p.Timescale), "duration": w64(p.Duration), "tracks": tracks, "segs": segs}
}

// probe: what Probe says about a file, and the IDR frames of its tracks.
func opProbe(c Cmd) Rec {
	f := fileOf(c, "f")
	r := f.reader(strOf(c["reader"]))
	probe := mp4.Probe
	if boolOf(c["fra"]) {
		probe = mp4.ProbeFra
	}
	info, err := probe(r)
	rec := Rec{"st": errClass(err), "info": []any{}, "idrs": []any{}, "idr": boolOf(c["idr"])}
	if err != nil {
		return rec
	}
	rec["info"] = dumpInfo(info)
	if boolOf(c["idr"]) {
		idrs := []any{}
		for _, t := range info.Tracks {
			l, err := mp4.FindIDRFrames(r, t)
			idrs = append(idrs, map[string]any{"st": errClass(err), "v": ints(l)})
		}
		rec["idrs"] = idrs
	}
	return rec
}

func ints(l []int) []int {
	if l == nil {
		return []int{}
	}
	return l
}

func loadSamples(v any) mp4.Samples {
	var ss mp4.Samples
	for _, x := range v.([]any) {
		m := x.(map[string]any)
		s := &mp4.Sample{Size: uint32(numOf(m["size"])), TimeDelta: uint32(numOf(m["delta"]))}
		m["size"], m["delta"] = w32(s.Size), w32(s.TimeDelta)
		ss = append(ss, s)
	}
	return ss
}

func trackOf(m map[string]any) *mp4.Track {
	t := &mp4.Track{Samples: loadSamples(m["samples"])}
	for _, x := range m["chunks"].([]any) {
		y := x.(map[string]any)
		ch := &mp4.Chunk{DataOffset: numOf(y["off"]), SamplesPerChunk: uint32(numOf(y["spc"]))}
		y["off"], y["spc"] = w64(ch.DataOffset), w32(ch.SamplesPerChunk)
		t.Chunks = append(t.Chunks, ch)
	}
	if l := m["avc"].([]any); len(l) == 1 {
		y := l[0].(map[string]any)
		t.AVC = &mp4.AVCDecConfigInfo{LengthSize: uint16(numOf(y["ls"]))}
		y["ls"] = w64(uint64(t.AVC.LengthSize))
	}
	return t
}

// idr: FindIDRFrames on any track.
func opIdr(c Cmd) Rec {
	f := fileOf(c, "f")
	r := f.reader(strOf(c["reader"]))
	t := trackOf(c["track"].(map[string]any))
	l, err := mp4.FindIDRFrames(r, t)
	return Rec{"st": errClass(err), "v": ints(l)}
}

// rate: the bitrates of samples and segments.
func opRate(c Cmd) Rec {
	ss := loadSamples(c["samples"])
	var gs mp4.Segments
	for _, x := range c["segs"].([]any) {
		m := x.(map[string]any)
		g := &mp4.Segment{TrackID: uint32(numOf(m["id"])), Size: uint32(numOf(m["size"])), Duration: uint32(numOf(m["dur"]))}
		m["id"], m["size"], m["dur"] = w32(g.TrackID), w32(g.Size), w32(g.Duration)
		gs = append(gs, g)
	}
	ts, id := uint32(numOf(c["timescale"])), uint32(numOf(c["id"]))
	c["timescale"], c["id"] = w32(ts), w32(id)
	maxs := []any{}
	ds := c["deltas"].([]any)
	for i := range ds {
		d := numOf(ds[i])
		ds[i] = w64(d)
		maxs = append(maxs, w64(ss.GetMaxBitrate(ts, d)))
	}
	return Rec{"st": "ok", "rate": w64(ss.GetBitrate(ts)), "maxs": maxs, "srate": w64(gs.GetBitrate(id, ts)), "smax": w64(gs.GetMaxBitrate(id, ts))}
}
