//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strconv"

	"gopkg.in/yaml.v2"
)

// names of the values in the report of mp4tool probe, in JSON and in YAML
type reportKey struct{ name, json, yaml, kind string }

var reportKeys = []reportKey{
	{"major", "MajorBrand", "major_brand", "text"}, {"minor", "MinorVersion", "minor_version", "num"},
	{"fast", "FastStart", "fast_start", "bool"}, {"timescale", "Timescale", "timescale", "num"},
	{"duration", "Duration", "duration", "num"}, {"secs", "DurationSeconds", "duration_seconds", "float"},
}

var trackKeys = []reportKey{
	{"id", "TrackID", "track_id", "num"}, {"timescale", "Timescale", "timescale", "num"}, {"duration", "Duration", "duration", "num"},
	{"secs", "DurationSeconds", "duration_seconds", "float"}, {"codec", "Codec", "codec", "text"}, {"enc", "Encrypted", "encrypted", "bool"},
	{"width", "Width", "width", "num?"}, {"height", "Height", "height", "num?"}, {"samples", "SampleNum", "sample_num", "num?"},
	{"chunks", "ChunkNum", "chunk_num", "num?"}, {"idrs", "IDRFrameNum", "idr_frame_num", "num?"}, {"bitrate", "Bitrate", "bitrate", "num?"},
	{"max", "MaxBitrate", "max_bitrate", "num?"},
}

type unreadable string

func number(v any) uint64 {
	u, err := strconv.ParseUint(fmt.Sprint(v), 10, 64)
	if err != nil {
		panic(unreadable(fmt.Sprintf("not a number: %v", v)))
	}
	return u
}

// floating gives a float32 as m * 2^e.
func floating(v any) any {
	x, err := strconv.ParseFloat(fmt.Sprint(v), 32)
	if err != nil {
		panic(unreadable(fmt.Sprintf("not a number: %v", v)))
	}
	if math.IsNaN(x) || math.IsInf(x, 0) || x < 0 {
		return map[string]any{"k": "none", "m": w64(0), "e": 0}
	}
	frac, exp := math.Frexp(float64(float32(x)))
	return map[string]any{"k": "num", "m": w64(uint64(frac * (1 << 24))), "e": exp - 24}
}

func valuesOf(keys []reportKey, format string, m map[string]any) map[string]any {
	out := map[string]any{}
	for _, k := range keys {
		name := k.json
		if format != "" && format != "json" {
			name = k.yaml
		}
		v, ok := m[name]
		if !ok && k.kind != "num?" {
			panic(unreadable("no " + name))
		}
		switch k.kind {
		case "text":
			s, ok := v.(string)
			if !ok {
				panic(unreadable(fmt.Sprintf("not a text: %v", v)))
			}
			out[k.name] = B([]byte(s))
		case "bool":
			b, ok := v.(bool)
			if !ok {
				panic(unreadable(fmt.Sprintf("not a truth value: %v", v)))
			}
			out[k.name] = b
		case "float":
			out[k.name] = floating(v)
		case "num":
			out[k.name] = w64(number(v))
		case "num?":
			n := uint64(0)
			if ok {
				n = number(v)
			}
			out[k.name] = w64(n)
		}
	}
	return out
}

func list(m map[string]any, a, b string) []any {
	for _, k := range []string{a, b} {
		if v, ok := m[k]; ok {
			l, ok := v.([]any)
			if !ok {
				panic(unreadable("not a list: " + k))
			}
			return l
		}
	}
	panic(unreadable("no " + a))
}

func stringMap(v any) map[string]any {
	switch m := v.(type) {
	case map[string]any:
		return m
	case map[any]any:
		out := map[string]any{}
		for k, x := range m {
			out[fmt.Sprint(k)] = x
		}
		return out
	}
	panic(unreadable(fmt.Sprintf("not a mapping: %v", v)))
}

// report reads the output of mp4tool probe: [] or one record
func report(out []byte, format string) (res any) {
	defer func() {
		if p := recover(); p != nil {
			u, ok := p.(unreadable)
			if !ok {
				panic(p)
			}
			res = []any{string(u)}
		}
	}()
	var v any
	if format == "" || format == "json" {
		d := json.NewDecoder(bytes.NewReader(out))
		d.UseNumber()
		if err := d.Decode(&v); err != nil {
			return []any{err.Error()}
		}
		if d.More() {
			return []any{"more than one value"}
		}
	} else if err := yaml.Unmarshal(out, &v); err != nil {
		return []any{err.Error()}
	}
	m := stringMap(v)
	rec := valuesOf(reportKeys, format, m)
	brands, tracks := []any{}, []any{}
	for _, b := range list(m, "CompatibleBrands", "compatible_brands") {
		s, ok := b.(string)
		if !ok {
			panic(unreadable("a brand that is not a text"))
		}
		brands = append(brands, B([]byte(s)))
	}
	for _, t := range list(m, "Tracks", "tracks") {
		tracks = append(tracks, valuesOf(trackKeys, format, stringMap(t)))
	}
	rec["brands"], rec["tracks"] = brands, tracks
	return rec
}
