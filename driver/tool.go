//go:build go1.22

package main

import (
	"bytes"
	"context"
	"errors"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

func init() { ops["tool"] = opTool }

// limited keeps the beginning of what is written to it.
type limited struct {
	bytes.Buffer
	over bool
}

const outLimit = 64 << 20

func (l *limited) Write(p []byte) (int, error) {
	if l.Len()+len(p) > outLimit {
		l.over = true
		return 0, errors.New("too much output")
	}
	return l.Buffer.Write(p)
}

// runs of bytes, without long stretches of zeros
func fileForm(b []byte) any {
	segs := []seg{}
	for i := 0; i < len(b); {
		j, zeros := i, 0
		for j < len(b) && zeros < 64 {
			if b[j] == 0 {
				zeros++
			} else {
				zeros = 0
			}
			j++
		}
		if zeros >= 64 {
			j -= zeros
		}
		if j > i {
			segs = append(segs, seg{uint64(i), b[i:j]})
		}
		for j < len(b) && b[j] == 0 {
			j++
		}
		i = j
	}
	if len(segs) == 0 {
		segs = append(segs, seg{0, nil})
	}
	return (&sparseFile{len: uint64(len(b)), segs: segs}).record()
}

func lines(b []byte) any {
	out := []any{}
	if len(b) == 0 {
		return out
	}
	b = bytes.TrimSuffix(b, []byte("\n"))
	for _, l := range bytes.Split(b, []byte("\n")) {
		out = append(out, B(l))
	}
	return out
}

// mp4tool runs the command in dir; status "ok", "fail", "crash" or "hang".
func mp4tool(dir string, args []string) (st string, out, msg []byte) {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	bin := os.Getenv("VERIF_MP4TOOL")
	if bin == "" {
		bug("no mp4tool")
	}
	var so, se limited
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir, cmd.Stdout, cmd.Stderr = dir, &so, &se
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=1GiB", "GOTRACEBACK=single", "GOMAXPROCS=2")
	err := cmd.Run()
	var ee *exec.ExitError
	switch {
	case ctx.Err() != nil:
		st = "hang"
	case err == nil:
		st = "ok"
	case errors.As(err, &ee):
		st = "fail"
		if ee.ExitCode() < 0 || bytes.Contains(se.Bytes(), []byte("goroutine ")) {
			st = "crash"
		}
	case so.over || se.over:
		st = "flood"
	default:
		bug("mp4tool: %v", err)
	}
	return st, so.Bytes(), se.Bytes()
}

func texts0(v any) []string {
	l := []string{}
	for _, x := range v.([]any) {
		l = append(l, string(bytesOf(x)))
	}
	return l
}

// scratch runs f in a directory of its own that holds the file as "in".
func scratch(f *sparseFile, use func(dir string)) {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "tool-")
	if err != nil {
		bug("%v", err)
	}
	defer os.RemoveAll(dir)
	h, err := os.Create(filepath.Join(dir, "in"))
	if err != nil {
		bug("%v", err)
	}
	for _, g := range f.segs {
		if _, err := h.WriteAt(g.b, int64(g.off)); err != nil {
			bug("%v", err)
		}
	}
	if err := h.Truncate(int64(f.len)); err != nil {
		bug("%v", err)
	}
	if err := h.Close(); err != nil {
		bug("%v", err)
	}
	use(dir)
}

// tool: a run of mp4tool on a file.
//
//	edit      drop: texts, time: [] or [number]
//	extract   type: bytes
//	dump      full: texts, all, offset, hex
//	psshdump
//	probe     format: json, yaml or nothing
//	divide
func opTool(c Cmd) Rec {
	f := fileOf(c, "f")
	name := strOf(c["cmd"])
	rec := Rec{}
	scratch(f, func(dir string) {
		args := []string{name}
		switch name {
		case "edit":
			args = []string{"alpha", "edit"}
			if l := texts0(c["drop"]); len(l) > 0 {
				args = append(args, "-drop", strings.Join(l, ","))
			}
			if l := c["time"].([]any); len(l) > 0 {
				t := numOf(l[0])
				l[0] = w64(t)
				args = append(args, "-base_media_decode_time", strconv.FormatUint(t, 10))
			}
			args = append(args, "in", "out")
		case "extract":
			if t := string(bytesOf(c["type"])); strings.HasPrefix(t, "-") {
				args = append(args, "--", t, "in")
			} else {
				args = append(args, t, "in")
			}
			c["type"] = B(bytesOf(c["type"]))
		case "dump":
			if l := texts0(c["full"]); len(l) > 0 {
				args = append(args, "-full", strings.Join(l, ","))
			}
			for _, o := range []string{"offset", "hex", "mdat", "free"} {
				if c[o] != nil && boolOf(c[o]) {
					args = append(args, "-"+o)
				}
			}
			if boolOf(c["all"]) {
				args = append(args, "-a")
			}
			args = append(args, "in")
		case "psshdump":
			args = append(args, "in")
		case "probe":
			if fm := strOf(c["format"]); fm != "" {
				args = append(args, "-format", fm)
			}
			args = append(args, "in")
		case "divide":
			args = []string{"alpha", "divide", "in", "out"}
		default:
			bug("no command %q", name)
		}
		st, so, se := mp4tool(dir, args)
		rec["st"], rec["msg"] = st, len(so)+len(se) > 0
		if st == "crash" {
			rec["trace"] = string(se[:min(len(se), 2000)])
		}
		switch name {
		case "edit":
			o, err := os.ReadFile(filepath.Join(dir, "out"))
			rec["ofile"], rec["wrote"] = fileForm(o), err == nil
		case "extract":
			rec["out"] = fileForm(so)
			rec["msg"] = st != "ok" && (len(se) > 0 || bytes.HasSuffix(so, []byte("\n")))
		case "dump", "psshdump":
			rec["lines"] = lines(so)
		case "probe":
			rec["info"] = report(so, strOf(c["format"]))
		case "divide":
			rec["files"] = tree(filepath.Join(dir, "out"))
			rec["lines"] = lines(so)
		}
	})
	return rec
}

// the files below dir, by name
func tree(dir string) any {
	out := []any{}
	_ = filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() {
			return nil
		}
		h, err := os.Open(p)
		if err != nil {
			bug("%v", err)
		}
		defer h.Close()
		b, err := io.ReadAll(io.LimitReader(h, outLimit))
		if err != nil {
			bug("%v", err)
		}
		rel, _ := filepath.Rel(dir, p)
		x := map[string]any{"path": rel}
		if strings.HasSuffix(rel, ".m3u8") {
			x["pl"] = playlist(b)
		} else {
			x["f"] = fileForm(b)
		}
		out = append(out, x)
		return nil
	})
	return out
}

// playlist gives the lines of an HLS playlist: names of files, and tags with
// their value (v), their number (n), their attributes, seconds (micro).
func playlist(b []byte) any {
	out := []any{}
	for _, l := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
		x := map[string]any{"k": "uri", "v": l, "n": []any{}, "micro": []any{}, "attrs": map[string]any{"_": ""},
			"bw": []any{}, "w": []any{}, "h": []any{}}
		out = append(out, x)
		if !strings.HasPrefix(l, "#") {
			continue
		}
		tag, v, _ := strings.Cut(l[1:], ":")
		x["k"], x["v"] = tag, v
		if n, err := strconv.ParseUint(v, 10, 64); err == nil {
			x["n"] = []any{w64(n)}
		}
		switch tag {
		case "EXTINF":
			secs, title, found := strings.Cut(v, ",")
			i, f, point := strings.Cut(secs, ".")
			if n, err := strconv.ParseUint(i+f, 10, 64); found && point && len(f) == 6 && err == nil {
				x["micro"] = []any{w64(n)}
			}
			x["v"] = title
		case "EXT-X-MEDIA", "EXT-X-STREAM-INF", "EXT-X-MAP":
			as := map[string]any{"_": ""}
			for rest := v; rest != ""; {
				var name, val string
				name, rest, _ = strings.Cut(rest, "=")
				if strings.HasPrefix(rest, "\"") {
					val, rest, _ = strings.Cut(rest[1:], "\"")
					rest = strings.TrimPrefix(rest, ",")
					as[name] = "q:" + val
				} else {
					val, rest, _ = strings.Cut(rest, ",")
					as[name] = val
				}
			}
			x["attrs"] = as
			num := func(s string) []any {
				if n, err := strconv.ParseUint(s, 10, 64); err == nil {
					return []any{w64(n)}
				}
				return []any{}
			}
			if s, ok := as["BANDWIDTH"].(string); ok {
				x["bw"] = num(s)
			}
			if s, ok := as["RESOLUTION"].(string); ok {
				w, h, _ := strings.Cut(s, "x")
				x["w"], x["h"] = num(w), num(h)
			}
		}
	}
	return out
}
