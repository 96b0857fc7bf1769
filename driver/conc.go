//go:build go1.22

package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"io"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/abema/go-mp4"
)

func init() {
	ops["conc"] = opConc
	ops["hold"] = opHold
}

// gate makes a process wait for its turn before every call of its reader or writer.
type gate struct {
	turn chan bool // false: go on alone
	back chan bool // the process has come to a gate (true) or to its end
	free bool
}

var (
	gates  sync.Map
	gateNo atomic.Int64
)

func (g *gate) wait() {
	if g.free {
		return
	}
	g.back <- true
	g.free = !<-g.turn
}

type gated struct {
	g *gate
	r io.ReadSeeker
}

func (g *gated) Read(p []byte) (int, error) {
	g.g.wait()
	return g.r.Read(p)
}

func (g *gated) Seek(o int64, w int) (int64, error) {
	g.g.wait()
	return g.r.Seek(o, w)
}

type gatedWriter struct {
	g *gate
	w io.Writer
}

func (g *gatedWriter) Write(p []byte) (int, error) {
	g.g.wait()
	return g.w.Write(p)
}

// gateOf finds the gate named in a reader kind "gateN/kind".
func gateOf(kind string) (*gate, string) {
	name, rest, ok := strings.Cut(kind, "/")
	if !ok || !strings.HasPrefix(name, "gate") {
		return nil, kind
	}
	g, ok := gates.Load(name)
	if !ok {
		bug("no gate %q", name)
	}
	return g.(*gate), rest
}

func writerFor(kind string, w io.Writer) io.Writer {
	if g, _ := gateOf(kind); g != nil {
		return &gatedWriter{g, w}
	}
	return w
}

type gatedOut struct {
	gatedWriter
	s io.Seeker
}

func (g *gatedOut) Seek(o int64, w int) (int64, error) {
	g.g.wait()
	return g.s.Seek(o, w)
}

func outFor(kind string, w io.WriteSeeker) io.WriteSeeker {
	if g, _ := gateOf(kind); g != nil {
		return &gatedOut{gatedWriter{g, w}, w}
	}
	return w
}

// runSub runs a command and gives the digest of what it records.
func runSub(c Cmd) (string, Rec) {
	kind := c["reader"]
	rec := runOne(c)
	m := Rec{}
	for k, v := range c {
		m[k] = v
	}
	for k, v := range rec {
		m[k] = v
	}
	delete(m, "reader")
	b, err := json.Marshal(m)
	if err != nil {
		bug("digest: %v", err)
	}
	h := sha256.Sum256(b)
	if _, rest := gateOf(strOfAny(kind)); kind != nil {
		m["reader"] = rest
	}
	return hex.EncodeToString(h[:8]), m
}

func strOfAny(v any) string {
	s, _ := v.(string)
	return s
}

// conc: several commands at the same time, then each of them alone.
// subs; sched: in which order they take the calls of their readers and writers (from 1; burst calls
// at a time), or empty: as it comes; loops: how often each is repeated
func opConc(c Cmd) Rec {
	subs := c["subs"].([]any)
	sched, _ := c["sched"].([]any)
	burst, loops := max(1, intOf(c["burst"])), max(1, intOf(c["loops"]))
	n := len(subs)
	got := make([][]string, n)
	outs := make([]Rec, n)
	var gs []*gate
	var wg sync.WaitGroup
	start := make(chan struct{})
	for p := range subs {
		cmds := make([]Cmd, loops)
		for k := range cmds {
			cmds[k] = copyCmd(subs[p].(map[string]any))
		}
		var g *gate
		if len(sched) > 0 {
			g = &gate{turn: make(chan bool), back: make(chan bool)}
			name := "gate" + strconv.FormatInt(gateNo.Add(1), 10)
			gates.Store(name, g)
			defer gates.Delete(name)
			for _, x := range cmds {
				x["reader"] = name + "/" + strOf(x["reader"])
			}
			gs = append(gs, g)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			if g != nil {
				g.free = !<-g.turn
			} else {
				<-start
			}
			for _, x := range cmds {
				d, rec := runSub(x)
				got[p] = append(got[p], d)
				outs[p] = rec
			}
			if g != nil && !g.free {
				g.back <- false
			}
		}()
	}
	if len(sched) > 0 {
		done := make([]bool, n)
		left := n
		turn := func(p int) {
			if done[p] {
				return
			}
			gs[p].turn <- true
			if !<-gs[p].back {
				done[p] = true
				left--
			}
		}
		for _, x := range sched {
			for k := 0; k < burst; k++ {
				turn(int(x.(float64)) - 1)
			}
		}
		for k := 0; left > 0 && k < 2000; k++ {
			for p := 0; p < n; p++ {
				turn(p)
			}
		}
		for p := 0; p < n; p++ {
			if !done[p] {
				gs[p].turn <- false
			}
		}
	}
	close(start)
	wg.Wait()
	alone := []any{}
	gotAny := []any{}
	for p := range subs {
		d, _ := runSub(copyCmd(subs[p].(map[string]any)))
		alone = append(alone, d)
		gotAny = append(gotAny, got[p])
	}
	keep := []any{}
	if boolOf(c["full"]) {
		for _, o := range outs {
			keep = append(keep, o)
		}
	}
	delete(c, "subs")
	return Rec{"st": "ok", "alone": alone, "got": gotAny, "outs": keep, "before": []any{}, "later": []any{}}
}

// hold: several payloads are decoded one after the other (or a file is read);
// the values of the first are still the same after the last.
func opHold(c Cmd) Rec {
	type held struct {
		box mp4.IBox
		bi  *mp4.BoxInfo
	}
	var hs []held
	before := []any{}
	digest := func(h held) string {
		var v any = dump(h.box)
		if h.bi != nil {
			v = []any{v, dumpBI(h.bi), dumpCtx(h.bi.Context)}
		}
		b, _ := json.Marshal(v)
		x := sha256.Sum256(b)
		return hex.EncodeToString(x[:8])
	}
	keep := func(box mp4.IBox, bi *mp4.BoxInfo) {
		hs = append(hs, held{box, bi})
		before = append(before, digest(hs[len(hs)-1]))
	}
	for _, x := range c["subs"].([]any) {
		s := x.(map[string]any)
		if _, ok := s["f"]; ok {
			f := fileOf(s, "f")
			bs, err := mp4.ExtractBoxWithPayload(f.reader(""), nil, mp4.BoxPath{mp4.BoxTypeAny(), mp4.BoxTypeAny()})
			if err != nil {
				continue
			}
			for _, b := range bs {
				keep(b.Payload, &b.Info)
			}
			continue
		}
		p := bytesOf(s["p"])
		box, _, err := mp4.UnmarshalAny(bytes.NewReader(p), typeOf(s["type"]), uint64(len(p)), ctxOf(s["ctx"]))
		if err == nil {
			// what the caller does with the bytes afterwards is its own business
			for i := range p {
				p[i] ^= 0xff
			}
			keep(box, nil)
			_, _ = mp4.Marshal(io.Discard, box, ctxOf(s["ctx"]))
			_, _ = mp4.Stringify(box, ctxOf(s["ctx"]))
		}
	}
	later := []any{}
	for _, h := range hs {
		later = append(later, digest(h))
	}
	delete(c, "subs")
	return Rec{"st": "ok", "alone": []any{}, "got": []any{}, "outs": []any{}, "before": before, "later": later}
}
