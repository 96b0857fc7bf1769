//go:build go1.22

// Command verifdriver replays commands (one JSON object per line) into the
// go-mp4 library and records what it does (one JSON object per line).  It is
// laid over /repo with "go build -overlay"; nothing of it lives in /repo.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sync"
	"time"
)

// Cmd is a command; Rec a recorded observation.
type Cmd = map[string]any
type Rec = map[string]any

var ops = map[string]func(c Cmd) Rec{}

func runOne(c Cmd) (rec Rec) {
	op, _ := c["op"].(string)
	f := ops[op]
	if f == nil {
		fatal("unknown op %q", op)
	}
	defer func() {
		if p := recover(); p != nil {
			if d, ok := p.(driverBug); ok {
				fatal("driver: %s\n%s", string(d), debug.Stack())
			}
			rec = Rec{"st": "panic", "msg": fmt.Sprint(p)}
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "panic in %v: %v\n%s\n", c, p, debug.Stack())
			}
		}
	}()
	return f(c)
}

type driverBug string

func bug(format string, a ...any) { panic(driverBug(fmt.Sprintf(format, a...))) }

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(3)
}

// A command that does not come back within this time is recorded as a hang.
var hangLimit = 20 * time.Second

func main() {
	if len(os.Args) < 3 {
		fatal("usage: verifdriver COMMANDS RECORDS")
	}
	in, err := os.Open(os.Args[1])
	if err != nil {
		fatal("%v", err)
	}
	out, err := os.Create(os.Args[2])
	if err != nil {
		fatal("%v", err)
	}
	w := bufio.NewWriterSize(out, 1<<20)
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)

	sc := bufio.NewReaderSize(in, 1<<20)
	dec := json.NewDecoder(sc)

	type job struct {
		c   Cmd
		rec Rec
	}
	var jobs []*job
	for dec.More() {
		var c Cmd
		if err := dec.Decode(&c); err != nil {
			fatal("bad command: %v", err)
		}
		jobs = append(jobs, &job{c: c})
	}
	workers := 4
	if os.Getenv("VERIF_WORKERS") == "1" {
		workers = 1
	}
	var wg sync.WaitGroup
	ch := make(chan *job)
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				done := make(chan Rec, 1)
				go func() { done <- runOne(j.c) }()
				select {
				case r := <-done:
					j.rec = r
				case <-time.After(hangLimit):
					j.rec = Rec{"st": "hang"}
				}
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
	for _, j := range jobs {
		// the record contains the command's fields (those it needs for judging)
		m := Rec{}
		for k, v := range j.c {
			m[k] = v
		}
		for k, v := range j.rec {
			m[k] = v
		}
		if err := enc.Encode(m); err != nil {
			fatal("encode: %v", err)
		}
	}
	if err := w.Flush(); err != nil {
		fatal("%v", err)
	}
	if err := out.Close(); err != nil {
		fatal("%v", err)
	}
}
