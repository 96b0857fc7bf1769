//go:build go1.22

package main

import (
	"bytes"
	"errors"

	"github.com/abema/go-mp4/internal/bitio"
)

func init() { ops["bits"] = opBits }

// bits: calls of a bit reader (side r) or a bit writer (side w).
// Stops after a read that fails for another reason than alignment.
func opBits(c Cmd) Rec {
	log := []any{}
	if strOf(c["side"]) == "w" {
		var buf bytes.Buffer
		w := bitio.NewWriter(&buf)
		for _, x := range c["ops"].([]any) {
			e := x.(map[string]any)
			b := bytesOf(e["b"])
			var err error
			switch strOf(e["e"]) {
			case "wbits":
				err = w.WriteBits(b, uint(intOf(e["n"])))
			case "wbit":
				err = w.WriteBit(b[0] != 0)
			case "wbytes":
				var n int
				n, err = w.Write(b)
				if err == nil && n != len(b) {
					bug("short write")
				}
			}
			log = append(log, map[string]any{"e": e["e"], "n": e["n"], "b": B(b), "st": errClass(err)})
		}
		delete(c, "ops")
		return Rec{"st": "ok", "log": log, "out": B(buf.Bytes())}
	}
	data := bytesOf(c["data"])
	c["data"] = B(data)
	r := bitio.NewReadSeeker(readerFor(strOf(c["reader"]), bytes.NewReader(data)))
loop:
	for _, x := range c["ops"].([]any) {
		e := x.(map[string]any)
		var err error
		l := map[string]any{"e": e["e"], "n": e["n"], "b": B(nil), "at": 0}
		switch strOf(e["e"]) {
		case "rbits":
			var b []byte
			b, err = r.ReadBits(uint(intOf(e["n"])))
			if err == nil {
				l["b"] = B(b)
			}
		case "rbit":
			var b bool
			b, err = r.ReadBit()
			if b {
				l["b"] = B([]byte{1})
			} else if err == nil {
				l["b"] = B([]byte{0})
			}
		case "rbytes":
			p := make([]byte, intOf(e["n"]))
			var n int
			n, err = r.Read(p)
			if n > 0 { // data before an error that comes with it
				l["b"] = B(p[:n])
				err = nil
			}
		case "seek":
			var n int64
			n, err = r.Seek(int64(intOf(e["off"])), intOf(e["whence"]))
			l["off"], l["whence"], l["at"] = e["off"], e["whence"], clampInt(uint64(n))
		}
		l["st"] = errClass(err)
		if err != nil {
			l["at"], l["b"] = 0, B(nil)
			l["st"] = "err"
		}
		log = append(log, l)
		if err != nil && !errors.Is(err, bitio.ErrInvalidAlignment) && strOf(e["e"]) != "seek" {
			break loop
		}
	}
	delete(c, "ops")
	return Rec{"st": "ok", "log": log, "out": B(nil)}
}
