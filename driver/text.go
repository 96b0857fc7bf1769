//go:build go1.22

package main

import (
	"github.com/abema/go-mp4"
)

func init() {
	ops["str"] = opStr
}

// str: the text of a value, on one line and with indentations.
// in: type ctx v inds (list of byte strings)
func opStr(c Cmd) Rec {
	typ, ctx := typeOf(c["type"]), ctxOf(c["ctx"])
	inds := c["inds"].([]any)
	delete(c, "inds")
	var texts []any
	box, err := typ.New(ctx)
	if err != nil {
		return Rec{"texts": []any{Rec{"st": errClass(err), "b": B(nil), "ind": B(nil)}}}
	}
	load(box, c["v"])
	for k, i := range inds {
		ind := bytesOf(i)
		var s string
		if len(ind) == 0 && k == 0 {
			s, err = mp4.Stringify(box, ctx)
		} else {
			s, err = mp4.StringifyWithIndent(box, string(ind), ctx)
		}
		texts = append(texts, Rec{"st": errClass(err), "b": B([]byte(s)), "ind": B(ind)})
	}
	return Rec{"texts": texts}
}
