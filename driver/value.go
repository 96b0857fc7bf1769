//go:build go1.22

package main

import (
	"encoding/binary"
	"errors"
	"math"
	"reflect"
	"strconv"

	"github.com/abema/go-mp4"
)

// B is a byte string, written as a JSON array of integers.
type B []byte

func (b B) MarshalJSON() ([]byte, error) {
	out := make([]byte, 0, len(b)*4+2)
	out = append(out, '[')
	for i, x := range b {
		if i != 0 {
			out = append(out, ',')
		}
		out = strconv.AppendUint(out, uint64(x), 10)
	}
	return append(out, ']'), nil
}

// W64 of an integer
func w64(u uint64) B {
	b := make(B, 8)
	binary.BigEndian.PutUint64(b, u)
	return b
}

func unW64(v any) uint64 {
	b := bytesOf(v)
	if len(b) != 8 {
		bug("not a W64: %v", v)
	}
	return binary.BigEndian.Uint64(b)
}

// small number or W64
func numOf(v any) uint64 {
	if f, ok := v.(float64); ok {
		return uint64(f)
	}
	return unW64(v)
}

func bytesOf(v any) []byte {
	switch x := v.(type) {
	case nil:
		return nil
	case []any:
		b := make([]byte, len(x))
		for i := range x {
			b[i] = byte(x[i].(float64))
		}
		return b
	case string: // hexadecimal, to keep command files small
		b := make([]byte, len(x)/2)
		for i := range b {
			n, err := strconv.ParseUint(x[2*i:2*i+2], 16, 8)
			if err != nil {
				bug("bad hex %q", x)
			}
			b[i] = byte(n)
		}
		return b
	}
	bug("not bytes: %T", v)
	return nil
}

func intOf(v any) int {
	if v == nil {
		return 0
	}
	return int(v.(float64))
}

func boolOf(v any) bool {
	b, _ := v.(bool)
	return b
}

func strOf(v any) string {
	s, _ := v.(string)
	return s
}

func typeOf(v any) mp4.BoxType {
	b := bytesOf(v)
	if len(b) != 4 {
		bug("not a box type: %v", v)
	}
	return mp4.BoxType{b[0], b[1], b[2], b[3]}
}

func ctxOf(v any) mp4.Context {
	m, ok := v.(map[string]any)
	if !ok {
		return mp4.Context{}
	}
	return mp4.Context{
		IsQuickTimeCompatible:       boolOf(m["qt"]),
		QuickTimeKeysMetaEntryCount: intOf(m["keys"]),
		UnderWave:                   boolOf(m["wave"]),
		UnderIlst:                   boolOf(m["ilst"]),
		UnderIlstMeta:               boolOf(m["ilstmeta"]),
		UnderIlstFreeMeta:           boolOf(m["ilstfree"]),
		UnderUdta:                   boolOf(m["udta"]),
	}
}

func dumpCtx(c mp4.Context) any {
	keys := c.QuickTimeKeysMetaEntryCount
	if keys > math.MaxInt32/2 || keys < 0 {
		keys = math.MaxInt32 / 2
	}
	return map[string]any{
		"qt": c.IsQuickTimeCompatible, "keys": keys,
		"wave": c.UnderWave, "ilst": c.UnderIlst, "ilstmeta": c.UnderIlstMeta,
		"ilstfree": c.UnderIlstFreeMeta, "udta": c.UnderUdta,
	}
}

// dump renders the mp4-tagged fields of a box (see spec/Codec.tla, "Values").
func dump(box any) any {
	return dumpValue(reflect.ValueOf(box).Elem())
}

func dumpValue(v reflect.Value) any {
	switch v.Kind() {
	case reflect.Struct:
		m := map[string]any{}
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			if _, ok := t.Field(i).Tag.Lookup("mp4"); !ok {
				continue
			}
			m[t.Field(i).Name] = dumpValue(v.Field(i))
		}
		if len(m) == 0 {
			return []any{}
		}
		return m
	case reflect.Ptr:
		if v.IsNil() {
			return []any{}
		}
		return []any{dumpValue(v.Elem())}
	case reflect.Array, reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make(B, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			return b
		}
		l := make([]any, v.Len())
		for i := range l {
			l[i] = dumpValue(v.Index(i))
		}
		return l
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return w64(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return w64(v.Uint())
	case reflect.Bool:
		return v.Bool()
	case reflect.String:
		return B(v.String())
	}
	bug("dump: %v", v.Kind())
	return nil
}

// load is the inverse of dump.
func load(box any, val any) { loadValue(reflect.ValueOf(box).Elem(), val) }

func loadValue(v reflect.Value, val any) {
	switch v.Kind() {
	case reflect.Struct:
		m, ok := val.(map[string]any)
		if !ok {
			if l, ok := val.([]any); ok && len(l) == 0 {
				return
			}
			bug("load: struct %v from %T", v.Type(), val)
		}
		for k, x := range m {
			f := v.FieldByName(k)
			if !f.IsValid() {
				bug("load: %v has no field %s", v.Type(), k)
			}
			loadValue(f, x)
		}
	case reflect.Ptr:
		l := val.([]any)
		if len(l) == 0 {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		loadValue(v.Elem(), l[0])
	case reflect.Array:
		l := val.([]any)
		if len(l) != v.Len() {
			bug("load: array length %d vs %d", len(l), v.Len())
		}
		for i := range l {
			loadElem(v.Index(i), l[i])
		}
	case reflect.Slice:
		l := val.([]any)
		s := reflect.MakeSlice(v.Type(), len(l), len(l))
		for i := range l {
			loadElem(s.Index(i), l[i])
		}
		v.Set(s)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(unW64(val)))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(unW64(val))
	case reflect.Bool:
		v.SetBool(boolOf(val))
	case reflect.String:
		v.SetString(string(bytesOf(val)))
	default:
		bug("load: %v", v.Kind())
	}
}

func loadElem(v reflect.Value, val any) {
	if f, ok := val.(float64); ok && v.Kind() == reflect.Uint8 {
		v.SetUint(uint64(f))
		return
	}
	loadValue(v, val)
}

// errClass is the part of an error the properties speak about.
func errClass(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, mp4.ErrUnsupportedBoxVersion):
		return "unsup"
	case errors.Is(err, mp4.ErrBoxInfoNotFound):
		return "notfound"
	}
	return "err"
}
