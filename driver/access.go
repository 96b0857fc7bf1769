//go:build go1.22

package main

import (
	"math"
	"reflect"
	"strings"

	"github.com/abema/go-mp4"
)

func init() {
	ops["flags"] = opFlags
	ops["brands"] = opBrands
	ops["gets"] = opGets
	ops["boxtype"] = opBoxType
	ops["brandnames"] = opBrandNames
}

func maskOf(v any) uint32 {
	b := bytesOf(v)
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

// flags: a history of version and flag operations on a box.
func opFlags(c Cmd) Rec {
	box, err := typeOf(c["type"]).New(ctxOf(c["ctx"]))
	if err != nil {
		bug("New: %v", err)
	}
	load(box, c["v"])
	log := []any{}
	for _, x := range c["ops"].([]any) {
		e := x.(map[string]any)
		m := maskOf(e["x"])
		var a any = w64(0)
		switch strOf(e["op"]) {
		case "setv":
			box.SetVersion(uint8(m))
		case "getv":
			a = w64(uint64(box.GetVersion()))
		case "set":
			box.SetFlags(m)
		case "get":
			a = w64(uint64(box.GetFlags()))
		case "add":
			box.AddFlag(m)
		case "remove":
			box.RemoveFlag(m)
		case "check":
			a = box.CheckFlag(m)
		default:
			bug("flags: %v", e["op"])
		}
		log = append(log, map[string]any{"op": e["op"], "x": e["x"], "a": a,
			"ver": w64(uint64(box.GetVersion())), "flags": w64(uint64(box.GetFlags()))})
	}
	delete(c, "ops")
	return Rec{"st": "ok", "log": log, "after": dump(box)}
}

// brands: a history of brand operations on a file type box.
func opBrands(c Cmd) Rec {
	box := &mp4.Ftyp{}
	load(box, c["v"])
	log := []any{}
	for _, x := range c["ops"].([]any) {
		e := x.(map[string]any)
		b := [4]byte(typeOf(e["x"]))
		a := false
		switch strOf(e["op"]) {
		case "badd":
			box.AddCompatibleBrand(b)
		case "bremove":
			box.RemoveCompatibleBrand(b)
		case "bhas":
			a = box.HasCompatibleBrand(b)
		default:
			bug("brands: %v", e["op"])
		}
		bs := []any{}
		for _, y := range box.CompatibleBrands {
			bs = append(bs, B(y.CompatibleBrand[:]))
		}
		log = append(log, map[string]any{"op": e["op"], "x": e["x"], "a": a, "bs": bs})
	}
	delete(c, "ops")
	return Rec{"st": "ok", "log": log, "after": dump(box)}
}

var notGetters = map[string]bool{"GetType": true, "GetVersion": true, "GetFlags": true,
	"GetFieldSize": true, "GetFieldLength": true}

// gets: every getter of a box value, at every index.
func opGets(c Cmd) Rec {
	box, err := typeOf(c["type"]).New(mp4.Context{})
	if err != nil {
		bug("New: %v", err)
	}
	load(box, c["v"])
	gets := []any{}
	v := reflect.ValueOf(box)
	for k := 0; k < v.NumMethod(); k++ {
		name := v.Type().Method(k).Name
		f := v.Method(k)
		if !strings.HasPrefix(name, "Get") || notGetters[name] || f.Type().NumOut() != 1 || f.Type().NumIn() > 1 {
			continue
		}
		if f.Type().NumIn() == 0 {
			gets = append(gets, get(name, f, 0))
			continue
		}
		if f.Type().In(0).Kind() != reflect.Int {
			continue
		}
		for i := 0; i < intOf(c["n"]); i++ {
			gets = append(gets, get(name, f, i+1))
		}
	}
	return Rec{"st": "ok", "gets": gets, "after": dump(box)}
}

func get(name string, f reflect.Value, i int) (rec map[string]any) {
	rec = map[string]any{"m": name, "i": i, "st": "ok", "v": w64(0)}
	defer func() {
		if recover() != nil {
			rec["st"] = "panic"
		}
	}()
	var in []reflect.Value
	if i > 0 {
		in = append(in, reflect.ValueOf(i-1))
	}
	out := f.Call(in)[0]
	switch out.Kind() {
	case reflect.Float32, reflect.Float64:
		x := out.Float() * (1 << 20)
		if x != math.Trunc(x) || math.Abs(x) > 1<<52 {
			rec["st"] = "inexact"
			break
		}
		rec["v"] = w64(uint64(int64(x)))
	case reflect.Slice:
		l := []any{}
		for k := 0; k < out.Len(); k++ {
			l = append(l, B(out.Index(k).String()))
		}
		rec["v"] = l
	default:
		rec["v"] = dumpValue(out)
	}
	return rec
}

// boxtype: a box type as text and from a number or a text.
func opBoxType(c Cmd) Rec {
	a, b := typeOf(c["a"]), typeOf(c["b"])
	n := mp4.Uint32ToBoxType(maskOf(c["a"]))
	s := mp4.StrToBoxType(string(bytesOf(c["a"])))
	short := false
	func() {
		defer func() { short = recover() != nil }()
		mp4.StrToBoxType(string(bytesOf(c["s"])))
	}()
	return Rec{"st": "ok", "text": B(a.String()), "matches": a.MatchWith(b), "short": short,
		"fromnum": B(n[:]), "fromstr": B(s[:])}
}

// brandnames: the names of well known brands.
func opBrandNames(c Cmd) Rec {
	names := map[string]any{}
	for n, f := range map[string]func() [4]byte{
		"QT": mp4.BrandQT, "ISOM": mp4.BrandISOM, "ISO2": mp4.BrandISO2, "ISO3": mp4.BrandISO3,
		"ISO4": mp4.BrandISO4, "ISO5": mp4.BrandISO5, "ISO6": mp4.BrandISO6, "ISO7": mp4.BrandISO7,
		"ISO8": mp4.BrandISO8, "ISO9": mp4.BrandISO9, "AVC1": mp4.BrandAVC1, "MP41": mp4.BrandMP41,
		"MP71": mp4.BrandMP71} {
		b := f()
		names[n] = B(b[:])
	}
	t := mp4.BoxTypeAny()
	// an untyped constant fits in an int, whatever type it has or gets
	consts := map[string]int{
		"UrlSelfContained": mp4.UrlSelfContained, "UrnSelfContained": mp4.UrnSelfContained,
		"AVCBaselineProfile": int(mp4.AVCBaselineProfile), "AVCMainProfile": int(mp4.AVCMainProfile),
		"AVCExtendedProfile": int(mp4.AVCExtendedProfile), "AVCHighProfile": int(mp4.AVCHighProfile),
		"AVCHigh10Profile": int(mp4.AVCHigh10Profile), "AVCHigh422Profile": int(mp4.AVCHigh422Profile),
		"TfhdBaseDataOffsetPresent": mp4.TfhdBaseDataOffsetPresent, "TfhdSampleDescriptionIndexPresent": mp4.TfhdSampleDescriptionIndexPresent,
		"TfhdDefaultSampleDurationPresent": mp4.TfhdDefaultSampleDurationPresent, "TfhdDefaultSampleSizePresent": mp4.TfhdDefaultSampleSizePresent,
		"TfhdDefaultSampleFlagsPresent": mp4.TfhdDefaultSampleFlagsPresent, "TfhdDurationIsEmpty": mp4.TfhdDurationIsEmpty,
		"TfhdDefaultBaseIsMoof": mp4.TfhdDefaultBaseIsMoof,
		"ESDescrTag": mp4.ESDescrTag, "DecoderConfigDescrTag": mp4.DecoderConfigDescrTag,
		"DecSpecificInfoTag": mp4.DecSpecificInfoTag, "SLConfigDescrTag": mp4.SLConfigDescrTag,
		"DataTypeBinary": mp4.DataTypeBinary, "DataTypeStringUTF8": mp4.DataTypeStringUTF8, "DataTypeStringUTF16": mp4.DataTypeStringUTF16,
		"DataTypeSignedIntBigEndian": mp4.DataTypeSignedIntBigEndian, "DataTypeFloat32BigEndian": mp4.DataTypeFloat32BigEndian,
		"DataTypeFloat64BigEndian": mp4.DataTypeFloat64BigEndian,
	}
	return Rec{"st": "ok", "names": names, "anytype": B(t[:]), "consts": consts}
}
