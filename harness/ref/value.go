// Package ref holds the reference models: PDF values, their spellings, a tolerant reader, encoders,
// document writers and the encrypting side of the standard security handler.
package ref

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"
)

// V is a PDF value: Null, Key (other keyword), Num, Str, Name, Ref, Arr or Dict.
type V interface{}

type Key string // null, true, false and any other bare keyword
type Num float64
type Str string
type Name string
type Ref struct{ N, G int }
type Arr []V
type KV struct {
	K string
	V V
}
type Dict []KV

const Null = Key("null")
const True = Key("true")
const False = Key("false")

func (d Dict) Get(k string) (V, bool) {
	for i := len(d) - 1; i >= 0; i-- {
		if d[i].K == k {
			return d[i].V, true
		}
	}
	return nil, false
}

// Show prints a value unambiguously for reports and digests.
func Show(v V) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case Key:
		return string(x)
	case Num:
		return fmt.Sprintf("%v", float64(x))
	case Str:
		return fmt.Sprintf("s%q", string(x))
	case Name:
		return fmt.Sprintf("/%q", string(x))
	case Ref:
		return fmt.Sprintf("%d %d R", x.N, x.G)
	case Arr:
		var p []string
		for _, e := range x {
			p = append(p, Show(e))
		}
		return "[" + strings.Join(p, " ") + "]"
	case Dict:
		m := map[string]V{}
		for _, e := range x {
			m[e.K] = e.V
		}
		var p []string
		for k, e := range m {
			p = append(p, fmt.Sprintf("%q:%s", k, Show(e)))
		}
		sort.Strings(p)
		return "<<" + strings.Join(p, " ") + ">>"
	}
	return fmt.Sprintf("?%T", v)
}

// From converts an object read by the implementation.
func From(o pdf.Object) V {
	switch x := o.(type) {
	case nil:
		return nil
	case pdf.Keyword:
		return Key(string(x))
	case pdf.Number:
		return Num(float64(x))
	case pdf.String:
		return Str(string(x))
	case pdf.Name:
		return Name(string(x))
	case *pdf.Reference:
		return Ref{x.Number, x.Generation}
	case pdf.Array:
		a := Arr{}
		for _, e := range x {
			a = append(a, From(e))
		}
		return a
	case pdf.Dictionary:
		d := Dict{}
		for k, e := range x {
			d = append(d, KV{k, From(e)})
		}
		return d
	}
	return fmt.Sprintf("unknown type %T", o)
}

// Equal compares values; numbers may differ by rounding.
func Equal(a, b V) bool {
	switch x := a.(type) {
	case Num:
		y, ok := b.(Num)
		return ok && SameNum(float64(x), float64(y))
	case Arr:
		y, ok := b.(Arr)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !Equal(x[i], y[i]) {
				return false
			}
		}
		return true
	case Dict:
		y, ok := b.(Dict)
		if !ok {
			return false
		}
		xm, ym := map[string]V{}, map[string]V{}
		for _, e := range x {
			xm[e.K] = e.V
		}
		for _, e := range y {
			ym[e.K] = e.V
		}
		if len(xm) != len(ym) {
			return false
		}
		for k, v := range xm {
			w, ok := ym[k]
			if !ok || !Equal(v, w) {
				return false
			}
		}
		return true
	}
	return a == b
}

// SameNum allows for rounding in the decimal conversion.
func SameNum(a, b float64) bool {
	if a == b {
		return true
	}
	return math.Abs(a-b) <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}
