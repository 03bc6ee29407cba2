package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
)

var goTypeOf = map[string]reflect.Type{
	"int8": reflect.TypeOf(int8(0)), "uint8": reflect.TypeOf(uint8(0)), "int16": reflect.TypeOf(int16(0)),
	"uint16": reflect.TypeOf(uint16(0)), "int32": reflect.TypeOf(int32(0)), "uint32": reflect.TypeOf(uint32(0)),
	"int64": reflect.TypeOf(int64(0)), "uint64": reflect.TypeOf(uint64(0)), "float32": reflect.TypeOf(float32(0)),
	"float64": reflect.TypeOf(float64(0)), "string": reflect.TypeOf(""),
}

// buildNC: the Go value for raw big-endian elements of a classic type with the given shape.
func buildNC(typ int, shape []int64, raw []byte) any {
	if typ == ncChar {
		if len(shape) == 0 {
			return string(raw[:1])
		}
		n := int(shape[len(shape)-1])
		return build(reflect.TypeOf(""), shape[:len(shape)-1], func(i int) any { return string(raw[i*n : (i+1)*n]) })
	}
	sz := ncSize[typ]
	return build(goTypeOf[ncGo[typ]], shape, func(i int) any { return goScalar(typ, raw[i*sz:]) })
}

// build makes nested slices of the given shape; elem(i) is the i-th element in row-major order.
func build(t reflect.Type, shape []int64, elem func(int) any) any {
	i := 0
	var rec func(k int) reflect.Value
	typeAt := func(k int) reflect.Type {
		tt := t
		for j := len(shape); j > k; j-- {
			tt = reflect.SliceOf(tt)
		}
		return tt
	}
	rec = func(k int) reflect.Value {
		if k == len(shape) {
			v := reflect.ValueOf(elem(i))
			i++
			return v
		}
		n := int(shape[k])
		s := reflect.MakeSlice(typeAt(k), n, n)
		for j := 0; j < n; j++ {
			s.Index(j).Set(rec(k + 1))
		}
		return s
	}
	return rec(0).Interface()
}

// sub returns the raw bytes of the block [begin,end) of an array of the given shape.
func subRaw(raw []byte, sz int, shape, begin, end []int64) []byte {
	var out []byte
	var rec func(k int, base int64)
	rec = func(k int, base int64) {
		if k == len(shape) {
			out = append(out, raw[base*int64(sz):(base+1)*int64(sz)]...)
			return
		}
		for i := begin[k]; i < end[k]; i++ {
			rec(k+1, base*shape[k]+i)
		}
	}
	rec(0, 0)
	return out
}

// same compares values exactly: types, lengths and bit patterns. Nil and empty slices are equal.
func same(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Type() != vb.Type() {
		return false
	}
	return sameV(va, vb)
}
func sameV(a, b reflect.Value) bool {
	if a.Kind() != b.Kind() {
		return false
	}
	switch a.Kind() {
	case reflect.Float32:
		return math.Float32bits(float32(a.Float())) == math.Float32bits(float32(b.Float())) ||
			math.IsNaN(a.Float()) && math.IsNaN(b.Float())
	case reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !sameV(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem().Interface(), b.Elem().Interface())
	case reflect.Struct:
		if a.NumField() != b.NumField() {
			return false
		}
		for i := 0; i < a.NumField(); i++ {
			if !sameV(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() == b.Uint()
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func show(v any) string {
	s := fmt.Sprintf("%T %#v", v, v)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

// valueType: the Go type of a variable value with ndims dimensions of the given GoType
func valueType(goType string, ndims int) string {
	if goType == "string" && ndims > 0 {
		ndims--
	}
	return strings.Repeat("[]", ndims) + goType
}

func randBytes(rng *rand.Rand, n int64) []byte {
	b := make([]byte, n)
	rng.Read(b)
	return b
}

// shapeOf: the lengths of nested slices (first element at each level)
func shapeOf(v any) []int64 {
	rv := reflect.ValueOf(v)
	s := []int64{}
	for rv.Kind() == reflect.Slice {
		s = append(s, int64(rv.Len()))
		if rv.Len() == 0 {
			break
		}
		rv = rv.Index(0)
	}
	return s
}
