package main

import (
	"encoding/binary"

	v1 "github.com/superwhiskers/crunch/v1"
)

// further packages with the first version's interface
var v1Writers []func(m any, o *Op, arg any) bool
var v1Readers []func(m any, o *Op) (any, bool)

func callV1Write(m any, o *Op, arg any) {
	for _, f := range v1Writers {
		if f(m, o, arg) {
			return
		}
	}
	switch f := m.(type) {
	case func(int64, interface{}, v1.IntegerSize, binary.ByteOrder):
		f(o.Off, arg, v1.IntegerSize(o.W), o.order())
	case func(interface{}, v1.IntegerSize, binary.ByteOrder):
		f(arg, v1.IntegerSize(o.W), o.order())
	}
}

func callV1Read(m any, o *Op, out any) any {
	for _, f := range v1Readers {
		if x, ok := f(m, o); ok {
			return x
		}
	}
	switch f := m.(type) {
	case func(int64, int64, v1.IntegerSize, binary.ByteOrder) interface{}:
		out = f(o.Off, o.N, v1.IntegerSize(o.W), o.order())
	case func(int64, v1.IntegerSize, binary.ByteOrder) interface{}:
		out = f(o.N, v1.IntegerSize(o.W), o.order())
	case func(*interface{}, int64, int64, v1.IntegerSize, binary.ByteOrder):
		f(&out, o.Off, o.N, v1.IntegerSize(o.W), o.order())
	case func(*interface{}, int64, v1.IntegerSize, binary.ByteOrder):
		f(&out, o.N, v1.IntegerSize(o.W), o.order())
	}
	return out
}
