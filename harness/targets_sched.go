//go:build sched

package main

import (
	"encoding/binary"

	"sched.local/point"
	s1 "sched.local/v1"
	s2 "sched.local/v2"
)

func init() {
	extraTargets = append(extraTargets,
		addTarget(&Target{ID: "sched.v1.Buffer", Ver: 1, New: func(s ...[]byte) any { return s1.NewBuffer(s...) }}, (*s1.Buffer)(nil)),
		addTarget(&Target{ID: "sched.v2.Buffer", Ver: 2, New: func(s ...[]byte) any { return s2.NewBuffer(s...) }}, (*s2.Buffer)(nil)))
	v1Writers = append(v1Writers, func(m any, o *Op, arg any) bool {
		switch f := m.(type) {
		case func(int64, interface{}, s1.IntegerSize, binary.ByteOrder):
			f(o.Off, arg, s1.IntegerSize(o.W), o.order())
		case func(interface{}, s1.IntegerSize, binary.ByteOrder):
			f(arg, s1.IntegerSize(o.W), o.order())
		default:
			return false
		}
		return true
	})
	v1Readers = append(v1Readers, func(m any, o *Op) (any, bool) {
		switch f := m.(type) {
		case func(int64, int64, s1.IntegerSize, binary.ByteOrder) interface{}:
			return f(o.Off, o.N, s1.IntegerSize(o.W), o.order()), true
		case func(int64, s1.IntegerSize, binary.ByteOrder) interface{}:
			return f(o.N, s1.IntegerSize(o.W), o.order()), true
		}
		return nil, false
	})
	schedRun = func(fs []func(), pick func([]int, int) int, sparse bool) schedResult {
		point.Sparse = sparse
		point.Limit = 20000
		ok := point.Run(fs, pick)
		return schedResult{ok, point.Exhausted, point.Points, point.Switches}
	}
}
