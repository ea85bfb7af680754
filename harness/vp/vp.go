// Package vp is the interface between the harnesses and the checker. Under the
// symbolic executor the functions of this file are replaced by symbolic inputs,
// assumptions and assertions; natively they read a recorded input vector, so that
// a counterexample or a path model can be replayed against the compiled code.
package vp

import (
	"fmt"
	"io"
	"os"
)

// Input is one recorded input.
type Input struct {
	Kind string     `json:"k"`
	Val  uint64     `json:"v"`
	Tab  [][2]int64 `json:"t,omitempty"`
}

// Replay state.
var (
	Inputs   []Input
	Thorough bool
	next     int
	Obs      []string
	Failed   []string
	Covered  []string
)

// Stop is panicked with when a replay leaves the recorded path.
type Stop struct{ Why string }

func Reset(in []Input) { Inputs, next, Obs, Failed, Covered = in, 0, nil, nil, nil }

func take(kind string) Input {
	if next >= len(Inputs) {
		panic(Stop{"input vector exhausted"})
	}
	in := Inputs[next]
	next++
	if in.Kind != kind {
		panic(Stop{"input kind mismatch: have " + in.Kind + ", want " + kind})
	}
	return in
}

// Byte is an arbitrary byte.
func Byte() byte { return byte(take("byte").Val) }

// Bool is an arbitrary truth value.
func Bool() bool { return take("bool").Val == 1 }

// Int is an arbitrary int.
func Int() int { return int(take("int").Val) }

// Uint64 is an arbitrary uint64.
func Uint64() uint64 { return take("int").Val }

// Rune is an arbitrary int32.
func Rune() rune { return rune(int32(uint32(take("rune").Val))) }

// Choose is an arbitrary number in [0,n).
func Choose(n int) int { return int(take("choose").Val) }

// Str is an arbitrary string of n bytes.
func Str(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte()
	}
	return string(b)
}

// RunePred is an arbitrary predicate over runes.
func RunePred() func(rune) bool {
	in := take("pred")
	m := map[rune]bool{}
	for _, p := range in.Tab {
		m[rune(p[0])] = p[1] == 1
	}
	return func(r rune) bool { return m[r] }
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(Stop{"assumption violated"})
	}
}

// Capture is what f prints to the standard output.
func Capture(f func()) string {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = w
	c := make(chan string)
	go func() {
		b, _ := io.ReadAll(r)
		c <- string(b)
	}()
	func() {
		defer func() {
			os.Stdout = old
			w.Close()
		}()
		f()
	}()
	return <-c
}

// Assert states the property.
func Assert(c bool, label string) {
	if !c {
		Failed = append(Failed, label)
	}
}

// Cover marks a point that must be reachable.
func Cover(label string) { Covered = append(Covered, label) }

func ObserveInt(tag string, v int)    { Obs = append(Obs, fmt.Sprintf("%s=%d", tag, v)) }
func ObserveBool(tag string, v bool)  { Obs = append(Obs, fmt.Sprintf("%s=%v", tag, v)) }
func ObserveStr(tag string, v string) { Obs = append(Obs, fmt.Sprintf("%s=%q", tag, v)) }

// Bound selects a bound by tier.
func Bound(quick, thorough int) int {
	if Thorough {
		return thorough
	}
	return quick
}
