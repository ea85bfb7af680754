// Command replay runs harnesses natively on recorded inputs.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"time"

	"github.com/aiq/tok/zzverif/vp"
)

type caseT struct {
	Harness  string     `json:"harness"`
	Thorough bool       `json:"thorough"`
	Inputs   []vp.Input `json:"inputs"`
}

type resT struct {
	Failed []string `json:"failed"`
	Obs    []string `json:"obs"`
	Panic  string   `json:"panic,omitempty"`
	Stop   string   `json:"stop,omitempty"`
}

func runOne(c caseT) (res resT) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(vp.Stop); ok {
				res.Stop = s.Why
			} else {
				res.Panic = fmt.Sprint(r)
			}
		}
		res.Failed = vp.Failed
		res.Obs = vp.Obs
	}()
	f, ok := registry[c.Harness]
	if !ok {
		res.Stop = "no such harness"
		return
	}
	vp.Thorough = c.Thorough
	vp.Reset(c.Inputs)
	f()
	return
}

func main() {
	debug.SetMaxStack(256 << 20)
	go func() {
		var m runtime.MemStats
		for {
			time.Sleep(50 * time.Millisecond)
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 3<<30 {
				fmt.Println("MEMORY-LIMIT")
				os.Exit(3)
			}
		}
	}()
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Println(err)
		os.Exit(4)
	}
	var cs []caseT
	if err := json.Unmarshal(b, &cs); err != nil {
		fmt.Println(err)
		os.Exit(4)
	}
	for i, c := range cs {
		r := runOne(c)
		o, _ := json.Marshal(r)
		fmt.Printf("RESULT %d %s\n", i, o)
	}
}
