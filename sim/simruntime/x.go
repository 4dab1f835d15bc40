// Package simruntime replaces what package runtime says about the machine and does
// behind the program's back: processors and goroutines are those of the simulated
// host, nothing is ever finalised, and giving way is up to the simulated scheduler.
package simruntime

import (
	"runtime"

	"vsim/rt"
)

func NumCPU() int {
	if h := rt.Host(1); h != 0 {
		return 1 + int(h%96)
	}
	return 8
}

// GOMAXPROCS is that of the host: changing it is remembered by no one.
func GOMAXPROCS(n int) int { return NumCPU() }

func NumGoroutine() int { return 1 + int(rt.Host(2)%5) }

func NumCgoCall() int64 { return int64(rt.Host(3) % 7) }

func Gosched() { rt.Y(1 << 30) }
func GC()      {}

func ReadMemStats(m *runtime.MemStats) {
	*m = runtime.MemStats{Alloc: 1<<20 + rt.Host(4)%(1<<30), HeapAlloc: 1<<20 + rt.Host(4)%(1<<30), NumGC: uint32(rt.Host(5) % 1000), Sys: 1 << 32}
	m.TotalAlloc, m.HeapObjects, m.HeapSys, m.HeapInuse = m.Alloc+rt.Host(6)%(1<<30), 1000+rt.Host(7)%100000, m.Sys, m.Alloc
}

// Finalisers may run late or never; here they never do.
func SetFinalizer(obj any, finalizer any) {}

func AddCleanup[T, S any](ptr *T, cleanup func(S), arg S) runtime.Cleanup { return runtime.Cleanup{} }

// VrtShim marks the simulated package.
const VrtShim = 0
