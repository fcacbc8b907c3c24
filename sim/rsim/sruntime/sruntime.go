// Package runtime replaces the standard package in the instrumented library.
package runtime

import (
	"runtime"
	"verif/rsim"
)

const (
	GOOS   = runtime.GOOS
	GOARCH = runtime.GOARCH
)

type MemStats = runtime.MemStats
type Error = runtime.Error
type Frame = runtime.Frame
type Frames = runtime.Frames
type Func = runtime.Func

// SetFinalizer registers the finalizer with the simulator, which decides when
// it runs.
func SetFinalizer(obj, fin interface{}) { rsim.H(); rsim.SetFinalizer(obj, fin) }

// Cleanup is the result of AddCleanup.
type Cleanup struct{ stop func() }

func (c Cleanup) Stop() {
	if c.stop != nil {
		c.stop()
	}
}

// AddCleanup is simulated like a finalizer.
func AddCleanup[T, S any](ptr *T, cleanup func(S), arg S) Cleanup {
	rsim.H()
	stopped := false
	rsim.SetFinalizer(ptr, func(*T) {
		if !stopped {
			cleanup(arg)
		}
	})
	return Cleanup{func() { stopped = true }}
}

// KeepAlive keeps x reachable up to this call, as the original.
//
//go:noinline
func KeepAlive(x interface{}) { runtime.KeepAlive(x) }

// GC is only a hint for the simulator: finalizers run when it decides.
func GC() { rsim.GCRequests++; rsim.H(); rsim.OnGC() }

func Gosched()                                     { rsim.H() }
func GOMAXPROCS(n int) int                         { return 1 }
func NumCPU() int                                  { return 1 }
func NumGoroutine() int                            { return 1 }
func ReadMemStats(m *MemStats)                     { *m = MemStats{} }
func Stack(buf []byte, all bool) int               { return runtime.Stack(buf, all) }
func Caller(skip int) (uintptr, string, int, bool) { return runtime.Caller(skip + 1) }
func Callers(skip int, pc []uintptr) int           { return runtime.Callers(skip+1, pc) }
func CallersFrames(c []uintptr) *Frames            { return runtime.CallersFrames(c) }
func FuncForPC(pc uintptr) *Func                   { return runtime.FuncForPC(pc) }
func Goexit()                                      { runtime.Goexit() }
func Version() string                              { return runtime.Version() }
