// Package runtime is the simulated replacement for the parts of the standard
// runtime package that reveal or influence scheduling.
package runtime

import "zsim/rt"

func GOMAXPROCS(n int) int { rt.Point(); return rt.MaxProcs(n) }
func NumCPU() int          { return rt.NumCPU() }
func NumGoroutine() int    { rt.Point(); return rt.Live() }
func Gosched()             { rt.Yield() }
func GC()                  { rt.Point() }
func LockOSThread()        {}
func UnlockOSThread()      {}

// SetFinalizer never runs the finalizer, which Go permits.
func SetFinalizer(obj, finalizer any) {}

// KeepAlive as in runtime.
func KeepAlive(any) {}
