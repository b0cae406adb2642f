// Package runtime stands in for the standard package under the explorer.
package runtime

import "stompmc/mc"

func Gosched() { mc.Yield() }
func Goexit()  { panic("runtime.Goexit is not supported") }
