//go:build !vtsched

package props

import "unsafe"

const schedOn = false

func setLockHook(f func(p unsafe.Pointer, op int) bool) {}
func setLockYield(on bool)                              {}
