//go:build vtsched

package props

import (
	"sync"
	"unsafe"
)

// The harness is built with an overlay of sync.RWMutex that offers these hooks.
const schedOn = true

func setLockHook(f func(p unsafe.Pointer, op int) bool) { sync.VtHook = f }
func setLockYield(on bool)                              { sync.VtRandom = on }
