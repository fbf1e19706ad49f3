#!/bin/bash
# overlay.sh DIR: writes DIR/overlay.json, a build overlay that gives sync.RWMutex and
# sync.Mutex hooks.
lib=$(go env GOROOT)/src/sync
hook() { echo "s/^func ($1 \*$2) $3() {\$/&\n\tif vtEnter(unsafe.Pointer($1), $4) {\n\t\treturn\n\t}/;"; }
after() { echo "s/^func ($1 \*$2) $3() {\$/&\n\tif vtEnter(unsafe.Pointer($1), $4) {\n\t\treturn\n\t}\n\tdefer vtYield()/;"; }
try() { echo "s/^func ($1 \*$2) $3() bool {\$/&\n\tif vtEnter(unsafe.Pointer($1), $4) {\n\t\treturn true\n\t}\n\tif VtHook != nil \&\& VtHook(nil, $4) {\n\t\treturn false\n\t}/;"; }
sed -e "$(hook rw RWMutex Lock 0)" -e "$(hook rw RWMutex RLock 2)" -e "$(after rw RWMutex Unlock 1)" -e "$(after rw RWMutex RUnlock 3)" \
    -e "$(try rw RWMutex TryLock 4)" -e "$(try rw RWMutex TryRLock 5)" -e '0,/^import (/s//import (\n\t"runtime"/' "$lib/rwmutex.go" >"$1/rwmutex.go" || exit 3
sed -e "$(hook m Mutex Lock 0)" -e "$(hook m Mutex Unlock 6)" -e "$(try m Mutex TryLock 4)" -e '0,/^import (/s//import (\n\t"unsafe"/' "$lib/mutex.go" >"$1/mutex.go" || exit 3
cat >>"$1/rwmutex.go" <<'E'

// VtHook stands in for the lock operations when it is not nil and returns true.
var VtHook func(p unsafe.Pointer, op int) bool

// VtRandom makes lock operations yield at random.
var VtRandom bool

func vtEnter(p unsafe.Pointer, op int) bool {
	if VtHook != nil {
		return VtHook(p, op)
	}
	if op == 0 || op == 2 {
		vtYield()
	}
	return false
}

func vtYield() {
	if VtRandom && runtime_randn(3) == 0 {
		runtime.Gosched()
	}
}
E
if [ "$(cat "$1/rwmutex.go" "$1/mutex.go" | grep -c 'if vtEnter(unsafe')" != 9 ]; then
    echo "error: sync.RWMutex and sync.Mutex of this Go do not look as expected"
    exit 3
fi
echo "{\"Replace\": {\"$lib/rwmutex.go\": \"$1/rwmutex.go\", \"$lib/mutex.go\": \"$1/mutex.go\"}}" >"$1/overlay.json"
