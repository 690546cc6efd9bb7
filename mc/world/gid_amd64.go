package world

import "unsafe"

func getg() uintptr

// goidOff is where the runtime keeps the goroutine id; found by comparing with
// what runtime.Stack prints, 0 when not found (then the slow way is used).
var goidOff = findGoid()

func findGoid() uintptr {
	var cand map[uintptr]bool
	for i := 0; i < 4; i++ {
		ch := make(chan map[uintptr]bool)
		go func() {
			g, id := getg(), uint64(slowGid())
			m := map[uintptr]bool{}
			for off := uintptr(64); off < 320; off += 8 {
				if *(*uint64)(unsafe.Add(unsafe.Pointer(ptr(g)), off)) == id {
					m[off] = true
				}
			}
			ch <- m
		}()
		m := <-ch
		if cand == nil {
			cand = m
		}
		for o := range cand {
			if !m[o] {
				delete(cand, o)
			}
		}
	}
	if len(cand) != 1 {
		return 0
	}
	for o := range cand {
		return o
	}
	return 0
}

func ptr(g uintptr) *byte { return *(**byte)(unsafe.Pointer(&g)) }

func gid() int64 {
	if goidOff == 0 {
		return slowGid()
	}
	return int64(*(*uint64)(unsafe.Add(unsafe.Pointer(ptr(getg())), goidOff)))
}
