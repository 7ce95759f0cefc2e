package hook

import "syscall"

// Vars decides what the library finds in the process's environment (0: what is there).
var Vars uint64

func init() {
	syscall.SimGetenv = getenv
	syscall.SimPid = func() int {
		if cur == nil || Vars == 0 {
			return 0
		}
		return 2 + int(Vars%32000)
	}
}

// getenv: whatever the library asks for may be set, to anything.
//
//go:norace
func getenv(key string) (string, bool, bool) {
	if cur == nil || Vars == 0 {
		return "", false, false
	}
	x := Vars
	for i := 0; i < len(key); i++ {
		x = (x ^ uint64(key[i])) * 0x100000001b3
	}
	mix(&x)
	v := [...]string{"", "1", "0", "true", "ru_RU.UTF-8", "en_US.UTF-8", "C", "2", "7", "/tmp", "off", "tr_TR"}
	k := int(mix(&x) % uint64(len(v)))
	return v[k], k > 0, true
}
