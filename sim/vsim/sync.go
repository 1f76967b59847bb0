package vsim

import "unsafe"

type syncKey struct {
	p *Proc
	a unsafe.Pointer
}

type lockState struct {
	writer  bool
	readers int
	count   int
}

func lockOf(a unsafe.Pointer) *lockState {
	k := syncKey{W.cur.Proc, a}
	s := W.sync[k]
	if s == nil {
		s = &lockState{}
		W.sync[k] = s
	}
	return s
}

func live() bool { return W != nil && W.cur != nil && !W.cur.Proc.Dead }

// Lock waits for the lock at a.
func Lock(a unsafe.Pointer) {
	if !live() {
		return
	}
	s := lockOf(a)
	W.note("lock")
	W.Block(func() bool { return !s.writer && s.readers == 0 })
	s.writer = true
}

func TryLock(a unsafe.Pointer) bool {
	if !live() {
		return true
	}
	s := lockOf(a)
	if s.writer || s.readers > 0 {
		return false
	}
	s.writer = true
	return true
}

func Unlock(a unsafe.Pointer) {
	if !live() {
		return
	}
	s := lockOf(a)
	if !s.writer {
		panic("sync: unlock of unlocked mutex")
	}
	s.writer = false
	W.note("unlock")
}

func RLock(a unsafe.Pointer) {
	if !live() {
		return
	}
	s := lockOf(a)
	W.Block(func() bool { return !s.writer })
	s.readers++
}

func TryRLock(a unsafe.Pointer) bool {
	if !live() {
		return true
	}
	s := lockOf(a)
	if s.writer {
		return false
	}
	s.readers++
	return true
}

func RUnlock(a unsafe.Pointer) {
	if !live() {
		return
	}
	s := lockOf(a)
	if s.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	s.readers--
}

// WaitFor blocks until cond holds.
func WaitFor(cond func() bool) {
	if live() {
		W.Block(cond)
	}
}

// Yield is runtime.Gosched.
func Yield() {
	if live() {
		W.yield("gosched")
	}
}
