// Package vsync replaces sync in instrumented code: same API, simulated blocking.
package vsync

import (
	"unsafe"

	"verif.local/vsim"
)

type Locker interface {
	Lock()
	Unlock()
}

type noCopy struct{}

// Mutex ...
type Mutex struct {
	_      noCopy
	locked bool
	tok    byte
}

func (m *Mutex) Lock() {
	vsim.Y(-1)
	for m.locked {
		if vsim.Aborting() {
			return
		}
		vsim.Block(m, "mutex")
	}
	m.locked = true
	vsim.NoteLocked(m, "mutex")
	vsim.RaceAcquire(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	vsim.Y(-1)
	if m.locked {
		return false
	}
	m.locked = true
	vsim.NoteLocked(m, "mutex")
	vsim.RaceAcquire(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		if vsim.Aborting() {
			return
		}
		panic("sync: unlock of unlocked mutex")
	}
	vsim.RaceRelease(unsafe.Pointer(m))
	m.locked = false
	vsim.NoteUnlocked(m)
	vsim.Wake(m)
	vsim.Y(-1)
}

// RWMutex prefers waiting writers, as sync.RWMutex does.
type RWMutex struct {
	_       noCopy
	writer  bool
	readers int
	waitW   int
	rtok    byte
	wtok    byte
}

func (m *RWMutex) Lock() {
	vsim.Y(-1)
	m.waitW++
	for m.writer || m.readers > 0 {
		if vsim.Aborting() {
			return
		}
		vsim.Block(m, "rwmutex")
	}
	m.waitW--
	m.writer = true
	vsim.NoteLocked(m, "rwmutex")
	vsim.RaceAcquire(unsafe.Pointer(&m.rtok))
	vsim.RaceAcquire(unsafe.Pointer(&m.wtok))
}

func (m *RWMutex) TryLock() bool {
	vsim.Y(-1)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	vsim.NoteLocked(m, "rwmutex")
	vsim.RaceAcquire(unsafe.Pointer(&m.rtok))
	vsim.RaceAcquire(unsafe.Pointer(&m.wtok))
	return true
}

func (m *RWMutex) Unlock() {
	if !m.writer {
		if vsim.Aborting() {
			return
		}
		panic("sync: Unlock of unlocked RWMutex")
	}
	vsim.RaceRelease(unsafe.Pointer(&m.rtok))
	vsim.RaceRelease(unsafe.Pointer(&m.wtok))
	m.writer = false
	vsim.NoteUnlocked(m)
	vsim.Wake(m)
	vsim.Y(-1)
}

func (m *RWMutex) RLock() {
	vsim.Y(-1)
	for m.writer || m.waitW > 0 {
		if vsim.Aborting() {
			return
		}
		vsim.Block(m, "rwmutex")
	}
	m.readers++
	vsim.NoteLocked(m, "rwmutex")
	vsim.RaceAcquire(unsafe.Pointer(&m.rtok))
}

func (m *RWMutex) TryRLock() bool {
	vsim.Y(-1)
	if m.writer || m.waitW > 0 {
		return false
	}
	m.readers++
	vsim.NoteLocked(m, "rwmutex")
	vsim.RaceAcquire(unsafe.Pointer(&m.rtok))
	return true
}

func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		if vsim.Aborting() {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	vsim.RaceReleaseMerge(unsafe.Pointer(&m.wtok))
	m.readers--
	if m.readers == 0 {
		vsim.NoteUnlocked(m)
		vsim.Wake(m)
	}
	vsim.Y(-1)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once ...
type Once struct {
	_    noCopy
	m    Mutex
	done bool
	tok  byte
}

func (o *Once) Do(f func()) {
	vsim.Y(-1)
	if o.done {
		vsim.RaceAcquire(unsafe.Pointer(&o.tok))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			vsim.RaceRelease(unsafe.Pointer(&o.tok))
			o.done = true
		}()
		f()
	} else {
		vsim.RaceAcquire(unsafe.Pointer(&o.tok))
	}
}

func OnceFunc(f func()) func() {
	var once Once
	var p interface{}
	valid := false
	return func() {
		once.Do(func() {
			defer func() {
				if !valid {
					p = recover()
					panic(p)
				}
			}()
			f()
			f = nil
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	g := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { g(); return r1, r2 }
}

// WaitGroup ...
type WaitGroup struct {
	_   noCopy
	n   int
	tok byte
}

func (w *WaitGroup) Add(d int) {
	vsim.Y(-1)
	if d < 0 {
		vsim.RaceReleaseMerge(unsafe.Pointer(&w.tok))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		vsim.Wake(w)
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	vsim.Y(-1)
	for w.n > 0 {
		if vsim.Aborting() {
			return
		}
		vsim.Block(w, "waitgroup")
	}
	vsim.RaceAcquire(unsafe.Pointer(&w.tok))
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsim.Go(func() {
		defer w.Done()
		f()
	})
}

// Cond ...
type Cond struct {
	_ noCopy
	L Locker
	q []*int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	k := new(int)
	c.q = append(c.q, k)
	c.L.Unlock()
	for {
		in := false
		for _, x := range c.q {
			in = in || x == k
		}
		if !in || vsim.Aborting() {
			break
		}
		vsim.Block(k, "cond")
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	vsim.Y(-1)
	if len(c.q) > 0 {
		k := c.q[0]
		c.q = c.q[1:]
		vsim.Wake(k)
	}
}
func (c *Cond) Broadcast() {
	vsim.Y(-1)
	q := c.q
	c.q = nil
	for _, k := range q {
		vsim.Wake(k)
	}
}

// Pool hands out any pooled element, or a new one, as the simulator decides.
type Pool struct {
	_   noCopy
	New func() interface{}
	xs  []interface{}
	tok byte
}

func (p *Pool) Get() interface{} {
	vsim.Y(-1)
	if n := len(p.xs); n > 0 && !vsim.Aux().Chance(0.1) {
		i := vsim.Aux().Intn(n)
		x := p.xs[i]
		p.xs = append(append([]interface{}(nil), p.xs[:i]...), p.xs[i+1:]...)
		vsim.RaceAcquire(unsafe.Pointer(&p.tok))
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x interface{}) {
	vsim.Y(-1)
	if x == nil {
		return
	}
	vsim.RaceReleaseMerge(unsafe.Pointer(&p.tok))
	p.xs = append(p.xs, x)
}

// Map is linearizable at each call.
type Map struct {
	_   noCopy
	m   map[interface{}]interface{}
	tok byte
}

func (m *Map) acq() { vsim.Y(-1); vsim.RaceAcquire(unsafe.Pointer(&m.tok)) }
func (m *Map) rel() { vsim.RaceReleaseMerge(unsafe.Pointer(&m.tok)) }

func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.acq()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v interface{}) { m.Swap(k, v) }
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.acq()
	defer m.rel()
	o, ok := m.m[k]
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	m.m[k] = v
	return o, ok
}
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.acq()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	m.m[k] = v
	m.rel()
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.acq()
	defer m.rel()
	o, ok := m.m[k]
	delete(m.m, k)
	return o, ok
}
func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, old, new interface{}) bool {
	m.acq()
	defer m.rel()
	if o, ok := m.m[k]; ok && o == old {
		m.m[k] = new
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old interface{}) bool {
	m.acq()
	defer m.rel()
	if o, ok := m.m[k]; ok && o == old {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Clear() { m.acq(); m.m = nil; m.rel() }
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.acq()
	for _, k := range vsim.MapKeys(m.m) {
		v, ok := m.m[k]
		if ok && !f(k, v) {
			return
		}
	}
}
