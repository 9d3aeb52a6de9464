package vsim

import (
	"reflect"
	"unsafe"
)

// Unbuffered channels rendezvous through this registry; buffered channels use the
// real channel with non-blocking operations.
type chanState struct {
	sendq  []*sendItem
	recvs  int
	closed bool
	tok    byte
}

type sendItem struct {
	v    interface{}
	done bool
}

var chans = map[uintptr]*chanState{}

type chanKey struct{ p uintptr }

func st(p uintptr) *chanState {
	c := chans[p]
	if c == nil {
		c = &chanState{}
		chans[p] = c
	}
	return c
}

func Send[T any](ch chan<- T, v T) {
	if running == nil || running.abort {
		ch <- v
		return
	}
	Y(-2)
	p := reflect.ValueOf(ch).Pointer()
	if ch == nil {
		for {
			Block(chanKey{0}, "send on nil channel")
		}
	}
	if cap(ch) > 0 || st(p).closed {
		for {
			select {
			case ch <- v:
				Wake(chanKey{p})
				return
			default:
				Block(chanKey{p}, "channel send")
			}
		}
	}
	c := st(p)
	it := &sendItem{v: v}
	raceReleaseP(unsafe.Pointer(&c.tok))
	c.sendq = append(c.sendq, it)
	Wake(chanKey{p})
	for !it.done {
		if c.closed {
			panic("send on closed channel")
		}
		Block(chanKey{p}, "channel send")
	}
	raceAcquireP(unsafe.Pointer(&c.tok))
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	if running == nil || running.abort {
		v, ok := <-ch
		return v, ok
	}
	Y(-2)
	if ch == nil {
		for {
			Block(chanKey{0}, "receive from nil channel")
		}
	}
	p := reflect.ValueOf(ch).Pointer()
	for {
		c := st(p)
		if len(c.sendq) > 0 {
			it := c.sendq[0]
			c.sendq = c.sendq[1:]
			it.done = true
			raceAcquireP(unsafe.Pointer(&c.tok))
			raceReleaseP(unsafe.Pointer(&c.tok))
			Wake(chanKey{p})
			v, _ := it.v.(T)
			return v, true
		}
		select {
		case v, ok := <-ch:
			Wake(chanKey{p})
			return v, ok
		default:
			Block(chanKey{p}, "channel receive")
		}
	}
}

func Close[T any](ch chan<- T) {
	p := reflect.ValueOf(ch).Pointer()
	close(ch)
	if ch != nil && running != nil {
		st(p).closed = true
		Wake(chanKey{p})
	}
}
