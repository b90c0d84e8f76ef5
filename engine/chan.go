package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ChanData is the state of a channel. An unbuffered channel takes one value in its
// queue; its sender waits until that value has been received.
type ChanData struct {
	queue  []Value
	cap    int
	closed bool
	sent   uint64
	taken  uint64
}

func (x *X) chanData(s *State, c ChanRef, write bool) *ChanData {
	if !write {
		return x.getObj(s, c.obj).ch
	}
	o := x.wObj(s, c.obj)
	d := *o.ch
	d.queue = append([]Value(nil), d.queue...)
	o.ch = &d
	return &d
}

func (x *X) makeChan(s *State, n int, t types.Type) ChanRef {
	return ChanRef{x.newObj(s, &Obj{elem: t, ch: &ChanData{cap: n}})}
}

func canSend(d *ChanData) bool {
	return d.closed || len(d.queue) < max(d.cap, 1)
}

func canRecv(d *ChanData) bool {
	return d.closed || len(d.queue) > 0
}

// chanPut enqueues a value; the number of the value sent
func (x *X) chanPut(s *State, c ChanRef, v Value) uint64 {
	d := x.chanData(s, c, true)
	if d.closed {
		x.throw(s, "send on closed channel")
	}
	d.queue = append(d.queue, v)
	d.sent++
	o := x.wObj(s, c.obj)
	x.publish(s, o, v)
	s.wake()
	return d.sent
}

func (x *X) chanTake(s *State, c ChanRef, elem types.Type) (Value, Value) {
	d := x.chanData(s, c, true)
	if len(d.queue) == 0 {
		return zeroVal(elem), tFalse
	}
	v := d.queue[0]
	d.queue = d.queue[1:]
	d.taken++
	s.wake()
	return v, tTrue
}

func (f *Frame) memoSet(k string, v Value) {
	if f.memo == nil {
		f.memo = map[string]Value{}
	}
	f.memo[k] = v
}

func (x *X) chanSend(s *State, f *Frame, in *ssa.Send) {
	c := x.get(s, f, in.Chan).(ChanRef)
	if c.obj == 0 {
		panic(blocked{})
	}
	if t, ok := f.memo["chan.sent"]; ok {
		d := x.chanData(s, c, false)
		if d.taken < t.(*Term).val {
			if d.closed {
				x.throw(s, "send on closed channel")
			}
			panic(blocked{})
		}
		return
	}
	d := x.chanData(s, c, false)
	if !canSend(d) {
		panic(blocked{})
	}
	n := x.chanPut(s, c, x.get(s, f, in.X))
	if d.cap == 0 {
		f.memoSet("chan.sent", Const(64, n))
		panic(blocked{})
	}
}

func (x *X) chanRecv(s *State, f *Frame, in *ssa.UnOp) Value {
	c := x.get(s, f, in.X).(ChanRef)
	if c.obj == 0 || !canRecv(x.chanData(s, c, false)) {
		panic(blocked{})
	}
	v, ok := x.chanTake(s, c, in.X.Type().Underlying().(*types.Chan).Elem())
	if in.CommaOk {
		return Tuple{v, ok}
	}
	return v
}

func (x *X) chanSelect(s *State, f *Frame, in *ssa.Select) Value {
	var ready []int
	for i, st := range in.States {
		c := x.get(s, f, st.Chan).(ChanRef)
		if c.obj == 0 {
			continue
		}
		d := x.chanData(s, c, false)
		if st.Dir == types.SendOnly {
			if d.cap == 0 && !d.closed {
				panic(unsupported{"select with a send on an unbuffered channel"})
			}
			if canSend(d) {
				ready = append(ready, i)
			}
		} else if canRecv(d) {
			ready = append(ready, i)
		}
	}
	pick := -1
	if m, ok := f.memo["select"]; ok {
		pick = int(int64(m.(*Term).val))
	} else {
		if len(ready) == 0 && in.Blocking {
			panic(blocked{})
		}
		if len(ready) == 1 {
			pick = ready[0]
		}
		if len(ready) > 1 {
			var kids []*State
			for i, r := range ready {
				k := s
				if i < len(ready)-1 {
					k = x.fork(s)
				}
				kids = append(kids, k)
				k.frame().memoSet("select", Const(64, uint64(r)))
				k.skipPre = true
			}
			panic(forkStates{kids})
		}
	}
	res := Tuple{Const(64, uint64(int64(pick))), tFalse}
	for i, st := range in.States {
		if st.Dir == types.SendOnly {
			if i == pick {
				x.chanPut(s, x.get(s, f, st.Chan).(ChanRef), x.get(s, f, st.Send))
			}
			continue
		}
		el := st.Chan.Type().Underlying().(*types.Chan).Elem()
		v := zeroVal(el)
		if i == pick {
			v, res[1] = x.chanTake(s, x.get(s, f, st.Chan).(ChanRef), el)
		}
		res = append(res, v)
	}
	return res
}

func (x *X) chanClose(s *State, c ChanRef) {
	if c.obj == 0 {
		x.throw(s, "close of nil channel")
	}
	d := x.chanData(s, c, true)
	if d.closed {
		x.throw(s, "close of closed channel")
	}
	d.closed = true
	s.wake()
}
