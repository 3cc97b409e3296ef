package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Goroutines are run to completion where they are started, on channels without a limit. For goroutines that communicate by
// channels only, and that the receivers drain, the values received do not depend on the schedule, so this gives the values
// that any schedule gives (deadlock, leaks and races are the subject of C27).

type ChanObj struct {
	Q      []Val
	Closed bool
	Any    bool
}

type ChanV struct{ Obj int }

func (in *Interp) chanOf(st *State, v Val) (*ChanV, *ChanObj) {
	c, ok := v.(*ChanV)
	if !ok || c.Obj == 0 {
		return nil, nil
	}
	o, ok := in.object(st, c.Obj).(*ChanObj)
	if !ok {
		return nil, nil
	}
	return c, o
}

func (in *Interp) send(st *State, ins ssa.Instruction, ch, v Val) bool {
	c, o := in.chanOf(st, ch)
	if c == nil {
		st.notes["send"] = true
		return true
	}
	if o.Closed {
		in.oblige(st, ins, "send", false, "send on a closed channel")
		return false
	}
	n := *o
	if !o.Any {
		n.Q = append(append([]Val{}, o.Q...), v)
	}
	st.set(c.Obj, &n)
	return true
}

type recvRes struct {
	st *State
	v  Val
	ok *BoolV
}

func (in *Interp) recv(st *State, ch Val, t types.Type) []recvRes {
	c, o := in.chanOf(st, ch)
	if c == nil || o.Any {
		st.notes["recv"] = true
		return []recvRes{{st, in.symVal(st, t, in.freshName("recv")), predV(in.freshName("open"))}}
	}
	if len(o.Q) > 0 {
		n := *o
		n.Q = o.Q[1:]
		st.set(c.Obj, &n)
		return []recvRes{{st, o.Q[0], boolConst(true)}}
	}
	if o.Closed {
		return []recvRes{{st, in.zero(st, t), boolConst(false)}}
	}
	panic(stop{"receive from an empty channel that is never closed"})
}

func (in *Interp) closeChan(st *State, ins ssa.Instruction, ch Val) bool {
	c, o := in.chanOf(st, ch)
	if c == nil {
		return true
	}
	if o.Closed {
		in.oblige(st, ins, "close", false, "close of a closed channel")
		return false
	}
	n := *o
	n.Closed = true
	st.set(c.Obj, &n)
	return true
}

func (in *Interp) selectCh(it *item, x *ssa.Select) []callRes {
	st := it.st
	tt := x.Type().(*types.Tuple)
	type opt struct{ i int }
	var ready []int
	for i, s := range x.States {
		c, o := in.chanOf(st, in.val(it, s.Chan))
		if c == nil || o.Any {
			st.notes["select"] = true
			return one(st, in.symVal(st, x.Type(), in.freshName("select")))
		}
		if s.Dir == types.SendOnly || len(o.Q) > 0 || o.Closed {
			ready = append(ready, i)
		}
	}
	result := func(st *State, i int, ok *BoolV, k int, v Val) callRes {
		t := &TupleV{V: []Val{intConst(int64(i)), ok}}
		n := 0
		for j, s := range x.States {
			if s.Dir == types.RecvOnly {
				y := in.zero(st, tt.At(2+n).Type())
				if j == k {
					y = v
				}
				t.V = append(t.V, y)
				n++
			}
		}
		return callRes{st, t}
	}
	if len(ready) == 0 {
		if !x.Blocking {
			return []callRes{result(st, -1, boolConst(false), -1, nil)}
		}
		panic(stop{"select blocks for ever"})
	}
	var out []callRes
	for n, i := range ready {
		s := st
		if n+1 < len(ready) {
			s = st.clone()
		}
		xs := x.States[i]
		if xs.Dir == types.SendOnly {
			if in.send(s, x, in.val(it, xs.Chan), in.val(it, xs.Send)) {
				out = append(out, result(s, i, boolConst(false), -1, nil))
			}
			continue
		}
		el := xs.Chan.Type().Underlying().(*types.Chan).Elem()
		for _, r := range in.recv(s, in.val(it, xs.Chan), el) {
			out = append(out, result(r.st, i, r.ok, i, r.v))
		}
	}
	return out
}

// ---------------------------------------------------------------- bufio.Scanner

type ScanObj struct {
	Lines [][]Seg
	Pos   int
	Any   bool
	Limit int64
	Err   Val
	Cur   Val
}

func (c *callCtx) scanner(i int) (*PtrV, *ScanObj) {
	p, ok := c.args[i].(*PtrV)
	if !ok || p.Obj == 0 {
		return nil, nil
	}
	o, ok := c.in.object(c.st, p.Obj).(*ScanObj)
	if !ok {
		return nil, nil
	}
	return p, o
}

func init() {
	m := models
	m["bufio.NewScanner"] = func(c *callCtx) []callRes {
		o := &ScanObj{Limit: 65536, Err: noErr, Cur: strLit("")}
		_, r := c.reader(0)
		if r == nil {
			o.Any = true
		} else {
			segs := c.in.subAny(c.st, r.S, r.Pos, seqLen(r.S), byteT)
			ls, ok := c.in.textLines(c.st, c.in.normSegs(c.st, segs))
			o.Lines, o.Any = ls, !ok
		}
		return one(c.st, &PtrV{Obj: c.st.alloc(o)})
	}
	m["(*bufio.Scanner).Buffer"] = func(c *callCtx) []callRes {
		p, o := c.scanner(0)
		n, ok := c.args[2].(*Num)
		if o == nil || !ok {
			return c.havoc()
		}
		x := *o
		x.Limit, _ = c.st.rangeLin(n.L)
		c.st.set(p.Obj, &x)
		return one(c.st, tup())
	}
	m["(*bufio.Scanner).Scan"] = func(c *callCtx) []callRes {
		p, o := c.scanner(0)
		if o == nil {
			return c.havoc()
		}
		if o.Any {
			x := *o
			x.Cur = wholeStr(newSeqAtom(c.in.freshName("line"), byteT))
			more := predV(c.in.freshName("scan")).C
			s := c.st.clone()
			s.assume(more, true)
			s.set(p.Obj, &x)
			y := *o
			y.Err = &OpaqueV{Key: c.in.freshName("scanerr"), T: errorT}
			c.st.assume(more, false)
			c.st.set(p.Obj, &y)
			return []callRes{{s, boolConst(true)}, {c.st, boolConst(false)}}
		}
		if o.Pos >= len(o.Lines) || c.in.errNil(c.st, o.Err) != 1 {
			return one(c.st, boolConst(false))
		}
		segs := o.Lines[o.Pos]
		if n := len(segs); n > 0 { // a carriage return at the end of the line is dropped
			if l, ok := segs[n-1].(*SegLit); ok && l.S[len(l.S)-1] == '\r' {
				segs = append(append([]Seg{}, segs[:n-1]...), &SegLit{l.S[:len(l.S)-1]})
			}
		}
		fits := geCond(linAddK(linScale(seqLen(segs), -1), 1, linConst(o.Limit-1)))
		return c.branch(fits, func(st *State) []callRes {
			x := *o
			x.Pos++
			x.Cur = &StrV{segs}
			st.set(p.Obj, &x)
			return one(st, boolConst(true))
		}, func(st *State) []callRes {
			if verbose {
				for _, g := range segs {
					if lo, hi := st.rangeLin(g.slen()); hi > 10000 {
						fmt.Println("LONG", segString(g), rootDesc(g), lo, hi)
					}
				}
			}
			x := *o
			x.Err = c.in.newErr("bufio.Scanner: token too long")
			st.set(p.Obj, &x)
			return one(st, boolConst(false))
		})
	}
	m["(*bufio.Scanner).Text"] = func(c *callCtx) []callRes {
		_, o := c.scanner(0)
		if o == nil {
			return c.havoc()
		}
		return one(c.st, o.Cur)
	}
	m["(*bufio.Scanner).Bytes"] = func(c *callCtx) []callRes {
		_, o := c.scanner(0)
		if o == nil {
			return c.havoc()
		}
		return one(c.st, c.in.newSlice(c.st, strToElems(o.Cur.(*StrV).S), byteT))
	}
	m["(*bufio.Scanner).Err"] = func(c *callCtx) []callRes {
		_, o := c.scanner(0)
		if o == nil {
			return c.havoc()
		}
		return one(c.st, o.Err)
	}
}

func chanKey(x *ChanObj) string {
	k := fmt.Sprintf("ch%v%v", x.Closed, x.Any)
	for _, v := range x.Q {
		k += "," + vkey(v)
	}
	return k
}
