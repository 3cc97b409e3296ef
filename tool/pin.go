package main

import (
	"fmt"
	"hash/fnv"
	"time"
)

// Refinement. An obligation that stays undecided on the whole input space of its unit is looked at again on
// finer partitions of the space: the inputs (deltas, channels, data bytes, lengths, texts) are restricted to single
// values, first the corners of their ranges, then values spread over them. A refined run can only add
// violations; what it proves proves nothing about the rest of the space.

var pinRuns = 26

type pinState struct {
	run int
	n   int // inputs pinned so far
}

var pin *pinState

var pinTexts = []string{"a", "MTrk", "Rail Road", "", "x, y: 1", "MThd format:1", "delta:7 NoteOn channel:1", "%% tempo", "Piano  (left)", "é♯", "00 01 02", "1", "a very long name with more than forty characters in it, to be sure", "NoteOff"}

func pinText() string { return pinTexts[(pin.run+pin.n)%len(pinTexts)] }

// pinNum restricts an input to one value
func pinNum(st *State, n *Num) {
	if pin == nil || n == nil || st.dead {
		return
	}
	i := pin.n
	pin.n++
	n = st.resolve(n)
	if _, ok := n.constVal(); ok {
		return
	}
	lo, hi := st.rangeLin(n.L)
	if hi > lo+(1<<40) {
		hi = lo + 1<<40
	}
	h := fnv.New32a()
	fmt.Fprint(h, i, pin.run)
	spread := lo + int64(h.Sum32())%(hi-lo+1)
	var c int64
	switch {
	case pin.run == 0:
		c = lo
	case pin.run == 1:
		c = hi
	case pin.run < 14: // one at its maximum
		if c = lo; i == pin.run-2 {
			c = hi
		}
	default:
		c = spread
	}
	if verbose {
		defer func() { fmt.Println("PIN", pin.run, i, lo, hi, c, vstr(st.resolve(n)), st.dead) }()
	}
	for _, v := range []int64{c, spread, hi, lo, lo + 1} {
		t := st.clone()
		t.pinTo(n, v)
		if !t.dead {
			st.pinTo(n, v)
			return
		}
	}
}

func (st *State) pinTo(n *Num, v int64) {
	if len(n.L.T) == 1 && n.L.C == 0 && n.L.T[0].K == 1 {
		a := n.L.T[0].A
		for b := 0; b < a.W; b++ {
			st.setBit(Bit{a, b}, int(uint64(v)>>uint(b)&1))
		}
	}
	st.assumeEQ(linAddK(n.L, 1, linConst(-v)))
}

func pinEvent(st *State, d *evInput) {
	if pin == nil {
		return
	}
	pinNum(st, d.delta)
	pinNum(st, d.status)
	for _, b := range d.data {
		pinNum(st, b)
	}
	if d.root != nil && !st.dead {
		lo, _ := st.rangeLin(d.payN)
		st.assumeEQ(linAddK(d.payN, 1, linConst(-lo-int64([]int{0, 1, 2, 3, 70, 100}[pin.run%6]))))
	}
}

// refine re-runs an undecided unit on the partitions
func (c *Ctx) refine(f func(), in *Interp) {
	t0 := time.Now()
	defer func() { refined += time.Since(t0) }()
	for r := 0; r < pinRuns && time.Since(t0) < 45*time.Second && refined+time.Since(t0) < 150*time.Second; r++ {
		v := len(c.viol)
		pin = &pinState{run: r}
		c.refining = true
		if in != nil {
			in.steps = 0
		}
		func() {
			defer func() {
				if r := recover(); r != nil && verbose {
					fmt.Println("REFINE", r)
				}
				pin, c.refining = nil, false
			}()
			f()
		}()
		c.counts["refined runs"]++
		if len(c.viol) > v {
			return
		}
	}
}

// pinWide restricts a free number to values around the powers of two
func pinWide(st *State, n *Num, lo int64) {
	if pin == nil || st.dead {
		return
	}
	var v []int64
	for _, k := range []uint{0, 1, 2, 3, 4, 5, 6, 7, 8, 14, 15, 16, 21, 24, 28, 31, 32} {
		v = append(v, 1<<k, 1<<k-1, 1<<k+1)
	}
	for _, x := range []int64{-1, -2, -7, -8, -120, -128, -129, -256, -1 << 15, -1 << 31, -1 << 32, 60, 100, 1000, 3000, 9, 10, 24, 25, 29, 30} {
		if x >= lo {
			v = append(v, x)
		}
	}
	pin.n++
	st.pinTo(n, v[(pin.run*7+pin.n)%len(v)])
}

var refined time.Duration // spent so far on refining undecided units
