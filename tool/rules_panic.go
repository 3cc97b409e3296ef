package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// harvest turns the panic obligations met by an interpreter run into verdicts
func (c *Ctx) harvest(entry string, in *Interp, exact bool) {
	keys := []string{}
	for k := range in.obls {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := in.obls[keys[i]], in.obls[keys[j]]
		if a.Pos != b.Pos {
			return a.Pos < b.Pos
		}
		return a.Kind < b.Kind
	})
	for _, k := range keys {
		o := in.obls[k]
		key := fmt.Sprintf("%s:%s", o.Kind, c.shortFn(o.Fn.String()))
		where := c.P.pos(o.Pos)
		if o.OK > 0 && o.Fail == 0 {
			c.Pass(key, where)
			c.counts["panic sites proved"]++
			continue
		}
		switch {
		case o.Wit != "":
			var path []string
			for _, f := range o.Chain {
				path = append(path, "called from "+f)
			}
			c.Fail(key+":"+entry, where, fmt.Sprintf("%s: %s %s", entry, o.Detail, o.Wit), append(path, o.Path...)...)
		case exact:
			c.Undecided(key+":"+entry+":"+where, where, fmt.Sprintf("%s: %s (%s)", entry, o.Detail, o.Why))
		default:
			c.Undecided(key+":"+entry+":"+where, where, fmt.Sprintf("%s: %s (%s)", entry, o.Detail, o.Why))
		}
	}
	c.counts["unmodelled calls"] += len(in.unmod)
	for k := range in.unmod {
		c.counts["unmodelled "+k]++
	}
}

// panics reports the sites at which the unit panics for a concrete input
func (c *Ctx) panics(key string, in *Interp) {
	for _, k := range sortedKeys(in.obls) {
		if o := in.obls[k]; o.Wit != "" {
			c.Fail(key+":panic:"+c.shortFn(o.Fn.String()), c.P.pos(o.Pos), fmt.Sprintf("panics: %s %s", o.Detail, o.Wit), o.Path...)
		}
	}
}

func (c *Ctx) shortFn(s string) string {
	return strings.ReplaceAll(s, c.P.Mod+"/", "")
}

// anyBytes is a byte slice of unknown length and content; n >= 0 fixes the length
func (in *Interp) anyBytes(st *State, n int) (*SliceV, Val) {
	if n < 0 {
		r := newSeqAtom("input", byteT)
		segs := []Seg{&SegSpan{r, linConst(0), r.Len.L}}
		return in.newSlice(st, segs, byteT), &SeqV{segs}
	}
	var segs []Seg
	for i := 0; i < n; i++ {
		segs = append(segs, &SegElem{byteAtom(fmt.Sprintf("b%d", i))})
	}
	return in.newSlice(st, segs, byteT), &SeqV{segs}
}

func (in *Interp) bytesReader(st *State, segs []Seg) Val {
	rt := in.P.extType("bytes", "Reader")
	if rt == nil {
		panic(stop{"bytes.Reader not loaded"})
	}
	p := &PtrV{Obj: st.alloc(&ReaderObj{Kind: "bytes", S: segs, Pos: linConst(0)})}
	return &IfaceV{types.NewPointer(rt), p}
}

type binEntry struct {
	name string
	run  func(in *Interp, st *State, b *SliceV)
}

func (c *Ctx) binEntries() []binEntry {
	var out []binEntry
	for _, k := range kinds {
		t := k.typ(c.P)
		if t == nil {
			continue
		}
		out = append(out, binEntry{k.Name, func(in *Interp, st *State, b *SliceV) { in.decodeWith(st, t, "UnmarshalBinary", b) }})
	}
	for _, pk := range []string{"midi/events/midi", "midi/events/meta", "midi/events/sysex"} {
		fn := c.P.fn(pk, "Parse")
		if fn == nil || len(fn.Params) < 2 {
			continue
		}
		last := fn.Params[len(fn.Params)-1].Type()
		if sl, ok := last.Underlying().(*types.Slice); !ok || !types.Identical(sl.Elem(), types.Typ[types.Byte]) {
			continue
		}
		out = append(out, binEntry{"Parse " + pk[len("midi/events/"):], func(in *Interp, st *State, b *SliceV) {
			var args []Val
			for _, p := range fn.Params[:len(fn.Params)-1] {
				args = append(args, in.symVal(st, p.Type(), p.Name()))
			}
			in.execFn(fn, append(args, b), nil, st, nil)
		}})
	}
	out = append(out, binEntry{"Event", func(in *Interp, st *State, b *SliceV) { in.decodeEvent(st, "UnmarshalBinary", b) }})
	out = append(out, binEntry{"MThd", func(in *Interp, st *State, b *SliceV) {
		in.decodeWith(st, c.P.typ("midi", "MThd"), "UnmarshalBinary", b)
	}})
	out = append(out, binEntry{"MTrk", func(in *Interp, st *State, b *SliceV) { in.trackFrom(st, nil, b) }})
	out = append(out, binEntry{"Decode", func(in *Interp, st *State, b *SliceV) {
		in.hook = c.trackSummary(nil)
		in.decodeFile(st, in.bytesReader(st, in.sliceSegs(st, b)))
	}})
	return out
}

// decodeFile runs the file decoder on a reader
func (in *Interp) decodeFile(st *State, reader Val) []Outcome {
	nd := in.P.fn("encoding/midi", "NewDecoder")
	it := in.P.typ("encoding/midi", "Decoder")
	if nd == nil || it == nil {
		panic(stop{"no file decoder"})
	}
	var out []Outcome
	for _, o := range in.execFn(nd, nil, nil, st, nil) {
		d, ok := o.ret[0].(*IfaceV)
		if !ok {
			panic(stop{"decoder is not concrete"})
		}
		fn := in.P.methodOf(d.T, "Decode")
		if fn == nil {
			panic(stop{"no Decode"})
		}
		for _, r := range in.execFn(fn, []Val{d.V, reader}, nil, o.st, nil) {
			if !r.st.dead {
				out = append(out, r)
			}
		}
	}
	return out
}

// trackSummary replaces the track decoder, which is judged on its own for all inputs, by its contract: it returns an error,
// or fills in the track with arbitrary events; it needs a context
func (c *Ctx) trackSummary(seen func(st *State, mtrk *PtrV, data Val)) CallHook {
	t := c.P.typ("midi", "MTrk")
	un := c.P.method(t, "UnmarshalBinary")
	return func(in *Interp, st *State, fn *ssa.Function, args []Val) ([]callRes, bool) {
		if fn != un || len(args) != 2 {
			return nil, false
		}
		p, ok := args[0].(*PtrV)
		if !ok {
			return nil, false
		}
		if seen != nil {
			seen(st, p, args[1])
		}
		f, ok := in.load(st, p, nil).(*StructV)
		if !ok {
			return nil, false
		}
		ut := t.Underlying().(*types.Struct)
		for i := 0; i < ut.NumFields(); i++ {
			if strings.HasSuffix(ut.Field(i).Type().String(), "context.Context") {
				if _, ok := f.F[i].(*PtrV); !ok || !in.nonNil(st, f.F[i]) {
					return nil, false // no usable context: analyse the call itself
				}
			}
		}
		s2 := st.clone()
		g := append([]Val{}, f.F...)
		for i := 0; i < ut.NumFields(); i++ {
			switch ut.Field(i).Name() {
			case "Events", "Bytes", "Length":
				g[i] = in.symVal(st, ut.Field(i).Type(), in.freshName("track."+ut.Field(i).Name()))
			}
		}
		in.store(st, p, &StructV{f.T, g})
		return []callRes{{st, noErr}, {s2, in.newErr("track")}}, true
	}
}

func init() {
	register(&Check{ID: "C08", Shard: true,
		Rule: "Every index, slice, nil dereference, type assertion, division, make and explicit panic reachable from the binary decoders (each kind's UnmarshalBinary, events.Event, MThd, MTrk with a fresh context, the file decoder) is an obligation, discharged by abstract interpretation over an input of arbitrary length and content; undischarged ones are looked for again on inputs of every exact length up to 12 with free bytes, where a path condition with a valuation is a violation.",
		Run:  runC08})
}

func runC08(c *Ctx) {
	for _, e := range c.binEntries() {
		in := c.interp()
		c.guard(e.name, in, func() {
			var stopped any
			func() {
				defer func() { stopped = recover() }()
				st := c.freshState(in)
				b, show := in.anyBytes(st, -1)
				in.show = []Val{show}
				e.run(in, st, b)
			}()
			if stopped != nil {
				if _, ok := stopped.(stop); !ok {
					panic(stopped)
				}
			}
			open := stopped != nil
			for _, o := range in.obls {
				if o.Fail > 0 && o.Wit == "" {
					open = true
				}
			}
			if open {
				c.exactRuns(e, in)
			}
			c.harvest(e.name, in, false)
			if stopped != nil {
				panic(stopped)
			}
		})
	}
}

// exactRuns looks for a witness of the undischarged obligations on inputs of exact length
func (c *Ctx) exactRuns(e binEntry, in *Interp) {
	pre := [][]Seg{nil}
	max := 10
	switch e.name {
	case "MTrk":
		pre = [][]Seg{nil, {&SegLit{"MTrk\x00\x00\x00\x00"}}}
		max = 7
	case "Decode":
		pre = [][]Seg{nil, {&SegLit{"MThd\x00\x00\x00\x06\x00\x01\x00\x01\x00\x60"}}}
		max = 12
	}
	t0 := time.Now()
	for _, p := range pre {
		for n := 0; n <= max && time.Since(t0) < 60*time.Second; n++ {
			x := c.interp()
			x.noMerge = true
			x.cap = 4000
			x.maxStep = 1500000
			func() {
				defer func() { recover() }()
				st := c.freshState(x)
				_, show := x.anyBytes(st, n)
				segs := append(strToElems(p), show.(*SeqV).S...)
				x.show = []Val{&SeqV{segs}}
				e.run(x, st, x.newSlice(st, segs, byteT))
			}()
			x.stack, x.sites = nil, nil
			for k, o := range x.obls {
				if o.Wit == "" {
					continue
				}
				if d := in.obls[k]; d == nil {
					in.obls[k] = o
				} else if d.Wit == "" {
					d.Wit, d.Detail, d.Chain, d.Path, d.Fail = o.Wit, o.Detail, o.Chain, o.Path, d.Fail+o.Fail
				}
			}
		}
	}
}
