package main

import (
	"fmt"
	"go/types"
	"strings"
)

// disassemble prints the file with the document template
func (in *Interp) disassemble(st *State, smf *PtrV) []encoded {
	nd := in.P.fn("ops/disassemble", "NewDisassemble")
	t := in.P.typ("ops/disassemble", "Disassemble")
	smfT := in.P.typ("midi", "SMF")
	if nd == nil || t == nil || smfT == nil {
		panic(stop{"no disassemble operation"})
	}
	fn := in.P.method(t, "Print")
	var out []encoded
	for _, o := range in.execFn(nd, nil, nil, st, nil) {
		if in.errNil(o.st, o.ret[1]) != 1 {
			out = append(out, encoded{o.st, &SeqV{}, o.ret[1]})
			continue
		}
		w, wi := in.newBuffer(o.st)
		for _, r := range in.callMethod(o.st, fn, o.ret[0], []Val{&IfaceV{ptrTo(smfT), smf}, strLit("document"), wi}) {
			if r.st.dead {
				continue
			}
			b, ok := in.load(r.st, w, nil).(*BufObj)
			if !ok {
				panic(stop{"buffer lost"})
			}
			v := r.val
			if t, ok := v.(*TupleV); ok {
				v = t.V[0]
			}
			out = append(out, encoded{r.st, &SeqV{b.S}, v})
		}
	}
	return out
}

// textLines splits a structured text at its line breaks
func (in *Interp) textLines(st *State, segs []Seg) ([][]Seg, bool) {
	var out [][]Seg
	var cur []Seg
	for _, g := range segs {
		l, ok := g.(*SegLit)
		if !ok {
			if len(csInter(in.segClass(st, g), csOne('\n'))) > 0 {
				if verbose {
					fmt.Println("LINES", segString(g), rootDesc(g), in.segClass(st, g))
				}
				return nil, false
			}
			cur = append(cur, g)
			continue
		}
		s := l.S
		for {
			i := strings.IndexByte(s, '\n')
			if i < 0 {
				break
			}
			if i > 0 {
				cur = append(cur, &SegLit{s[:i]})
			}
			out = append(out, cur)
			cur = nil
			s = s[i+1:]
		}
		if s != "" {
			cur = append(cur, &SegLit{s})
		}
	}
	if len(cur) > 0 {
		out = append(out, cur)
	}
	return out, true
}

func init() {
	register(&Check{ID: "C05", Shard: true,
		Rule: "For symbolic files (each of the 28 kinds with every value of its fields, two and three event tracks, two tracks, multi-packet SysEx, no events, no tracks; text payloads without NUL, line breaks and leading blanks, a known manufacturer, metrical time): the listing that the disassemble operation writes (the embedded text templates are evaluated on the abstract file) is given to the text assembler (line scanner, channels, regular expressions and number parsing modelled on the structured text; the repository's code interpreted) and must assemble, on every path, to the bytes of the file. Regular expressions are matched against the character classes of the listing's segments, with the shortest and (if near) the longest length of each segment of variable length.",
		Run:  runC05})
}

func runC05(c *Ctx) {
	c.fileTrips(func(in *Interp, key string, s smfState, file func(st *State) []Seg, show Val) {
		for _, j := range in.disassemble(s.st, s.smf) {
			if !c.accepted(key+": listing", in, j.st, j.err, "listing", show) {
				continue
			}
			for _, a := range in.assemble(j.st, "TextAssembler", j.bytes.(*SeqV).S) {
				c.expectBytes(key, in, a, file(a.st), "", "listed and assembled file", show)
			}
		}
	}, func(in *Interp, st *State, evs []*evInput) {
		n := 0
		for _, e := range evs {
			if e.k.Class == clsSysex {
				n++
			}
		}
		for i, e := range evs {
			if n > 1 && e.k.Class == clsSysex { // the contents are free
				st.assumeEQ(linAddK(e.payN, 1, linConst(int64(-3-i))))
			}
			switch {
			case e.k.Name == "SequencerSpecificEvent" || e.k.Name == "SysExMessage":
				fixFirst(st, e) // a known manufacturer
			case e.k.Class == clsMeta && e.root != nil:
				e.root.Class, e.root.First = csText, csNoBl
			}
		}
	})
}
func ptrTo(t types.Type) types.Type { return types.NewPointer(t) }

func rootDesc(g Seg) string {
	if x, ok := g.(*SegSpan); ok && x.R.Fmt != nil {
		s := x.R.Name + " " + x.R.Fmt.Kind
		for _, y := range x.R.Fmt.Segs {
			s += "[" + rootDesc(y) + "]"
		}
		for _, y := range x.R.Fmt.Args {
			if z, ok := y.(*StrV); ok {
				for _, y := range z.S {
					s += "<" + segString(y) + rootDesc(y) + ">"
				}
			}
		}
		return s
	}
	return segString(g)
}
