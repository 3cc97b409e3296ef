package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// C09: assembling arbitrary documents and listings never panics

func init() {
	register(&Check{ID: "C09", Shard: true,
		Rule: "Every index, slice, nil dereference, type assertion, division, make, conversion and explicit panic reachable from the JSON and text assemblers (each kind's UnmarshalJSON and UnmarshalText followed by its encoder, the event dispatchers, the header, track and file assemblers, the library types' own unmarshallers) is an obligation, discharged by abstract interpretation over a document or text about which nothing is known: every field may be absent, null, of any value or of the wrong type; every regular expression may match or not, with arbitrary groups. What is not discharged is a violation if the path condition has a concrete document.",
		Run:  runC09})
}

type asmEntry struct {
	name string
	run  func(in *Interp, st *State)
}

func (in *Interp) anyDoc(st *State) *SliceV {
	in.showDoc = true
	return in.jsonBytes(st, &JNode{Kind: "any", Path: "document"})
}

func (c *Ctx) asmEntries() []asmEntry {
	var out []asmEntry
	after := func(in *Interp, list []decoded, t types.Type) {
		for _, d := range list {
			if in.errNil(d.st, d.err) != 1 || d.st.dead {
				continue
			}
			if x := d.t; x != nil {
				in.encodeOwn(d.st, x, d.val)
			} else if t != nil {
				in.encodeOwn(d.st, t, d.val)
			}
		}
	}
	for _, k := range kinds {
		t := k.typ(c.P)
		if t == nil {
			continue
		}
		if c.P.method(t, "UnmarshalJSON") != nil {
			out = append(out, asmEntry{k.Name + " from JSON", func(in *Interp, st *State) {
				doc := in.anyDoc(st)
				after(in, in.decodeWith(st, t, "UnmarshalJSON", doc), t)
			}})
		}
		if c.P.method(t, "UnmarshalText") != nil {
			out = append(out, asmEntry{k.Name + " from text", func(in *Interp, st *State) {
				b, show := in.anyBytes(st, -1)
				in.show = []Val{show}
				after(in, in.decodeWith(st, t, "UnmarshalText", b), t)
			}})
		}
	}
	out = append(out, asmEntry{"Event from JSON", func(in *Interp, st *State) {
		in.decodeEvent(st, "UnmarshalJSON", in.anyDoc(st))
	}})
	out = append(out, asmEntry{"Event from text", func(in *Interp, st *State) {
		b, _ := in.anyBytes(st, -1)
		in.decodeEvent(st, "UnmarshalText", b)
	}})
	any := func(p string) *JNode { return &JNode{Kind: "any", Path: p} }
	obj := func(kv ...interface{}) *JNode {
		n := &JNode{Kind: "obj"}
		for i := 0; i < len(kv); i += 2 {
			n.Keys = append(n.Keys, kv[i].(string))
			n.Kids = append(n.Kids, kv[i+1].(*JNode))
		}
		return n
	}
	list := func(k ...*JNode) *JNode { return &JNode{Kind: "list", Kids: k} }
	str := func(s string) *JNode { return &JNode{Kind: "str", Str: []Seg{&SegLit{s}}} }
	num := func(n int64) *JNode { return &JNode{Kind: "num", Num: intConst(n)} }
	head := obj("tag", str("MThd"), "format", num(1), "PPQN", num(480))
	ev := func(p string) *JNode { return obj("event", any(p)) }
	for name, doc := range map[string]*JNode{
		"header":        obj("header", any("header"), "tracks", list()),
		"no header":     obj("tracks", list()),
		"no tracks":     obj("header", head),
		"null tracks":   obj("header", head, "tracks", &JNode{Kind: "null"}),
		"null header":   obj("header", &JNode{Kind: "null"}, "tracks", list()),
		"not an object": list(),
		"null":          &JNode{Kind: "null"},
		"invalid":       &JNode{Kind: "invalid"},
		"track":         obj("header", head, "tracks", list(obj("tag", any("tag"), "events", list()))),
		"null track":    obj("header", head, "tracks", list(&JNode{Kind: "null"})),
		"null event":    obj("header", head, "tracks", list(obj("tag", str("MTrk"), "events", list(&JNode{Kind: "null"})))),
		"null events":   obj("header", head, "tracks", list(obj("tag", str("MTrk"), "events", &JNode{Kind: "null"}))),
		"empty event":   obj("header", head, "tracks", list(obj("tag", str("MTrk"), "events", list(obj())))),
		"one event":     obj("header", head, "tracks", list(obj("tag", str("MTrk"), "events", list(ev("event"))))),
	} {
		out = append(out, asmEntry{"JSON document: " + name, func(in *Interp, st *State) {
			in.showDoc = true
			in.assemble(st, "JSONAssembler", in.sliceSegs(st, in.jsonBytes(st, doc)))
		}})
	}
	// files of lines of every class, in every order
	line := map[byte]string{
		'H': "MThd length:6, format:1, tracks:2, metrical time:480 ppqn",
		'h': "MThd format:7",
		'T': "MTrk 0  length:9",
		'E': "tick:0         delta:480        90 NoteOn                 channel:0  note:C4, velocity:72",
		'X': "tick:0         delta:x          nothing",
		'S': "tick:0         delta:0          F0 SysExMessage           Roland, 01 02 03",
		'N': "tick:0         delta:0          F7 SysExContinuation      04 05",
		'C': "%% comment",
		'B': "",
		'm': "MThd MTrk format:1 metrical time:96 ppqn",
		't': "%% MTrk",
		'd': "%% MThd format:1",
		'x': "x: MTrk",
		'?': "?",
	}
	var shapes []string
	var grow func(p string, n int, al string)
	grow = func(p string, n int, al string) {
		shapes = append(shapes, p)
		if n > 0 {
			for _, x := range al {
				grow(p+string(x), n-1, al)
			}
		}
	}
	grow("", 3, "HhTEXSNCB")
	grow("", 3, "mtdxHTE")
	grow("HT", 3, "HTESNX")
	grow("HTE", 3, "HTESN")
	for _, p := range []string{"?", "H?", "?H"} {
		shapes = append(shapes, p)
	}
	for _, p := range shapes {
		out = append(out, asmEntry{"lines " + p, func(in *Interp, st *State) {
			var segs []Seg
			for i, x := range p {
				if x == '?' {
					r := newSeqAtom(fmt.Sprintf("line%d", i), byteT)
					r.Class = csText
					segs = append(segs, &SegSpan{r, linConst(0), r.Len.L})
				} else {
					segs = append(segs, &SegLit{line[byte(x)]})
				}
				segs = append(segs, &SegLit{"\n"})
			}
			segs = mergeLits(segs)
			in.show = []Val{&StrV{segs}}
			in.assemble(st, "TextAssembler", segs)
		}})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func runC09(c *Ctx) {
	c.quietly = true // only what panics counts
	c.wideDocs(nil)
	c.quietly, c.onlyShape = false, nil
	for _, e := range c.asmEntries() {
		in := c.interp()
		if strings.HasPrefix(e.name, "lines") && !strings.Contains(e.name, "?") {
			in = c.trackInterp()
			in.maxStep = 400000
		}
		c.guard(e.name, in, func() {
			var stopped any
			func() {
				defer func() { stopped = recover() }()
				st := c.freshState(in)
				e.run(in, st)
			}()
			if stopped != nil {
				if _, ok := stopped.(stop); !ok {
					panic(stopped)
				}
			}
			in.stack, in.sites = nil, nil
			c.harvest(e.name, in, false)
			if stopped != nil {
				panic(stopped)
			}
			c.Pass(e.name+": analysed", fmt.Sprint(in.steps, " steps"))
		})
	}
}
