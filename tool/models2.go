package main

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"strings"
	"unicode"
	"unicode/utf8"
)

// further standard library functions: exact on constant arguments, a bounded unknown otherwise

func init() {
	m := models
	idx := func(f func(a, b string) int) model {
		return func(c *callCtx) []callRes {
			if l, ok := c.lits(2); ok {
				return one(c.st, intConst(int64(f(l[0], l[1]))))
			}
			return c.indexApp()
		}
	}
	fpr := func(format bool) model {
		return func(c *callCtx) []callRes {
			if p, b := c.buf(0); p == nil || b == nil {
				return one(c.st, tup(intConst(0), noErr))
			}
			d := *c
			name := "fmt.Sprint"
			if format {
				name = "fmt.Sprintf"
			}
			d.args = c.args[1:]
			w := c.args[0]
			if f, ok := w.(*IfaceV); ok {
				w = f.V
			}
			var out []callRes
			for _, r := range models[name](&d) {
				s, ok := r.val.(*StrV)
				if !ok {
					out = append(out, c.havoc()...)
					continue
				}
				e := *c
				e.st = r.st
				e.args = []Val{w, s}
				out = append(out, bufWrite(&e, s.S, func(n *Lin) Val { return tup(intLin(n), noErr) })...)
			}
			return out
		}
	}
	m["fmt.Fprintf"] = fpr(true)
	m["fmt.Fprint"] = fpr(false)
	m["strings.Index"] = idx(strings.Index)
	m["strings.LastIndex"] = idx(strings.LastIndex)
	m["strings.IndexAny"] = idx(strings.IndexAny)
	m["strings.Count"] = func(c *callCtx) []callRes {
		if l, ok := c.lits(2); ok {
			return one(c.st, intConst(int64(strings.Count(l[0], l[1]))))
		}
		return c.havoc()
	}
	chr := func(f func(a string, r rune) int) model {
		return func(c *callCtx) []callRes {
			if l, ok := c.lits(1); ok {
				if n, ok := c.args[1].(*Num); ok {
					if v, ok := c.st.resolve(n).constVal(); ok {
						return one(c.st, intConst(int64(f(l[0], rune(v)))))
					}
				}
			}
			return c.indexApp()
		}
	}
	m["strings.IndexByte"] = chr(func(a string, r rune) int { return strings.IndexByte(a, byte(r)) })
	m["strings.LastIndexByte"] = chr(func(a string, r rune) int { return strings.LastIndexByte(a, byte(r)) })
	m["strings.IndexRune"] = chr(strings.IndexRune)
	m["strings.ContainsRune"] = func(c *callCtx) []callRes {
		if l, ok := c.lits(1); ok {
			if n, ok := c.args[1].(*Num); ok {
				if v, ok := c.st.resolve(n).constVal(); ok {
					return one(c.st, boolConst(strings.ContainsRune(l[0], rune(v))))
				}
			}
		}
		return c.boolApp()
	}
	m["strings.ContainsAny"] = func(c *callCtx) []callRes {
		if l, ok := c.lits(2); ok {
			return one(c.st, boolConst(strings.ContainsAny(l[0], l[1])))
		}
		return c.boolApp()
	}
	m["strings.Compare"] = func(c *callCtx) []callRes {
		if l, ok := c.lits(2); ok {
			return one(c.st, intConst(int64(strings.Compare(l[0], l[1]))))
		}
		return c.havoc()
	}
	m["strings.Split"] = func(c *callCtx) []callRes {
		if l, ok := c.lits(2); ok {
			return one(c.st, c.strSlice(strings.Split(l[0], l[1])))
		}
		return c.havoc()
	}
	m["strings.SplitN"] = func(c *callCtx) []callRes {
		if l, ok := c.lits(2); ok {
			if n, ok := c.args[2].(*Num); ok {
				if v, ok := n.constVal(); ok {
					return one(c.st, c.strSlice(strings.SplitN(l[0], l[1], int(v))))
				}
			}
		}
		return c.havoc()
	}
	m["strings.Cut"] = func(c *callCtx) []callRes {
		if l, ok := c.lits(2); ok {
			a, b, f := strings.Cut(l[0], l[1])
			return one(c.st, tup(strLit(a), strLit(b), boolConst(f)))
		}
		return c.havoc()
	}
	m["encoding/hex.EncodeToString"] = func(c *callCtx) []callRes {
		s, ok := c.args[0].(*SliceV)
		if ok {
			var b []byte
			for _, g := range c.in.normSegs(c.st, c.in.sliceSegs(c.st, s)) {
				e, is := g.(*SegElem)
				if !is {
					return c.havoc()
				}
				n, is := e.V.(*Num)
				if !is {
					return c.havoc()
				}
				v, is := c.st.resolve(n).constVal()
				if !is {
					return c.havoc()
				}
				b = append(b, byte(v))
			}
			return one(c.st, strLit(hex.EncodeToString(b)))
		}
		return c.havoc()
	}
	uni := func(f func(r rune) bool) model {
		return func(c *callCtx) []callRes {
			if n, ok := c.args[0].(*Num); ok {
				if v, ok := c.st.resolve(n).constVal(); ok {
					return one(c.st, boolConst(f(rune(v))))
				}
			}
			return c.boolApp()
		}
	}
	m["unicode.IsSpace"] = uni(unicode.IsSpace)
	m["unicode.IsDigit"] = uni(unicode.IsDigit)
	m["unicode.IsLetter"] = uni(unicode.IsLetter)
	m["unicode.IsUpper"] = uni(unicode.IsUpper)
	m["unicode/utf8.ValidString"] = func(c *callCtx) []callRes {
		if l, ok := c.lits(1); ok {
			return one(c.st, boolConst(utf8.ValidString(l[0])))
		}
		return c.boolApp()
	}
}

// indexApp: a position in the string, or -1
func (c *callCtx) indexApp() []callRes {
	s, ok := c.str(0)
	if !ok {
		return c.havoc()
	}
	k := "index:" + c.fn.String()
	for i, a := range c.args {
		if s, ok := c.str(i); ok {
			a = s
		}
		k += "|" + vkey(a)
	}
	a := internAtom(k, 64, true, func(a *Atom) {
		a.Lo, a.Hi = -1, 1<<40
		a.Name = fmt.Sprintf("index#%d", a.ID)
	})
	n := numAtom(a, 64, true)
	c.st.assumeGE(linAddK(linSub(seqLen(s.S), n.L), 1, linConst(-0)))
	return one(c.st, n)
}

func (c *callCtx) strSlice(l []string) Val {
	var segs []Seg
	for _, s := range l {
		segs = append(segs, &SegElem{strLit(s)})
	}
	return c.in.newSlice(c.st, segs, types.Typ[types.String])
}
