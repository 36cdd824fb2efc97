// Package ref holds the independent reference models: C plural expressions, catalogs, PO and MO writers.
package ref

import (
	"fmt"
	"strconv"
	"strings"
)

// Ex is a C expression over n.
type Ex struct {
	Op      string // "n", "num", "%", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "?"
	Num     uint64
	A, B, C *Ex
}

// Eval evaluates with C semantics (unsigned long n).
func (e *Ex) Eval(n uint64) uint64 {
	b := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	switch e.Op {
	case "n":
		return n
	case "num":
		return e.Num
	case "%":
		return e.A.Eval(n) % e.B.Eval(n)
	case "==":
		return b(e.A.Eval(n) == e.B.Eval(n))
	case "!=":
		return b(e.A.Eval(n) != e.B.Eval(n))
	case "<":
		return b(e.A.Eval(n) < e.B.Eval(n))
	case "<=":
		return b(e.A.Eval(n) <= e.B.Eval(n))
	case ">":
		return b(e.A.Eval(n) > e.B.Eval(n))
	case ">=":
		return b(e.A.Eval(n) >= e.B.Eval(n))
	case "&&":
		return b(e.A.Eval(n) != 0 && e.B.Eval(n) != 0)
	case "||":
		return b(e.A.Eval(n) != 0 || e.B.Eval(n) != 0)
	case "?":
		if e.A.Eval(n) != 0 {
			return e.B.Eval(n)
		}
		return e.C.Eval(n)
	}
	panic("bad op " + e.Op)
}

// Tokens of the C expression text; ok is false for characters outside the grammar.
func lex(s string) (toks []string, ok bool) {
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ':
			i++
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			toks = append(toks, s[i:j])
			i = j
		case strings.HasPrefix(s[i:], "||"), strings.HasPrefix(s[i:], "&&"), strings.HasPrefix(s[i:], "=="), strings.HasPrefix(s[i:], "!="), strings.HasPrefix(s[i:], "<="), strings.HasPrefix(s[i:], ">="):
			toks = append(toks, s[i:i+2])
			i += 2
		case strings.ContainsRune("n?:%()<>", rune(c)):
			toks = append(toks, string(c))
			i++
		default:
			return nil, false
		}
	}
	return toks, true
}

type cparser struct {
	t   []string
	i   int
	bad bool
}

func (p *cparser) peek() string {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return ""
}
func (p *cparser) bin(next func() *Ex, ops ...string) *Ex {
	l := next()
	for !p.bad {
		o := p.peek()
		hit := false
		for _, x := range ops {
			hit = hit || x == o
		}
		if !hit {
			return l
		}
		p.i++
		l = &Ex{Op: o, A: l, B: next()}
	}
	return l
}
func (p *cparser) tern() *Ex {
	c := p.or()
	if p.bad || p.peek() != "?" {
		return c
	}
	p.i++
	a := p.tern()
	if p.bad || p.peek() != ":" {
		p.bad = true
		return nil
	}
	p.i++
	b := p.tern()
	return &Ex{Op: "?", A: c, B: a, C: b}
}
func (p *cparser) or() *Ex  { return p.bin(p.and, "||") }
func (p *cparser) and() *Ex { return p.bin(p.eq, "&&") }
func (p *cparser) eq() *Ex  { return p.bin(p.rel, "==", "!=") }
func (p *cparser) rel() *Ex { return p.bin(p.mul, "<", "<=", ">", ">=") }
func (p *cparser) mul() *Ex { return p.bin(p.prim, "%") }
func (p *cparser) prim() *Ex {
	o := p.peek()
	p.i++
	switch {
	case o == "n":
		return &Ex{Op: "n"}
	case o == "(":
		e := p.tern()
		if p.bad || p.peek() != ")" {
			p.bad = true
			return nil
		}
		p.i++
		return e
	case o != "" && o[0] >= '0' && o[0] <= '9':
		v, err := strconv.ParseUint(o, 10, 63)
		if err != nil || (len(o) > 1 && o[0] == '0') {
			p.bad = true
			return nil
		}
		return &Ex{Op: "num", Num: v}
	}
	p.bad = true
	return nil
}

// ParseC parses a C expression of the plural grammar (full C precedence), nil if it is not one.
func ParseC(s string) *Ex {
	t, ok := lex(s)
	if !ok {
		return nil
	}
	p := &cparser{t: t}
	e := p.tern()
	if p.bad || p.i != len(t) {
		return nil
	}
	return e
}

// Defined reports that evaluation never takes a modulus by zero.
func (e *Ex) Defined() bool {
	if e == nil {
		return true
	}
	if e.Op == "%" && !(e.B.Op == "num" && e.B.Num != 0) {
		return false
	}
	return e.A.Defined() && e.B.Defined() && e.C.Defined()
}

// cond reports that no bare n or n%k is meant as a truth value.
func (e *Ex) cond() bool {
	switch e.Op {
	case "n":
		return false
	case "%":
		return e.A.Op != "n"
	case "&&", "||":
		return e.A.cond() && e.B.cond()
	case "?":
		return e.Plain()
	}
	return true
}

// Plain reports that all conditions are comparisons (the library gives bare n and n%k there a meaning of
// its own), so that the value is what C says.
func (e *Ex) Plain() bool {
	if e.Op == "?" {
		return e.A.cond() && e.B.value() && e.C.value()
	}
	return e.cond()
}

func (e *Ex) value() bool { return e.Op == "n" || e.Op == "%" || e.Plain() }

// Render writes the expression. style bits: 1 spaces around operators, 2 parentheses around every
// comparison, 4 parentheses around every ternary condition, 8 around the whole, 16 leading and trailing
// spaces, 32 parentheses around every ternary branch that is a ternary.
func (e *Ex) Render(style int) string {
	s := e.render(style, 0)
	if style&8 != 0 {
		s = "(" + s + ")"
	}
	if style&16 != 0 {
		s = " " + s + " "
	}
	return s
}

var prec = map[string]int{"?": 1, "||": 2, "&&": 3, "==": 4, "!=": 4, "<": 5, "<=": 5, ">": 5, ">=": 5, "%": 6, "n": 7, "num": 7}

func (e *Ex) render(st, ctx int) string {
	sp := ""
	if st&1 != 0 {
		sp = " "
	}
	var s string
	switch e.Op {
	case "n":
		return "n"
	case "num":
		return fmt.Sprint(e.Num)
	case "?":
		c := e.A.render(st, 2)
		if st&4 != 0 {
			c = "(" + c + ")"
		}
		b := e.B.render(st, 0)
		if e.B.Op == "?" { // the grammar supported wants parentheses here
			b = "(" + b + ")"
		}
		d := e.C.render(st, 1)
		if e.C.Op == "?" && st&32 != 0 {
			d = "(" + d + ")"
		}
		s = c + sp + "?" + sp + b + sp + ":" + sp + d
	default:
		p := prec[e.Op]
		l := e.A.render(st, p)
		r := e.B.render(st, p+1)
		s = l + sp + e.Op + sp + r
		if e.Op == "%" {
			s = l + sp + "%" + sp + r
		} else if p >= 4 && st&2 != 0 {
			return "(" + s + ")"
		}
	}
	if prec[e.Op] < ctx {
		s = "(" + s + ")"
	}
	return s
}

// N, Num, Bin and Tern build expressions.
func N() *Ex                      { return &Ex{Op: "n"} }
func Num(v uint64) *Ex            { return &Ex{Op: "num", Num: v} }
func Bin(op string, a, b *Ex) *Ex { return &Ex{Op: op, A: a, B: b} }
func Tern(c, a, b *Ex) *Ex        { return &Ex{Op: "?", A: c, B: a, C: b} }
func Mod(k uint64) *Ex            { return Bin("%", N(), Num(k)) }
func (e *Ex) String() string      { return e.Render(0) }

// RealRules are the plural rules of the languages of the gettext manual and of common practice.
var RealRules = []string{
	"0",
	"n != 1",
	"n > 1",
	"n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2",
	"n==1 ? 0 : n==2 ? 1 : 2",
	"n==1 ? 0 : (n==0 || (n%100 > 0 && n%100 < 20)) ? 1 : 2",
	"n%10==1 && n%100!=11 ? 0 : n%10>=2 && (n%100<10 || n%100>=20) ? 1 : 2",
	"n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2",
	"(n==1) ? 0 : (n>=2 && n<=4) ? 1 : 2",
	"n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2",
	"n%100==1 ? 0 : n%100==2 ? 1 : n%100==3 || n%100==4 ? 2 : 3",
	"n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5",
	"n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 && n%100<=99 ? 4 : 5",
	"n==1 ? 0 : n==2 ? 1 : (n != 8 && n != 11) ? 2 : 3",
	"(n==1) ? 0 : (n==2) ? 1 : (n != 8 && n != 11) ? 2 : 3",
	"n==1 ? 0 : n==2 ? 1 : n<7 ? 2 : n<11 ? 3 : 4",
	"(n==1 || n==11) ? 0 : (n==2 || n==12) ? 1 : (n > 2 && n < 20) ? 2 : 3",
	"n%10!=1 || n%100==11",
	"(n==0 ? 0 : n==1 ? 1 : 2)",
	"(n==1) ? 0 : (n==2) ? 1 : (n == 3) ? 2 : 3",
	"n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<12 || n%100>14) ? 1 : 2",
	"n==1 ? 0 : n==0 || ( n%100>1 && n%100<11) ? 1 : (n%100>10 && n%100<20 ) ? 2 : 3",
	"n==1 || n==2 || n==3 || (n%10!=4 && n%10!=6 && n%10!=9)",
	"n==1 || n%10==1 ? 0 : 1",
	"n!=0",
	"(n > 1)",
	"(n != 1)",
	"n>=2 && (n < 11 || n > 99)",
	"n == 0 || n == 1 ? 0 : n == 2 ? 1 : 2",
	"(n%100 == 1) ? 1 : (n%100 == 2) ? 2 : (n%100 == 3 || n%100 == 4) ? 3 : 0",
	"(n%10==1 && n%100!=11 && n%100!=71 && n%100!=91) ? 0 : (n%10==2 && n%100!=12 && n%100!=72 && n%100!=92) ? 1 : ((n%10==3 || n%10==4 || n%10==9) && (n%100 < 10 || n%100 > 19) && (n%100 < 70 || n%100 > 79) && (n%100 < 90 || n%100 > 99)) ? 2 : (n != 0 && n%1000000 == 0) ? 3 : 4",
}

// BoundaryN are the n at which comparisons of rules change.
func BoundaryN() []uint32 {
	var out []uint32
	for i := uint32(0); i <= 130; i++ {
		out = append(out, i)
	}
	for _, v := range []uint32{191, 192, 199, 200, 201, 202, 211, 212, 255, 256, 257, 299, 300, 999, 1000, 1001, 1002, 1011, 9999, 10000, 65535, 65536, 99999, 100000, 999999, 1000000, 1000001, 2000000, 2147483646, 2147483647, 2147483648, 2147483649, 4294967294, 4294967295} {
		out = append(out, v)
	}
	return out
}

// Tokens splits an expression of the grammar.
func Tokens(s string) []string {
	t, ok := lex(s)
	if !ok {
		panic("not lexable: " + s)
	}
	return t
}
