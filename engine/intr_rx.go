package main

import (
	"regexp"
	"regexp/syntax"
	"strconv"
	"sync"
	"unicode"
)

var rxProgs sync.Map

func rxProg(re *regexp.Regexp) *syntax.Prog {
	if p, ok := rxProgs.Load(re.String()); ok {
		return p.(*syntax.Prog)
	}
	r, err := syntax.Parse(re.String(), syntax.Perl)
	if err != nil {
		panic(unsupported("regexp " + re.String()))
	}
	p, err := syntax.Compile(r.Simplify())
	if err != nil {
		panic(unsupported("regexp " + re.String()))
	}
	rxProgs.Store(re.String(), p)
	return p
}

// rxByte is the condition that one ASCII byte matches a rune instruction.
func (in *Interp) rxByte(i *syntax.Inst, x Value) Value {
	if c, ok := x.(uint64); ok {
		return i.MatchRune(rune(c))
	}
	res := in.tc.tFalse
	t := x.(*Term)
	lo := -1
	for c := 0; c <= 128; c++ {
		m := c < 128 && uint64(c) >= t.umin && uint64(c) <= t.umax && i.MatchRune(rune(c))
		if m && lo < 0 {
			lo = c
		}
		if !m && lo >= 0 {
			res = in.tc.Or(res, in.inRange(x, uint64(lo), uint64(c-1)))
			lo = -1
		}
	}
	return simp(res)
}

// rxRun is the leftmost-first backtracking matcher over bytes that are known to be ASCII; symbolic bytes fork the path.
func (in *Interp) rxRun(prog *syntax.Prog, s []Value, start int, ncap int) []int {
	isWord := func(i int) bool {
		if i < 0 || i >= len(s) {
			return false
		}
		c := in.concByte(s[i])
		return syntax.IsWordChar(rune(c))
	}
	isNL := func(i int) bool { return in.truth(simp(in.byteEq(s[i], uint64('\n')))) }
	for p0 := start; p0 <= len(s); p0++ {
		visited := map[[2]int]bool{}
		caps := make([]int, ncap)
		for i := range caps {
			caps[i] = -1
		}
		var run func(pc uint32, pos int) bool
		run = func(pc uint32, pos int) bool {
			k := [2]int{int(pc), pos}
			if visited[k] {
				return false
			}
			visited[k] = true
			in.steps++
			i := &prog.Inst[pc]
			switch i.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				return run(i.Out, pos) || run(i.Arg, pos)
			case syntax.InstCapture:
				if int(i.Arg) < ncap {
					old := caps[i.Arg]
					caps[i.Arg] = pos
					if run(i.Out, pos) {
						return true
					}
					caps[i.Arg] = old
					return false
				}
				return run(i.Out, pos)
			case syntax.InstEmptyWidth:
				ok := true
				e := syntax.EmptyOp(i.Arg)
				if e&syntax.EmptyBeginText != 0 && pos != 0 || e&syntax.EmptyEndText != 0 && pos != len(s) {
					ok = false
				}
				if ok && e&syntax.EmptyBeginLine != 0 && pos != 0 && !isNL(pos-1) {
					ok = false
				}
				if ok && e&syntax.EmptyEndLine != 0 && pos != len(s) && !isNL(pos) {
					ok = false
				}
				if ok && e&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
					wb := isWord(pos-1) != isWord(pos)
					if wb != (e&syntax.EmptyWordBoundary != 0) {
						ok = false
					}
				}
				return ok && run(i.Out, pos)
			case syntax.InstMatch:
				caps[1] = pos
				return true
			case syntax.InstFail:
				return false
			case syntax.InstNop:
				return run(i.Out, pos)
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				if pos >= len(s) || !in.truth(in.rxByte(i, s[pos])) {
					return false
				}
				return run(i.Out, pos+1)
			}
			panic(unsupported("regexp instruction"))
		}
		caps[0] = p0
		if run(uint32(prog.Start), p0) {
			caps[0] = p0
			return caps
		}
	}
	return nil
}

func (in *Interp) concByte(x Value) uint64 {
	if t, ok := x.(*Term); ok {
		return in.concTerm(t)
	}
	return x.(uint64)
}

// rxASCII makes sure that every byte is ASCII, concretising the others.
func (in *Interp) rxASCII(s []Value) bool {
	for _, x := range s {
		if t, ok := x.(*Term); ok {
			if t.umax >= 0x80 && in.decide(in.tc.Not(in.inRange(t, 0, 0x7f))) {
				return false
			}
		} else if x.(uint64) >= 0x80 {
			return false
		}
	}
	return true
}

func (in *Interp) rxMatch(re *regexp.Regexp, s []Value) Value {
	if !in.rxASCII(s) {
		return re.MatchString(in.concStr(mkStr(s)))
	}
	return in.rxRun(rxProg(re), s, 0, 2) != nil
}

func (in *Interp) rxSubmatch(re *regexp.Regexp, s []Value) Value {
	if !in.rxASCII(s) {
		r := re.FindStringSubmatch(in.concStr(mkStr(s)))
		if r == nil {
			return SliceV(nil)
		}
		return strVals(r)
	}
	caps := in.rxRun(rxProg(re), s, 0, 2*(1+re.NumSubexp()))
	if caps == nil {
		return SliceV(nil)
	}
	out := make(SliceV, len(caps)/2)
	for i := range out {
		if caps[2*i] < 0 || caps[2*i+1] < 0 {
			out[i] = ""
			continue
		}
		out[i] = mkStr(s[caps[2*i]:caps[2*i+1]])
	}
	return out
}

func (in *Interp) rxReplace(re *regexp.Regexp, sv, rv Value, expand bool) Value {
	repl := in.concStr(rv)
	if s, ok := sv.(string); ok {
		if expand {
			return re.ReplaceAllString(s, repl)
		}
		return re.ReplaceAllLiteralString(s, repl)
	}
	s := sv.(*SymStr).b
	if !in.rxASCII(s) {
		return in.rxReplace(re, in.concStr(sv), rv, expand)
	}
	prog := rxProg(re)
	ncap := 2 * (1 + re.NumSubexp())
	var out []Value
	last, pos := 0, 0
	for pos <= len(s) {
		caps := in.rxRun(prog, s, pos, ncap)
		if caps == nil {
			break
		}
		out = append(out, s[last:caps[0]]...)
		if caps[1] > last || caps[0] == 0 {
			if expand {
				out = append(out, rxExpand(re, repl, s, caps)...)
			} else {
				out = append(out, strBytes(repl)...)
			}
		}
		last = caps[1]
		if pos+1 > caps[1] {
			pos++
		} else {
			pos = caps[1]
		}
	}
	out = append(out, s[last:]...)
	return mkStr(out)
}

func rxExpand(re *regexp.Regexp, tmpl string, s []Value, caps []int) []Value {
	var out []Value
	for i := 0; i < len(tmpl); {
		if tmpl[i] != '$' {
			out = append(out, uint64(tmpl[i]))
			i++
			continue
		}
		if i+1 < len(tmpl) && tmpl[i+1] == '$' {
			out = append(out, uint64('$'))
			i += 2
			continue
		}
		j := i + 1
		brace := j < len(tmpl) && tmpl[j] == '{'
		if brace {
			j++
		}
		k := j
		for k < len(tmpl) && (tmpl[k] == '_' || unicode.IsLetter(rune(tmpl[k])) || unicode.IsDigit(rune(tmpl[k]))) {
			k++
		}
		if k == j || brace && (k >= len(tmpl) || tmpl[k] != '}') {
			out = append(out, uint64('$'))
			i++
			continue
		}
		name := tmpl[j:k]
		i = k
		if brace {
			i++
		}
		n, err := strconv.Atoi(name)
		if err != nil {
			n = re.SubexpIndex(name)
		}
		if n >= 0 && 2*n+1 < len(caps) && caps[2*n] >= 0 {
			out = append(out, s[caps[2*n]:caps[2*n+1]]...)
		}
	}
	return out
}
