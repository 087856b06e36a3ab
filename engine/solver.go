package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Solver drives one z3 process over a pipe.
type Solver struct {
	ctx      *TermCtx
	path     string
	args     []string
	timeout  int // ms per query
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	gen      int32 // generation of the process, terms remember in which one they were emitted
	defs     int
	cache    map[string]*qres
	Queries  int64
	Sat      int64
	Unsat    int64
	Unknown  int64
	CacheHit int64
	Time     time.Duration
	MaxTime  time.Duration
	Errors   []string
	every    int64 // every so many queries, the answer is compared with that of the second solver
	Second   int64 // queries given to the second solver
	Agreed   int64
	Resolved int64 // queries that only the second solver answered
	Differ   []string
	SecondT  time.Duration
}

// second asks cvc5, with a text of its own, for the queries that z3 can not answer, and as a check on its answers.
func (s *Solver) second(conj []*Term, limit int) (int, Model) {
	t0 := time.Now()
	defer func() { s.SecondT += time.Since(t0) }()
	s.Second++
	saved := map[*Term]int32{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil {
			return
		}
		if _, ok := saved[t]; ok {
			return
		}
		saved[t] = t.emitted
		t.emitted = 0
		visit(t.a)
		visit(t.b)
		visit(t.c)
	}
	for _, t := range conj {
		visit(t)
	}
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	own := &Solver{ctx: s.ctx, gen: -1}
	var vars []int32
	for _, t := range conj {
		own.emit(&sb, t)
		vars = mergeVars(vars, t.vars)
	}
	for _, t := range conj {
		sb.WriteString("(assert " + s.ref(t) + ")\n")
	}
	sb.WriteString("(check-sat)\n(get-value (")
	for _, v := range vars {
		sb.WriteString(s.ctx.byID[v].name)
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n")
	for t, e := range saved {
		t.emitted = e
	}
	cmd := exec.Command("cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", limit))
	cmd.Stdin = strings.NewReader(sb.String())
	out, _ := cmd.Output()
	ans, rest, _ := strings.Cut(string(out), "\n")
	switch strings.TrimSpace(ans) {
	case "unsat":
		return 0, nil
	case "sat":
		m := Model{}
		if len(vars) > 0 {
			if !strings.HasPrefix(rest, "((") {
				return -1, nil
			}
			parseModel(rest, m)
		}
		return 1, m
	}
	return -1, nil
}

type qres struct {
	st    int // 1 sat, 0 unsat, -1 unknown
	model Model
}

func newSolver(ctx *TermCtx, path string, args []string, timeout int) *Solver {
	return &Solver{ctx: ctx, path: path, args: args, timeout: timeout, cache: map[string]*qres{}}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.path, s.args...)
	var err error
	s.in, err = s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.gen++
	s.defs = 0
	hdr := "(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n"
	hdr += fmt.Sprintf("(set-option :timeout %d)\n", s.timeout)
	_, err = io.WriteString(s.in, hdr)
	return err
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortName(t *Term) string {
	switch t.kind {
	case KBool:
		return "Bool"
	case KBV:
		return fmt.Sprintf("(_ BitVec %d)", t.w)
	}
	if t.w == 32 {
		return "(_ FloatingPoint 8 24)"
	}
	return "(_ FloatingPoint 11 53)"
}

func bvlit(v uint64, w uint8) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w)/4, v&maskw(w))
	}
	return fmt.Sprintf("#b%0*b", int(w), v&maskw(w))
}

func fpsort(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		switch t.kind {
		case KBool:
			if t.val == 1 {
				return "true"
			}
			return "false"
		case KBV:
			return bvlit(t.val, t.w)
		default:
			return fmt.Sprintf("((_ to_fp %s) %s)", fpsort(t.w), bvlit(t.val, t.w))
		}
	case OVar:
		return t.name
	}
	return "t" + strconv.Itoa(int(t.id))
}

func (s *Solver) emit(sb *strings.Builder, t *Term) {
	if t.op == OConst || t.emitted == s.gen {
		return
	}
	t.emitted = s.gen
	s.defs++
	if t.op == OVar {
		fmt.Fprintf(sb, "(declare-fun %s () %s)\n", t.name, sortName(t))
		if t.kind == KBV {
			if t.w <= 8 {
				if t.umin > 0 {
					fmt.Fprintf(sb, "(assert (bvule %s %s))\n", bvlit(t.umin, t.w), t.name)
				}
				if t.umax < maskw(t.w) {
					fmt.Fprintf(sb, "(assert (bvule %s %s))\n", t.name, bvlit(t.umax, t.w))
				}
			} else {
				if t.smin > sminw(t.w) {
					fmt.Fprintf(sb, "(assert (bvsle %s %s))\n", bvlit(uint64(t.smin), t.w), t.name)
				}
				if t.smax < smaxw(t.w) {
					fmt.Fprintf(sb, "(assert (bvsle %s %s))\n", t.name, bvlit(uint64(t.smax), t.w))
				}
			}
		}
		return
	}
	if t.a != nil {
		s.emit(sb, t.a)
	}
	if t.b != nil {
		s.emit(sb, t.b)
	}
	if t.c != nil {
		s.emit(sb, t.c)
	}
	r := s.ref
	var body string
	b2 := func(op string) string { return "(" + op + " " + r(t.a) + " " + r(t.b) + ")" }
	switch t.op {
	case ONot:
		body = "(not " + r(t.a) + ")"
	case OAnd:
		body = b2("and")
	case OOr:
		body = b2("or")
	case OIte:
		body = "(ite " + r(t.a) + " " + r(t.b) + " " + r(t.c) + ")"
	case OEq:
		body = b2("=")
	case OAdd:
		body = b2("bvadd")
	case OSub:
		body = b2("bvsub")
	case OMul:
		body = b2("bvmul")
	case OUDiv:
		body = b2("bvudiv")
	case OSDiv:
		body = b2("bvsdiv")
	case OURem:
		body = b2("bvurem")
	case OSRem:
		body = b2("bvsrem")
	case OShl:
		body = b2("bvshl")
	case OLShr:
		body = b2("bvlshr")
	case OAShr:
		body = b2("bvashr")
	case OBAnd:
		body = b2("bvand")
	case OBOr:
		body = b2("bvor")
	case OBXor:
		body = b2("bvxor")
	case OUlt:
		body = b2("bvult")
	case OUle:
		body = b2("bvule")
	case OSlt:
		body = b2("bvslt")
	case OSle:
		body = b2("bvsle")
	case OZExt:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, r(t.a))
	case OSExt:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, r(t.a))
	case OTrunc:
		body = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, r(t.a))
	case OFAdd:
		body = fmt.Sprintf("(fp.add RNE %s %s)", r(t.a), r(t.b))
	case OFSub:
		body = fmt.Sprintf("(fp.sub RNE %s %s)", r(t.a), r(t.b))
	case OFMul:
		body = fmt.Sprintf("(fp.mul RNE %s %s)", r(t.a), r(t.b))
	case OFDiv:
		body = fmt.Sprintf("(fp.div RNE %s %s)", r(t.a), r(t.b))
	case OFNeg:
		body = "(fp.neg " + r(t.a) + ")"
	case OFEq:
		body = b2("fp.eq")
	case OFLt:
		body = b2("fp.lt")
	case OFLe:
		body = b2("fp.leq")
	case OSToF:
		body = fmt.Sprintf("((_ to_fp %s) RNE %s)", fpsort(t.w), r(t.a))
	case OUToF:
		body = fmt.Sprintf("((_ to_fp_unsigned %s) RNE %s)", fpsort(t.w), r(t.a))
	case OFToS:
		lo := fmt.Sprintf("((_ to_fp %s) RNE %s)", fpsort(t.a.w), bvlit(1<<63, 64))
		body = fmt.Sprintf("(ite (and (fp.leq %s %s) (fp.lt %s (fp.neg %s))) ((_ fp.to_sbv 64) RTZ %s) %s)", lo, r(t.a), r(t.a), lo, r(t.a), bvlit(1<<63, 64))
	case OFBits:
		body = fmt.Sprintf("((_ to_fp %s) %s)", fpsort(t.w), r(t.a))
	case ORange:
		body = r(t.a)
	case OFtoF:
		body = fmt.Sprintf("((_ to_fp %s) RNE %s)", fpsort(t.w), r(t.a))
	default:
		panic(fmt.Sprintf("emit op %d", t.op))
	}
	fmt.Fprintf(sb, "(define-fun t%d () %s %s)\n", t.id, sortName(t), body)
}

// slice returns the conjuncts of pc transitively sharing variables with extra.
func slicePC(pc []*Term, extra *Term) []*Term {
	if len(pc) == 0 {
		return nil
	}
	in := map[int32]bool{}
	for _, v := range extra.vars {
		in[v] = true
	}
	used := make([]bool, len(pc))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, t := range pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range t.vars {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, t)
				for _, v := range t.vars {
					if !in[v] {
						in[v] = true
						changed = true
					}
				}
			}
		}
	}
	return out
}

// Check decides pc ∧ extra. The model covers the variables of the relevant slice only.
func (s *Solver) Check(pc []*Term, extra *Term) (int, Model) {
	if extra.isConst() && extra.val == 0 {
		return 0, nil
	}
	rel := slicePC(pc, extra)
	ids := make([]int, 0, len(rel)+1)
	for _, t := range rel {
		ids = append(ids, int(t.id))
	}
	ids = append(ids, int(extra.id))
	sort.Ints(ids)
	var kb strings.Builder
	for _, i := range ids {
		kb.WriteString(strconv.Itoa(i))
		kb.WriteByte(',')
	}
	key := kb.String()
	if r, ok := s.cache[key]; ok {
		s.CacheHit++
		return r.st, r.model
	}
	conj := append(rel, extra)
	st, m := s.query(conj)
	if st < 0 {
		if s.Resolved > 0 || s.SecondT < 15*time.Second { // given up where it never helps
			if st, m = s.second(conj, s.timeout/2); st >= 0 {
				s.Resolved++
			}
		}
	} else if s.every > 0 && (s.Queries-1)%s.every == 0 && s.SecondT < 20*time.Second {
		switch st2, _ := s.second(conj, 2000); {
		case st2 == st:
			s.Agreed++
		case st2 >= 0:
			s.Differ = append(s.Differ, fmt.Sprintf("z3 %d, cvc5 %d", st, st2))
			st, m = -1, nil
		}
	}
	s.cache[key] = &qres{st, m}
	return st, m
}

func (s *Solver) query(conj []*Term) (int, Model) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if d > s.MaxTime {
			s.MaxTime = d
		}
	}()
	s.Queries++
	if s.cmd != nil && s.defs > 150000 {
		s.stop()
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			s.Errors = append(s.Errors, err.Error())
			s.Unknown++
			return -1, nil
		}
	}
	var sb strings.Builder
	var vars []int32
	for _, t := range conj {
		s.emit(&sb, t)
		vars = mergeVars(vars, t.vars)
	}
	// declare variables not reached (all are reached through emit)
	sb.WriteString("(push 1)\n")
	for _, t := range conj {
		sb.WriteString("(assert " + s.ref(t) + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.Errors = append(s.Errors, "write: "+err.Error())
		s.stop()
		s.Unknown++
		return -1, nil
	}
	line, err := s.readLine()
	if err != nil {
		s.Errors = append(s.Errors, "read: "+err.Error())
		s.stop()
		s.Unknown++
		return -1, nil
	}
	switch line {
	case "unsat":
		io.WriteString(s.in, "(pop 1)\n")
		s.Unsat++
		return 0, nil
	case "sat":
	case "unknown", "timeout":
		io.WriteString(s.in, "(pop 1)\n")
		s.Unknown++
		return -1, nil
	default:
		s.Errors = append(s.Errors, line)
		s.stop()
		s.Unknown++
		return -1, nil
	}
	m := Model{}
	sb.Reset()
	sb.WriteString("(get-value (")
	for _, v := range vars {
		sb.WriteString(s.ctx.byID[v].name)
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n(pop 1)\n")
	io.WriteString(s.in, sb.String())
	txt, err := s.readSexp()
	if err != nil || strings.HasPrefix(txt, "(error") {
		s.Errors = append(s.Errors, "get-value: "+txt)
		s.stop()
		s.Unknown++
		return -1, nil
	}
	parseModel(txt, m)
	s.Sat++
	return 1, m
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return sb.String(), err
		}
		if b == '(' {
			depth++
			started = true
		} else if b == ')' {
			depth--
		}
		if started {
			sb.WriteByte(b)
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

// parseModel parses ((x #x00) (b true) ...).
func parseModel(txt string, m Model) {
	toks := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt))
	for i := 0; i+1 < len(toks); i += 2 {
		v := toks[i+1]
		var u uint64
		if (v == "fp" || v == "_") && i+4 < len(toks) {
			u = modelFloat(toks[i+1 : i+5])
			m[toks[i]] = u
			i += 3
			continue
		}
		switch {
		case v == "true":
			u = 1
		case v == "false":
			u = 0
		case strings.HasPrefix(v, "#x"):
			u, _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			u, _ = strconv.ParseUint(v[2:], 2, 64)
		default:
			panic("model value " + v)
		}
		m[toks[i]] = u
	}
}

// modelFloat is the representation of a floating-point value: "fp sign exponent fraction" or "_ NaN exponent-width width".
func modelFloat(t []string) uint64 {
	if t[0] == "fp" {
		u := uint64(0)
		for _, v := range t[1:] {
			base, n := 2, len(v)-2
			if v[1] == 'x' {
				base, n = 16, 4*n
			}
			b, _ := strconv.ParseUint(v[2:], base, 64)
			u = u<<uint(n) | b
		}
		return u
	}
	eb, _ := strconv.Atoi(t[2])
	sb, _ := strconv.Atoi(t[3])
	exp := uint64(1)<<uint(eb) - 1
	switch t[1] {
	case "NaN":
		return exp<<uint(sb-1) | 1<<uint(sb-2)
	case "+oo":
		return exp << uint(sb-1)
	case "-oo":
		return (exp | 1<<uint(eb)) << uint(sb-1)
	case "-zero":
		return 1 << uint(eb+sb-1)
	case "+zero":
		return 0
	}
	panic("model value " + t[1])
}
