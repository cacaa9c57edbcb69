package main

// SMT-LIB printing and live solver processes.

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

func (r SatResult) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// SolverStats are accumulated over all the workers.
type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN, Fallbacks int64
	Nanos                                      int64
	Errors                                     int64
}

func bvLit(w int, u uint64) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, u)
	}
	return fmt.Sprintf("#b%0*b", w, u)
}

func intLit(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}

func constLit(t *Term) string {
	switch t.sort.K {
	case SBool:
		if t.u == 1 {
			return "true"
		}
		return "false"
	case SInt:
		return intLit(t.k)
	case SBV:
		return bvLit(t.sort.W, t.u)
	case SFP:
		if t.sort.W == 32 {
			if f := t.f64(); f != f {
				return "(_ NaN 8 24)"
			}
			return fmt.Sprintf("(fp #b%b #b%08b #b%023b)", t.u>>31&1, t.u>>23&0xff, t.u&(1<<23-1))
		}
		if f := t.f64(); f != f {
			return "(_ NaN 11 53)"
		}
		return fmt.Sprintf("(fp #b%b #b%011b #b%052b)", t.u>>63&1, t.u>>52&0x7ff, t.u&(1<<52-1))
	}
	panic("constLit")
}

var rmNames = []string{"RNE", "RTZ", "RTP", "RTN", "RNA"}

// printer writes definitions for terms once and gives each a name.
type printer struct {
	c       *TermCtx
	defined map[int]bool
	vars    []*Term
	out     *bytes.Buffer
}

func newPrinter(c *TermCtx) *printer {
	return &printer{c: c, defined: map[int]bool{}, out: &bytes.Buffer{}}
}

func (p *printer) ref(t *Term) string {
	switch t.op {
	case OConst:
		return constLit(t)
	case OVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

func (p *printer) define(t *Term) {
	if t.op == OConst || p.defined[t.id] {
		return
	}
	p.defined[t.id] = true
	if t.op == OVar {
		fmt.Fprintf(p.out, "(declare-const |%s| %s)\n", t.name, t.sort)
		p.vars = append(p.vars, t)
		return
	}
	for _, a := range t.args {
		p.define(a)
	}
	var sb strings.Builder
	ap := func(f string) {
		sb.WriteString("(" + f)
		for _, a := range t.args {
			sb.WriteByte(' ')
			sb.WriteString(p.ref(a))
		}
		sb.WriteByte(')')
	}
	switch t.op {
	case ONot:
		ap("not")
	case OAnd:
		ap("and")
	case OOr:
		ap("or")
	case OEq:
		ap("=")
	case OIte:
		ap("ite")
	case OSum:
		sb.WriteString("(+")
		if t.k.Sign() != 0 {
			sb.WriteString(" " + intLit(t.k))
		}
		for i, a := range t.args {
			if t.coef[i].Cmp(big1) == 0 {
				sb.WriteString(" " + p.ref(a))
			} else {
				fmt.Fprintf(&sb, " (* %s %s)", intLit(t.coef[i]), p.ref(a))
			}
		}
		if len(t.args) == 1 && t.k.Sign() == 0 {
			sb.WriteString(" 0")
		}
		sb.WriteByte(')')
	case OProd:
		ap("*")
	case OIDiv:
		ap("div")
	case OLe0:
		fmt.Fprintf(&sb, "(<= %s 0)", p.ref(t.args[0]))
	case OEq0:
		fmt.Fprintf(&sb, "(= %s 0)", p.ref(t.args[0]))
	case OIAnd:
		w := t.i0 + 1
		fmt.Fprintf(&sb, "(let ((x (bvand ((_ int2bv %d) %s) ((_ int2bv %d) %s)))) (let ((n (bv2int x))) (ite (>= n %s) (- n %s) n)))",
			w, p.ref(t.args[0]), w, p.ref(t.args[1]), pow2(w-1), pow2(w))
	case OBAdd:
		ap("bvadd")
	case OBSub:
		ap("bvsub")
	case OBMul:
		ap("bvmul")
	case OBUDiv:
		ap("bvudiv")
	case OBURem:
		ap("bvurem")
	case OBSDiv:
		ap("bvsdiv")
	case OBSRem:
		ap("bvsrem")
	case OBAnd:
		ap("bvand")
	case OBOr:
		ap("bvor")
	case OBXor:
		ap("bvxor")
	case OBNot:
		ap("bvnot")
	case OBNeg:
		ap("bvneg")
	case OBShl:
		ap("bvshl")
	case OBLshr:
		ap("bvlshr")
	case OBAshr:
		ap("bvashr")
	case OBUlt:
		ap("bvult")
	case OBUle:
		ap("bvule")
	case OBSlt:
		ap("bvslt")
	case OBSle:
		ap("bvsle")
	case OBZext:
		ap(fmt.Sprintf("(_ zero_extend %d)", t.i0-t.args[0].sort.W))
	case OBSext:
		ap(fmt.Sprintf("(_ sign_extend %d)", t.i0-t.args[0].sort.W))
	case OBExtract:
		ap(fmt.Sprintf("(_ extract %d %d)", t.i0, t.i1))
	case OBV2Int:
		ap("bv2nat")
	case OSBV2Int:
		w := t.args[0].sort.W
		x := p.ref(t.args[0])
		fmt.Fprintf(&sb, "(ite (bvslt %s %s) (- (bv2nat %s) %s) (bv2nat %s))", x, bvLit(w, 0), x, pow2(w), x)
	case OInt2BV:
		ap(fmt.Sprintf("(_ int2bv %d)", t.i0))
	case OFAdd:
		ap("fp.add RNE")
	case OFSub:
		ap("fp.sub RNE")
	case OFMul:
		ap("fp.mul RNE")
	case OFDiv:
		ap("fp.div RNE")
	case OFNeg:
		ap("fp.neg")
	case OFAbs:
		ap("fp.abs")
	case OFSqrt:
		ap("fp.sqrt RNE")
	case OFRnd:
		ap("fp.roundToIntegral " + rmNames[t.i0])
	case OFEq:
		ap("fp.eq")
	case OFLt:
		ap("fp.lt")
	case OFLe:
		ap("fp.leq")
	case OFIsNaN:
		ap("fp.isNaN")
	case OFIsInf:
		ap("fp.isInfinite")
	case OFToFP, OFFromSBV:
		ap("(_ to_fp " + fpW(t.sort.W) + ") RNE")
	case OFFromUBV:
		ap("(_ to_fp_unsigned " + fpW(t.sort.W) + ") RNE")
	case OFToSBV:
		ap(fmt.Sprintf("(_ fp.to_sbv %d) RTZ", t.i0))
	case OFToUBV:
		ap(fmt.Sprintf("(_ fp.to_ubv %d) RTZ", t.i0))
	case OFFromBits:
		ap("(_ to_fp " + fpW(t.sort.W) + ")")
	default:
		panic(fmt.Sprintf("print op %d", t.op))
	}
	fmt.Fprintf(p.out, "(define-fun t%d () %s %s)\n", t.id, t.sort, sb.String())
}

func fpW(w int) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

// bounds returns the bound constraints of an Int variable.
func (c *TermCtx) boundsOf(v *Term) string {
	s := ""
	if lo := c.lo[v.id]; lo != nil {
		s += fmt.Sprintf("(assert (>= |%s| %s))\n", v.name, intLit(lo))
	}
	if hi := c.hi[v.id]; hi != nil {
		s += fmt.Sprintf("(assert (<= |%s| %s))\n", v.name, intLit(hi))
	}
	return s
}

// Solver is one live z3 process. The assertion stack mirrors the path condition.
type Solver struct {
	c       *TermCtx
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	p       *printer
	stack   []*Term
	bounded map[int]bool
	timeout time.Duration
	stats   *SolverStats
	nq      int
	dead    bool
	log     io.Writer
}

// slowLog makes queries over that time print (GOSYM_SLOW, development only).
var slowLog, _ = time.ParseDuration(os.Getenv("GOSYM_SLOW"))

func NewSolver(c *TermCtx, stats *SolverStats, timeout time.Duration) *Solver {
	s := &Solver{c: c, stats: stats, timeout: timeout}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<16)
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.p = newPrinter(s.c)
	s.stack = nil
	s.bounded = map[int]bool{}
	s.dead = false
	s.nq = 0
	fmt.Fprintf(s.p.out, "(set-option :global-declarations true)\n(set-option :timeout %d)\n(set-option :produce-models true)\n", s.timeout.Milliseconds())
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
	s.dead = true
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) flush() error {
	b := s.p.out.Bytes()
	if s.log != nil {
		s.log.Write(b)
	}
	_, err := s.in.Write(b)
	s.p.out.Reset()
	return err
}

// align makes the assertion stack equal to pc.
func (s *Solver) align(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.stack) && s.stack[n] == pc[n] {
		n++
	}
	if n < len(s.stack) {
		fmt.Fprintf(s.p.out, "(pop %d)\n", len(s.stack)-n)
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		s.p.define(t)
		fmt.Fprintf(s.p.out, "(push 1)\n(assert %s)\n", s.p.ref(t))
		s.stack = append(s.stack, t)
	}
}

// Check decides pc and extra (which may be nil). vars are the variables wanted in the model.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (SatResult, Model) {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&s.stats.Nanos, int64(time.Since(t0))) }()
	atomic.AddInt64(&s.stats.Queries, 1)
	if s.dead || s.nq > 20000 {
		s.restart()
	}
	s.nq++
	// variable bounds live at level 0
	for _, v := range vars {
		s.p.define(v)
		if !s.bounded[v.id] {
			s.bounded[v.id] = true
			if b := s.c.boundsOf(v); b != "" {
				if len(s.stack) > 0 {
					fmt.Fprintf(s.p.out, "(pop %d)\n", len(s.stack))
					s.stack = s.stack[:0]
				}
				s.p.out.WriteString(b)
			}
		}
	}
	s.align(pc)
	if extra != nil {
		s.p.define(extra)
	}
	fmt.Fprintf(s.p.out, "(push 1)\n")
	if extra != nil {
		fmt.Fprintf(s.p.out, "(assert %s)\n", s.p.ref(extra))
	}
	fmt.Fprintf(s.p.out, "(check-sat)\n(echo \"done\")\n")
	if err := s.flush(); err != nil {
		s.dead = true
		atomic.AddInt64(&s.stats.UnknownN, 1)
		return Unknown, nil
	}
	res, bad := s.readUntilDone(s.timeout + 15*time.Second)
	if bad {
		atomic.AddInt64(&s.stats.Errors, 1)
		atomic.AddInt64(&s.stats.UnknownN, 1)
		return Unknown, nil
	}
	var r SatResult
	switch strings.TrimSpace(res) {
	case "sat":
		r = Sat
	case "unsat":
		r = Unsat
	default:
		r = Unknown
	}
	var m Model
	if r == Sat {
		m = s.getModel(vars)
		if m == nil {
			r = Unknown
		}
	}
	if !s.dead {
		fmt.Fprintf(s.p.out, "(pop 1)\n")
	}
	if d := time.Since(t0); slowLog > 0 && d > slowLog {
		fmt.Fprintf(os.Stderr, "SLOW %.2fs %s\n%s\n", d.Seconds(), r, script(s.c, pc, extra, vars))
	}
	switch r {
	case Sat:
		atomic.AddInt64(&s.stats.SatN, 1)
	case Unsat:
		atomic.AddInt64(&s.stats.UnsatN, 1)
	default:
		atomic.AddInt64(&s.stats.UnknownN, 1)
	}
	return r, m
}

// readUntilDone reads output up to the "done" marker. Any error line makes the answer unusable.
func (s *Solver) readUntilDone(limit time.Duration) (string, bool) {
	type rr struct {
		s   string
		bad bool
	}
	ch := make(chan rr, 1)
	go func() {
		var sb strings.Builder
		bad := false
		for {
			line, err := s.out.ReadString('\n')
			if err != nil {
				ch <- rr{sb.String(), true}
				return
			}
			if strings.HasPrefix(line, "done") {
				break
			}
			if strings.HasPrefix(line, "(error") {
				bad = true
				if debugSolver {
					fmt.Println("SOLVER:", line)
				}
			}
			sb.WriteString(line)
		}
		ch <- rr{sb.String(), bad}
	}()
	select {
	case r := <-ch:
		if r.bad {
			s.dead = true
			s.cmd.Process.Kill()
			s.cmd.Wait()
		}
		return r.s, r.bad
	case <-time.After(limit):
		s.dead = true
		s.cmd.Process.Kill()
		s.cmd.Wait()
		return "", true
	}
}

var debugSolver = false

func (s *Solver) getModel(vars []*Term) Model {
	m := Model{}
	if len(vars) == 0 {
		return m
	}
	for i := 0; i < len(vars); i += 200 {
		chunk := vars[i:min(i+200, len(vars))]
		s.p.out.WriteString("(get-value (")
		for _, v := range chunk {
			if v.sort.K == SFP {
				panic("FP variables are declared as bit-vectors")
			}
			s.p.out.WriteString(" |" + v.name + "|")
		}
		s.p.out.WriteString("))\n(echo \"done\")\n")
		if s.flush() != nil {
			s.dead = true
			return nil
		}
		res, bad := s.readUntilDone(s.timeout + 15*time.Second)
		if bad {
			return nil
		}
		if !parseModel(res, m) {
			return nil
		}
	}
	return m
}

// parseModel reads ((|a| 1) (|b| (- 2)) (|c| #x0f) ...).
func parseModel(s string, m Model) bool {
	toks := sexpToks(s)
	pos := 0
	var parse func() interface{}
	parse = func() interface{} {
		if pos >= len(toks) {
			return nil
		}
		t := toks[pos]
		pos++
		if t == "(" {
			var l []interface{}
			for pos < len(toks) && toks[pos] != ")" {
				l = append(l, parse())
			}
			pos++
			return l
		}
		return t
	}
	top, ok := parse().([]interface{})
	if !ok {
		return false
	}
	for _, e := range top {
		l, ok := e.([]interface{})
		if !ok || len(l) != 2 {
			return false
		}
		name, _ := l[0].(string)
		name = strings.Trim(name, "|")
		v, ok := parseVal(l[1])
		if !ok {
			return false
		}
		m[name] = v
	}
	return true
}

func parseVal(x interface{}) (MVal, bool) {
	switch v := x.(type) {
	case string:
		switch {
		case v == "true":
			return MVal{U: 1}, true
		case v == "false":
			return MVal{U: 0}, true
		case strings.HasPrefix(v, "#x"):
			n, ok := new(big.Int).SetString(v[2:], 16)
			if !ok {
				return MVal{}, false
			}
			return MVal{U: n.Uint64()}, true
		case strings.HasPrefix(v, "#b"):
			n, ok := new(big.Int).SetString(v[2:], 2)
			if !ok {
				return MVal{}, false
			}
			return MVal{U: n.Uint64()}, true
		default:
			n, ok := new(big.Int).SetString(v, 10)
			return MVal{K: n}, ok
		}
	case []interface{}:
		if len(v) == 2 {
			if h, ok := v[0].(string); ok && h == "-" {
				r, ok := parseVal(v[1])
				if ok && r.K != nil {
					r.K = new(big.Int).Neg(r.K)
					return r, true
				}
			}
		}
	}
	return MVal{}, false
}

func sexpToks(s string) []string {
	var r []string
	i := 0
	for i < len(s) {
		switch ch := s[i]; {
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
			i++
		case ch == '(' || ch == ')':
			r = append(r, string(ch))
			i++
		case ch == '|':
			j := strings.IndexByte(s[i+1:], '|')
			if j < 0 {
				return r
			}
			r = append(r, s[i:i+j+2])
			i += j + 2
		default:
			j := i
			for j < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[j])) {
				j++
			}
			r = append(r, s[i:j])
			i = j
		}
	}
	return r
}

// script is one query as a stand-alone SMT-LIB text.
func script(c *TermCtx, pc []*Term, extra *Term, vars []*Term) string {
	p := newPrinter(c)
	var a strings.Builder
	for _, v := range vars {
		p.define(v)
		a.WriteString(c.boundsOf(v))
	}
	all := append([]*Term{}, pc...)
	if extra != nil {
		all = append(all, extra)
	}
	for _, t := range all {
		p.define(t)
		fmt.Fprintf(&a, "(assert %s)\n", p.ref(t))
	}
	return p.out.String() + a.String() + "(check-sat)\n"
}

// OneShot runs a portfolio of fresh solver processes on one query, first definite answer wins.
func (s *Solver) OneShot(pc []*Term, extra *Term, vars []*Term, limit time.Duration) (SatResult, Model, string) {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&s.stats.Nanos, int64(time.Since(t0))) }()
	atomic.AddInt64(&s.stats.Fallbacks, 1)
	p := newPrinter(s.c)
	hasBV, hasFP, hasInt, nonlin := false, false, false, false
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		switch t.sort.K {
		case SBV:
			hasBV = true
		case SFP:
			hasFP = true
		case SInt:
			hasInt = true
		}
		if t.op == OProd || t.op == OIDiv && !t.args[1].IsConst() {
			nonlin = true
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	all := append([]*Term{}, pc...)
	if extra != nil {
		all = append(all, extra)
	}
	for _, v := range vars {
		p.define(v)
	}
	var asserts strings.Builder
	for _, v := range vars {
		asserts.WriteString(s.c.boundsOf(v))
	}
	for _, t := range all {
		walk(t)
		p.define(t)
		fmt.Fprintf(&asserts, "(assert %s)\n", p.ref(t))
	}
	body := p.out.String() + asserts.String() + "(check-sat)\n"
	if len(vars) > 0 {
		body += "(get-value ("
		for _, v := range vars {
			body += " |" + v.name + "|"
		}
		body += "))\n"
	}
	logic := "ALL"
	if hasBV && !hasFP && !hasInt {
		logic = "QF_BV"
	} else if hasFP && !hasInt {
		logic = "QF_BVFP"
	} else if hasInt && !hasBV && !hasFP {
		logic = "QF_NIA"
		if !nonlin {
			logic = "QF_LIA"
		}
	}
	type cfg struct {
		name string
		argv []string
		pre  string
	}
	ms := int(limit.Milliseconds())
	cfgs := []cfg{
		{"z3-new", []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", ms)}, "(set-option :produce-models true)\n(set-logic " + logic + ")\n"},
		{"cvc5", []string{"cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", ms)}, "(set-logic ALL)\n"},
	}
	if logic == "QF_BV" {
		cfgs = append(cfgs, cfg{"cvc5-int", []string{"cvc5", "--lang=smt2", "--produce-models", "--solve-bv-as-int=sum", fmt.Sprintf("--tlimit=%d", ms)}, "(set-logic QF_BV)\n"})
	}
	if logic == "QF_NIA" || logic == "QF_LIA" {
		cfgs = append(cfgs, cfg{"z3-4.8", []string{"z3", "-in", "-smt2", fmt.Sprintf("-t:%d", ms)}, "(set-option :produce-models true)\n(set-logic " + logic + ")\n"})
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit+2*time.Second)
	defer cancel()
	type ans struct {
		r    SatResult
		m    Model
		name string
	}
	ch := make(chan ans, len(cfgs))
	for _, cf := range cfgs {
		go func(cf cfg) {
			cmd := exec.CommandContext(ctx, cf.argv[0], cf.argv[1:]...)
			cmd.Stdin = strings.NewReader(cf.pre + body)
			out, _ := cmd.Output()
			txt := string(out)
			line, rest, _ := strings.Cut(txt, "\n")
			a := ans{Unknown, nil, cf.name}
			switch strings.TrimSpace(line) {
			case "unsat":
				a.r = Unsat
			case "sat":
				a.r = Sat
				a.m = Model{}
				if len(vars) > 0 && (strings.Contains(rest, "(error") || !parseModel(rest, a.m)) {
					a.r = Unknown
				}
			}
			ch <- a
		}(cf)
	}
	for range cfgs {
		a := <-ch
		if a.r != Unknown {
			return a.r, a.m, a.name
		}
	}
	return Unknown, nil, ""
}
