package main

// SMT back ends: an incremental z3 process per worker, with one-shot cvc5 and
// z3 4.8 runs as fallback.

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

const prelude = `(declare-sort Str 0)
(declare-datatypes ((Ref 0) (Any 0)) (((rnil) (robj (rid Int)) (rsub (stag Int) (sbase Ref)) (rel (ebase Ref) (eidx (_ BitVec 64))) (rme (mbase Ref) (mkey Any)))
 ((mkany (atag Int) (abits (_ BitVec 64)) (aref Ref) (astr Str)))))
(declare-fun slen (Str) (_ BitVec 64))
(declare-fun sat (Str (_ BitVec 64)) (_ BitVec 8))
(declare-fun ssub (Str (_ BitVec 64) (_ BitVec 64)) Str)
(declare-fun scat (Str Str) Str)
(declare-fun age (Ref) Int)
`

var solverStats struct {
	queries, sat, unsat, unknown int64
	nanos                        int64
	byBackend                    [3]int64
}

type Solver struct {
	lite     bool // without the definitions of specification functions
	c        *Ctx
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	stack    []*Term // one level each
	lvlFacts []map[*Term]bool
	defined  map[*Term]bool
	declared map[string]bool
	litsDone map[string]bool
	factSeq  int
	log      io.Writer
	buf      bytes.Buffer
	timeout  int
	nanos    int64
}

func newSolver(c *Ctx, lite bool) *Solver {
	s := &Solver{c: c, lite: lite}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command("/usr/local/bin/z3-new", "-in", "-smt2")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		panic("cannot start z3-new: " + err.Error())
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.stack = nil
	s.lvlFacts = []map[*Term]bool{{}}
	s.defined = map[*Term]bool{}
	s.declared = map[string]bool{"slen": true, "sat": true, "age": true}
	s.litsDone = map[string]bool{}
	s.factSeq = s.c.factSeq
	s.timeout = 0
	s.buf.Reset()
	s.buf.WriteString("(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :smt.random_seed 1)\n")
	s.buf.WriteString(prelude)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) flush() {
	if s.log != nil {
		s.log.Write(s.buf.Bytes())
	}
	s.in.Write(s.buf.Bytes())
	s.buf.Reset()
}

// emitter writes declarations and definitions for terms.
type emitter struct {
	c        *Ctx
	w        *bytes.Buffer
	declared map[string]bool
	defined  map[*Term]bool
	lits     map[string]bool
}

func (e *emitter) declare(t *Term) {
	switch t.op {
	case "sym":
		if !e.declared[t.name] {
			e.declared[t.name] = true
			fmt.Fprintf(e.w, "(declare-fun |%s| () %s)\n", t.name, t.sort.smt())
		}
	case "app":
		if !e.declared[t.name] {
			e.declared[t.name] = true
			e.w.WriteString(e.c.ufs[t.name] + "\n")
		}
	case "str":
		if !e.lits[t.name] {
			e.lits[t.name] = true
			n := litName(t.name)
			fmt.Fprintf(e.w, "(declare-fun %s () Str)\n(declare-fun %s () Bool)\n", n, strings.TrimSuffix(n, "|")+"!ax|")
		}
	}
}

func (e *emitter) name(t *Term) string {
	if len(t.args) == 0 {
		e.declare(t)
		return t.print(nil)
	}
	return fmt.Sprintf("t%d", t.id)
}

// term ensures definitions for all closed compound subterms, returns its text.
func (e *emitter) term(t *Term) string {
	if len(t.args) == 0 {
		return e.name(t)
	}
	if t.open {
		as := make([]string, len(t.args))
		for i, a := range t.args {
			as[i] = e.term(a)
		}
		if t.op == "app" {
			e.declare(t)
		}
		return t.print(as)
	}
	if e.defined[t] {
		return e.name(t)
	}
	// iterative post-order to avoid deep recursion problems
	as := make([]string, len(t.args))
	for i, a := range t.args {
		as[i] = e.term(a)
	}
	if t.op == "app" {
		e.declare(t)
	}
	fmt.Fprintf(e.w, "(define-fun t%d () %s %s)\n", t.id, t.sort.smt(), t.print(as))
	e.defined[t] = true
	return e.name(t)
}

// litAxioms returns the axioms about the literals occurring in the given terms.
func (c *Ctx) litAxiom(t *Term) []*Term {
	if len(t.name) > 200 {
		return nil
	}
	var out []*Term
	raw := c.mk("app", SBV64, 0, "slen", t)
	c.ufs["slen"] = ""
	c.ufs["sat"] = ""
	out = append(out, c.mk("=", SBool, 0, "", raw, c.BVc(64, uint64(len(t.name)))))
	for i := 0; i < len(t.name); i++ {
		at := c.mk("app", SBV8, 0, "sat", t, c.BVc(64, uint64(i)))
		out = append(out, c.mk("=", SBool, 0, "", at, c.BVc(8, uint64(t.name[i]))))
	}
	return out
}

// collect walks the terms and gathers the facts (transitively) that are not in
// have; it also gathers literal axioms.
func (c *Ctx) collectFacts(ts []*Term, have func(*Term) bool, lite bool) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	added := map[*Term]bool{}
	var work []*Term
	work = append(work, ts...)
	for len(work) > 0 {
		t := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[t] {
			continue
		}
		seen[t] = true
		t.used = true
		for _, a := range t.args {
			if !seen[a] {
				work = append(work, a)
			}
		}
		add := func(f *Term) {
			if !have(f) && !added[f] {
				added[f] = true
				out = append(out, f)
				work = append(work, f)
			}
		}
		if t.op == "str" {
			for _, f := range c.litAxiom(t) {
				add(f)
			}
		}
		if t.op == "obj" && t.args[0].op == "int" {
			add(c.mk("=", SBool, 0, "", c.App("age", SInt, t), t.args[0]))
		}
		if lite && t.op == "app" && strings.HasPrefix(t.name, "spec.") && !strings.HasPrefix(t.name, "spec.def.") {
			continue
		}
		for _, f := range c.facts[t] {
			add(f)
		}
	}
	return out
}

func (s *Solver) em() *emitter {
	return &emitter{s.c, &s.buf, s.declared, s.defined, s.litsDone}
}

func (s *Solver) assertWithFacts(t *Term, extra bool) {
	have := func(f *Term) bool {
		for _, m := range s.lvlFacts {
			if m[f] {
				return true
			}
		}
		return false
	}
	fs := s.c.collectFacts([]*Term{t}, have, s.lite)
	cur := s.lvlFacts[len(s.lvlFacts)-1]
	e := s.em()
	for _, f := range fs {
		if f.open {
			continue
		}
		cur[f] = true
		n := e.term(f)
		fmt.Fprintf(&s.buf, "(assert %s)\n", n)
	}
	n := e.term(t)
	fmt.Fprintf(&s.buf, "(assert %s)\n", n)
}

func (s *Solver) push() {
	s.buf.WriteString("(push 1)\n")
	s.lvlFacts = append(s.lvlFacts, map[*Term]bool{})
}
func (s *Solver) pop(n int) {
	if n == 0 {
		return
	}
	fmt.Fprintf(&s.buf, "(pop %d)\n", n)
	s.lvlFacts = s.lvlFacts[:len(s.lvlFacts)-n]
}

// Check decides satisfiability of the conjunction of pc and extra.
func (s *Solver) Check(pc []*Term, extra []*Term, timeoutMs int) (ans string) {
	t0 := time.Now()
	defer func() {
		if traceOn {
			_, f, l, _ := runtime.Caller(1)
			_, f2, l2, _ := runtime.Caller(2)
			fmt.Fprintf(os.Stderr, "check %s %d %s:%d %s:%d\n", ans, time.Since(t0).Milliseconds(), f, l, f2, l2)
		}
		s.nanos += int64(time.Since(t0))
		atomic.AddInt64(&solverStats.nanos, int64(time.Since(t0)))
		atomic.AddInt64(&solverStats.queries, 1)
	}()
	if s.factSeq != s.c.factSeq {
		// facts were added to terms that may already be asserted
		s.pop(len(s.stack))
		s.stack = nil
		s.factSeq = s.c.factSeq
	}
	// sync stack
	k := 0
	for k < len(s.stack) && k < len(pc) && s.stack[k] == pc[k] {
		k++
	}
	s.pop(len(s.stack) - k)
	s.stack = s.stack[:k]
	for _, t := range pc[k:] {
		s.push()
		s.stack = append(s.stack, t)
		s.assertWithFacts(t, false)
	}
	if len(extra) > 0 {
		s.push()
		for _, t := range extra {
			s.assertWithFacts(t, true)
		}
	}
	if s.timeout != timeoutMs {
		fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n", timeoutMs)
		s.timeout = timeoutMs
	}
	s.buf.WriteString("(check-sat)\n")
	s.flush()
	res := s.readLine(time.Duration(timeoutMs)*time.Millisecond*2 + 3*time.Second)
	if len(extra) > 0 && s.cmd != nil && res != "dead" {
		s.pop(1)
	}
	if res == "dead" {
		s.start()
		res = "unknown"
	}
	switch res {
	case "sat":
		atomic.AddInt64(&solverStats.sat, 1)
	case "unsat":
		atomic.AddInt64(&solverStats.unsat, 1)
	default:
		atomic.AddInt64(&solverStats.unknown, 1)
	}
	return res
}

func (s *Solver) readLine(d time.Duration) string {
	type rl struct {
		l   string
		err error
	}
	ch := make(chan rl, 1)
	go func() {
		for {
			l, err := s.out.ReadString('\n')
			l = strings.TrimSpace(l)
			if err == nil && (l == "" || strings.HasPrefix(l, "unsupported") || strings.HasPrefix(l, ";")) {
				continue
			}
			ch <- rl{l, err}
			return
		}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			s.Close()
			return "dead"
		}
		if strings.HasPrefix(r.l, "(error") {
			if os.Getenv("GOVER_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "z3:", r.l)
			}
			s.Close()
			return "dead"
		}
		return r.l
	case <-time.After(d):
		s.Close()
		return "dead"
	}
}

// script renders a one-shot query.
func (c *Ctx) script(asserts []*Term, values []*Term) string {
	var b bytes.Buffer
	e := &emitter{c, &b, map[string]bool{"slen": true, "sat": true, "age": true}, map[*Term]bool{}, map[string]bool{}}
	fs := c.collectFacts(asserts, func(*Term) bool { return false }, false)
	for _, f := range append(append([]*Term{}, asserts...), fs...) {
		if f.open {
			continue
		}
		n := e.term(f)
		fmt.Fprintf(&b, "(assert %s)\n", n)
	}
	b.WriteString("(check-sat)\n")
	if len(values) > 0 {
		var names []string
		var d bytes.Buffer
		e2 := &emitter{c, &d, e.declared, e.defined, e.lits}
		for _, v := range values {
			names = append(names, e2.term(v))
		}
		txt := b.String()
		i := strings.LastIndex(txt, "(check-sat)")
		txt = txt[:i] + d.String() + "(check-sat)\n(get-value (" + strings.Join(names, " ") + "))\n"
		return prelude + txt
	}
	return prelude + b.String()
}

func runSolver(ctx context.Context, script string, argv ...string) string {
	cmd := exec.CommandContext(ctx, argv[0], argv[1:]...)
	cmd.Stdin = strings.NewReader(script)
	out, _ := cmd.CombinedOutput()
	return string(out)
}

// oneShot decides asserts in a solver process of its own.
func (c *Ctx) oneShot(asserts []*Term, timeout time.Duration) string {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&solverStats.nanos, int64(time.Since(t0))) }()
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	out := runSolver(ctx, c.script(asserts, nil), "/usr/local/bin/z3-new", "-in", "-smt2")
	return strings.TrimSpace(strings.SplitN(out, "\n", 2)[0])
}

// proveFallback tries several back ends concurrently on a one-shot script.
func (c *Ctx) proveFallback(asserts []*Term, timeout time.Duration) (string, string) {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&solverStats.nanos, int64(time.Since(t0))) }()
	script := c.script(asserts, nil)
	if d := os.Getenv("GOVER_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, time.Now().UnixNano()), []byte(script), 0o644)
	}
	logic := "(set-logic ALL)\n"
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	type res struct{ r, who string }
	ch := make(chan res, 4)
	run := func(who string, pre string, argv ...string) {
		out := runSolver(ctx, pre+script, argv...)
		first := strings.TrimSpace(strings.SplitN(out, "\n", 2)[0])
		ch <- res{first, who}
	}
	go run("z3-new", "", "/usr/local/bin/z3-new", "-in", "-smt2")
	go run("z3-new/seed", "", "/usr/local/bin/z3-new", "-in", "-smt2", "smt.random_seed=7", "smt.mbqi=false", "smt.auto_config=false")
	go run("cvc5", logic, "/usr/bin/cvc5", "--lang=smt2", "--full-saturate-quant", "-")
	go run("z3-4.8", "", "/usr/bin/z3", "-in", "-smt2")
	last := "unknown"
	for i := 0; i < 4; i++ {
		r := <-ch
		if r.r == "unsat" || r.r == "sat" {
			if r.r == "sat" && r.who == "z3-new/seed" {
				continue
			}
			return r.r, r.who
		}
		if r.r != "" {
			last = r.r
		}
	}
	return last, ""
}

// model evaluates the given terms in a model of asserts.
func (c *Ctx) model(asserts []*Term, values []*Term, timeout time.Duration) (string, []string) {
	script := "(set-option :produce-models true)\n" + c.script(asserts, values)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	out := runSolver(ctx, script, "/usr/local/bin/z3-new", "-in", "-smt2")
	nl := strings.IndexByte(out, '\n')
	if nl < 0 {
		return "unknown", nil
	}
	res := strings.TrimSpace(out[:nl])
	return res, parseValues(out[nl+1:], len(values))
}

// parseValues splits ((t v) (t v)...) into value strings.
func parseValues(s string, n int) []string {
	var out []string
	depth := 0
	start := -1
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '|':
			j := strings.IndexByte(s[i+1:], '|')
			if j >= 0 {
				i += j + 1
			}
		case '(':
			depth++
			if depth == 2 {
				start = i
			}
		case ')':
			if depth == 2 && start >= 0 {
				pair := s[start+1 : i]
				out = append(out, strings.TrimSpace(valuePart(pair)))
				start = -1
			}
			depth--
		}
	}
	return out
}

func valuePart(p string) string {
	p = strings.TrimSpace(p)
	depth := 0
	for i := 0; i < len(p); i++ {
		switch p[i] {
		case '|':
			j := strings.IndexByte(p[i+1:], '|')
			if j >= 0 {
				i += j + 1
			}
		case '(':
			depth++
		case ')':
			depth--
		}
		if depth == 0 && i+1 < len(p) && (p[i+1] == ' ' || p[i+1] == '\n') {
			return p[i+1:]
		}
	}
	return p
}

func sortedTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}
