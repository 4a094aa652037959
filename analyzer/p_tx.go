package main

import (
	"fmt"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// D01: the rows an operation writes become durable together: one auto-committed statement or one
// committed transaction per operation, nothing durable when it reports an error.
type txPlugin struct {
	p        *Prog
	findings map[string]*Finding
	writes   map[ssa.Instruction]bool
	txs      map[ssa.Instruction]bool
	cur      *ssa.Function
}

const (
	durK = "dur" // what this operation has made durable so far
)

func (l *txPlugin) Touches(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				n := callName(c.Common())
				if dbUse(n) || releaseCall(n) {
					return true
				}
			}
		}
	}
	return passesError(fn)
}

var writeSQL = regexp.MustCompile(`(?is)^\s*(with\b.*\b)?(insert|update|delete|replace)\b`)
var otherSQL = regexp.MustCompile(`(?is)^\s*(pragma|create|alter|drop|vacuum|analyze|reindex|select|attach|detach)\b`)

// bestEffort tables hold data derived from other tables; losing a write to them loses nothing.
var bestEffort = regexp.MustCompile(`(?is)\bindex_snapshots\b`)

// set-up rows that are only inserted when missing
var idempotent = regexp.MustCompile(`(?is)^\s*insert\s+or\s+ignore\b`)

// sqlOf returns the possible texts of a statement argument, holes written as «…».
func (e *Eng) sqlOf(a *Abs) []string {
	if a == nil || a.Str == nil {
		return nil
	}
	var l []string
	for _, s := range a.Str.alts {
		l = append(l, s.String())
	}
	return l
}

func isWrite(texts []string) bool {
	if len(texts) == 0 {
		return true
	}
	for _, t := range texts {
		if bestEffort.MatchString(t) || idempotent.MatchString(t) {
			continue
		}
		if !otherSQL.MatchString(t) {
			return true
		}
	}
	return false
}

// sqlArg finds the statement text among the arguments of a database/sql call.
func sqlArg(c *CallSite) *Abs {
	for i := 1; i < len(c.Args); i++ {
		if isStringType(c.ArgVals[i].Type()) {
			return c.Args[i]
		}
	}
	return nil
}

func (l *txPlugin) Call(e *Eng, fr *Frame, st *State, c *CallSite) (bool, []Outcome) {
	if !strings.HasPrefix(c.Name, "(*database/sql.") && !strings.HasPrefix(c.Name, "(database/sql.Result)") {
		return false, nil
	}
	m := c.Name[strings.LastIndexByte(c.Name, '.')+1:]
	recv := c.Args[0].Path
	val := func(v *Abs, err Tri) *Abs { return &Abs{Tup: []*Abs{v, {Nil: err}}} }
	at := strings.NewReplacer(".", "_", "[", "_").Replace(l.p.pos(c.Pos()))
	switch {
	case m == "Begin" || m == "BeginTx":
		l.txs[c.Instr] = true
		id := "tx@" + at
		bad := l.failed(st)
		st.prop[id] = "open"
		return true, []Outcome{{st: st, res: val(&Abs{Path: id, Nil: No}, Yes)}, {st: bad, res: val(&Abs{Nil: Yes}, No)}}
	case strings.HasPrefix(m, "Prepare"):
		id := "stmt(" + txID(recv) + ")"
		if isWrite(e.sqlOf(sqlArg(c))) {
			id += "w"
		}
		id += "@" + at
		return true, []Outcome{{st: st, res: val(&Abs{Path: id, Nil: No}, Yes)}, {st: l.failed(st), res: val(&Abs{Nil: Yes}, No)}}
	case m == "Stmt" || m == "StmtContext":
		if len(c.Args) > 1 && strings.HasPrefix(recv, "tx@") && strings.HasPrefix(c.Args[len(c.Args)-1].Path, "stmt(") {
			p := c.Args[len(c.Args)-1].Path
			return true, []Outcome{{st: st, res: &Abs{Nil: No, Path: "stmt(" + recv + p[strings.IndexByte(p, ')'):]}}}
		}
		return false, nil
	case strings.HasPrefix(m, "Exec"):
		tx, w := txID(recv), true
		if strings.HasPrefix(recv, "stmt(") {
			rest := recv[strings.IndexByte(recv, ')'):]
			w = strings.HasPrefix(rest, ")w")
		} else {
			w = isWrite(e.sqlOf(sqlArg(c)))
		}
		if !w {
			return true, []Outcome{{st: st, res: val(&Abs{Nil: No}, Yes)}, {st: l.failed(st), res: val(&Abs{Nil: Yes}, No)}}
		}
		l.writes[c.Instr] = true
		bad := l.failed(st)
		site := fnName(fr.fn) + " (" + l.p.pos(c.Pos()) + ")"
		if tx != "" {
			if st.prop[tx] != "" {
				st.prop[tx] = "dirty"
			}
		} else {
			for k, v := range st.prop {
				if strings.HasPrefix(k, "tx@") && v == "dirty" {
					l.report(fr, c, "outside-tx", fnName(fr.fn), "a statement writes outside the transaction that is open on this path")
				}
			}
			l.durable(fr, st, c, "the statement in "+site)
		}
		return true, []Outcome{{st: st, res: val(&Abs{Nil: No}, Yes)}, {st: bad, res: val(&Abs{Nil: Yes}, No)}}
	case m == "Commit":
		bad := l.failed(st)
		delete(bad.prop, recv)
		if st.prop[recv] == "dirty" {
			l.durable(fr, st, c, "the transaction of "+fnName(fr.fn)+" ("+l.p.pos(c.Pos())+")")
		}
		delete(st.prop, recv)
		return true, []Outcome{{st: st, res: &Abs{Nil: Yes}}, {st: bad, res: &Abs{Nil: No}}}
	case m == "Rollback":
		if st.prop[recv] == "dirty" {
			st.prop["undone"] = "1"
		}
		delete(st.prop, recv)
		return true, []Outcome{{st: st, res: &Abs{Nil: Yes}}, {st: st.clone(), res: &Abs{Nil: No}}}
	case m == "RowsAffected" || m == "LastInsertId":
		return true, []Outcome{{st: st, res: val(absUnk, Yes)}}
	case strings.HasPrefix(m, "QueryRow"):
		return false, nil
	case m == "Query" || m == "QueryContext":
		return true, []Outcome{{st: st, res: val(&Abs{Nil: No}, Yes)}, {st: l.failed(st), res: val(&Abs{Nil: Yes}, No)}}
	case c.Name == "(*database/sql.Row).Scan":
		return true, []Outcome{{st: st, res: &Abs{Nil: Yes}}, {st: st.clone(), res: &Abs{Nil: No, Tags: "err:database/sql.ErrNoRows"}}, {st: l.failed(st), res: &Abs{Nil: No}}}
	case c.Name == "(*database/sql.Rows).Scan" || c.Name == "(*database/sql.Rows).Err":
		return true, []Outcome{{st: st, res: &Abs{Nil: Yes}}, {st: l.failed(st), res: &Abs{Nil: No}}}
	}
	return false, nil
}

// failed is the state in which the current storage call fails.
func (l *txPlugin) failed(st *State) *State {
	n := st.clone()
	if n.prop[durK] != "" {
		n.prop["late"] = "1"
	}
	return n
}

func txID(recv string) string {
	if strings.HasPrefix(recv, "tx@") {
		return recv
	}
	if strings.HasPrefix(recv, "stmt(tx@") {
		return recv[5:strings.IndexByte(recv, ')')]
	}
	return ""
}

func (l *txPlugin) durable(fr *Frame, st *State, c *CallSite, what string) {
	if first := st.prop[durK]; first != "" {
		l.report(fr, c, "split", "", fmt.Sprintf("after %s has already been made durable, a second unit is: %s; a crash or failure in between leaves half of the operation", first, what))
		return
	}
	st.prop[durK] = what
}

func (l *txPlugin) report(fr *Frame, c *CallSite, rule, con, msg string) {
	con = fnName(fr.root)
	k := rule + "|" + con
	if l.findings[k] == nil {
		l.findings[k] = &Finding{Prop: "D01", Rule: rule, Construct: con, Pos: l.p.pos(c.Pos()), Msg: msg, Chain: fr.chain()}
	}
}

func (l *txPlugin) checkExits(root *ssa.Function, exits []*Exit) {
	ei := errIndex(root.Signature)
	if ei < 0 {
		return
	}
	add := func(rule, msg string) {
		k := rule + "|" + fnName(root)
		if l.findings[k] == nil {
			l.findings[k] = &Finding{Prop: "D01", Rule: rule, Construct: fnName(root), Pos: l.p.pos(root.Pos()), Msg: msg, Chain: fnName(root)}
		}
	}
	for _, x := range exits {
		if ei >= len(x.res) {
			continue
		}
		err := x.res[ei].Nil
		// a later storage failure, or any refusal after a committed transaction except "nothing matched"
		bad := x.prop["late"] != "" || strings.HasPrefix(x.prop[durK], "the transaction") && !strings.Contains(x.res[ei].Tags, ".ErrNotFound")
		if x.prop[durK] != "" && err != Yes && bad {
			add("partial", fmt.Sprintf("%s can return an error although %s is already durable", fnName(root), x.prop[durK]))
		}
		for k, v := range x.prop {
			if strings.HasPrefix(k, "tx@") && v == "dirty" {
				add("uncommitted", fmt.Sprintf("%s can return with the transaction opened at %s neither committed nor rolled back", fnName(root), k[3:]))
			}
		}
		if err != No && x.prop["undone"] != "" && x.prop[durK] == "" {
			add("lost", fmt.Sprintf("%s can report success although its transaction was rolled back", fnName(root)))
		}
	}
}

func init() {
	register("D01", func(p *Prog) *Result {
		l := &txPlugin{p: p, findings: map[string]*Finding{}, writes: map[ssa.Instruction]bool{}, txs: map[ssa.Instruction]bool{}}
		r := &Result{Counts: map[string]int{}, Minimums: map[string]int{"roots": 100, "write_statements": 20, "transactions": 6}}
		e := NewEng(p, l)
		e.keepStr = true
		n := 0
		for _, fn := range p.exportedRoots("core", "graph") {
			if strings.HasPrefix(fn.Name(), "Import") || strings.HasPrefix(fn.Name(), "Load") {
				continue // bulk imports proceed batch by batch and report what they did
			}
			n++
			l.checkExits(fn, e.RunRoot(fn, nil, nil))
		}
		r.Counts["roots"], r.Counts["write_statements"], r.Counts["transactions"], r.Counts["functions"] = n, len(l.writes), len(l.txs), len(e.visited)
		for _, k := range sortedKeys(l.findings) {
			r.add(l.findings[k])
		}
		for _, k := range sortedKeys(e.overflow) {
			r.add(&Finding{Rule: "undecided", Construct: k, Pos: "-", Msg: "state space overflow"})
		}
		return r
	})
}
