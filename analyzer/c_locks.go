package main

import (
	"fmt"
	"os"
)

func init() {
	register("C01", func(p *Prog) *Result {
		l, e, roots := runLocks(p)
		pairs, fields := l.races()
		if os.Getenv("AZ_ACC") != "" {
			for _, a := range l.accList {
				fmt.Fprintf(os.Stderr, "%s|%s|%s|%v|%s|%s|%s|%s\n", a.typ, a.via, a.field, a.write, a.held, fnName(a.fn), a.goID, a.cell)
			}
		}
		r := &Result{Counts: map[string]int{"roots": roots, "functions": len(e.visited), "accesses": len(l.accList), "conflicting_pairs": pairs, "shared_mutable_fields": fields, "lock_operations": len(l.sites)},
			Minimums: map[string]int{"roots": 300, "shared_mutable_fields": 30, "lock_operations": 100}}
		for _, k := range sortedKeys(l.findings) {
			if f := l.findings[k]; f.Prop == "C01" {
				r.add(f)
			}
		}
		for _, k := range sortedKeys(e.overflow) {
			r.add(&Finding{Rule: "undecided", Construct: k, Pos: "-", Msg: "state space overflow"})
		}
		return r
	})
	register("C02", func(p *Prog) *Result {
		l, e, roots := runLocks(p)
		l.lockCycles()
		r := &Result{Counts: map[string]int{"roots": roots, "functions": len(e.visited), "lock_operations": len(l.sites), "order_edges": len(l.edges)},
			Minimums: map[string]int{"roots": 300, "lock_operations": 100}}
		for _, k := range sortedKeys(l.edges) {
			r.Analysed = append(r.Analysed, "order: "+k)
		}
		for _, k := range sortedKeys(l.findings) {
			if f := l.findings[k]; f.Prop == "C02" {
				r.add(f)
			}
		}
		for _, k := range sortedKeys(e.overflow) {
			r.add(&Finding{Rule: "undecided", Construct: k, Pos: "-", Msg: "state space overflow"})
		}
		return r
	})
	_ = fmt.Sprint
}
