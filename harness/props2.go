package main

import "fmt"

func childModes(ctx *Ctx) {
	switch ctx.Mode {
	case "sched":
		schedChild(ctx)
	case "schedreplay":
		schedReplayChild(ctx)
	case "race":
		raceChild(ctx)
	case "fiximports":
		if err := fixImports(ctx.Repo, ctx.Arg); err != nil {
			fmt.Println(err)
			exit(2)
		}
	case "instrument", "instrument-plain":
		if err := instrument(ctx.Repo, ctx.Arg, ctx.Mode == "instrument"); err != nil {
			fmt.Println(err)
			exit(2)
		}
	}
}

func init() {
	props["P01"] = &Prop{Rule: "one operation or query executed on a shared buffer under the race detector; distinct: pair of methods run against each other, or random mix",
		Assume: []string{"the race detector reports every conflicting pair of accesses it saw that is not ordered by synchronisation; pairs are exercised, not enumerated exhaustively"},
		Run:    runP01, Child: childModes}
	props["P02"] = &Prop{Rule: "one concurrent history of operations under one schedule, decided by a linearizability checker against the implementation run alone; non-trivial when operations overlap; plus stress events under conservation monitors",
		Assume: []string{"a statement, or half of a read-modify-write statement, of the code under test is one step of a controlled schedule", "windows returned by reference are compared by length only"},
		Run:    func(ctx *Ctx) { ctx.runSchedParent(); ctx.runStress() }, Replay: replaySched, Child: childModes}
	props["P03"] = &Prop{Rule: "one operation after which (or during which, held by the client) the buffer's lock was looked at; controlled schedules and stress mixes watched for deadlock",
		Assume: []string{"the cursor lock is observed through cursor operations getting through"},
		Fn: func(ctx *Ctx) runFn {
			return func(shard int, c *Case, cov *Cov) *Viol { return runLocks(ctx, shard, c, cov) }
		},
		Run: runP03, Replay: replaySched, Child: childModes}
	props["P04"] = &Prop{Rule: "one operation on a buffer of the goroutine's own, or one positioned read or query of a shared unchanging buffer, under the race detector and compared with running alone",
		Run: runP04, Child: childModes}
}

func runP01(ctx *Ctx) {
	ctx.runRace([]string{"pairs", "mixes", "queries", "queryquery"}, func(wl string, r *raceReport) string {
		if wl == "queries" {
			for i := range r.sides {
				q, m := &r.sides[i], &r.sides[1-i]
				if q.query() && !q.write && !m.query() && ctx.knownHit("KF-B") {
					return ""
				}
				// the other stack is lost, but a query reads while something writes
				if q.query() && !q.write && m.unknown && ctx.knownHit("KF-B") {
					return ""
				}
			}
		}
		return "data race"
	})
}

func runP04(ctx *Ctx) {
	ctx.runRace([]string{"firstuse", "distinct", "readshare"}, func(wl string, r *raceReport) string {
		if wl == "distinct" || wl == "firstuse" {
			return "operations on distinct buffers race"
		}
		return "positioned reads or queries of one unchanging buffer race"
	})
	ctx.apart()
	ctx.runPagePhase("pages-read")
}
