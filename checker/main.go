package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
)

func dumpOutcome(P *Program, i int, o *Outcome, ind string) {
	fmt.Printf("%soutcome %d %s res=%v pv=%v facts=%s\n", ind, i, o.Kind, o.Res, o.PV, o.St.facts)
	dumpEvents(P, o.Events(), ind+"  ")
	for _, t := range o.St.tasks {
		if t.Joined == nil {
			fmt.Printf("%s  unjoined task %d\n", ind, t.T.ID)
		}
	}
}

func dumpEvents(P *Program, evs []*Event, ind string) {
	for _, e := range evs {
		if (e.Kind == "ld") && os.Getenv("LD") == "" {
			continue
		}
		fmt.Printf("%s%s %s %s recv=%v args=%v res=%v ch=%d locks=%v\n", ind, P.pos(e.Pos), e.Kind, e.Name, e.Recv, e.Args, e.Res, e.Chosen, e.Locks)
		if e.Kind == "select" {
			for _, c := range e.Cases {
				fmt.Printf("%s   case send=%v %v %v\n", ind, c.Send, c.Chan, c.Val)
			}
		}
		if e.Kind == "go" || e.Kind == "parrange" {
			for j, to := range e.Task.Outs {
				dumpOutcome(P, j, to, ind+"    T ")
			}
		}
		if e.Kind == "loop" {
			fmt.Printf("%s  %s\n", ind, e.Loop)
			for j, it := range e.Loop.Iters {
				fmt.Printf("%s  iter %d next=", ind, j)
				for k, v := range it.Next {
					fmt.Printf(" %v->%v", k, v)
				}
				fmt.Println()
				dumpEvents(P, it.Events, ind+"    ")
			}
		}
	}
}

func dump(P *Program, name string, cfg Config) {
	TT = newTermTab()
	f := P.fn(name)
	if f == nil {
		fmt.Println("no function", name)
		return
	}
	in := newInterp(P.Prog, cfg)
	outs, err := in.Analyze(f, ParamTerms(f), nil, newState())
	fmt.Println(name, "outcomes", len(outs), "err", err, "steps", in.steps)
	for i, o := range outs {
		dumpOutcome(P, i, o, "  ")
	}
}

func main() {
	dir := "/repo"
	if d := os.Getenv("VERIF_REPO"); d != "" {
		dir = d
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: checker check ID... | dump FUNC... | list")
		os.Exit(1)
	}
	if os.Args[1] == "list" {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Printf("%s\t%s\t%s\n", id, checks[id].Rule, strings.Join(checks[id].Trust, "; "))
		}
		return
	}
	if f := os.Getenv("CHECKER_PROFILE"); f != "" {
		w, err := os.Create(f)
		if err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	P, err := loadProgram(dir)
	if err == nil {
		findFrozen(P)
	}
	switch os.Args[1] {
	case "dump":
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, n := range os.Args[2:] {
			cfg := Config{UserPanics: strings.Contains(os.Getenv("OPT"), "p")}
			if strings.Contains(os.Getenv("OPT"), "c") {
				cfg.Contract = parContract
			}
			if strings.Contains(os.Getenv("OPT"), "P") {
				cfg.Contract = pipeContract
			}
			if strings.Contains(os.Getenv("OPT"), "N") {
				cfg.Contract = nodeContract
			}
			dump(P, n, cfg)
		}
	case "check":
		verif := os.Getenv("VERIF_DIR")
		if verif == "" {
			verif = "/verif"
		}
		tier := os.Getenv("VERIF_TIER")
		if tier != "thorough" {
			tier = "quick"
		}
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		rc := 0
		ids := os.Args[2:]
		if len(ids) == 1 && ids[0] == "all" {
			ids = nil
			for id := range checks {
				ids = append(ids, id)
			}
			sort.Strings(ids)
		}
		for _, id := range ids {
			if r := runCheck(P, err, id, tier, verif, seed); r != 0 {
				rc = 1
			}
		}
		pprof.StopCPUProfile()
		os.Exit(rc)
	}
}
