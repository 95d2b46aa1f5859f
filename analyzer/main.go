package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"time"
)

type propDef struct {
	run     func(p *Program, r *Report)
	explain string
}

var props = map[string]*propDef{}

func register(id, explain string, run func(p *Program, r *Report)) {
	props[id] = &propDef{run, explain}
}

func main() {
	prop := flag.String("property", "", "property id")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	functions := flag.Bool("functions", false, "list the functions of the module")
	names := flag.Bool("names", false, "list the unexported names of the module")
	flag.Parse()
	if *names {
		printNames(Load(*repo).Pkgs)
		return
	}
	if *functions {
		for _, f := range Load(*repo).Funcs {
			if f.Parent() == nil {
				fmt.Println(FuncName(f))
			}
		}
		return
	}
	if *prop == "all" {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		rc := 0
		var p *Program
		for _, id := range ids {
			if c := decide(id, *repo, *verif, &p); c != 0 {
				rc = 1
			}
		}
		os.Exit(rc)
	}
	if *prop == "dump-oracle" {
		dumpOracle(Load(*repo))
		return
	}
	if props[*prop] == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	var p *Program
	os.Exit(decide(*prop, *repo, *verif, &p))
}

func decide(id, repo, verif string, pp **Program) (rc int) {
	start := time.Now()
	r := NewReport(id)
	defer func() {
		if e := recover(); e != nil {
			msg := ""
			if ae, ok := e.(analysisError); ok {
				msg = ae.msg
			} else {
				msg = fmt.Sprintf("internal error: %v\n%s", e, debug.Stack())
			}
			r.Bad("undecided", "analysis", "-", "the property could not be decided on this source: "+msg)
			rc = r.Finish(verif, start, props[id])
		}
	}()
	if *pp == nil {
		*pp = Load(repo)
	}
	props[id].run(*pp, r)
	return r.Finish(verif, start, props[id])
}
