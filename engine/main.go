package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if len(os.Args) > 1 {
		switch os.Args[1] {
		case "check":
			os.Exit(checkMain(os.Args[2:]))
		case "replay":
			os.Exit(replayMain(os.Args[2:]))
		}
	}
	dir := flag.String("dir", "/verif/harness", "harness module")
	match := flag.String("run", "", "regexp of harness names")
	workers := flag.Int("j", 8, "workers")
	budget := flag.Duration("budget", 10*time.Minute, "wall budget")
	thorough := flag.Bool("thorough", false, "thorough tier")
	verbose := flag.Bool("v", false, "verbose")
	trace := flag.Bool("trace", false, "trace paths")
	pkgs := flag.String("pkgs", "./...", "packages")
	maxViol := flag.Int("maxviol", 4, "stop a harness after this many candidate counterexamples")
	flag.BoolVar(&debugSolver, "dbgsolver", false, "print solver errors")
	flag.Parse()
	t0 := time.Now()
	sh, err := Load(*dir, strings.Split(*pkgs, ","))
	if err != nil {
		fmt.Println("ERROR", err)
		os.Exit(2)
	}
	fmt.Printf("loaded in %v: %d harnesses\n", time.Since(t0), len(sh.harnesses))
	re := regexp.MustCompile(*match)
	var hs []*Harness
	for _, h := range sh.harnesses {
		if re.MatchString(h.Name) && (*thorough || !h.Opt.thorough) {
			hs = append(hs, h)
		}
	}
	r := &Run{sh: sh, notes: map[string]int{}, covered: map[*ssa.Function]bool{}, thorough: *thorough, verbose: *verbose, maxViol: *maxViol, trace: *trace}
	t1 := time.Now()
	r.Explore(hs, *workers, time.Now().Add(*budget))
	for _, h := range hs {
		fmt.Println(r.summary(h))
	}
	for _, n := range sortedKeys(r.notes) {
		fmt.Println("note:", n)
	}
	fmt.Printf("queries %d (sat %d unsat %d unknown %d, fallbacks %d, errors %d, bad models %d) solver %.1fs wall %.1fs\n", r.stats.Queries, r.stats.SatN, r.stats.UnsatN, r.stats.UnknownN, r.stats.Fallbacks, r.stats.Errors, r.badModels.Load(), float64(r.stats.Nanos)/1e9, time.Since(t1).Seconds())
}
