// Command ferrysim runs ferryd under deterministic simulation and decides its properties.
package main

import (
	"flag"
	"fmt"
	stdos "os"
	"strings"

	"verif.local/sim/rt"
)

func usage() {
	fmt.Fprintln(stdos.Stderr, "usage: ferrysim run|plan|replay|check|worker|hash ...")
	stdos.Exit(2)
}

func main() {
	if len(stdos.Args) < 2 {
		usage()
	}
	cmd, args := stdos.Args[1], stdos.Args[2:]
	warmUp()
	rt.AllTrace = stdos.Getenv("FERRYSIM_TRACE") != ""
	switch cmd {
	case "run", "plan":
		fs := flag.NewFlagSet(cmd, flag.ExitOnError)
		profile := fs.String("profile", "ops", "")
		seed := fs.Uint64("seed", 1, "")
		n := fs.Uint64("n", 1, "number of seeds")
		v := fs.Bool("v", false, "trace")
		prop := fs.String("prop", "", "focus")
		ex := fs.Int("x", 2, "examples of each kind")
		each := fs.Bool("each", false, "a line for each seed")
		keep := fs.Bool("k", false, "keep going")
		kf := fs.String("kf", "/verif/known-findings.json", "")
		fs.Parse(args)
		loadKF(*kf)
		if cmd == "plan" {
			fmt.Println(jsonText(makePlan(*prop, *profile, *seed)))
			return
		}
		sum := map[string]int{}
		bad := 0
		kinds := map[string]int{}
		for s := *seed; s < *seed+*n; s++ {
			res := execute(makePlan(*prop, *profile, s), runOpts{trace: *v})
			sum[res.Reason]++
			if res.Status != "" {
				sum["status:"+strings.SplitN(res.Status, ":", 2)[0]]++
			}
			for k := range res.KF {
				sum["kf:"+k]++
			}
			for k, x := range res.Stats {
				sum["stat:"+k] += x
			}
			if *v {
				for _, l := range res.Trace {
					fmt.Println(l)
				}
			}
			if res.Viol != nil {
				bad++
				if kinds[res.Viol.Kind]++; kinds[res.Viol.Kind] <= *ex {
					m := strings.ReplaceAll(res.Viol.Msg, "\n", " | ")
					if len(m) > 360 && !*v {
						m = m[:360]
					}
					fmt.Printf("seed %d: %v %v %s: %s\n", s, res.Viol.Tags, res.Viol.Ctx, res.Viol.Kind, m)
				}
				if !*keep {
					break
				}
			}
			if res.Fatal != "" {
				fmt.Printf("seed %d: FATAL %s\n", s, res.Fatal)
				break
			}
			if *n == 1 || *each {
				fmt.Printf("seed %d: %s %s hash %x steps %d yields %d sim %.1fs wall %v kf %v\n", s, res.Reason, res.Status, res.Hash, res.Steps, res.Yields, float64(res.Sim)/1e9, res.Wall, res.KF)
			}
		}
		fmt.Println(bad, "violations", kinds)
		for _, k := range sortedKeys(sum) {
			fmt.Printf("  %s %d\n", k, sum[k])
		}
	case "replay":
		fs := flag.NewFlagSet(cmd, flag.ExitOnError)
		v := fs.Bool("v", false, "trace")
		kf := fs.String("kf", "/verif/known-findings.json", "")
		fs.Parse(args)
		loadKF(*kf)
		if fs.NArg() != 1 {
			usage()
		}
		stdos.Exit(replayFile(fs.Arg(0), *v))
	case "minimise":
		stdos.Exit(minimiseMain(args))
	case "worker":
		workerMain(args)
	case "check":
		stdos.Exit(checkMain(args))
	default:
		usage()
	}
}
