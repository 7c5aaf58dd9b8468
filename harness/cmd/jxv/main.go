// Command jxv runs the monitored workloads.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"

	_ "jxverif/checks"
	"jxverif/rt"
)

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

func main() {
	if len(os.Args) < 2 {
		fmt.Println(rt.IDs())
		os.Exit(2)
	}
	seed, tier := 1, "quick"
	if s := os.Getenv("VERIF_SEED"); s != "" {
		seed = atoi(s)
	}
	if s := os.Getenv("VERIF_TIER"); s == "thorough" {
		tier = s
	}
	switch os.Args[1] {
	case "needrace":
		if c := rt.Get(os.Args[2]); c != nil && c.Race {
			os.Exit(0)
		}
		os.Exit(1)
	case "aux":
		rt.Aux[os.Args[2]](os.Stdin, os.Stdout)
	case "worker":
		rt.Worker(os.Args[2], atoi(os.Args[3]), os.Args[4], atoi(os.Args[5]), atoi(os.Args[6]))
	case "case":
		os.Exit(rt.Debug(os.Args[2], seed, tier, atoi(os.Args[3])))
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var r rt.Replay
		if err := json.Unmarshal(b, &r); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		os.Exit(rt.Debug(r.Property, r.Seed, r.Tier, r.Index))
	case "check":
		if rt.Get(os.Args[2]) == nil {
			fmt.Println("no such check", os.Args[2])
			os.Exit(2)
		}
		os.Exit(rt.Orchestrate(os.Getenv("JXV_ROOT"), os.Args[0], os.Getenv("JXV_RACE"), os.Args[2], tier, seed))
	}
}
