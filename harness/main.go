// Command vt checks the properties of gostl by generated-input search.
package main

import (
	"fmt"
	"os"
	"strconv"

	"verifharness/pbt"
	_ "verifharness/props"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: vt list | check ID | replay FILE | needs-race ID")
		os.Exit(3)
	}
	cfg := pbt.Config{Verif: os.Getenv("VT_HOME"), Bin: os.Args[0], RaceBin: os.Getenv("VT_RACE_BIN"), CoverBin: os.Getenv("VT_COVER_BIN"),
		Tier: os.Getenv("VERIF_TIER"), Seed: 1, Scratch: os.Getenv("VT_SCRATCH")}
	if cfg.Verif == "" {
		cfg.Verif = "/verif"
	}
	if cfg.Tier != "thorough" {
		cfg.Tier = "quick"
	}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			i, err := strconv.ParseInt(s, 10, 64)
			if err != nil {
				fmt.Println("bad VERIF_SEED", s)
				os.Exit(3)
			}
			v = uint64(i)
		}
		cfg.Seed = v
	}
	switch os.Args[1] {
	case "worker":
		pbt.Worker(os.Args[2:])
	case "guided":
		pbt.ListGuided()
	case "list":
		for _, id := range pbt.IDs() {
			fmt.Println(id)
		}
	case "check":
		os.Exit(pbt.Check(cfg, os.Args[2]))
	case "replay":
		os.Exit(pbt.ReplayFile(cfg, os.Args[2]))
	case "needs-race":
		if !pbt.NeedsRace(os.Args[2]) {
			os.Exit(1)
		}
	default:
		fmt.Println("unknown command", os.Args[1])
		os.Exit(3)
	}
}
