// Command h runs the model checks.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"

	"verif/mc"
	_ "verif/props"
)

func main() {
	a := os.Args[1:]
	if len(a) == 0 {
		os.Exit(2)
	}
	switch a[0] {
	case "worker":
		shard, _ := strconv.Atoi(a[3])
		n, _ := strconv.Atoi(a[4])
		fs, _ := strconv.Atoi(a[6])
		fi, _ := strconv.Atoi(a[7])
		skip := map[[2]int]bool{}
		for _, s := range strings.Split(a[8], ",") {
			var x, y int
			if k, _ := fmt.Sscanf(s, "%d:%d", &x, &y); k == 2 {
				skip[[2]int{x, y}] = true
			}
		}
		dl, _ := strconv.ParseInt(a[9], 10, 64)
		mc.Worker(mc.Registry[a[1]], a[2] == "thorough", shard, n, a[5], fs, fi, skip, time.Unix(dl, 0))
	case "one":
		sc, _ := strconv.Atoi(a[3])
		os.Exit(mc.One(mc.Registry[a[1]], a[2] == "thorough", sc, mc.ParseVec(a[4])))
	case "check":
		p := mc.Registry[a[1]]
		if p == nil {
			fmt.Println("unknown property", a[1])
			os.Exit(2)
		}
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		os.Exit(mc.Check(p, a[2] == "thorough", seed, a[3]))
	case "replay":
		os.Exit(mc.Replay(a[1]))
	case "size": // size ID TIER: count cases per scope without running them
		for _, sc := range mc.Registry[a[1]].Scopes(a[2] == "thorough") {
			t := time.Now()
			ts := mc.Walk(sc.Gen, func(int) bool { return false }, func(int, []int, *mc.Case) bool { return true })
			fmt.Printf("%-30s cases=%d nodes=%d pruned=%d depth=%d %.1fs\n", sc.Name, ts.Positions-ts.Pruned, ts.Nodes, ts.Pruned, ts.Depth, time.Since(t).Seconds())
		}
	case "list": // one JSON line per property, for the manifest
		for _, p := range mc.Registry {
			b, _ := json.Marshal(map[string]interface{}{"id": p.ID, "technique": p.Technique, "note": p.Note, "assumptions": p.Assumptions})
			fmt.Println(string(b))
		}
	case "nop":
	default:
		if f := mc.Commands[a[0]]; f != nil {
			os.Exit(f(a[1:]))
		}
		os.Exit(2)
	}
}
