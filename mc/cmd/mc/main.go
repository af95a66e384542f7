// Command mc decides the properties by exhaustive enumeration.
//
//	mc -prop C01 -tier quick -verif /verif   explore (supervised worker process)
//	mc -replay FILE                          run one recorded case
package main

import (
	"flag"
	"fmt"
	"os"

	"verifmc/props"
	"verifmc/supervise"
)

func main() {
	o := supervise.Options{Props: props.All}
	flag.StringVar(&o.Prop, "prop", "", "property")
	flag.StringVar(&o.Tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&o.Verif, "verif", "/verif", "directory for evidence and replays")
	flag.StringVar(&o.Replay, "replay", "", "replay file")
	flag.StringVar(&o.Only, "space", "", "only this space")
	flag.Float64Var(&o.Budget, "budget", 0, "seconds (0: default of the tier)")
	flag.Parse()
	if os.Getenv("MC_DIGEST") != "" {
		fmt.Println(props.Digest())
		return
	}
	os.Exit(supervise.Main(o))
}
