// check decides one property: it runs its cases in worker processes and reports.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"

	_ "verif/harness/checks"
	"verif/harness/fw"
)

func main() {
	mode := flag.String("mode", "main", "main, worker, known, replay or list")
	id := flag.String("id", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	from := flag.Int("from", 0, "")
	step := flag.Int("step", 1, "")
	to := flag.Int("to", 0, "")
	verif := flag.String("verif", "/verif", "directory of the framework")
	replay := flag.String("replay", "", "replay file")
	flag.Parse()
	fw.Verif = *verif
	if *mode == "list" {
		for _, id := range fw.IDs() {
			fmt.Println(id)
		}
		return
	}
	ck := fw.Registry[*id]
	if ck == nil {
		fmt.Println("ERROR no such check", *id)
		os.Exit(3)
	}
	switch *mode {
	case "main":
		os.Exit(fw.Main(ck, *tier, *seed, *verif))
	case "worker":
		fw.Worker(ck, *tier, *seed, *from, *step, *to, nil)
	case "known":
		findings, err := fw.LoadFindings(*verif, *id)
		if err != nil {
			panic(err)
		}
		fw.Worker(ck, *tier, *seed, *from, *step, *to, findings)
	case "replay":
		var r struct {
			Tier string
			Seed int64
			Case int
		}
		b, err := os.ReadFile(*replay)
		if err == nil {
			err = json.Unmarshal(b, &r)
		}
		if err != nil {
			fmt.Println("ERROR", err)
			os.Exit(3)
		}
		os.Exit(fw.Replay(ck, r.Tier, r.Seed, *verif, r.Case, *replay))
	}
}
