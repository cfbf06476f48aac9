package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strconv"
	"strings"
)

var props = map[string]*Prop{}

func reg(p *Prop) *Prop { props[p.ID] = p; return p }

func main() {
	id := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	root := flag.String("root", "/verif", "where evidence and replays go")
	bins := flag.String("bins", "", "directory with builds of the tool")
	need := flag.Bool("need", false, "print which builds of the tool the property needs")
	rep := flag.String("replay", "", "replay file")
	cases := flag.Int("cases", 0, "override number of cases")
	scratch := flag.String("scratch", "", "scratch directory")
	flag.Parse()
	p := props[*id]
	if p == nil {
		fmt.Println("unknown property", *id)
		os.Exit(2)
	}
	if *need {
		fmt.Println(strings.Join(append([]string{"vb"}, p.Bins...), " "))
		return
	}
	binDir = *bins
	scratchRoot = *scratch
	if st, err := os.Stat(scratchRoot); err != nil || !st.IsDir() {
		fmt.Println("no scratch directory")
		os.Exit(2)
	}
	if *rep != "" {
		b, err := os.ReadFile(*rep)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var r Replay
		if err := json.Unmarshal(b, &r); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		o := execCase(p, *tier, replayD(r.Seq), runFn(p, r.Fixed), true)
		for _, s := range o.c.notes {
			fmt.Println(s)
		}
		fmt.Println("case directory:", o.c.Dir)
		if o.infra != "" {
			fmt.Println("ERROR", o.infra)
			os.Exit(2)
		}
		if o.fail != "" {
			fmt.Println("violated:", o.fail)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, *rep)
			os.Exit(1)
		}
		fmt.Println("the property holds on this case")
		return
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	if *cases > 0 {
		p.Quick, p.Thorough = *cases, *cases
	}
	code := check(p, *tier, seed, *root)
	printDevs()
	os.Exit(code)
}
