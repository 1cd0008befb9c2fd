package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
)

var drivers = map[string]*Driver{}

func register(d *Driver) { drivers[d.ID] = d }

func main() {
	var env Env
	flag.StringVar(&env.Prop, "prop", "", "property")
	flag.StringVar(&env.Tier, "tier", "quick", "quick or thorough")
	flag.Uint64Var(&env.Seed, "seed", 1, "seed")
	flag.StringVar(&env.Scratch, "scratch", "", "scratch directory")
	flag.StringVar(&env.Bin, "bin", "", "xgen command")
	flag.StringVar(&env.Harness, "harness", "", "harness sources")
	root := flag.String("root", "", "/verif")
	isWorker := flag.Bool("worker", false, "")
	first := flag.Int("first", 0, "")
	step := flag.Int("step", 1, "")
	n := flag.Int("n", 0, "")
	dir := flag.String("dir", "", "")
	one := flag.Int("case", -1, "run one case in this process and print the result")
	sub := flag.String("sub", "", "internal sub-command")
	flag.Parse()
	if *sub != "" {
		subCommand(*sub, flag.Args())
		return
	}
	env.Self, _ = os.Executable()
	d := drivers[env.Prop]
	if d == nil {
		fmt.Println("error: unknown property", env.Prop)
		os.Exit(2)
	}
	if *isWorker {
		worker(d, &env, *first, *step, *n, *dir)
	}
	if *one >= 0 {
		wd := filepath.Join(env.Scratch, "one")
		os.MkdirAll(wd, 0o755)
		if d.Setup != nil {
			if err := d.Setup(&env); err != nil {
				fmt.Println("error:", err)
				os.Exit(2)
			}
		}
		o := runCase(d, &env, wd, *one)
		for _, v := range o.V {
			fmt.Println("VIOL:", v.Msg)
			for _, k := range sortedKeys(v.Files) {
				fmt.Printf("--- %s\n%s\n", k, v.Files[k])
			}
		}
		o.V = nil
		b, _ := json.Marshal(o)
		fmt.Println(string(b))
		return
	}
	os.Exit(orchestrate(d, &env, *root))
}
