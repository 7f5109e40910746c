package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"sort"

	_ "github.com/qiniu/uip/db/format/awdb"
	_ "github.com/qiniu/uip/db/format/ipdb"
	_ "github.com/qiniu/uip/db/format/memip"
	_ "github.com/qiniu/uip/db/format/plain"
)

var families = map[string]func(*Ctx){}

func main() {
	c := &Ctx{}
	family := flag.String("family", "", "scenario family")
	out := flag.String("out", "", "trace file (appended)")
	scen := flag.String("scen", "", "scenarios generated by TLC")
	journal := flag.String("journal", "", "journal file: every call is written before it is made")
	flag.Int64Var(&c.seed, "seed", 1, "")
	flag.IntVar(&c.n, "n", 100, "number of random scenarios")
	flag.StringVar(&c.tier, "tier", "quick", "")
	flag.IntVar(&c.from, "from", 0, "first scenario")
	flag.IntVar(&c.only, "only", -1, "only this scenario")
	flag.StringVar(&c.work, "work", "", "scratch directory")
	flag.Parse()
	log.SetOutput(io.Discard)
	f := families[*family]
	if f == nil {
		var names []string
		for k := range families {
			names = append(names, k)
		}
		sort.Strings(names)
		fmt.Fprintln(os.Stderr, "families:", names)
		os.Exit(2)
	}
	c.family = *family
	o, err := os.OpenFile(*out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	c.w = bufio.NewWriterSize(o, 1<<16)
	if *journal != "" {
		c.journal, err = os.Create(*journal)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	if *scen != "" {
		b, err := os.ReadFile(*scen)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, line := range bytes.Split(b, []byte("\n")) {
			if len(line) == 0 {
				continue
			}
			var m M
			if err := json.Unmarshal(line, &m); err != nil {
				fmt.Fprintln(os.Stderr, "bad scenario", string(line), err)
				os.Exit(2)
			}
			c.scen = append(c.scen, m)
		}
	}
	f(c)
	c.w.Flush()
	fmt.Println("scenarios", c.idx)
}
