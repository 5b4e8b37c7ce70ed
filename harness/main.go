// vh: property-based verification of MashMB/1pass.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/signal"
	"syscall"
	"testing"
)

func main() {
	testing.Init()
	// signals ignored by a caller (nohup, a shell's background job) would stay ignored in the programs under test
	for _, sig := range []os.Signal{syscall.SIGHUP, syscall.SIGINT, syscall.SIGTERM, syscall.SIGPIPE, syscall.SIGQUIT} {
		if signal.Ignored(sig) {
			signal.Notify(make(chan os.Signal, 1), sig)
		}
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh check|shard|worker|replay|list ...")
		os.Exit(2)
	}
	mode := os.Args[1]
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	var (
		prop     = fs.String("prop", "", "property id")
		tier     = fs.String("tier", "quick", "quick or thorough")
		seed     = fs.Uint64("seed", 1, "seed")
		bin      = fs.String("bin", "", "application binary")
		scratch  = fs.String("scratch", "", "scratch directory")
		verif    = fs.String("verif", "/verif", "root of the framework")
		only     = fs.String("only", "", "only this sub-check")
		shards   = fs.Int("shards", 8, "number of shards")
		shard    = fs.Int("shard", 0, "")
		nshards  = fs.Int("nshards", 1, "")
		uid      = fs.Int("uid", 0, "")
		out      = fs.String("out", "", "")
		deadline = fs.Int("deadline", 300, "seconds")
		scale    = fs.Float64("scale", 1, "multiplies the case counts")
		file     = fs.String("file", "", "replay file")
	)
	fs.Parse(os.Args[2:])
	flag.CommandLine.Parse(nil)
	switch mode {
	case "check":
		os.Exit(checkMain(&checkCfg{prop: *prop, tier: *tier, bin: *bin, scratch: *scratch, verif: *verif, only: *only,
			seed: *seed, shards: *shards, scale: *scale}))
	case "shard":
		shardMain(&shardCfg{prop: *prop, scratch: *scratch, bin: *bin, out: *out, tier: *tier, shard: *shard, nshards: *nshards,
			uid: *uid, seed: *seed, deadlineS: *deadline, only: *only, scale: *scale})
	case "worker":
		workerMain(*prop, *scratch, *bin, *uid)
	case "replay":
		r, err := readReplay(*file)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		p := registry[r.Property]
		if p == nil || p.sub(r.Sub) == nil {
			fmt.Fprintln(os.Stderr, "unknown property or sub-check")
			os.Exit(2)
		}
		w := &worker{prop: r.Property, scratch: *scratch + "/wr", bin: *bin, uid: uidBase() + 9}
		n := 3
		if p.sub(r.Sub).Racy {
			n = 60
		}
		rs := replayCase(w, p.sub(r.Sub), r.Case, n)
		w.stop()
		switch {
		case rs.Violation != "":
			fmt.Printf("%s/%s: %s\n", r.Property, r.Sub, rs.Violation)
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, *file)
			os.Exit(1)
		case rs.Infra != "":
			fmt.Fprintln(os.Stderr, rs.Infra)
			os.Exit(2)
		}
		fmt.Println("held")
	case "list":
		type info struct {
			ID        string   `json:"id"`
			Technique string   `json:"technique"`
			Rule      string   `json:"rule"`
			Assume    []string `json:"assume"`
			Subs      []string `json:"subs"`
		}
		var l []info
		for _, id := range propertyIDs() {
			p := registry[id]
			i := info{p.ID, p.Technique, p.Rule, p.Assume, nil}
			for _, s := range p.Subs {
				i.Subs = append(i.Subs, fmt.Sprintf("%s %d %d", s.Name, s.Quick, s.Thorough))
			}
			l = append(l, i)
		}
		b, _ := json.MarshalIndent(l, "", " ")
		fmt.Println(string(b))
	default:
		fmt.Fprintln(os.Stderr, "unknown mode", mode)
		os.Exit(2)
	}
}
