// Command mc is a bounded, exhaustive explorer (model checker) for kuneiform:
// it enumerates inputs, histories, schedules and faults, executes the real code
// on each, and compares every execution with a reference model.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strconv"
	"time"
)

func main() {
	args := os.Args[1:]
	if len(args) == 0 {
		fmt.Println("usage: mc check ID [quick|thorough] | mc list | mc replay FILE")
		os.Exit(2)
	}
	switch args[0] {
	case "check":
		tier := "quick"
		if len(args) > 2 {
			tier = args[2]
		}
		os.Exit(checkMain(args[1], tier))
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	case "worker":
		shard, _ := strconv.Atoi(args[3])
		n, _ := strconv.Atoi(args[4])
		limit, err := time.ParseDuration(args[7])
		must(err)
		workerMain(args[1], args[2], shard, n, args[5], args[6], limit, args[8])
	case "one":
		oneMain(args[1], args[2])
	case "replay":
		b, err := os.ReadFile(args[1])
		must(err)
		var doc struct {
			Case    Case   `json:"case"`
			Message string `json:"message"`
			History *struct {
				Tier          string
				Shard, Shards int
			} `json:"history"`
			Property string `json:"property"`
		}
		must(json.Unmarshal(b, &doc))
		if doc.History != nil {
			workerMain(doc.Property, doc.History.Tier, doc.History.Shard, doc.History.Shards, "", "/dev/stdout", time.Hour, "")
			return
		}
		v, out := runOracle(&doc.Case)
		fmt.Printf("input: %q\noutcome: %s\nviolation: %s\n", doc.Case.S, out, v)
		if v != "" {
			os.Exit(1)
		}
	default:
		if !subcommand(args) {
			fmt.Println("unknown command", args[0])
			os.Exit(2)
		}
	}
}
