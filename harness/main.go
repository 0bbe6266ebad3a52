package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
)

func main() {
	args := os.Args[1:]
	if len(args) > 0 && args[0] == "--worker" {
		p := props[args[1]]
		seed, _ := strconv.ParseInt(args[3], 10, 64)
		k, _ := strconv.Atoi(args[4])
		n, _ := strconv.Atoi(args[5])
		start, _ := strconv.Atoi(args[6])
		end, _ := strconv.Atoi(args[7])
		workerMain(p, args[2], seed, k, n, start, end)
		return
	}
	if len(args) > 1 && args[0] == "--dbg" {
		v := ""
		if len(args) > 2 {
			v = args[2]
		}
		dbgOpen(args[1], false, v)
		return
	}
	if len(args) == 0 || args[0] == "--list" {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, props[id].Plain)
		}
		return
	}
	p := props[args[0]]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", args[0])
		os.Exit(2)
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	only := -1
	for i := 1; i < len(args); i++ {
		switch args[i] {
		case "--replay":
			b, err := os.ReadFile(args[i+1])
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			var r struct {
				Tier string
				Seed int64
				Case int
			}
			json.Unmarshal(b, &r)
			tier, seed, only = r.Tier, r.Seed, r.Case
			i++
		case "--case":
			only, _ = strconv.Atoi(args[i+1])
			i++
		case "--tier":
			tier = args[i+1]
			i++
		case "--seed":
			seed, _ = strconv.ParseInt(args[i+1], 10, 64)
			i++
		}
	}
	root, _ = filepath.Abs(root)
	os.Exit(supervise(p, tier, seed, root, only))
}
