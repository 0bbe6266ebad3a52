package main

import (
	"fmt"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
	"github.com/batchatco/go-thrower"
)

// dbgOpen is a development aid: open and walk with the library's logging on.
func dbgOpen(path string, catch bool, v string) {
	if !catch {
		thrower.SetCatching(!thrower.Catch)
	}
	hdf5.SetLogLevel(1)
	g, err := netcdf.Open(path)
	if err != nil {
		fmt.Println("ERR", err)
		return
	}
	if v != "" {
		x, err := g.GetVariable(v)
		fmt.Println(x, err)
		return
	}
	for _, n := range g.ListVariables() {
		x, err := g.GetVariable(n)
		if err != nil {
			fmt.Println(n, err)
			continue
		}
		fmt.Printf("%s %v %.300s\n", n, x.Dimensions, canon(x.Values))
	}
	for _, k := range g.Attributes().Keys() {
		a, _ := g.Attributes().Get(k)
		fmt.Printf(":%s %.300s\n", k, canon(a))
	}
}
