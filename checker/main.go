// gofrecheck decides semantic properties of github.com/ixtendio/gofre from its source.
package main

import (
	"flag"
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gofrecheck check [-out DIR] [-tier T] ID... | list | dump PKG FUNC | externs")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		out := fs.String("out", ".", "directory of the evidence")
		tier := fs.String("tier", "quick", "tier")
		fs.Parse(os.Args[2:])
		ids := fs.Args()
		if len(ids) == 1 && ids[0] == "all" {
			ids = sortedKeys(specs)
		}
		os.Exit(cmdCheck(ids, repoRoot(), *out, *tier))
	case "list":
		for _, k := range sortedKeys(specs) {
			fmt.Println(k)
		}
	case "dump":
		cmdDump(os.Args[2:])
	case "externs":
		cmdExterns()
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}
