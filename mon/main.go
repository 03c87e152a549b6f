// Command mon runs the runtime monitors for github.com/bodgit/sevenzip.
//
//	mon run <property> -tier quick|thorough -seed N -verif DIR -repo DIR
//	mon replay <file>
//	mon worker ...   (internal)
package main

import (
	"fmt"
	"os"

	"verif/mon/core"

	_ "verif/mon/props"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mon run|worker|replay|list ...")
		os.Exit(2)
	}

	os.Exit(core.Main(os.Args[1], os.Args[2:]))
}
