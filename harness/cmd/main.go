package main

import (
	"encoding/json"
	"os"

	"verif/harness/props"
	"verif/harness/sym"
)

func main() {
	if len(os.Args) < 3 {
		os.Exit(9)
	}
	switch os.Args[1] {
	case "-list":
		json.NewEncoder(os.Stdout).Encode(props.Jobs(os.Args[2], os.Args[3]))
	case "-run":
		sym.Run(os.Args[2], props.Registry)
	}
}
