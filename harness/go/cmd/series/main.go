// Command series generates code several times in the same process, as a program
// using the packages of the generator can do, and prints what happened.
package main

import (
	"encoding/json"
	"fmt"
	"os"

	"github.com/lerenn/asyncapi-codegen/pkg/codegen"
	"github.com/lerenn/asyncapi-codegen/pkg/codegen/options"
)

type job struct {
	Inputs  []string        `json:"inputs"`
	Options options.Options `json:"options"`
}

func main() {
	var jobs []job
	if err := json.NewDecoder(os.Stdin).Decode(&jobs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	res := make([]string, len(jobs))
	for i, j := range jobs {
		cg, err := codegen.FromFile(j.Inputs[0], j.Inputs[1:]...)
		if err == nil {
			err = cg.Generate(j.Options)
		}
		if err != nil {
			res[i] = err.Error()
		}
	}
	if err := json.NewEncoder(os.Stdout).Encode(res); err != nil {
		panic(err)
	}
}
