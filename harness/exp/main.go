package main

import (
	"fmt"

	"github.com/initia-labs/minievm/verifkit"
)

func main() {
	c := verifkit.NewChain(verifkit.Config{})
	c.Block()
	ex, err := c.App.ExportAppStateAndValidators(false, nil, nil)
	fmt.Println(err, len(ex.AppState))
	d := verifkit.NewChain(verifkit.Config{RawGenesis: ex.AppState})
	fmt.Println(d.Bal(d.Accs[0].Acc, "uusdc"), c.Bal(c.Accs[0].Acc, "uusdc"))
}
