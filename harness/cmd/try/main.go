package main

import (
	"fmt"
	"os"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/sut"
)

// try runs the given queries one after the other on one graph
func main() {
	w := sut.NewWorld()
	_ = lpg.NewGraph
	for _, q := range os.Args[1:] {
		e, err := oc.Parse(q)
		if err != nil {
			fmt.Println(q, "=> parse", err)
			continue
		}
		fmt.Println(q, "=>", w.Eval(e, w.Ctx(nil, nil)))
	}
	g, err := w.Snapshot()
	fmt.Println(g, err)
}
