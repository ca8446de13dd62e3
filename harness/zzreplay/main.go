// Command zzreplay runs harnesses natively on recorded inputs.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"

	"github.com/cloudprivacylabs/lpg/v2/zzsym"
	"github.com/cloudprivacylabs/lpg/v2/zzverif"
)

type item struct {
	Harness string         `json:"harness"`
	Inputs  map[string]any `json:"inputs"`
	Params  map[string]int `json:"params"`
	Runs    int            `json:"runs"`
	ID      string         `json:"id"`
	Obs     []string       `json:"obs"`
}

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	var items []item
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(&items); err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	enc := json.NewEncoder(os.Stdout)
	for _, it := range items {
		for k, v := range it.Inputs {
			if n, ok := v.(json.Number); ok {
				i, err := n.Int64()
				if err != nil {
					fmt.Println(err)
					os.Exit(3)
				}
				it.Inputs[k] = i
			}
		}
		h := zzverif.Harnesses[it.Harness]
		if h == nil {
			fmt.Println("no harness", it.Harness)
			os.Exit(3)
		}
		runs := it.Runs
		if runs == 0 {
			runs = 1
		}
		var r zzsym.Result
		for i := 0; i < runs; i++ {
			r = zzsym.Run(h, it.Inputs, it.Params)
			if it.ID != "" {
				// looking for a failure
				if r.Status == "assert" || r.Status == "panic" {
					break
				}
			} else if r.Status != "ok" || fmt.Sprint(r.Obs) != fmt.Sprint(it.Obs) {
				break
			}
		}
		enc.Encode(r)
	}
}
