package props

import (
	"encoding/json"
	"fmt"
	"sort"
)

// jsonFiles lists the keys of the files in a serialised package and checks
// that every entry is filed under its own path.
func jsonFiles(b []byte) ([]string, error) {
	var d struct {
		Files map[string]struct {
			Path struct{ Pkg, Name string } `json:"path"`
		} `json:"files"`
	}
	if err := json.Unmarshal(b, &d); err != nil {
		return nil, err
	}
	var ks []string
	for k, f := range d.Files {
		if p := f.Path.Pkg + ":" + f.Path.Name; p != k {
			return nil, fmt.Errorf("entry %s has the path %s", k, p)
		}
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks, nil
}
