//go:build vsched

package main

import (
	"encoding/json"
	"sort"
)

func excludedNames(s string) ([]string, error) {
	var fs []struct{ Filename, Reason string }
	if err := json.Unmarshal([]byte(s), &fs); err != nil {
		return nil, err
	}
	names := []string{}
	for _, f := range fs {
		names = append(names, f.Filename)
	}
	sort.Strings(names)
	return names, nil
}
