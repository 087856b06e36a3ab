package jsonschema

import (
	"encoding/json"
	"os"
	"strings"

	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// vFile writes a file of a directory.
func vFile(dir, name, text string) string {
	p := dir + "/" + name
	if i := strings.LastIndex(p, "/"); i > len(dir) {
		if err := os.MkdirAll(p[:i], 0o755); err != nil {
			panic("harness directory: " + err.Error())
		}
	}
	if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
		panic("harness file: " + err.Error())
	}
	return p
}

// vDecode parses JSON.
func vDecode(text string) any {
	var v any
	if err := json.Unmarshal([]byte(text), &v); err != nil {
		panic("harness JSON " + text + ": " + err.Error())
	}
	return v
}

// vStrings compares lists of strings without forking.
func vStrings(got, want []string) bool {
	if len(got) != len(want) {
		return false
	}
	r := true
	for i := range want {
		r = sym.And(r, got[i] == want[i])
	}
	return r
}

// vNames are the sorted keys of a map.
func vNames[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		i := len(ks)
		ks = append(ks, k)
		for i > 0 && ks[i-1] > k {
			ks[i] = ks[i-1]
			i--
		}
		ks[i] = k
	}
	return ks
}
