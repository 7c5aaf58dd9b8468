package checks

import (
	"embed"
	"sort"
)

//go:embed corpus/*.jxl
var corpusFS embed.FS

// corpus returns copies of the project's small sample files, by name.
func corpus(names ...string) (out [][]byte) {
	if len(names) == 0 {
		es, _ := corpusFS.ReadDir("corpus")
		for _, e := range es {
			names = append(names, e.Name())
		}
		sort.Strings(names)
	}
	for _, n := range names {
		b, err := corpusFS.ReadFile("corpus/" + n)
		if err != nil {
			panic(err)
		}
		out = append(out, b)
	}
	return
}
