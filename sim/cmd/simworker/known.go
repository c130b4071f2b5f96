package main

import (
	"os"
	"strings"
)

// Known is the list of recorded findings.
type Known struct{ l []knownEntry }

type knownEntry struct {
	prop, class, contains, text string
}

// readKnown reads the file of known findings.  Lines:
//
//	known: property=<id> class=<class> | contains=<text in message> | <what fails>
//	fixed: ...            (suppresses nothing)
func readKnown(file string) *Known {
	k := &Known{}
	b, err := os.ReadFile(file)
	if err != nil {
		return k
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), "|", 3)
		if len(f) != 3 {
			fatal("bad line in %s: %s", file, l)
		}
		h := strings.SplitN(strings.TrimSpace(f[0]), " class=", 2)
		if len(h) != 2 {
			fatal("bad line in %s: %s", file, l)
		}
		k.l = append(k.l, knownEntry{
			prop:     strings.TrimPrefix(h[0], "property="),
			class:    h[1],
			contains: strings.TrimPrefix(strings.TrimSpace(f[1]), "contains="),
			text:     strings.TrimSpace(f[2]),
		})
	}
	return k
}

func (k *Known) match(prop string, v *Violation) string {
	for _, e := range k.l {
		if e.prop == prop && e.class == v.Class && strings.Contains(v.Msg, e.contains) {
			return e.text
		}
	}
	return ""
}
