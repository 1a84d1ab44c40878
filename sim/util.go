package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
)

func stack() string {
	var keep []string
	lines := strings.Split(string(debug.Stack()), "\n")
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i+1]
		if strings.HasPrefix(l, "\t") && strings.Contains(l, "/gen/") {
			keep = append(keep, strings.TrimSpace(l))
		}
	}
	if len(keep) > 8 {
		keep = keep[:8]
	}
	return strings.Join(keep, "\n")
}

var siteTable []string

func loadSites() {
	exe, err := os.Executable()
	if err != nil {
		return
	}
	b, err := os.ReadFile(filepath.Join(filepath.Dir(exe), "gen", "sites.json"))
	if err == nil {
		json.Unmarshal(b, &siteTable)
	}
}

var siteRE = regexp.MustCompile(`site (-?\d+)`)

// where replaces site numbers by places in the source.
func where(s string) string {
	return siteRE.ReplaceAllStringFunc(s, func(m string) string {
		n, _ := strconv.Atoi(m[5:])
		if n > 0 && n < len(siteTable) {
			return siteTable[n]
		}
		return "a lock or map operation"
	})
}

var patCache = map[string]*regexp.Regexp{}

// matches is the meaning of a permission pattern, written as a regular
// expression: independent of the matcher under test.
func matches(pattern, value string) bool {
	re, ok := patCache[pattern]
	if !ok {
		var b strings.Builder
		b.WriteString(`(?s)\A`)
		for i := 0; i < len(pattern); {
			switch {
			case pattern[i] == ':':
				b.WriteString(`[^/ ]+`)
				for i < len(pattern) && pattern[i] != '/' && pattern[i] != ' ' {
					i++
				}
			case pattern[i] == '*':
				b.WriteString(`.*`)
				i++
			default:
				b.WriteString(regexp.QuoteMeta(pattern[i : i+1]))
				i++
			}
		}
		b.WriteString(`\z`)
		re = regexp.MustCompile(b.String())
		if len(patCache) < 20000 {
			patCache[pattern] = re
		}
	}
	return re.MatchString(value)
}

func sortedSet(a []string) []string {
	m := map[string]bool{}
	for _, x := range a {
		m[x] = true
	}
	r := make([]string, 0, len(m))
	for x := range m {
		r = append(r, x)
	}
	sort.Strings(r)
	return r
}

// scribble overwrites a list: one handed to a call, which belongs to the caller
// again once the call has returned, or one a call returned.
func scribble[T any](a []T, x T) {
	for i := range a {
		a[i] = x
	}
}

// gather looks up objects, up to the first that is not there.
func gather[T any](ids []string, get func(string) (T, bool)) (l []T, err error) {
	for _, id := range ids {
		x, ok := get(id)
		if !ok {
			return l, errNone
		}
		l = append(l, x)
	}
	return l, nil
}

// taken is the set of a list a call returned; the list is overwritten.
func taken(a []string) []string {
	r := sortedSet(a)
	scribble(a, "scribble")
	return r
}

func sameSet(a, b []string) bool {
	x, y := sortedSet(a), sortedSet(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

func subset(a, b []string) bool {
	m := map[string]bool{}
	for _, x := range b {
		m[x] = true
	}
	for _, x := range a {
		if !m[x] {
			return false
		}
	}
	return true
}

func has(a []string, x string) bool {
	for _, y := range a {
		if x == y {
			return true
		}
	}
	return false
}

// enrol registers an object, alone or twice in the list form, and returns the
// one in use.
func enrol[T any](list bool, id string, mk func() T, one func(T) T, many func(...T), get func(string) (T, bool)) T {
	if !list {
		return one(mk())
	}
	l := []T{mk(), mk()}
	many(l...)
	scribble(l, mk())
	x, _ := get(id)
	return x
}

// enrolAll registers objects in one call.
func enrolAll[T any](ids []string, mk func(string) T, many func(...T)) {
	var l []T
	for _, id := range ids {
		l = append(l, mk(id))
	}
	many(l...)
	scribble(l, mk("scribble"))
}
