package world

import "regexp"

var volatile = []struct {
	re *regexp.Regexp
	to string
}{
	{regexp.MustCompile(`(?m)^(goroutine|Goroutine) \d+.*$`), "$1"},
	{regexp.MustCompile(`(?i)(by|in) goroutine \d+`), "$1 goroutine"},
	{regexp.MustCompile(`Goroutine \d+`), "Goroutine"},
	{regexp.MustCompile(` \+0x[0-9a-f]+`), ""},
	{regexp.MustCompile(`0x[0-9a-f]+`), "0x"},
	{regexp.MustCompile(`(?m)\([^()\n]*\)$`), "()"},
}

// CleanStack removes from a stack trace what differs between processes.
func CleanStack(s string) string {
	for _, v := range volatile {
		s = v.re.ReplaceAllString(s, v.to)
	}
	return s
}
