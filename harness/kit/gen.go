package kit

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"verif.local/harness/vsched"
)

// Schedule draws a schedule.
func Schedule(t *rapid.T) vsched.Schedule {
	if rapid.IntRange(0, 3).Draw(t, "dense") == 3 {
		return Dense(t)
	}
	scale := rapid.SampledFrom([]int{2, 6, 15, 40, 120}).Draw(t, "scale")
	n := rapid.IntRange(0, 24).Draw(t, "switches")
	out := make(vsched.Schedule, n)
	for i := range out {
		out[i] = vsched.Switch{
			Delta:  rapid.IntRange(0, scale).Draw(t, "delta"),
			Target: rapid.IntRange(0, 5).Draw(t, "target"),
		}
	}
	return out
}

// Dense draws a schedule that switches at nearly every point for a while,
// expanded from a drawn seed.
func Dense(t *rapid.T) vsched.Schedule {
	out := make(vsched.Schedule, rapid.IntRange(1, 100).Draw(t, "dense switches"))
	scale := rapid.IntRange(0, 3).Draw(t, "dense scale")
	first := rapid.IntRange(0, 30).Draw(t, "dense from")
	x := rapid.Uint64().Draw(t, "dense seed")
	next := func(n int) int {
		x += 0x9e3779b97f4a7c15
		z := x
		z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
		z = (z ^ z>>27) * 0x94d049bb133111eb
		return int((z ^ z>>31) % uint64(n))
	}
	for i := range out {
		out[i] = vsched.Switch{Delta: next(scale + 1), Target: next(6)}
	}
	out[0].Delta += first
	return out
}

// Some draws a size: nearly always one from lo to hi, and now and then one
// well beyond, past the sizes at which code tends to change its ways.
func Some(t *rapid.T, label string, lo, hi int) int {
	if rapid.IntRange(0, 31).Draw(t, label+"-many") == 31 {
		return rapid.SampledFrom([]int{9, 17, 20, 33, 40, 65, 70, 100, 129, 140, 260, 260, 530}).Draw(t, label)
	}
	return rapid.IntRange(lo, hi).Draw(t, label)
}

var nasty = []string{
	"", "a", "b", "name", "a b", "a,b", "a=b", "a,b=c", "func:a", ":", "a\\", "\\", "\"", "'", "<b>", "&amp;", "]]>", "%s%d", "\n", "a\nb",
	"\t", "é", "日本", "\u2028", "\x00", "\x1b", "\xff", "{{.}}", "-->", "\\l", "&#34;", "a.b", "/", "[1] x", "  ",
}

var nastyRunes = []rune("ab,= \\\"'<>&;:%\n\t\r{}[]()#|/.é日\u2028\x00\x1b😀")

// Text draws text with a liking for separators and quotes. It may be invalid
// UTF-8.
func Text(t *rapid.T, label string) string {
	if rapid.IntRange(0, 39).Draw(t, label+"-long") == 39 {
		unit := rapid.SampledFrom([]string{"x", "ab", "é", "日", "a ", "q.r/"}).Draw(t, label+"-unit")
		n := rapid.SampledFrom([]int{17, 33, 65, 81, 129, 257, 300, 1100}).Draw(t, label+"-len")
		return strings.Repeat(unit, n/len(unit)+1)
	}
	switch rapid.IntRange(0, 3).Draw(t, label+"-kind") {
	case 0:
		return rapid.SampledFrom(nasty).Draw(t, label)
	case 1:
		return rapid.StringOfN(rapid.SampledFrom(nastyRunes), 0, 8, -1).Draw(t, label)
	case 2:
		return rapid.StringMatching(`[a-c]{1,3}`).Draw(t, label)
	default:
		return rapid.StringN(0, 6, -1).Draw(t, label)
	}
}

// Related draws text that differs a little from one of the earlier texts, in
// ways that code might take for the same: by the space around it, its case,
// its length, a repetition, a last character.
func Related(t *rapid.T, label string, earlier ...string) string {
	s := rapid.SampledFrom(earlier).Draw(t, label+"-like")
	switch rapid.IntRange(0, 10).Draw(t, label+"-how") {
	case 0:
		return s + " "
	case 1:
		return " " + s
	case 2:
		return strings.ToUpper(s)
	case 3:
		return strings.ToLower(s)
	case 4:
		return s + s
	case 5:
		if len(s) > 0 {
			return s[:len(s)-1]
		}
		return "\x00"
	case 6:
		if len(s) > 0 {
			return s[1:]
		}
		return "\n"
	case 7:
		return s + rapid.SampledFrom([]string{"\x00", "\n", "\t", "/", ".", "1", "0", "\\", "\"", "\u0301", "é", "\xff", "_", "-", ":", ","}).Draw(t, label+"-end")
	case 8:
		return strings.NewReplacer(" ", "_", "_", " ", ".", "/", "/", ".", ",", ";", "a", "A").Replace(s)
	case 9:
		r := []rune(s)
		for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
			r[i], r[j] = r[j], r[i]
		}
		return string(r)
	}
	return s
}

// TextNo draws text without any of the given characters.
func TextNo(t *rapid.T, label, chars string) string {
	return strings.Map(func(r rune) rune {
		if strings.ContainsRune(chars, r) {
			return 'z'
		}
		return r
	}, Text(t, label))
}

// Plain draws a short plain name from a small set.
func Plain(t *rapid.T, label string) string {
	return rapid.SampledFrom([]string{"a", "b", "c", "d"}).Draw(t, label)
}

// Panics formats a recovered value.
func Panics(rec interface{}) string { return fmt.Sprintf("%#v", rec) }
