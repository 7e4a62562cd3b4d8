// Package xstrings is a minimal offline stand-in for github.com/huandu/xstrings.
package xstrings

import "unicode"

// ToSnakeCase makes an identifier part: every character that is no letter or
// digit becomes an underscore, an upper-case letter that follows a lower-case
// letter or digit gets an underscore in front and everything is lower-cased.
func ToSnakeCase(s string) string {
	out := []rune{}
	var prev rune
	for i, r := range s {
		switch {
		case unicode.IsUpper(r):
			if i > 0 && prev != '_' && !unicode.IsUpper(prev) && (unicode.IsLetter(prev) || unicode.IsDigit(prev)) {
				out = append(out, '_')
			}
			out = append(out, unicode.ToLower(r))
		case unicode.IsLetter(r) || unicode.IsDigit(r):
			out = append(out, r)
		default:
			out = append(out, '_')
		}
		prev = r
	}
	return string(out)
}
