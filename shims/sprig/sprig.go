// Package sprig is a minimal offline stand-in for github.com/Masterminds/sprig:
// the template functions the metac modules use, with the original's semantics.
package sprig

import (
	"encoding/json"
	"errors"
	"fmt"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"text/template"

	"github.com/huandu/xstrings"
)

func strval(v interface{}) string {
	switch v := v.(type) {
	case string:
		return v
	case []byte:
		return string(v)
	case error:
		return v.Error()
	case fmt.Stringer:
		return v.String()
	default:
		return fmt.Sprintf("%v", v)
	}
}

func TxtFuncMap() template.FuncMap {
	toJson := func(v interface{}) string {
		b, _ := json.Marshal(v)
		return string(b)
	}
	m := template.FuncMap{
		"dict": func(v ...interface{}) map[string]interface{} {
			d := map[string]interface{}{}
			for i := 0; i < len(v); i += 2 {
				k := strval(v[i])
				if i+1 >= len(v) {
					d[k] = ""
					continue
				}
				d[k] = v[i+1]
			}
			return d
		},
		"tuple": func(v ...interface{}) []interface{} { return v },
		"list":  func(v ...interface{}) []interface{} { return v },
		"append": func(l interface{}, v interface{}) ([]interface{}, error) {
			rv := reflect.ValueOf(l)
			if rv.Kind() != reflect.Slice && rv.Kind() != reflect.Array {
				return nil, fmt.Errorf("cannot push on type %s", rv.Kind())
			}
			n := make([]interface{}, 0, rv.Len()+1)
			for i := 0; i < rv.Len(); i++ {
				n = append(n, rv.Index(i).Interface())
			}
			return append(n, v), nil
		},
		"get": func(d map[string]interface{}, key string) interface{} {
			if v, ok := d[key]; ok {
				return v
			}
			return ""
		},
		"set": func(d map[string]interface{}, key string, v interface{}) map[string]interface{} {
			d[key] = v
			return d
		},
		"has": func(needle interface{}, l interface{}) (bool, error) {
			v := reflect.ValueOf(l)
			if v.Kind() != reflect.Slice && v.Kind() != reflect.Array {
				return false, fmt.Errorf("cannot find has on type %T", l)
			}
			for i := 0; i < v.Len(); i++ {
				if reflect.DeepEqual(needle, v.Index(i).Interface()) {
					return true, nil
				}
			}
			return false, nil
		},
		"hasKey": func(d map[string]interface{}, key string) bool { _, ok := d[key]; return ok },
		"toJson": toJson,
		"toPrettyJson": func(v interface{}) string {
			b, _ := json.MarshalIndent(v, "", "  ")
			return string(b)
		},
		"indent": func(n int, s string) string {
			pad := strings.Repeat(" ", n)
			return pad + strings.Replace(s, "\n", "\n"+pad, -1)
		},
		"nindent": func(n int, s string) string {
			pad := strings.Repeat(" ", n)
			return "\n" + pad + strings.Replace(s, "\n", "\n"+pad, -1)
		},
		"atoi":            func(a string) int { i, _ := strconv.Atoi(a); return i },
		"fail":            func(msg string) (string, error) { return "", errors.New(msg) },
		"regexSplit":      func(re, s string, n int) []string { return regexp.MustCompile(re).Split(s, n) },
		"regexReplaceAll": func(re, s, r string) string { return regexp.MustCompile(re).ReplaceAllString(s, r) },
		"hasPrefix":       func(p, s string) bool { return strings.HasPrefix(s, p) },
		"hasSuffix":       func(p, s string) bool { return strings.HasSuffix(s, p) },
		"trimPrefix":      func(p, s string) string { return strings.TrimPrefix(s, p) },
		"trimSuffix":      func(p, s string) string { return strings.TrimSuffix(s, p) },
		"contains":        func(p, s string) bool { return strings.Contains(s, p) },
		"replace":         func(o, n, s string) string { return strings.Replace(s, o, n, -1) },
		"trim":            strings.TrimSpace,
		"lower":           strings.ToLower,
		"upper":           strings.ToUpper,
		"snakecase":       xstrings.ToSnakeCase,
		"toString":        strval,
		"quote": func(v ...interface{}) string {
			out := []string{}
			for _, s := range v {
				if s != nil {
					out = append(out, fmt.Sprintf("%q", strval(s)))
				}
			}
			return strings.Join(out, " ")
		},
		"default": func(d interface{}, given ...interface{}) interface{} {
			if len(given) == 0 || given[0] == nil || reflect.ValueOf(given[0]).IsZero() {
				return d
			}
			return given[0]
		},
		"ternary": func(t, f interface{}, v bool) interface{} {
			if v {
				return t
			}
			return f
		},
		"add": func(v ...interface{}) int64 {
			s := int64(0)
			for _, x := range v {
				s += i64(x)
			}
			return s
		},
		"sub":    func(a, b interface{}) int64 { return i64(a) - i64(b) },
		"osBase": filepath.Base,
	}
	for k, v := range more() {
		if _, ok := m[k]; !ok {
			m[k] = v
		}
	}
	return m
}
