package sprig

import (
	"encoding/json"
	"fmt"
	"path"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"text/template"
)

func slice(l interface{}) []interface{} {
	v := reflect.ValueOf(l)
	if !v.IsValid() || (v.Kind() != reflect.Slice && v.Kind() != reflect.Array) {
		panic(fmt.Errorf("cannot use type %T as list", l))
	}
	n := make([]interface{}, 0, v.Len())
	for i := 0; i < v.Len(); i++ {
		n = append(n, v.Index(i).Interface())
	}
	return n
}

func strs(l interface{}) []string {
	n := []string{}
	for _, x := range slice(l) {
		if x != nil {
			n = append(n, strval(x))
		}
	}
	return n
}

func i64(x interface{}) int64 {
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int64(v.Uint())
	case reflect.Float32, reflect.Float64:
		return int64(v.Float())
	case reflect.Bool:
		if v.Bool() {
			return 1
		}
	case reflect.String:
		n, _ := strconv.ParseInt(v.String(), 0, 64)
		return n
	}
	return 0
}

func empty(x interface{}) bool {
	if x == nil {
		return true
	}
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Slice, reflect.Map, reflect.Array, reflect.String:
		return v.Len() == 0
	case reflect.Struct:
		return false
	}
	return v.IsZero()
}

func in(x interface{}, l []interface{}) bool {
	for _, y := range l {
		if reflect.DeepEqual(x, y) {
			return true
		}
	}
	return false
}

// functions today's templates do not use, but tomorrow's may
func more() template.FuncMap {
	return template.FuncMap{
		"first": func(l interface{}) interface{} {
			s := slice(l)
			if len(s) == 0 {
				return nil
			}
			return s[0]
		},
		"last": func(l interface{}) interface{} {
			s := slice(l)
			if len(s) == 0 {
				return nil
			}
			return s[len(s)-1]
		},
		"rest": func(l interface{}) []interface{} {
			s := slice(l)
			if len(s) == 0 {
				return nil
			}
			return s[1:]
		},
		"initial": func(l interface{}) []interface{} {
			s := slice(l)
			if len(s) == 0 {
				return nil
			}
			return s[:len(s)-1]
		},
		"push":    func(l, v interface{}) []interface{} { return append(slice(l), v) },
		"prepend": func(l, v interface{}) []interface{} { return append([]interface{}{v}, slice(l)...) },
		"concat": func(ls ...interface{}) []interface{} {
			var n []interface{}
			for _, l := range ls {
				n = append(n, slice(l)...)
			}
			return n
		},
		"reverse": func(l interface{}) []interface{} {
			s := slice(l)
			for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
				s[i], s[j] = s[j], s[i]
			}
			return s
		},
		"uniq": func(l interface{}) []interface{} {
			n := []interface{}{}
			for _, x := range slice(l) {
				if !in(x, n) {
					n = append(n, x)
				}
			}
			return n
		},
		"without": func(l interface{}, omit ...interface{}) []interface{} {
			n := []interface{}{}
			for _, x := range slice(l) {
				if !in(x, omit) {
					n = append(n, x)
				}
			}
			return n
		},
		"compact": func(l interface{}) []interface{} {
			n := []interface{}{}
			for _, x := range slice(l) {
				if !empty(x) {
					n = append(n, x)
				}
			}
			return n
		},
		"join":      func(sep string, l interface{}) string { return strings.Join(strs(l), sep) },
		"sortAlpha": func(l interface{}) []string { s := strs(l); sort.Strings(s); return s },
		"splitList": func(sep, s string) []string { return strings.Split(s, sep) },
		"split": func(sep, s string) map[string]string {
			m := map[string]string{}
			for i, x := range strings.Split(s, sep) {
				m["_"+strconv.Itoa(i)] = x
			}
			return m
		},
		"splitn": func(sep string, n int, s string) map[string]string {
			m := map[string]string{}
			for i, x := range strings.SplitN(s, sep, n) {
				m["_"+strconv.Itoa(i)] = x
			}
			return m
		},
		"keys": func(ds ...map[string]interface{}) []string {
			k := []string{}
			for _, d := range ds {
				for x := range d {
					k = append(k, x)
				}
			}
			return k
		},
		"values": func(d map[string]interface{}) []interface{} {
			n := []interface{}{}
			for _, x := range d {
				n = append(n, x)
			}
			return n
		},
		"unset": func(d map[string]interface{}, k string) map[string]interface{} { delete(d, k); return d },
		"pick": func(d map[string]interface{}, ks ...string) map[string]interface{} {
			n := map[string]interface{}{}
			for _, k := range ks {
				if v, ok := d[k]; ok {
					n[k] = v
				}
			}
			return n
		},
		"omit": func(d map[string]interface{}, ks ...string) map[string]interface{} {
			n := map[string]interface{}{}
			for k, v := range d {
				n[k] = v
			}
			for _, k := range ks {
				delete(n, k)
			}
			return n
		},
		"mul": func(a interface{}, v ...interface{}) int64 {
			s := i64(a)
			for _, x := range v {
				s *= i64(x)
			}
			return s
		},
		"div":  func(a, b interface{}) int64 { return i64(a) / i64(b) },
		"mod":  func(a, b interface{}) int64 { return i64(a) % i64(b) },
		"add1": func(a interface{}) int64 { return i64(a) + 1 },
		"max": func(a interface{}, v ...interface{}) int64 {
			s := i64(a)
			for _, x := range v {
				if i64(x) > s {
					s = i64(x)
				}
			}
			return s
		},
		"min": func(a interface{}, v ...interface{}) int64 {
			s := i64(a)
			for _, x := range v {
				if i64(x) < s {
					s = i64(x)
				}
			}
			return s
		},
		"int":   func(a interface{}) int { return int(i64(a)) },
		"int64": i64,
		"until": func(n int) []int {
			s := []int{}
			for i := 0; i < n; i++ {
				s = append(s, i)
			}
			return s
		},
		"untilStep": func(a, b, st int) []int {
			s := []int{}
			for i := a; (st > 0 && i < b) || (st < 0 && i > b); i += st {
				s = append(s, i)
			}
			return s
		},
		"empty": empty,
		"coalesce": func(v ...interface{}) interface{} {
			for _, x := range v {
				if !empty(x) {
					return x
				}
			}
			return nil
		},
		"all": func(v ...interface{}) bool {
			for _, x := range v {
				if empty(x) {
					return false
				}
			}
			return true
		},
		"any": func(v ...interface{}) bool {
			for _, x := range v {
				if !empty(x) {
					return true
				}
			}
			return false
		},
		"squote": func(v ...interface{}) string {
			o := []string{}
			for _, s := range v {
				if s != nil {
					o = append(o, "'"+strval(s)+"'")
				}
			}
			return strings.Join(o, " ")
		},
		"cat": func(v ...interface{}) string {
			o := []string{}
			for _, s := range v {
				if s != nil {
					o = append(o, fmt.Sprintf("%v", s))
				}
			}
			return strings.Join(o, " ")
		},
		"trimAll": func(c, s string) string { return strings.Trim(s, c) },
		"nospace": func(s string) string { return strings.Join(strings.Fields(s), "") },
		"title":   strings.Title,
		"untitle": func(s string) string {
			if s == "" {
				return s
			}
			return strings.ToLower(s[:1]) + s[1:]
		},
		"repeat": func(n int, s string) string { return strings.Repeat(s, n) },
		"trunc": func(n int, s string) string {
			if n < 0 && len(s)+n > 0 {
				return s[len(s)+n:]
			}
			if n >= 0 && len(s) > n {
				return s[:n]
			}
			return s
		},
		"substr": func(a, b int, s string) string {
			if a < 0 {
				return s[:b]
			}
			if b < 0 || b > len(s) {
				return s[a:]
			}
			return s[a:b]
		},
		"regexMatch":             func(re, s string) bool { return regexp.MustCompile(re).MatchString(s) },
		"regexFind":              func(re, s string) string { return regexp.MustCompile(re).FindString(s) },
		"regexFindAll":           func(re, s string, n int) []string { return regexp.MustCompile(re).FindAllString(s, n) },
		"regexReplaceAllLiteral": func(re, s, r string) string { return regexp.MustCompile(re).ReplaceAllLiteralString(s, r) },
		"regexQuoteMeta":         regexp.QuoteMeta,
		"toStrings":              func(l interface{}) []string { return strs(l) },
		"kindOf": func(v interface{}) string {
			if v == nil {
				return "invalid"
			}
			return reflect.ValueOf(v).Kind().String()
		},
		"kindIs": func(k string, v interface{}) bool {
			if v == nil {
				return k == "invalid"
			}
			return reflect.ValueOf(v).Kind().String() == k
		},
		"typeOf":    func(v interface{}) string { return fmt.Sprintf("%T", v) },
		"typeIs":    func(t string, v interface{}) bool { return fmt.Sprintf("%T", v) == t },
		"deepEqual": reflect.DeepEqual,
		"fromJson":  func(s string) interface{} { var o interface{}; json.Unmarshal([]byte(s), &o); return o },
		"toRawJson": func(v interface{}) string { b, _ := json.Marshal(v); return string(b) },
		"base":      path.Base, "dir": path.Dir, "ext": path.Ext, "clean": path.Clean, "isAbs": path.IsAbs,
		"osDir": filepath.Dir, "osExt": filepath.Ext, "osClean": filepath.Clean, "osIsAbs": filepath.IsAbs,
		"hello": func() string { return "Hello!" },
	}
}
