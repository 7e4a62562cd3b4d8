// Package cobra is a minimal offline stand-in for github.com/spf13/cobra: just
// the surface the metac command uses (one root command with string flags).
package cobra

import (
	"fmt"
	"os"
	"strings"
)

type FlagSet struct {
	strs map[string]*string
	arrs map[string]*[]string
	long map[string]string // long -> short
}

func (f *FlagSet) init() {
	if f.strs == nil {
		f.strs = map[string]*string{}
		f.arrs = map[string]*[]string{}
		f.long = map[string]string{}
	}
}

func (f *FlagSet) StringVarP(p *string, name, shorthand string, value string, usage string) {
	f.init()
	*p = value
	f.strs[shorthand] = p
	f.long[name] = shorthand
}

func (f *FlagSet) StringArrayVarP(p *[]string, name, shorthand string, value []string, usage string) {
	f.init()
	*p = value
	f.arrs[shorthand] = p
	f.long[name] = shorthand
}

func (f *FlagSet) set(short, val string) error {
	if p, ok := f.strs[short]; ok {
		*p = val
		return nil
	}
	if p, ok := f.arrs[short]; ok {
		*p = append(*p, val)
		return nil
	}
	return fmt.Errorf("unknown shorthand flag: %q", short)
}

type Command struct {
	Use   string
	RunE  func(cmd *Command, args []string) error
	flags FlagSet
}

func (c *Command) Flags() *FlagSet { c.flags.init(); return &c.flags }

func (c *Command) parse(in []string) ([]string, error) {
	var args []string
	for i := 0; i < len(in); i++ {
		a := in[i]
		if a == "--" {
			return append(args, in[i+1:]...), nil
		}
		short, val, has := "", "", false
		switch {
		case strings.HasPrefix(a, "--"):
			name := a[2:]
			if k := strings.IndexByte(name, '='); k >= 0 {
				name, val, has = name[:k], name[k+1:], true
			}
			s, ok := c.flags.long[name]
			if !ok {
				return nil, fmt.Errorf("unknown flag: --%s", name)
			}
			short = s
		case strings.HasPrefix(a, "-") && len(a) > 1:
			short = a[1:2]
			if len(a) > 2 {
				val, has = strings.TrimPrefix(a[2:], "="), true
			}
		default:
			args = append(args, a)
			continue
		}
		if !has {
			if i+1 >= len(in) {
				return nil, fmt.Errorf("flag needs an argument: %s", a)
			}
			i++
			val = in[i]
		}
		if err := c.flags.set(short, val); err != nil {
			return nil, err
		}
	}
	return args, nil
}

// Execute runs the command; like the original it prints the error and leaves
// the exit status to the caller.
func (c *Command) Execute() error {
	c.flags.init()
	args, err := c.parse(os.Args[1:])
	if err == nil {
		err = c.RunE(c, args)
	}
	if err != nil {
		fmt.Fprintf(os.Stderr, "Error: %v\n", err)
	}
	return err
}
