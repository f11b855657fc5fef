// Package cli is a stand-in for github.com/urfave/cli/v2 with the part of it
// the conformance test driver uses: commands, flags in all their spellings
// (-n v, --name v, --name=v, bundled aliases, repeated slices) and arguments.
package cli

import (
	"fmt"
	"strconv"
	"strings"
)

type Flag interface {
	Names() []string
	cliDefault() any
	cliParse(old any, set bool, text string) (any, error)
	cliSwitch() bool
}

type StringFlag struct {
	Name      string
	Aliases   []string
	Usage     string
	Value     string
	TakesFile bool
	Required  bool
	Hidden    bool
}

type IntFlag struct {
	Name    string
	Aliases []string
	Usage   string
	Value   int
}

type Uint64Flag struct {
	Name    string
	Aliases []string
	Usage   string
	Value   uint64
}

type BoolFlag struct {
	Name    string
	Aliases []string
	Usage   string
	Value   bool
}

type StringSlice struct{ s []string }

func NewStringSlice(s ...string) *StringSlice { return &StringSlice{append([]string{}, s...)} }
func (s *StringSlice) Value() []string        { return s.s }

type StringSliceFlag struct {
	Name    string
	Aliases []string
	Usage   string
	Value   *StringSlice
}

func (f *StringFlag) Names() []string      { return append([]string{f.Name}, f.Aliases...) }
func (f *IntFlag) Names() []string         { return append([]string{f.Name}, f.Aliases...) }
func (f *Uint64Flag) Names() []string      { return append([]string{f.Name}, f.Aliases...) }
func (f *BoolFlag) Names() []string        { return append([]string{f.Name}, f.Aliases...) }
func (f *StringSliceFlag) Names() []string { return append([]string{f.Name}, f.Aliases...) }

func (f *StringFlag) cliDefault() any { return f.Value }
func (f *IntFlag) cliDefault() any    { return f.Value }
func (f *Uint64Flag) cliDefault() any { return f.Value }
func (f *BoolFlag) cliDefault() any   { return f.Value }
func (f *StringSliceFlag) cliDefault() any {
	if f.Value == nil {
		return []string(nil)
	}
	return f.Value.s
}

func (f *StringFlag) cliSwitch() bool      { return false }
func (f *IntFlag) cliSwitch() bool         { return false }
func (f *Uint64Flag) cliSwitch() bool      { return false }
func (f *BoolFlag) cliSwitch() bool        { return true }
func (f *StringSliceFlag) cliSwitch() bool { return false }

func (f *StringFlag) cliParse(_ any, _ bool, t string) (any, error) { return t, nil }
func (f *IntFlag) cliParse(_ any, _ bool, t string) (any, error) {
	v, err := strconv.ParseInt(t, 0, 64)
	return int(v), err
}
func (f *Uint64Flag) cliParse(_ any, _ bool, t string) (any, error) {
	return strconv.ParseUint(t, 0, 64)
}
func (f *BoolFlag) cliParse(_ any, _ bool, t string) (any, error) { return strconv.ParseBool(t) }
func (f *StringSliceFlag) cliParse(old any, set bool, t string) (any, error) {
	var res []string
	if set {
		res = old.([]string)
	}
	return append(res, strings.Split(t, ",")...), nil
}

type Args interface {
	Get(int) string
	Len() int
	First() string
	Slice() []string
	Present() bool
}

type args []string

func (a args) Get(i int) string {
	if i < 0 || i >= len(a) {
		return ""
	}
	return a[i]
}
func (a args) Len() int        { return len(a) }
func (a args) First() string   { return a.Get(0) }
func (a args) Slice() []string { return append([]string{}, a...) }
func (a args) Present() bool   { return len(a) > 0 }

type Context struct {
	App     *App
	Command *Command
	values  map[string]any
	set     map[string]bool
	args    args
}

func (c *Context) Args() Args                    { return c.args }
func (c *Context) NArg() int                     { return len(c.args) }
func (c *Context) IsSet(n string) bool           { return c.set[n] }
func (c *Context) Int(n string) int              { v, _ := c.values[n].(int); return v }
func (c *Context) String(n string) string        { v, _ := c.values[n].(string); return v }
func (c *Context) Uint64(n string) uint64        { v, _ := c.values[n].(uint64); return v }
func (c *Context) Bool(n string) bool            { v, _ := c.values[n].(bool); return v }
func (c *Context) StringSlice(n string) []string { v, _ := c.values[n].([]string); return v }

type ActionFunc func(*Context) error

type Command struct {
	Name      string
	Aliases   []string
	Usage     string
	UsageText string
	ArgsUsage string
	Flags     []Flag
	Action    ActionFunc
}

type App struct {
	Name      string
	Usage     string
	UsageText string
	Copyright string
	Version   string
	Flags     []Flag
	Commands  []*Command
	Action    ActionFunc
}

func (a *App) Run(arguments []string) error {
	if len(arguments) < 2 {
		return nil
	}
	for _, c := range a.Commands {
		names := append([]string{c.Name}, c.Aliases...)
		for _, n := range names {
			if n == arguments[1] {
				ctx, err := parse(a, c, arguments[2:])
				if err != nil {
					return err
				}
				return c.Action(ctx)
			}
		}
	}
	return fmt.Errorf("no such command: %q", arguments[1])
}

func parse(a *App, c *Command, in []string) (*Context, error) {
	ctx := &Context{App: a, Command: c, values: map[string]any{}, set: map[string]bool{}}
	flags := map[string]Flag{}
	for _, f := range c.Flags {
		for _, n := range f.Names() {
			flags[n] = f
			ctx.values[n] = f.cliDefault()
		}
	}
	for len(in) > 0 {
		cur := in[0]
		in = in[1:]
		if cur == "--" {
			break
		}
		if len(cur) < 2 || cur[0] != '-' {
			// As in the original, parsing of flags ends with the first argument.
			in = append([]string{cur}, in...)
			break
		}
		name := strings.TrimPrefix(strings.TrimPrefix(cur, "-"), "-")
		name, text, has := strings.Cut(name, "=")
		f, ok := flags[name]
		if !ok {
			return nil, fmt.Errorf("flag provided but not defined: -%s", name)
		}
		if !has && f.cliSwitch() {
			text, has = "true", true
		}
		if !has {
			if len(in) == 0 {
				return nil, fmt.Errorf("flag needs an argument: -%s", name)
			}
			text, in = in[0], in[1:]
		}
		v, err := f.cliParse(ctx.values[name], ctx.set[name], text)
		if err != nil {
			return nil, fmt.Errorf("invalid value %q for flag -%s: %w", text, name, err)
		}
		for _, n := range f.Names() {
			ctx.values[n] = v
			ctx.set[n] = true
		}
	}
	ctx.args = args(in)
	return ctx, nil
}
