// Package gomock is a small offline stand-in for go.uber.org/mock/gomock,
// enough to build generated mocks and run simple expectations.
package gomock

import (
	"fmt"
	"reflect"
	"sync"
)

type TestReporter interface {
	Errorf(format string, args ...any)
	Fatalf(format string, args ...any)
}
type TestHelper interface {
	TestReporter
	Helper()
}
type nopHelper struct{ TestReporter }

func (nopHelper) Helper() {}

type cleanuper interface{ Cleanup(func()) }

type Matcher interface {
	Matches(x any) bool
	String() string
}
type anyM struct{}

func (anyM) Matches(any) bool { return true }
func (anyM) String() string   { return "is anything" }
func Any() Matcher            { return anyM{} }

type eqM struct{ x any }

func (e eqM) Matches(x any) bool { return reflect.DeepEqual(e.x, x) }
func (e eqM) String() string     { return fmt.Sprintf("is equal to %v", e.x) }
func Eq(x any) Matcher           { return eqM{x} }

type notM struct{ m Matcher }

func (n notM) Matches(x any) bool { return !n.m.Matches(x) }
func (n notM) String() string     { return "not " + n.m.String() }
func Not(x any) Matcher           { return notM{toMatcher(x)} }

type condM struct{ f func(any) bool }

func (c condM) Matches(x any) bool     { return c.f(x) }
func (c condM) String() string         { return "adheres to a custom condition" }
func Cond(fn func(x any) bool) Matcher { return condM{fn} }
func Nil() Matcher {
	return condM{func(x any) bool {
		if x == nil {
			return true
		}
		v := reflect.ValueOf(x)
		switch v.Kind() {
		case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice:
			return v.IsNil()
		}
		return false
	}}
}
func toMatcher(x any) Matcher {
	if m, ok := x.(Matcher); ok {
		return m
	}
	if x == nil {
		return Nil()
	}
	return Eq(x)
}

type Call struct {
	recv     any
	method   string
	mt       reflect.Type
	args     []Matcher
	min, max int
	n        int
	actions  []func([]any) []any
	pre      []*Call
	c        *Controller
}

type Controller struct {
	T     TestHelper
	mu    sync.Mutex
	calls []*Call
}

func NewController(t TestReporter) *Controller {
	h, ok := t.(TestHelper)
	if !ok {
		h = nopHelper{t}
	}
	c := &Controller{T: h}
	if cl, ok := t.(cleanuper); ok {
		cl.Cleanup(func() { c.Finish() })
	}
	return c
}

func (c *Controller) Finish() {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, k := range c.calls {
		if k.n < k.min {
			c.T.Errorf("missing call to %T.%s (%d of %d)", k.recv, k.method, k.n, k.min)
		}
	}
	c.calls = nil
}

func (c *Controller) RecordCallWithMethodType(receiver any, method string, mt reflect.Type, args ...any) *Call {
	k := &Call{recv: receiver, method: method, mt: mt, min: 1, max: 1, c: c}
	for _, a := range args {
		k.args = append(k.args, toMatcher(a))
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.calls = append(c.calls, k)
	return k
}

func (k *Call) zero() []any {
	r := make([]any, k.mt.NumOut())
	for i := range r {
		r[i] = reflect.Zero(k.mt.Out(i)).Interface()
	}
	return r
}

func (c *Controller) Call(receiver any, method string, args ...any) []any {
	c.T.Helper()
	c.mu.Lock()
	var k *Call
outer:
	for _, x := range c.calls {
		if x.recv != receiver || x.method != method || x.n >= x.max || len(x.args) != len(args) {
			continue
		}
		for i, m := range x.args {
			if !m.Matches(args[i]) {
				continue outer
			}
		}
		for _, p := range x.pre {
			if p.n < p.min {
				continue outer
			}
		}
		k = x
		break
	}
	if k == nil {
		c.mu.Unlock()
		c.T.Fatalf("unexpected call to %T.%s(%v)", receiver, method, args)
		return nil
	}
	k.n++
	acts := k.actions
	c.mu.Unlock()
	rets := k.zero()
	for _, a := range acts {
		if r := a(args); r != nil {
			rets = r
		}
	}
	return rets
}

func (k *Call) Return(rets ...any) *Call {
	out := k.zero()
	for i, r := range rets {
		if r != nil {
			v := reflect.ValueOf(r)
			if t := k.mt.Out(i); v.Type() != t && v.Type().ConvertibleTo(t) && t.Kind() != reflect.Interface {
				r = v.Convert(t).Interface()
			}
			out[i] = r
		}
	}
	k.actions = append(k.actions, func([]any) []any { return out })
	return k
}
func (k *Call) invoke(f any, args []any) []any {
	v := reflect.ValueOf(f)
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		if a == nil {
			in[i] = reflect.Zero(v.Type().In(i))
		} else {
			in[i] = reflect.ValueOf(a)
		}
	}
	var out []any
	for _, o := range v.Call(in) {
		out = append(out, o.Interface())
	}
	return out
}
func (k *Call) Do(f any) *Call {
	k.actions = append(k.actions, func(a []any) []any { k.invoke(f, a); return nil })
	return k
}
func (k *Call) DoAndReturn(f any) *Call {
	k.actions = append(k.actions, func(a []any) []any { return k.invoke(f, a) })
	return k
}
func (k *Call) AnyTimes() *Call   { k.min, k.max = 0, 1<<30; return k }
func (k *Call) Times(n int) *Call { k.min, k.max = n, n; return k }
func (k *Call) MinTimes(n int) *Call {
	k.min = n
	if k.max == 1 {
		k.max = 1 << 30
	}
	return k
}
func (k *Call) MaxTimes(n int) *Call {
	k.max = n
	if k.min == 1 {
		k.min = 0
	}
	return k
}
func (k *Call) After(p *Call) *Call { k.pre = append(k.pre, p); return k }
func InOrder(calls ...any) {
	var prev *Call
	for _, x := range calls {
		c, ok := x.(*Call)
		if !ok {
			c = reflect.ValueOf(x).Elem().Field(0).Interface().(*Call)
		}
		if prev != nil {
			c.After(prev)
		}
		prev = c
	}
}
