// Package lru is an offline stand-in for hashicorp/golang-lru/v2.
package lru

import (
	"container/list"
	"errors"
	"sync"
)

type entry[K comparable, V any] struct {
	k K
	v V
}

type Cache[K comparable, V any] struct {
	mu    sync.RWMutex
	size  int
	l     *list.List
	m     map[K]*list.Element
	evict func(K, V)
}

func New[K comparable, V any](size int) (*Cache[K, V], error) { return NewWithEvict[K, V](size, nil) }

func NewWithEvict[K comparable, V any](size int, onEvicted func(key K, value V)) (*Cache[K, V], error) {
	if size <= 0 {
		return nil, errors.New("must provide a positive size")
	}
	return &Cache[K, V]{size: size, l: list.New(), m: map[K]*list.Element{}, evict: onEvicted}, nil
}

func (c *Cache[K, V]) removeOldest() (k K, v V, ok bool) {
	e := c.l.Back()
	if e == nil {
		return
	}
	x := e.Value.(*entry[K, V])
	c.l.Remove(e)
	delete(c.m, x.k)
	return x.k, x.v, true
}

func (c *Cache[K, V]) add(key K, value V) (evicted bool, ek K, ev V) {
	if e, ok := c.m[key]; ok {
		c.l.MoveToFront(e)
		e.Value.(*entry[K, V]).v = value
		return
	}
	c.m[key] = c.l.PushFront(&entry[K, V]{key, value})
	if c.l.Len() > c.size {
		ek, ev, evicted = c.removeOldest()
	}
	return
}

func (c *Cache[K, V]) Add(key K, value V) bool {
	c.mu.Lock()
	ev, k, v := c.add(key, value)
	c.mu.Unlock()
	if ev && c.evict != nil {
		c.evict(k, v)
	}
	return ev
}

func (c *Cache[K, V]) Get(key K) (value V, ok bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if e, found := c.m[key]; found {
		c.l.MoveToFront(e)
		return e.Value.(*entry[K, V]).v, true
	}
	return
}

func (c *Cache[K, V]) Peek(key K) (value V, ok bool) {
	c.mu.RLock()
	defer c.mu.RUnlock()
	if e, found := c.m[key]; found {
		return e.Value.(*entry[K, V]).v, true
	}
	return
}

func (c *Cache[K, V]) Contains(key K) bool { _, ok := c.Peek(key); return ok }

func (c *Cache[K, V]) ContainsOrAdd(key K, value V) (ok, evicted bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, found := c.m[key]; found {
		return true, false
	}
	ev, _, _ := c.add(key, value)
	return false, ev
}

func (c *Cache[K, V]) PeekOrAdd(key K, value V) (previous V, ok, evicted bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if e, found := c.m[key]; found {
		return e.Value.(*entry[K, V]).v, true, false
	}
	ev, _, _ := c.add(key, value)
	return previous, false, ev
}

func (c *Cache[K, V]) Remove(key K) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if e, found := c.m[key]; found {
		c.l.Remove(e)
		delete(c.m, key)
		return true
	}
	return false
}

func (c *Cache[K, V]) RemoveOldest() (key K, value V, ok bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.removeOldest()
}

func (c *Cache[K, V]) GetOldest() (key K, value V, ok bool) {
	c.mu.RLock()
	defer c.mu.RUnlock()
	if e := c.l.Back(); e != nil {
		x := e.Value.(*entry[K, V])
		return x.k, x.v, true
	}
	return
}

func (c *Cache[K, V]) Resize(size int) (evicted int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.size = size
	for c.l.Len() > size {
		c.removeOldest()
		evicted++
	}
	return
}

func (c *Cache[K, V]) Keys() []K {
	c.mu.RLock()
	defer c.mu.RUnlock()
	r := make([]K, 0, c.l.Len())
	for e := c.l.Back(); e != nil; e = e.Prev() {
		r = append(r, e.Value.(*entry[K, V]).k)
	}
	return r
}

func (c *Cache[K, V]) Values() []V {
	c.mu.RLock()
	defer c.mu.RUnlock()
	r := make([]V, 0, c.l.Len())
	for e := c.l.Back(); e != nil; e = e.Prev() {
		r = append(r, e.Value.(*entry[K, V]).v)
	}
	return r
}

func (c *Cache[K, V]) Len() int {
	c.mu.RLock()
	defer c.mu.RUnlock()
	return c.l.Len()
}

func (c *Cache[K, V]) Purge() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.l.Init()
	c.m = map[K]*list.Element{}
}
