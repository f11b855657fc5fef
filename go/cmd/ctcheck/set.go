package main

import "sync"

type set struct {
	mu sync.Mutex
	m  map[string]bool
}

func newSet() *set { return &set{m: map[string]bool{}} }
func (s *set) add(k string) {
	s.mu.Lock()
	s.m[k] = true
	s.mu.Unlock()
}
func (s *set) size() int { return len(s.m) }
