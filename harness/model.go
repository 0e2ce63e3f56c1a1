package main

import "sort"

// Model is the reference: a map plus its keys in byte order.
type Model struct {
	m       map[string][]byte
	sorted  []string
	dirty   bool
	payload int
	inline  int // bytes a B+ tree page holds for the records (header, inline key, inline value)
}

func NewModel() *Model { return &Model{m: map[string][]byte{}} }

func (m *Model) Len() int { return len(m.m) }

func inlineSize(k string, v []byte) int {
	a, b := len(k), len(v)
	if a > 257 {
		a = 257
	}
	if b > 129 {
		b = 129
	}
	return a + b + 8
}

func (m *Model) Get(k []byte) ([]byte, bool) { v, ok := m.m[string(k)]; return v, ok }

func (m *Model) Put(k, v []byte) {
	if old, ok := m.m[string(k)]; ok {
		m.payload += len(v) - len(old)
		m.inline += inlineSize(string(k), v) - inlineSize(string(k), old)
		m.m[string(k)] = v
		return
	}
	s := string(k)
	m.m[s] = v
	m.payload += len(s) + len(v)
	m.inline += inlineSize(s, v)
	if !m.dirty {
		if n := len(m.sorted); n == 0 || m.sorted[n-1] < s {
			m.sorted = append(m.sorted, s)
		} else {
			i := sort.SearchStrings(m.sorted, s)
			m.sorted = append(m.sorted, "")
			copy(m.sorted[i+1:], m.sorted[i:])
			m.sorted[i] = s
		}
	}
}

func (m *Model) Del(k []byte) {
	old, ok := m.m[string(k)]
	if !ok {
		return
	}
	s := string(k)
	delete(m.m, s)
	m.payload -= len(s) + len(old)
	m.inline -= inlineSize(s, old)
	if !m.dirty {
		i := sort.SearchStrings(m.sorted, s)
		m.sorted = append(m.sorted[:i], m.sorted[i+1:]...)
	}
}

// Bulk announces many changes: re-sort once, when next needed.
func (m *Model) Bulk() { m.dirty = true }

// Keys returns the keys in byte order; valid until the next change.
func (m *Model) Keys() []string {
	if m.dirty {
		m.sorted = m.sorted[:0]
		for k := range m.m {
			m.sorted = append(m.sorted, k)
		}
		sort.Strings(m.sorted)
		m.dirty = false
	}
	return m.sorted
}

// Range returns the keys k with min <= k <= max.
func (m *Model) Range(min, max string) []string {
	ks := m.Keys()
	i := sort.SearchStrings(ks, min)
	j := sort.Search(len(ks), func(j int) bool { return ks[j] > max })
	if i >= j {
		return nil
	}
	return ks[i:j]
}

func (m *Model) Clone() *Model {
	c := NewModel()
	for k, v := range m.m {
		c.m[k] = v
	}
	c.payload, c.inline, c.dirty = m.payload, m.inline, true
	return c
}
