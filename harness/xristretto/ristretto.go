//go:build go1.22

// Package ristretto stands in for the package of that name, which may drop
// anything it is given at any time: what it keeps is the harness's choice.
package ristretto

import (
	"unsafe"

	"github.com/NVIDIA/vdisc/zzverif/vs"
)

type Config struct {
	NumCounters int64
	MaxCost     int64
	BufferItems int64
	Metrics     bool
	OnEvict     func(key uint64, value interface{}, cost int64)
	KeyToHash   func(key interface{}) uint64
	Cost        func(value interface{}) int64
}

// Capacity is how many entries caches keep.
var Capacity int

type item struct {
	hash  uint64
	value interface{}
}

type Cache struct {
	c     Config
	items []item
}

func NewCache(c *Config) (*Cache, error) { return &Cache{c: *c}, nil }

func (c *Cache) Get(key interface{}) (v interface{}, ok bool) {
	h := c.c.KeyToHash(key)
	vs.Step("cache get", func() {
		for _, i := range c.items {
			if i.hash == h {
				v, ok = i.value, true
			}
		}
	})
	vs.Acquire(unsafe.Pointer(c))
	return
}

func (c *Cache) Set(key, value interface{}, cost int64) bool {
	h := c.c.KeyToHash(key)
	vs.Release(unsafe.Pointer(c))
	vs.Step("cache set", func() {
		for i := range c.items {
			if c.items[i].hash == h {
				c.items[i].value = value
				return
			}
		}
		if Capacity == 0 {
			return
		}
		if len(c.items) >= Capacity {
			c.items = append([]item{}, c.items[1:]...)
		}
		c.items = append(c.items, item{h, value})
	})
	return true
}

func (c *Cache) Del(key interface{}) {
	h := c.c.KeyToHash(key)
	vs.Step("cache del", func() {
		for i := range c.items {
			if c.items[i].hash == h {
				c.items = append(append([]item{}, c.items[:i]...), c.items[i+1:]...)
				return
			}
		}
	})
}

func (c *Cache) Clear() { vs.Step("cache clear", func() { c.items = nil }) }
func (c *Cache) Close() {}
