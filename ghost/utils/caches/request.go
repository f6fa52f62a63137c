package caches

import (
	"time"

	"github.com/Aize-Public/forego/ctx"
)

// what the inner cache of a new request cache makes on a miss
func ghostNewEntry[K comparable, V any](c ctx.C, k K, n int, f func(ctx.C, K) (V, time.Duration, error)) (*entry[V], int, error) {
	rc := NewRequestLRU(c, n, f)
	return rc.cache.(*LRU[K, *entry[V]]).OnMiss(c, k)
}
