// Package c10 decides property C10 of the cache.
package c10

import "github.com/redmaner/MaguroHTTP/verif/lib"

// H_history: every history of a few operations on an empty cache.
func H_history() { lib.CacheHistory(false) }

// H_wrap: histories around the point where the ring wraps.
func H_wrap() { lib.CacheWrap(false) }

// H_round: an entry stored again and looked up when its old copy is the oldest entry.
func H_round() { lib.CacheRound(false) }

// H_mixed: old and fresh entries among the newest.
func H_mixed() { lib.CacheMixed(false) }

// H_ident: every pair of short keys.
func H_ident() { lib.CacheIdent(false) }

// H_dense: every short sequence of operations near the end of the ring.
func H_dense() { lib.CacheDense(false) }

// H_names: long keys, the empty key, values of any kind.
func H_names() { lib.CacheNames(false) }

// H_many: many keys.
func H_many() { lib.CacheMany(false) }

// H_turns: one key in constant use among many others.
func H_turns() { lib.CacheTurns(false) }
