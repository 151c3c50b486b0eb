//go:build race

package pool

// The race detector needs a large address space.
const limited = false
