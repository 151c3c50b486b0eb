//go:build !race

package pool

const limited = true
