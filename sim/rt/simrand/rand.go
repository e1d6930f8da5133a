// Package simrand replaces package math/rand: the numbers come from the simulator.
package simrand

import "VERIFSIM/sim"

func u64() uint64 { return sim.C.Draw(sim.Order, 1<<63) }

func Uint64() uint64   { return u64() << 1 }
func Uint32() uint32   { return uint32(u64() >> 16) }
func Int() int         { return int(u64() & (1<<62 - 1)) }
func Float64() float64 { return float64(u64()>>10) / (1 << 53) }
func Float32() float32 { return float32(u64()>>39) / (1 << 24) }

func Perm(n int) []int {
	m := make([]int, n)
	for i := range m {
		m[i] = i
	}
	Shuffle(n, func(i, j int) { m[i], m[j] = m[j], m[i] })
	return m
}

func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, int(u64()%uint64(i+1)))
	}
}

func Seed(int64)           {}
func Int63() int64         { return int64(u64()) }
func Int31() int32         { return int32(u64() >> 32) }
func Intn(n int) int       { return int(u64() % uint64(n)) }
func Int63n(n int64) int64 { return int64(u64() % uint64(n)) }
func Int31n(n int32) int32 { return int32(u64() % uint64(n)) }
