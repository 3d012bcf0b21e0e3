package checks

import (
	"math"
	"math/big"
)

func f32(b uint64) float32 { return math.Float32frombits(uint32(b)) }
func f64(b uint64) float64 { return math.Float64frombits(b) }

func bigU(v uint64) *big.Int { return new(big.Int).SetUint64(v) }
