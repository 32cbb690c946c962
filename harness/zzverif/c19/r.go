package c19

import (
	"math/rand"

	"github.com/RenatoGeh/gospn/zzverif/nd"
)

func newRand() *rand.Rand { return rand.New(nd.RandSource()) }
