package main

import (
	"context"
	"math/big"
)

var contextBG = context.Background()
var bigZero = big.NewInt(0)
