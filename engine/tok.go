package main

import "go/token"

const (
	tokLSS = token.LSS
	tokADD = token.ADD
)
