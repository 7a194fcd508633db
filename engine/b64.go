package main

import "encoding/base64"

func stdB64(s string) ([]byte, error) { return base64.StdEncoding.DecodeString(s) }

const (
	rmEven  = 0
	rmRound = 1
	rmCeil  = 2
	rmFloor = 3
	rmTrunc = 4
)
