package main

import (
	"fmt"
	"os"
	"sync"
)

// Calibration aid: with VB_DEBUG set, the largest deviation seen per kind.
var debugOn = os.Getenv("VB_DEBUG") != ""
var devMu sync.Mutex
var devs = map[string]float64{}

func maxDev(k string, v float64) {
	if !debugOn {
		return
	}
	devMu.Lock()
	if v > devs[k] {
		devs[k] = v
	}
	devMu.Unlock()
}

func printDevs() {
	if debugOn {
		for k, v := range devs {
			fmt.Fprintf(os.Stderr, "dev %s %.6f\n", k, v)
		}
	}
}
