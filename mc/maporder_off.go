//go:build !maporder

package main

// The library could not be instrumented: map iterations have Go's own random order, and cases are repeated instead.
const mapOrders = false

func setMapOrder(int) {}
