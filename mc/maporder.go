//go:build maporder

package main

import "verif/mc/vsched"

// The library is built with its map iterations under the control of the checker.
const mapOrders = true

func init() { vsched.SetOrder(-1) }

// setMapOrder selects the order of all map iterations of the library; a negative number is Go's own order.
func setMapOrder(n int) { vsched.SetOrder(n) }
