package main

import "strconv"

func itoa(n int) string { return strconv.Itoa(n) }

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }
