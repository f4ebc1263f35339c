//go:build !race

package main

func (c *C) reportRaces() {}
