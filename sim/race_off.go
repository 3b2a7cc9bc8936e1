//go:build !race

package main

const raceBuild = false

type handover struct{}

func (h *handover) give() {}
func (h *handover) take() {}

func raceRead(p []byte)  {}
func raceWrite(p []byte) {}
