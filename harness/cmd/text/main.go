package main

import "verif/mc"

func main() { mc.Main() }
