// World core: code under test that needs no network.
package main

import "verifsim/w"

func main() { w.Main() }
