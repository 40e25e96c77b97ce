// Command cli holds checks.
package main

import "dupiverif/fw"

var props []*fw.Prop

func main() { fw.Main(props, nil) }
