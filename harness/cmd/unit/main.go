// Command unit holds the checks of dupi's public building blocks.
package main

import "dupiverif/fw"

var props []*fw.Prop

var children = map[string]func(args []string){}

func main() {
	fw.Main(props, func(args []string) {
		if f := children[args[0]]; f != nil {
			f(args[1:])
		}
	})
}
