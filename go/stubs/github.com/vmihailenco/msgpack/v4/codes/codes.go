package codes

type Code byte

var Nil Code = 0xc0
