package main

import "golang.org/x/tools/go/ssa"

type ssaInstr = ssa.Instruction
