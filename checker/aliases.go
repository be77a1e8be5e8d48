package main

import "go/token"

type tokenPos = token.Pos
