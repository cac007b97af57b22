package main

import "embed"

//go:embed specs
var specFS embed.FS
