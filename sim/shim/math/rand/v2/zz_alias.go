// Code generated by genalias. DO NOT EDIT.

package rand

import std "math/rand/v2"

type ChaCha8 = std.ChaCha8

var New = std.New
var NewChaCha8 = std.NewChaCha8
var NewPCG = std.NewPCG
var NewZipf = std.NewZipf

type PCG = std.PCG
type Rand = std.Rand
type Source = std.Source

var Uint = std.Uint

type Zipf = std.Zipf
