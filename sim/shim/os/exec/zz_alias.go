// Code generated by genalias. DO NOT EDIT.

package exec

import std "os/exec"

var ErrDot = std.ErrDot
var ErrNotFound = std.ErrNotFound
var ErrWaitDelay = std.ErrWaitDelay

type Error = std.Error
