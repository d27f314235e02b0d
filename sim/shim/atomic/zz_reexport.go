// Code generated by genshim. DO NOT EDIT.

package atomic

import std "sync/atomic"

var AndUintptr = std.AndUintptr
var OrUintptr = std.OrUintptr
