// Code generated by genshim. DO NOT EDIT.

package sync

import std "sync"

var _ std.Locker
