// Code generated by genshim. DO NOT EDIT.

package filepath

import std "path/filepath"

var Base = std.Base
var Clean = std.Clean
var Dir = std.Dir
var ErrBadPattern = std.ErrBadPattern
var Ext = std.Ext
var FromSlash = std.FromSlash
var HasPrefix = std.HasPrefix
var IsAbs = std.IsAbs
var IsLocal = std.IsLocal
var Join = std.Join
const ListSeparator = std.ListSeparator
var Localize = std.Localize
var Match = std.Match
var Rel = std.Rel
const Separator = std.Separator
var SkipAll = std.SkipAll
var SkipDir = std.SkipDir
var Split = std.Split
var SplitList = std.SplitList
var ToSlash = std.ToSlash
var VolumeName = std.VolumeName
type WalkFunc = std.WalkFunc
