// Code generated by genshim. DO NOT EDIT.

package debug

import std "runtime/debug"

type BuildInfo = std.BuildInfo
type BuildSetting = std.BuildSetting
type CrashOptions = std.CrashOptions
var FreeOSMemory = std.FreeOSMemory
type GCStats = std.GCStats
type Module = std.Module
var ParseBuildInfo = std.ParseBuildInfo
var ReadBuildInfo = std.ReadBuildInfo
var ReadGCStats = std.ReadGCStats
var SetCrashOutput = std.SetCrashOutput
var SetGCPercent = std.SetGCPercent
var SetMaxStack = std.SetMaxStack
var SetMaxThreads = std.SetMaxThreads
var SetMemoryLimit = std.SetMemoryLimit
var SetPanicOnFault = std.SetPanicOnFault
var SetTraceback = std.SetTraceback
var WriteHeapDump = std.WriteHeapDump
