// Code generated once by hand; the call sites used by the logging workloads.
package main

import "github.com/v2pro/plz/countlog"

// plainSites and ctxSites hold distinct call sites: [method][k].
var plainSites = [][]func(c *lcall) error{
	{
		func(c *lcall) error { c.here(); countlog.Trace(c.name, c.props...); return nil },
		func(c *lcall) error { c.here(); countlog.Trace(c.name, c.props...); return nil },
		func(c *lcall) error { c.here(); countlog.Trace(c.name, c.props...); return nil },
	},
	{
		func(c *lcall) error { c.here(); countlog.Debug(c.name, c.props...); return nil },
		func(c *lcall) error { c.here(); countlog.Debug(c.name, c.props...); return nil },
		func(c *lcall) error { c.here(); countlog.Debug(c.name, c.props...); return nil },
	},
	{
		func(c *lcall) error { c.here(); countlog.Info(c.name, c.props...); return nil },
		func(c *lcall) error { c.here(); countlog.Info(c.name, c.props...); return nil },
		func(c *lcall) error { c.here(); countlog.Info(c.name, c.props...); return nil },
	},
	{
		func(c *lcall) error { c.here(); countlog.Warn(c.name, c.props...); return nil },
		func(c *lcall) error { c.here(); countlog.Warn(c.name, c.props...); return nil },
		func(c *lcall) error { c.here(); countlog.Warn(c.name, c.props...); return nil },
	},
	{
		func(c *lcall) error { c.here(); countlog.Error(c.name, c.props...); return nil },
		func(c *lcall) error { c.here(); countlog.Error(c.name, c.props...); return nil },
		func(c *lcall) error { c.here(); countlog.Error(c.name, c.props...); return nil },
	},
	{
		func(c *lcall) error { c.here(); countlog.Fatal(c.name, c.props...); return nil },
		func(c *lcall) error { c.here(); countlog.Fatal(c.name, c.props...); return nil },
		func(c *lcall) error { c.here(); countlog.Fatal(c.name, c.props...); return nil },
	},
	{
		func(c *lcall) error { c.here(); countlog.Log(c.level, c.name, c.props...); return nil },
		func(c *lcall) error { c.here(); countlog.Log(c.level, c.name, c.props...); return nil },
		func(c *lcall) error { c.here(); countlog.Log(c.level, c.name, c.props...); return nil },
	},
	{
		func(c *lcall) error { c.here(); return countlog.TraceCall(c.name, c.err, c.props...) },
		func(c *lcall) error { c.here(); return countlog.TraceCall(c.name, c.err, c.props...) },
		func(c *lcall) error { c.here(); return countlog.TraceCall(c.name, c.err, c.props...) },
	},
	{
		func(c *lcall) error { c.here(); return countlog.DebugCall(c.name, c.err, c.props...) },
		func(c *lcall) error { c.here(); return countlog.DebugCall(c.name, c.err, c.props...) },
		func(c *lcall) error { c.here(); return countlog.DebugCall(c.name, c.err, c.props...) },
	},
	{
		func(c *lcall) error { c.here(); return countlog.InfoCall(c.name, c.err, c.props...) },
		func(c *lcall) error { c.here(); return countlog.InfoCall(c.name, c.err, c.props...) },
		func(c *lcall) error { c.here(); return countlog.InfoCall(c.name, c.err, c.props...) },
	},
	nil,
	{
		func(c *lcall) error { c.here(); return c.panicked(countlog.LogPanic(c.pan, c.props...)) },
		func(c *lcall) error { c.here(); return c.panicked(countlog.LogPanic(c.pan, c.props...)) },
		func(c *lcall) error { c.here(); return c.panicked(countlog.LogPanic(c.pan, c.props...)) },
	},
}

func (c *lcall) panicked(v interface{}) error {
	if v != c.pan {
		c.w.r.Fail("panic-value", "LogPanic returned %v for %v", v, c.pan)
	}
	return nil
}

var ctxSites = [][]func(c *lcall) error{
	{
		func(c *lcall) error { c.here(); c.ctx.Trace(c.name, c.props...); return nil },
		func(c *lcall) error { c.here(); c.ctx.Trace(c.name, c.props...); return nil },
		func(c *lcall) error { c.here(); c.ctx.Trace(c.name, c.props...); return nil },
	},
	{
		func(c *lcall) error { c.here(); c.ctx.Debug(c.name, c.props...); return nil },
		func(c *lcall) error { c.here(); c.ctx.Debug(c.name, c.props...); return nil },
		func(c *lcall) error { c.here(); c.ctx.Debug(c.name, c.props...); return nil },
	},
	{
		func(c *lcall) error { c.here(); c.ctx.Info(c.name, c.props...); return nil },
		func(c *lcall) error { c.here(); c.ctx.Info(c.name, c.props...); return nil },
		func(c *lcall) error { c.here(); c.ctx.Info(c.name, c.props...); return nil },
	},
	{
		func(c *lcall) error { c.here(); c.ctx.Warn(c.name, c.props...); return nil },
		func(c *lcall) error { c.here(); c.ctx.Warn(c.name, c.props...); return nil },
		func(c *lcall) error { c.here(); c.ctx.Warn(c.name, c.props...); return nil },
	},
	{
		func(c *lcall) error { c.here(); c.ctx.Error(c.name, c.props...); return nil },
		func(c *lcall) error { c.here(); c.ctx.Error(c.name, c.props...); return nil },
		func(c *lcall) error { c.here(); c.ctx.Error(c.name, c.props...); return nil },
	},
	{
		func(c *lcall) error { c.here(); c.ctx.Fatal(c.name, c.props...); return nil },
		func(c *lcall) error { c.here(); c.ctx.Fatal(c.name, c.props...); return nil },
		func(c *lcall) error { c.here(); c.ctx.Fatal(c.name, c.props...); return nil },
	},
	nil,
	{
		func(c *lcall) error { c.here(); return c.ctx.TraceCall(c.name, c.err, c.props...) },
		func(c *lcall) error { c.here(); return c.ctx.TraceCall(c.name, c.err, c.props...) },
		func(c *lcall) error { c.here(); return c.ctx.TraceCall(c.name, c.err, c.props...) },
	},
	{
		func(c *lcall) error { c.here(); return c.ctx.DebugCall(c.name, c.err, c.props...) },
		func(c *lcall) error { c.here(); return c.ctx.DebugCall(c.name, c.err, c.props...) },
		func(c *lcall) error { c.here(); return c.ctx.DebugCall(c.name, c.err, c.props...) },
	},
	{
		func(c *lcall) error { c.here(); return c.ctx.InfoCall(c.name, c.err, c.props...) },
		func(c *lcall) error { c.here(); return c.ctx.InfoCall(c.name, c.err, c.props...) },
		func(c *lcall) error { c.here(); return c.ctx.InfoCall(c.name, c.err, c.props...) },
	},
	{
		func(c *lcall) error { c.here(); return c.ctx.LogAccess(c.name, c.err, c.props...) },
		func(c *lcall) error { c.here(); return c.ctx.LogAccess(c.name, c.err, c.props...) },
		func(c *lcall) error { c.here(); return c.ctx.LogAccess(c.name, c.err, c.props...) },
	},
}
