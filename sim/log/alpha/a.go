//go:build go1.22

// Package alpha holds call sites.
package alpha

import "flychain/log"

// A makes the call; each level has its own line, AFirst is that of level 1.
func A(l log.Logger, lvl int64, msg string, ctx []interface{}) {
	switch lvl {
	case 1:
		l.Error(msg, ctx...)
	case 2:
		l.Warn(msg, ctx...)
	case 3:
		l.Info(msg, ctx...)
	case 4:
		l.Debug(msg, ctx...)
	default:
		l.Trace(msg, ctx...)
	}
}

const AFirst = 12

// Root makes the call through the package's own functions.
func Root(lvl int64, msg string, ctx []interface{}) {
	switch lvl {
	case 1:
		log.Error(msg, ctx...)
	case 2:
		log.Warn(msg, ctx...)
	case 3:
		log.Info(msg, ctx...)
	case 4:
		log.Debug(msg, ctx...)
	default:
		log.Trace(msg, ctx...)
	}
}

// Out calls Output, naming this function (depth 0) or its caller (depth 1).
func Out(lvl int64, depth int, msg string, ctx []interface{}) {
	log.Output(msg, log.Lvl(lvl), depth, ctx...)
}

// Deep is the caller named by depth 1.
func Deep(lvl int64, depth int, msg string, ctx []interface{}) {
	Out(lvl, depth, msg, ctx)
}

const (
	RootFirst = 30
	OutLine   = 44
	DeepLine  = 49
)
