//go:build go1.22

// Package alpha holds call sites.
package alpha

import "flychain/log"

// B makes the call; each level has its own line, BFirst is that of level 1.
func B(l log.Logger, lvl int64, msg string, ctx []interface{}) {
	switch lvl {
	case 1:
		l.Error(msg, ctx...)
	case 2:
		l.Warn(msg, ctx...)
	case 3:
		l.Info(msg, ctx...)
	case 4:
		l.Debug(msg, ctx...)
	default:
		l.Trace(msg, ctx...)
	}
}

const BFirst = 12
