package log

import (
	"log/slog"

	"github.com/Aize-Public/forego/ctx"
)

func ghostCustom(c ctx.C, l LogFunc, h func(), level slog.Level, src, f string, args []any) (used ctx.C) {
	d := WithHelper(WithLogFunc(c, l), h)
	Customf(d, level, src, f, args...)
	return d
}
func ghostCustom2(c ctx.C, l LogFunc, h func(), level slog.Level, src, f string, args []any) (used ctx.C) {
	d := WithLogFunc(WithHelper(c, h), l)
	Customf(d, level, src, f, args...)
	return d
}

// below other contexts
func ghostBelow(c ctx.C, l LogFunc, key, val any, level slog.Level, src, f string, args []any) (used ctx.C) {
	d := WithLogFunc(c, l)
	e, _ := ctx.WithCancel(ctx.WithTag(ctx.WithValue(d, key, val), "tag", true))
	Customf(e, level, src, f, args...)
	return e
}

// the parent, when its child has been given other options
func ghostParent(c ctx.C, l, m LogFunc, h func(), level slog.Level, src, f string, args []any) (used ctx.C) {
	d := WithLogFunc(c, l)
	WithLogFunc(d, m)
	WithHelper(d, h)
	Customf(d, level, src, f, args...)
	return d
}

// the sibling
func ghostSibling(c ctx.C, l, m LogFunc, h func(), level slog.Level, src, f string, args []any) (used ctx.C) {
	d := WithLogFunc(c, l)
	WithLogFunc(c, m)
	WithHelper(c, h)
	Customf(d, level, src, f, args...)
	return d
}

// the child
func ghostChild(c ctx.C, l, m LogFunc, level slog.Level, src, f string, args []any) (used ctx.C) {
	d := WithLogFunc(c, l)
	e := WithLogFunc(d, m)
	Customf(e, level, src, f, args...)
	return e
}

func ghostLevels(c ctx.C, e, w, i, d LogFunc, f string, args []any) {
	Errorf(WithLogFunc(c, e), f, args...)
	Warnf(WithLogFunc(c, w), f, args...)
	Infof(WithLogFunc(c, i), f, args...)
	Debugf(WithLogFunc(c, d), f, args...)
}
