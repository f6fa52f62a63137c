package ctx

import "errors"

// the message, the cause and what is matched, of an error before and after it is wrapped
func ghostTransparent(c C, err, target error) (w error, msg string, before, after bool) {
	w = WrapError(c, err)
	msg = w.Error()
	before, after = errors.Is(err, target), errors.Is(w, target)
	return
}

// wrapping what has been wrapped
func ghostTwice(c, d C, err error) (once, twice error) {
	once = WrapError(c, err)
	twice = WrapError(d, once)
	return
}
