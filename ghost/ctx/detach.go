package ctx

import "time"

// everything a detached context answers
func ghostDetached(c C, key any) (v any, t time.Time, ok bool, done <-chan struct{}, err error) {
	d := Detach(c)
	v = d.Value(key)
	t, ok = d.Deadline()
	done = d.Done()
	err = d.Err()
	return
}
