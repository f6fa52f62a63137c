package lists

// the first call on a fresh generator
func ghostFirst[T any](inplace []T) bool {
	next := Permute(inplace)
	return next()
}

// the second one
func ghostSecond[T any](inplace []T) bool {
	next := Permute(inplace)
	next()
	return next()
}

// and one more after that, with the list as it was before
func ghostThird[T any](inplace []T) (bool, []T) {
	next := Permute(inplace)
	next()
	next()
	before := append([]T{}, inplace...)
	return next(), before
}
