package shutdown

func ghostBegin() (started, later <-chan struct{}) {
	started, later = Started(), Started5Sec()
	Begin()
	return
}

func ghostBeginTwice() (started, later <-chan struct{}) {
	started, later = Started(), Started5Sec()
	Begin()
	Begin()
	return
}

func ghostHoldRelease() {
	r := Hold()
	r.Release()
}

func ghostHoldAndWaitRelease() (started <-chan struct{}) {
	started = Started()
	r := HoldAndWait()
	r()
	return
}
