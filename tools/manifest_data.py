# NA[id] = reason; NOTE[id] = level note; HELD = contract files not ready to be claimed
HELD |= set()
