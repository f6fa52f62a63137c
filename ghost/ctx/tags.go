package ctx

// two tags on a context, a value and a cancellation between them, ranged over
func ghostTwoTags(c C, k1 string, v1 JSON, key, val any, k2 string, v2 JSON, fn func(k string, json JSON) error) error {
	d, _ := WithCancel(WithValue(WithTag(c, k1, v1), key, val))
	return RangeTag(WithTag(d, k2, v2), fn)
}

// a tag on a sibling is not seen
func ghostSiblingTags(c C, k1 string, v1 JSON, k2 string, v2 JSON, fn func(k string, json JSON) error) error {
	d := WithTag(c, k1, v1)
	WithTag(d, k2, v2)
	return RangeTag(d, fn)
}

// tracked contexts keep the tags of their parents
func ghostTrackedTags(c C, k1 string, v1 JSON, id string, fn func(k string, json JSON) error) error {
	return RangeTag(WithTracking(WithTag(c, k1, v1), id), fn)
}
