package caches

import "container/heap"

// What container/heap documents, as a program over the five methods it is given: each operation swaps elements any
// number of times and leaves the heap in order; it may only be asked of a heap in order.

// any numbers
var ghostAny [][2]int

func ghostNever() {
	for {
	}
}

func ghostSwaps(h heap.Interface) {
	for _, w := range ghostAny {
		i, j := w[0], w[1]
		if i < 0 || i >= h.Len() || j < 0 || j >= h.Len() || i == j {
			continue
		}
		h.Swap(i, j)
	}
}

// a heap in order
func ghostNeeds(h heap.Interface) {
	for j := 1; j < h.Len(); j++ {
		if h.Less(j, (j-1)/2) {
			panic("not a heap")
		}
	}
}

// from here on: a heap in order
func ghostInOrder(h heap.Interface) {
	for j := 1; j < h.Len(); j++ {
		if h.Less(j, (j-1)/2) {
			ghostNever()
		}
	}
}

func ghostHeapPush(h heap.Interface, x any) {
	ghostNeeds(h)
	h.Push(x)
	ghostSwaps(h)
	ghostInOrder(h)
}

func ghostHeapPop(h heap.Interface) any {
	ghostNeeds(h)
	ghostSwaps(h)
	last := h.Len() - 1
	for j := 0; j < last; j++ {
		if h.Less(j, last) {
			ghostNever()
		}
	}
	x := h.Pop()
	ghostInOrder(h)
	return x
}

// but for the element at k
func ghostHeapFix(h heap.Interface, k int) {
	if k < 0 || k >= h.Len() {
		panic("no such element")
	}
	for j := 1; j < h.Len(); j++ {
		up := (j - 1) / 2
		if j != k && up != k && h.Less(j, up) {
			panic("not a heap")
		}
		if up == k && k > 0 && h.Less(j, (k-1)/2) {
			panic("not a heap")
		}
	}
	ghostSwaps(h)
	ghostInOrder(h)
}
