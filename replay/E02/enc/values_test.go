package enc

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"testing"
	"time"

	"github.com/Aize-Public/forego/ctx"
)

type verifI8 int8
type verifU64 uint64
type verifS string
type verifB bool
type verifF float32

type verifAsk struct {
	calls *int
	node  Node
	err   error
}

func (v verifAsk) MarshalNode(c ctx.C) (Node, error) { *v.calls++; return v.node, v.err }
func (v verifAsk) MarshalJSON() ([]byte, error)      { panic("not asked for") }

type verifJ struct {
	calls *int
	text  string
	err   error
}

func (v verifJ) MarshalJSON() ([]byte, error) { *v.calls++; return []byte(v.text), v.err }

func verifEncode(t *testing.T, in any) (n Node, err error) {
	t.Helper()
	vnopanic(t, fmt.Sprintf("encoding a %T %v", in, in), func() { n, err = Marshal(context.Background(), in) })
	return
}

func TestVerifE02Numbers(t *testing.T) {
	for _, x := range []any{0, 1, -1, math.MaxInt, math.MinInt, int8(-128), int8(127), int16(-32768), int32(math.MinInt32), int64(math.MinInt64), int64(math.MaxInt64),
		uint(0), uint(math.MaxUint), uint8(255), uint16(65535), uint32(math.MaxUint32), uint64(math.MaxInt64), uint64(math.MaxInt64) + 1, uint64(math.MaxUint64), uint64(math.MaxUint64) - 5,
		verifI8(-3), verifU64(1 << 63), verifU64(7)} {
		n, err := verifEncode(t, x)
		if err != nil {
			vfail(t, "encoding a %T %v: %v", x, x, err)
		}
		want := fmt.Sprint(x)
		j, _ := json.Marshal(n)
		if n.String() != want || string(j) != want {
			vfail(t, "encoding a %T %v: %#v, as text %s", x, x, n, j)
		}
		if b, ok := new(big.Int).SetString(want, 10); ok && b.IsInt64() && n != Node(Integer(b.Int64())) {
			vfail(t, "encoding a %T %v: %#v", x, x, n)
		}
	}
	for _, f := range []float64{0, 0.1, -2.5, 1e300, math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32} {
		for _, x := range []any{f, float32(f), verifF(f), &f} {
			n, err := verifEncode(t, x)
			v := reflect.Indirect(reflect.ValueOf(x)).Float()
			if err != nil || n != Node(Float(v)) {
				vfail(t, "encoding a %T %v: %#v %v", x, v, n, err)
			}
		}
	}
}

func TestVerifE02Scalars(t *testing.T) {
	for _, x := range []struct {
		in   any
		want Node
	}{
		{true, Bool(true)}, {false, Bool(false)}, {verifB(true), Bool(true)},
		{"", String("")}, {"a\x00日", String("a\x00日")}, {verifS("x"), String("x")}, {"null", String("null")},
		{nil, Nil{}}, {(*int)(nil), Nil{}}, {(*string)(nil), Nil{}}, {[]int(nil), Nil{}}, {map[string]int(nil), Nil{}}, {(*verifAsk)(nil), Nil{}},
		{(*time.Time)(nil), Nil{}}, {(*ctx.Error)(nil), Nil{}}, {(*Time)(nil), Nil{}}, {(*Duration)(nil), Nil{}}, {(*verifJ)(nil), Nil{}},
		{String("n"), String("n")}, {Bool(true), Bool(true)}, {Nil{}, Nil{}}, {ctx.Error{Err: errors.New("bad")}, String("bad")}, {&ctx.Error{Err: errors.New("bad")}, String("bad")},
	} {
		n, err := verifEncode(t, x.in)
		if err != nil || n != x.want {
			vfail(t, "encoding a %T: %#v %v instead of %#v", x.in, n, err, x.want)
		}
	}
	now := time.Now()
	if n, err := verifEncode(t, now); err != nil || !reflect.DeepEqual(n, Node(Time(now))) {
		vfail(t, "encoding a time: %#v %v", n, err)
	}
	for _, x := range []any{func() {}, TestVerifE02Scalars, (func(int) string)(nil), make(chan int), complex(1, 2), uintptr(5)} {
		n, err := verifEncode(t, x)
		if err == nil || n != nil {
			vfail(t, "encoding a %T was not refused: %#v %v", x, n, err)
		}
	}
}

func TestVerifE02SelfEncoding(t *testing.T) {
	bad := errors.New("refused")
	for _, x := range []struct {
		node Node
		err  error
	}{{String("me"), nil}, {List{}, nil}, {nil, bad}, {Nil{}, nil}, {nil, nil}} {
		k := 0
		for i, in := range []any{verifAsk{&k, x.node, x.err}, &verifAsk{&k, x.node, x.err}} {
			k = 0
			n, err := verifEncode(t, in)
			if k != 1 || !errors.Is(err, x.err) || x.err == nil && (err != nil || !reflect.DeepEqual(n, x.node)) {
				vfail(t, "a value (%d) that encodes itself as %v, %v: asked %d times, result %v %v", i, x.node, x.err, k, n, err)
			}
		}
	}
	for _, x := range []struct {
		text string
		err  error
		want Node
	}{{`"t"`, nil, String("t")}, {`true`, nil, Bool(true)}, {`12`, nil, Digits("12")}, {`null`, nil, Nil{}}, {``, bad, nil}} {
		k := 0
		n, err := verifEncode(t, verifJ{&k, x.text, x.err})
		if k != 1 || !errors.Is(err, x.err) || x.err == nil && n != x.want {
			vfail(t, "a value that writes itself as %s, %v: asked %d times, result %v %v", x.text, x.err, k, n, err)
		}
	}
}
