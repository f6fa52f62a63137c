package enc

import (
	"context"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"testing"
)

func verifNumbers() []Node {
	var out []Node
	for _, sh := range []uint{7, 8, 15, 16, 31, 32, 53, 62, 63} {
		for d := int64(-2); d <= 2; d++ {
			b := new(big.Int).Lsh(big.NewInt(1), sh)
			b.Add(b, big.NewInt(d))
			for _, x := range []*big.Int{b, new(big.Int).Neg(b)} {
				if x.IsInt64() {
					out = append(out, Integer(x.Int64()))
				}
				out = append(out, Digits(x.String()), Digits(x.String()+".0"), Digits(x.String()+".75"))
				f, _ := new(big.Float).SetInt(x).Float64()
				out = append(out, Float(f), Float(f+0.5))
			}
		}
	}
	for i := int64(-3); i < 300; i += 7 {
		out = append(out, Integer(i), Float(float64(i)+0.25), Digits(strconv.FormatInt(i, 10)))
	}
	for _, f := range []float64{0, -0.5, 0.999, 1e10, 1e18, 1e19, -1e19, 1e20, 1e300, -1e300, 3.4028235e38, 3.5e38, math.MaxFloat64, math.SmallestNonzeroFloat64, math.NaN(), math.Inf(1), math.Inf(-1), 9007199254740993, 18446744073709551615, 18446744073709549568, 9223372036854774784} {
		out = append(out, Float(f))
	}
	for _, s := range []string{"0", "-0", "-0.5", "1e3", "1.5e3", "2.5e-1", "1E2", "-1.25e2", "18446744073709551615", "18446744073709551616", "9223372036854775808", "-9223372036854775809", "255", "256", "-1", "99999999999999999999999", "0.1", "0.3333333333333333333", "123.456", "1e400", "3.4e39", "16777217", "1.7976931348623157e308", "007", "1.23abc", "abc", "", ".", "1..2", "1.2.3", "+5", "0x10", "1_000"} {
		out = append(out, Digits(s))
	}
	return out
}

// the exact value, nil when there is none
func verifValue(n Node) *big.Rat {
	switch n := n.(type) {
	case Integer:
		return new(big.Rat).SetInt64(int64(n))
	case Float:
		if math.IsNaN(float64(n)) || math.IsInf(float64(n), 0) {
			return nil
		}
		return new(big.Rat).SetFloat64(float64(n))
	case Digits:
		s := string(n)
		if s == "" || strings.Trim(s, "0123456789.eE+-") != "" {
			return nil
		}
		if r, ok := new(big.Rat).SetString(s); ok {
			return r
		}
	}
	return nil
}

type verifSmall int8
type verifReal float32

func TestVerifE01(t *testing.T) {
	c := context.Background()
	targets := []any{int(0), int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), float32(0), float64(0), verifSmall(0), verifReal(0)}
	for _, n := range verifNumbers() {
		for _, zero := range targets {
			p := reflect.New(reflect.TypeOf(zero))
			v := p.Elem()
			v.Set(reflect.ValueOf(77).Convert(v.Type()))
			in := fmt.Sprintf("decoding %#v into a %v", n, v.Type())
			var err error
			vnopanic(t, in, func() { err = Unmarshal(c, n, p.Interface()) })
			got := fmt.Sprint(v.Interface())
			if err != nil && got != "77" {
				vfail(t, "%s: refused with %v, yet the target changed from 77 to %s", in, err, got)
			}
			exact := verifValue(n)
			d, _ := n.(Digits)
			plain := !strings.ContainsAny(string(d), "eE+_x") && exact != nil
			switch v.Kind() {
			case reflect.Float32, reflect.Float64:
				var f float64
				ok := true
				switch n := n.(type) {
				case Integer:
					f = float64(n)
				case Float:
					f = float64(n)
				case Digits:
					var e error
					f, e = strconv.ParseFloat(string(n), 64)
					ok = e == nil
				}
				if v.Kind() == reflect.Float32 {
					if !math.IsInf(f, 0) && math.Abs(f) > math.MaxFloat32 {
						ok = false
					}
					f = float64(float32(f))
				}
				if (err == nil) != ok {
					vfail(t, "%s: error %v, while the target can hold the number: %v", in, err, ok)
				}
				if err == nil && v.Float() != f && !(math.IsNaN(f) && math.IsNaN(v.Float())) {
					vfail(t, "%s: stored %v instead of %v", in, v.Float(), f)
				}
			default:
				var whole *big.Int
				fits := false
				if exact != nil {
					whole = new(big.Int).Quo(exact.Num(), exact.Denom())
					w := new(big.Int).Set(whole)
					bits := v.Type().Bits()
					if v.CanInt() {
						fits = w.IsInt64() && w.Int64() >= -1<<(bits-1) && w.Int64() <= 1<<(bits-1)-1
					} else {
						fits = w.IsUint64() && (bits == 64 || w.Uint64() < 1<<bits)
					}
				}
				negative := exact != nil && exact.Sign() < 0 || strings.HasPrefix(string(d), "-")
				if err == nil && !fits {
					vfail(t, "%s: stored %s, while the number does not fit", in, got)
				}
				if err == nil && got != whole.String() {
					vfail(t, "%s: stored %s instead of %s", in, got, whole)
				}
				if err != nil && fits && (d == "" || plain) && !(v.CanUint() && negative) {
					vfail(t, "%s: refused with %v, while the target can hold %s", in, err, whole)
				}
			}
		}
	}
}
