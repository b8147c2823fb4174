package main

import "strings"

var dig2b = []int{0, 1, 1, 2, 2, 3, 3, 4, 4, 4}

// encDecimal packs a value given by its sign and its p digits (p-s integer digits, then s
// fraction digits).
func encDecimal(neg bool, digits string, p, s int) []byte {
	group := func(d string) []byte {
		if d == "" {
			return nil
		}
		var v uint64
		for _, c := range d {
			v = v*10 + uint64(c-'0')
		}
		return be(v, dig2b[len(d)])
	}
	ip, fp := digits[:p-s], digits[p-s:]
	var out []byte
	k := len(ip) % 9
	out = append(out, group(ip[:k])...)
	for ; k < len(ip); k += 9 {
		out = append(out, group(ip[k:k+9])...)
	}
	for k = 0; k+9 <= len(fp); k += 9 {
		out = append(out, group(fp[k:k+9])...)
	}
	out = append(out, group(fp[k:])...)
	if neg && strings.Trim(digits, "0") == "" {
		neg = false
	}
	if neg {
		for i := range out {
			out[i] ^= 0xff
		}
	}
	out[0] ^= 0x80
	return out
}
