//go:build go1.22

package main

// C09: the hash circuits accept exactly the true digest.

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/big"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/uints"
)

type c09Hash struct {
	name string
	sum  func([]byte) []byte
	run  func(api frontend.API, m, h []uints.U8) error
	rate int
}

func c09Hashes() []c09Hash {
	return []c09Hash{
		{"keccak", refKeccak, func(api frontend.API, m, h []uints.U8) error { return VerifyKeccak256(api, m, h) }, 136},
		{"sha256", func(b []byte) []byte { s := sha256.Sum256(b); return s[:] }, func(api frontend.API, m, h []uints.U8) error { return VerifySha256(api, m, h) }, 64},
		{"keccakC", refKeccak, func(api frontend.API, m, h []uints.U8) error {
			return Keccak256Circuit{InputValue: m, HashValue: h}.Define(api)
		}, 136},
		{"sha256C", func(b []byte) []byte { s := sha256.Sum256(b); return s[:] }, func(api frontend.API, m, h []uints.U8) error {
			return Sha256Circuit{InputValue: m, HashValue: h}.Define(api)
		}, 64},
	}
}

func c09Msg(n int, kind int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch kind {
		case 0:
			b[i] = byte(i*7 + 3)
		case 1:
			b[i] = 0
		case 2:
			b[i] = 255
		case 3:
			b[i] = byte(i)
		case 4:
			b[i] = 0x80
		case 5:
			if i == n-1 {
				b[i] = 1
			}
		}
	}
	return b
}

func mcDefine(c *mcCheck) {
	c.Rule = "one case per (circuit, length) with several messages and wrong digests inside, per changed digest byte, per changed message byte; satisfied iff the digest is the message's"
	hs := c09Hashes()
	maxLen := 300
	if c.Thorough {
		maxLen = 700
	}
	c.Bounds["max_length"] = maxLen
	run := func(h c09Hash, m, d []byte) error {
		um, ud := uints.NewU8Array(m), uints.NewU8Array(d)
		return mcExecFor(bytes.Equal(h.sum(m), d), func(api frontend.API) error { return h.run(api, um, ud) })
	}
	for hi, h := range hs {
		boundary := func(n int) bool {
			for k := 0; k <= maxLen; k += h.rate {
				if n-k >= -10 && n-k <= 2 {
					return true
				}
			}
			return n < 4
		}
		for n := 0; n <= maxLen; n++ {
			if hi >= 2 && n%29 != 0 {
				continue
			}
			kinds := []int{n % 6}
			if c.Thorough || boundary(n) {
				kinds = []int{0, 1, 2, 4}
			}
			if !c.Thorough && !boundary(n) && n > 140 && n%4 != 0 {
				continue
			}
			c.add(fmt.Sprintf("%s/len%d", h.name, n), func() mcRes {
				for _, k := range kinds {
					m := c09Msg(n, k)
					d := h.sum(m)
					if r := want(run(h, m, d), true); r.Fail != "" {
						r.Fail = fmt.Sprintf("%s length %d kind %d: %s", h.name, n, k, r.Fail)
						return r
					}
					// digest of a neighbour: one byte longer, shorter, changed
					w := h.sum(append(append([]byte{}, m...), 0))
					if k == kinds[0] {
						if r := want(run(h, m, w), false); r.Fail != "" {
							r.Fail = fmt.Sprintf("%s length %d: digest of the longer message: %s", h.name, n, r.Fail)
							return r
						}
						bad := append([]byte{}, d...)
						bad[n%32] ^= 1 << (n % 8)
						if r := want(run(h, m, bad), false); r.Fail != "" {
							r.Fail = fmt.Sprintf("%s length %d: digest byte %d changed: %s", h.name, n, n%32, r.Fail)
							return r
						}
					}
					mcState(h.name, n, k)
				}
				return mcRes{Outcome: "exact"}
			})
		}
		// every digest byte, several changes
		lens := []int{0, 1, 31, 32, 55, 56, 64, 135, 136, 160}
		if c.Thorough {
			lens = append(lens, 63, 65, 119, 120, 127, 128, 137, 271, 272, 273)
		}
		for _, n := range lens {
			if hi >= 2 && n != 32 {
				continue
			}
			for b := 0; b < 32; b++ {
				if !c.Thorough && n > 32 && b%4 != n%4 && b != 0 && b != 31 {
					continue
				}
				c.add(fmt.Sprintf("%s/digest/len%d/byte%d", h.name, n, b), func() mcRes {
					m := c09Msg(n, 0)
					d := h.sum(m)
					for _, x := range []byte{1, 0x80, 0xff} {
						e := append([]byte{}, d...)
						e[b] ^= x
						mcState(h.name, n, b, x)
						if r := want(run(h, m, e), false); r.Fail != "" {
							r.Fail = fmt.Sprintf("%s length %d, digest byte %d xor %#x: %s", h.name, n, b, x, r.Fail)
							return r
						}
					}
					return mcRes{Outcome: "reject"}
				})
			}
			// compensating changes: two bytes exchanged, reversed digest
			c.add(fmt.Sprintf("%s/digest/len%d/order", h.name, n), func() mcRes {
				m := c09Msg(n, 0)
				d := h.sum(m)
				rev := make([]byte, 32)
				for i := range rev {
					rev[i] = d[31-i]
				}
				if r := want(run(h, m, rev), false); r.Fail != "" {
					return r
				}
				for i := 0; i < 31; i += 5 {
					e := append([]byte{}, d...)
					e[i], e[i+1] = e[i+1], e[i]
					if e[i] == e[i+1] {
						continue
					}
					if r := want(run(h, m, e), false); r.Fail != "" {
						return r
					}
				}
				return mcRes{Outcome: "reject"}
			})
		}
		// every message byte
		ml := []int{1, 33, 64, 136, 145}
		if c.Thorough {
			ml = append(ml, 55, 56, 63, 65, 135, 137, 160, 272, 300)
		}
		for _, n := range ml {
			if hi >= 2 {
				continue
			}
			for p := 0; p < n; p++ {
				if !c.Thorough && n > 40 && p%5 != 0 && p < n-3 {
					continue
				}
				c.add(fmt.Sprintf("%s/message/len%d/byte%d", h.name, n, p), func() mcRes {
					m := c09Msg(n, 0)
					d := h.sum(m)
					m[p] ^= 1 << (p % 8)
					return want(run(h, m, d), false)
				})
			}
		}
		// long messages: around multiples of large chunk sizes
		if hi < 2 {
			long := []int{512, 1024, 1376}
			if hi == 1 {
				long = append(long, 1825, 2048) // the longest transcript
			}
			if c.Thorough {
				long = []int{511, 512, 513, 640, 680, 768, 816, 1000, 1023, 1024, 1025, 1088, 1344, 1376, 1824, 1825, 2047, 2048, 2049, 3000, 4096}
			}
			for _, n := range long {
				c.add(fmt.Sprintf("%s/long%d", h.name, n), func() mcRes {
					m := c09Msg(n, 0)
					if r := want(run(h, m, h.sum(m)), true); r.Fail != "" {
						r.Fail = fmt.Sprintf("%s length %d: %s", h.name, n, r.Fail)
						return r
					}
					d := h.sum(m)
					d[n%32] ^= 2
					return want(run(h, m, d), false)
				})
			}
		}
		// digests that agree with the true one modulo a field or a word size
		for _, n := range []int{0, 1, 2, 3, 7, 32, 56, 64, 136, 200} {
			if hi >= 2 && n > 2 || !c.Thorough && n > 56 {
				continue
			}
			c.add(fmt.Sprintf("%s/digest/congruent/len%d", h.name, n), func() mcRes {
				m := c09Msg(n, 0)
				d := new(big.Int).SetBytes(h.sum(m))
				try := func(e *big.Int, what string) mcRes {
					if e.Sign() < 0 || e.BitLen() > 256 || e.Cmp(d) == 0 {
						return mcRes{Outcome: "reject"}
					}
					mcState("congruent", h.name, n, e)
					r := want(run(h, m, e.FillBytes(make([]byte, 32))), false)
					if r.Fail != "" {
						r.Fail = fmt.Sprintf("%s length %d, digest + %s: %s", h.name, n, what, r.Fail)
					}
					return r
				}
				for k := int64(-6); k <= 6; k++ {
					for j, f := range []*big.Int{mcQ, mcP} {
						if r := try(new(big.Int).Add(d, new(big.Int).Mul(f, big.NewInt(k))), fmt.Sprintf("%d moduli (%d)", k, j)); r.Fail != "" {
							return r
						}
					}
				}
				if !c.Thorough && n%2 == 1 {
					return mcRes{Outcome: "reject"}
				}
				for _, k := range []uint{8, 16, 32, 64, 128, 248, 253, 255} {
					for _, s := range []int64{1, -1} {
						if r := try(new(big.Int).Add(d, new(big.Int).Lsh(big.NewInt(s), k)), fmt.Sprintf("%d * 2^%d", s, k)); r.Fail != "" {
							return r
						}
					}
				}
				return mcRes{Outcome: "reject"}
			})
			// claimed bytes that are not bytes: one too large, its left
			// neighbour too small, so that the packed number is the same
			c.add(fmt.Sprintf("%s/digest/carry/len%d", h.name, n), func() mcRes {
				m := c09Msg(n, 0)
				d := h.sum(m)
				for b := 1; b < 32; b++ {
					if !c.Thorough && b%5 != n%5 {
						continue
					}
					um, ud := uints.NewU8Array(m), uints.NewU8Array(d)
					ud[b].Val, ud[b-1].Val = int(d[b])+256, modQ(big.NewInt(int64(d[b-1])-1))
					if r := want(mcExecFalse(func(api frontend.API) error { return h.run(api, um, ud) }), false); r.Fail != "" {
						r.Fail = fmt.Sprintf("%s length %d, carry between digest bytes %d and %d: %s", h.name, n, b-1, b, r.Fail)
						return r
					}
				}
				return mcRes{Outcome: "reject"}
			})
		}
		// a claimed digest that lacks bytes is not the digest
		c.add(h.name+"/digest/short", func() mcRes {
			for _, n := range []int{0, 7, 64} {
				for _, k := range []int{0, 1, 16, 31} {
					m := c09Msg(n, 0)
					d := h.sum(m)
					for _, part := range [][]byte{d[:k], d[32-k:]} {
						if r := want(run(h, m, part), false); r.Fail != "" {
							r.Fail = fmt.Sprintf("%s length %d, %d digest bytes: %s", h.name, n, k, r.Fail)
							return r
						}
					}
				}
			}
			return mcRes{Outcome: "reject"}
		})
		// the other hash, the other padding
		c.add(h.name+"/other-hash", func() mcRes {
			m := c09Msg(50, 0)
			o := hs[(hi+1)%4]
			if r := want(run(h, m, o.sum(m)), false); r.Fail != "" {
				return r
			}
			return want(run(h, m, make([]byte, 32)), false)
		})
	}
	// conformance: gnark's engine with its lookup arguments
	for hi, h := range hs[:2] {
		for _, n := range []int{0, 33, 64, 136} {
			if !c.Thorough && n > 64 {
				continue
			}
			c.addConf(fmt.Sprintf("gnark/%s/%d", h.name, n), func() mcRes {
				m := c09Msg(n, hi)
				d := h.sum(m)
				um, ud := uints.NewU8Array(m), uints.NewU8Array(d)
				if r := want(mcReal(func(api frontend.API) error { return h.run(api, um, ud) }), true); r.Fail != "" {
					return r
				}
				d[n%32] ^= 4
				ud = uints.NewU8Array(d)
				return want(mcReal(func(api frontend.API) error { return h.run(api, um, ud) }), false)
			})
		}
	}
	c.Assume = []string{"Go's SHA-256 and x/crypto's Keccak as the oracle", "gnark's lookup tables are sound"}
}
