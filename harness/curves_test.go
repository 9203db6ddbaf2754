package verifpbt

import "math/big"

// curve is a standardized elliptic curve: y² = x³ + ax + b over the integers modulo p,
// with base point (gx, gy) of order n. The numbers are those of FIPS 186-4 and RFC 5639.
type curve struct{ p, a, b, gx, gy, n *big.Int }

func hexInt(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return v
}

// curves are in the order of eccCurves.
var curves = []curve{
	{ // NIST P-256
		hexInt("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"),
		hexInt("ffffffff00000001000000000000000000000000fffffffffffffffffffffffc"),
		hexInt("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"),
		hexInt("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"),
		hexInt("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"),
		hexInt("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"),
	},
	{ // NIST P-384
		hexInt("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff"),
		hexInt("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000fffffffc"),
		hexInt("b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef"),
		hexInt("aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7"),
		hexInt("3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f"),
		hexInt("ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973"),
	},
	{ // NIST P-521
		hexInt("1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"),
		hexInt("1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffc"),
		hexInt("51953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00"),
		hexInt("c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66"),
		hexInt("11839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650"),
		hexInt("1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409"),
	},
	{ // brainpoolP256r1
		hexInt("a9fb57dba1eea9bc3e660a909d838d726e3bf623d52620282013481d1f6e5377"),
		hexInt("7d5a0975fc2c3057eef67530417affe7fb8055c126dc5c6ce94a4b44f330b5d9"),
		hexInt("26dc5c6ce94a4b44f330b5d9bbd77cbf958416295cf7e1ce6bccdc18ff8c07b6"),
		hexInt("8bd2aeb9cb7e57cb2c4b482ffc81b7afb9de27e1e3bd23c23a4453bd9ace3262"),
		hexInt("547ef835c3dac4fd97f8461a14611dc9c27745132ded8e545c1d54c72f046997"),
		hexInt("a9fb57dba1eea9bc3e660a909d838d718c397aa3b561a6f7901e0e82974856a7"),
	},
	{ // brainpoolP384r1
		hexInt("8cb91e82a3386d280f5d6f7e50e641df152f7109ed5456b412b1da197fb71123acd3a729901d1a71874700133107ec53"),
		hexInt("7bc382c63d8c150c3c72080ace05afa0c2bea28e4fb22787139165efba91f90f8aa5814a503ad4eb04a8c7dd22ce2826"),
		hexInt("4a8c7dd22ce28268b39b55416f0447c2fb77de107dcd2a62e880ea53eeb62d57cb4390295dbc9943ab78696fa504c11"),
		hexInt("1d1c64f068cf45ffa2a63a81b7c13f6b8847a3e77ef14fe3db7fcafe0cbd10e8e826e03436d646aaef87b2e247d4af1e"),
		hexInt("8abe1d7520f9c2a45cb1eb8e95cfd55262b70b29feec5864e19c054ff99129280e4646217791811142820341263c5315"),
		hexInt("8cb91e82a3386d280f5d6f7e50e641df152f7109ed5456b31f166e6cac0425a7cf3ab6af6b7fc3103b883202e9046565"),
	},
	{ // brainpoolP512r1
		hexInt("aadd9db8dbe9c48b3fd4e6ae33c9fc07cb308db3b3c9d20ed6639cca703308717d4d9b009bc66842aecda12ae6a380e62881ff2f2d82c68528aa6056583a48f3"),
		hexInt("7830a3318b603b89e2327145ac234cc594cbdd8d3df91610a83441caea9863bc2ded5d5aa8253aa10a2ef1c98b9ac8b57f1117a72bf2c7b9e7c1ac4d77fc94ca"),
		hexInt("3df91610a83441caea9863bc2ded5d5aa8253aa10a2ef1c98b9ac8b57f1117a72bf2c7b9e7c1ac4d77fc94cadc083e67984050b75ebae5dd2809bd638016f723"),
		hexInt("81aee4bdd82ed9645a21322e9c4c6a9385ed9f70b5d916c1b43b62eef4d0098eff3b1f78e2d0d48d50d1687b93b97d5f7c6d5047406a5e688b352209bcb9f822"),
		hexInt("7dde385d566332ecc0eabfa9cf7822fdf209f70024a57b1aa000c55b881f8111b2dcde494a5f485e5bca4bd88a2763aed1ca2b2fa8f0540678cd1e0f3ad80892"),
		hexInt("aadd9db8dbe9c48b3fd4e6ae33c9fc07cb308db3b3c9d20ed6639cca70330870553e5c414ca92619418661197fac10471db1d381085ddaddb58796829ca90069"),
	},
}

type point struct{ x, y *big.Int } // nil x: the point at infinity

func (c curve) add(p, q point) point {
	if p.x == nil {
		return q
	}
	if q.x == nil {
		return p
	}
	var num, den *big.Int
	if p.x.Cmp(q.x) == 0 {
		if p.y.Cmp(q.y) != 0 || p.y.Sign() == 0 {
			return point{}
		}
		num = new(big.Int).Mul(p.x, p.x)
		num.Mul(num, big.NewInt(3)).Add(num, c.a)
		den = new(big.Int).Lsh(p.y, 1)
	} else {
		num = new(big.Int).Sub(q.y, p.y)
		den = new(big.Int).Sub(q.x, p.x)
	}
	den.Mod(den, c.p)
	l := num.Mul(num, den.ModInverse(den, c.p))
	l.Mod(l, c.p)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, p.x).Sub(x, q.x).Mod(x, c.p)
	y := new(big.Int).Sub(p.x, x)
	y.Mul(y, l).Sub(y, p.y).Mod(y, c.p)
	return point{x, y}
}

// has tells whether the point satisfies the curve equation.
func (c curve) has(p point) bool {
	if p.x == nil || p.x.Cmp(c.p) >= 0 || p.y.Cmp(c.p) >= 0 {
		return false
	}
	l := new(big.Int).Mul(p.y, p.y)
	r := new(big.Int).Mul(p.x, p.x)
	r.Add(r, c.a).Mul(r, p.x).Add(r, c.b)
	return l.Sub(l, r).Mod(l, c.p).Sign() == 0
}

func (c curve) mul(k *big.Int, p point) point {
	var out point
	for i := k.BitLen() - 1; i >= 0; i-- {
		out = c.add(out, out)
		if k.Bit(i) == 1 {
			out = c.add(out, p)
		}
	}
	return out
}

// eccKey is a private number with its point on the curve.
type eccKey struct {
	curve int
	d     *big.Int
	q     point
}

// eccPool lists key pairs of a curve, one after the other by doubling and adding.
func eccPool(i, count int) []eccKey {
	c := curves[i]
	g := point{c.gx, c.gy}
	if !c.has(g) || c.mul(c.n, g).x != nil {
		panic("curve parameters are wrong")
	}
	d := new(big.Int).Rsh(c.n, 1)
	d.Sub(d, big.NewInt(123456789))
	q := c.mul(d, g)
	var out []eccKey
	for len(out) < count {
		out = append(out, eccKey{i, d, q})
		d = new(big.Int).Lsh(d, 1)
		d.Add(d, big.NewInt(1)).Mod(d, c.n)
		q = c.add(c.add(q, q), g)
	}
	return out
}

// sign makes an ECDSA signature of a hash with a key and a nonce (itself a key pair).
func (c curve) sign(hash []byte, key, nonce eccKey) (r, s *big.Int) {
	e := new(big.Int).SetBytes(hash)
	if over := len(hash)*8 - c.n.BitLen(); over > 0 {
		e.Rsh(e, uint(over))
	}
	r = new(big.Int).Mod(nonce.q.x, c.n)
	s = new(big.Int).Mul(r, key.d)
	s.Add(s, e).Mul(s, new(big.Int).ModInverse(nonce.d, c.n)).Mod(s, c.n)
	return r, s
}
