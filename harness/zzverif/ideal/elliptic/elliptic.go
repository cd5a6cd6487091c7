// Package elliptic is a model of crypto/elliptic that knows the order of P-256.
package elliptic

import "github.com/Bren2010/katie/zzverif/ideal/big"

type CurveParams struct {
	P, N, B, Gx, Gy *big.Int
	BitSize         int
	Name            string
}

type Curve interface{ Params() *CurveParams }

type p256 struct{}

func (p256) Params() *CurveParams {
	return &CurveParams{N: big.Order(), BitSize: 256, Name: "P-256"}
}

func P256() Curve { return p256{} }
