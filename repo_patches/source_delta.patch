From d76e4b0ba5af53240b56ca4c7fc05f59761e5351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 01/41] fix: report a failed UnreadByte while scanning

scanForm and scanExponent ignored the error, so that the number was
assembled from misplaced bytes.
---
 scan.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scan.go b/scan.go
index 69f9a25..216a314 100644
--- a/scan.go
+++ b/scan.go
@@ -131,7 +131,9 @@ func (z *Big) scanForm(r io.ByteScanner) (form, error) {
 	case 's', 'S':
 		signal = true
 	case 'n', 'N':
-		r.UnreadByte()
+		if err := r.UnreadByte(); err != nil {
+			return 0, err
+		}
 	default:
 		return 0, ConversionSyntax
 	}
@@ -309,7 +311,9 @@ func (z *Big) scanExponent(r io.ByteScanner) error {
 	case '-':
 		neg = true
 	default:
-		r.UnreadByte()
+		if err := r.UnreadByte(); err != nil {
+			return err
+		}
 	}
 
 	max := uint64(arith.MaxInt)
-- 
2.43.0


From 093e5fceeae1cee03ca4ceeae109c264f8558c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:47 +0000
Subject: [PATCH 02/41] fix: leave a well-formed NaN behind when scanning fails

A read error in the middle of the mantissa left a coefficient without its
precision, and a syntax error left the digits read so far as NaN payload.
---
 scan.go | 38 ++++++++++++++------------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/scan.go b/scan.go
index 216a314..29cf31e 100644
--- a/scan.go
+++ b/scan.go
@@ -37,19 +37,12 @@ func (z *Big) scan(r io.ByteScanner) error {
 	// Sign
 	neg, err := scanSign(r)
 	if err != nil {
-		return err
+		return z.scanFailed(err)
 	}
 
 	z.form, err = z.scanForm(r)
 	if err != nil {
-		switch err {
-		case ConversionSyntax:
-			z.form = qnan
-			z.Context.Conditions |= ConversionSyntax
-		default:
-			return err
-		}
-		return nil
+		return z.scanFailed(err)
 	}
 
 	if z.isSpecial() {
@@ -61,17 +54,7 @@ func (z *Big) scan(r io.ByteScanner) error {
 
 	// Mantissa (as a unsigned integer)
 	if err := z.scanMant(r); err != nil {
-		switch err {
-		case io.EOF:
-			z.form = qnan
-			return io.ErrUnexpectedEOF
-		case ConversionSyntax:
-			z.form = qnan
-			z.Context.Conditions |= ConversionSyntax
-		default:
-			return err
-		}
-		return nil
+		return z.scanFailed(err)
 	}
 
 	// Exponent
@@ -81,11 +64,8 @@ func (z *Big) scan(r io.ByteScanner) error {
 			z.xflow(MinScale, false, neg)
 		case Overflow:
 			z.xflow(MinScale, true, neg)
-		case ConversionSyntax:
-			z.form = qnan
-			z.Context.Conditions |= ConversionSyntax
 		default:
-			return err
+			return z.scanFailed(err)
 		}
 		return nil
 	}
@@ -97,6 +77,16 @@ func (z *Big) scan(r io.ByteScanner) error {
 	return nil
 }
 
+// scanFailed sets z, which might be half scanned, to NaN.
+func (z *Big) scanFailed(err error) error {
+	z.SetNaN(false)
+	if err == ConversionSyntax {
+		z.Context.Conditions |= ConversionSyntax
+		return nil
+	}
+	return err
+}
+
 func scanSign(r io.ByteScanner) (bool, error) {
 	ch, err := r.ReadByte()
 	if err != nil {
-- 
2.43.0


From ab3db23bfdf93afff52e63ecd018e1ebde132257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:01 +0000
Subject: [PATCH 03/41] fix: reject texts outside the documented grammar

"infinity" followed by anything, a lone point and an exponent without digits
were accepted as numbers.
---
 scan.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/scan.go b/scan.go
index 29cf31e..87a90d7 100644
--- a/scan.go
+++ b/scan.go
@@ -58,7 +58,7 @@ func (z *Big) scan(r io.ByteScanner) error {
 	}
 
 	// Exponent
-	if err := z.scanExponent(r); err != nil && err != io.EOF {
+	if err := z.scanExponent(r); err != nil {
 		switch err {
 		case Underflow:
 			z.xflow(MinScale, false, neg)
@@ -197,6 +197,13 @@ func (z *Big) scanInfinity(r io.ByteScanner) (form, error) {
 			return 0, ConversionSyntax
 		}
 	}
+	// Nothing may follow.
+	if _, err := r.ReadByte(); err != io.EOF {
+		if err != nil {
+			return 0, err
+		}
+		return 0, ConversionSyntax
+	}
 	return inf, nil
 }
 
@@ -260,6 +267,11 @@ Loop:
 		}
 	}
 
+	// There has to be at least one digit.
+	if len(buf) == 0 {
+		return ConversionSyntax
+	}
+
 	if big || z.compact == c.Inflated {
 		z.unscaled.SetString(string(buf), 10)
 		z.compact = c.Inflated
@@ -292,6 +304,9 @@ func (z *Big) scanExponent(r io.ByteScanner) error {
 
 	ch, err = r.ReadByte()
 	if err != nil {
+		if err == io.EOF {
+			return ConversionSyntax
+		}
 		return err
 	}
 	var neg bool
@@ -312,10 +327,13 @@ func (z *Big) scanExponent(r io.ByteScanner) error {
 	}
 
 	var exp uint64
-	for {
+	for digits := 0; ; digits++ {
 		ch, err := r.ReadByte()
 		if err != nil {
 			if err == io.EOF {
+				if digits == 0 {
+					return ConversionSyntax
+				}
 				break
 			}
 			return err
-- 
2.43.0


From d5faa11f1d1875e9178b53c544fa0e1b5ad00e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:22 +0000
Subject: [PATCH 04/41] fix: read the whole exponent and do not let it wrap

An exponent out of range ended the scan at once, with the rest of the text
unread and unchecked, and fraction digits could make the exponent wrap.
---
 scan.go | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/scan.go b/scan.go
index 87a90d7..cff47bd 100644
--- a/scan.go
+++ b/scan.go
@@ -321,12 +321,13 @@ func (z *Big) scanExponent(r io.ByteScanner) error {
 		}
 	}
 
-	max := uint64(arith.MaxInt)
-	if neg {
-		max++ // -math.MinInt
-	}
+	// Not -math.MinInt: the scale, which is -exp, has to fit, too.
+	const max = uint64(arith.MaxInt)
 
-	var exp uint64
+	var (
+		exp  uint64
+		flow bool // out of range; the rest still has to be read
+	)
 	for digits := 0; ; digits++ {
 		ch, err := r.ReadByte()
 		if err != nil {
@@ -345,22 +346,23 @@ func (z *Big) scanExponent(r io.ByteScanner) error {
 		if d >= 10 {
 			return ConversionSyntax
 		}
-		const cutoff = math.MaxUint64/10 + 1
-		if exp >= cutoff {
-			return ConversionSyntax
+		if flow {
+			continue
 		}
-		exp *= 10
-
-		v := exp + uint64(d)
-		if v < exp || v > max {
-			if neg {
-				return Underflow
-			}
-			return Overflow
+		if exp > max/10 || exp*10 > max-uint64(d) {
+			flow = true
+			continue
 		}
-		exp = v
+		exp = exp*10 + uint64(d)
 	}
 
+	// z.exp is not positive here, so only the subtraction can wrap.
+	if flow || (neg && exp > max-uint64(-z.exp)) {
+		if neg {
+			return Underflow
+		}
+		return Overflow
+	}
 	if neg {
 		z.exp -= int(exp)
 	} else {
-- 
2.43.0


From 7693248f82c0c183366b25ceffb2f9987c9f9aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:45 +0000
Subject: [PATCH 05/41] fix: scan one space-delimited token

Scan took the space after a number, and any before it, for a syntax error, so
that fmt.Sscan could not read two decimals. What is left of a token after a
syntax error is no longer taken for the next one.
---
 big.go  |  3 ++-
 scan.go | 44 ++++++++++++++++++++++++++++++++------------
 2 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/big.go b/big.go
index ff4d9cd..6128362 100644
--- a/big.go
+++ b/big.go
@@ -1404,8 +1404,9 @@ func (x *Big) Scale() int {
 	return -x.exp
 }
 
-// Scan implements fmt.Scanner.
+// Scan implements fmt.Scanner. It reads one space-delimited token.
 func (z *Big) Scan(state fmt.ScanState, verb rune) error {
+	state.SkipSpace()
 	return z.scan(byteReader{state})
 }
 
diff --git a/scan.go b/scan.go
index cff47bd..3561a33 100644
--- a/scan.go
+++ b/scan.go
@@ -4,6 +4,8 @@ import (
 	"fmt"
 	"io"
 	"math"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/ericlagergren/decimal/internal/arith"
 	"github.com/ericlagergren/decimal/internal/c"
@@ -37,12 +39,12 @@ func (z *Big) scan(r io.ByteScanner) error {
 	// Sign
 	neg, err := scanSign(r)
 	if err != nil {
-		return z.scanFailed(err)
+		return z.scanFailed(r, err)
 	}
 
 	z.form, err = z.scanForm(r)
 	if err != nil {
-		return z.scanFailed(err)
+		return z.scanFailed(r, err)
 	}
 
 	if z.isSpecial() {
@@ -54,7 +56,7 @@ func (z *Big) scan(r io.ByteScanner) error {
 
 	// Mantissa (as a unsigned integer)
 	if err := z.scanMant(r); err != nil {
-		return z.scanFailed(err)
+		return z.scanFailed(r, err)
 	}
 
 	// Exponent
@@ -65,7 +67,7 @@ func (z *Big) scan(r io.ByteScanner) error {
 		case Overflow:
 			z.xflow(MinScale, true, neg)
 		default:
-			return z.scanFailed(err)
+			return z.scanFailed(r, err)
 		}
 		return nil
 	}
@@ -78,13 +80,21 @@ func (z *Big) scan(r io.ByteScanner) error {
 }
 
 // scanFailed sets z, which might be half scanned, to NaN.
-func (z *Big) scanFailed(err error) error {
+func (z *Big) scanFailed(r io.ByteScanner, err error) error {
 	z.SetNaN(false)
-	if err == ConversionSyntax {
-		z.Context.Conditions |= ConversionSyntax
-		return nil
+	if err != ConversionSyntax {
+		return err
+	}
+	z.Context.Conditions |= ConversionSyntax
+	// Take the rest of the token as well.
+	for {
+		if _, err := r.ReadByte(); err != nil {
+			if err == io.EOF {
+				return nil
+			}
+			return err
+		}
 	}
-	return err
 }
 
 func scanSign(r io.ByteScanner) (bool, error) {
@@ -379,12 +389,22 @@ type byteReader struct {
 	fmt.ScanState
 }
 
+// ReadByte returns io.EOF at the end of the token, which is at the next space.
 func (r byteReader) ReadByte() (byte, error) {
 	ch, size, err := r.ReadRune()
-	if size != 1 && err == nil {
-		err = fmt.Errorf("invalid rune %#U", ch)
+	if err != nil {
+		return 0, err
+	}
+	if unicode.IsSpace(ch) {
+		if err := r.UnreadRune(); err != nil {
+			return 0, err
+		}
+		return 0, io.EOF
+	}
+	if size != 1 {
+		return utf8.RuneSelf, nil // not part of any number
 	}
-	return byte(ch), err
+	return byte(ch), nil
 }
 
 func (r byteReader) UnreadByte() error {
-- 
2.43.0


From a86d51c18343de525c9457c76d4b9f562a21adac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:55 +0000
Subject: [PATCH 06/41] fix: Rem: compute the exponent before z is written

With z == x or z == y the exponent of the result was read from the result.
---
 big_ctx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index 3535589..43c190f 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2744,8 +2744,9 @@ func (c Context) Rem(z, x, y *Big) *Big {
 		// TODO(eric): See if we can get rid of tmp. See issue
 		// #72.
 		var tmp Big
+		exp := min(x.exp, y.exp) // z might be x or y
 		_, z = c.quorem(&tmp, z, x, y)
-		z.exp = min(x.exp, y.exp)
+		z.exp = exp
 		tmp.exp = 0
 		if tmp.Precision() > c.precision() {
 			return z.setNaN(DivisionImpossible, qnan, quointprec)
-- 
2.43.0


From 95b4cbd4f1fc34ad15bb83cfa76ceb6083adea70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:56 +0000
Subject: [PATCH 07/41] fix: Pow: read the operands before z is written

With z == x the sign of x, and with z == y the integer y was read from the
receiver after it had been set to 1.  The conditions of a temporary were read
after it had been released.
---
 big_ctx.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 43c190f..98ca5d3 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2049,12 +2049,11 @@ func (c Context) powInt(z, x, y *Big) *Big {
 	} else {
 		x0.Copy(x)
 	}
-	z.SetUint64(1)
-	sign := x.Signbit()
-
+	// z might be x or y.
 	y0 := y.Int(nil)
-	sign = sign && y0.Bit(0) == 1
+	sign := x.Signbit() && y0.Bit(0) == 1
 	y0.Abs(y0)
+	z.SetUint64(1)
 	for y0.Sign() != 0 {
 		if y0.Bit(0) != 0 {
 			ctx.Mul(z, z, x0)
@@ -2068,8 +2067,8 @@ func (c Context) powInt(z, x, y *Big) *Big {
 		y0.Rsh(y0, 1)
 		ctx.Mul(x0, x0, x0)
 		if x0.IsNaN(0) {
-			putDec(x0)
 			z.Context.Conditions |= x0.Context.Conditions
+			putDec(x0)
 			return z.SetNaN(false)
 		}
 	}
@@ -2081,8 +2080,8 @@ func (c Context) powInt(z, x, y *Big) *Big {
 func (c Context) powUint64(z, x *Big, y uint64) *Big {
 	x0 := getDec(c).Copy(x)
 
+	sign := x.Signbit() && y&1 == 1 // z might be x
 	z.SetUint64(1)
-	sign := x.Signbit() && y&1 == 1
 	for y != 0 {
 		if y&1 != 0 {
 			c.Mul(z, z, x0)
@@ -2096,8 +2095,8 @@ func (c Context) powUint64(z, x *Big, y uint64) *Big {
 		y >>= 1
 		c.Mul(x0, x0, x0)
 		if x0.IsNaN(0) {
-			putDec(x0)
 			z.Context.Conditions |= x0.Context.Conditions
+			putDec(x0)
 			return z.SetNaN(false)
 		}
 	}
-- 
2.43.0


From 86c5fccc09044e235a8d672112d344da18e32b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:29 +0000
Subject: [PATCH 08/41] fix: FMA: do not let z's earlier contents into the
 computation

---
 big_ctx.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 98ca5d3..3d1b35f 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1183,14 +1183,19 @@ func (c Context) FMA(z, x, y, u *Big) *Big {
 	// z.FMA(x, y, z) without clobbering z partway through.
 	z0 := z
 	if z == u {
-		z0 = WithContext(c)
+		z0 = WithContext(z.Context)
 	}
+	// Only an invalid multiplication ends the operation here, not one that z
+	// was the result of earlier.
+	conds := z.Context.Conditions
+	z0.Context.Conditions = 0
 	c.mul(z0, x, y)
-	if z0.Context.Conditions&InvalidOperation != 0 {
-		return z.setShared(z0)
+	if z0.Context.Conditions&InvalidOperation == 0 {
+		c.Add(z0, z0, u)
 	}
-	c.Add(z0, z0, u)
-	return z.setShared(z0)
+	conds |= z0.Context.Conditions
+	z.setShared(z0).Context.Conditions = conds
+	return z
 }
 
 // Hypot sets z to Sqrt(p*p + q*q) and returns z.
-- 
2.43.0


From f1ed6545ad040279d6889fae3b52ec5443b3f082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:15 +0000
Subject: [PATCH 09/41] fix: NextMinus, NextPlus: keep x and z's conditions

---
 big_ctx.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 3d1b35f..75c6ab2 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1800,9 +1800,9 @@ func (c Context) NextMinus(z, x *Big) *Big {
 	}
 
 	c.RoundingMode = ToNegativeInf
-	c.Set(z, x)
+	conds := z.Context.Conditions
 	c.Sub(z, x, new(Big).SetMantScale(1, -c.etiny()+1))
-	z.Context.Conditions &= c.Conditions
+	z.Context.Conditions = conds
 	return z
 }
 
@@ -1830,9 +1830,9 @@ func (c Context) NextPlus(z, x *Big) *Big {
 	}
 
 	c.RoundingMode = ToPositiveInf
-	c.Set(z, x)
+	conds := z.Context.Conditions
 	c.Add(z, x, new(Big).SetMantScale(1, -c.etiny()+1))
-	z.Context.Conditions &= c.Conditions
+	z.Context.Conditions = conds
 	return z
 }
 
-- 
2.43.0


From bb8d3725fc622ac67d6f5d9bb8e27d9e3c95757b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:16 +0000
Subject: [PATCH 10/41] fix: Pow: let only this operation's conditions end the
 loop

---
 big_ctx.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/big_ctx.go b/big_ctx.go
index 75c6ab2..c666f9c 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2058,6 +2058,10 @@ func (c Context) powInt(z, x, y *Big) *Big {
 	y0 := y.Int(nil)
 	sign := x.Signbit() && y0.Bit(0) == 1
 	y0.Abs(y0)
+	// Only conditions raised in the loop may end it.
+	conds := z.Context.Conditions
+	z.Context.Conditions = 0
+	defer func() { z.Context.Conditions |= conds }()
 	z.SetUint64(1)
 	for y0.Sign() != 0 {
 		if y0.Bit(0) != 0 {
@@ -2086,6 +2090,10 @@ func (c Context) powUint64(z, x *Big, y uint64) *Big {
 	x0 := getDec(c).Copy(x)
 
 	sign := x.Signbit() && y&1 == 1 // z might be x
+	// Only conditions raised in the loop may end it.
+	conds := z.Context.Conditions
+	z.Context.Conditions = 0
+	defer func() { z.Context.Conditions |= conds }()
 	z.SetUint64(1)
 	for y != 0 {
 		if y&1 != 0 {
-- 
2.43.0


From a3c291d6a8bc864a47b342015404f9b4bb319b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 11/41] fix: Sqrt: keep the sign of zero when z is x

---
 big_ctx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index c666f9c..23a09a9 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2885,7 +2885,8 @@ func (c Context) Sqrt(z, x *Big) *Big {
 	ideal := -((-x.Scale() - (-x.Scale() & 1)) / 2)
 	if xs := x.Sign(); xs <= 0 {
 		if xs == 0 {
-			return z.SetMantScale(0, ideal).CopySign(z, x)
+			neg := x.Signbit() // z might be x
+			return z.SetMantScale(0, ideal).SetSignbit(neg)
 		}
 		z.Context.Conditions |= InvalidOperation
 		return z.SetNaN(false)
-- 
2.43.0


From f952757959953f0a24a30a42d3715a2be7938cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:18 +0000
Subject: [PATCH 12/41] fix: QuoRem: give the remainder its own exponent and
 sign

---
 big_ctx.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 23a09a9..76eb934 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2506,26 +2506,34 @@ func (c Context) QuoRem(z, x, y, r *Big) (*Big, *Big) {
 		return z, r
 	}
 
-	sign := (x.form & signbit) ^ (y.form & signbit)
+	var (
+		sign = (x.form & signbit) ^ (y.form & signbit)
+		xneg = x.form & signbit // z might be x
+		rexp = min(x.exp, y.exp)
+	)
 	if x.IsFinite() && y.IsFinite() {
 		if y.isZero() {
 			if x.isZero() {
 				// 0 / 0
 				z.setNaN(InvalidOperation|DivisionUndefined, qnan, quo00)
 				r.setNaN(InvalidOperation|DivisionUndefined, qnan, quo00)
+				return z, r
 			}
 			// x / 0
 			z.Context.Conditions |= DivisionByZero
 			r.Context.Conditions |= DivisionByZero
-			return z.SetInf(sign != 0), r.SetInf(x.Signbit())
+			return z.SetInf(sign != 0), r.SetInf(xneg != 0)
 		}
 		if x.isZero() {
 			// 0 / y
-			z.setZero((x.form^y.form)&signbit, 0)
-			r.setZero(x.form, y.exp-x.exp)
+			z.setZero(sign, 0)
+			r.setZero(xneg, rexp)
 			return c.fix(z), c.fix(r)
 		}
-		return c.quorem(z, r, x, y)
+		c.quorem(z, r, x, y)
+		z.exp = 0
+		r.exp = rexp
+		return z, r
 	}
 
 	// NaN / NaN
@@ -2542,12 +2550,12 @@ func (c Context) QuoRem(z, x, y, r *Big) (*Big, *Big) {
 			return z, r.Set(z)
 		}
 		// ±Inf / y
-		return z.SetInf(sign != 0), r.SetInf(x.form&signbit != 0)
+		return z.SetInf(sign != 0), r.SetInf(xneg != 0)
 	}
 	// x / ±Inf
 	z.Context.Conditions |= Clamped
 	z.setZero(sign, c.etiny())
-	r.setZero(x.form&signbit, 0)
+	r.setZero(xneg, 0)
 	return z, r
 }
 
-- 
2.43.0


From 1ecb2605261c6bcca67f0cfd6593c15c04f21aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:43 +0000
Subject: [PATCH 13/41] fix: Atan: sum the series with the guard digits of the
 rest

---
 big_ctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index 76eb934..565588c 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -444,7 +444,7 @@ func (c Context) Atan(z, x *Big) *Big {
 	}
 
 	y, ySq, ySqPlus1, segment, halved := ctx.prepAtan(z, x) // z == y, maybe.
-	result := BinarySplitDynamic(c,
+	result := BinarySplitDynamic(ctx,
 		func(_ uint64) *Big { return y },
 		ctx.getAtanP(ySq),
 		func(_ uint64) *Big { return one.get() },
-- 
2.43.0


From 0c31a06188c58f474de059b9dec90ad5f9f6a452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:19 +0000
Subject: [PATCH 14/41] fix: Quo: do not round against an overwritten divisor

---
 big_ctx.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 565588c..6ed9bee 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2297,7 +2297,7 @@ func (c Context) Quo(z, x, y *Big) *Big {
 				}
 				return z
 			}
-			yb := z.unscaled.SetUint64(y.compact)
+			yb := new(big.Int).SetUint64(y.compact)
 			yb = arith.MulBigPow10(yb, yb, uint64(-shift))
 			xb := new(big.Int).SetUint64(x.compact)
 			rb := new(big.Int)
@@ -2326,19 +2326,14 @@ func (c Context) Quo(z, x, y *Big) *Big {
 	shift := zp + yp - x.Precision()
 	z.exp = (x.exp - y.exp) - shift
 
-	var tmp *big.Int
 	if shift > 0 {
-		tmp = alias(&z.unscaled, yb)
-		xb = arith.MulBigPow10(tmp, xb, uint64(shift))
+		xb = arith.MulBigPow10(alias(&z.unscaled, yb), xb, uint64(shift))
 	} else if shift < 0 {
-		tmp = alias(&z.unscaled, xb)
-		yb = arith.MulBigPow10(tmp, yb, uint64(-shift))
-	} else {
-		tmp = new(big.Int)
+		yb = arith.MulBigPow10(new(big.Int), yb, uint64(-shift))
 	}
 
 	expadj := ideal - z.exp
-	if z.quoBig(m, xb, x.form, yb, y.form, alias(tmp, &z.unscaled)) && expadj > 0 {
+	if z.quoBig(m, xb, x.form, yb, y.form, new(big.Int)) && expadj > 0 {
 		c.simpleReduce(z)
 	}
 	return z
@@ -2402,6 +2397,10 @@ func (z *Big) quoBig(
 	z.compact = cst.Inflated
 	z.form = xneg ^ yneg
 
+	if y == &z.unscaled {
+		// The quotient replaces y, which is needed to round.
+		y = new(big.Int).Set(y)
+	}
 	q, r := z.unscaled.QuoRem(x, y, r)
 	if r.Sign() == 0 {
 		z.norm()
-- 
2.43.0


From cae9122a5c1bb85ce47ec75817e0332f93e17c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:19 +0000
Subject: [PATCH 15/41] fix: Atan2: z may be x, y may be NaN

---
 big_ctx.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 6ed9bee..849e66c 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -621,7 +621,7 @@ func (c Context) Atan2(z, y, x *Big) *Big {
 	if z.invalidContext(c) {
 		return z
 	}
-	if z.checkNaNs(x, x, atan) {
+	if z.checkNaNs(y, x, atan) {
 		return z
 	}
 
@@ -636,8 +636,9 @@ func (c Context) Atan2(z, y, x *Big) *Big {
 		ctx.atan2Specials(z, x, y)
 		z.form |= sb
 	default:
+		xs := x.Sign() // z might be x
 		ctx.Atan(z, ctx.Quo(z, y, x))
-		if x.Sign() < 0 {
+		if xs < 0 {
 			pi := ctx.pi(getDec(ctx))
 			if z.Sign() <= 0 {
 				ctx.Add(z, z, pi)
-- 
2.43.0


From 24ba65b58621bf017357864fdf9590f4d7cc00c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:20 +0000
Subject: [PATCH 16/41] fix: Tan: z may be x

---
 big_ctx.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 849e66c..498ce6e 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -3121,6 +3121,10 @@ func (c Context) Tan(z, x *Big) *Big {
 	ctx := c.dup()
 	ctx.Precision += defaultExtraPrecision
 
+	if z == x {
+		x = getDec(ctx).Copy(x)
+		defer putDec(x)
+	}
 	x0, ok := ctx.prepTan(z, x)
 	if !ok {
 		z.Context.Conditions |= InvalidOperation
@@ -3166,11 +3170,6 @@ func (c Context) Tan(z, x *Big) *Big {
 }
 
 func (c Context) prepTan(z, x *Big) (*Big, bool) {
-	if z == x {
-		x = getDec(c)
-		defer putDec(x)
-	}
-
 	if pi2 := c.pi2(z); x.CmpAbs(pi2) >= 0 {
 		// For tan to work correctly the input must be in (-2pi,
 		// 2pi)
-- 
2.43.0


From 6498d34e65757735e0754cc6d951b4e23a86c37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 17/41] fix: SetFloat: set all of z

---
 big.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/big.go b/big.go
index 6128362..b063d71 100644
--- a/big.go
+++ b/big.go
@@ -1472,10 +1472,12 @@ func (z *Big) SetFloat(x *big.Float) *Big {
 
 	neg := x.Signbit()
 	if x.Sign() == 0 {
+		z.form = finite
 		if neg {
 			z.form |= signbit
 		}
 		z.compact = 0
+		z.exp = 0
 		z.precision = 1
 		return z
 	}
@@ -1490,7 +1492,7 @@ func (z *Big) SetFloat(x *big.Float) *Big {
 		}
 	}
 
-	if mant, acc := x0.Uint64(); acc == big.Exact {
+	if mant, acc := x0.Uint64(); acc == big.Exact && mant != c.Inflated {
 		z.compact = mant
 		z.precision = arith.Length(mant)
 	} else {
-- 
2.43.0


From af140fc50da4eff63666fae49a6a6ee3ce48a697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:03 +0000
Subject: [PATCH 18/41] fix: BinarySplit: multiply all denominators of three
 and four terms

---
 binary_spliting.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/binary_spliting.go b/binary_spliting.go
index 5e5856f..211961a 100644
--- a/binary_spliting.go
+++ b/binary_spliting.go
@@ -330,10 +330,6 @@ func (s *apbqBinarySplitState) calculate(ctx Context, start, end uint64, A, P, B
 		// T_2 = A3 * B1 * B2 * P1 * P2 * P3; T_2 is finished.
 		ctx.Mul(t2, t2, s.B /* B12 */)
 
-		// T_1 = A2 * B1 * __ P1 * P2 * __
-		//                 B3           Q3
-		ctx.Mul(t1, t1, B2)
-
 		B3 := B(n3)
 		// T_0 = A1 * B2 * B3 * P1 * __ * __
 		//                           Q2   Q3
@@ -393,21 +389,27 @@ func (s *apbqBinarySplitState) calculate(ctx Context, start, end uint64, A, P, B
 		ctx.Mul(s.P, s.P, P(n2)) // P = P12.
 		ctx.Mul(t1, t1, s.P)     // T_1 needs: B134.
 		ctx.Mul(s.P, s.P, P(n3)) // P = P123.
-		ctx.Mul(t2, t2, s.P)     // T_2 needs: B12.
+		ctx.Mul(t2, t2, s.P)     // T_2 needs: B124.
 		ctx.Mul(s.P, s.P, P(n4)) // P = P1234; P is finished.
 		ctx.Mul(t3, t3, s.P)     // T_3 needs: B123.
 
 		b1 := new(Big).Copy(B(n1))
 		ctx.Mul(t3, t3, b1)            // T_3 needs: B23.
-		ctx.Mul(t2, t2, b1)            // T_2 needs: B2.
-		ctx.Mul(t1, t1, b1)            // T_1 is finished.
+		ctx.Mul(t2, t2, b1)            // T_2 needs: B24.
+		ctx.Mul(t1, t1, b1)            // T_1 needs: B34.
 		s.B.Copy(B(n2))                // B = B2.
-		ctx.Mul(t2, t2, s.B /* B2 */)  // T_2 is finished.
-		ctx.Mul(s.B, s.B, B(n3))       // B = B23.
+		ctx.Mul(t2, t2, s.B /* B2 */)  // T_2 needs: B4.
+		b3 := B(n3)
+		ctx.Mul(t1, t1, b3)            // T_1 needs: B4.
+		ctx.Mul(s.B, s.B, b3)          // B = B23.
 		ctx.Mul(t3, t3, s.B /* B23 */) // T_3 is finished.
-		ctx.Mul(s.T, s.T, s.B)         // T_0 is finished.
+		ctx.Mul(s.T, s.T, s.B)         // T_0 needs: B4.
 		ctx.Mul(s.B, s.B, b1)          // B = B123.
-		ctx.Mul(s.B, s.B, B(n4))       // B = B1234.
+		b4 := B(n4)
+		ctx.Mul(t2, t2, b4)      // T_2 is finished.
+		ctx.Mul(t1, t1, b4)      // T_1 is finished.
+		ctx.Mul(s.T, s.T, b4)    // T_0 is finished.
+		ctx.Mul(s.B, s.B, b4)    // B = B1234.
 
 		ctx.Add(s.T, s.T, t1) // T = T_0 + T_1
 		ctx.Add(s.T, s.T, t2) // T = T_0 + T_1 + T_2
-- 
2.43.0


From 54c4e55298447f30bf9e009bbbfe3a8efc084927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:53 +0000
Subject: [PATCH 19/41] fix: Wallis: set z when there is only one term

---
 continued_frac.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/continued_frac.go b/continued_frac.go
index b996b49..744bdf2 100644
--- a/continued_frac.go
+++ b/continued_frac.go
@@ -81,13 +81,16 @@ func (c Context) Wallis(z *Big, g Generator) *Big {
 	a_1.SetUint64(1)
 	a.Copy(t.B)
 	b.SetUint64(1)
+	b_1.SetUint64(0)
+	p.SetUint64(0)
 
 	ctx := z.Context
 	if c, ok := g.(Contexter); ok {
 		ctx = c.Context()
 	}
-
+	single := true
 	for g.Next() && p.IsFinite() {
+		single = false
 		t = g.Term()
 
 		z.Copy(a)
@@ -104,6 +107,10 @@ func (c Context) Wallis(z *Big, g Generator) *Big {
 		}
 		p.Copy(z)
 	}
+	if single {
+		// There was only one term.
+		ctx.Set(z, a)
+	}
 	return z
 }
 
-- 
2.43.0


From e768c367fee57bf5980f1b4408343035ae4796bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:54 +0000
Subject: [PATCH 20/41] fix: Compose: do not round negative numbers

---
 decomposer.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/decomposer.go b/decomposer.go
index d2b1d48..54d821e 100644
--- a/decomposer.go
+++ b/decomposer.go
@@ -89,8 +89,6 @@ func (z *Big) Compose(form byte, negative bool, coefficient []byte, exponent int
 	bigc := &big.Int{}
 	bigc.SetBytes(coefficient)
 	z.SetBigMantScale(bigc, -int(exponent))
-	if negative {
-		z.Neg(z)
-	}
+	z.SetSignbit(negative)
 	return nil
 }
-- 
2.43.0


From 374a431dbcdb872c18bd3f6ea7576b371de597bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:54 +0000
Subject: [PATCH 21/41] fix: postgres: Value: round a copy, and small numbers

---
 sql/postgres/decimal.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/sql/postgres/decimal.go b/sql/postgres/decimal.go
index 1c0734a..9b0db16 100644
--- a/sql/postgres/decimal.go
+++ b/sql/postgres/decimal.go
@@ -62,17 +62,38 @@ func (d *Decimal) Value() (driver.Value, error) {
 		}
 		// Rounding down the integral part automatically chops off the fractional
 		// part.
-		return v.Round(MaxIntegralDigits).String(), nil
+		return clone(v).Round(MaxIntegralDigits).String(), nil
 	}
 	if sl > MaxFractionalDigits {
 		if !d.Round {
 			return nil, &LengthError{Part: "fractional", N: sl, max: MaxFractionalDigits}
 		}
-		v.Round(dl - (sl - MaxFractionalDigits))
+		if n := dl - (sl - MaxFractionalDigits); n > 0 {
+			v = clone(v).Round(n)
+		} else {
+			v = roundSmall(v, n)
+		}
 	}
 	return v.String(), nil
 }
 
+// clone returns a copy of v that can be rounded in place of v.
+func clone(v *decimal.Big) *decimal.Big {
+	return decimal.WithContext(v.Context).Copy(v)
+}
+
+// roundSmall rounds a v that has no digit within MaxFractionalDigits. n <= 0 is
+// the number of zeros between these and the first digit of v, negated.
+func roundSmall(v *decimal.Big, n int) *decimal.Big {
+	z := new(decimal.Big).Copy(v)
+	if n < 0 && z.Sign() != 0 {
+		// Any number below a tenth of the last place rounds like this one.
+		z.SetMantScale(1, MaxFractionalDigits+2).SetSignbit(v.Signbit())
+	}
+	z.Context.RoundingMode = v.Context.RoundingMode
+	return z.Quantize(MaxFractionalDigits)
+}
+
 // Scan implements sql.Scanner.
 func (d *Decimal) Scan(val interface{}) error {
 	if d.V == nil {
-- 
2.43.0


From 2f40129da8ceb97c8c70cbb2ba83033cace6c908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:16 +0000
Subject: [PATCH 22/41] fix: dectest: report a failed read

---
 dectest/scanner.go | 1 +
 dectest/scanner.rl | 1 +
 2 files changed, 2 insertions(+)

diff --git a/dectest/scanner.go b/dectest/scanner.go
index 8123bc7..fcb4a87 100644
--- a/dectest/scanner.go
+++ b/dectest/scanner.go
@@ -31,6 +31,7 @@ func (s *Scanner) Scan() bool {
 	s.c = nil
 	for s.c == nil {
 		if !s.s.Scan() {
+			s.err = s.s.Err()
 			return false
 		}
 		if s.err = s.parse(s.s.Bytes()); s.err != nil {
diff --git a/dectest/scanner.rl b/dectest/scanner.rl
index 26cbb8d..c61080b 100644
--- a/dectest/scanner.rl
+++ b/dectest/scanner.rl
@@ -30,6 +30,7 @@ func (s *Scanner) Scan() bool {
 	s.c = nil
 	for s.c == nil {
 		if !s.s.Scan() {
+			s.err = s.s.Err()
 			return false
 		}
 		if s.err = s.parse(s.s.Bytes()); s.err != nil {
-- 
2.43.0


From c326620a39d13ff7ddfab61beeb34df0489baf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:36 +0000
Subject: [PATCH 23/41] fix: do not check the exponent of NaN and Inf

---
 util.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util.go b/util.go
index 0b78071..fb8b5f0 100644
--- a/util.go
+++ b/util.go
@@ -26,6 +26,11 @@ func (z *Big) norm() *Big {
 
 // fix check for overflow, underflow, and clamping.
 func (c Context) fix(z *Big) *Big {
+	if z.isSpecial() {
+		// The exponent is one left over from before.
+		return z
+	}
+
 	adj := z.adjusted()
 
 	if adj > c.emax() {
-- 
2.43.0


From 5041c8ed7da087c154dbaf2d3eb6a91d49048ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:37 +0000
Subject: [PATCH 24/41] fix: Atan: keep the sign of infinity when z is x

---
 big_ctx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index 498ce6e..d41f325 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -428,8 +428,9 @@ func (c Context) Atan(z, x *Big) *Big {
 	}
 
 	if x.IsInf(0) {
+		sb := x.form & signbit // z might be x
 		c.pi2(z)
-		z.form |= x.form & signbit
+		z.form |= sb
 		return z
 	}
 
-- 
2.43.0


From f3aa10994919e697445868c14e37c9193a493741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 25/41] fix: SameQuantum: do not compare leftovers of NaN and
 Inf

---
 big.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/big.go b/big.go
index b063d71..c162498 100644
--- a/big.go
+++ b/big.go
@@ -1384,8 +1384,12 @@ func (z *Big) RoundToInt() *Big {
 }
 
 // SameQuantum reports whether x and y have the same exponent
-// (scale).
+// (scale). Two NaN values and two infinities have the same
+// exponent, otherwise a NaN value or infinity has no exponent.
 func (x *Big) SameQuantum(y *Big) bool {
+	if x.isSpecial() || y.isSpecial() {
+		return x.IsNaN(0) && y.IsNaN(0) || x.IsInf(0) && y.IsInf(0)
+	}
 	return x.Scale() == y.Scale()
 }
 
-- 
2.43.0


From f435e10635aebbab741be8536ccebbaf8d89c60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:10 +0000
Subject: [PATCH 26/41] fix: Asin: keep the sign when z is x

---
 big_ctx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index d41f325..35c3e92 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -380,8 +380,9 @@ func (c Context) Asin(z, x *Big) *Big {
 	}
 
 	if cmp1 == 0 {
+		neg := x.Signbit() // z may be x
 		c.pi2(z)
-		if x.Signbit() {
+		if neg {
 			z.SetSignbit(true)
 		}
 		return z
-- 
2.43.0


From 860ce810d93340ed61ef2f7a4d4c0ec04708b887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:56 +0000
Subject: [PATCH 27/41] fix: do not replace a subnormal result by one ulp

---
 big_ctx.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 35c3e92..a43c9e3 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2863,6 +2863,8 @@ func (c Context) shiftl(z *Big, n uint64) {
 	z.precision = arith.BigLength(&z.unscaled)
 }
 
+// shiftr removes the last n digits of z, rounding. If that is all of them it
+// sets z to zero and reports whether they were just as many.
 func (c Context) shiftr(z *Big, n uint64) bool {
 	if zp := uint64(z.Precision()); n >= zp {
 		z.compact = 0
@@ -2877,13 +2879,15 @@ func (c Context) shiftr(z *Big, n uint64) bool {
 	m := c.RoundingMode
 	if z.isCompact() {
 		if y, ok := arith.Pow10(n); ok {
-			return z.quo(m, z.compact, z.form, y, 0)
+			z.quo(m, z.compact, z.form, y, 0)
+			return false
 		}
 		z.unscaled.SetUint64(z.compact)
 		z.compact = cst.Inflated
 	}
 	var r big.Int
-	return z.quoBig(m, &z.unscaled, z.form, arith.BigPow10(n), 0, &r)
+	z.quoBig(m, &z.unscaled, z.form, arith.BigPow10(n), 0, &r)
+	return false
 }
 
 // Sqrt sets z to the square root of x and returns z.
-- 
2.43.0


From f7c5f8d6eb75c45a6758000f57c47b51c1c51c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:30 +0000
Subject: [PATCH 28/41] fix: suite: return the cases before a failed read

---
 suite/suite.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/suite/suite.go b/suite/suite.go
index ee39a36..23ecfad 100644
--- a/suite/suite.go
+++ b/suite/suite.go
@@ -27,6 +27,10 @@ func ParseCases(r io.Reader) (cases []Case, err error) {
 
 		c, err := ParseCase(p)
 		if err != nil {
+			if rerr := s.Err(); rerr != nil {
+				// The line was cut off.
+				return cases, rerr
+			}
 			return nil, err
 		}
 		cases = append(cases, c)
-- 
2.43.0


From 6a89e3bedde7af1be4365a399202fb50b33e4cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:30 +0000
Subject: [PATCH 29/41] fix: Format: stop writing after the writer failed

---
 big.go    | 12 ++++++++----
 format.go | 38 +++++++++++++++++++++++++++++---------
 2 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/big.go b/big.go
index c162498..5c719b9 100644
--- a/big.go
+++ b/big.go
@@ -932,14 +932,18 @@ func (x *Big) Format(s fmt.State, c rune) {
 	}
 
 	// Need padding out to width.
-	if f.n < int64(width) {
+	if f.err == nil && f.n < int64(width) {
+		var err error
 		switch pad := int64(width) - f.n; {
 		case dash:
-			io.CopyN(s, spaceReader{}, pad)
+			_, err = io.CopyN(s, spaceReader{}, pad)
 		case lpZero:
-			io.CopyN(s, zeroReader{}, pad)
+			_, err = io.CopyN(s, zeroReader{}, pad)
 		case lpSpace:
-			io.CopyN(s, spaceReader{}, pad)
+			_, err = io.CopyN(s, spaceReader{}, pad)
+		}
+		if err != nil {
+			return
 		}
 	}
 
diff --git a/format.go b/format.go
index 8a34100..9392438 100644
--- a/format.go
+++ b/format.go
@@ -133,23 +133,40 @@ type formatter struct {
 	prec  int   // total precision
 	width int   // min width
 	n     int64 // cumulative number of bytes written to w
+	err   error // first error of w; nothing is written after it
 }
 
 func (f *formatter) WriteByte(c byte) error {
-	f.n++
-	return f.w.WriteByte(c)
+	if f.err == nil {
+		f.n++
+		f.err = f.w.WriteByte(c)
+	}
+	return f.err
 }
 
-func (f *formatter) WriteString(s string) (int, error) {
-	m, err := f.w.WriteString(s)
-	f.n += int64(m)
-	return m, err
+func (f *formatter) WriteString(s string) (n int, err error) {
+	if f.err == nil {
+		n, err = f.w.WriteString(s)
+		f.wrote(n, len(s), err)
+	}
+	return n, f.err
 }
 
 func (f *formatter) Write(p []byte) (n int, err error) {
-	n, err = f.w.Write(p)
+	if f.err == nil {
+		n, err = f.w.Write(p)
+		f.wrote(n, len(p), err)
+	}
+	return n, f.err
+}
+
+// wrote records that n of size bytes have been written to w.
+func (f *formatter) wrote(n, size int, err error) {
 	f.n += int64(n)
-	return n, err
+	if n < size && err == nil {
+		err = io.ErrShortWrite
+	}
+	f.err = err
 }
 
 var sciE = [2]byte{GDA: 'E', Go: 'e'}
@@ -338,7 +355,10 @@ func (s spaceReader) Read(p []byte) (n int, err error) {
 type stateWrapper struct{ fmt.State }
 
 func (w stateWrapper) WriteByte(c byte) error {
-	_, err := w.Write([]byte{c})
+	n, err := w.Write([]byte{c})
+	if n < 1 && err == nil {
+		err = io.ErrShortWrite
+	}
 	return err
 }
 
-- 
2.43.0


From e494b68ec8d9ec17bf107847a87b11deb91e4c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 30/41] fix: E, pi: round to the context's precision, also from
 300 digits on

---
 big_ctx.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index a43c9e3..634be60 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -873,7 +873,7 @@ func (c Context) Ceil(z, x *Big) *Big {
 
 // E sets z to the mathematical constant e and returns z.
 func (c Context) E(z *Big) *Big {
-	if c.Precision <= constPrec {
+	if c.Precision < constPrec {
 		return c.Set(z, _E.get())
 	}
 
@@ -886,6 +886,7 @@ func (c Context) E(z *Big) *Big {
 
 	ctx := c
 	ctx.Precision += 5
+	ctx.RoundingMode = ToNearestEven
 	for i := uint64(2); sum.Cmp(prev) != 0; i++ {
 		// Use term as our intermediate storage for our
 		// factorial. SetUint64 should be marginally faster than
@@ -897,7 +898,7 @@ func (c Context) E(z *Big) *Big {
 		prev.Copy(sum)
 		ctx.Add(sum, sum, term)
 	}
-	return ctx.Set(z, sum)
+	return c.Set(z, sum)
 }
 
 // Exp sets z to e**x and returns z.
@@ -1849,7 +1850,7 @@ func (c Context) pi2(z *Big) *Big {
 
 // pi sets z to the mathematical constant pi and returns z.
 func (c Context) pi(z *Big) *Big {
-	if c.Precision <= constPrec {
+	if c.Precision < constPrec {
 		return c.Set(z, _Pi.get())
 	}
 	return c.piChudnovskyBrothers(z)
-- 
2.43.0


From 7bac06506f3faa7a1bc4e3210de403427cb6c104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 31/41] fix: Scan: leave a well-formed decimal behind when the
 reader panics

---
 scan.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/scan.go b/scan.go
index 3561a33..b85174c 100644
--- a/scan.go
+++ b/scan.go
@@ -155,6 +155,7 @@ func (z *Big) scanForm(r io.ByteScanner) (form, error) {
 	}
 
 	// Parse payload
+	var payload uint64
 	for {
 		ch, err := r.ReadByte()
 		if err != nil {
@@ -171,16 +172,17 @@ func (z *Big) scanForm(r io.ByteScanner) (form, error) {
 			return 0, ConversionSyntax
 		}
 		const cutoff = math.MaxUint64/10 + 1
-		if z.compact >= cutoff {
+		if payload >= cutoff {
 			return 0, ConversionSyntax
 		}
-		z.compact *= 10
+		payload *= 10
 
-		if z.compact+uint64(d) < z.compact {
+		if payload+uint64(d) < payload {
 			return 0, ConversionSyntax
 		}
-		z.compact += uint64(d)
+		payload += uint64(d)
 	}
+	z.compact = payload
 
 	if signal {
 		return snan, nil
@@ -222,6 +224,7 @@ func (z *Big) scanMant(r io.ByteScanner) (err error) {
 	seenDot := false
 	dot := 0
 	big := false
+	var mant uint64 // z stays well-formed if r panics
 
 Loop:
 	for {
@@ -243,17 +246,17 @@ Loop:
 					return ConversionSyntax
 				}
 				const cutoff = math.MaxUint64/10 + 1
-				if z.compact >= cutoff {
+				if mant >= cutoff {
 					big = true
 					continue
 				}
-				z.compact *= 10
+				mant *= 10
 
-				if z.compact+uint64(d) < z.compact {
+				if mant+uint64(d) < mant {
 					big = true
 					continue
 				}
-				z.compact += uint64(d)
+				mant += uint64(d)
 			}
 			continue
 		}
@@ -282,12 +285,13 @@ Loop:
 		return ConversionSyntax
 	}
 
-	if big || z.compact == c.Inflated {
+	if big || mant == c.Inflated {
 		z.unscaled.SetString(string(buf), 10)
 		z.compact = c.Inflated
 		z.precision = arith.BigLength(&z.unscaled)
 	} else {
-		z.precision = arith.Length(z.compact)
+		z.compact = mant
+		z.precision = arith.Length(mant)
 	}
 
 	if seenDot {
-- 
2.43.0


From 9fe574e6c8beb4ce378c7908d08eb3cdbf24ffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:13 +0000
Subject: [PATCH 32/41] fix: Wallis: do not take a first convergent of zero for
 convergence

---
 continued_frac.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continued_frac.go b/continued_frac.go
index 744bdf2..af0df2e 100644
--- a/continued_frac.go
+++ b/continued_frac.go
@@ -82,7 +82,7 @@ func (c Context) Wallis(z *Big, g Generator) *Big {
 	a.Copy(t.B)
 	b.SetUint64(1)
 	b_1.SetUint64(0)
-	p.SetUint64(0)
+	p.Copy(t.B) // the zeroth convergent
 
 	ctx := z.Context
 	if c, ok := g.(Contexter); ok {
-- 
2.43.0


From 2c524dc52a884db414119ae76c3aed7288b1f976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:14 +0000
Subject: [PATCH 33/41] fix: Wallis: go on after an infinite convergent

---
 continued_frac.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/continued_frac.go b/continued_frac.go
index af0df2e..9f78a7e 100644
--- a/continued_frac.go
+++ b/continued_frac.go
@@ -101,6 +101,11 @@ func (c Context) Wallis(z *Big, g Generator) *Big {
 		ctx.FMA(b, b, t.B, ctx.Mul(b_1, b_1, t.A))
 		b_1.Copy(z)
 
+		if b.IsFinite() && b.Sign() == 0 {
+			// This convergent is infinite, those that follow need
+			// not be.
+			continue
+		}
 		ctx.Quo(z, a, b)
 		if ctx.Sub(p, z, p).CmpAbs(eps) <= 0 {
 			break
@@ -110,6 +115,8 @@ func (c Context) Wallis(z *Big, g Generator) *Big {
 	if single {
 		// There was only one term.
 		ctx.Set(z, a)
+	} else if b.IsFinite() && b.Sign() == 0 {
+		ctx.Quo(z, a, b)
 	}
 	return z
 }
-- 
2.43.0


From 8fb1ea9f1bface0de9bcf85bde2fc79629882504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:51 +0000
Subject: [PATCH 34/41] fix: Lentz: end for fractions without end

Without a Contexter the working precision was that of z and not that of the
backing storage, and with few guard digits rounding could keep the factor
away from 1 by more than eps forever.
---
 continued_frac.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/continued_frac.go b/continued_frac.go
index 9f78a7e..c3efb8d 100644
--- a/continued_frac.go
+++ b/continued_frac.go
@@ -231,8 +231,18 @@ func (c Context) Lentz(z *Big, g Generator) *Big {
 	D.SetUint64(0)
 
 	ctx := z.Context
+	rctx := ctx
 	if c, ok := g.(Contexter); ok {
 		ctx = c.Context()
+		rctx = ctx
+	} else if p := f.Context.precision(); p > ctx.precision() {
+		// The backing storage provides the precision.
+		ctx.Precision = p
+	}
+	// Rounding errors can keep Δ_j away from 1 by a few units in its last place
+	// forever.
+	if ulps := New(1, ctx.precision()-2); eps.Cmp(ulps) < 0 {
+		eps = ulps
 	}
 
 	for g.Next() && f.IsFinite() {
@@ -271,7 +281,7 @@ func (c Context) Lentz(z *Big, g Generator) *Big {
 		}
 	}
 	z.Context.Conditions |= f.Context.Conditions
-	return ctx.Set(z, f)
+	return rctx.Set(z, f)
 }
 
 /*
-- 
2.43.0


From ab702e7fbb1649edf115262aac30bd168e83b1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:20 +0000
Subject: [PATCH 35/41] fix: Wallis: the default eps is relative to the value

Convergence of a fraction with a small value was declared too early: a value
of 1e-10 had 11 of 16 digits right, one below 1e-21 none.
---
 continued_frac.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/continued_frac.go b/continued_frac.go
index c3efb8d..251665f 100644
--- a/continued_frac.go
+++ b/continued_frac.go
@@ -107,6 +107,10 @@ func (c Context) Wallis(z *Big, g Generator) *Big {
 			continue
 		}
 		ctx.Quo(z, a, b)
+		if !ok && z.IsFinite() && z.Sign() != 0 {
+			// The default eps is relative to the convergent.
+			eps.SetMantScale(1, c.precision()+5-z.adjusted())
+		}
 		if ctx.Sub(p, z, p).CmpAbs(eps) <= 0 {
 			break
 		}
-- 
2.43.0


From 9989e3bb17de7654dee9899f93f6a7174fca5689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:36 +0000
Subject: [PATCH 36/41] fix: NextPlus, NextMinus: check the context

An invalid context made them compute 10 to the power of a huge or a
negative precision, which does not end, instead of answering NaN
like the other operations.
---
 big_ctx.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/big_ctx.go b/big_ctx.go
index 634be60..b6b69da 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1790,6 +1790,9 @@ func (c Context) NextMinus(z, x *Big) *Big {
 	if debug {
 		x.validate()
 	}
+	if z.invalidContext(c) {
+		return z
+	}
 	if z.checkNaNs(x, x, nextminus) {
 		return z
 	}
@@ -1820,6 +1823,9 @@ func (c Context) NextPlus(z, x *Big) *Big {
 	if debug {
 		x.validate()
 	}
+	if z.invalidContext(c) {
+		return z
+	}
 	if z.checkNaNs(x, x, nextminus) {
 		return z
 	}
-- 
2.43.0


From 72c89587da3aebdcc19a974c6fe3757413defcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:15 +0000
Subject: [PATCH 37/41] fix: trigonometry: no exponent limits for intermediate
 results

The limits of the context were applied to each term of the series as
well. Rounded away from zero the terms then never vanish, so that Sin,
Cos, Asin, Acos, Atan and Atan2 did not end, and where they did end the
result could have nothing to do with the function.
---
 big_ctx.go | 3 +--
 context.go | 6 +++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index b6b69da..9834a45 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -3178,8 +3178,7 @@ func (c Context) Tan(z, x *Big) *Big {
 	if x0.Signbit() {
 		tmp.CopyNeg(tmp)
 	}
-	ctx.Precision -= defaultExtraPrecision
-	return ctx.Set(z, tmp)
+	return c.Set(z, tmp)
 }
 
 func (c Context) prepTan(z, x *Big) (*Big, bool) {
diff --git a/context.go b/context.go
index 3b7ce96..49bb2a5 100644
--- a/context.go
+++ b/context.go
@@ -59,10 +59,14 @@ type Context struct {
 	OperatingMode OperatingMode
 }
 
-// dup returns the Context, but with a non-zero Precision.
+// dup returns the Context for intermediate results: one with a
+// non-zero Precision, and without limits for the exponent since
+// these apply to the final result only.
 func (c Context) dup() Context {
 	ctx := c
 	ctx.Precision = c.precision()
+	ctx.MaxScale = 0
+	ctx.MinScale = 0
 	return ctx
 }
 
-- 
2.43.0


From c315cbfb704cb888c268a3dbdf71a5331d03bede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:52 +0000
Subject: [PATCH 38/41] fix: Log, Log10, Exp, E, Pow: no exponent limits for
 intermediate results

Like in the trigonometric functions, the limits of the context were
applied on the way to the result: from about 750 digits on Log, Log10
and Pow gave NaN or did not end, E stopped early, and Log of a number
next to one asked for exp(1e+n), which does not end either.
---
 big_ctx.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 9834a45..ca570b3 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -884,7 +884,7 @@ func (c Context) E(z *Big) *Big {
 		prev = new(Big)
 	)
 
-	ctx := c
+	ctx := c.dup()
 	ctx.Precision += 5
 	ctx.RoundingMode = ToNearestEven
 	for i := uint64(2); sum.Cmp(prev) != 0; i++ {
@@ -1023,6 +1023,7 @@ func (c Context) expSmall(z *Big, t int) *Big {
 
 // expLarge returns exp(z) using continued fractions.
 func (c Context) expLarge(z *Big, t int) *Big {
+	c = c.dup()
 	c.Precision += t + 3
 	if c.Precision < 10 {
 		c.Precision = 10
@@ -1322,6 +1323,7 @@ func (c Context) log(z, x *Big, ten bool) *Big {
 		z.Context.Conditions |= Overflow | Inexact | Rounded
 		return z.SetInf(t < 0)
 	}
+	c = c.dup()
 
 	// Argument reduction:
 	// Given
@@ -2141,7 +2143,7 @@ func (c Context) powDec(z, x, y *Big) *Big {
 		defer putDec(x)
 	}
 
-	work := c
+	work := c.dup()
 	work.Precision = max(x.Precision(), c.precision()) + 4 + 19
 	work.Exp(z, work.Mul(z, y, work.Log(z, x)))
 	if neg && z.IsFinite() {
-- 
2.43.0


From 6ffb45df034de3057ac1d0370cc3abe18bc81fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:44 +0000
Subject: [PATCH 39/41] fix: Exp: a precision of zero is the default precision

Exp took it literally, so that math.Exp(new(Big), x) was 1 for |x| < 0.9
and had ten digits otherwise.
---
 big_ctx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/big_ctx.go b/big_ctx.go
index ca570b3..c9cf494 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -927,6 +927,7 @@ func (c Context) Exp(z, x *Big) *Big {
 		return z.SetUint64(1)
 	}
 
+	c.Precision = c.precision()
 	z = c.exp(z, x)
 	if z.IsFinite() && z.Sign() != 0 && z.Precision() < c.Precision {
 		s := c.Precision - z.Precision()
-- 
2.43.0


From 962ef00808786c664eb960f6f3f5369e2aa5140d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:14 +0000
Subject: [PATCH 40/41] fix: Abs, Sqrt, Pow, Hypot, Floor, Ceil, E, Pi: check
 the context that is used

They checked the one of the receiver, or none: an invalid one was used
(E did not end), and a valid one was refused if the receiver's was not.
---
 big_ctx.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index c9cf494..824f545 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -14,7 +14,7 @@ func (c Context) Abs(z, x *Big) *Big {
 	if debug {
 		x.validate()
 	}
-	if !z.invalidContext(z.Context) && !z.checkNaNs(x, x, absvalue) {
+	if !z.invalidContext(c) && !z.checkNaNs(x, x, absvalue) {
 		c.finish(z.copyAbs(x))
 	}
 	return z
@@ -873,6 +873,9 @@ func (c Context) Ceil(z, x *Big) *Big {
 
 // E sets z to the mathematical constant e and returns z.
 func (c Context) E(z *Big) *Big {
+	if z.invalidContext(c) {
+		return z
+	}
 	if c.Precision < constPrec {
 		return c.Set(z, _E.get())
 	}
@@ -1173,7 +1176,7 @@ func (e *expg) Term() Term {
 // Floor sets z to the greatest integer value less than or equal
 // to x and returns z.
 func (c Context) Floor(z, x *Big) *Big {
-	if z.CheckNaNs(x, nil) {
+	if z.invalidContext(c) || z.checkNaNs(x, nil, 0) {
 		return z
 	}
 	c.RoundingMode = ToNegativeInf
@@ -1206,7 +1209,7 @@ func (c Context) FMA(z, x, y, u *Big) *Big {
 
 // Hypot sets z to Sqrt(p*p + q*q) and returns z.
 func (c Context) Hypot(z, p, q *Big) *Big {
-	if z.CheckNaNs(p, q) {
+	if z.invalidContext(c) || z.checkNaNs(p, q, 0) {
 		return z
 	}
 
@@ -1867,6 +1870,9 @@ func (c Context) pi(z *Big) *Big {
 
 // Pi sets z to the mathematical constant pi and returns z.
 func (c Context) Pi(z *Big) *Big {
+	if z.invalidContext(c) {
+		return z
+	}
 	return c.pi(z)
 }
 
@@ -1992,7 +1998,7 @@ func (c Context) piChudnovskyBrothers(z *Big) *Big {
 
 // Pow sets z to x**y and returns z.
 func (c Context) Pow(z, x, y *Big) *Big {
-	if z.CheckNaNs(x, y) {
+	if z.invalidContext(c) || z.checkNaNs(x, y, 0) {
 		return z
 	}
 
@@ -2902,7 +2908,7 @@ func (c Context) shiftr(z *Big, n uint64) bool {
 
 // Sqrt sets z to the square root of x and returns z.
 func (c Context) Sqrt(z, x *Big) *Big {
-	if z.CheckNaNs(x, nil) {
+	if z.invalidContext(c) || z.checkNaNs(x, nil, 0) {
 		return z
 	}
 
-- 
2.43.0


From f780b28031a3cb1823a6c7cd07d59ffc16c2db1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:50 +0000
Subject: [PATCH 41/41] fix: Sub: use the context for x - Inf

---
 big_ctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index 824f545..3007087 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -3110,7 +3110,7 @@ func (c Context) Sub(z, x, y *Big) *Big {
 		return c.Set(z, x)
 	}
 	// x - ±Inf
-	return z.Neg(y)
+	return c.Neg(z, y)
 }
 
 // Tan returns the tangent, in radians, of x.
-- 
2.43.0

