package sym

import (
	"fmt"
	"math/big"
	"strings"
)

// sidhPrimes: exponents of 2 and 3 in p+1, and 64-bit words of an element.
var sidhPrimes = map[string][3]int{"p434": {216, 137, 7}, "p503": {250, 159, 8}, "p751": {372, 239, 12}}

// ExpandHarness fills the placeholders of harness sources shared by packages.
func ExpandHarness(src, pkg string) string {
	src = strings.Replace(src, "package PKG", "package "+pkg, 1)
	if q, ok := sidhPrimes[pkg]; ok {
		p := new(big.Int).Exp(big.NewInt(3), big.NewInt(int64(q[1])), nil)
		p.Lsh(p, uint(q[0]))
		p.Sub(p, big.NewInt(1))
		src = strings.Replace(src, "XPRIME", p.Text(16), -1)
		src = strings.Replace(src, "XWORDS", fmt.Sprint(q[2]), -1)
		n := new(big.Int).Exp(big.NewInt(3), big.NewInt(int64(q[1])), nil)
		src = strings.Replace(src, "XBITSB", fmt.Sprint(n.BitLen()-1), -1)
		src = strings.Replace(src, "XE2", fmt.Sprint(q[0]), -1)
		src = strings.Replace(src, "XE3", fmt.Sprint(q[1]), -1)
		src = strings.Replace(src, "PXXX", strings.ToUpper(pkg), -1)
	}
	return src
}
