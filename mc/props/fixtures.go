package props

import (
	"gkr-mimc/sumcheck"
	"verif/mc/ev"
	. "verif/mc/ref"
)

func init() { ev.Register("C05/constructors", c05constructors) }

// builtinInstance is the instance that both constructors of the package document: values 0, 1, 2... on both sides,
// the equality table of (2, ..., 2), the gates copy and cipher with their wiring tables folded at 2.
func builtinInstance(bN int) *Instance {
	q, v := make([]E, bN), make([]E, 1<<uint(bN+1))
	for i := range q {
		q[i] = U(2)
	}
	for i := range v {
		v[i] = I(i)
	}
	unit := func(i int) []E {
		t := make([]E, 8)
		t[i] = U(1)
		return Fix(t, U(2))
	}
	return &Instance{VL: v, VR: Copy(v), EQ: EqTable(q), Gates: []Gate{gCopy(), gCipher(U(2))}, ST: [][]E{unit(6), unit(2)}}
}

// c05constructors: the ready-made provers, parallel and sequential, hold the same values for every size and chunking:
// the same claim and the same proof.
func c05constructors(x *ev.X) {
	max := 9
	if x.Thorough {
		max = 12
	}
	for bN := 0; bN <= max; bN++ {
		bN := bN
		x.Case(func(t *ev.T) {
			s := builtinInstance(bN)
			sp := sumcheck.InitializeProverForTests(bN)
			claim := sp.GetClaim()
			if w := s.Sum(); claim != w {
				t.Failf("ready-made sequential prover, 2^%d instances: claim %s, the sum is %s", bN, str(claim), str(w))
			}
			pr, qP, qL, qR, fin := sp.Prove()
			tr := &SCTranscript{Proof: pr.PolyCoeffs, QL: qL, QR: qR, QP: qP, VL: fin[0], VR: fin[1], EQ: fin[2], ST: fin[3:]}
			rp := singleOf(s)
			rpr, a, b, c, f := rp.Prove()
			if why := sumTranscript(s, tr, rpr, a, b, c, f); why != "" {
				t.Failf("2^%d instances: the ready-made sequential prover against one built from the documented values: %s", bN, why)
			}
			for _, n := range pow2s(1 << uint(bN)) {
				for _, co := range []int{1, 2, 3, 8, 1000} {
					mp := sumcheck.InitializeMultiThreadedProver(bN, n)
					if c := mp.GetClaim(co); c != claim {
						t.Failf("ready-made parallel prover, 2^%d instances, %d chunks, %d cores: claim %s, sequential %s", bN, n, co, str(c), str(claim))
					}
					mpr, a, b, c, f := mp.Prove(co)
					if why := sumTranscript(s, tr, mpr, a, b, c, f); why != "" {
						t.Failf("ready-made parallel prover, 2^%d instances, %d chunks, %d cores: %s", bN, n, co, why)
					}
					t.Step(ev.Mix(5, uint64(bN), uint64(n), uint64(co)))
				}
			}
		}, "ready-made provers, 2^%d instances: every chunking and number of cores", bN)
	}
}
