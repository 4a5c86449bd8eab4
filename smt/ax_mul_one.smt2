; ax_mul_one of contracts/00_prelude.vspec over IEEE doubles; unsat: holds for all values
(set-logic QF_FP)
(declare-const a Float64)
(assert (not (= (fp.mul RNE a (fp #b0 #b01111111111 #x0000000000000)) a)))
(check-sat)
