; ax32_mul_comm of contracts/00_prelude.vspec over IEEE singles; unsat: holds for all values
(set-logic QF_FP)
(declare-const a Float32)
(declare-const b Float32)
(assert (not (= (fp.mul RNE a b) (fp.mul RNE b a))))
(check-sat)
