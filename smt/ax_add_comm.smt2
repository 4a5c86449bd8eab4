; ax_add_comm of contracts/00_prelude.vspec over IEEE doubles; unsat: holds for all values
(set-logic QF_FP)
(declare-const a Float64)
(declare-const b Float64)
(assert (not (= (fp.add RNE a b) (fp.add RNE b a))))
(check-sat)
