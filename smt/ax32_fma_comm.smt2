; ax32_fma_comm of contracts/00_prelude.vspec over IEEE singles; unsat: holds for all values
(set-logic QF_FP)
(declare-const a Float32)
(declare-const b Float32)
(declare-const c Float32)
(assert (not (= (fp.fma RNE a b c) (fp.fma RNE b a c))))
(check-sat)
