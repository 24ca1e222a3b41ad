; fl(x) = x converted to binary64 with round-to-nearest-even, x a 64-bit unsigned integer: the facts mirvc/sym.py (to_double) uses
(set-logic QF_BVFP)
(declare-const x (_ BitVec 64))
(define-fun B53 () (_ BitVec 64) #x0020000000000000)
(define-fun r () (_ FloatingPoint 11 53) ((_ to_fp_unsigned 11 53) RNE x))
(define-fun b () (_ FloatingPoint 11 53) ((_ to_fp_unsigned 11 53) RNE B53))
(define-fun top () (_ FloatingPoint 11 53) (fp #b0 #b10000111111 #x0000000000000)) ; 2^64
(push) ; exact up to 2^53
(assert (not (=> (bvule x B53) (= ((_ fp.to_ubv 64) RTZ r) x))))
(check-sat)
(pop)
(push) ; at least 2^53 above, at most 2^64
(assert (not (=> (bvugt x B53) (fp.geq r b))))
(check-sat)
(pop)
(push)
(assert (not (and (fp.leq r top) (not (fp.isNaN r)))))
(check-sat)
(pop)
(push) ; odd: rounding the negative is the negative of the rounding (65-bit signed)
(assert (not (= ((_ to_fp 11 53) RNE (bvneg (concat #b0 x))) (ite (= x #x0000000000000000) r (fp.neg r)))))
(check-sat)
(pop)
