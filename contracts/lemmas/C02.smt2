; index keys are unambiguous: the parts of a key are determined by the key.
; digits (d1 d2 e1 e2) have no ':'; attribute names (k l) have no '='.
(set-logic ALL)
(declare-const d1 String)(declare-const d2 String)(declare-const e1 String)(declare-const e2 String)
(declare-const k String)(declare-const l String)(declare-const v String)(declare-const w String)
(assert (not (str.contains d1 ":")))(assert (not (str.contains d2 ":")))
(assert (not (str.contains e1 ":")))(assert (not (str.contains e2 ":")))
(assert (not (str.contains k "=")))(assert (not (str.contains l "=")))
(define-fun val ((v String)) String (ite (= v "") "" (str.++ "=" v)))
(assert (= (str.++ d1 ":" d2 ":" k (val v)) (str.++ e1 ":" e2 ":" l (val w))))
(assert (not (and (= d1 e1) (= d2 e2) (= k l) (= v w))))
(check-sat)
