; texts of pieces that have their length (8 bytes, as a number) in front are
; unambiguous: equal texts have equal first pieces and equal rests. By induction
; over the number of pieces equal identity texts are made of equal pieces.
(set-logic ALL)
(declare-fun be (Int) String)
(assert (forall ((n Int)) (= (str.len (be n)) 8)))
(declare-const a String)(declare-const b String)(declare-const s String)(declare-const t String)
(assert (=> (= (be (str.len a)) (be (str.len b))) (= (str.len a) (str.len b))))
(assert (= (str.++ (be (str.len a)) a s) (str.++ (be (str.len b)) b t)))
(assert (not (and (= a b) (= s t))))
(check-sat)
