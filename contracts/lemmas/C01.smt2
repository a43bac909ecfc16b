; Two keys with the same id are the same key: every stored key leads to an id
; whose backward entry is that key (invariant "keys lead to ids and back").
(set-logic ALL)
(declare-sort Str 0)
(declare-fun keyHas (Str) Bool)
(declare-fun keyId (Str) Int)
(declare-fun idHas (Int) Bool)
(declare-fun idKey (Int) Str)
(assert (forall ((k Str)) (=> (keyHas k) (and (idHas (keyId k)) (= (idKey (keyId k)) k)))))
(declare-const a Str)
(declare-const b Str)
(assert (and (keyHas a) (keyHas b) (not (= a b)) (= (keyId a) (keyId b))))
(check-sat)
