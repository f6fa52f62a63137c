fun fmt_q(String) String
# the text of the first n label pairs: ,k="v" each
fun lab((Array Int String), (Array Int String), Int, Int, Int) String
axiom @lab-empty lab : (forall ((k (Array Int String)) (v (Array Int String)) (a Int) (b Int)) (! (= (lab k v a b 0) "") :pattern ((lab k v a b 0))))
axiom @lab-step lab : (forall ((k (Array Int String)) (v (Array Int String)) (a Int) (b Int) (n Int)) (! (=> (<= 0 n) (= (lab k v a b (+ n 1)) (str.++ (lab k v a b n) "," (select k (+ a n)) "=" (fmt_q (select v (+ b n)))))) :pattern ((lab k v a b n) (select k (+ a n)))))
def labels(ks, vs) = lab(arr(ks), arr(vs), off(ks), off(vs), len(ks))
# the canonical text of a label combination: the pairs joined by commas
def text(ks, vs) = ite(labels(ks, vs) == "", "", labels(ks, vs)[1:])
