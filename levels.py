TECH = {"*": "contract-based deductive verification: pre/postconditions, loop invariants and lemmas over the real functions of /repo, obligations generated by "
             "symbolic execution of the current source against callee contracts, discharged by normal forms (polynomials over Z/l and GF(q), XOR/AND) and z3/cvc5"}
NOTE = {"*": "obligations are generated from the current sources on every run; functions beyond the verifier are covered by bounded concrete runs of the same contract, labelled bounded in the evidence"}
LEVEL = {}
