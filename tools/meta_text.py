TB = ['clang 18 front end (types, overload resolution, template instantiation; AST exported by /verif/astx)',
 'the verification-condition generator /verif/cv (symbolic execution of the exported AST, loop invariant inference and checking)',
 'the contracts of the C++ standard library, libc and pthread operations used by the code (/verif/cv/std.py)',
 'z3 4.x API, cvc5 1.1.2, z3 4.8.12']
ASSUME = ['allocation succeeds and object sizes stay below 2^61 elements', 'the target is LP64 little-endian x86-64, as in the build',
 'functions are verified for the instantiation over the 61-bit field (library templates over both fields where stated); the template text is the same for the other field',
 'no concurrent mutation of arguments while a call runs, except where a contract is about threads']
PROPS = {
'C01': dict(note='Every arithmetic operation of both prime fields is under contract and proved for all operands at machine-integer level (wrap-around, signedness, shifts as in the code).', lean='Arith.lean',
  assumptions=['nonlinear facts about the exact product of two integers: 0 <= x*y <= (p-1)^2 for canonical x, y, and the 64-bit schoolbook decomposition (theorems product_range and limbs of lean/Arith.lean, checked by Lean in every run)']),
'C02': dict(note='The extended Euclid loop carries its Bezout and sign invariants, no intermediate overflows, it terminates, and the result is the canonical inverse; operator/= and operator/ return z with z*y = x.', lean='Arith.lean',
  assumptions=['2^61-1 and 2^127-1 are prime, used in the form b*r = +-n implies r = 1 or r = n (theorems prime61, prime127, divisor_of_prime of lean/Arith.lean, checked by Lean in every run)']),
'C09': dict(note='Constructor, Init, NextCombination, NthCombination, ConvertBinomial, IndexSetFor, Combination, RevCombination and the getters are under contract: the tables are the enumeration of all (n-t)-subsets in increasing order and every index set lists exactly the subsets containing the party.', lean='Comb.lean',
  assumptions=['facts about the enumeration of k-subsets by the next-combination rule (length choose(m,k), every increasing tuple occurs exactly once, membership counts) are theorems of lean/Comb.lean, checked by Lean in every run']),
'C12': dict(note='The constructor, Init, ComputeIndexForDoubleMultiplication and both multiplications are under contract: the table holds exactly one entry per pair whose target (the subset of the first n-2d common holders) contains the party, with the position of the target and its lowest holder; both products are the sums over the table.', lean='Comb.lean',
  assumptions=['facts about the common members of two subsets and the enumeration (cnt_*, common_many, common_target, enum_*) and the step from the per-target sums to the product (product_split, product_parties) are theorems of lean/Comb.lean, checked by Lean in every run']),
'C13': dict(note='Init is under contract: one entry per held double-degree share, whose receivers are, in increasing order, exactly the parties outside the subset, and VALUE exactly for its lowest member.', lean='Comb.lean',
  assumptions=['facts about the enumeration of subsets (enum_*, rank_*) are theorems of lean/Comb.lean, checked by Lean in every run']),
}
NA = {}
