import json,os
FIX=[('P03','3e29631','matrix copy assignment lost the data on self-assignment and dereferenced the null storage of an empty source'),
('P03','4716165','a moved-from matrix kept its size with null storage'),
('P06','7cf459b','right() of a vector started one element early'),
('P06','39e6c65','concat() by columns wrote the right-hand block over the left-hand one'),
('P08','ade7ba6','upsample() left the inserted elements uninitialised'),
('P08','0ea558a','filter() of a one-sample input read past its end'),
('P05','b5ed974','abs() did not compile for real types and skipped element 0'),
('P07','e8248e0','max() of a 1x1 matrix read past its end'),
('P21','ae3e697','mod() lost precision for large integers'),
('P21','78fde5b','log2() did not terminate for arguments with the top bit set'),
('P15','6e6e463','filling a set only inserted the first size/8 indices'),
('P03','e0a57a4','a default constructed array left its dimension count uninitialised'),
('P01','82ddf05','array clone allocated the old size and copied the new one'),
('P03','c9abd4c','array self-assignment lost the data; assigning over an empty array leaked'),
('P09','c05dda7','lu::decompose divided by a zero pivot and reported success'),
('P09','0e1322b','lup::decompose chose its pivots from the original matrix, so singular matrices were not reported'),
('P09','877f1da','lup::decompose_alt compared pivot candidates of the wrong column'),
('P09','54c0bdf','lup::solve rejected the right-hand side of a one-by-one system'),
('P02','eeeb229','a default constructed or copied ccode released uninitialised or shared generators'),
('P16','625c674','ccode::decode_bcjr() started from uninitialised path metrics'),
('P16','6c75b34','ccode::rate() was rounded to an integer'),
('P17','b075703','channel::decode_mlse() with a known initial state started from uninitialised metrics'),
('P17','37d9ab2','channel::decode_bcjr() started from uninitialised branch metrics'),
('P12','691f28e','a default constructed rng used unseeded state'),
('P12','e77fede','rng tempered with a wrong constant'),
('P12','fe37e2b','rng returned the seeding words instead of the first regenerated ones'),
('P12','a00d28b','a copied mt shared the state of its source'),
('P12','fa6ec81','mt nonuniform drawing read uninitialised members'),
('P22','78cdc4b','select_most() retired elements with the smallest positive value and so returned negative ones twice'),
('P22','a2111ff','sort() stopped early'),
('P22','73e6480','select_limited_least() could return indices that were not given'),
('P22','72d9e4a','dijkstra() returned uninitialised predecessors'),
('P14','471db26','rrcosine sampled the frequency response with unsigned arithmetic'),
('P05','97890fc','array element access did not compile on a constant array, and reading modified hidden members of the array'),
('P19','74e6f00','hermitian() did not compile for any type'),
('P11','ecb91a5','swap_rows() and swap_cols() wrote outside of the matrix for indices out of range'),
('P11','c38f3fa','row() and col() returned uninitialised elements for an index out of range'),
('P11','8be1319','set_row() and set_col() wrote one past the end for the position one past the last'),
('P11','20a8814','left() of a matrix returned uninitialised columns when asked for more than there are'),
('P11','c80b3f9','left(), right() and mid() read outside of the matrix with assertions compiled out'),
('P11','7f2f6c1','get() and the read operators read outside of the matrix with assertions compiled out'),
('P20','3dfa869','the logging allocator counted allocations that failed'),
('P02','bf11ab0','an array whose storage could not be allocated leaked its default element'),
('P20','bf11ab0','an array whose storage could not be allocated leaked its default element'),
]
p=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'known_findings.json')
old=json.load(open(p)) if os.path.exists(p) else {'findings':[]}
old['fixed']=['fixed: property=%s %s %s'%x for x in FIX]
json.dump(old,open(p,'w'),indent=1)
