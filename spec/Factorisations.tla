----------------------------- MODULE Factorisations -----------------------------
(* Matrix factorisations.  The matrix A is exact: integers, in units of 1/q.   *)
(* Factors are fixed-point, in units of 1/DS; every tolerance is the rounding  *)
(* of the logged factors carried through the product, times the slack c of the *)
(* number type.                                                                *)
EXTENDS FixMath, FiniteSets, TLC
DS == 100000
Col(M, j) == Strict([i \in 1..Len(M) |-> M[i][j]])
Cols(M) == IF M = <<>> THEN 0 ELSE Len(M[1])
MinOf(a, b) == IF a < b THEN a ELSE b
IsMat(M, n, k) == Len(M) = n /\ \A i \in 1..n : Len(M[i]) = k /\ \A j \in 1..k : IsNum(M[i][j])
Transposed(M) == Strict([j \in 1..Cols(M) |-> Col(M, j)])
Mass(u) == Dot(Strict([i \in 1..Len(u) |-> Abs(u[i])]), Strict([i \in 1..Len(u) |-> 1]), 1)
\* product of two fixed-point rows, and the rounding it carries
Slip(u, v, c) == c * ((Mass(u) \div DS) + (Mass(v) \div DS) + 3)
\* the matrix A in units of 1/DS
Fixed(x, q) == MulDiv(x, DS, q)
\* A = B . C, both factors fixed-point
Product(A, B, C, q, c) == LET T == Transposed(C) IN
  \A i \in 1..Len(A) : \A j \in 1..Len(A[1]) : Near(Dot(B[i], T[j], DS), Fixed(A[i][j], q), Slip(B[i], T[j], c))
UnitLower(L) == \A i \in 1..Len(L) : \A j \in 1..Len(L[1]) : (j > i => L[i][j] = 0) /\ (j = i => L[i][j] = DS)
Upper(U) == \A i \in 1..Len(U) : \A j \in 1..Len(U[1]) : j < i => U[i][j] = 0
Lower(L) == Upper(Transposed(L))
Bounded(L) == \A i \in 1..Len(L) : \A j \in 1..Len(L[1]) : Abs(L[i][j]) <= DS
\* orthonormal columns
Orthonormal(Q, c) == LET T == Transposed(Q) IN \A i, j \in 1..Len(T) : Near(Dot(T[i], T[j], DS), IF i = j THEN DS ELSE 0, Slip(T[i], T[j], c))
--------------------------------------------------------------------------------
(* x = P . L . U with row pivoting                                             *)
\* the row each row of a permutation matrix picks; 0 where it is not one
Picks(P) == Strict([i \in 1..Len(P) |-> IF \E j \in 1..Len(P) : P[i] = [k \in 1..Len(P) |-> IF k = j THEN DS ELSE 0]
                                        THEN CHOOSE j \in 1..Len(P) : P[i][j] = DS ELSE 0])
Permutation(P) == LET p == Picks(P) IN {p[i] : i \in 1..Len(p)} = 1..Len(P)
\* row i of P . L is row Picks(P)[i] of L
Permuted(P, L) == LET p == Picks(P) IN Strict([i \in 1..Len(p) |-> L[p[i]]])
\* Q holds the rows of L in some order
SameRows(Q, L) == \A i \in 1..Len(L) : /\ Cardinality({k \in 1..Len(L) : Q[k] = L[i]}) = Cardinality({k \in 1..Len(L) : L[k] = L[i]})
IsLU(A, P, L, U, permuteL, q, c) == LET n == Len(A) d == Len(A[1]) k == MinOf(n, d) IN
  /\ IsMat(L, n, k) /\ IsMat(U, k, d) /\ UnitLower(L) /\ Bounded(L) /\ Upper(U)
  /\ IF permuteL THEN IsMat(P, n, k) /\ SameRows(P, L) /\ Product(A, P, U, q, c)
                 ELSE IsMat(P, n, n) /\ Permutation(P) /\ Product(A, Permuted(P, L), U, q, c)
--------------------------------------------------------------------------------
IsQR(A, Q, R, full, q, c) == LET n == Len(A) d == Len(A[1]) k == IF full THEN n ELSE MinOf(n, d) IN
  IsMat(Q, n, k) /\ IsMat(R, k, d) /\ Orthonormal(Q, c) /\ Upper(R) /\ Product(A, Q, R, q, c)
--------------------------------------------------------------------------------
Descending(s) == \A i \in 1..Len(s) : s[i] >= 0 /\ (i > 1 => s[i] <= s[i - 1])
\* U . diag(s), U having at least as many columns as s has entries
Stretch(U, s) == Strict([i \in 1..Len(U) |-> Strict([k \in 1..Len(s) |-> MulDiv(U[i][k], s[k], DS)])])
Leftmost(V, k) == Strict([i \in 1..Len(V) |-> SubSeq(V[i], 1, k)])
\* A = U . diag(s) . V^T
Rebuilt(A, U, s, V, q, c) == LET W == Stretch(U, s) Z == Leftmost(V, Len(s)) IN
  \A i \in 1..Len(A) : \A j \in 1..Len(A[1]) : Near(Dot(W[i], Z[j], DS), Fixed(A[i][j], q), 2 * Slip(W[i], Z[j], c) + c * (Mass(s) \div DS + 2 * Len(s)))
IsSVD(A, U, s, V, full, q, c) == LET n == Len(A) d == Len(A[1]) k == MinOf(n, d) IN
  /\ Len(s) = k /\ Descending(s) /\ (\A i \in 1..k : IsNum(s[i]))
  /\ IsMat(U, n, IF full THEN n ELSE k) /\ IsMat(V, d, IF full THEN d ELSE k)
  /\ Orthonormal(U, c) /\ Orthonormal(V, c) /\ Rebuilt(A, U, s, V, q, c)
\* the first k singular triplets of A; all holds all the singular values
IsTop(A, U, s, V, k, all, q, c) ==
  /\ Len(s) = k /\ Descending(s) /\ IsMat(U, Len(A), k) /\ IsMat(V, Len(A[1]), k)
  /\ Orthonormal(U, c) /\ Orthonormal(V, c)
  /\ \A i \in 1..k : Near(s[i], all[i], 2 * c)
  /\ LET W == Transposed(V) Z == Transposed(U) B == Transposed(A) IN
     \A j \in 1..k : /\ \A i \in 1..Len(A) : Near(Dot(A[i], W[j], q), MulDiv(s[j], U[i][j], DS), c * (Mass(A[i]) \div q + s[j] \div DS + 3))
                     /\ \A i \in 1..Len(B) : Near(Dot(B[i], Z[j], q), MulDiv(s[j], V[i][j], DS), c * (Mass(B[i]) \div q + s[j] \div DS + 3))
\* columns of U and V flipped together so that the largest entry of each deciding column is positive
IsFlip(U, V, RU, RV, byU) ==
  /\ IsMat(RU, Len(U), Len(U[1])) /\ IsMat(RV, Len(V), Len(V[1]))
  /\ \A j \in 1..Len(U[1]) : LET u == Col(U, j) v == Col(V, j) D == IF byU THEN u ELSE v IN
       \E t \in {-1, 1} : /\ \A i \in 1..Len(u) : RU[i][j] = t * u[i]
                          /\ \A i \in 1..Len(v) : RV[i][j] = t * v[i]
                          /\ \E i \in 1..Len(D) : t * D[i] >= 0 /\ \A h \in 1..Len(D) : Abs(D[h]) <= Abs(D[i])
--------------------------------------------------------------------------------
(* Moore-Penrose inverse: the four Penrose conditions                          *)
\* singular values up to t are cut off; only for matrices with at most one entry per row and column
Diagonal(A) == /\ \A i \in 1..Len(A) : Cardinality({j \in 1..Len(A[1]) : A[i][j] # 0}) <= 1
               /\ \A j \in 1..Len(A[1]) : Cardinality({i \in 1..Len(A) : A[i][j] # 0}) <= 1
Cut(A, t) == Strict([i \in 1..Len(A) |-> Strict([j \in 1..Len(A[1]) |-> IF Abs(A[i][j]) > t THEN A[i][j] ELSE 0])])
\* the inverse of such a matrix is its transpose with every entry turned over
IsScaledInverse(A, P, q) == /\ IsMat(P, Len(A[1]), Len(A))
                            /\ \A i \in 1..Len(A), j \in 1..Len(A[1]) : IF A[i][j] = 0 THEN Abs(P[j][i]) <= 1 ELSE Near(P[j][i], (DS * q) \div A[i][j], 2 + Abs(P[j][i]) \div 20000)
IsPinv(A, P, q, c) == LET n == Len(A) d == Len(A[1])
                          PT == Transposed(P) AT == Transposed(A)
                          M == Strict([i \in 1..n |-> Strict([j \in 1..n |-> Dot(A[i], PT[j], q)])])       \* A P
                          N == Strict([i \in 1..d |-> Strict([j \in 1..d |-> Dot(P[i], AT[j], q)])])       \* P A
                          MT == Transposed(M)
                          e == Strict([i \in 1..n |-> Mass(A[i]) \div q + 2])                              \* rounding of row i of A P
                          f == Strict([j \in 1..d |-> Mass(AT[j]) \div q + 2])                             \* rounding of column j of P A
                      IN
  /\ IsMat(P, d, n)
  /\ \A i, j \in 1..n : Near(M[i][j], M[j][i], c * (e[i] + e[j]))
  /\ \A i, j \in 1..d : Near(N[i][j], N[j][i], c * (f[i] + f[j]))
  /\ \A i \in 1..n : \A j \in 1..d : Near(Dot(M[i], AT[j], q), Fixed(A[i][j], q), c * (e[i] * (f[j] + 1) + 2))
  /\ \A i \in 1..d : \A j \in 1..n : Near(Dot(P[i], MT[j], DS), P[i][j], c * (Slip(P[i], MT[j], 1) + MulDiv(Mass(P[i]), Sum(e), DS)))
--------------------------------------------------------------------------------
(* Determinants, exactly, by fraction-free elimination                         *)
Swap(M, a, b) == [M EXCEPT ![a] = M[b], ![b] = M[a]]
RECURSIVE Bareiss(_, _, _, _)
Bareiss(M, k, prev, sign) == LET n == Len(M) IN
  IF k = n THEN sign * M[n][n]
  ELSE IF \A i \in k..n : M[i][k] = 0 THEN 0
  ELSE LET r == CHOOSE i \in k..n : M[i][k] # 0
           W == Swap(M, k, r)
           Z == Strict([i \in 1..n |-> Strict([j \in 1..n |-> IF i > k /\ j > k THEN Dot(<<W[k][k], W[i][k]>>, <<W[i][j], -W[k][j]>>, prev) ELSE W[i][j]])])
       IN Bareiss(Z, k + 1, W[k][k], IF r = k THEN sign ELSE -sign)
Det(A) == Bareiss(A, 1, 1, 1)
Leading(A, k) == Strict([i \in 1..k |-> SubSeq(A[i], 1, k)])
LNDS == 1151293        \* DS * ln(DS)
LN4 == 138629          \* DS * ln(4)
LogOf(N) == LnFix(N, DS) + LNDS
\* log(det A) for A in quarters
IsLogDet(A, v, c) == LET D == Det(A) n == Len(A) w == LogOf(D) - n * LN4 IN
  CASE D < 0 -> v = NINF
    [] D = 0 -> v = NINF \/ (IsNum(v) /\ v < -1000000)
    [] D > 0 -> Near(v, w, c * (3 + n + Abs(w) \div 1000000))
--------------------------------------------------------------------------------
(* Cholesky factorisation of a symmetric matrix                                *)
Minors(A) == Strict([k \in 1..Len(A) |-> Det(Leading(A, k))])
\* the first leading minor that is not positive
FirstBad(m) == IF \E k \in 1..Len(m) : m[k] <= 0 THEN CHOOSE k \in 1..Len(m) : m[k] <= 0 /\ \A i \in 1..(k - 1) : m[i] > 0 ELSE 0
MustFactor(A) == FirstBad(Minors(A)) = 0
MustRefuse(A) == LET m == Minors(A) k == FirstBad(m) IN k > 0 /\ m[k] < 0
IsCholesky(A, R, lower, q, c) == LET n == Len(A) L == IF lower THEN R ELSE Transposed(R) IN
  /\ IsMat(R, n, n) /\ Lower(L) /\ (\A i \in 1..n : L[i][i] > 0)
  /\ Product(A, L, Transposed(L), q, c)
--------------------------------------------------------------------------------
(* Eigenvalues and eigenvectors (columns of V) of a matrix whose eigenvalues   *)
(* are all real                                                                *)
MatMul(A, B) == LET T == Transposed(B) IN Strict([i \in 1..Len(A) |-> Strict([j \in 1..Len(T) |-> Dot(A[i], T[j], 1)])])
TraceOf(A) == Sum(Strict([i \in 1..Len(A) |-> A[i][i]]))
RECURSIVE PowerOf(_, _)
PowerOf(A, k) == IF k = 1 THEN A ELSE MatMul(PowerOf(A, k - 1), A)
RECURSIVE PowFix(_, _)
PowFix(x, k) == IF k = 0 THEN DS ELSE MulDiv(PowFix(x, k - 1), x, DS)
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
\* the spectrum has the power sums of A, up to the third
SameSpectrum(A, v, q, c) == LET n == Len(A) IN
  \A k \in 1..MinOf(n, 3) :
     LET sums == Sum(Strict([i \in 1..n |-> PowFix(v[i], k)]))
         size == Sum(Strict([i \in 1..n |-> PowFix(Abs(v[i]), k - 1) \div DS + 1]))
     IN Near(sums, MulDiv(TraceOf(PowerOf(A, k)), DS, Pow(q, k)), c * k * (size + n))
IsEigen(A, v, V, q, c) == LET n == Len(A) T == Transposed(V) IN
  /\ Len(v) = n /\ IsMat(V, n, n) /\ SameSpectrum(A, v, q, c)
  /\ \A j \in 1..n : /\ Near(Norm2(T[j]), DS, c * (n + 1))
                     /\ \A i \in 1..n : Near(Dot(A[i], T[j], q), MulDiv(v[j], V[i][j], DS), c * (Mass(A[i]) \div q + Abs(v[j]) \div DS + 3))
\* a pair of complex eigenvalues
Complex(A) == Len(A) = 2 /\ (A[1][1] - A[2][2]) * (A[1][1] - A[2][2]) + 4 * A[1][2] * A[2][1] < 0
==============================================================================
