---------------------------- MODULE LayoutTrace ----------------------------
(* Recorded histories: a memory of scalars, all views made of it, and calls  *)
(* of the functions that compute with packs of indices.                      *)
EXTENDS Layout, TraceCommon
VARIABLES mem, vs, l
vars == <<mem, vs, l>>
Nil == [x \in {} |-> 0]
INV == 99999999
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.event = e /\ l' = l + 1
Init == mem = <<>> /\ vs = <<>> /\ l = 1
Keep == UNCHANGED <<mem, vs>>
New == Is("New") /\ mem' = [k \in 1..R.L |-> k - 1] /\ vs' = <<>>
\* the view of the memory that an operation gives
V(id) == vs[id + 1]
Made == CASE R.how = "alloc" -> [n |-> R.n, ext |-> R.ext, off |-> R.off, pad |-> R.pad, cst |-> R.cst]
          [] R.how = "scalarize" -> Scalarize(V(R.from))
          [] R.how = "repack" -> Repack(V(R.from), R.m)
          [] OTHER -> Reshape(V(R.from), R.dims)
View == /\ Is("View") /\ R.id = Len(vs) /\ R.same
        /\ (R.how = "repack" => CanRepack(V(R.from), R.m))
        /\ (R.how = "alloc" => vs = <<>>)
        /\ [n |-> R.n, ext |-> R.ext, off |-> R.off, pad |-> R.pad, cst |-> R.cst] = Made
        /\ Size(Made) <= Len(mem) /\ (R.how = "alloc" /\ R.pad = 0 => Size(Made) = Len(mem))
        /\ vs' = Append(vs, Made) /\ UNCHANGED mem
Write == Is("Write") /\ ~V(R.id).cst /\ mem' = [mem EXCEPT ![Addr(V(R.id), R.idx, R.lane) + 1] = R.x] /\ UNCHANGED vs
Read == Is("Read") /\ R.r = mem[Addr(V(R.id), R.idx, R.lane) + 1] /\ Keep
\* all elements of a view in row-major order, lanes inside; the memory itself
Rows(v, n) == [k \in 1..n |-> Addr(v, Unlin(v.ext, (k - 1) \div Width(v.n)), (k - 1) % Width(v.n)) + 1]
Table == Is("Table") /\ LET a == Rows(V(R.id), Size(V(R.id))) IN R.r = [k \in DOMAIN a |-> mem[a[k]]] /\ Keep
Dump == Is("Dump") /\ R.r = mem /\ Keep
Dies == Is("Dies") /\ (R.how = "repack" => ~CanRepack(V(R.id), R.m)) /\ (R.how = "reshape" => Prod(R.dims) # Prod(V(R.id).ext)) /\ R.r /\ Keep
Idx(n) == 0..(n - 1)
Info == /\ Is("Info")
        /\ LET n == R.n  len == R.len  S(f(_)) == [i \in 1..len |-> f(i - 1)] IN
           /\ R.packs = NumPacks(n, len) /\ R.padding = Padding(n, len) /\ R.padded = (Padding(n, len) # 0) /\ R.lastend = LastEnd(n, len) /\ R.last = NumPacks(n, len) - 1
           /\ R.ends = [k \in 1..NumPacks(n, len) |-> VecEnd(n, len, k - 1)]
           /\ R.pi = S(LAMBDA i : i \div n) /\ R.vi = S(LAMBDA i : i % n) /\ R.pf = R.pi /\ R.ps = R.vi
           /\ R.ai = S(LAMBDA i : i) /\ R.ai2 = R.ai /\ R.ai3 = R.ai
        /\ Keep
\* gathering: the array has value 3k+1 at row-major number k
Index == Is("Index") /\ R.r = [i \in DOMAIN R.r |-> 3 * Lin(R.ext, [d \in DOMAIN R.ext |-> R.is[d][i]]) + 1] /\ Len(R.r) = Len(R.is[1]) /\ Keep
IndexShift == /\ Is("IndexShift")
              /\ LET i0 == R.is[1] IN
                 /\ R.r = [i \in DOMAIN i0 |-> R.a[i0[i] + 1]]
                 /\ R.rs = [i \in DOMAIN i0 |-> IF i0[i] + R.shift \in Idx(Len(R.a)) THEN R.a[i0[i] + R.shift + 1] ELSE INV]
              /\ Keep
Diff == Is("Diff") /\ LET a == Flat(R.a) IN Flat(R.r) = [k \in DOMAIN a |-> IF R.fwd THEN Fwd(a, k) ELSE Bwd(a, k)] /\ Keep
Fill == Is("Fill") /\ R.drawn = R.len /\ R.r = [k \in 1..R.len |-> k] /\ Keep
\* a slice is filled in row-major order, the rest of the memory (-1) is left alone
FillSlice == /\ Is("FillSlice")
             /\ LET v == [n |-> R.n, ext |-> R.ext, off |-> R.off, pad |-> R.pad]  a == Rows(v, Size(v)) IN
                /\ \A k \in DOMAIN a : R.r[a[k]] = k
                /\ \A k \in DOMAIN R.r : R.r[k] # -1 => \E j \in DOMAIN a : a[j] = k
             /\ Keep
Mirror == Is("Mirror") /\ R.ext /\ R.r = R.a /\ Keep
\* a data type is pointers outside, arrays inside; scalarizing multiplies the innermost array, or makes one of a bare pack
Type == /\ Is("Type") /\ R.rn = 0 /\ R.rs = R.s
        /\ R.rdims = IF R.n = 0 THEN R.dims
                     ELSE IF R.dims = <<>> \/ R.dims[Len(R.dims)] = 0 THEN (IF R.dims = <<>> THEN <<R.n>> ELSE R.dims)
                     ELSE ScalarDims(R.dims, R.n)
        /\ Keep
Next == New \/ View \/ Write \/ Read \/ Table \/ Dump \/ Dies \/ Info \/ Index \/ IndexShift \/ Diff \/ Fill \/ FillSlice \/ Mirror \/ Type
Spec == Init /\ [][Next]_vars
=============================================================================
