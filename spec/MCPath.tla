------------------------------- MODULE MCPath -------------------------------
(***************************************************************************)
(* The units built by MCUsl, with the laws of the paths (C15).             *)
(***************************************************************************)
EXTENDS MCUsl, IEMLPath

\* every path of a unit is written, read back, and leads to the component of the unit; different components that are at the
\* same level have different paths
PathLaw == HasPaths(x) =>
  LET A == TLCEval(UPaths(x, FALSE)) IN
  \A z \in A : /\ PParse(PathText(z[1])) = z[1]
               /\ Deref(z[1], x) = z[2]
               /\ \A y \in A : PathText(y[1]) = PathText(z[1]) => y = z

\* the morphemes at the paths of the unit are the unit
ComposeLaw == (IsComposed(x) /\ UCheck(x)) =>
  LET S == TLCEval(UPaths(x, TRUE)) IN S # {} => Compose(S) = x

\* prefixes: reflexive, transitive, antisymmetric; and the component at a prefix contains the component
PrefixLaw == HasPaths(x) =>
  LET A == TLCEval({z[1] : z \in UPaths(x, FALSE)}) IN
  \A p \in A : /\ HasPrefix(p, p)
               /\ \A q \in A : /\ AfterPrefix(p, q) # "" => PathText(p) = PathText(q) \o AfterPrefix(p, q)
                               /\ (HasPrefix(p, q) /\ HasPrefix(q, p)) => p = q
                               /\ \A r \in A : (HasPrefix(p, q) /\ HasPrefix(q, r)) => HasPrefix(p, r)

EmitPath == Emit /\ (HasPaths(x) => \A z \in UPaths(x, FALSE) : PrintT("CASE " \o ToJson([p |-> PathText(z[1])])))
=============================================================================
