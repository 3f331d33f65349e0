--------------------------- MODULE FilterFunction ---------------------------
(***************************************************************************)
(* First order filter function of a piecewise constant pulse, built        *)
(* segment by segment: the noise operator B with susceptibility s[g] in    *)
(* the frame rotating with the pulse, Fourier transformed at the frequency *)
(* om.  The infidelity density of one noise operator at one frequency is   *)
(*     J = S tr(A^dag A) / (2 pi d),   A = int_0^T s(t) Q(t)^dag B Q(t) e^(i om t) dt *)
(* u[g,j] control amplitudes, Hd drift, Hc controls, dt durations.  The    *)
(* susceptibility is constant or a function of the amplitudes (Computed).  *)
(* Gradients by u[g,j] come from symbolic differentiation.                 *)
(***************************************************************************)
EXTENDS Terms, FiniteSets

CONSTANT Shapes      \* set of [nt, nc, computed, deriv]
VARIABLES shape, t, A, Q, QD
vars == <<shape, t, A, Q, QD>>

MinusI == MulS(<<Num(-1, 1), Im>>)
U(g, j) == At("u", <<g, j>>)
Om == At("om", <<>>)
B == At("B", <<>>)
(* differentiated only if a derivative was declared *)
S(sh, g) == IF sh.computed /\ sh.deriv
            THEN Fun("s", <<g>>, [j \in 1..sh.nc |-> U(g, j)]) ELSE At("s", <<g>>)
Ham(sh, g) == AddS(<<At("Hd", <<g>>)>> \o [j \in 1..sh.nc |-> Mul(U(g, j), At("Hc", <<j>>))])
K(sh, g) == Mul(MinusI, Ham(sh, g))
Slice(sh, g) == Exp(Mul(At("dt", <<g>>), K(sh, g)))
(* exp of the block matrix [[k, b], [0, k + i om]]: upper right block *)
Block(k, b, l) == <<"block", k, b, l>>
Window(sh, g) ==
  Mul(Dag(Slice(sh, g)),
      U1("ur", Exp(Mul(At("dt", <<g>>), Block(K(sh, g), B, Add(K(sh, g), MulS(<<Im, Om, Idm>>)))))))
Phase(g) == <<"cis", Mul(Om, At("dt", <<g>>))>>

Init == /\ shape \in Shapes /\ t = 0
        /\ A = <<>> /\ Q = <<>> /\ QD = <<>>
(* contribution of the segments a+1..b, in the frame at the beginning of a+1 *)
Contribution(sh, a, g) ==
  MulS([h \in 1..(g - 1 - a) |-> Phase(a + h)] \o <<S(sh, g)>>
       \o [h \in 1..(g - 1 - a) |-> Dag(Slice(sh, a + h))] \o <<Window(sh, g)>>
       \o [h \in 1..(g - 1 - a) |-> Slice(sh, g - h)])
Step == /\ t < shape.nt /\ t' = t + 1
        /\ A' = Append(A, MulS([h \in 1..t |-> Phase(h)] \o <<S(shape, t + 1)>> \o QD
                               \o <<Window(shape, t + 1)>> \o Q))
        /\ Q' = <<Slice(shape, t + 1)>> \o Q
        /\ QD' = Append(QD, Dag(Slice(shape, t + 1)))
        /\ UNCHANGED shape
Spec == Init /\ [][Step]_vars
Done == t = shape.nt

Total == AddS(A)
Density == MulS(<<At("S", <<>>), At("norm", <<>>), Re(Tr(Mul(Dag(Total), Total)))>>)

(* --- laws --- *)
IsScalar(e) == e[1] \in {"num", "im", "cis", "fun"} \/ (e[1] = "at" /\ e[2] \in {"s", "om", "S", "norm", "u", "dt"})
Normal(e) == LET w == Word(e) IN <<SelectSeq(w, LAMBDA x : ~IsScalar(x)), {x \in {w[i] : i \in DOMAIN w} : IsScalar(x)}>>
(* two pulses in a row: the second one seen from the frame of the first *)
Concatenation ==
  Done => \A k \in 0..shape.nt :
    /\ \A g \in 1..k : Normal(A[g]) = Normal(Contribution(shape, 0, g))
    /\ \A g \in (k + 1)..shape.nt :
         Normal(A[g]) = Normal(MulS([h \in 1..k |-> Phase(h)] \o [h \in 1..k |-> Dag(Slice(shape, h))]
                                    \o <<Contribution(shape, k, g)>> \o [h \in 1..k |-> Slice(shape, k + 1 - h)]))
(* a segment is not influenced by later ones *)
Causal == \A g \in 1..t : \A j \in 1..shape.nc : \A h \in (g + 1)..shape.nt :
             IsZero(D(A[g], <<"u", <<h, j>>>>))

Payload == [shape |-> shape, total |-> MulS(Q), density |-> Density,
            grad |-> [g \in 1..shape.nt |-> [j \in 1..shape.nc |-> D(Density, <<"u", <<g, j>>>>)]]]
EmitDone == Done => Emit(Payload)
=============================================================================
