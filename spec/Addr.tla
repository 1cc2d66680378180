-------------------------------- MODULE Addr --------------------------------
(***************************************************************************)
(* Network addresses as lists of components, their byte and text forms,     *)
(* and what the helpers derive from them.  A component is a record          *)
(* [p |-> name, v |-> bytes]; text is a sequence of character codes.        *)
(* The text forms of IPv6 addresses and peer identities come with a case    *)
(* as a table L of records [k, t, v] (kind, text, value).                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Take(s, n) == SubSeq(s, 1, n)
Skip(s, n) == SubSeq(s, n + 1, Len(s))
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]

Names == {"dns4", "dns6", "tls"}
Fixed == [ip4 |-> 4, ip6 |-> 16, tcp |-> 2, ws |-> 0, wss |-> 0]
Code == [ip4 |-> 4, tcp |-> 6, ip6 |-> 41, dns4 |-> 54, dns6 |-> 55, p2p |-> 421, tls |-> 448, ws |-> 477, wss |-> 478]
Protos == DOMAIN Code

----------------------------------------------------------------------------
(* numbers *)
RECURSIVE Varint(_)
Varint(n) == IF n < 128 THEN <<n>> ELSE <<(n % 128) + 128>> \o Varint(n \div 128)

(* the number at the start of b: [ok, n, len]; only the shortest form counts. *)
(* Numbers from 2^21 on are all "large".                                       *)
LARGE == 2097152
ReadNum(b) ==
  IF b = <<>> THEN [ok |-> FALSE]
  ELSE IF b[1] < 128 THEN [ok |-> TRUE, n |-> b[1], len |-> 1]
  ELSE IF Len(b) < 2 THEN [ok |-> FALSE]
  ELSE IF b[2] < 128 THEN [ok |-> b[2] > 0, n |-> b[1] - 128 + 128 * b[2], len |-> 2]
  ELSE IF Len(b) < 3 THEN [ok |-> FALSE]
  ELSE IF b[3] < 128 THEN [ok |-> b[3] > 0, n |-> b[1] - 128 + 128 * (b[2] - 128) + 16384 * b[3], len |-> 3]
  ELSE [ok |-> FALSE]      \* no code and no length of a short input is that large

----------------------------------------------------------------------------
(* UTF-8 *)
Cont(x) == x >= 128 /\ x < 192
RECURSIVE Utf8(_)
Utf8(b) ==
  IF b = <<>> THEN TRUE
  ELSE LET x == b[1]
           c(i) == Len(b) >= i /\ Cont(b[i]) IN
       IF x < 128 THEN Utf8(Skip(b, 1))
       ELSE IF x \in 194..223 THEN c(2) /\ Utf8(Skip(b, 2))
       ELSE IF x \in 224..239
            THEN c(2) /\ c(3) /\ (x = 224 => b[2] >= 160) /\ (x = 237 => b[2] < 160) /\ Utf8(Skip(b, 3))
       ELSE IF x \in 240..244
            THEN c(2) /\ c(3) /\ c(4) /\ (x = 240 => b[2] >= 144) /\ (x = 244 => b[2] < 144) /\ Utf8(Skip(b, 4))
       ELSE FALSE

----------------------------------------------------------------------------
(* values *)
SLASH == 47
ValidId(v) == Len(v) = 34 /\ v[1] = 18 /\ v[2] = 32
ValidName(v) == Utf8(v)
(* a name with a slash in it has no text form that can be read back *)
Plain(cs) == \A i \in 1..Len(cs) : cs[i].p \in Names => \A k \in 1..Len(cs[i].v) : cs[i].v[k] # SLASH
Valid(c) == IF c.p \in DOMAIN Fixed THEN Len(c.v) = Fixed[c.p]
            ELSE IF c.p = "p2p" THEN ValidId(c.v) ELSE ValidName(c.v)

(* bytes *)
EncC(c) == Varint(Code[c.p]) \o (IF c.p \in DOMAIN Fixed THEN <<>> ELSE Varint(Len(c.v))) \o c.v
Encode(cs) == Flat(Map(EncC, cs))

ERR == [ok |-> FALSE, cs |-> <<>>]
RECURSIVE Decode(_)
Decode(b) ==
  IF b = <<>> THEN [ok |-> TRUE, cs |-> <<>>]
  ELSE LET id == ReadNum(b) IN
    IF ~id.ok \/ \A p \in Protos : Code[p] # id.n THEN ERR
    ELSE LET p == CHOOSE q \in Protos : Code[q] = id.n
             r == Skip(b, id.len)
             len == IF p \in DOMAIN Fixed THEN [ok |-> TRUE, n |-> Fixed[p], len |-> 0] ELSE ReadNum(r) IN
      IF ~len.ok THEN ERR
      ELSE LET d == Skip(r, len.len) IN
        IF Len(d) < len.n THEN ERR
        ELSE LET c == [p |-> p, v |-> Take(d, len.n)]
                 rest == IF Valid(c) THEN Decode(Skip(d, len.n)) ELSE ERR IN
          IF rest.ok THEN [ok |-> TRUE, cs |-> <<c>> \o rest.cs] ELSE ERR

----------------------------------------------------------------------------
(* text *)
Digit(x) == x \in 48..57
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>

Word == [ip4 |-> <<105, 112, 52>>, ip6 |-> <<105, 112, 54>>, tcp |-> <<116, 99, 112>>, dns4 |-> <<100, 110, 115, 52>>,
         dns6 |-> <<100, 110, 115, 54>>, tls |-> <<116, 108, 115>>, p2p |-> <<112, 50, 112>>, ws |-> <<119, 115>>, wss |-> <<119, 115, 115>>]

Leaf(L, k, v) == (CHOOSE i \in 1..Len(L) : L[i].k = k /\ L[i].v = v /\ L[i].c)
ValueText(L, c) ==
  CASE c.p = "ip4" -> Dec(c.v[1]) \o <<46>> \o Dec(c.v[2]) \o <<46>> \o Dec(c.v[3]) \o <<46>> \o Dec(c.v[4])
    [] c.p = "tcp" -> Dec(c.v[1] * 256 + c.v[2])
    [] c.p \in Names -> c.v
    [] OTHER -> L[Leaf(L, c.p, c.v)].t
TextC(L, c) == <<SLASH>> \o Word[c.p] \o (IF c.p \in {"ws", "wss"} THEN <<>> ELSE <<SLASH>> \o ValueText(L, c))
Text(L, cs) == Flat([i \in 1..Len(cs) |-> TextC(L, cs[i])])

RECURSIVE Split(_, _, _)
Split(t, sep, cur) ==
  IF t = <<>> THEN <<cur>>
  ELSE IF Head(t) = sep THEN <<cur>> \o Split(Tail(t), sep, <<>>)
  ELSE Split(Tail(t), sep, Append(cur, Head(t)))

RECURSIVE Value(_)
Value(ds) == IF ds = <<>> THEN 0
             ELSE LET n == Value(Take(ds, Len(ds) - 1)) IN
                  IF n > 100000 THEN n ELSE n * 10 + ds[Len(ds)] - 48
Digits(s) == s # <<>> /\ \A i \in 1..Len(s) : Digit(s[i])

Port(s0) == LET s == IF s0 # <<>> /\ s0[1] = 43 THEN Tail(s0) ELSE s0 IN
            IF Digits(s) /\ Value(s) < 65536
            THEN [ok |-> TRUE, v |-> <<Value(s) \div 256, Value(s) % 256>>] ELSE [ok |-> FALSE]
Quad(s) == LET q == Split(s, 46, <<>>)
               okp(d) == Digits(d) /\ Len(d) <= 3 /\ (Len(d) > 1 => d[1] # 48) /\ Value(d) < 256 IN
           IF Len(q) = 4 /\ \A i \in 1..4 : okp(q[i])
           THEN [ok |-> TRUE, v |-> [i \in 1..4 |-> Value(q[i])]] ELSE [ok |-> FALSE]
Look(L, k, s) == LET m == {i \in 1..Len(L) : L[i].k = k /\ L[i].t = s} IN
                 IF m = {} THEN [ok |-> FALSE] ELSE [ok |-> TRUE, v |-> L[CHOOSE i \in m : TRUE].v]

RECURSIVE ParseParts(_, _)
ParseParts(L, ps) ==
  IF ps = <<>> THEN [ok |-> TRUE, cs |-> <<>>]
  ELSE IF \A p \in Protos : Word[p] # Head(ps) THEN ERR
  ELSE LET p == CHOOSE q \in Protos : Word[q] = Head(ps)
           bare == p \in {"ws", "wss"} IN
    IF ~bare /\ Len(ps) < 2 THEN ERR
    ELSE LET val == CASE p = "ip4" -> Quad(ps[2])
                      [] p = "tcp" -> Port(ps[2])
                      [] p \in Names -> [ok |-> TRUE, v |-> ps[2]]
                      [] bare -> [ok |-> TRUE, v |-> <<>>]
                      [] OTHER -> Look(L, p, ps[2])
             rest == IF val.ok THEN ParseParts(L, Skip(ps, IF bare THEN 1 ELSE 2)) ELSE ERR IN
         IF rest.ok THEN [ok |-> TRUE, cs |-> <<[p |-> p, v |-> val.v]>> \o rest.cs] ELSE ERR
ParseText(L, t) == LET ps == Split(t, SLASH, <<>>) IN
                   IF ps[1] # <<>> THEN ERR ELSE ParseParts(L, Tail(ps))

----------------------------------------------------------------------------
(* what the helpers derive *)
IsIp(c) == c.p \in {"ip4", "ip6"}
Pairs(cs, k1) == {i \in 1..(Len(cs) - 1) : cs[i].p \in k1 /\ cs[i + 1].p = "tcp"}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
(* clear: the pair is not preceded by an address or name that claims it *)
Doubled(cs, k1) == \E i \in 1..(Len(cs) - 1) : cs[i].p \in k1 /\ cs[i + 1].p \in k1
Socket(cs) == LET S == Pairs(cs, {"ip4", "ip6"}) IN
              IF S = {} THEN [ok |-> FALSE]
              ELSE [ok |-> TRUE, ip |-> cs[First(S)].v, port |-> cs[First(S) + 1].v]
PeerOf(cs) == LET S == {i \in 1..Len(cs) : cs[i].p = "p2p"} IN
              IF S = {} THEN [ok |-> FALSE] ELSE [ok |-> TRUE, v |-> cs[First(S)].v]
Has(cs, p) == \E i \in 1..Len(cs) : cs[i].p = p

(* addresses of no use outside the own machine or network *)
Local4(a) == \/ a[1] = 10 \/ a[1] = 127
             \/ a[1] = 172 /\ a[2] \in 16..31
             \/ a[1] = 192 /\ a[2] = 168
             \/ a[1] = 169 /\ a[2] = 254
             \/ a = <<255, 255, 255, 255>> \/ a = <<0, 0, 0, 0>>
             \/ Take(a, 3) \in {<<192, 0, 2>>, <<198, 51, 100>>, <<203, 0, 113>>}
Zero(n) == [i \in 1..n |-> 0]
Local6(a) == IF a[1] = 255 THEN a[2] % 16 # 14          \* multicast: only the global scope
             ELSE \/ a = Zero(16) \/ a = Zero(15) \o <<1>>
                  \/ a[1] = 254 /\ a[2] \div 64 \in {2, 3}   \* link-local, site-local
                  \/ a[1] \in {252, 253}                     \* unique local
                  \/ Take(a, 4) = <<32, 1, 13, 184>>         \* documentation
Reachable(a) == IF Len(a) = 4 THEN ~Local4(a) ELSE ~Local6(a)
=============================================================================
